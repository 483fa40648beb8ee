"""C21: the written file parses back to the document."""
import os
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ElementType, ContactPoint
from pyodrx.geometry import PlanView
from pyodrx.lane import Lanes
from pyodrx.links import Junction
from pyodrx.opendrive import OpenDrive, Road
from pyodrx.signals_objects import Signal
from contracts.geoms import any_geometry
from contracts.lanes import make_section

CONFIG = {"assumptions": ['xml.etree and xml.dom.minidom write and parse XML as documented (escaping, encoding); the parsed file is the written tree']}


def build(name):
    """a document with texts everywhere texts can be"""
    n, m = any_size('roads'), any_size('junctions')
    od = OpenDrive(name)
    for i in range(n):
        pv = PlanView(any_real('x', i), any_real('y', i), any_real('h', i))
        pv.add_geometry(any_geometry(i))
        pv.adjust_geometries()
        lanes = Lanes()
        lanes.add_lanesection(make_section(1, 1, i))
        r = Road(any_id('road', i), pv, lanes, name=any_none_or('no_name', any_text('road_name', i), i))
        r.add_successor(ElementType.road, any_text('to', i), ContactPoint.start)
        od.add_road(r)
    if any_bool('signal') and n > 0:
        r.add_signal(Signal(any_real('s'), any_real('t'), any_text('country'), any_text('type'), any_text('subtype'), name=any_text('signal_name')))
    for i in range(m):
        od.add_junction(Junction(any_text('junction_name', i), any_int('jid', i)))
    return od


def default_name(name):
    """the operating system can have files of that name"""
    if not SYMBOLIC:
        try:
            os.fsencode(name)
        except UnicodeEncodeError:
            requires(False)
    return name + '.xodr'


def contract_given_file_name():
    od = build(any_text('name'))
    want = od.get_element()
    od.write_xml('out.xodr', any_bool('pretty'))
    ensures_tree('parsed file', document('out.xodr'), want, skip=('date',))


def contract_default_arguments():
    od = build(any_text('name'))
    want = od.get_element()
    default_name(any_text('name'))
    od.write_xml()
    ensures_tree('parsed file', document(default_name(any_text('name'))), want, skip=('date',))


def contract_default_name_not_pretty():
    od = build(any_text('name'))
    want = od.get_element()
    default_name(any_text('name'))
    od.write_xml(prettyprint=False)
    ensures_tree('parsed file', document(default_name(any_text('name'))), want, skip=('date',))


def contract_file_is_replaced():
    """written twice: first a longer document, then a shorter one, or the other way round, pretty or not"""
    a, b = OpenDrive(any_text('first')), OpenDrive(any_text('second'))
    big = a if any_bool('first_is_bigger') else b
    for i in range(any_size('junctions')):
        big.add_junction(Junction(any_text('junction_name', i), any_int('jid', i)))
    a.write_xml('same.xodr', any_bool('pretty', 0))
    want = b.get_element()
    b.write_xml('same.xodr', any_bool('pretty', 1))
    ensures_tree('second document', document('same.xodr'), want, skip=('date',))


def contract_writing_twice_gives_the_same():
    od = build(any_text('name'))
    want = od.get_element()
    od.write_xml('a.xodr', any_bool('pretty', 0))
    od.write_xml('b.xodr', any_bool('pretty', 1))
    ensures_tree('first file', document('a.xodr'), want, skip=('date',))
    ensures_tree('second file', document('b.xodr'), want, skip=('date',))
    ensures_tree('the document is unchanged', od.get_element(), want, skip=('date',))
