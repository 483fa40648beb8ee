"""C14: the document contains every added part once and in order."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ElementType, ContactPoint, Direction, RoadMarkType
from pyodrx.geometry import PlanView, Line
from pyodrx.lane import Lane, LaneSection, Lanes, RoadMark
from pyodrx.links import Junction, Connection
from pyodrx.opendrive import OpenDrive, Road
from pyodrx.signals_objects import Object, Signal
from contracts.geoms import any_geometry
from contracts.lanes import make_lane, lane_element, name_of


def small_lanes(*i):
    lanes = Lanes()
    lanes.add_lanesection(LaneSection(any_real('sec_s', *i), Lane(a=any_real('centre_a', *i))))
    return lanes


def small_lanes_element(*i):
    e = ET.Element('lanes')
    s = ET.SubElement(e, 'laneSection', attrib={'s': str(any_real('sec_s', *i))})
    c = ET.SubElement(s, 'center')
    l = ET.SubElement(c, 'lane', attrib={'id': '0', 'type': 'driving', 'level': 'false'})
    ET.SubElement(l, 'link')
    ET.SubElement(l, 'width', attrib={'a': str(any_real('centre_a', *i)), 'b': '0', 'c': '0', 'd': '0', 'sOffset': '0'})
    return e


def contract_document():
    """any number of roads and junctions"""
    n, m = any_size('roads'), any_size('junctions')
    od = OpenDrive(any_text('name'))
    want = []
    for i in range(n):
        od.add_road(Road(any_id('road', i), PlanView(), small_lanes(i), any_int('junction', i)))
        e = ET.Element('road', attrib={'id': str(any_id('road', i)), 'junction': str(any_int('junction', i)), 'length': '0'})
        ET.SubElement(e, 'link')
        ET.SubElement(e, 'planView')
        e.append(small_lanes_element(i))
        want.append(e)
    for i in range(m):
        j = Junction(any_text('jname', i), any_int('jid', i))
        j.add_connection(Connection(any_int('incoming', i), any_int('connecting', i), any_enum(ContactPoint, 'cp', i), any_int('cid', i)))
        od.add_junction(j)
        e = ET.Element('junction', attrib={'name': any_text('jname', i), 'id': str(any_int('jid', i))})
        ET.SubElement(e, 'connection', attrib={'incomingRoad': str(any_int('incoming', i)), 'connectingRoad': str(any_int('connecting', i)), 'contactPoint': any_enum(ContactPoint, 'cp', i).name, 'id': str(any_int('cid', i))})
        want.append(e)
    doc = od.get_element()
    ensures('document element', doc.tag == 'OpenDRIVE')
    got = list(doc)
    ensures_same('number of elements', len(got), 1 + n + m)
    requires(len(got) == 1 + n + m)
    ensures('header first', got[0].tag == 'header')
    forall(n, lambda i: ensures_tree('road', got[1 + i], want[i]))
    forall(m, lambda i: ensures_tree('junction', got[1 + n + i], want[n + i]))


def contract_document_interleaved():
    """roads with junctions added in between or not"""
    n = any_size('n')
    od = OpenDrive('x')
    roads, junctions = ET.Element('roads'), ET.Element('junctions')
    for i in range(n):
        if any_bool('junction_before', i):
            j = Junction(any_text('jname', i, 0), any_int('jid', i, 0))
            od.add_junction(j)
            ET.SubElement(junctions, 'junction', attrib={'name': any_text('jname', i, 0), 'id': str(any_int('jid', i, 0))})
        od.add_road(Road(any_id('road', i), PlanView(), small_lanes(i)))
        ET.SubElement(roads, 'id', attrib={'id': str(any_id('road', i))})
        if any_bool('junction_after', i):
            j = Junction(any_text('jname', i, 1), any_int('jid', i, 1))
            od.add_junction(j)
            ET.SubElement(junctions, 'junction', attrib={'name': any_text('jname', i, 1), 'id': str(any_int('jid', i, 1))})
    groads, gjunctions = ET.Element('roads'), ET.Element('junctions')
    doc = od.get_element()
    for c in doc:
        if c.tag == 'road':
            ET.SubElement(groads, 'id', attrib={'id': c.get('id')})
        elif c.tag == 'junction':
            gjunctions.append(c)
    ensures_tree('roads in order', groads, roads)
    ensures_tree('junctions in order', gjunctions, junctions)


def contract_road_parts():
    """which elements a road has and in which order"""
    pv = PlanView(any_real('x'), any_real('y'), any_real('h'))
    n = any_size('geometries')
    for i in range(n):
        pv.add_geometry(any_geometry(i))
    k = any_size('sections')
    lanes = Lanes()
    for i in range(k):
        lanes.add_lanesection(LaneSection(any_real('s', i), Lane(a=any_real('centre_a', i))))
    pv.adjust_geometries()
    road = Road(any_int('id'), pv, lanes)
    wlinks = ET.Element('link')
    for i in range(2):
        c = any_case('link', 4, i)
        if c == 1 and road.successor is None:
            road.add_successor(ElementType.road, any_int('to', i), ContactPoint.start)
            ET.SubElement(wlinks, 'successor', attrib={'elementType': 'road', 'elementId': str(any_int('to', i)), 'contactPoint': 'start'})
        if c == 2 and road.predecessor is None:
            road.add_predecessor(ElementType.junction, any_int('to', i))
            ET.SubElement(wlinks, 'predecessor', attrib={'elementType': 'junction', 'elementId': str(any_int('to', i))})
        if c == 3:
            road.add_neighbor(ElementType.road, any_int('to', i), Direction.same)
            ET.SubElement(wlinks, 'neighbor', attrib={'elementType': 'road', 'elementId': str(any_int('to', i)), 'direction': 'same'})
    sigs, objs = any_bool('has_signals'), any_bool('has_objects')
    want = ['link', 'planView', 'lanes']
    if sigs:
        road.add_signal(Signal(any_real('sig_s'), 0, 'se', '1'))
    if objs:
        road.add_object(Object(any_real('obj_s'), 0))
    if sigs:
        want.append('signals')
    if objs:
        want.append('objects')
    got = list(road.get_element())
    ensures_same('number of parts', len(got), len(want))
    requires(len(got) == len(want))
    for i in range(len(want)):
        ensures_same('part of the road', got[i].tag, want[i])
    ensures_tree('links in the order added', got[0], wlinks)
    ensures_same('all geometries', len(list(got[1])), n)
    secs = list(got[2])
    ensures_same('all lane sections', len(secs), k)
    requires(len(secs) == k)
    forall(k, lambda i: ensures_same('lane section in order', float(secs[i].get('s')), any_real('s', i)))


def contract_signals_and_objects():
    """any number of signals and objects with given, different ids, one by one or as lists"""
    n, m = any_size('signals', 1), any_size('objects', 1)
    road = Road(any_int('id'), PlanView(), small_lanes())
    sigs = [Signal(any_real('sig_s', i), any_real('sig_t', i), 'se', '1') for i in range(n)]
    objs = [Object(any_real('obj_s', i), any_real('obj_t', i)) for i in range(m)]
    if any_bool('lists'):
        road.add_object(objs)
        road.add_signal(sigs)
    else:
        for s in sigs:
            road.add_signal(s)
        for o in objs:
            road.add_object(o)
    parts = list(road.get_element())
    ensures_same('parts', len(parts), 5)
    requires(len(parts) == 5)
    ss, os = list(parts[3]), list(parts[4])
    ensures_same('number of signals', len(ss), n)
    ensures_same('number of objects', len(os), m)
    requires(len(ss) == n and len(os) == m)
    forall(n, lambda i: ensures_tree('signal in order', ss[i], sigs[i].get_element()))
    forall(m, lambda i: ensures_tree('object in order', os[i], objs[i].get_element()))


def contract_one_kind_in_batches():
    """signals or objects, added one by one and as lists of any lengths in turn; only their own element appears"""
    road = Road(any_int('id'), PlanView(), small_lanes())
    signals = any_bool('signals')
    added = []
    for k in range(2 if SYMBOLIC else 4):
        if any_bool('list', k):
            n = any_size('n%d' % k, 0, 2)
            new = [Signal(any_real('s', k, i), any_real('t', k, i), 'se', '1') if signals else Object(any_real('s', k, i), any_real('t', k, i)) for i in range(n)]
            if signals:
                road.add_signal(new)
            else:
                road.add_object(new)
            added = added + new
        else:
            x = Signal(any_real('s', k, 0), any_real('t', k, 0), 'se', '1') if signals else Object(any_real('s', k, 0), any_real('t', k, 0))
            if signals:
                road.add_signal(x)
            else:
                road.add_object(x)
            added = added + [x]
        if not SYMBOLIC and any_bool('emitted', k):
            road.get_element()
    parts = list(road.get_element())
    if len(added) == 0:
        ensures_same('no further part', len(parts), 3)
        return
    ensures_same('one further part', len(parts), 4)
    requires(len(parts) == 4)
    ensures_same('part', parts[3].tag, 'signals' if signals else 'objects')
    got = list(parts[3])
    ensures_same('number of elements', len(got), len(added))
    requires(len(got) == len(added))
    forall(len(added), lambda i: ensures_tree('element in order', got[i], added[i].get_element()))


def contract_lane_parts():
    """any number of lanes a side, with or without road mark; width once, the mark only if added"""
    n, m = any_size('left'), any_size('right')
    centre = make_lane('c', 0)
    sec = LaneSection(any_real('s'), centre)
    want = ET.Element('laneSection', attrib={'s': str(any_real('s'))})

    def add(side, sign, i, parent, method):
        lane = make_lane(side, i)
        e = lane_element(sign * (i + 1), [], side, i)
        if any_bool('marked', side, i):
            lane.add_roadmark(RoadMark(any_enum(RoadMarkType, 'mark', side, i), any_real('mark_width', side, i)))
            ET.SubElement(e, 'roadMark', attrib={'sOffset': '0', 'type': name_of(any_enum(RoadMarkType, 'mark', side, i)), 'weight': 'standard', 'color': 'standard', 'height': '0.02', 'width': str(any_real('mark_width', side, i))})
        method(lane)
        parent.append(e)
    left, right = ET.Element('left'), ET.Element('right')
    for i in range(n):
        add('l', 1, i, left, sec.add_left_lane)
    for i in range(m):
        add('r', -1, i, right, sec.add_right_lane)
    if n > 0:
        want.append(left)
    ET.SubElement(want, 'center').append(lane_element(0, [], 'c', 0))
    if m > 0:
        want.append(right)
    ensures_tree('lane section', sec.get_element(), want)
