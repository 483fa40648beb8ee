"""C15: road, lane, geometry and link attributes carry the given values."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ElementType, ContactPoint, Direction, LaneType
from pyodrx.geometry import PlanView, Line, Arc, Spiral, ParamPoly3
from pyodrx.lane import Lane, LaneSection, Lanes
from pyodrx.links import _Link, Connection, Junction
from pyodrx.opendrive import OpenDrive, Road
from contracts.geoms import any_geometry
from contracts.lanes import name_of, make_lane, lane_element


def empty_lanes():
    lanes = Lanes()
    lanes.add_lanesection(LaneSection(0, Lane(a=0)))
    return lanes


def only(e, names):
    ensures('no other attribute', all([k in names for k in e.attrib.keys()]))


def contract_header():
    name = any_text('name')
    hs = [c for c in OpenDrive(name).get_element() if c.tag == 'header']
    ensures_same('one header', len(hs), 1)
    ensures_same('name', hs[0].get('name'), name)
    ensures_same('revMajor', hs[0].get('revMajor'), '1')
    ensures_same('revMinor', hs[0].get('revMinor'), '5')


def contract_road():
    name, rule = any_none_or('no_name', any_text('name', symbol=True)), any_none_or('no_rule', any_text('rule', symbol=True))
    pv = PlanView(any_real('x'), any_real('y'), any_real('h'))
    pv.add_geometry(Line(any_real('length', gt=0)))
    pv.add_geometry(Arc(any_real('curvature', gt=0), any_real('arc_length', gt=0)))
    pv.adjust_geometries()
    road = Road(any_int('id'), pv, empty_lanes(), any_int('junction'), name, rule)
    e = road.get_element()
    ensures('road element', e.tag == 'road')
    ensures_same('id', e.get('id'), str(any_int('id')))
    ensures_same('junction', e.get('junction'), str(any_int('junction')))
    ensures_same('length is the total length', float(e.get('length')), any_real('length', gt=0) + any_real('arc_length', gt=0))
    if name is None:
        ensures('name omitted', e.get('name') is None)
    else:
        ensures_same('name', e.get('name'), name)
    if rule is None:
        ensures('rule omitted', e.get('rule') is None)
    else:
        ensures_same('rule', e.get('rule'), rule)
    only(e, ['id', 'junction', 'length', 'name', 'rule'])


def contract_road_id_text_and_default():
    road = Road(any_text('id'), PlanView(), empty_lanes())
    a = road.get_attributes()
    ensures_same('id', a['id'], any_text('id'))
    ensures_same('junction', a['junction'], '-1')
    ensures_same('length of a road without geometries', float(a['length']), 0)


def contract_geometry():
    """any geometry in a placed planview: its element has the data it is placed with"""
    x, y, h = any_real('x'), any_real('y'), any_real('h')
    n = any_size('n', 1)
    pv = PlanView(x, y, h)
    for i in range(n):
        pv.add_geometry(any_geometry(i))
    pv.adjust_geometries()
    gs = list(pv.get_element())
    ensures_same('number of geometries', len(gs), n)
    ensures_same('x', float(gs[0].get('x')), x)
    ensures_same('y', float(gs[0].get('y')), y)
    ensures_same('hdg', float(gs[0].get('hdg')), h)
    ensures_same('s', float(gs[0].get('s')), 0)

    def one(i):
        ensures('geometry element', gs[i].tag == 'geometry')
        only(gs[i], ['s', 'x', 'y', 'hdg', 'length'])
        ensures_same('length', float(gs[i].get('length')), any_geometry(i).get_end_data(0, 0, 0)[3])
    forall(n, one)


def contract_line():
    ensures_tree('line', Line(any_real('length')).get_element(), ET.Element('line'))


def contract_spiral():
    k0, k1 = any_real('k0'), any_real('k1')
    if any_bool('by_length'):
        s = Spiral(k0, k1, length=any_real('length', gt=0))
    else:
        requires(k0 == 0 or k1 == 0)
        requires(k0 != k1)
        s = Spiral(k0, k1, angle=any_real('angle', gt=0))
    ensures_tree('spiral', s.get_element(), ET.Element('spiral', attrib={'curvStart': str(k0), 'curvEnd': str(k1)}))
    s.get_end_data(any_real('x'), any_real('y'), any_real('h'))
    ensures_tree('spiral after use', s.get_element(), ET.Element('spiral', attrib={'curvStart': str(k0), 'curvEnd': str(k1)}))


def contract_arc():
    k = any_real('k')
    requires(k != 0)
    a = Arc(k, length=any_real('length', gt=0)) if any_bool('by_length') else Arc(k, angle=any_real('angle', gt=0))
    ensures_tree('arc', a.get_element(), ET.Element('arc', attrib={'curvature': str(k)}))
    if any_bool('backwards'):
        a.get_start_data(any_real('x'), any_real('y'), any_real('h'))
    else:
        a.get_end_data(any_real('x'), any_real('y'), any_real('h'))
    ensures_tree('arc after use', a.get_element(), ET.Element('arc', attrib={'curvature': str(k)}))


def contract_parampoly():
    v = [any_real('c', i) for i in range(8)]
    arc = any_bool('arc_length')
    g = ParamPoly3(*v, prange='arcLength', length=any_real('length', gt=0)) if arc else ParamPoly3(*v)
    names = ['aU', 'bU', 'cU', 'dU', 'aV', 'bV', 'cV', 'dV']
    a = {'pRange': 'arcLength' if arc else 'normalized'}
    for i in range(8):
        a[names[i]] = str(v[i])
    ensures_tree('paramPoly3', g.get_element(), ET.Element('paramPoly3', attrib=a))


def contract_lane():
    """every lane of a section: id by position, own type and width; the section's s"""
    n, m = any_size('left'), any_size('right')
    sec = LaneSection(any_real('s'), make_lane('centre', 0))
    for i in range(n):
        sec.add_left_lane(make_lane('left', i))
    for i in range(m):
        sec.add_right_lane(make_lane('right', i))
    want = ET.Element('laneSection', attrib={'s': str(any_real('s'))})
    if n > 0:
        l = ET.SubElement(want, 'left')
        for i in range(n):
            l.append(lane_element(i + 1, [], 'left', i))
    ET.SubElement(want, 'center').append(lane_element(0, [], 'centre', 0))
    if m > 0:
        r = ET.SubElement(want, 'right')
        for i in range(m):
            r.append(lane_element(-i - 1, [], 'right', i))
    ensures_tree('lane section', sec.get_element(), want)


def contract_road_links():
    """successor and predecessor with element type, with or without contact point"""
    t, i = any_enum(ElementType, 'type'), any_int('id')
    cp = any_none_or('no_cp', any_enum(ContactPoint, 'cp'))
    kind = 'successor' if any_bool('suc') else 'predecessor'
    a = {'elementType': t.name, 'elementId': str(i)}
    if cp is not None:
        a['contactPoint'] = cp.name
    ensures_tree('link', _Link(kind, i, t, cp).get_element(), ET.Element(kind, attrib=a))


def contract_neighbor_link():
    t, i, d = any_enum(ElementType, 'type'), any_text('id'), any_enum(Direction, 'direction')
    ensures_tree('neighbor', _Link('neighbor', i, t, direction=d).get_element(), ET.Element('neighbor', attrib={'elementType': t.name, 'elementId': i, 'direction': d.name}))


def contract_lane_link():
    lane = make_lane(0)
    sec = LaneSection(0, Lane())
    sec.add_left_lane(lane)
    n = any_size('n')
    want = ET.Element('link')
    for i in range(n):
        kind = 'successor' if any_bool('suc', i) else 'predecessor'
        lane.add_link(kind, any_int('to', i))
        ET.SubElement(want, kind, attrib={'id': str(any_int('to', i))})
    ls = [c for c in lane.get_element() if c.tag == 'link']
    ensures_same('one link element', len(ls), 1)
    ensures_tree('links of a lane', ls[0], want)


def contract_connection():
    n = any_size('n')
    cp = any_enum(ContactPoint, 'cp')
    con = Connection(any_int('incoming'), any_int('connecting'), cp, any_int('id'))
    want = ET.Element('connection', attrib={'incomingRoad': str(any_int('incoming')), 'id': str(any_int('id')), 'contactPoint': cp.name, 'connectingRoad': str(any_int('connecting'))})
    for i in range(n):
        con.add_lanelink(any_int('from', i), any_int('to', i))
        ET.SubElement(want, 'laneLink', attrib={'from': str(any_int('from', i)), 'to': str(any_int('to', i))})
    ensures_tree('connection', con.get_element(), want)


def contract_junction():
    ensures_tree('junction', Junction(any_text('name'), any_int('id')).get_element(), ET.Element('junction', attrib={'name': any_text('name'), 'id': str(any_int('id'))}))
