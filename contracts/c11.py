"""C11: create_junction connects every connecting road at both ends."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ElementType, ContactPoint
from pyodrx.lane import Lanes
from pyodrx.generators import create_junction
from contracts.lanes import make_section, line_road, name_of


def sign(contact, other):
    return 1 if contact == other else -1


def expect(e, incoming, connecting, contact, number, left, right, sgn, offset):
    """connection element with one lane link per lane; the order of the links is free, so they are compared as a set below"""
    ensures('connection element', e.tag == 'connection')
    ensures_same('incoming road', e.get('incomingRoad'), str(incoming))
    ensures_same('connecting road', e.get('connectingRoad'), str(connecting))
    ensures_same('contact point', e.get('contactPoint'), contact)
    links = list(e)
    ensures_same('number of lane links', len(links), left + right)
    for l in links:
        ensures('lane link element', l.tag == 'laneLink')
        to = int(l.get('to'))
        ensures('lane link goes to a lane of the connecting road', to != 0 and -right <= to and to <= left)
        ensures_same('lane link comes from the matching lane of the incoming road', int(l.get('from')), sgn * to + offset)
    forall(left, lambda i: ensures('every left lane has a lane link', any([int(l.get('to')) == i + 1 for l in links])))
    forall(right, lambda i: ensures('every right lane has a lane link', any([int(l.get('to')) == -i - 1 for l in links])))


def con_road(i, suc, pred, left, right, left2, right2, junction):
    lanes = Lanes()
    lanes.add_lanesection(make_section(left, right, 'con', i, 0))
    if any_bool('two_sections', i):
        lanes.add_lanesection(make_section(left2, right2, 'con', i, 1))
    con = line_road(any_id('con', i), lanes, junction)
    con.add_successor(ElementType.road, suc, any_enum(ContactPoint, 'suc_cp', i), any_int('offset_suc', i))
    con.add_predecessor(ElementType.road, pred, any_enum(ContactPoint, 'pred_cp', i), any_int('offset_pred', i))
    return con


def road_id(k):
    return any_id('road', k)


def ends(i):
    """the incoming roads at the end and at the start of connecting road i"""
    return (0 if any_bool('end_at_first', i) else 1), (0 if any_bool('start_at_first', i) else 1)


def network(n_roads):
    roads = []
    for k in range(n_roads):
        lanes = Lanes()
        lanes.add_lanesection(make_section(1, 1, 'road', k))
        roads.append(line_road(road_id(k), lanes))
    return roads


def contract_one_connecting_road():
    """any number of roads to choose from (both ends may be at the same one), any lanes"""
    n_roads = any_size('roads', 2, 3)
    roads = network(n_roads)
    a, b = any_int('suc', lo=0), any_int('pred', lo=0)
    requires(a < n_roads and b < n_roads)
    left, right, left2, right2 = any_size('left', 0, 2), any_size('right', 0, 2), any_size('left2', 0, 1), any_size('right2', 0, 1)
    con = con_road(0, road_id(a), road_id(b), left, right, left2, right2, 7)
    junc = create_junction([con], any_int('id'), roads)
    e = junc.get_element()
    ensures_same('junction id', e.get('id'), str(any_int('id')))
    cs = list(e)
    ensures_same('two connections', len(cs), 2)
    ensures('connections have different ids', cs[0].get('id') != cs[1].get('id'))
    if any_bool('two_sections', 0):
        lleft, lright = left2, right2
    else:
        lleft, lright = left, right
    expect(cs[0], road_id(a), any_id('con', 0), 'end', 0, lleft, lright, sign(any_enum(ContactPoint, 'suc_cp', 0), ContactPoint.start), any_int('offset_suc', 0))
    expect(cs[1], road_id(b), any_id('con', 0), 'start', 1, left, right, sign(any_enum(ContactPoint, 'pred_cp', 0), ContactPoint.end), any_int('offset_pred', 0))


def contract_all_connecting_roads_in_order():
    """any number of connecting roads between two roads"""
    n = any_size('connecting', 0, 3)
    roads = network(2)
    # in the run-time evaluation the connecting roads have different numbers of lanes
    sizes = lambda i: (1, 1) if SYMBOLIC else (any_case('left', 4, i), any_case('right', 4, i))
    cons = []
    for i in range(n):
        lanes = Lanes()
        lanes.add_lanesection(make_section(*sizes(i), 'con', i))
        con = line_road(any_id('con', i), lanes, 5)
        a, b = ends(i)
        con.add_successor(ElementType.road, road_id(a), any_enum(ContactPoint, 'suc_cp', i), any_int('offset_suc', i))
        con.add_predecessor(ElementType.road, road_id(b), any_enum(ContactPoint, 'pred_cp', i), any_int('offset_pred', i))
        cons.append(con)
    e = create_junction(cons, any_int('id'), roads).get_element()
    ensures_same('junction id', e.get('id'), str(any_int('id')))
    cs = list(e)
    ensures_same('two connections per connecting road', len(cs), 2 * n)
    requires(len(cs) == 2 * n)

    def one(i):
        a, b = ends(i)
        expect(cs[2 * i], road_id(a), any_id('con', i), 'end', 0, *sizes(i), sign(any_enum(ContactPoint, 'suc_cp', i), ContactPoint.start), any_int('offset_suc', i))
        expect(cs[2 * i + 1], road_id(b), any_id('con', i), 'start', 1, *sizes(i), sign(any_enum(ContactPoint, 'pred_cp', i), ContactPoint.end), any_int('offset_pred', i))
    forall(n, one)
