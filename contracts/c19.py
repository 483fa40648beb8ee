"""C19: generated roads have the requested lanes and geometry."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import RoadMarkType
from pyodrx.generators import create_road, create_straight_road
from pyodrx.geometry import Line
from pyodrx.lane import RoadMark
from contracts.geoms import any_geometry, geometries, make_geometry, KINDS, ORDERS
from contracts.lanes import name_of


def lane(e, id, width, mark):
    """one lane of constant width; the mark's type, or None when any mark will do"""
    ensures('lane element', e.tag == 'lane')
    ensures_same('lane id', e.get('id'), str(id))
    ws = [c for c in e if c.tag == 'width']
    ensures_same('one width', len(ws), 1)
    ensures_same('lane width', float(ws[0].get('a')), width)
    for k in ('b', 'c', 'd'):
        ensures_same('constant width', float(ws[0].get(k)), 0)
    ensures_same('width from the start', float(ws[0].get('sOffset')), 0)
    if mark is not None:
        ms = [c for c in e if c.tag == 'roadMark']
        ensures_same('one road mark', len(ms), 1)
        ensures_same('type of the road mark', ms[0].get('type'), mark)


def side(sec, tag, n, sign, width, marks):
    es = [c for c in sec if c.tag == tag]
    ensures_same('one element for a side with lanes', len(es), 1 if n > 0 else 0)
    requires(len(es) == (1 if n > 0 else 0))
    if n > 0:
        ls = list(es[0])
        ensures_same('number of lanes', len(ls), n)
        requires(len(ls) == n)

        def one(i):
            lane(ls[i], sign * (i + 1), width, ('solid' if i == n - 1 else 'broken') if marks else None)
        forall(n, one)


def section(road, left, right, width, marks):
    secs = [c for c in road.lanes.get_element() if c.tag == 'laneSection']
    ensures_same('one lane section', len(secs), 1)
    ensures_same('lane section starts at 0', float(secs[0].get('s')), 0)
    side(secs[0], 'left', left, 1, width, marks)
    side(secs[0], 'right', right, -1, width, marks)
    cs = [c for c in secs[0] if c.tag == 'center']
    ensures_same('one centre', len(cs), 1)
    ls = list(cs[0])
    ensures_same('one centre lane', len(ls), 1)
    return ls[0]


def unplaced(road, n, geometry):
    """the road is not placed; after placing it at the origin it has exactly the given geometries in order"""
    ensures('the road is not placed', not road.planview.adjusted)
    ensures_same('no geometry is placed', len(geometries(road.planview)), 0)
    road.planview.adjust_geometries()
    gs = geometries(road.planview)
    ensures_same('number of geometries', len(gs), n)
    requires(len(gs) == n)
    if n > 0:
        ensures_same('starts at x 0', float(gs[0].get('x')), 0)
        ensures_same('starts at y 0', float(gs[0].get('y')), 0)
        ensures_same('starts with heading 0', float(gs[0].get('hdg')), 0)

    def one(i):
        ensures_tree('geometry', list(gs[i])[0], geometry(i).get_element())
    forall(n, one)


def contract_create_road_lanes():
    left, right = any_size('left'), any_size('right')
    width = any_real('width', typical=(0, 10))
    road = create_road(Line(any_real('length', gt=0)), any_int('id'), left, right, any_int('type'), RoadMark(any_case_mark(), 0.2), width)
    ensures_same('road id', road.get_attributes()['id'], str(any_int('id')))
    ensures_same('road type', road.get_attributes()['junction'], str(any_int('type')))
    lane(section(road, left, right, width, True), 0, 0, name_of(any_case_mark()))


def any_case_mark():
    return any_enum(RoadMarkType, 'center_mark')


def contract_create_road_defaults():
    road = create_road(Line(any_real('length', gt=0)), any_int('id'))
    ensures_same('road type', road.get_attributes()['junction'], '-1')
    lane(section(road, 1, 1, 3, True), 0, 0, 'solid')
    unplaced(road, 1, lambda i: Line(any_real('length', gt=0)))


def contract_create_road_one_geometry():
    """every class of geometry, whichever way its length is given"""
    g = make_geometry(any_case('kind', KINDS), 0)
    road = create_road(g, any_int('id'), 1, 0, any_int('type'))
    lane(section(road, 1, 0, 3, True), 0, 0, 'solid')
    unplaced(road, 1, lambda i: g)


def contract_create_road_geometries():
    """a list of geometries"""
    n = any_size('n')
    gs = [any_geometry(i) for i in range(n)]
    road = create_road(gs, any_int('id'), 0, 1)
    lane(section(road, 0, 1, 3, True), 0, 0, 'solid')
    unplaced(road, n, lambda i: any_geometry(i))


def contract_create_road_same_geometry_twice():
    """a list that has a geometry several times"""
    order = ORDERS[any_case('order', len(ORDERS))]
    shapes = [any_geometry(0), any_geometry(1)]
    road = create_road([shapes[k] for k in order], any_int('id'))
    unplaced(road, len(order), lambda i: shapes[order[i]])


def contract_straight_road():
    n = any_size('lanes')
    length = any_real('length', gt=0)
    width = any_real('width', typical=(0, 10))
    road = create_straight_road(any_int('id'), length, any_int('junction'), n, width)
    ensures_same('road id', road.get_attributes()['id'], str(any_int('id')))
    ensures_same('road type', road.get_attributes()['junction'], str(any_int('junction')))
    section(road, n, n, width, False)
    unplaced(road, 1, lambda i: Line(length))
    ensures_same('length', road.planview.get_total_length(), length)


def contract_straight_road_defaults():
    road = create_straight_road(any_int('id'))
    ensures_same('road type', road.get_attributes()['junction'], '-1')
    section(road, 1, 1, 3, False)
    unplaced(road, 1, lambda i: Line(100))
    ensures_same('length', road.planview.get_total_length(), 100)
