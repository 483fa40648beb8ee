"""C22: roadside objects stand at the road edge along each lane section."""
from spec import *
from numpy import pi
import xml.etree.ElementTree as ET
from pyodrx.enumerations import RoadSide, ObjectType
from pyodrx.exceptions import RoadsAndLanesNotAdjusted
from pyodrx.geometry import PlanView, Line
from pyodrx.lane import Lane, LaneSection, Lanes
from pyodrx.opendrive import Road
from pyodrx.signals_objects import Object
from contracts.geoms import any_geometry


def sections(n, counts):
    """n lane sections; counts(i) are the numbers of left and right lanes of section i"""
    lanes = Lanes()
    for i in range(n):
        sec = LaneSection(any_real('sec_s', i), Lane(a=any_real('centre_a', i)))
        l, r = counts(i)
        for j in range(l):
            sec.add_left_lane(Lane(a=any_real('left_a', i, j)))
        for j in range(r):
            sec.add_right_lane(Lane(a=any_real('right_a', i, j)))
        lanes.add_lanesection(sec)
    return lanes


def prototype(full=False):
    h = any_none_or('no_height', any_real('height'))
    if not full:
        return Object(any_real('proto_s'), any_real('proto_t'), zOffset=any_real('zOffset'), hdg=any_real('proto_hdg'), height=h)
    return Object(any_real('proto_s'), any_real('proto_t'), Type=any_enum(ObjectType, 'proto_type'), id=any_none_or('no_id', any_int('proto_id')), name=any_none_or('no_name', any_text('proto_name')),
                  zOffset=any_real('zOffset'), hdg=any_real('proto_hdg'), height=h, radius=any_none_or('no_radius', any_real('radius')))


def placed_road(n, counts):
    """a road with two geometries, placed from its start or its end"""
    pv = PlanView()
    pv.set_start_point(any_real('x'), any_real('y'), any_real('h'))
    pv.add_geometry(Line(any_real('first_length', gt=0)))
    pv.add_geometry(Line(any_real('second_length', gt=0)))
    pv.adjust_geometries(any_bool('from_end'))
    return Road(any_int('road'), pv, sections(n, counts))


def total():
    return any_real('first_length', gt=0) + any_real('second_length', gt=0)


def side_width(name, i, n):
    return sum([any_real(name, i, j) for j in range(n)])


def expected(i, left, width, full=False):
    """the copy of the prototype in section i, as a new object"""
    o = prototype(full)
    o.s = any_real('sec_s', i) + any_real('sOffset')
    o.t = (width + any_real('tOffset')) * (1 if left else -1)
    o.hdg = pi if left else 0
    o.repeat(total() - any_real('sOffset') - any_real('sec_s', i), any_real('distance'))
    return o.get_element()


def objects_of(road):
    out = []
    for c in road.get_element():
        if c.tag == 'objects':
            out = list(c)
    return out


def roadside(n, counts, side, road, proto):
    d, so, to = any_real('distance'), any_real('sOffset'), any_real('tOffset')
    if side == RoadSide.both and any_bool('default_side'):
        road.add_object_roadside(proto, d, so, to)
    else:
        road.add_object_roadside(proto, d, so, to, side)


def check_all(n, counts, side):
    """the objects of a road that had none before"""
    road = placed_road(n, counts)
    proto = prototype()
    before = proto.get_element()
    roadside(n, counts, side, road, proto)
    ensures_tree('the prototype is unchanged', proto.get_element(), before)
    got = objects_of(road)
    per = 2 if side == RoadSide.both else 1
    ensures_same('one object per section and side', len(got), per * n)
    requires(len(got) == per * n)

    def one(i):
        l, r = counts(i)
        if side == RoadSide.both:
            ensures_tree('left object', got[2 * i], expected(i, True, side_width('left_a', i, l)), skip=('id',))
            ensures_tree('right object', got[2 * i + 1], expected(i, False, side_width('right_a', i, r)), skip=('id',))
        elif side == RoadSide.left:
            ensures_tree('left object', got[i], expected(i, True, side_width('left_a', i, l)), skip=('id',))
        else:
            ensures_tree('right object', got[i], expected(i, False, side_width('right_a', i, r)), skip=('id',))
    forall(n, one)
    return got


def contract_left():
    """any number of sections with any numbers of lanes"""
    check_all(any_size('n'), lambda i: (any_size('left'), any_size('right')), RoadSide.left)


def contract_right():
    check_all(any_size('n'), lambda i: (any_size('left'), any_size('right')), RoadSide.right)


def contract_both():
    check_all(any_size('n'), lambda i: (any_size('left'), any_size('right')), RoadSide.both)


def contract_different_sections():
    """two sections with different lanes, and an object that was there before"""
    a, b, c, d = any_size('a', hi=2), any_size('b', hi=2), any_size('c', hi=2), any_size('d', hi=2)

    def counts(i):
        return (a, b) if i == 0 else (c, d)
    side = any_enum(RoadSide, 'side')
    road = placed_road(2, counts)
    old = Object(any_real('old_s'), any_real('old_t'))
    road.add_object(old)
    before = old.get_element()
    proto = prototype()
    roadside(2, counts, side, road, proto)
    got = objects_of(road)
    per = 2 if side == RoadSide.both else 1
    ensures_same('one object per section and side', len(got), 1 + 2 * per)
    requires(len(got) == 1 + 2 * per)
    ensures_tree('the object that was there is unchanged', got[0], before)
    for i in range(2):
        l, r = counts(i)
        if side != RoadSide.right:
            ensures_tree('left object', got[1 + per * i], expected(i, True, side_width('left_a', i, l)), skip=('id',))
        if side != RoadSide.left:
            ensures_tree('right object', got[per * (i + 1)], expected(i, False, side_width('right_a', i, r)), skip=('id',))


def contract_ids_are_distinct():
    """also from the ids of objects that were there before, whatever the prototype's own id"""
    side = any_enum(RoadSide, 'side')
    road = placed_road(2, lambda i: (0, 0))
    road.add_object(Object(any_real('old_s'), any_real('old_t'), id=any_none_or('no_old_id', any_int('old_id'))))
    roadside(2, None, side, road, Object(0, 0, id=any_none_or('no_id', any_int('proto_id'))))
    ids = [o.get('id') for o in objects_of(road)]
    ensures_same('number of objects', len(ids), 5 if side == RoadSide.both else 3)
    for i in range(len(ids)):
        ensures('ids are distinct', all([ids[i] != x for x in ids[:i]]))


def contract_one_section():
    """every attribute of the prototype is copied"""
    side = any_enum(RoadSide, 'side')
    road = placed_road(1, lambda i: (1, 1))
    proto = prototype(True)
    before = proto.get_element()
    roadside(1, None, side, road, proto)
    ensures_tree('the prototype is unchanged', proto.get_element(), before)
    got = objects_of(road)
    ensures_same('one object per side', len(got), 2 if side == RoadSide.both else 1)
    requires(len(got) == (2 if side == RoadSide.both else 1))
    if side != RoadSide.right:
        ensures_tree('left object', got[0], expected(0, True, any_real('left_a', 0, 0), True), skip=('id',))
    if side != RoadSide.left:
        ensures_tree('right object', got[-1], expected(0, False, any_real('right_a', 0, 0), True), skip=('id',))


def contract_called_twice():
    """two prototypes, or the same one twice, at two distances"""
    road = placed_road(1, lambda i: (1, 1))
    proto = prototype(True)
    before = proto.get_element()
    road.add_object_roadside(proto, any_real('distance'), any_real('sOffset'), any_real('tOffset'), RoadSide.left)
    first = objects_of(road)
    road.add_object_roadside(proto, any_real('distance', 2), any_real('sOffset', 2), any_real('tOffset', 2), RoadSide.right)
    got = objects_of(road)
    ensures_same('number of objects', len(got), 2)
    ensures_tree('the first object is unchanged', got[0], first[0])
    ensures_tree('the prototype is unchanged', proto.get_element(), before)
    ensures('ids are distinct', got[0].get('id') != got[1].get('id'))
    ensures_same('number of repetitions', len(list(got[1])), 1)
    ensures_same('t', float(got[1].get('t')), -(any_real('right_a', 0, 0) + any_real('tOffset', 2)))


def contract_default_offsets():
    road = placed_road(1, lambda i: (1, 1))
    road.add_object_roadside(prototype(True), any_real('distance'))
    got = objects_of(road)
    ensures_same('number of objects', len(got), 2)
    ensures_same('t left', float(got[0].get('t')), any_real('left_a', 0, 0))
    ensures_same('t right', float(got[1].get('t')), -any_real('right_a', 0, 0))
    ensures_same('s', float(got[0].get('s')), any_real('sec_s', 0))


def contract_not_placed():
    pv = PlanView()
    pv.add_geometry(any_geometry(0))
    road = Road(any_int('road'), pv, sections(any_size('n'), lambda i: (1, 1)))
    if any_bool('object_before'):
        road.add_object(prototype(True))
    proto = prototype(True)
    before, pbefore = road.get_element(), proto.get_element()
    raised = False
    try:
        roadside(1, None, any_enum(RoadSide, 'side'), road, proto)
    except RoadsAndLanesNotAdjusted:
        raised = True
    ensures('RoadsAndLanesNotAdjusted', raised)
    ensures_tree('nothing is added', road.get_element(), before)
    ensures_tree('the prototype is unchanged', proto.get_element(), pbefore)
