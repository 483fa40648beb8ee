"""C25: producing output changes nothing and roads are independent."""
from spec import *
from numpy import pi
from pyodrx.enumerations import ElementType, ContactPoint, Direction, RoadMarkType, RoadSide
from pyodrx.geometry import PlanView, Line
from pyodrx.lane import Lane, LaneSection, Lanes, RoadMark
from pyodrx.links import Junction, Connection, LaneLinker, create_lane_links
from pyodrx.opendrive import OpenDrive, Road
from pyodrx.generators import create_road, create_straight_road, create_junction_roads, create_cloth_arc_cloth, create_junction, STD_ROADMARK_BROKEN
from pyodrx.signals_objects import Object, Signal
from contracts.geoms import any_geometry, make_geometry, pose


# ---- parts, built from the contract's inputs; equal arguments give equal parts

def plain_lane(*i):
    return Lane(a=any_real('a', *i), soffset=any_real('soffset', *i))


def marked_lane(*i):
    lane = plain_lane(*i)
    if any_bool('marked', *i):
        lane.add_roadmark(RoadMark(any_enum(RoadMarkType, 'mark', *i), any_real('mark_width', *i)))
    return lane


def fill(sec, left, right, *i):
    for j in range(left):
        sec.add_left_lane(marked_lane('l', *i, j))
    for j in range(right):
        sec.add_right_lane(marked_lane('r', *i, j))
    return sec


def some_lanes(n, left, right, *i):
    lanes = Lanes()
    for k in range(n):
        lanes.add_lanesection(fill(LaneSection(any_real('sec_s', *i, k), Lane(a=0)), left, right, *i, k))
    return lanes


def some_planview(n, *i):
    pv = PlanView()
    for k in range(n):
        pv.add_geometry(any_geometry(*i, k))
    return pv


def some_road(n, left, right, *i):
    """one line, n sections"""
    pv = PlanView(any_real('x', *i), any_real('y', *i), any_real('h', *i))
    pv.add_geometry(Line(any_real('line', *i, gt=0)))
    return Road(any_id('road', *i), pv, some_lanes(n, left, right, *i))


def some_object(has_id, *i):
    o = Object(any_real('obj_s', *i), any_real('obj_t', *i), id=any_int('obj_id', *i) if has_id else None, height=any_real('height', *i))
    o.repeat(any_real('rep_length', *i), any_real('rep_distance', *i))
    return o


def some_signal(has_id, *i):
    return Signal(any_real('sig_s', *i), any_real('sig_t', *i), 'se', 'x', id=any_int('sig_id', *i) if has_id else None, value=any_real('value', *i), unit='km/h')


# ---- producing output again

def contract_planview_again():
    """any number of geometries, placed or not"""
    n = any_size('n')
    pv = some_planview(n)
    pv.set_start_point(any_real('x'), any_real('y'), any_real('h'))
    how = any_case('placed', 3)
    if how > 0:
        pv.adjust_geometries(how == 2)
    first = pv.get_element()
    if how > 0:
        start, end, length = pv.get_start_point(), pv.get_end_point(), pv.get_total_length()
    second = pv.get_element()
    ensures_tree('planview again', second, first)
    if how > 0:
        for a, b in zip(pv.get_start_point(), start):
            ensures_same('start pose unchanged', a, b)
        for a, b in zip(pv.get_end_point(), end):
            ensures_same('end pose unchanged', a, b)
        ensures_same('length unchanged', pv.get_total_length(), length)
    ensures_tree('planview a third time', pv.get_element(), first)


def contract_planview_emitted_before_placing():
    """emitting while it is built makes no difference"""
    n = any_size('n')
    a, b = PlanView(), PlanView()
    for k in range(n):
        a.add_geometry(any_geometry(k))
        a.get_element()
    for k in range(n):
        b.add_geometry(any_geometry(k))
    for pv in (a, b):
        pv.set_start_point(any_real('x'), any_real('y'), any_real('h'))
    a.get_element()
    a.adjust_geometries(any_bool('from_end'))
    b.adjust_geometries(any_bool('from_end'))
    ensures_tree('same planview', a.get_element(), b.get_element())


def geometry_again(kind):
    g = make_geometry(kind)
    first = g.get_element()
    x, y, h = any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7))
    ensures_tree('geometry again', g.get_element(), first)
    end = g.get_end_data(x, y, h)
    g.get_element()
    again = g.get_end_data(x, y, h)
    ensures_same('x', again[0], end[0])
    ensures_same('y', again[1], end[1])
    ensures_same('heading', again[2], end[2])
    ensures_same('length', again[3], end[3])


def contract_geometry_again_line():
    geometry_again(0)


def contract_geometry_again_arc():
    geometry_again(1)


def contract_geometry_again_arc_by_angle():
    geometry_again(2)


def contract_geometry_again_spiral():
    geometry_again(3)


def contract_geometry_again_polynomial():
    geometry_again(4)


def contract_lanes_again():
    """any numbers of sections and lanes, with road marks and links"""
    n, left, right = any_size('n'), any_size('left'), any_size('right')
    lanes = some_lanes(n, left, right)
    for k in range(n):
        lanes.lanesections[k].centerlane.add_link('successor', any_int('to', k))
    first = lanes.get_element()
    ensures_tree('lanes again', lanes.get_element(), first)
    ensures_tree('lanes a third time', lanes.get_element(), first)


def contract_section_and_lane_again():
    left, right = any_size('left'), any_size('right')
    sec = fill(LaneSection(any_real('s'), Lane(a=any_real('centre_a'))), left, right)
    lane = marked_lane('single')
    extra = marked_lane('extra')
    if any_bool('linked'):
        lane.add_link('predecessor', any_int('to'))
    sec.add_left_lane(lane)
    first, lane_first = sec.get_element(), lane.get_element()
    ensures('attributes of a section', sec.get_attributes() == sec.get_attributes())
    ensures_tree('lane again', lane.get_element(), lane_first)
    ensures('attributes of a lane', lane.get_attributes() == lane.get_attributes())
    ensures_tree('section again', sec.get_element(), first)
    # the next lane gets the next id however often the section was emitted
    sec.add_left_lane(extra)
    ensures_same('id of the next lane', extra.get_element().get('id'), str(left + 2))


def contract_road_again():
    """links, objects and signals"""
    n, m = any_size('signals'), any_size('objects')
    road = some_road(1, 1, 1)
    if any_bool('placed'):
        road.planview.adjust_geometries()
    if any_bool('linked'):
        road.add_successor(ElementType.road, any_int('suc'), ContactPoint.start, any_int('offset'))
        road.add_predecessor(ElementType.junction, any_int('pred'))
        road.add_neighbor(ElementType.road, any_int('next'), Direction.opposite)
    for k in range(n):
        road.add_signal(Signal(any_real('sig_s', k), any_real('sig_t', k), 'se', 'x'))
    for k in range(m):
        road.add_object(Object(any_real('obj_s', k), any_real('obj_t', k)))
    first, attributes = road.get_element(), road.get_attributes()
    ensures_tree('road again', road.get_element(), first)
    ensures('attributes again', road.get_attributes() == attributes)
    ensures_tree('road a third time', road.get_element(), first)


def contract_road_emitted_while_built():
    """output produced between the steps makes no difference"""
    left, right = any_size('left'), any_size('right')
    a, b = some_road(1, left, right), some_road(1, left, right)
    steps = [lambda r: r.add_successor(ElementType.road, any_int('suc'), ContactPoint.start),
             lambda r: r.lanes.lanesections[0].add_left_lane(marked_lane('later', 0)),
             lambda r: r.add_predecessor(ElementType.junction, any_int('pred')),
             lambda r: r.lanes.add_lanesection(LaneSection(any_real('later_s'), Lane(a=0))),
             lambda r: r.planview.add_geometry(Line(any_real('later_line', gt=0))),
             lambda r: r.planview.adjust_geometries(),
             lambda r: r.lanes.lanesections[0].add_right_lane(marked_lane('later', 1))]
    for f in steps:
        f(a)
        a.get_element()
        a.get_attributes()
        a.planview.get_total_length()
    for f in steps:
        f(b)
    ensures_tree('same road', a.get_element(), b.get_element())


def some_junction(n, m):
    j = Junction(any_text('name'), any_int('id'))
    for k in range(n):
        c = Connection(any_int('incoming', k), any_int('connecting', k), any_enum(ContactPoint, 'cp', k))
        for l in range(m):
            c.add_lanelink(any_int('from', k, l), any_int('to', k, l))
        j.add_connection(c)
    return j


def contract_junction_again():
    """any numbers of connections and lane links"""
    n, m = any_size('n'), any_size('m')
    j = some_junction(n, m)
    first = j.get_element()
    ensures_tree('junction again', j.get_element(), first)
    ensures('attributes again', j.get_attributes() == j.get_attributes())
    extra = Connection(any_int('incoming', 'x'), any_int('connecting', 'x'), ContactPoint.start)
    before = extra.get_element()
    ensures_tree('connection again', extra.get_element(), before)
    ensures_tree('junction a third time', j.get_element(), first)


def contract_junction_emitted_while_built():
    n, m = any_case('n', 3), any_size('m')
    j, k = some_junction(n, m), some_junction(n, m)
    for x in (j, k):
        extra = Connection(any_int('incoming', 'x'), any_int('connecting', 'x'), ContactPoint.start)
        if x is j:
            x.get_element()
            extra.get_element()
        x.add_connection(extra)
        if x is j:
            x.get_element()
        extra.add_lanelink(any_int('from', 'x'), any_int('to', 'x'))
    ensures_tree('same junction', j.get_element(), k.get_element())


def contract_object_again():
    o, s = some_object(any_bool('has_id')), some_signal(any_bool('has_id'))
    first, sfirst = o.get_element(), s.get_element()
    ensures('attributes of the object', o.get_attributes() == o.get_attributes())
    ensures('attributes of the signal', s.get_attributes() == s.get_attributes())
    ensures_tree('object again', o.get_element(), first)
    ensures_tree('signal again', s.get_element(), sfirst)
    # repetitions added later are the same as without the output
    p = some_object(any_bool('has_id'))
    o.repeat(any_real('rep_length', 2), any_real('rep_distance', 2), tStart=any_real('t', 2))
    p.repeat(any_real('rep_length', 2), any_real('rep_distance', 2), tStart=any_real('t', 2))
    ensures_tree('same object', o.get_element(), p.get_element())


def contract_document_again():
    """any numbers of roads and junctions"""
    n, m = any_size('roads'), any_size('junctions')
    od = OpenDrive(any_text('name'))
    for k in range(n):
        od.add_road(some_road(1, 1, 1, k))
    for k in range(m):
        j = Junction(any_text('jname', k), any_int('jid', k))
        j.add_connection(Connection(any_int('incoming', k), any_int('connecting', k), any_enum(ContactPoint, 'cp', k)))
        od.add_junction(j)
    first = od.get_element()
    ensures_tree('document again', od.get_element(), first, skip=('date',))
    ensures_tree('document a third time', od.get_element(), first, skip=('date',))


def contract_network_again():
    """a road, its successor and a junction road, output before and after placing"""
    od, other = OpenDrive('x'), OpenDrive('x')
    for o in (od, other):
        roads = []
        for k in range(3):
            pv = PlanView()
            pv.add_geometry(Line(any_real('length', k, gt=0)))
            roads.append(Road(any_id('id', k), pv, some_lanes(1, 1, 1, k), 1 if k == 1 else -1))
        roads[0].add_successor(ElementType.junction, 1)
        roads[1].add_predecessor(ElementType.road, any_id('id', 0), ContactPoint.end, any_int('offset'))
        roads[1].add_successor(ElementType.road, any_id('id', 2), ContactPoint.start)
        roads[2].add_predecessor(ElementType.junction, 1)
        for r in roads:
            o.add_road(r)
        if o is od:
            o.get_element()
        o.adjust_roads_and_lanes()
    first = od.get_element()
    ensures_tree('output before placing makes no difference', first, other.get_element(), skip=('date',))
    ensures_tree('document again', od.get_element(), first, skip=('date',))


# ---- independence

def change(road, k, left, links=True):
    """everything that can be done to one road"""
    if links:
        road.add_successor(ElementType.road, any_int('suc', k), any_enum(ContactPoint, 'suc_cp', k), any_int('suc_offset', k))
        road.add_predecessor(ElementType.junction, any_int('pred', k))
    road.add_neighbor(ElementType.road, any_int('next', k), any_enum(Direction, 'direction', k))
    road.planview.add_geometry(Line(any_real('more', k, gt=0)))
    sec = road.lanes.lanesections[0]
    sec.add_left_lane(plain_lane('more_left', k))
    sec.add_right_lane(plain_lane('more_right', k))
    sec.centerlane.add_link('successor', any_int('centre_to', k))
    sec.leftlanes[0].add_link('predecessor', any_int('left_to', k))
    sec.leftlanes[0].add_roadmark(RoadMark(any_enum(RoadMarkType, 'new_mark', k), any_real('new_mark_width', k)))
    sec.leftlanes[0].a = any_real('new_width', k)
    road.lanes.add_lanesection(fill(LaneSection(any_real('more_s', k), Lane(a=0)), left, 0, 'more', k))


def furnish(road, k):
    given = any_bool('has_id', k)
    road.add_object(some_object(given, k, 0))
    road.add_object([some_object(False, k, 1), some_object(given, k, 2)])
    road.add_signal(some_signal(given, k, 0))
    road.add_signal([some_signal(given, k, 1)])


def contract_other_road_built_and_changed():
    """any numbers of sections and lanes of both roads"""
    n, left, right, other = any_size('n', 1), any_size('left'), any_size('right'), any_size('other')
    a = some_road(n, left, right, 0)
    before = a.get_element()
    b = some_road(1, other, 1, 1)
    change(b, 1, other)
    ensures_tree('building and changing a road', a.get_element(), before)
    changed = b.get_element()
    change(a, 0, left)
    ensures_tree('changing the first road', b.get_element(), changed)


def contract_other_road_placed():
    """placing one of two roads"""
    n, m = any_size('n'), any_size('m')
    a = Road(any_id('road', 0), some_planview(n, 0), some_lanes(1, 1, 1, 0))
    b = Road(any_id('road', 1), some_planview(m, 1), some_lanes(1, 1, 1, 1))
    a.planview.set_start_point(any_real('x', 0), any_real('y', 0), any_real('h', 0))
    a.planview.adjust_geometries(any_bool('from_end', 0))
    before, end = a.get_element(), a.get_end_point()
    b.planview.set_start_point(any_real('x', 1), any_real('y', 1), any_real('h', 1))
    unplaced = b.planview.get_element()
    ensures_tree('the other road is not placed', unplaced, PlanView().get_element())
    b.planview.adjust_geometries(any_bool('from_end', 1))
    ensures_tree('placing a road', a.get_element(), before)
    for p, q in zip(a.get_end_point(), end):
        ensures_same('end pose', p, q)


def contract_other_road_furnished():
    """objects and signals of another road, with and without ids"""
    a, b = some_road(1, 1, 1, 0), some_road(1, 1, 1, 1)
    a.add_object(some_object(False, 0, 0))
    a.add_signal(some_signal(False, 0, 0))
    before = a.get_element()
    furnish(b, 1)
    ensures_tree('objects and signals of another road', a.get_element(), before)


def contract_first_road_without_furniture():
    """objects and signals of another road do not appear on a road without any"""
    a, b = some_road(1, 1, 1, 0), some_road(1, 1, 1, 1)
    before = a.get_element()
    o = some_object(False, 1, 0)
    b.add_object(o)
    b.add_signal([some_signal(False, 1, 1)])
    o.repeat(any_real('rep_length', 9), any_real('rep_distance', 9))
    b.planview.adjust_geometries()
    b.add_object_roadside(Object(0, 0), any_real('distance'))
    ensures_tree('objects and signals of another road', a.get_element(), before)
    c = some_road(1, 1, 1, 2)
    ensures_same('a new road has no objects or signals', len(list(c.get_element())), 3)
    ensures_same('a new road has no links', len(list(c.get_element()[0])), 0)


def contract_objects_are_separate():
    o = some_object(False, 0)
    before = o.get_element()
    p = some_object(False, 1)
    p.repeat(any_real('rep_length', 2), any_real('rep_distance', 2))
    p.s = any_real('new_s')
    ensures_tree('repetitions of another object', o.get_element(), before)
    q = Object(any_real('obj_s', 3), 0)
    ensures_same('a new object has no repetitions', len(list(q.get_element())), 0)


def contract_junctions_are_separate():
    n = any_size('n')
    j = Junction('a', 1)
    c = Connection(any_int('incoming', 0), any_int('connecting', 0), ContactPoint.start)
    for k in range(n):
        c.add_lanelink(any_int('from', k), any_int('to', k))
    j.add_connection(c)
    before = j.get_element()
    d = Connection(any_int('incoming', 1), any_int('connecting', 1), ContactPoint.end)
    d.add_lanelink(1, -1)
    j2 = Junction('b', 2)
    j2.add_connection(d)
    ensures_tree('another junction', j.get_element(), before)
    ensures_same('its own connections', len(list(j2.get_element())), 1)
    ensures_same('its own lane links', len(list(j2.get_element()[0])), 1)
    ensures_same('connections are numbered in each junction', j2.get_element()[0].get('id'), '0')


def contract_linkers_are_separate():
    left = any_size('left', 1)
    a, b = some_lanes(0, 0, 0, 0), some_lanes(0, 0, 0, 1)
    s1, s2 = fill(LaneSection(0, Lane(a=0)), left, 0, 0), fill(LaneSection(10, Lane(a=0)), left, 0, 1)
    t1, t2 = fill(LaneSection(0, Lane(a=0)), 1, 0, 2), fill(LaneSection(10, Lane(a=0)), 1, 0, 3)
    link = LaneLinker()
    for k in range(left):
        link.add_link(s1.leftlanes[k], s2.leftlanes[k])
    a.add_lanesection(s1)
    a.add_lanesection(s2, link)
    before = a.get_element()
    other = LaneLinker()
    other.add_link(t1.leftlanes[0], t2.leftlanes[0])
    b.add_lanesection(t1)
    b.add_lanesection(t2, [other])
    ensures_tree('lane links of another road', a.get_element(), before)


def contract_other_network():
    """placing and linking another network leaves a road alone, placed or not"""
    od, other = OpenDrive('x'), OpenDrive('y')
    a = some_road(1, any_size('left'), any_size('right'), 0)
    od.add_road(a)
    if any_bool('placed'):
        od.adjust_roads_and_lanes()
    before = a.get_element()
    roads = []
    for k in range(2):
        pv = PlanView()
        pv.add_geometry(Line(any_real('length', k, gt=0)))
        roads.append(Road(any_id('id', k), pv, some_lanes(1, 1, 1, 1 + k)))
    roads[0].add_successor(ElementType.road, any_id('id', 1), ContactPoint.start)
    roads[1].add_predecessor(ElementType.road, any_id('id', 0), ContactPoint.end)
    for r in roads:
        other.add_road(r)
    other.adjust_roads_and_lanes()
    j = Junction('a', 1)
    other.add_junction(j)
    other.get_element()
    ensures_tree('another network', a.get_element(), before)
    ensures_same('its own roads', len([c for c in od.get_element() if c.tag == 'road']), 1)
    ensures_same('no junction', len([c for c in od.get_element() if c.tag == 'junction']), 0)


def contract_created_roads():
    """any numbers of lanes"""
    left, right, n = any_size('left'), any_size('right'), any_size('n', 1)
    a = create_road(Line(any_real('length', 0, gt=0)), any_int('id', 0), left, right, lane_width=any_real('width', 0))
    before = a.get_element()
    b = create_road([Line(any_real('length', 1, gt=0))], any_int('id', 1), n, n, center_road_mark=RoadMark(any_enum(RoadMarkType, 'centre_mark'), any_real('mark_width')), lane_width=any_real('width', 1))
    ensures_tree('creating a road', a.get_element(), before)
    change(b, 1, 1)
    b.planview.set_start_point(any_real('x'), any_real('y'), any_real('h'))
    b.planview.adjust_geometries()
    ensures_tree('changing a created road', a.get_element(), before)
    c = create_straight_road(any_int('id', 2), any_real('length', 2, gt=0), 1, n, any_real('width', 2))
    change(c, 2, 1)
    ensures_tree('creating and changing a straight road', a.get_element(), before)
    a2 = create_road(Line(any_real('length', 0, gt=0)), any_int('id', 0), left, right, lane_width=any_real('width', 0))
    ensures_tree('created again after others were changed', a2.get_element(), before)


def contract_created_straight_roads():
    n, m = any_size('n', 1), any_size('m', 1)
    a = create_straight_road(any_int('id', 0), any_real('length', 0, gt=0), -1, n, any_real('width', 0))
    before = a.get_element()
    b = create_straight_road(any_int('id', 1), any_real('length', 1, gt=0), 1, m, any_real('width', 1))
    ensures_tree('creating a straight road', a.get_element(), before)
    change(b, 1, 1)
    b.planview.adjust_geometries()
    c = create_cloth_arc_cloth(0.1, 0.5, 0.2, any_int('id', 2), 1, n_lanes=m, lane_offset=any_real('width', 2))
    change(c, 2, 1)
    ensures_tree('changing created roads', a.get_element(), before)
    a2 = create_straight_road(any_int('id', 0), any_real('length', 0, gt=0), -1, n, any_real('width', 0))
    ensures_tree('created again after others were changed', a2.get_element(), before)


def contract_default_arguments():
    """roads made with default arguments"""
    a = create_straight_road(any_int('id', 0))
    b = create_straight_road(any_int('id', 1))
    before = a.get_element()
    change(b, 1, 1)
    furnish(b, 1)
    ensures_tree('changing a created road', a.get_element(), before)
    ensures_same('no objects', len(list(a.get_element())), 3)


def contract_junction_roads():
    """making and changing connecting roads leaves a road that does not meet the junction alone"""
    r = any_real('radius', gt=0, typical=(5, 60))
    requires(r <= 300)
    roads = [create_straight_road(any_id('id', k), any_real('length', k, gt=0)) for k in range(3)]
    apart = create_straight_road(any_int('apart'), any_real('length', 9, gt=0))
    before = apart.get_element()
    lanes = [x.lanes.get_element() for x in roads]
    js = create_junction_roads(roads, [0, pi / 2, pi], r, any_int('junction'), startnum=any_int('startnum'))
    jun = create_junction(js, any_int('junction'), roads)
    for k in range(3):
        ensures_tree('lanes of the incoming roads', roads[k].lanes.get_element(), lanes[k])
    one = js[1].get_element()
    change(roads[0] if any_bool('incoming') else js[0], 1, 1, False)
    js[0].planview.adjust_geometries()
    ensures_tree('changing another connecting road', js[1].get_element(), one)
    jun.get_element()
    ensures_tree('a road apart', apart.get_element(), before)


def contract_refilled_lists():
    """a list of objects or signals that was added to one road is changed and used for another road"""
    a, b = some_road(1, 1, 1, 0), some_road(1, 1, 1, 1)
    if any_bool('furnished_before'):
        a.add_object(some_object(False, 0, 0))
        a.add_signal(some_signal(False, 0, 0))
    objects, signals = [some_object(False, 0, 1)], [some_signal(False, 0, 1)]
    a.add_object(objects)
    a.add_signal(signals)
    before = a.get_element()
    how = any_case('how', 3)
    if how == 0:
        objects[0] = some_object(False, 1, 0)
        signals[0] = some_signal(False, 1, 0)
    elif how == 1:
        objects.append(some_object(False, 1, 0))
        signals.append(some_signal(False, 1, 0))
    else:
        objects.pop()
        signals.pop()
    ensures_tree('the list changed', a.get_element(), before)
    b.add_object(some_object(False, 1, 2))
    b.add_signal(some_signal(False, 1, 2))
    if how != 1:
        b.add_object(objects)
        b.add_signal(signals)
    ensures_tree('the list used again', a.get_element(), before)
    changed = b.get_element()
    a.add_object([some_object(False, 0, 5)])
    a.add_signal([some_signal(False, 0, 5)])
    ensures_tree('more added to the first road', b.get_element(), changed)


def contract_refilled_geometry_list():
    """a list of geometries used for one created road after the other"""
    gs = [Line(any_real('length', 0, gt=0)), Line(any_real('length', 1, gt=0))]
    a = create_road(gs, any_int('id', 0))
    want = create_road([Line(any_real('length', 0, gt=0)), Line(any_real('length', 1, gt=0))], any_int('id', 0))
    gs[0] = Line(any_real('length', 2, gt=0))
    gs.append(Line(any_real('length', 3, gt=0)))
    b = create_road(gs, any_int('id', 1))
    for r in (a, b, want):
        r.planview.set_start_point(any_real('x'), any_real('y'), any_real('h'))
        r.planview.adjust_geometries(any_bool('from_end'))
    ensures_tree('the first road', a.get_element(), want.get_element())


def contract_refilled_linker():
    """a linker to which lanes of another road are added later"""
    a, b = some_lanes(1, 1, 1, 0), some_lanes(1, 1, 1, 1)
    linkers = [LaneLinker(), LaneLinker()]
    more = fill(LaneSection(any_real('more_s', 0), Lane(a=0)), 1, 1, 'more', 0)
    linkers[0].add_link(a.lanesections[0].leftlanes[0], more.leftlanes[0])
    linkers[1].add_link(a.lanesections[0].rightlanes[0], more.rightlanes[0])
    as_list = any_bool('list')
    a.add_lanesection(more, linkers if as_list else linkers[0])
    before = a.get_element()
    other = fill(LaneSection(any_real('more_s', 1), Lane(a=0)), 1, 1, 'more', 1)
    linkers[0].add_link(b.lanesections[0].leftlanes[0], other.leftlanes[0])
    b.add_lanesection(other, linkers if as_list else linkers[0])
    ensures_tree('lanes of the first road', a.get_element(), before)
