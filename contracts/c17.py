"""C17: under- and over-specified inputs are rejected."""
from spec import *
from pyodrx.enumerations import ElementType, ContactPoint, Direction
from pyodrx.exceptions import NotEnoughInputArguments, ToManyOptionalArguments
from pyodrx.geometry import Spiral, Arc, PlanView, ParamPoly3, Line
from pyodrx.lane import Lane, LaneSection
from pyodrx.links import _Link
from pyodrx.opendrive import Road
from contracts.lanes import line_road, make_section
from pyodrx.lane import Lanes


def outcome(fn):
    """'ok', or the name of the exception class"""
    try:
        fn()
    except NotEnoughInputArguments:
        return 'NotEnoughInputArguments'
    except ToManyOptionalArguments:
        return 'ToManyOptionalArguments'
    except ValueError:
        return 'ValueError'
    return 'ok'


def opt(name):
    return any_none_or('no_' + name, any_real(name))


def count(vs):
    return sum([0 if v is None else 1 for v in vs])


def contract_spiral():
    length, angle, cdot = opt('length'), opt('angle'), opt('cdot')
    n = count([length, angle, cdot])
    k0, k1 = any_real('k0'), any_real('k1')
    requires(angle is None or k0 != 0 or k1 != 0)
    got = outcome(lambda: Spiral(k0, k1, length, angle, cdot))
    if n == 0:
        ensures_same('Spiral without length, angle and cdot', got, 'NotEnoughInputArguments')
    elif n > 1:
        ensures_same('Spiral with more than one of them', got, 'ToManyOptionalArguments')
    else:
        ensures_same('Spiral with exactly one of them', got, 'ok')


def contract_arc():
    length, angle = opt('length'), opt('angle')
    n = count([length, angle])
    k = any_real('k')
    got = outcome(lambda: Arc(k, length, angle))
    if n == 1 and k == 0:
        ensures_same('Arc without curvature', got, 'ValueError')
    elif n == 1:
        ensures_same('Arc with one of them', got, 'ok')
    elif k != 0:
        ensures_same('Arc with none or both of length and angle', got, 'NotEnoughInputArguments' if n == 0 else 'ToManyOptionalArguments')
    else:
        ensures('Arc with several errors', got != 'ok')


def contract_planview():
    x, y, h = opt('x'), opt('y'), opt('h')
    n = count([x, y, h])
    got = outcome(lambda: PlanView(x, y, h))
    ensures_same('PlanView with some of its start values', got, 'ok' if n == 0 or n == 3 else 'NotEnoughInputArguments')


def contract_planview_start_is_used():
    pv = PlanView(any_real('x'), any_real('y'), any_real('h'))
    pv.add_geometry(Line(any_real('l', gt=0)))
    pv.adjust_geometries()
    x, y, h = pv.get_start_point()
    ensures_same('start x', x, any_real('x'))
    ensures_same('start y', y, any_real('y'))
    ensures_same('start heading', h, any_real('h'))


def contract_parampoly():
    length = opt('length')
    cs = [any_real('c', i) for i in range(8)]
    arc = any_bool('arc_length')
    got = outcome(lambda: ParamPoly3(*cs, prange='arcLength' if arc else 'normalized', length=length))
    ensures_same('ParamPoly3', got, 'ValueError' if arc and length is None else 'ok')


def contract_neighbor():
    direction = any_none_or('no_direction', any_enum(Direction, 'direction'))
    t, i = any_enum(ElementType, 'type'), any_int('id')
    want = 'ValueError' if direction is None else 'ok'
    ensures_same('neighbor link', outcome(lambda: _Link('neighbor', i, t, direction=direction)), want)
    lanes = Lanes()
    lanes.add_lanesection(make_section(1, 1))
    r = line_road(any_int('road'), lanes)
    ensures_same('neighbor of a road', outcome(lambda: r.add_neighbor(t, i, direction)), want)
    ensures_same('the road has the neighbor', len(list(r.links.get_element())), 0 if direction is None else 1)


def contract_other_links_need_no_direction():
    ensures_same('successor link', outcome(lambda: _Link('successor', any_int('id'), any_enum(ElementType, 'type'), any_none_or('no_cp', any_enum(ContactPoint, 'cp')))), 'ok')
    ensures_same('predecessor link', outcome(lambda: _Link('predecessor', any_int('id'), any_none_or('no_type', any_enum(ElementType, 'type')))), 'ok')


def contract_lane_outside_a_section():
    a = any_real('a')
    lane = Lane(a=a)
    ensures_same('lane in no lane section', outcome(lambda: lane.get_element()), 'ValueError')
    ensures_same('attributes of a lane in no lane section', outcome(lambda: lane.get_attributes()), 'ValueError')
    sec = LaneSection(any_real('s'), Lane() if any_bool('side') else lane)
    if any_bool('side'):
        if any_bool('left'):
            sec.add_left_lane(lane)
        else:
            sec.add_right_lane(lane)
    ensures_same('lane in a lane section', outcome(lambda: lane.get_element()), 'ok')
    ensures_same('lane section', outcome(lambda: sec.get_element()), 'ok')
