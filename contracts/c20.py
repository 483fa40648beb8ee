"""C20: create_junction_roads makes one connecting road per pair of roads."""
from spec import *
from numpy import abs, pi
from pyodrx.enumerations import ElementType, ContactPoint
from pyodrx.exceptions import NotSameAmountOfLanesError
from pyodrx.lane import Lane, LaneSection, Lanes
from pyodrx.generators import create_junction_roads
from contracts.geoms import geometries
from contracts.lanes import line_road


def section(left, right, s, a):
    sec = LaneSection(s, Lane(a=0))
    for k in range(left):
        sec.add_left_lane(Lane(a=a))
    for k in range(right):
        sec.add_right_lane(Lane(a=a))
    return sec


def make_road(i, left, right, more):
    """road i; its meeting section has the given lanes of one width; if there is another section it has one lane more on each side"""
    lanes = Lanes()
    if more and i == 0:
        lanes.add_lanesection(section(left + 1, right + 1, 0, any_real('other_width', i)))
    lanes.add_lanesection(section(left, right, 0, width(i)))
    if more and i > 0:
        lanes.add_lanesection(section(left + 1, right + 1, 50, any_real('other_width', i)))
    return line_road(any_id('road', i), lanes)


def width(i):
    return any_real('width', i, typical=(1, 5))


def any_angles(n, right):
    """0 and n-1 increasing angles less than a turn"""
    if right:
        requires(n <= 4)
        return [i * pi / 2 for i in range(n)]
    angles = [0]
    if SYMBOLIC:
        for i in range(1, n):
            angles.append(any_real('angle', i))
        for i in range(n):
            for j in range(n):
                if i < j:
                    requires(angles[i] < angles[j])
                    requires(angles[j] - angles[i] < 2 * pi)
    else:
        for i in range(1, n):
            angles.append(angles[i - 1] + any_real('gap', i, gt=0, typical=(0.1, 2)))
        requires(angles[n - 1] < 2 * pi)
    return angles


def links(e):
    return [list(c) for c in e if c.tag == 'link'][0]


def ensures_link(l, tag, kind, id, contact):
    ensures('kind of link', l.tag == tag)
    ensures_same('linked element type', l.get('elementType'), kind)
    ensures_same('linked element', l.get('elementId'), str(id))
    if contact is not None:
        ensures_same('contact point', l.get('contactPoint'), contact)


def ensures_lanes(road, m, a):
    """m lanes of constant width a on both sides"""
    secs = [c for c in road.lanes.get_element() if c.tag == 'laneSection']
    ensures_same('one lane section', len(secs), 1)
    ensures_same('lane section starts at 0', float(secs[0].get('s')), 0)
    for tag, sign in (('left', 1), ('right', -1)):
        es = [c for c in secs[0] if c.tag == tag]
        ensures_same('lanes on both sides', len(es), 1)
        ls = list(es[0])
        ensures_same('number of lanes', len(ls), m)
        requires(len(ls) == m)

        def one(k):
            ensures_same('lane id', ls[k].get('id'), str(sign * (k + 1)))
            ws = [c for c in ls[k] if c.tag == 'width']
            ensures_same('one width', len(ws), 1)
            ensures_same('lane width', float(ws[0].get('a')), a)
            for t in ('b', 'c', 'd', 'sOffset'):
                ensures_same('constant lane width', float(ws[0].get(t)), 0)
        forall(m, one)


def ensures_turn(road, turn, r):
    """after placing it, the planview turns by the angle"""
    x, y, h = any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7))
    # follows from the angles being within one turn
    ensures('the turn is less than half a turn to the right', -pi < turn)
    ensures('the turn is less than half a turn to the left', turn < pi)
    requires(-pi < turn)
    requires(turn < pi)
    ensures('the road is not placed', not road.planview.adjusted)
    road.planview.set_start_point(x, y, h)
    road.planview.adjust_geometries()
    shapes = [list(g)[0] for g in geometries(road.planview)]
    if turn == 0 or len(shapes) == 1:
        # with angles whose difference is half a turn up to rounding either form will do
        ensures('a straight road goes straight on', turn == 0 or (not SYMBOLIC and abs(turn) < 1e-9))
        ensures_same('a straight road is one line', len(shapes), 1)
        ensures('line', shapes[0].tag == 'line')
    else:
        ensures_same('spiral, arc and spiral', len(shapes), 3)
        ensures('first a spiral', shapes[0].tag == 'spiral')
        ensures('then an arc', shapes[1].tag == 'arc')
        ensures('then a spiral', shapes[2].tag == 'spiral')
        ensures_same('curvature of the arc', abs(float(shapes[1].get('curvature'))), 1 / r)
    d = road.planview.get_end_point()[2] - h - turn
    if not SYMBOLIC and abs(d) > 3:
        d = d - 2 * pi * round(d / (2 * pi))
    ensures('turns by the angle between the roads', d <= 1e-6)
    ensures('turns by no more than the angle between the roads', -1e-6 <= d)


def parts():
    """radius and part of the turn that is one spiral; the arc is the rest"""
    r = any_real('r', gt=0, hi=300, typical=(1, 50))
    p = any_real('spiral_part', gt=0, lt=0.5, typical=(0.05, 0.45))
    return r, p


def check(n, m, more=False, right=False, defaults=False, turns=True):
    roads = [make_road(i, m, m, more) for i in range(n)]
    r, p = parts()
    angles = any_angles(n, right)
    if defaults:
        jr = create_junction_roads(roads, angles, r)
        junction, start, p = 1, 100, 1 / 3
    else:
        junction, start = any_int('junction'), any_int('startnum')
        jr = create_junction_roads(roads, angles, r, junction, p, 1 - 2 * p, start)
    pairs = []
    for i in range(n - 1):
        for j in range(i + 1, n):
            pairs.append((i, j, start, angles[j] - angles[i] - pi))
            start = start + 1

    def one(road, pair):
        i, j, id, turn = pair
        e = road.get_element()
        ensures_same('consecutive ids', e.get('id'), str(id))
        ensures_same('road of the junction', e.get('junction'), str(junction))
        ls = links(e)
        ensures_same('two links', len(ls), 2)
        ensures_link(ls[0], 'predecessor', 'road', any_id('road', i), 'end' if i == 0 else 'start')
        ensures_link(ls[1], 'successor', 'road', any_id('road', j), 'start')
        ensures_lanes(road, m, width(i))
        if turns:
            ensures_turn(road, turn, r)
    pairwise('one road per pair of roads', jr, pairs, one)

    def joined(i):
        ls = links(roads[i].get_element())
        ensures_same('one link from a road to the junction', len(ls), 1)
        ensures_link(ls[0], 'successor' if i == 0 else 'predecessor', 'junction', junction, None)
    forall(n, joined)


def contract_roads():
    check(any_size('n', 2, 4), any_size('m', 1), turns=False)


def contract_turns():
    check(any_size('n', 2, 4), 1)


def contract_right_angles():
    """some of the connecting roads go straight on"""
    check(any_size('n', 2, 4), any_size('m', 1), right=True)


def contract_more_sections():
    """the lane sections that meet are not the only ones"""
    check(any_size('n', 2, 4), any_size('m', 1), more=True, turns=False)


def contract_defaults():
    check(any_size('n', 2, 4), 2, defaults=True)


def different(n):
    """road `bad` of n has different numbers of lanes where they meet"""
    bad = any_int('bad', lo=0, hi=n - 1)
    dl, dr = any_size('left_difference', 0, 2), any_size('right_difference', 0, 2)
    requires(dl + dr > 0)
    m = any_size('m', 1)
    roads = []
    for i in range(n):
        roads.append(make_road(i, m + dl if i == bad else m, m + dr if i == bad else m, False))
    r, p = parts()
    try:
        create_junction_roads(roads, any_angles(n, not SYMBOLIC), r, 1, p, 1 - 2 * p)
        ok = False
    except NotSameAmountOfLanesError:
        ok = True
    ensures('different lane counts raise NotSameAmountOfLanesError', ok)


def contract_different_lanes_of_two():
    different(2)


def contract_different_lanes_of_three():
    """three roads; in the run-time evaluation any number of roads"""
    different(3 if SYMBOLIC else any_size('n', 2, 5))
