"""C06: placing a road network places every road exactly once."""
from spec import *
from numpy import pi
from pyodrx.enumerations import ElementType, ContactPoint
from pyodrx.exceptions import UndefinedRoadNetwork
from pyodrx.geometry import PlanView
from pyodrx.lane import Lane, LaneSection, Lanes
from pyodrx.opendrive import OpenDrive, Road
from contracts.geoms import any_geometry, ensures_chain, ensures_pose, geometries, pose

CONFIG = {'concrete_only': ['contract_network', 'contract_connecting_roads_of_a_junction', 'contract_connected_roads', 'contract_reverse_chain',
                            # too slow for the symbolic stage
                            'contract_two_connecting_roads_to_the_first_fixed', 'contract_two_connecting_roads_to_the_first',
                            'contract_two_connecting_roads_from_the_first_fixed', 'contract_two_connecting_roads_from_the_first',
                            'contract_three_roads_star_sp', 'contract_three_roads_star_ss',
                            'contract_three_roads_row_sp', 'contract_three_roads_row_ss'],
          'assumptions': ['geometries of unknown kind are represented by an arbitrary rigid motion and length, which C01 and C02 prove of the four classes']}


def some_lanes():
    lanes = Lanes()
    lanes.add_lanesection(LaneSection(0, Lane(a=0)))
    return lanes


def start_of(k):
    return any_real('x', k, typical=(-50, 50)), any_real('y', k, typical=(-50, 50)), any_real('h', k, typical=(-7, 7))


def make_road(k, fixed, road_type=-1):
    if fixed:
        x, y, h = start_of(k)
        pv = PlanView(x, y, h)
    else:
        pv = PlanView()
    pv.add_geometry(any_geometry(k))
    return Road(any_id('road', k), pv, some_lanes(), road_type)


def ends(pv, k):
    """start and end pose of the emitted road k"""
    x, y, h = pose(geometries(pv)[0])
    x2, y2, h2, _ = any_geometry(k).get_end_data(x, y, h)
    return (x, y, h), (x2, y2, h2)


def meeting(end, at_start, other_end, other_at_start):
    """the two ends are at one place and the directions of travel fit"""
    return [(end[0], other_end[0]), (end[1], other_end[1]), (end[2], other_end[2] + pi if at_start == other_at_start else other_end[2], 'dir')]


def is_start(contact):
    return contact == ContactPoint.start


def check(od, roads, fixed, links, call, first=0):
    """links: (road, 'predecessor' or 'successor', target road or None for a junction, contact point)"""
    n = len(roads)
    raised = False
    try:
        call()
    except UndefinedRoadNetwork:
        raised = True
    if raised:
        for k, kind, target, contact in links:
            if target is not None:
                ensures('no unplaced road is linked to a placed one', roads[k].planview.adjusted or not roads[target].planview.adjusted)
        ensures('some road is not placed', not all([r.planview.adjusted for r in roads]))
    else:
        es = []
        for k in range(n):
            gs = geometries(roads[k].planview)
            ensures_same('every road is placed exactly once', len(gs), 1)
            requires(len(gs) == 1)
            ensures_tree('its geometry', list(gs[0])[0], any_geometry(k).get_element())
            es.append(ends(roads[k].planview, k))
        for k in range(n):
            if fixed[k]:
                ensures_pose('road with a start pose', es[k][0], start_of(k))
            elif k == first and not any(fixed):
                ensures_pose('first road without any start pose', es[k][0], (0, 0, 0))
            else:
                alts = []
                for a, kind, b, contact in links:
                    if b is not None and (a == k) != (b == k):
                        own_start = kind == 'predecessor'
                        other_start = is_start(contact)
                        alts.append(meeting(es[a][0] if own_start else es[a][1], own_start, es[b][0] if other_start else es[b][1], other_start))
                ensures_some('the road meets a road it is linked with', alts)


def add_links(roads, links, k, n):
    for kind in ('predecessor', 'successor'):
        t = any_case(kind, n + 2, k)
        if t == 0:
            continue
        if t == 1:
            e, i, cp = ElementType.junction, any_int('junction', k), None
            links.append((k, kind, None, None))
        else:
            e, i, cp = ElementType.road, any_id('road', t - 2), any_enum(ContactPoint, kind + '_contact', k)
            links.append((k, kind, t - 2, cp))
        if kind == 'predecessor':
            roads[k].add_predecessor(e, i, cp)
        else:
            roads[k].add_successor(e, i, cp)


def network(n, types):
    od = OpenDrive('x')
    fixed = [any_bool('fixed', k) for k in range(n)]
    roads = [make_road(k, fixed[k], types(k)) for k in range(n)]
    links = []
    for k in range(n):
        add_links(roads, links, k, n)
    for r in roads:
        od.add_road(r)
    return od, roads, fixed, links


def contract_network():
    """any links between the roads, connecting roads or not"""
    od, roads, fixed, links = network(any_size('n', 1, 2), lambda k: 1 if any_bool('connecting', k) else -1)
    check(od, roads, fixed, links, od.adjust_startpoints)


def two_roads(names_0, names_1):
    """two roads; names_k are the links by which road k names the other, its remaining links name a junction or are missing"""
    od = OpenDrive('x')
    fixed = [any_bool('fixed', k) for k in range(2)]
    roads = [make_road(k, fixed[k]) for k in range(2)]
    links = []
    for k, names in ((0, names_0), (1, names_1)):
        for kind in ('predecessor', 'successor'):
            if kind in names:
                cp = any_enum(ContactPoint, kind + '_contact', k)
                e, i = ElementType.road, roads[1 - k].id
                links.append((k, kind, 1 - k, cp))
            elif any_bool(kind + '_is_junction', k):
                # the junction may have the id of a road
                cp = None
                e, i = ElementType.junction, any_int('junction', k)
                links.append((k, kind, None, cp))
            else:
                continue
            if kind == 'predecessor':
                roads[k].add_predecessor(e, i, cp)
            else:
                roads[k].add_successor(e, i, cp)
    for r in roads:
        od.add_road(r)
    check(od, roads, fixed, links, od.adjust_startpoints)


def contract_two_roads_nn():
    two_roads([], [])


def contract_two_roads_np():
    two_roads([], ['predecessor'])


def contract_two_roads_ns():
    two_roads([], ['successor'])


def contract_two_roads_nb():
    two_roads([], ['predecessor', 'successor'])


def contract_two_roads_pn():
    two_roads(['predecessor'], [])


def contract_two_roads_pp():
    two_roads(['predecessor'], ['predecessor'])


def contract_two_roads_ps():
    two_roads(['predecessor'], ['successor'])


def contract_two_roads_pb():
    two_roads(['predecessor'], ['predecessor', 'successor'])


def contract_two_roads_sn():
    two_roads(['successor'], [])


def contract_two_roads_sp():
    two_roads(['successor'], ['predecessor'])


def contract_two_roads_ss():
    two_roads(['successor'], ['successor'])


def contract_two_roads_sb():
    two_roads(['successor'], ['predecessor', 'successor'])


def contract_two_roads_bn():
    two_roads(['predecessor', 'successor'], [])


def contract_two_roads_bp():
    two_roads(['predecessor', 'successor'], ['predecessor'])


def contract_two_roads_bs():
    two_roads(['predecessor', 'successor'], ['successor'])


def contract_two_roads_bb():
    two_roads(['predecessor', 'successor'], ['predecessor', 'successor'])


def connecting_roads(n, m, ends, fixed_road, connecting_first):
    """n ordinary roads around a junction, linked to it or not at all, and m connecting roads between them, which alone name roads;
    ends(k) are the ordinary roads that connecting road k leads from and to"""
    od = OpenDrive('x')
    fixed = [k == 0 and fixed_road for k in range(n + m)]
    roads = [make_road(k, fixed[k], -1 if k < n else 1) for k in range(n + m)]
    links = []
    # the junction may have the id of a road
    junction = any_int('junction_id') if any_bool('other_id') else roads[0].id
    for k in range(n):
        if k > 0 and any_bool('junction_after', k):
            roads[k].add_successor(ElementType.junction, junction)
        else:
            roads[k].add_predecessor(ElementType.junction, junction)
    for k in range(n, n + m):
        a, b = ends(k)
        c1, c2 = any_enum(ContactPoint, 'from_contact', k), any_enum(ContactPoint, 'to_contact', k)
        roads[k].add_predecessor(ElementType.road, roads[a].id, c1)
        roads[k].add_successor(ElementType.road, roads[b].id, c2)
        links.append((k, 'predecessor', a, c1))
        links.append((k, 'successor', b, c2))
    if connecting_first:
        for k in range(n, n + m):
            od.add_road(roads[k])
        for k in range(n):
            od.add_road(roads[k])
    else:
        for r in roads:
            od.add_road(r)
    check(od, roads, fixed, links, od.adjust_startpoints if fixed_road else od.adjust_roads_and_lanes, n if connecting_first else 0)


def contract_connecting_roads_of_a_junction():
    n, m = any_size('roads', 2, 2), any_size('connecting', 1, 1)

    def ends(k):
        a, b = any_case('from', n, k), any_case('to', n, k)
        requires(a != b)
        return a, b
    connecting_roads(n, m, ends, any_bool('fixed'), any_bool('connecting_first'))


def contract_one_connecting_road_forward_fixed_added_first():
    connecting_roads(2, 1, lambda k: (0, 1), True, True)


def contract_one_connecting_road_forward_fixed():
    connecting_roads(2, 1, lambda k: (0, 1), True, False)


def contract_one_connecting_road_forward_added_first():
    connecting_roads(2, 1, lambda k: (0, 1), False, True)


def contract_one_connecting_road_forward():
    connecting_roads(2, 1, lambda k: (0, 1), False, False)


def contract_one_connecting_road_backward_fixed_added_first():
    connecting_roads(2, 1, lambda k: (1, 0), True, True)


def contract_one_connecting_road_backward_fixed():
    connecting_roads(2, 1, lambda k: (1, 0), True, False)


def contract_one_connecting_road_backward_added_first():
    connecting_roads(2, 1, lambda k: (1, 0), False, True)


def contract_one_connecting_road_backward():
    connecting_roads(2, 1, lambda k: (1, 0), False, False)


def contract_two_connecting_roads_from_the_first_fixed():
    connecting_roads(3, 2, lambda k: (0, k - 2), True, False)


def contract_two_connecting_roads_from_the_first():
    connecting_roads(3, 2, lambda k: (0, k - 2), False, False)


def contract_two_connecting_roads_to_the_first_fixed():
    connecting_roads(3, 2, lambda k: (k - 2, 0), True, False)


def contract_two_connecting_roads_to_the_first():
    connecting_roads(3, 2, lambda k: (k - 2, 0), False, False)


def contract_connected_roads():
    """roads that hang together in a tree, each joined to an earlier one by a link of either, added in any order, with or without
    further start poses; ordinary roads, which are placed next to any of the neighbours they name"""
    n = any_size('n', 2, 6)
    od = OpenDrive('x')
    fixed = [any_case('fixed', 4, k) == 0 for k in range(n)]
    roads = [make_road(k, fixed[k]) for k in range(n)]
    links = []
    for k in range(1, n):
        p = any_case('parent', k, k)
        # the later road names the earlier one, since only a link of the road to be placed counts
        kind = 'predecessor' if any_bool('by_predecessor', k) else 'successor'
        cp = any_enum(ContactPoint, 'contact', k)
        links.append((k, kind, p, cp))
        if kind == 'predecessor':
            roads[k].add_predecessor(ElementType.road, roads[p].id, cp)
        else:
            roads[k].add_successor(ElementType.road, roads[p].id, cp)
        if any_bool('named_back', k) and not (roads[p].successor if cp == ContactPoint.end else roads[p].predecessor):
            other = ContactPoint.start if kind == 'predecessor' else ContactPoint.end
            links.append((p, 'successor' if cp == ContactPoint.end else 'predecessor', k, other))
            if cp == ContactPoint.end:
                roads[p].add_successor(ElementType.road, roads[k].id, other)
            else:
                roads[p].add_predecessor(ElementType.road, roads[k].id, other)
    order = list(range(n))
    for k in range(n - 1, 0, -1):
        j = any_case('swap', k + 1, k)
        order[k], order[j] = order[j], order[k]
    if not any(fixed):
        order.remove(0)
        order.insert(0, 0)
    for k in order:
        od.add_road(roads[k])
    check(od, roads, fixed, links, od.adjust_startpoints if any_bool('startpoints') else od.adjust_roads_and_lanes)


def contract_reverse_chain():
    """every road names the next one in the order of the network; the one with a start pose is the last"""
    n = any_size('n', 2, 7)
    od = OpenDrive('x')
    fixed = [k == n - 1 for k in range(n)]
    roads = [make_road(k, fixed[k]) for k in range(n)]
    links = []
    for k in range(n - 1):
        kind = 'predecessor' if any_bool('by_predecessor', k) else 'successor'
        cp = any_enum(ContactPoint, 'contact', k)
        links.append((k, kind, k + 1, cp))
        if kind == 'predecessor':
            roads[k].add_predecessor(ElementType.road, roads[k + 1].id, cp)
        else:
            roads[k].add_successor(ElementType.road, roads[k + 1].id, cp)
    for r in roads:
        od.add_road(r)
    check(od, roads, fixed, links, od.adjust_startpoints)
    ensures('a connected network is placed', all([r.planview.adjusted for r in roads]))


def tree(parent, kind_1, kind_2):
    """three roads; road 1 names road 0 and road 2 names its parent, which may name them back; added in any order, none or one of
    them with a start pose"""
    od = OpenDrive('x')
    f = any_case('fixed', 4)
    fixed = [f == k + 1 for k in range(3)]
    roads = [make_road(k, fixed[k]) for k in range(3)]
    links = []
    for k, p, kind in ((1, 0, kind_1), (2, parent, kind_2)):
        cp = any_enum(ContactPoint, 'contact', k)
        links.append((k, kind, p, cp))
        if kind == 'predecessor':
            roads[k].add_predecessor(ElementType.road, roads[p].id, cp)
        else:
            roads[k].add_successor(ElementType.road, roads[p].id, cp)
        if any_bool('named_back', k) and not (roads[p].successor if cp == ContactPoint.end else roads[p].predecessor):
            other = ContactPoint.start if kind == 'predecessor' else ContactPoint.end
            links.append((p, 'successor' if cp == ContactPoint.end else 'predecessor', k, other))
            if cp == ContactPoint.end:
                roads[p].add_successor(ElementType.road, roads[k].id, other)
            else:
                roads[p].add_predecessor(ElementType.road, roads[k].id, other)
    order = ORDERS[any_case('order', 6)]
    for k in order:
        od.add_road(roads[k])
    check(od, roads, fixed, links, od.adjust_startpoints, order[0])


ORDERS = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]


def contract_three_roads_star_pp():
    tree(0, 'predecessor', 'predecessor')


def contract_three_roads_star_ps():
    tree(0, 'predecessor', 'successor')


def contract_three_roads_star_sp():
    tree(0, 'successor', 'predecessor')


def contract_three_roads_star_ss():
    tree(0, 'successor', 'successor')


def contract_three_roads_row_pp():
    tree(1, 'predecessor', 'predecessor')


def contract_three_roads_row_ps():
    tree(1, 'predecessor', 'successor')


def contract_three_roads_row_sp():
    tree(1, 'successor', 'predecessor')


def contract_three_roads_row_ss():
    tree(1, 'successor', 'successor')
