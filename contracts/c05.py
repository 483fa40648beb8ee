"""C05: a road placed next to a neighbour meets it at the contact point."""
from spec import *
from numpy import sin, cos, pi
from pyodrx.enumerations import ElementType, ContactPoint
from pyodrx.geometry import PlanView
from pyodrx.lane import Lane, LaneSection, Lanes
from pyodrx.opendrive import OpenDrive, Road
from contracts.geoms import any_geometry, ensures_pose, ensures_chain, geometries, pose

CONFIG = {"assumptions": ['geometries of unknown kind are represented by an arbitrary rigid motion and length, which C01 and C02 prove of the four classes']}


def some_lanes():
    lanes = Lanes()
    lanes.add_lanesection(LaneSection(0, Lane(a=0)))
    return lanes


def make_road(k, n, x=None, y=None, h=None, road_type=-1):
    pv = PlanView(x, y, h)
    for i in range(n):
        pv.add_geometry(any_geometry(k, i))
    return Road(any_id('road', k), pv, some_lanes(), road_type)




def ensures_meets(what, placed, k, n, link, neighbour, m, contact, offset):
    """road k (n geometries) was placed by its link to the neighbour (road 0, m geometries)"""
    ensures_chain(placed.planview, n, lambda i: any_geometry(k, i))
    gs, ns = geometries(placed.planview), geometries(neighbour.planview)
    # the neighbour's contact point, from its emitted geometries
    if contact == ContactPoint.start:
        nx, ny, nh = pose(ns[0])
    else:
        px, py, ph = pose(ns[m - 1])
        nx, ny, nh, _ = any_geometry(0, m - 1).get_end_data(px, py, ph)
    # the placed road's end of the link
    if link == 'predecessor':
        x, y, h = pose(gs[0])
        met_start = True
    else:
        px, py, ph = pose(gs[n - 1])
        x, y, h, _ = any_geometry(k, n - 1).get_end_data(px, py, ph)
        met_start = False
    ensures_same(what + ': x', x, nx - offset * 3 * sin(h))
    ensures_same(what + ': y', y, ny + offset * 3 * cos(h))
    if met_start == (contact == ContactPoint.start):
        ensures_dir(what + ': opposite directions', h, nh + pi)
    else:
        ensures_dir(what + ': same direction', h, nh)
    # what the road and the planview report
    ensures_pose('start point of the planview', placed.planview.get_start_point(), pose(gs[0]))
    px, py, ph = pose(gs[n - 1])
    ex, ey, eh, _ = any_geometry(k, n - 1).get_end_data(px, py, ph)
    ensures_pose('end point of the planview', placed.planview.get_end_point(), (ex, ey, eh))
    ensures_pose('end point of the road', placed.get_end_point(), (ex, ey, eh))


def contract_placed_wrt_neighbour():
    """any number of geometries in both roads, any number of other placed roads"""
    od = OpenDrive('x')
    m, n = any_size('m', 1), any_size('n', 1)
    nb = make_road(0, m, any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7)))
    a = make_road(1, n)
    other = make_road(2, 2, any_real('ox'), any_real('oy'), any_real('oh'))
    contact = any_enum(ContactPoint, 'contact')
    offset = any_int('offset')
    link = 'predecessor' if any_bool('pred') else 'successor'
    if link == 'predecessor':
        a.add_predecessor(ElementType.road, nb.id, contact, offset)
    else:
        a.add_successor(ElementType.road, nb.id, contact, offset)
    for r in (other, nb, a):
        od.add_road(r)
    nb.planview.adjust_geometries()
    other.planview.adjust_geometries()
    before, obefore = nb.planview.get_element(), other.planview.get_element()
    od.adjust_road_wrt_neighbour(a.id, nb.id, contact, link)
    ensures_tree('the neighbour does not move', nb.planview.get_element(), before)
    ensures_tree('other roads do not move', other.planview.get_element(), obefore)
    ensures_meets('meeting point', a, 1, n, link, nb, m, contact, offset)


def contract_placed_in_the_network():
    """the same through adjust_startpoints, roads added in either order"""
    od = OpenDrive('x')
    m, n = any_size('m', 1), any_size('n', 1)
    nb = make_road(0, m, any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7)))
    a = make_road(1, n)
    contact = any_enum(ContactPoint, 'contact')
    offset = any_int('offset')
    link = 'predecessor' if any_bool('pred') else 'successor'
    if link == 'predecessor':
        a.add_predecessor(ElementType.road, nb.id, contact, offset)
    else:
        a.add_successor(ElementType.road, nb.id, contact, offset)
    if any_bool('placed_first'):
        od.add_road(nb)
        od.add_road(a)
    else:
        od.add_road(a)
        od.add_road(nb)
    od.adjust_startpoints()
    ensures_pose('fixed start', pose(geometries(nb.planview)[0]), (any_real('x'), any_real('y'), any_real('h')))
    ensures_chain(nb.planview, m, lambda i: any_geometry(0, i))
    ensures_meets('meeting point', a, 1, n, link, nb, m, contact, offset)


def contract_neighbour_placed_from_its_end():
    """a chain of three roads: the neighbour of the third was itself placed from its end or start"""
    od = OpenDrive('x')
    first = make_road(2, 1, any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7)))
    nb = make_road(0, 2)
    a = make_road(1, 2)
    fc, contact = any_enum(ContactPoint, 'first_contact'), any_enum(ContactPoint, 'contact')
    offset = any_int('offset')
    if any_bool('nb_from_end'):
        nb.add_successor(ElementType.road, first.id, fc, any_int('offset2'))
    else:
        nb.add_predecessor(ElementType.road, first.id, fc, any_int('offset2'))
    link = 'predecessor' if any_bool('pred') else 'successor'
    if link == 'predecessor':
        a.add_predecessor(ElementType.road, nb.id, contact, offset)
    else:
        a.add_successor(ElementType.road, nb.id, contact, offset)
    for r in (first, nb, a):
        od.add_road(r)
    od.adjust_startpoints()
    ensures_meets('meeting point', a, 1, 2, link, nb, 2, contact, offset)
