"""C03: a planview placed from its start is one gapless chain."""
from spec import *
from pyodrx.geometry import PlanView
from contracts.geoms import any_geometry, ensures_chain, ensures_pose, pose, start_pose, ORDERS

CONFIG = {'assumptions': ['for the placement of a symbolic number of geometries, a geometry is any object that moves the pose by a rigid motion and has a length (proved for the four classes by C01 and C02)']}


def build(n, x, y, h, headings):
    if any_bool('start_given'):
        pv = PlanView(x, y, h)
    else:
        pv = PlanView()
        pv.set_start_point(x, y, h)
    for i in range(n):
        if headings:
            pv.add_geometry(any_geometry(i), any_real('hdg', i, typical=(-7, 7)))
        else:
            pv.add_geometry(any_geometry(i))
    pv.adjust_geometries()
    return pv


def contract_chain():
    stubbed()
    n = any_size('n', hi=3)
    x, y, h = start_pose()
    pv = build(n, x, y, h, False)
    gs = ensures_chain(pv, n, any_geometry)
    ensures_pose('start point', pv.get_start_point(), (x, y, h))
    if n > 0:
        ensures_pose('first geometry', pose(gs[0]), (x, y, h))
        ensures_pose('end point', pv.get_end_point(), any_geometry(n - 1).get_end_data(*pose(gs[n - 1])))
    else:
        ensures_pose('end point without geometry', pv.get_end_point(), (x, y, h))


def contract_chain_with_headings():
    stubbed()
    n = any_size('n', hi=3)
    x, y, h = start_pose()
    pv = build(n, x, y, h, True)
    gs = ensures_chain(pv, n, any_geometry, False)
    forall(n, lambda i: ensures_dir('given heading', pose(gs[i])[2], any_real('hdg', i, typical=(-7, 7))))
    if n > 0:
        ensures_same('first x', pose(gs[0])[0], x)
        ensures_same('first y', pose(gs[0])[1], y)
        ensures_pose('end point', pv.get_end_point(), any_geometry(n - 1).get_end_data(*pose(gs[n - 1])))


def contract_same_geometry_twice():
    """geometries, each of which may be added several times"""
    stubbed()
    x, y, h = start_pose()
    shapes = [any_geometry(0), any_geometry(1)]
    order = ORDERS[any_case('order', len(ORDERS))]
    headings = any_bool('headings')
    pv = PlanView(x, y, h)
    for i in range(len(order)):
        if headings:
            pv.add_geometry(shapes[order[i]], any_real('hdg', i, typical=(-7, 7)))
        else:
            pv.add_geometry(shapes[order[i]])
    pv.adjust_geometries()
    gs = ensures_chain(pv, len(order), lambda i: shapes[order[i]], not headings)
    if headings:
        for i in range(len(order)):
            ensures_dir('given heading', pose(gs[i])[2], any_real('hdg', i, typical=(-7, 7)))
    ensures_pose('end point', pv.get_end_point(), shapes[order[-1]].get_end_data(*pose(gs[-1])))


def contract_start_pose_set_again():
    """the start pose set last counts, before or after geometries are added; coordinates not given are 0"""
    stubbed()
    n = any_size('n', 1, 3)
    x, y, h = start_pose()
    if any_bool('start_given'):
        pv = PlanView(any_real('x', 1, typical=(-50, 50)), any_real('y', 1, typical=(-50, 50)), any_real('h', 1, typical=(-7, 7)))
    else:
        pv = PlanView()
        if any_bool('set_before'):
            pv.set_start_point(any_real('x', 1, typical=(-50, 50)), any_real('y', 1, typical=(-50, 50)), any_real('h', 1, typical=(-7, 7)))
    for i in range(n):
        pv.add_geometry(any_geometry(i))
    c = any_case('given', 5)
    if c == 0:
        pv.set_start_point()
        start = (0, 0, 0)
    elif c == 1:
        pv.set_start_point(x)
        start = (x, 0, 0)
    elif c == 2:
        pv.set_start_point(x, y)
        start = (x, y, 0)
    elif c == 3:
        pv.set_start_point(h_start=h)
        start = (0, 0, h)
    else:
        pv.set_start_point(x, y, h)
        start = (x, y, h)
    pv.adjust_geometries()
    gs = ensures_chain(pv, n, any_geometry)
    ensures_pose('start point', pv.get_start_point(), start)
    ensures_pose('first geometry', pose(gs[0]), start)
