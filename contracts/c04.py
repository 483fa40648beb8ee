"""C04: a planview placed from its end is the same chain."""
from spec import *
from numpy import pi
from pyodrx.geometry import PlanView
from contracts.geoms import any_geometry, ensures_chain, ensures_pose, pose, start_pose, ORDERS

CONFIG = {'assumptions': ['for the placement of a symbolic number of geometries, a geometry is any object that moves the pose by a rigid motion and has a length (proved for the four classes by C01 and C02)']}


def contract_chain_from_end():
    stubbed()
    n = any_size('n', hi=3)
    x, y, h = start_pose()
    pv = PlanView()
    if any_bool('start_given'):
        pv = PlanView(x, y, h)
    else:
        pv.set_start_point(x, y, h)
    for i in range(n):
        pv.add_geometry(any_geometry(i))
    pv.adjust_geometries(True)
    gs = ensures_chain(pv, n, any_geometry)
    ensures_pose('end point', pv.get_end_point(), (x, y, h + pi))
    if n > 0:
        ensures_pose('start point', pv.get_start_point(), pose(gs[0]))
        ensures_pose('end of the last geometry', any_geometry(n - 1).get_end_data(*pose(gs[n - 1])), (x, y, h + pi))
    else:
        ensures_pose('start point without geometry', pv.get_start_point(), (x, y, h + pi))


def contract_same_geometry_twice():
    """geometries, each of which may be added several times"""
    stubbed()
    x, y, h = start_pose()
    shapes = [any_geometry(0), any_geometry(1)]
    order = ORDERS[any_case('order', len(ORDERS))]
    pv = PlanView()
    for i in order:
        pv.add_geometry(shapes[i])
    pv.set_start_point(x, y, h)
    pv.adjust_geometries(True)
    gs = ensures_chain(pv, len(order), lambda i: shapes[order[i]])
    ensures_pose('start point', pv.get_start_point(), pose(gs[0]))
    ensures_pose('end point', pv.get_end_point(), (x, y, h + pi))
    ensures_pose('end of the last geometry', shapes[order[-1]].get_end_data(*pose(gs[-1])), (x, y, h + pi))
