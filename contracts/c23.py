"""C23: lengths derived from angle or curvature change are exact."""
from spec import *
from numpy import abs, pi
from pyodrx.geometry import PlanView, Line, Arc, Spiral
from contracts.geoms import any_geometry, geometries, pose


def used_length(make, length):
    """the length in the evaluation of the geometry, in both directions and in either order, and in planviews placed from either end
    with any number of geometries before it and one after it"""
    x, y, h = any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7))
    g = make()
    if any_bool('backwards_first'):
        ensures_same('length seen backwards', g.get_start_data(x, y, h)[3], length)
        ensures_same('length seen forwards', g.get_end_data(x, y, h)[3], length)
    else:
        ensures_same('length seen forwards', g.get_end_data(x, y, h)[3], length)
        ensures_same('length seen backwards', g.get_start_data(x, y, h)[3], length)


def placed_length(make, length):
    n = any_size('before')
    pv = PlanView(any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7)))
    for i in range(n):
        pv.add_geometry(any_geometry(i))
    pv.add_geometry(make())
    pv.add_geometry(Line(any_real('after', gt=0)))
    pv.adjust_geometries(any_bool('from_end'))
    gs = geometries(pv)
    ensures_same('number of geometries', len(gs), n + 2)
    requires(len(gs) == n + 2)
    s = float(gs[n].get('s'))
    ensures_same('emitted length', float(gs[n].get('length')), length)
    ensures_same('the next geometry starts after this length', float(gs[n + 1].get('s')), s + length)
    ensures_same('the road length includes this length', pv.get_total_length(), s + length + any_real('after'))
    if n == 0:
        ensures_same('first s', s, 0)


def arc():
    k, a = any_real('curvature', typical=(-0.3, 0.3)), any_real('angle', typical=(-4, 4))
    requires(k != 0)
    requires(a != 0)
    return lambda: Arc(k, angle=a), abs(a / k)


def contract_arc_by_angle():
    make, length = arc()
    used_length(make, length)


def contract_arc_by_angle_placed():
    make, length = arc()
    placed_length(make, length)


def spiral_cdot():
    k0, k1, cdot = any_real('k0', typical=(-0.2, 0.2)), any_real('k1', typical=(-0.2, 0.2)), any_real('cdot', typical=(-0.02, 0.02))
    requires(cdot != 0)
    length = (k1 - k0) / cdot
    requires(length > 0)
    return lambda: Spiral(k0, k1, cdot=cdot), length


def contract_spiral_by_cdot():
    make, length = spiral_cdot()
    used_length(make, length)


def contract_spiral_by_cdot_placed():
    make, length = spiral_cdot()
    placed_length(make, length)


def spiral_angle():
    k, a = any_real('k', typical=(-0.2, 0.2)), any_real('angle', typical=(-4, 4))
    requires(k != 0)
    requires(a != 0)
    length = 2 * abs(a) / abs(k)
    if any_bool('to_curve'):
        return lambda: Spiral(0, k, angle=a), length
    return lambda: Spiral(k, 0, angle=a), length


def contract_spiral_by_angle():
    make, length = spiral_angle()
    used_length(make, length)


def contract_spiral_by_angle_placed():
    make, length = spiral_angle()
    placed_length(make, length)


def contract_spiral_turns_by_its_angle():
    make, length = spiral_angle()
    ensures('positive length', length > 0)
    x, y, h = any_real('x'), any_real('y'), any_real('h')
    h2 = make().get_end_data(x, y, h)[2]
    ensures_same('the heading changes by the angle', abs(h2 - h), abs(any_real('angle')))
    h3 = make().get_start_data(x, y, h)[2]
    ensures_same('the heading changes by the angle backwards', abs(h3 - h), abs(any_real('angle')))
