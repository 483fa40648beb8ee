"""C01: the end pose of a geometry is the end of the declared curve."""
from spec import *
from numpy import sin, cos, sqrt, arctan2, abs
from pyodrx.geometry import Line, Arc, Spiral, ParamPoly3
from contracts.geoms import make_geometry


def start_pose():
    return any_real('x'), any_real('y'), any_real('h')


def contract_line():
    x, y, h = start_pose()
    length = any_real('length', gt=0)
    x2, y2, h2, l = Line(length).get_end_data(x, y, h)
    ensures_same('Line end x', x2, x + length * cos(h))
    ensures_same('Line end y', y2, y + length * sin(h))
    ensures_dir('Line end heading', h2, h)
    ensures_same('Line length', l, length)


def contract_arc_length():
    x, y, h = start_pose()
    c = any_real('curvature')
    requires(c != 0)
    length = any_real('length', gt=0)
    x2, y2, h2, l = Arc(c, length=length).get_end_data(x, y, h)
    ensures_same('Arc end x', x2, x + (sin(h + c * length) - sin(h)) / c)
    ensures_same('Arc end y', y2, y - (cos(h + c * length) - cos(h)) / c)
    ensures_dir('Arc end heading', h2, h + c * length)
    ensures_same('Arc length', l, length)


def contract_arc_follows():
    x, y, h = start_pose()
    c = any_real('curvature')
    requires(c != 0)
    s = any_real('length', gt=0)
    x2, y2, h2, l = Arc(c, length=s).get_end_data(x, y, h)
    ensures_follows('Arc follows its circle', s, (x, y), (x2, y2), lambda u: h + c * u)


def contract_arc_angle():
    x, y, h = start_pose()
    c = any_real('curvature')
    requires(c != 0)
    angle = any_real('angle')
    requires(angle != 0)
    length = abs(angle / c)
    x2, y2, h2, l = Arc(c, angle=angle).get_end_data(x, y, h)
    ensures_same('Arc by angle: end x', x2, x + (sin(h + c * length) - sin(h)) / c)
    ensures_same('Arc by angle: end y', y2, y - (cos(h + c * length) - cos(h)) / c)
    ensures_dir('Arc by angle: end heading', h2, h + c * length)
    ensures_same('Arc by angle: length', l, length)


def contract_spiral():
    x, y, h = start_pose()
    k0 = any_real('curvstart')
    g = any_real('rate')
    s = any_real('length', gt=0)
    x2, y2, h2, l = Spiral(k0, k0 + g * s, length=s).get_end_data(x, y, h)
    ensures_follows('Spiral follows its clothoid', s, (x, y), (x2, y2), lambda u: h + k0 * u + g * u * u / 2)
    ensures_dir('Spiral end heading', h2, h + k0 * s + g * s * s / 2)
    ensures_same('Spiral length', l, s)


def coefficients():
    return [any_real(n) for n in ('au', 'bu', 'cu', 'du', 'av', 'bv', 'cv', 'dv')]


def poly_goals(p, au, bu, cu, du, av, bv, cv, dv, end):
    x, y, h = start_pose()
    x2, y2, h2, l = end
    u = au + bu * p + cu * p * p + du * p * p * p
    v = av + bv * p + cv * p * p + dv * p * p * p
    ensures_same('ParamPoly3 end x', x2, x + u * cos(h) - v * sin(h))
    ensures_same('ParamPoly3 end y', y2, y + u * sin(h) + v * cos(h))
    ensures_dir('ParamPoly3 end heading', h2, h + arctan2(bv + 2 * cv * p + 3 * dv * p * p, bu + 2 * cu * p + 3 * du * p * p))
    return l


def contract_parampoly3_arclength():
    x, y, h = start_pose()
    au, bu, cu, du, av, bv, cv, dv = coefficients()
    length = any_real('length', gt=0)
    g = ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='arcLength', length=length)
    l = poly_goals(length, au, bu, cu, du, av, bv, cv, dv, g.get_end_data(x, y, h))
    ensures_same('ParamPoly3 length', l, length)


def contract_parampoly3_normalized():
    x, y, h = start_pose()
    au, bu, cu, du, av, bv, cv, dv = coefficients()
    # a length given with a normalized polynomial does not count
    g = ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='normalized', length=any_none_or('no_length', any_real('length', gt=0)))
    l = poly_goals(1, au, bu, cu, du, av, bv, cv, dv, g.get_end_data(x, y, h))
    speed = lambda p: sqrt((bu + 2 * cu * p + 3 * du * p * p) ** 2 + (bv + 2 * cv * p + 3 * dv * p * p) ** 2)
    ensures_same('ParamPoly3 normalized length', l, integral(speed, 0, 1))


def rigid(kind):
    """the end pose moves with the start pose: what C03 and C04 use of a geometry"""
    x, y, h = start_pose()
    x0, y0, h0, l0 = make_geometry(kind).get_end_data(0, 0, 0)
    x2, y2, h2, l2 = make_geometry(kind).get_end_data(x, y, h)
    ensures_same('end x moves with the start pose', x2, x + cos(h) * x0 - sin(h) * y0)
    ensures_same('end y moves with the start pose', y2, y + sin(h) * x0 + cos(h) * y0)
    ensures_dir('end heading moves with the start pose', h2, h + h0)
    ensures_same('length independent of the start pose', l2, l0)


def contract_rigid_line():
    rigid(0)


def contract_rigid_arc_length():
    rigid(1)


def contract_rigid_arc_angle():
    rigid(2)


def contract_rigid_spiral():
    rigid(3)


def contract_rigid_parampoly3_arclength():
    rigid(4)


def contract_rigid_parampoly3_normalized():
    rigid(5)


def contract_rigid_spiral_cdot():
    rigid(6)
