"""Arbitrary geometries of the four classes, built from contract inputs."""
from spec import *
from numpy import abs, sin, cos, pi
import xml.etree.ElementTree as ET
from pyodrx.geometry import Line, Arc, Spiral, ParamPoly3

KINDS = 8

# which of two geometries is added at each place
ORDERS = [[0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 1, 0]]


def make_geometry(kind, *i):
    """kind 0 Line, 1 Arc by length, 2 Arc by angle, 3 Spiral, 4 ParamPoly3 arcLength, 5 ParamPoly3 normalized, 6 Spiral by cdot,
    7 ParamPoly3 normalized with a length, which does not count"""
    if kind == 0:
        return Line(any_real('line_length', *i, gt=0, typical=(0.1, 60)))
    if kind == 1 or kind == 2:
        c = any_real('curvature', *i, typical=(-0.3, 0.3))
        requires(c != 0)
        if kind == 1:
            return Arc(c, length=any_real('arc_length', *i, gt=0, typical=(0.1, 40)))
        angle = any_real('arc_angle', *i, typical=(-4, 4))
        requires(angle != 0)
        return Arc(c, angle=angle)
    if kind == 3:
        return Spiral(any_real('curvstart', *i, typical=(-0.2, 0.2)), any_real('curvend', *i, typical=(-0.2, 0.2)), length=any_real('spiral_length', *i, gt=0, typical=(0.1, 40)))
    if kind == 6:
        k0 = any_real('curvstart', *i, typical=(-0.2, 0.2))
        cdot = any_real('cdot', *i, typical=(-0.01, 0.01))
        requires(cdot != 0)
        length = any_real('spiral_length', *i, gt=0, typical=(0.1, 40))
        return Spiral(k0, k0 + cdot * length, cdot=cdot)
    au, bu, cu, du, av, bv, cv, dv = [any_real(n, *i, typical=(-3, 3)) for n in ('au', 'bu', 'cu', 'du', 'av', 'bv', 'cv', 'dv')]
    if kind == 4:
        return ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='arcLength', length=any_real('poly_length', *i, gt=0, typical=(0.1, 6)))
    if kind == 7:
        return ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='normalized', length=any_real('poly_length', *i, gt=0, typical=(0.1, 6)))
    return ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='normalized')


def start_pose():
    return any_real('x', typical=(-50, 50)), any_real('y', typical=(-50, 50)), any_real('h', typical=(-7, 7))


class AnyGeometry:
    """stand-in for a geometry of any class: a rigid motion and a length, the contract that C01 and C02 prove for the four classes"""

    def __init__(self, *i):
        self.name = any_int('shape', *i)
        self.dx = any_real('dx', *i)
        self.dy = any_real('dy', *i)
        self.dh = any_real('dh', *i)
        self.length = any_real('length', *i, gt=0)

    def get_end_data(self, x, y, h):
        return x + cos(h) * self.dx - sin(h) * self.dy, y + sin(h) * self.dx + cos(h) * self.dy, h + self.dh, self.length

    def get_start_data(self, x, y, h):
        # h is the heading against the direction of travel at the end
        g = h - self.dh
        return x + cos(g) * self.dx - sin(g) * self.dy, y + sin(g) * self.dx + cos(g) * self.dy, g, self.length

    def get_element(self):
        return ET.Element('shape', attrib={'name': str(self.name)})


def any_geometry(*i):
    if SYMBOLIC:
        return AnyGeometry(*i)
    return make_geometry(any_case('kind', KINDS, *i), *i)


def geometries(planview):
    """the emitted geometry elements"""
    e = planview.get_element()
    ensures('planView element', e.tag == 'planView')
    return list(e)


def pose(g):
    return float(g.get('x')), float(g.get('y')), float(g.get('hdg'))


def ensures_pose(label, p, q):
    ensures_same(label + ' x', p[0], q[0])
    ensures_same(label + ' y', p[1], q[1])
    ensures_dir(label + ' heading', p[2], q[2])


def ensures_chain(planview, n, geometry, follow=True):
    """the emitted geometries are geometry(0..n-1) in order, without gaps, with running s; returns the elements"""
    gs = geometries(planview)
    ensures_same('number of geometries', len(gs), n)
    requires(len(gs) == n)

    def one(i):
        e = gs[i]
        ensures('geometry element', e.tag == 'geometry')
        shapes = list(e)
        ensures_same('one shape in a geometry', len(shapes), 1)
        ensures_tree('geometry %s' % 'i', shapes[0], geometry(i).get_element())
        x, y, h = pose(e)
        x2, y2, h2, length = geometry(i).get_end_data(x, y, h)
        ensures_same('emitted length of a geometry', float(e.get('length')), length)
        if i + 1 < n:
            f = gs[i + 1]
            p = pose(f)
            ensures_same('next geometry starts at the end: x', p[0], x2)
            ensures_same('next geometry starts at the end: y', p[1], y2)
            if follow:
                ensures_dir('next geometry starts at the end: heading', p[2], h2)
            ensures_same('s increases by the length', float(f.get('s')), float(e.get('s')) + length)
    forall(n, one)
    if n > 0:
        ensures_same('s starts at 0', float(gs[0].get('s')), 0)
        last = gs[n - 1]
        ensures_same('total length', planview.get_total_length(), float(last.get('s')) + float(last.get('length')))
    else:
        ensures_same('total length of no geometry', planview.get_total_length(), 0)
    return gs
