"""C02: backward evaluation inverts forward evaluation; evaluation does not depend on the history of the object."""
from spec import *
from numpy import pi
from contracts.geoms import make_geometry, start_pose


def inverse(kind):
    g = make_geometry(kind)
    x, y, h = start_pose()
    x2, y2, h2, l2 = g.get_end_data(x, y, h)
    x1, y1, h1, l1 = g.get_start_data(x2, y2, h2 + pi)
    ensures_same('start x', x1, x)
    ensures_same('start y', y1, y)
    ensures_dir('start heading', h1, h + pi)
    ensures_same('same length in both directions', l1, l2)


def contract_inverse_line():
    inverse(0)


def contract_inverse_arc_length():
    inverse(1)


def contract_inverse_arc_angle():
    inverse(2)


def contract_inverse_spiral():
    inverse(3)


def contract_inverse_parampoly3_arclength():
    inverse(4)


def contract_inverse_parampoly3_normalized():
    inverse(5)


def contract_inverse_spiral_cdot():
    inverse(6)


def contract_inverse_parampoly3_normalized_length():
    inverse(7)


def history(kind):
    """any number of earlier calls, in any order, leaves the answers unchanged"""
    g = make_geometry(kind)
    fresh = make_geometry(kind)
    fresh2 = make_geometry(kind)
    x, y, h = start_pose()
    for i in range(any_size('calls', hi=2)):
        px, py, ph = any_real('px', i), any_real('py', i), any_real('ph', i)
        if any_bool('forward', i):
            g.get_end_data(px, py, ph)
        else:
            g.get_start_data(px, py, ph)
    if any_bool('ask_end'):
        r = g.get_end_data(x, y, h)
        q = fresh.get_end_data(x, y, h)
    else:
        r = g.get_start_data(x, y, h)
        q = fresh2.get_start_data(x, y, h)
    ensures_same('x after other calls', r[0], q[0])
    ensures_same('y after other calls', r[1], q[1])
    ensures_dir('heading after other calls', r[2], q[2])
    ensures_same('length after other calls', r[3], q[3])


def contract_history_line():
    history(0)


def contract_history_arc_length():
    history(1)


def contract_history_arc_angle():
    history(2)


def contract_history_spiral():
    history(3)


def contract_history_parampoly3_arclength():
    history(4)


def contract_history_parampoly3_normalized():
    history(5)
