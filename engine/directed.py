"""Inputs that take the path of an obligation the back ends left open: they are replayed on the real code."""
import math
import random
import time
import z3
from .core import *
from . import prove

LOW, HIGH = 1e-6, 1e4


def literals(pc):
    out = []
    for c in pc:
        c = to_z3(c)
        if prove.has_quant([c]):
            continue
        out.extend(prove.split_goal(c))
    return out


def inputs_of(cs):
    ks = {}
    for x in prove.walk(cs):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('in!'):
            if all(z3.is_int_value(c) for c in x.children()):
                ks[(x.decl().name(),) + tuple(c.as_long() for c in x.children())] = x
    return ks


def holds(I, cs, env, rng, ignore):
    E = prove.NumEval(I, rng)
    E.env = dict(env)
    for i, c in enumerate(cs):
        if i in ignore:
            continue
        try:
            if not E.ev(c):
                return None
        except prove.NoEval:
            ignore.add(i)
        except (OverflowError, ValueError, ZeroDivisionError, KeyError, z3.Z3Exception, TypeError):
            return None
    return E.env


def model_point(I, cs, extra, seed, timeout=1500):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('random_seed', seed)
    s.add(*(list(cs) + prove.lib_axioms(cs)))
    for e in extra:
        s.push()
        s.add(e)
        if s.check() != z3.sat:
            s.pop()
    return s.model() if s.check() == z3.sat else None


def move(v, rng, others):
    c = rng.random()
    if c < 0.3 and v:
        w = v * 10 ** rng.uniform(-2, 2)
    elif c < 0.55:
        w = rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 3.5)
    elif c < 0.75:
        w = rng.uniform(-20, 20)
    elif c < 0.9 or not others:
        w = float(rng.randint(-3, 8))
    else:
        w = rng.choice(others) * rng.choice([1, -1, 2, 0.5])
    if w and not LOW <= abs(w) <= HIGH:
        return v
    return w


def points(I, ob, want=16, limit=6.0):
    """-> list of {key: value} for the contract inputs"""
    rng = random.Random(7)
    end = time.time() + limit
    cs = literals(ob.pc)
    goal = [ob.goal] if z3.is_expr(ob.goal) else []
    keys = inputs_of(cs + goal)
    out = []
    bases = []
    for i in range(3):
        extra = []
        for k, x in keys.items():
            if z3.is_arith(x) and rng.random() < 0.7:
                extra.append(x == (rng.choice([1, 2, 3, -1, 7]) if z3.is_int(x) else z3.RealVal(str(round(rng.choice([rng.uniform(-4, 4), 10 ** rng.uniform(-2, 2)]), 3)))))
        try:
            m = model_point(I, cs, extra[:12] if i else [], i)
        except z3.Z3Exception:
            m = None
        if m is not None:
            bases.append(m)
        if time.time() > end - limit / 2:
            break
    ignore = set()
    starts = []
    for m in bases:
        env = {}
        f = prove.model_env(m)
        for k, x in keys.items():
            if x.sort() != z3.IntSort() and x.sort() != z3.RealSort() and x.sort() != z3.BoolSort():
                continue
            v = f(k[0], k[1:], x.sort())
            if v is not None:
                env[k] = v
        starts.append((m, env))
    for i in range(40):
        if time.time() > end - limit / 2:
            break
        starts.append((None, {}))
    good = []
    for m, env in starts:
        e = holds(I, cs, env, rng, ignore)
        if m is not None and e is None:
            # the model treats the library functions loosely; still worth a try as it is
            good.append((m, env, False))
        elif e is not None:
            good.append((m, e, True))
    for m, env, ok in good[:6]:
        out.append((m, dict(env)))
    walkable = [g for g in good if g[2]]
    while walkable and len(out) < want and time.time() < end:
        m, env, _ = rng.choice(walkable)
        cur = dict(env)
        ks = [k for k in cur if k[0].startswith('in!')]
        if not ks:
            break
        for _ in range(12 + 3 * len(ks)):
            k = rng.choice(ks)
            v = cur[k]
            nxt = dict(cur)
            if isinstance(v, bool):
                nxt[k] = not v
            elif isinstance(v, int):
                nxt[k] = rng.choice([v + 1, v - 1, rng.randint(-3, 6), 0, 1])
            else:
                nxt[k] = move(v, rng, [x for x in cur.values() if isinstance(x, float)])
            e = holds(I, cs, nxt, rng, ignore)
            if e is not None:
                cur = e
            if time.time() > end:
                break
        out.append((m, cur))
    return out
