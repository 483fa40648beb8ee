"""Discharging of obligations: z3, a ring/trigonometry normaliser on sympy, and numeric refutation."""
import math
import random
import time
from fractions import Fraction
import z3
import sympy as sp
from .core import *
from . import models


class Obl:
    __slots__ = ('label', 'pc', 'facts', 'goal', 'approx', 'kind', 'data', 'verdict', 'backend', 'time', 'model', 'note', 'fn', 'truncated')

    def __init__(self, label, pc, facts, goal, approx, kind='bool', data=None):
        self.label, self.pc, self.facts, self.goal, self.approx, self.kind, self.data = label, pc, facts, goal, approx, kind, data
        self.verdict = self.backend = self.model = self.note = None
        self.time = 0.0


# ---------------------------------------------------------------- term utilities
def walk(es):
    seen = set()
    st = list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            continue
        st.extend(x.children())


def has_quant(es):
    def go(x, seen):
        if x.get_id() in seen:
            return False
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        return any(go(c, seen) for c in x.children())
    s = set()
    return any(go(e, s) for e in es)


def lib_used(es):
    return {x.decl().name() for x in walk(es) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(('lib!', 'int!')) and x.num_args() > 0}


def instances(I, es, rounds=3):
    """defining equations of running sums, folds and injective inputs at the terms in use"""
    out = []
    done = set()
    cur = list(es)
    for _ in range(rounds):
        new = []
        apps = [x for x in walk(cur) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0]
        sums = {}
        for f, syms, ck, body in I.sums.values():
            sums[f.name()] = (syms, ck, body)
        byname = {}
        for x in apps:
            byname.setdefault(x.decl().name(), []).append(x)
        for nm, xs in byname.items():
            if nm in sums:
                syms, ck, body = sums[nm]
                for x in xs:
                    pars, t = x.children()[:-1], x.children()[-1]
                    m = list(zip(syms, pars))
                    ups = [t - 1]
                    for u in ups:
                        k = ('s', x.get_id())
                        if k in done:
                            continue
                        done.add(k)
                        d = z3.substitute(body, *(m + [(ck, z3.simplify(t - 1))]))
                        prev = x.decl()(*(pars + [z3.simplify(t - 1)]))
                        zero = z3.IntVal(0) if x.sort() == z3.IntSort() else z3.RealVal(0)
                        new.append(z3.If(t <= 0, x == zero, x == prev + d))
                        b = z3.simplify(body)
                        if _is01(b):
                            new.append(z3.And(x >= 0, z3.Or(t < 0, x <= t)))
                        if _nonneg(b):
                            new.append(x >= 0)
                    # monotonicity of counting sums between two bounds
                if _is01(z3.simplify(body)):
                    for i, x in enumerate(xs):
                        for y in xs[i + 1:]:
                            k = ('m', x.get_id(), y.get_id())
                            if k in done or not all(p.eq(q) for p, q in zip(x.children()[:-1], y.children()[:-1])):
                                continue
                            done.add(k)
                            a, b = x.children()[-1], y.children()[-1]
                            new.append(z3.Implies(z3.And(0 <= a, a <= b), z3.And(x <= y, y - x <= b - a)))
                            new.append(z3.Implies(z3.And(0 <= b, b <= a), z3.And(y <= x, x - y <= a - b)))
            elif nm in I.folds:
                F = I.folds[nm]
                for x in xs:
                    k = ('f', x.get_id())
                    if k in done:
                        continue
                    done.add(k)
                    ch = x.children()
                    ng = len(F['group'])
                    ini, pars, t = ch[:ng], ch[ng:-1], ch[-1]
                    tm = z3.simplify(t - 1)
                    prevs = [g(*(ini + pars + [tm])) for g in F['group']]
                    m = list(zip(F['pars'], pars)) + [(F['k'], tm)] + list(zip(F['cur'], prevs))
                    step = z3.substitute(F['steps'][F['index']], *m)
                    new.append(z3.If(t <= 0, x == ini[F['index']], x == step))
            elif nm in I.injective:
                for i, x in enumerate(xs):
                    for y in xs[i + 1:]:
                        k = ('i', x.get_id(), y.get_id())
                        if k in done:
                            continue
                        done.add(k)
                        new.append(z3.Implies(x == y, z3.And(*[p == q for p, q in zip(x.children(), y.children())])))
        if not new:
            break
        out.extend(new)
        cur = new
    return out


def _is01(b):
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        v = [as_const(c) for c in b.children()[1:]]
        return all(isinstance(x, (int, Fraction)) and 0 <= x <= 1 for x in v)
    c = as_const(b)
    return isinstance(c, (int, Fraction)) and 0 <= c <= 1


def _nonneg(b):
    return False


def lib_axioms(es):
    out = list(models.BASE_FACTS)
    for x in walk(es):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm == 'lib!sqrt':
                out.append(z3.Implies(x.arg(0) >= 0, z3.And(x >= 0, x * x == x.arg(0))))
            elif nm in ('lib!sin', 'lib!cos'):
                out.append(z3.And(x <= 1, x >= -1))
    return out


# ---------------------------------------------------------------- z3
def z3_prove(I, hyps, goal, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    es = list(hyps) + [z3.Not(goal)]
    inst = instances(I, es)
    for e in es + inst + lib_axioms(es + inst):
        s.add(e)
    r = s.check()
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'sat', s.model()
    return 'unknown', None


# ---------------------------------------------------------------- sympy translation
class NoRing(Exception):
    pass


class Tr:
    """z3 real terms without If to sympy"""
    def __init__(self, I, hyps):
        self.I, self.hyps = I, hyps
        self.map = {}
        self.back = {}
        self.n = 0
        self.signs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        for h in hyps:
            if not has_quant([h]):
                self.solver.add(h)
        for f in models.BASE_FACTS:
            self.solver.add(f)

    def ent(self, c):
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self.solver.check() == z3.unsat
        self.solver.pop()
        return r

    def atom(self, e):
        k = e.get_id()
        if k not in self.map:
            self.n += 1
            zero = 0
            if self.ent(e > zero):
                s = sp.Symbol('a%d' % self.n, positive=True)
                v = s
            elif self.ent(e < zero):
                s = sp.Symbol('a%d' % self.n, positive=True)
                v = -s
            elif self.ent(e != zero):
                s = sp.Symbol('a%d' % self.n, real=True, nonzero=True)
                v = s
            elif self.ent(e == zero):
                s, v = None, sp.Integer(0)
            else:
                s = sp.Symbol('a%d' % self.n, real=True)
                v = s
            self.map[k] = (v, e)
            if s is not None:
                self.back[s] = e if v == s else -e
        return self.map[k][0]

    def tr(self, e):
        c = as_const(e)
        if isinstance(c, int):
            return sp.Integer(c)
        if isinstance(c, Fraction):
            return sp.Rational(c.numerator, c.denominator)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return sp.Add(*[self.tr(x) for x in ch])
        if k == z3.Z3_OP_SUB:
            r = self.tr(ch[0])
            for x in ch[1:]:
                r = r - self.tr(x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.tr(ch[0])
        if k == z3.Z3_OP_MUL:
            return sp.Mul(*[self.tr(x) for x in ch])
        if k == z3.Z3_OP_DIV:
            d = norm(self.tr(ch[1]))
            if d == 0:
                raise NoRing('division by zero')
            return self.tr(ch[0]) / d
        if k == z3.Z3_OP_POWER:
            return self.tr(ch[0]) ** self.tr(ch[1])
        if k == z3.Z3_OP_TO_REAL:
            c = ch[0]
            if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                return self.tr(c)
            return self.atom(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm == 'lib!pi':
                return sp.pi
            if nm == 'lib!sin':
                return sp.sin(norm(self.tr(ch[0])), evaluate=False)
            if nm == 'lib!cos':
                return sp.cos(norm(self.tr(ch[0])), evaluate=False)
            if nm == 'lib!sqrt':
                return ssqrt(norm(self.tr(ch[0])))
            if nm == 'lib!fresnelS':
                return FrS(norm(self.tr(ch[0])))
            if nm == 'lib!fresnelC':
                return FrC(norm(self.tr(ch[0])))
            if nm == 'lib!atan2':
                return At2(norm(self.tr(ch[0])), norm(self.tr(ch[1])))
            if nm.startswith('int!'):
                return self.integral(e)
            return self.atom(e)
        if k == z3.Z3_OP_ITE:
            raise NoRing('conditional')
        if k in (z3.Z3_OP_SELECT,) or e.sort() == z3.IntSort():
            return self.atom(e)
        if z3.is_app(e) and e.decl().name() == 'num':
            return self.atom(e)
        raise NoRing('operator %s' % e.decl())

    def integral(self, e):
        """identify integrals whose integrands are equal as functions"""
        for key, (uf, pars, t, body) in self.I.integrals.items():
            if uf.name() == e.decl().name():
                ch = e.children()
                b = z3.substitute(body, *zip(pars, ch[:-2])) if pars else body
                lo, hi = norm(self.tr(ch[-2])), norm(self.tr(ch[-1]))
                conds = ifs_of(b)
                if conds:
                    b = drop_ifs(self, b)
                tt = sp.Symbol('tint', real=True)
                self.map[t.get_id()] = (tt, t)
                f = canon(self.tr(b))
                self.map.pop(t.get_id())
                return Integ(f, tt, lo, hi)
        raise NoRing('integral')


def drop_ifs(T, b):
    """integrand with absolute values: only |u|^2 = u^2 is used"""
    def go(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and x.arg(0).eq(x.arg(1)) and is_abs(x.arg(0)) is not None:
            u = go(is_abs(x.arg(0)))
            return u * u
        if x.num_args() == 0:
            return x
        return x.decl()(*[go(c) for c in x.children()])
    r = go(b)
    # flattened products
    if ifs_of(r):
        raise NoRing('conditional integrand')
    return r


def is_abs(x):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = x.children()
        s = as_const(z3.simplify(a + b))
        if isinstance(s, (int, Fraction)) and s == 0:
            if as_const(z3.simplify(c == (a >= 0))) is True or as_const(z3.simplify(c == (a > 0))) is True:
                return a
            if as_const(z3.simplify(c == (b >= 0))) is True or as_const(z3.simplify(c == (b > 0))) is True:
                return a
            if as_const(z3.simplify(c == (a <= 0))) is True:
                return a
    return None


class FrS(sp.Function):
    def fdiff(self, argindex=1):
        return sp.sin(sp.pi * self.args[0] ** 2 / 2)

    @classmethod
    def eval(cls, u):
        if u.could_extract_minus_sign():
            return -cls(-u)
        if u == 0:
            return sp.Integer(0)


class FrC(sp.Function):
    def fdiff(self, argindex=1):
        return sp.cos(sp.pi * self.args[0] ** 2 / 2)

    @classmethod
    def eval(cls, u):
        if u.could_extract_minus_sign():
            return -cls(-u)
        if u == 0:
            return sp.Integer(0)


class At2(sp.Function):
    pass


class Integ(sp.Function):
    """Integ(integrand, t, lo, hi)"""
    pass


def ssqrt(a):
    if a.is_Rational or a.is_Symbol:
        return sp.sqrt(a)
    n, d = sp.fraction(sp.together(a))
    return _sq(sp.factor(n)) / _sq(sp.factor(d))


def _sq(f):
    r = sp.Integer(1)
    rest = sp.Integer(1)
    for g in sp.Mul.make_args(f):
        if g.is_positive:
            r *= sp.sqrt(g)
        elif g.is_Pow and g.exp.is_Integer and g.exp % 2 == 0 and g.base.is_real:
            r *= sp.Abs(g.base) ** (g.exp // 2) if not g.base.is_positive else g.base ** (g.exp // 2)
        else:
            rest *= g
    return r * sp.sqrt(rest)


def norm(e):
    """rational normal form in the atoms"""
    if e.is_Atom:
        return e
    try:
        return sp.cancel(sp.together(e))
    except Exception:
        return sp.expand(e)


def ifs_of(e):
    out = []
    for x in walk([e]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            if not any(c.eq(o) for o in out):
                out.append(c)
    return out


# ---- trigonometric normal form
def trig_terms(arg):
    arg = sp.expand(norm(arg))
    return sp.Add.make_args(arg)


class TrigNF:
    def __init__(self, exprs):
        self.base = {}       # monomial -> (unit, S, C)
        mons = {}
        for ex in exprs:
            for f in self._trigs(ex):
                for t in trig_terms(f.args[0]):
                    c, m = t.as_coeff_Mul()
                    if not c.is_Rational:
                        m = t
                        c = sp.Integer(1)
                    mons.setdefault(m, set()).add(c)
        for i, (m, cs) in enumerate(mons.items()):
            if m == 1 or m == sp.pi or isinstance(m, At2):
                continue
            g = sp.Integer(0)
            for c in cs:
                g = sp.gcd(g, c) if g != 0 else abs(c)
            self.base[m] = (g, sp.Symbol('S%d_' % i, real=True), sp.Symbol('C%d_' % i, real=True))

    def _trigs(self, ex):
        return list(ex.atoms(sp.sin, sp.cos))

    def sc(self, arg):
        """(sin, cos) of arg as polynomials"""
        s, c = sp.Integer(0), sp.Integer(1)
        for t in trig_terms(arg):
            if t == 0:
                continue
            co, m = t.as_coeff_Mul()
            if not co.is_Rational:
                co, m = sp.Integer(1), t
            if m == sp.pi:
                if (2 * co).is_Integer:
                    ts, tc = sp.sin(t), sp.cos(t)
                else:
                    ts, tc = sp.sin(t), sp.cos(t)
            elif m == 1:
                ts, tc = sp.Symbol('sin_%s' % co), sp.Symbol('cos_%s' % co)
                raise NoRing('numeric angle')
            elif isinstance(m, At2):
                y, x = m.args
                r = ssqrt(norm(x ** 2 + y ** 2))
                s1, c1 = y / r, x / r
                if not co.is_Integer:
                    raise NoRing('fraction of an arctan')
                ts, tc = self.multiple(s1, c1, int(co))
            else:
                g, S, C = self.base[m]
                ts, tc = self.multiple(S, C, int(co / g))
            s, c = s * tc + c * ts, c * tc - s * ts
            s, c = sp.expand(s), sp.expand(c)
        return s, c

    def multiple(self, S, C, n):
        if n < 0:
            s, c = self.multiple(S, C, -n)
            return -s, c
        s, c = sp.Integer(0), sp.Integer(1)
        for _ in range(n):
            s, c = s * C + c * S, c * C - s * S
        return sp.expand(s), sp.expand(c)

    def apply(self, ex):
        rep = {}
        for f in self._trigs(ex):
            s, c = self.sc(f.args[0])
            rep[f] = s if isinstance(f, sp.sin) else c
        return ex.xreplace(rep)

    def reduce(self, ex):
        ex = sp.expand(ex)
        for m, (g, S, C) in self.base.items():
            if not ex.has(S):
                continue
            p = sp.Poly(ex, S)
            out = 0
            for (k,), co in p.terms():
                out += co * S ** (k % 2) * (1 - C ** 2) ** (k // 2)
            ex = sp.expand(out)
        return ex


def canon(e):
    """canonical form for syntactic comparison of integrands"""
    e = e.replace(lambda x: x.is_Pow and x.exp == sp.Rational(1, 2), lambda x: sp.sqrt(sp.factor(sp.expand(x.base))))
    return e


def is_zero(e):
    """e == 0 identically, as a function of its symbols (up to the trigonometric relations)"""
    if e == 0:
        return True
    for _ in range(3):
        T = TrigNF([e])
        e = T.apply(e)
        n, d = sp.fraction(sp.together(e))
        n = T.reduce(n)
        if n == 0:
            return True
        n2 = sp.expand(sp.powsimp(n))
        if n2 == 0:
            return True
        if not n2.atoms(sp.sin, sp.cos):
            break
        e = n2
    n = sp.radsimp(n2) if n2.count_ops() < 400 else n2
    n = T.reduce(sp.expand(n))
    return n == 0


# ---- case splitting
def resolve_ifs(I, hyps, es, k, depth=0):
    """call k(hyps, es) for every feasible resolution of the conditionals in es"""
    T = Tr(I, hyps)
    for _ in range(60):
        cs = []
        for e in es:
            cs.extend(ifs_of(e))
        cs = [c for c in cs if not ifs_of(c)]
        if not cs:
            return k(hyps, es)
        c = cs[0]
        c2 = canon_cond(T, c)
        if c2 is True or (c2 is not False and T.ent(c2)):
            val = True
        elif c2 is False or T.ent(z3.Not(c2)):
            val = False
        else:
            if depth > 8:
                raise NoRing('too many cases')
            rs = []
            for v in (True, False):
                h2 = hyps + [c2 if v else z3.Not(c2)]
                s = z3.Solver()
                s.set('timeout', 2000)
                for h in h2:
                    if not has_quant([h]):
                        s.add(h)
                if s.check() == z3.unsat:
                    continue
                e2 = [z3.simplify(z3.substitute(e, (c, z3.BoolVal(v)))) for e in es]
                rs.append(resolve_ifs(I, h2, e2, k, depth + 1))
            return all(rs)
        es = [subst_if(e, c, val) for e in es]
    raise NoRing('conditionals')


def subst_if(e, c, val):
    return z3.simplify(z3.substitute(e, (c, z3.BoolVal(val))), som=False)


def canon_cond(T, c):
    """normalise a comparison of rational terms"""
    try:
        if z3.is_app(c) and c.num_args() == 2 and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(c.arg(0)):
            if lib_used([c]) or ifs_of(c):
                return c
            d = norm(T.tr(c.arg(0)) - T.tr(c.arg(1)))
            k = c.decl().kind()
            sg = 1 if d.is_positive else -1 if d.is_negative else 0 if d == 0 else None
            if sg is not None:
                return {z3.Z3_OP_LE: sg <= 0, z3.Z3_OP_GE: sg >= 0, z3.Z3_OP_LT: sg < 0, z3.Z3_OP_GT: sg > 0, z3.Z3_OP_EQ: sg == 0}[k]
            t = to_z3_expr(T, d)
            return {z3.Z3_OP_LE: t <= 0, z3.Z3_OP_GE: t >= 0, z3.Z3_OP_LT: t < 0, z3.Z3_OP_GT: t > 0, z3.Z3_OP_EQ: t == 0}[k]
        if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch = [canon_cond(T, x) for x in c.children()]
            if c.decl().kind() == z3.Z3_OP_NOT:
                return neg(ch[0])
            return conj(ch) if c.decl().kind() == z3.Z3_OP_AND else disj(ch)
    except NoRing:
        pass
    return c


def to_z3_expr(T, e):
    if e.is_Integer:
        return z3.RealVal(int(e))
    if e.is_Rational:
        return z3.RealVal(Fraction(int(e.p), int(e.q)))
    if e is sp.pi:
        return models.PI
    if e.is_Symbol:
        b = T.back[e]
        return to_real(b)
    if e.is_Add:
        r = to_z3_expr(T, e.args[0])
        for a in e.args[1:]:
            r = r + to_z3_expr(T, a)
        return r
    if e.is_Mul:
        r = None
        for a in e.args:
            x = to_z3_expr(T, a)
            r = x if r is None else r * x
        return r
    if e.is_Pow and e.exp.is_Integer:
        b = to_z3_expr(T, e.base)
        n = abs(int(e.exp))
        r = b
        for _ in range(n - 1):
            r = r * b
        return r if e.exp > 0 else 1 / r
    if e.is_Pow and e.exp == sp.Rational(1, 2):
        return models.SQRT(to_z3_expr(T, e.base))
    raise NoRing('back translation')


def atan_cases(I, hyps, es, k):
    """arctan2(0,0) = 0; elsewhere the usual relations hold"""
    ats = []
    for x in walk(es):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == 'lib!atan2':
            if not any(x.eq(a) for a in ats):
                ats.append(x)
    for a in ats:
        T = Tr(I, hyps)
        y, x = canon_cond(T, a.arg(0) == 0), canon_cond(T, a.arg(1) == 0)
        zero = conj([y, x])
        if zero is False:
            continue
        if zero is True or T.ent(zero):
            es = [z3.substitute(e, (a, z3.RealVal(0))) for e in es]
            return atan_cases(I, hyps, es, k)
        if not T.ent(z3.Not(zero)):
            mark = z3.Not(zero)
            if any(h.eq(mark) for h in hyps):
                continue
            r1 = atan_cases(I, hyps + [zero], [z3.substitute(e, (a, z3.RealVal(0))) for e in es], k)
            return r1 and atan_cases(I, hyps + [mark], es, k)
    return k(hyps, es)


def ring_eq(I, hyps, a, b):
    """a == b under hyps"""
    d = z3.simplify(to_real(a) - to_real(b), som=False)

    def done(hy, es):
        def fin(hy, es):
            T = Tr(I, hy)
            e = T.tr(es[0])
            subs = eq_substs(T, hy)
            if subs:
                e = resub(e, subs)
            return is_zero(e)
        return atan_cases(I, hy, es, fin)
    return resolve_ifs(I, hyps, [d], done)


def ineq_prove(I, hyps, g):
    """an inequality between reals, after deciding its conditionals and cancelling, from the hypotheses over its own terms"""
    k = g.decl().kind()
    a, b = to_real(g.arg(0)), to_real(g.arg(1))
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        a, b = b, a
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    hyps = list(hyps)
    hyps += [h for h in instances(I, hyps + [g]) if not has_quant([h])]
    T0 = Tr(I, hyps)
    for h in list(hyps):
        h = z3.simplify(h)
        if z3.is_or(h):
            # a premise that holds
            ch = h.children()
            for i, c in enumerate(ch):
                if any(z3.is_real(x) for x in walk([c])) and T0.ent(z3.Not(z3.Or(*(ch[:i] + ch[i + 1:])))):
                    hyps.append(c)
                    break
        elif z3.is_implies(h) and T0.ent(h.arg(0)):
            hyps.append(h.arg(1))
        elif z3.is_and(h):
            hyps.extend(h.children())
    d = z3.simplify(a - b, som=False)
    known = {}

    def settled(T, h):
        """the hypothesis with the conditionals decided that are decided by the others"""
        for _ in range(20):
            cs = [c for c in ifs_of(h) if not ifs_of(c) and known.get(c.get_id()) is not None or c.get_id() not in known]
            if not cs:
                return h
            for c in cs:
                if c.get_id() not in known:
                    known[c.get_id()] = True if T.ent(c) else False if T.ent(z3.Not(c)) else None
                    keep.append(c)
                v = known[c.get_id()]
                if v is not None:
                    h = z3.simplify(z3.substitute(h, (c, z3.BoolVal(v))))
                    break
            else:
                return h
        return h
    keep = []

    def fin(hy, es):
        T = Tr(I, hy)
        known.clear()
        hy = hy + [settled(T, h) for h in hy if not has_quant([h]) and 0 < len(ifs_of(h)) < 6]
        e = sp.factor(sp.cancel(T.tr(es[0])))
        if e.is_nonnegative and not strict or e.is_positive:
            return True
        t = to_z3_expr(T, e)
        goal = t > 0 if strict else t >= 0
        own = terms_of(t)
        s = z3.Solver()
        s.set('timeout', 3000)
        for h in hy:
            if not has_quant([h]) and terms_of(h) <= own:
                s.add(h)
        for f in models.BASE_FACTS:
            s.add(f)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat
    return resolve_ifs(I, hyps, [d], fin)


def ground(I, hyps, g, limit=6000):
    """the hypotheses with quantifiers over indices replaced by their instances at the indices in use (weaker, so sound)"""
    cs = {}
    for x in walk(list(hyps) + [g]):
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x) and '!L' not in x.decl().name():
            cs[x.decl().name()] = x
    cand = [z3.IntVal(0), z3.IntVal(1)]
    for x in cs.values():
        cand += [x, x - 1, x + 1]
    if len(cand) > 40:
        return None
    out, todo = [], list(hyps)
    while todo:
        if len(out) + len(todo) > limit:
            return None
        h = todo.pop()
        if z3.is_quantifier(h):
            if h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort():
                for c in cand:
                    todo.append(z3.simplify(z3.substitute_vars(h.body(), c)))
            continue
        if z3.is_and(h):
            todo.extend(h.children())
            continue
        if z3.is_or(h) and has_quant([h]):
            qs = [c for c in h.children() if has_quant([c])]
            rest = [c for c in h.children() if not has_quant([c])]
            if len(qs) == 1 and z3.is_quantifier(qs[0]) and qs[0].is_forall() and qs[0].num_vars() == 1 and qs[0].var_sort(0) == z3.IntSort():
                for c in cand:
                    todo.append(z3.simplify(z3.Or(*(rest + [z3.substitute_vars(qs[0].body(), c)]))))
            continue
        if has_quant([h]):
            continue
        out.append(h)
    return out


def terms_of(e):
    """the uninterpreted terms of an expression"""
    out, todo = set(), [e]
    while todo:
        x = todo.pop()
        if not z3.is_app(x):
            continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.decl().name() != 'lib!pi':
                out.add(x.get_id())
        else:
            todo.extend(x.children())
    return out


def resub(e, subs):
    e = e.subs(subs)
    # square roots and Fresnel integrals again in normal form
    e = e.replace(lambda x: x.is_Pow and x.exp in (sp.Rational(1, 2), -sp.Rational(1, 2)), lambda x: ssqrt(norm(x.base)) ** (1 if x.exp > 0 else -1))
    e = e.replace(lambda x: isinstance(x, (FrS, FrC)), lambda x: x.func(norm(x.args[0])))
    return e


def eq_substs(T, hyps):
    """hypotheses symbol == expression as substitutions; differences of known sign as positive symbols"""
    out = []

    def numer(d):
        n, q = sp.fraction(sp.together(d))
        return n if q.is_nonzero or q.is_positive or q.is_negative else d
    for h in hyps:
        if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(h.arg(0)):
            try:
                l, r = T.tr(h.arg(0)), T.tr(h.arg(1))
            except NoRing:
                continue
            d = numer(norm(l - r).subs(out) if out else norm(l - r))
            for s in sorted(d.free_symbols, key=str):
                if d.is_polynomial(s) and sp.degree(d, s) == 1:
                    co = d.coeff(s, 1)
                    if co.is_Rational or co.is_nonzero or co.is_positive or co.is_negative:
                        v = sp.expand(-(d - co * s) / co)
                        if v.has(s):
                            continue
                        out = [(x, y.subs(s, v)) for x, y in out]
                        out.append((s, v))
                        break
    atoms = []

    def cmp(h):
        if not z3.is_app(h):
            return
        k = h.decl().kind()
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            for c in h.children():
                cmp(c)
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and not lib_used([h]) and not ifs_of(h):
            atoms.append(h)
    for h in hyps:
        cmp(h)
    seen = []
    for h in atoms:
        try:
            d = norm(T.tr(h.arg(0)) - T.tr(h.arg(1)))
        except NoRing:
            continue
        n = numer(d.subs(out) if out else d)
        n = sp.expand(n)
        if n.is_positive or n.is_negative or n.is_zero or len(n.free_symbols) < 2 or any(n == x or n == -x for x in seen):
            continue
        seen.append(n)
        e = to_real(h.arg(0)) - to_real(h.arg(1))
        if T.ent(e > 0):
            sg = 1
        elif T.ent(e < 0):
            sg = -1
        else:
            continue
        # the sign of the numerator
        q = sp.together(d.subs(out) if out else d) / n
        q = sp.cancel(q)
        if q.is_negative:
            sg = -sg
        elif not q.is_positive:
            continue
        for s in sorted(n.free_symbols, key=str):
            if n.is_polynomial(s) and sp.degree(n, s) == 1 and not s.is_positive:
                co = n.coeff(s, 1)
                if co.is_Rational:
                    p = sp.Symbol('p%d' % len(seen), positive=True)
                    v = sp.expand((sg * p - (n - co * s)) / co)
                    out = [(x, y.subs(s, v)) for x, y in out]
                    out.append((s, v))
                    break
    return out


def curve_prove(I, hyps, data):
    """(x2,y2,h2) is reached from (x,y,h) along the curve with curvature kappa over arc length s:
    the expressions agree at s=0 and have the derivatives cos, sin of the heading, and the curvature"""
    s, start, end, heading = data['s'], data['start'], data['end'], data['heading']
    es = [to_real(v) for v in list(start) + list(end) + [heading]]
    es = [z3.simplify(e, som=False) for e in es]

    def done(hy, es):
        T = Tr(I, hy)
        x, y, x2, y2, th = [T.tr(e) for e in es]
        subs = eq_substs(T, hy)
        S = T.tr(s)
        subs = [(a, b) for a, b in subs if a != S]
        if subs:
            x, y, x2, y2, th = [resub(v, subs) for v in (x, y, x2, y2, th)]
        for v, v0, dv in ((x2, x, sp.cos(th)), (y2, y, sp.sin(th))):
            if v0.has(S):
                raise NoRing('start depends on the length')
            at0 = v.subs(S, 0)
            if at0.has(sp.zoo, sp.nan, sp.oo):
                at0 = sp.limit(v, S, 0, '+')
            if not is_zero(at0 - v0):
                return False
            if not is_zero(sp.diff(v, S) - dv):
                return False
        return True
    return resolve_ifs(I, hyps, es, done)


# ---------------------------------------------------------------- numeric evaluation
class NoEval(Exception):
    pass


class NumEval:
    """evaluate z3 terms in floating point; inputs come from env (dict: key -> value), generated on demand"""
    def __init__(self, I, rng, model=None):
        self.I, self.rng, self.model = I, rng, model
        self.env = {}
        self.cache = {}

    def inp(self, name, args, sort):
        key = (name,) + tuple(args)
        if key not in self.env:
            v = None
            if self.model is not None:
                v = self.model(name, args, sort)
            if v is None:
                if sort == z3.IntSort():
                    v = self.rng.choice([0, 1, 2, 3, 5])
                elif sort == z3.BoolSort():
                    v = self.rng.random() < 0.5
                elif sort == z3.RealSort():
                    v = self.rng.choice([self.rng.uniform(-3, 3), self.rng.uniform(0.1, 3), self.rng.uniform(-100, 100), 1.0])
                else:
                    raise NoEval('text')
            self.env[key] = v
        return self.env[key]

    def ev(self, e, loc=()):
        k = e.decl().kind() if z3.is_app(e) else None
        if k is None:
            raise NoEval('quantifier')
        c = as_const(e)
        if isinstance(c, bool):
            return c
        if isinstance(c, (int, Fraction)):
            return float(c) if e.sort() == z3.RealSort() else int(c)
        ch = e.children()
        ev = self.ev
        if k == z3.Z3_OP_ITE:
            return ev(ch[1]) if ev(ch[0]) else ev(ch[2])
        if k == z3.Z3_OP_AND:
            return all(ev(x) for x in ch)
        if k == z3.Z3_OP_OR:
            return any(ev(x) for x in ch)
        if k == z3.Z3_OP_NOT:
            return not ev(ch[0])
        if k == z3.Z3_OP_IMPLIES:
            return (not ev(ch[0])) or ev(ch[1])
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm == 'lib!pi':
                return math.pi
            a = [ev(x) for x in ch]
            if nm == 'lib!sin':
                return math.sin(a[0])
            if nm == 'lib!cos':
                return math.cos(a[0])
            if nm == 'lib!tan':
                return math.tan(a[0])
            if nm == 'lib!sqrt':
                if a[0] < 0:
                    raise NoEval('sqrt')
                return math.sqrt(a[0])
            if nm == 'lib!exp':
                return math.exp(a[0])
            if nm == 'lib!atan2':
                return math.atan2(a[0], a[1])
            if nm in ('lib!fresnelS', 'lib!fresnelC'):
                from scipy.special import fresnel
                s, c = fresnel(a[0])
                return float(s if nm.endswith('S') else c)
            if nm.startswith('sum!'):
                for f, syms, ck, body in self.I.sums.values():
                    if f.name() == nm:
                        tot = 0
                        for i in range(int(a[-1])):
                            m = [(p, _const(v, p.sort())) for p, v in zip(syms, a[:-1])] + [(ck, z3.IntVal(i))]
                            tot += ev(z3.substitute(body, *m))
                        return tot
            if nm in self.I.folds:
                F = self.I.folds[nm]
                ng = len(F['group'])
                cur = list(a[:ng])
                for i in range(int(a[-1])):
                    m = [(p, _const(v, p.sort())) for p, v in zip(F['pars'], a[ng:-1])] + [(F['k'], z3.IntVal(i))] + [(p, _const(v, p.sort())) for p, v in zip(F['cur'], cur)]
                    cur = [ev(z3.substitute(s, *m)) for s in F['steps']]
                return cur[F['index']]
            if nm.startswith('int!'):
                for uf, pars, t, body in self.I.integrals.values():
                    if uf.name() == nm:
                        from scipy.integrate import quad
                        b = z3.substitute(body, *[(p, _const(v, p.sort())) for p, v in zip(pars, a[:-2])]) if pars else body
                        return quad(lambda u: ev(z3.substitute(b, (t, _const(u, z3.RealSort())))), a[-2], a[-1])[0]
            return self.inp(nm, a, e.sort())
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            a, b = ev(ch[0]), ev(ch[1])
            if isinstance(a, float) or isinstance(b, float):
                return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))
            return a == b
        if k == z3.Z3_OP_DISTINCT:
            v = [ev(x) for x in ch]
            return len(set(v)) == len(v)
        a = [ev(x) for x in ch]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r -= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r *= x
            return r
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise NoEval('division')
            return a[0] / a[1]
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1]
        if k == z3.Z3_OP_MOD:
            return a[0] % a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        raise NoEval(str(e.decl()))


def _const(v, sort):
    if sort == z3.IntSort():
        return z3.IntVal(int(v))
    if sort == z3.BoolSort():
        return z3.BoolVal(bool(v))
    return z3.RealVal(Fraction(v))


def model_env(model):
    def f(name, args, sort):
        for d in model.decls():
            if d.name() == name:
                try:
                    if d.arity() == 0:
                        v = model[d]
                    else:
                        v = model.eval(d(*[_const(a, d.domain(i)) for i, a in enumerate(args)]), model_completion=True)
                    return num_of(v)
                except Exception:
                    return None
        return None
    return f


def num_of(v):
    c = as_const(v)
    if isinstance(c, bool):
        return c
    if isinstance(c, int):
        return c
    if isinstance(c, Fraction):
        return float(c)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


def numeric_refute(I, hyps, goal, rng, tries=200, model=None, evalgoal=None):
    """environment in which all hypotheses hold and the goal fails, or None; also whether any sample satisfied hyps"""
    hit = False
    hyps = [h for h in hyps if not has_quant([h])]
    for i in range(tries):
        E = NumEval(I, rng, model if model is not None and i < 3 else None)
        try:
            if not all(E.ev(h) for h in hyps):
                continue
            hit = True
            ok = evalgoal(E) if evalgoal else E.ev(goal)
            if not ok:
                return E.env, True
        except (NoEval, OverflowError, ValueError, ZeroDivisionError, KeyError, z3.Z3Exception):
            continue
    return None, hit


# ---------------------------------------------------------------- top level
def split_goal(g):
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_AND:
        out = []
        for c in g.children():
            out.extend(split_goal(c))
        return out
    return [g]


def discharge(I, ob, timeout=8.0, rng=None):
    t0 = time.time()
    rng = rng or random.Random(1)
    try:
        _discharge(I, ob, timeout, rng)
    except (NoRing, NoEval) as e:
        ob.verdict, ob.note = ob.verdict or 'unknown', str(e)
    except z3.Z3Exception as e:
        ob.verdict, ob.note = 'unknown', 'z3: %s' % e
    ob.time = time.time() - t0
    return ob


def _discharge(I, ob, timeout, rng):
    hyps = [to_z3(c) for c in ob.pc] + list(ob.facts)
    if ob.kind == 'curve':
        try:
            if curve_prove(I, hyps, ob.data):
                ob.verdict, ob.backend = 'proved', 'ring'
                return
        except NoRing as e:
            ob.note = str(e)
        ob.verdict, ob.backend = 'unknown', 'ring'
        return
    if ob.kind == 'some':
        models = []
        for g in ob.data['alts']:
            sub = type(ob)(ob.label, ob.pc, ob.facts, g, ob.approx, 'bool', None)
            _discharge(I, sub, timeout, rng)
            if sub.verdict == 'proved':
                ob.verdict, ob.backend = 'proved', sub.backend
                return
            models.append((sub.verdict, sub.backend, getattr(sub, 'model', None)))
        ob.verdict, ob.backend = 'unknown', models[-1][1]
        ob.note = 'none of %d alternatives proved' % len(models)
        return
    g = ob.goal
    if isinstance(g, bool):
        if g:
            ob.verdict, ob.backend = 'proved', 'simplifier'
            return
        g = z3.BoolVal(False)
    g2 = z3.simplify(g)
    if z3.is_true(g2):
        ob.verdict, ob.backend = 'proved', 'simplifier'
        return
    backs = set()
    for part in split_goal(g):
        p2 = z3.simplify(part)
        if z3.is_true(p2):
            backs.add('simplifier')
            continue
        v = prove_part(I, hyps, part, timeout, rng, ob)
        if v[0] != 'proved':
            ob.verdict, ob.backend, ob.model = v[0], v[1], v[2] if len(v) > 2 else None
            return
        backs.add(v[1])
    ob.verdict, ob.backend = 'proved', '+'.join(sorted(backs))


def prove_part(I, hyps, g, timeout, rng, ob):
    libs = lib_used([g])
    iseq = z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(g.arg(0))
    if libs and iseq:
        env, hit = numeric_refute(I, hyps, g, rng, 60)
        if env is not None:
            return ('refuted', 'numeric', env)
        try:
            if ring_eq(I, hyps, g.arg(0), g.arg(1)):
                return ('proved', 'ring')
        except NoRing as e:
            ob.note = str(e)
    if iseq and sum_apps(I, g):
        # unfold running sums that meet the sum of one term less, then the ring again
        u = unfold_sums(I, hyps, g)
        if u is not None:
            try:
                if ring_eq(I, hyps, u.arg(0), u.arg(1)):
                    return ('proved', 'ring')
            except NoRing as e:
                ob.note = str(e)
    cmp = z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_real(g.arg(0)) and g.num_args() == 2
    r, m = z3_prove(I, hyps, g, min(timeout, 1.5) if cmp else timeout)
    if r == 'proved':
        return ('proved', 'z3')
    if cmp and r == 'unknown':
        try:
            if ineq_prove(I, hyps, g):
                return ('proved', 'ring+z3')
        except (NoRing, z3.Z3Exception) as e:
            ob.note = str(e)
        r, m = z3_prove(I, hyps, g, timeout)
        if r == 'proved':
            return ('proved', 'z3')
    if r == 'unknown' and has_quant(hyps):
        hg = ground(I, hyps, g)
        if hg is not None:
            r2, _ = z3_prove(I, [h for h in hg if not I.nonlinear(h)] if not I.nonlinear(g) else hg, g, timeout)
            if r2 == 'proved':
                return ('proved', 'z3')
    if libs and iseq:
        # expand definitions of folds, then the ring again
        h2 = unfold_hyps(I, hyps, g)
        if h2 is not None:
            try:
                if ring_eq(I, hyps, h2.arg(0), h2.arg(1)):
                    return ('proved', 'ring')
            except NoRing as e:
                ob.note = str(e)
    if r == 'sat':
        if libs or lib_used(hyps):
            env, hit = numeric_refute(I, hyps, g, rng, 150, model_env(m))
            if env is not None:
                return ('refuted', 'numeric', env)
            return ('unknown', 'z3', m)
        return ('refuted', 'z3', m)
    env, hit = numeric_refute(I, hyps, g, rng, 100)
    if env is not None:
        return ('refuted', 'numeric', env)
    return ('unknown', 'z3')


def sum_apps(I, g):
    sums = {f.name() for f, _, _, _ in I.sums.values()}
    return [x for x in walk([g]) if z3.is_app(x) and x.num_args() > 0 and x.decl().name() in sums]


def unfold_sums(I, hyps, g):
    """Sum(t) = Sum(t-1) + term(t-1) for t >= 1 where the goal also mentions Sum(t-1); Sum(t) = 0 for t <= 0"""
    T = Tr(I, hyps)
    defs = {f.name(): (syms, ck, body) for f, syms, ck, body in I.sums.values()}
    changed = False
    for _ in range(8):
        apps = sum_apps(I, g)
        # innermost first: terms of a sum may contain other sums
        apps.sort(key=lambda x: len(x.sexpr()))
        hit = False
        for x in apps:
            syms, ck, body = defs[x.decl().name()]
            ch = x.children()
            t = z3.simplify(ch[-1])
            zero = z3.IntVal(0) if x.sort() == z3.IntSort() else z3.RealVal(0)
            if T.ent(t <= 0):
                g = z3.substitute(g, (x, zero))
                hit = True
                break
            tm = z3.simplify(t - 1)
            mates = [y for y in apps if y.decl().eq(x.decl()) and all(p.eq(q) for p, q in zip(y.children()[:-1], ch[:-1])) and z3.is_int_value(z3.simplify(y.children()[-1] - tm)) and z3.simplify(y.children()[-1] - tm).as_long() == 0]
            if not (mates or z3.is_int_value(t)) or not T.ent(t >= 1):
                continue
            d = z3.substitute(body, *(list(zip(syms, ch[:-1])) + [(ck, tm)]))
            prev = mates[0] if mates else x.decl()(*(ch[:-1] + [tm]))
            g = z3.substitute(g, (x, prev + d))
            hit = True
            break
        if not hit:
            break
        changed = True
    if not changed:
        return None
    # equal indices written differently
    sub = []
    for x in walk([g]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and any(z3.is_int(c) for c in x.children()):
            y = x.decl()(*[z3.simplify(c) if z3.is_int(c) else c for c in x.children()])
            if not y.eq(x):
                sub.append((x, y))
    return z3.substitute(g, *sub) if sub else g


def unfold_hyps(I, hyps, g):
    """replace fold applications at index t by their step at t-1 where t >= 1 is known"""
    changed = False
    T = Tr(I, hyps)
    for x in list(walk([g])):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in I.folds:
            F = I.folds[x.decl().name()]
            ch = x.children()
            t = ch[-1]
            off = z3.simplify(t - 1)
            if not T.ent(t >= 1):
                continue
            # only unfold the largest index
            others = [y for y in walk([g]) if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.decl().name() in I.folds and T.ent(y.children()[-1] > t)]
            if others:
                continue
            ng = len(F['group'])
            ini, pars = ch[:ng], ch[ng:-1]
            prevs = [f(*(ini + pars + [off])) for f in F['group']]
            m = list(zip(F['pars'], pars)) + [(F['k'], off)] + list(zip(F['cur'], prevs))
            step = z3.substitute(F['steps'][F['index']], *m)
            g = z3.substitute(g, (x, step))
            changed = True
    return g if changed else None
