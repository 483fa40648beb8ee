"""Trusted models of the builtins and libraries that the code under verification uses.

Every model states what the executor assumes about the real function; the list is part of the trusted base
reported in the evidence."""
from fractions import Fraction
import z3
from .core import *

R = z3.RealSort()
PI = z3.Real('lib!pi')
SIN = z3.Function('lib!sin', R, R)
COS = z3.Function('lib!cos', R, R)
SQRT = z3.Function('lib!sqrt', R, R)
ATAN2 = z3.Function('lib!atan2', R, R, R)
FRS = z3.Function('lib!fresnelS', R, R)
FRC = z3.Function('lib!fresnelC', R, R)
EXP = z3.Function('lib!exp', R, R)
TAN = z3.Function('lib!tan', R, R)
UPPER = z3.Function('lib!upper', Text, Text)

BASE_FACTS = [PI > z3.RealVal('3.141592'), PI < z3.RealVal('3.141593')]

TRUSTED = ['CPython/PyPy core semantics of the interpreted Python subset (numbers as mathematical reals)',
           'str() of a number abstracted to its value', 'numpy sin/cos/sqrt/abs/sign/maximum/arctan2/exp(i t), scipy fresnel and quad as the exact real functions',
           'xml.etree Element/SubElement/append/attrib as ordered trees; xml.dom.minidom parse and pretty print as the identity up to white space',
           'copy.deepcopy, itertools.combinations, enum, datetime.now as documented']


def num(I, v):
    v = I.force(v)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, z3.BoolRef):
        v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if not is_num(v):
        I.raise_('TypeError', 'number expected')
    return v


def nat(f):
    """decorate a native of positional values"""
    return f


LIB = {}


def lib(name):
    def d(f):
        LIB[name] = f
        return f
    return d


def _trig(uf, at0):
    def f(I, a, kw):
        v = num(I, a[0])
        if not is_sym(v) and v == 0:
            return at0
        return uf(to_real(v))
    return f


LIB['sin'] = _trig(SIN, Fraction(0))
LIB['cos'] = _trig(COS, Fraction(1))
LIB['tan'] = lambda I, a, kw: TAN(to_real(num(I, a[0])))


@lib('sqrt')
def _sqrt(I, a, kw):
    v = num(I, a[0])
    if not is_sym(v):
        from math import isqrt
        q = Fraction(v)
        if q < 0:
            raise Unsupported('square root of a negative number')
        n, d = isqrt(q.numerator), isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator:
            return Fraction(n, d)
        return SQRT(z3.RealVal(q))
    if I.check([to_real(v) < 0]) != 'unsat' and not _nonneg_form(v):
        if I.decide(to_real(v) < 0):
            raise Unsupported('square root of a negative number')
    return SQRT(to_real(v))


def _nonneg_form(e):
    """sum of squares / products of equal factors / absolute values"""
    e = to_z3(e)
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return as_const(e) >= 0
    if e.eq(PI):
        return True
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(_nonneg_form(c) for c in e.children())
    if k == z3.Z3_OP_MUL:
        ch = list(e.children())
        while ch:
            c = ch.pop()
            for d in ch:
                if d.eq(c):
                    ch.remove(d)
                    break
            else:
                if not _nonneg_form(c):
                    return False
        return True
    if k == z3.Z3_OP_DIV:
        return all(_nonneg_form(c) for c in e.children())
    if k == z3.Z3_OP_POWER:
        ex = as_const(e.arg(1))
        return isinstance(ex, (int, Fraction)) and ex % 2 == 0
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        s = as_const(z3.simplify(a + b))
        if isinstance(s, (int, Fraction)) and s == 0:
            # abs-like
            for x in (a, b):
                if as_const(z3.simplify(c == (x >= 0))) is True or as_const(z3.simplify(c == (x > 0))) is True:
                    return True
        return _nonneg_form(a) and _nonneg_form(b)
    return False


@lib('abs')
def _abs(I, a, kw):
    v = I.force(a[0])
    if isinstance(v, Cplx):
        return SQRT(to_real(I.binop_num('+', I.binop_num('*', v.re, v.re), I.binop_num('*', v.im, v.im))))
    v = num(I, v)
    if not is_sym(v):
        return abs(v)
    return z3.If(v >= 0, v, -v)


@lib('sign')
def _sign(I, a, kw):
    v = num(I, a[0])
    if not is_sym(v):
        return (v > 0) - (v < 0)
    return z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0)))


def _minmax(I, args, gt):
    r = num(I, args[0])
    for x in args[1:]:
        x = num(I, x)
        if not is_sym(r) and not is_sym(x):
            r = (max if gt else min)(r, x)
        else:
            za, zb = to_z3(r), to_z3(x)
            if za.sort() != zb.sort():
                za, zb = to_real(za), to_real(zb)
            r = z3.If(za >= zb if gt else za <= zb, za, zb)
    return r


LIB['maximum'] = lambda I, a, kw: _minmax(I, a, True)
LIB['minimum'] = lambda I, a, kw: _minmax(I, a, False)


@lib('arctan2')
def _atan2(I, a, kw):
    y, x = num(I, a[0]), num(I, a[1])
    if not is_sym(y) and not is_sym(x) and y == 0 and x > 0:
        return Fraction(0)
    return ATAN2(to_real(y), to_real(x))


@lib('exp')
def _exp(I, a, kw):
    v = I.force(a[0])
    if isinstance(v, Cplx):
        if is_sym(v.re) or v.re != 0:
            m = EXP(to_real(v.re))
            return Cplx(I.binop_num('*', m, LIB['cos'](I, [v.im], {})), I.binop_num('*', m, LIB['sin'](I, [v.im], {})))
        return Cplx(LIB['cos'](I, [v.im], {}), LIB['sin'](I, [v.im], {}))
    return EXP(to_real(num(I, v)))


@lib('fresnel')
def _fresnel(I, a, kw):
    v = num(I, a[0])
    if not is_sym(v) and v == 0:
        return (Fraction(0), Fraction(0))
    return (FRS(to_real(v)), FRC(to_real(v)))


def integral(I, f, lo, hi):
    """the integral of the real function f over [lo, hi], as a canonical uninterpreted function of the parameters"""
    t = z3.Real('t!int')
    outs = I.explore(lambda: num(I, I.call(f, [t], {})))
    vals = []
    for o in outs:
        if o.kind not in ('normal', 'return'):
            raise Unsupported('integrand that raises')
        vals.append((o.guard, o.val))
    body = to_real(merge(vals))
    syms = syms_of(body)
    syms.pop('t!int', None)
    apps = sorted(_atoms(body, t), key=lambda e: e.sexpr())
    pars = [z3.Const('ip!%d' % i, e.sort()) for i, e in enumerate(apps)]
    key = z3.simplify(z3.substitute(body, *zip(apps, pars)) if apps else body, som=True, som_blowup=1000)
    key = sort_ac(key)
    ks = key.sexpr()
    if ks not in I.integrals:
        uf = z3.Function('int!%d' % len(I.integrals), *([p.sort() for p in pars] + [R, R, R]))
        I.integrals[ks] = (uf, pars, t, key)
    uf = I.integrals[ks][0]
    return uf(*(apps + [to_real(lo), to_real(hi)]))


def sort_ac(e):
    """sums and products with their arguments in a fixed order"""
    if not z3.is_app(e) or e.num_args() == 0:
        return e
    ch = [sort_ac(c) for c in e.children()]
    if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        ch.sort(key=lambda c: c.sexpr())
        return z3.Sum(ch) if e.decl().kind() == z3.Z3_OP_ADD else z3.Product(ch)
    return e.decl()(*ch)


def _atoms(e, t):
    """maximal parameter atoms: constants and UF applications that do not contain t (library functions excluded)"""
    acc = {}
    seen = set()

    def has_t(x):
        return 't!int' in syms_of(x)

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(t) and not x.decl().name().startswith('lib!') and not has_t(x):
            acc[x.get_id()] = x
            return
        for c in x.children():
            go(c)
    go(e)
    return list(acc.values())


@lib('quad')
def _quad(I, a, kw):
    v = integral(I, a[0], num(I, a[1]), num(I, a[2]))
    return (v, z3.Real('lib!quaderr'))


# ---------------------------------------------------------------- builtins
def b_len(I, a, kw):
    v = I.force(a[0])
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == 'list':
            return I.seq_len(I.read(v, 'segs'))
        if c.kind == 'set':
            return I.seq_len(I.segs_of(v))
        if c.kind == 'dict':
            return I.dict_len(v)
        if c.kind == 'elem':
            return I.seq_len(I.read(v, 'kids'))
        if c.kind == 'obj':
            f = I.find_attr(c.cls, '__len__')
            if f is not None:
                return I.call(Bound(v, f), [], {})
    if isinstance(v, ClassVal) and v.members is not None:
        return len(v.members)
    if isinstance(v, RangeVal):
        return I.seq_len(I.range_segs(v))
    if v is None or is_num(v) or isinstance(v, bool):
        I.raise_('TypeError', 'len')
    raise Unsupported('len of %r' % (v,))


def b_range(I, a, kw):
    a = [I.force(x) for x in a]
    for x in a:
        if isinstance(x, Fraction) or (isinstance(x, z3.ArithRef) and x.sort() == z3.RealSort()) or not is_num(x):
            if isinstance(x, bool):
                continue
            I.raise_('TypeError', 'range')
    a = [int(x) if isinstance(x, bool) else x for x in a]
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    if len(a) == 2:
        return RangeVal(a[0], a[1], 1)
    return RangeVal(a[0], a[1], a[2])


def b_list(I, a, kw):
    if not a:
        return I.new_list([])
    return I.new_list_segs(I.segs_of(a[0]))


def b_tuple(I, a, kw):
    if not a:
        return ()
    v = I.force(a[0])
    if isinstance(v, tuple):
        return v
    return tuple(I.concrete_items(v))


def b_dict(I, a, kw):
    d = I.new_dict()
    if a:
        src = I.force(a[0])
        if isinstance(src, Ref) and I.cell(src).kind == 'dict':
            I.write(d, 'ents', I.read(src, 'ents'))
        else:
            for p in I.concrete_items(src):
                k, v = I.concrete_items(p)
                I.setitem(d, k, v)
    for k, v in kw.items():
        I.setitem(d, k, v)
    return d


def b_set(I, a, kw):
    return I.alloc('set', None, {'segs': I.segs_of(a[0]) if a else ()})


def b_str(I, a, kw):
    return I.to_text(a[0]) if a else ''


def b_int(I, a, kw):
    v = I.force(a[0]) if a else 0
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.raise_('ValueError', 'int')
    if isinstance(v, z3.ArithRef):
        if v.sort() == z3.IntSort():
            return v
        f = z3.ToInt(v)
        return z3.If(z3.Or(v >= 0, z3.ToReal(f) == v), f, f + 1)
    if is_text(v):
        t = to_z3(v)
        if z3.is_app(t) and t.decl().name() == 'tnum':
            return b_int(I, [as_const(t.arg(0))], {})
        c = z3.And(Text.is_tnum(t), z3.IsInt(Text.num(t)))
        if I.decide(c):
            return z3.ToInt(Text.num(t))
        I.raise_('ValueError', 'int')
    I.raise_('TypeError', 'int')


def b_float(I, a, kw):
    v = I.force(a[0]) if a else 0
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, str):
        try:
            return Fraction(v)
        except ValueError:
            I.raise_('ValueError', 'float')
    if is_num(v):
        return to_real(v)
    if is_text(v):
        t = to_z3(v)
        if z3.is_app(t) and t.decl().name() == 'tnum':
            return as_const(t.arg(0))
        if I.decide(Text.is_tnum(t)):
            return Text.num(t)
        I.raise_('ValueError', 'float')
    I.raise_('TypeError', 'float')


def b_bool(I, a, kw):
    return I.truth_expr(a[0]) if a else False


def b_sum(I, a, kw):
    segs = I.segs_of(a[0])
    acc = I.force(a[1]) if len(a) > 1 else 0

    def total(segs):
        t = 0
        for s in segs:
            if isinstance(s, Item):
                t = I.binop_num('+', t, num(I, s.v))
            elif isinstance(s, FM):
                d = total(s.segs)
                t = I.binop_num('+', t, I.running_sum(d, s.k, s.n))
            elif isinstance(s, Gd):
                t = I.binop_num('+', t, merge([(c, total(x)) for c, x in s.alts]))
            else:
                raise partial(s, 'sum of a list')
        return t
    fl = I.flat(segs)
    if all(isinstance(s, Item) for s in fl):
        import ast
        for s in fl:
            acc = I.binop(ast.Add(), acc, s.v)
        return acc
    return I.binop_num('+', num(I, acc), total(segs))


def b_anyall(is_any):
    def f(I, a, kw):
        def go(segs):
            res = []
            for s in segs:
                if isinstance(s, Item):
                    c = I.truth_expr(s.v)
                elif isinstance(s, Gd):
                    c = disj([conj([g, go(x)]) for g, x in s.alts])
                elif isinstance(s, FM):
                    inner = go(s.segs)
                    if inner is is_any:
                        c = I.num_cmp(s.n, 0, lambda x, y: x > y)
                        c = c if is_any else neg(c)
                    elif inner is (not is_any):
                        continue
                    elif is_any:
                        c = I.bounded_exists(s.k, s.n, inner)
                    else:
                        c = neg(I.bounded_exists(s.k, s.n, neg(inner)))
                else:
                    raise partial(s, 'any/all of a list')
                res.append(c)
            return disj(res) if is_any else conj(res)
        return go(I.segs_of(a[0]))
    return f


def b_enumerate(I, a, kw):
    segs = I.flat(I.segs_of(a[0]))
    start = I.force(a[1]) if len(a) > 1 else I.force(kw.get('start', 0))
    out = []
    n = start

    def walk(segs, base):
        out = []
        for s in segs:
            if isinstance(s, Item):
                out.append(Item((base, s.v)))
                base = I.binop_num('+', base, 1)
            elif isinstance(s, FM):
                c = I.seq_len_generic(s.segs)
                if c is None:
                    d = to_z3(I.seq_len(s.segs))
                    b2 = I.binop_num('+', base, I.running_sum(d, s.k, s.k))
                    sub, _ = walk(s.segs, b2)
                    out.append(FM(s.n, s.k, tuple(sub)))
                    base = I.binop_num('+', base, I.running_sum(d, s.k, s.n))
                else:
                    b2 = I.binop_num('+', base, I.binop_num('*', s.k, c))
                    sub, _ = walk(s.segs, b2)
                    out.append(FM(s.n, s.k, tuple(sub)))
                    base = I.binop_num('+', base, I.binop_num('*', s.n, c))
            elif isinstance(s, Gd):
                alts = []
                ends = []
                for g, x in s.alts:
                    sub, e = walk(x, base)
                    alts.append((g, tuple(sub)))
                    ends.append((g, e))
                out.append(Gd(alts))
                base = merge(ends)
            else:
                raise partial(s, 'enumerate of a list')
        return out, base
    return I.new_list_segs(walk(segs, n)[0])


def b_zip(I, a, kw):
    seqs = [list(I.flat(I.segs_of(x))) for x in a]
    out = []
    while all(seqs):
        heads = [s[0] for s in seqs]
        if all(isinstance(h, Item) for h in heads):
            out.append(Item(tuple(h.v for h in heads)))
            for s in seqs:
                s.pop(0)
            continue
        fms = [h for h in heads if isinstance(h, FM)]
        if len(fms) == len(heads):
            its = [I.fm_item(h) for h in heads]
            n0 = fms[0].n
            if all(I.entails(I.num_cmp(n0, h.n, lambda x, y: x == y)) for h in fms[1:]):
                k = fms[0].k
                out.append(FM(n0, k, (Item(tuple(subst(v, [(h.k, k)]) for v, h in zip(its, heads))),)))
                for s in seqs:
                    s.pop(0)
                continue
            # different symbolic lengths: only when these are the last pieces
            if all(len(s) == 1 for s in seqs):
                n = _minmax(I, [h.n for h in heads], False)
                k = fms[0].k
                out.append(FM(n, k, (Item(tuple(subst(v, [(h.k, k)]) for v, h in zip(its, heads))),)))
                break
        # one FM against items: peel one element off the FMs
        for j, h in enumerate(heads):
            if isinstance(h, FM):
                it = I.fm_item(h)
                if I.decide(I.num_cmp(h.n, 1, lambda x, y: x >= y)):
                    seqs[j][0:1] = [Item(subst(it, [(h.k, z3.IntVal(0))])),
                                    FM(I.num_simplify(to_z3(h.n) - 1), h.k, subst(h.segs, [(h.k, h.k + 1)]))]
                else:
                    seqs[j].pop(0)
                break
        else:
            raise Unsupported('zip of irregular sequences')
    return I.new_list_segs(tuple(out))


def b_reversed(I, a, kw):
    return I.new_list_segs(I.rev_segs(I.segs_of(a[0])))


def b_sorted(I, a, kw):
    items = I.concrete_items(a[0])
    key = kw.get('key')
    ks = [I.call(key, [x], {}) if key is not None else x for x in items]
    ks = [I.force(k) for k in ks]
    if all(isinstance(k, (int, Fraction)) for k in ks) or all(isinstance(k, str) for k in ks):
        o = sorted(range(len(items)), key=lambda i: ks[i])
        if I.truth(kw.get('reverse', False)):
            o = sorted(range(len(items)), key=lambda i: ks[i], reverse=True)
        return I.new_list([items[i] for i in o])
    raise Unsupported('sort of symbolic values')


def b_isinstance(I, a, kw):
    v, t = I.force(a[0]), I.force(a[1])
    ts = t if isinstance(t, tuple) else (t,)
    B = I.builtins
    for t in ts:
        if isinstance(t, ClassVal):
            if isinstance(v, SEnum) and t in v.cls.mro:
                return True
            if isinstance(v, Ref) and I.cell(v).kind == 'obj' and t in I.cell(v).cls.mro:
                return True
        elif t is B['list']:
            if isinstance(v, Ref) and I.cell(v).kind == 'list':
                return True
        elif t is B['dict']:
            if isinstance(v, Ref) and I.cell(v).kind == 'dict':
                return True
        elif t is B['set']:
            if isinstance(v, Ref) and I.cell(v).kind == 'set':
                return True
        elif t is B['tuple']:
            if isinstance(v, tuple):
                return True
        elif t is B['str']:
            if is_text(v):
                return True
        elif t is B['bool']:
            if is_bool(v):
                return True
        elif t is B['int']:
            if isinstance(v, int) or is_bool(v) or (isinstance(v, z3.ArithRef) and v.sort() == z3.IntSort()):
                return True
        elif t is B['float']:
            if isinstance(v, Fraction) or (isinstance(v, z3.ArithRef) and v.sort() == z3.RealSort()):
                return True
        else:
            raise Unsupported('isinstance of %r' % (t,))
    return False


def b_type(I, a, kw):
    v = I.force(a[0])
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == 'obj':
            return c.cls
        if c.kind in ('list', 'dict', 'set'):
            return I.builtins[c.kind]
    if is_text(v):
        return I.builtins['str']
    if isinstance(v, SEnum):
        return v.cls
    if isinstance(v, tuple):
        return I.builtins['tuple']
    if is_bool(v):
        return I.builtins['bool']
    if is_num(v):
        return I.builtins['int' if isinstance(v, int) or (is_sym(v) and v.sort() == z3.IntSort()) else 'float']
    raise Unsupported('type()')


def b_getattr(I, a, kw):
    name = I.force(a[1])
    if not isinstance(name, str):
        raise Unsupported('getattr with a symbolic name')
    return I.getattr(a[0], name, a[2]) if len(a) > 2 else I.getattr(a[0], name)


def b_hasattr(I, a, kw):
    m = object()
    v = I.getattr(a[0], I.force(a[1]), m)
    return v is not m


def b_setattr(I, a, kw):
    I.setattr(a[0], I.force(a[1]), a[2])


def b_map(I, a, kw):
    out = I.new_list([])
    I.loop(a[1], lambda v: I.list_append(out, I.call(a[0], [v], {})))
    return out


def b_filter(I, a, kw):
    out = I.new_list([])

    def body(v):
        if I.truth(I.call(a[0], [v], {})):
            I.list_append(out, v)
    I.loop(a[1], body)
    return out


def b_minmax(gt):
    def f(I, a, kw):
        if kw:
            raise Unsupported('min/max keywords')
        if len(a) == 1:
            items = I.concrete_items(a[0])
            if not items:
                I.raise_('ValueError', 'empty')
            return _minmax(I, items, gt)
        return _minmax(I, a, gt)
    return f


def b_round(I, a, kw):
    v = num(I, a[0])
    if not is_sym(v) and len(a) == 1:
        return round(v)
    I.state.approx = True
    return I.fresh('round', R if len(a) > 1 else z3.IntSort())


def b_next(I, a, kw):
    segs = I.flat(I.segs_of(a[0]))
    if segs and isinstance(segs[0], Item):
        return segs[0].v
    if not segs:
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration')
    return _first(I, segs, a)


def _first(I, segs, a):
    """first element of a generator expression over a symbolic sequence"""
    if len(segs) == 1 and isinstance(segs[0], FM) and len(segs[0].segs) == 1:
        fm = segs[0]
        res = []

        class Found(Exception):
            pass

        def body(v):
            res[:] = [v]
            raise __import__('engine.interp', fromlist=['BreakEx']).BreakEx()
        if I.loop(I.new_list_segs(tuple(segs)), body) == 'break':
            return res[0]
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration')
    raise Unsupported('next')


def b_print(I, a, kw):
    for x in a:
        I.force(x)
    return None


def b_open(I, a, kw):
    names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
    d = dict(zip(names, a))
    d.update(kw)
    fn = I.force(d['file'])
    mode = I.force(d.get('mode', 'r'))
    enc = I.force(d.get('encoding', None))
    if not isinstance(mode, str):
        raise Unsupported('open mode')
    return I.alloc('file', None, {'name': fn, 'mode': mode, 'enc': enc, 'parts': ()})


EXC = ['BaseException', 'Exception', 'ArithmeticError', 'ZeroDivisionError', 'LookupError', 'KeyError', 'IndexError', 'ValueError',
       'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'RuntimeError', 'NotImplementedError', 'StopIteration',
       'AssertionError', 'OSError', 'FileNotFoundError', 'Warning', 'UserWarning', 'DeprecationWarning', 'OverflowError', 'RecursionError', 'ImportError', 'UnicodeError']
EXC_BASE = {'Exception': 'BaseException', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
            'UnboundLocalError': 'NameError', 'FileNotFoundError': 'OSError', 'Warning': 'Exception', 'UserWarning': 'Warning', 'DeprecationWarning': 'Warning',
            'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'UnicodeError': 'ValueError'}


def make_class(I, name, bases):
    oid = I.new_oid()
    c = ClassVal(name, bases, oid)
    I.state.heap[oid] = Cell('class', c, (), {})
    c.ref = Ref(oid)
    I.classes[name] = c
    return c


def exc_new(I, cls, args, kw):
    ref = I.alloc('obj', cls, {'args': tuple(args)})
    init = None
    for k in cls.mro:
        if k.native is exc_new and k.name in EXC:
            break
        d = I.cell(k.ref).data
        if '__init__' in d:
            init = d['__init__']
            break
    if init is not None:
        I.call(Bound(ref, init), args, kw)
    return ref


def install(I):
    I.cls_none = {}
    I.integrals = {}
    obj = make_class(I, 'object', [])
    B = {}
    for n in EXC:
        base = I.classes[EXC_BASE.get(n, 'Exception' if n not in ('BaseException',) else 'object')] if n != 'BaseException' else obj
        c = make_class(I, n, [base])
        c.native = exc_new
        B[n] = c
    I.classes['BaseException'].native_attrs = {}
    en = make_class(I, 'Enum', [obj])
    en.members = None
    B['object'] = obj
    for n, f in dict(len=b_len, range=b_range, list=b_list, tuple=b_tuple, dict=b_dict, set=b_set, frozenset=b_set, str=b_str, int=b_int, float=b_float,
                     bool=b_bool, sum=b_sum, any=b_anyall(True), all=b_anyall(False), enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, sorted=b_sorted,
                     isinstance=b_isinstance, type=b_type, getattr=b_getattr, hasattr=b_hasattr, setattr=b_setattr, map=b_map, filter=b_filter,
                     max=b_minmax(True), min=b_minmax(False), abs=LIB['abs'], round=b_round, next=b_next, print=b_print, open=b_open,
                     iter=b_list, repr=lambda I, a, kw: I.to_text(a[0], True), pow=lambda I, a, kw: I.power(I.force(a[0]), I.force(a[1]))).items():
        B[n] = Native(n, f)
    for n in ('staticmethod', 'classmethod', 'property'):
        B[n] = Native(n, None)
    B['callable'] = Native('callable', lambda I, a, kw: isinstance(I.force(a[0]), (FuncVal, Bound, Native, ClassVal)))
    B['issubclass'] = Native('issubclass', lambda I, a, kw: I.force(a[1]) in I.force(a[0]).mro)
    B['__name__'] = '__main__'
    I.builtins = B


# ---------------------------------------------------------------- library modules
def fn(name):
    return Native(name, lambda I, a, kw: LIB[name](I, a, kw))


def et_element(I, a, kw):
    tag = a[0]
    d = I.new_dict()
    src = a[1] if len(a) > 1 else kw.pop('attrib', None)
    if src is not None:
        src = I.force(src)
        I.write(d, 'ents', I.read(src, 'ents'))
    for k, v in kw.items():
        if k != 'attrib':
            I.setitem(d, k, v)
    return I.alloc('elem', None, {'tag': tag, 'attrib': d, 'kids': (), 'text': None, 'tail': None})


def et_sub(I, a, kw):
    e = et_element(I, a[1:], dict(kw))
    p = I.force(a[0])
    I.write(p, 'kids', I.read(p, 'kids') + (Item(e),))
    return e


def et_tostring(I, a, kw):
    enc = I.force(a[1]) if len(a) > 1 else I.force(kw.get('encoding', None))
    if enc is None:
        enc = 'us-ascii'
    if not isinstance(enc, str):
        raise Unsupported('encoding')
    if enc == 'unicode':
        return DocText(I.force(a[0]), None)
    return Bytes(I.force(a[0]), enc.lower())


def mini_parse(I, a, kw):
    b = I.force(a[0])
    if isinstance(b, Bytes):
        return I.alloc('dom', None, {'el': b.el, 'removed': b.removed})
    if isinstance(b, DocText):
        return I.alloc('dom', None, {'el': b.el, 'removed': ()})
    raise Unsupported('parseString')


def deepcopy(I, a, kw):
    memo = {}
    loops = tuple(I.state.loops)

    def cp(v):
        if isinstance(v, Ref):
            c = I.cell(v)
            if c.kind == 'class':
                return v
            if c.kind not in ('obj', 'list', 'dict', 'set', 'elem'):
                raise Unsupported('deep copy of a %s' % c.kind)
            if c.kind == 'obj' and (I.find_attr(c.cls, '__deepcopy__') or I.find_attr(c.cls, '__copy__')):
                raise Unsupported('__deepcopy__')
            key = (v.oid, tuple(str(i) for i in v.idx))
            if key in memo:
                return memo[key]
            if any(k[0] == v.oid for k in memo):
                raise Unsupported('deep copy of several members of a family')
            bound = [i for i in v.idx if isinstance(i, z3.ExprRef) and any(i.eq(b) for b in binders)]
            if bound:
                if not all(any(i.eq(b) for b in binders) for i in v.idx if isinstance(i, z3.ExprRef)):
                    raise Unsupported('deep copy of a family member')
                oid = I.new_oid()
                vars_ = loops + tuple(bound)
                r = Ref(oid, vars_)
                memo[key] = r
                data = {k: cp(subst(x, I._map(c, v.idx))) if not isinstance(x, FamW) else _no() for k, x in c.data.items()}
                I.state.heap[oid] = Cell(c.kind, c.cls, vars_, data)
                return r
            r = I.alloc(c.kind, c.cls, {})
            memo[key] = r
            for k in c.data:
                I.write(r, k, cp(I.read(v, k)))
            return r
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        if isinstance(v, Item):
            return Item(cp(v.v))
        if isinstance(v, FM):
            binders.append(v.k)
            try:
                return FM(v.n, v.k, cp(v.segs))
            finally:
                binders.pop()
        if isinstance(v, Gd):
            return Gd([(c, cp(s)) for c, s in v.alts])
        if isinstance(v, GV):
            return GV([(c, cp(s)) for c, s in v.alts])
        if isinstance(v, DE):
            return DE(v.k, cp(v.v))
        if isinstance(v, DFM):
            binders.append(v.k)
            try:
                return DFM(v.n, v.k, v.key, cp(v.val))
            finally:
                binders.pop()
        if isinstance(v, Op):
            raise partial(v, 'copy of a list')
        return v

    def _no():
        raise Unsupported('deep copy of a modified family')
    binders = []
    return cp(I.force(a[0]))


def shallow(I, a, kw):
    v = I.force(a[0])
    if isinstance(v, Ref):
        c = I.cell(v)
        r = I.alloc(c.kind, c.cls, {})
        for k in c.data:
            I.write(r, k, I.read(v, k))
        return r
    return v


def combinations(I, a, kw):
    segs = I.flat(I.segs_of(a[0]))
    r = I.force(a[1])
    if all(isinstance(s, Item) for s in segs) and isinstance(r, int):
        import itertools
        return I.new_list([tuple(c) for c in itertools.combinations([s.v for s in segs], r)])
    if r == 2 and len(segs) == 1 and isinstance(segs[0], FM):
        fm = segs[0]
        it = I.fm_item(fm)
        i = z3.Int('k!c%d' % I.new_oid())
        j = z3.Int('k!c%d' % I.new_oid())
        a_, b_ = subst(it, [(fm.k, i)]), subst(it, [(fm.k, i + 1 + j)])
        return I.new_list_segs((FM(fm.n, i, (FM(I.num_simplify(to_z3(fm.n) - 1 - i), j, (Item((a_, b_)),)),)),))
    raise Unsupported('combinations of a symbolic sequence')


def product_(I, a, kw):
    import itertools
    return I.new_list([tuple(c) for c in itertools.product(*[I.concrete_items(x) for x in a])])


def np_module(I):
    e = {n: fn(n) for n in ('sin', 'cos', 'tan', 'sqrt', 'abs', 'sign', 'maximum', 'minimum', 'arctan2', 'exp')}
    e['absolute'] = e['fabs'] = e['abs']
    e['pi'] = PI
    e['hypot'] = Native('hypot', lambda I, a, kw: LIB['sqrt'](I, [I.binop_num('+', I.power(num(I, a[0]), 2), I.power(num(I, a[1]), 2))], {}))
    e['power'] = Native('power', lambda I, a, kw: I.power(num(I, a[0]), num(I, a[1])))
    e['square'] = Native('square', lambda I, a, kw: I.power(num(I, a[0]), 2))
    e['float64'] = I.builtins['float']
    e['deg2rad'] = e['radians'] = Native('deg2rad', lambda I, a, kw: I.binop_num('/', I.binop_num('*', num(I, a[0]), PI), 180))
    e['negative'] = Native('negative', lambda I, a, kw: -num(I, a[0]))
    e['sum'] = I.builtins['sum']
    return ModuleVal('numpy', e)


def library(I, name):
    if name == 'numpy':
        return np_module(I)
    if name == 'math' or name == 'cmath':
        e = dict(np_module(I).env)
        e['atan2'] = e['arctan2']
        e['fabs'] = e['abs']
        e['pow'] = e['power']
        if name == 'cmath':
            e['rect'] = Native('rect', lambda I, a, kw: Cplx(I.binop_num('*', num(I, a[0]), LIB['cos'](I, [a[1]], {})), I.binop_num('*', num(I, a[0]), LIB['sin'](I, [a[1]], {}))))
        e['copysign'] = Native('copysign', lambda I, a, kw: z3.If(to_real(num(I, a[1])) >= 0, to_real(LIB['abs'](I, [a[0]], {})), -to_real(LIB['abs'](I, [a[0]], {}))))
        return ModuleVal(name, e)
    if name == 'scipy.integrate':
        return ModuleVal(name, {'quad': fn('quad')})
    if name == 'scipy.special':
        return ModuleVal(name, {'fresnel': fn('fresnel')})
    if name == 'scipy':
        return ModuleVal(name, {'integrate': library(I, 'scipy.integrate'), 'special': library(I, 'scipy.special')})
    if name == 'xml.etree.ElementTree':
        return ModuleVal(name, {'Element': Native('Element', et_element), 'SubElement': Native('SubElement', et_sub),
                                'tostring': Native('tostring', et_tostring),
                                'ElementTree': Native('ElementTree', lambda I, a, kw: I.alloc('etree', None, {'el': I.force(a[0])}))})
    if name == 'xml.etree':
        return ModuleVal(name, {'ElementTree': I.load_module('xml.etree.ElementTree')})
    if name == 'xml.dom.minidom':
        return ModuleVal(name, {'parseString': Native('parseString', mini_parse)})
    if name == 'xml.dom':
        return ModuleVal(name, {'minidom': I.load_module('xml.dom.minidom')})
    if name == 'xml':
        return ModuleVal(name, {'dom': I.load_module('xml.dom'), 'etree': I.load_module('xml.etree')})
    if name == 'os':
        join = Native('join', lambda I, a, kw: I.concat([x for p in a for x in ('/', I.force(p))][1:]))
        return ModuleVal(name, {'path': ModuleVal('os.path', {'join': join}), 'name': 'posix'})
    if name == 'os.path':
        return library(I, 'os').env['path']
    if name == 'datetime':
        now = Native('now', lambda I, a, kw: I.fresh('now', R))
        return ModuleVal(name, {'datetime': ModuleVal('datetime.datetime', {'now': now, 'utcnow': now, 'today': now}),
                                'date': ModuleVal('datetime.date', {'today': now})})
    if name == 'warnings':
        return ModuleVal(name, {'warn': I.builtins['print']})
    if name == 'logging':
        nop = I.builtins['print']
        return ModuleVal(name, {k: nop for k in ('debug', 'info', 'warning', 'error')})
    if name == 'itertools':
        return ModuleVal(name, {'combinations': Native('combinations', combinations), 'product': Native('product', product_),
                                'chain': Native('chain', lambda I, a, kw: I.new_list_segs(sum((I.segs_of(x) for x in a), ())))})
    if name == 'copy':
        return ModuleVal(name, {'deepcopy': Native('deepcopy', deepcopy), 'copy': Native('copy', shallow)})
    if name == 'enum':
        return ModuleVal(name, {'Enum': I.classes['Enum'], 'auto': Native('auto', lambda I, a, kw: Opaque('auto'))})
    if name == 'sys':
        return ModuleVal(name, {})
    if name == 'typing':
        return ModuleVal(name, {})
    if name == 'functools':
        return ModuleVal(name, {})
    return None


# ---------------------------------------------------------------- methods of builtin values
def _m(name, f, o):
    return (Bound(o, Native(name, f)),)


def l_append(I, a, kw):
    I.list_append(a[0], a[1])


def l_extend(I, a, kw):
    I.write(a[0], 'segs', I.read(a[0], 'segs') + tuple(I.segs_of(a[1])))


def l_reverse(I, a, kw):
    I.write(a[0], 'segs', I.rev_segs(I.read(a[0], 'segs')))


def l_insert(I, a, kw):
    i = I.force(a[1])
    segs = I.read(a[0], 'segs')
    if isinstance(i, int) and i == 0:
        I.write(a[0], 'segs', (Item(a[2]),) + tuple(segs))
        return
    fl = I.flat(segs)
    if isinstance(i, int) and all(isinstance(s, Item) for s in fl):
        fl = list(fl)
        fl.insert(i, Item(a[2]))
        I.write(a[0], 'segs', tuple(fl))
        return
    raise Unsupported('insert')


def l_pop(I, a, kw):
    segs = list(I.flat(I.read(a[0], 'segs')))
    i = I.force(a[1]) if len(a) > 1 else -1
    if not segs:
        I.raise_('IndexError', 'pop from empty list')
    if i == -1 and isinstance(segs[-1], Item):
        s = segs.pop()
        I.write(a[0], 'segs', tuple(segs))
        return s.v
    if i == 0 and isinstance(segs[0], Item):
        s = segs.pop(0)
        I.write(a[0], 'segs', tuple(segs))
        return s.v
    if isinstance(i, int) and all(isinstance(s, Item) for s in segs):
        if not -len(segs) <= i < len(segs):
            I.raise_('IndexError', 'pop')
        s = segs.pop(i)
        I.write(a[0], 'segs', tuple(segs))
        return s.v
    v = I.seq_get(tuple(segs), i)
    if i == -1:
        I.write(a[0], 'segs', I.read(I.getslice(a[0], None, -1, None), 'segs'))
        return v
    if i == 0:
        I.write(a[0], 'segs', I.read(I.getslice(a[0], 1, None, None), 'segs'))
        return v
    raise Unsupported('pop')


def l_index(I, a, kw):
    items = I.concrete_items(a[0])
    for i, x in enumerate(items):
        if I.decide(I.eq(x, a[1])):
            return i
    I.raise_('ValueError', 'not in list')


def l_count(I, a, kw):
    items = I.concrete_items(a[0])
    n = 0
    for x in items:
        if I.decide(I.eq(x, a[1])):
            n += 1
    return n


def l_remove(I, a, kw):
    segs = list(I.flat(I.read(a[0], 'segs')))
    for i, s in enumerate(segs):
        if not isinstance(s, Item):
            raise Unsupported('remove')
        if I.decide(I.eq(s.v, a[1])):
            del segs[i]
            I.write(a[0], 'segs', tuple(segs))
            return
    I.raise_('ValueError', 'remove')


def l_clear(I, a, kw):
    I.write(a[0], 'segs', ())


def d_get(I, a, kw):
    r = I.dict_find(a[0], a[1])
    if r is None:
        return a[2] if len(a) > 2 else None
    return r[1]


def d_setdefault(I, a, kw):
    r = I.dict_find(a[0], a[1])
    if r is None:
        v = a[2] if len(a) > 2 else None
        I.setitem(a[0], a[1], v)
        return v
    return r[1]


def d_items(which):
    def f(I, a, kw):
        out = []
        for e in I.norm_ents(a[0]):
            if isinstance(e, DE):
                v = (e.k, e.v)
            elif isinstance(e, DFM):
                v = (e.key, e.val)
            else:
                raise partial(e, 'iteration over a dict')
            v = v if which == 'items' else v[0] if which == 'keys' else v[1]
            out.append(Item(v) if isinstance(e, DE) else FM(e.n, e.k, (Item(v),)))
        return I.new_list_segs(tuple(out))
    return f


def d_update(I, a, kw):
    if len(a) > 1:
        src = I.force(a[1])
        if I.cell(src).kind != 'dict':
            raise Unsupported('update')
        if not I.read(a[0], 'ents'):
            I.write(a[0], 'ents', I.read(src, 'ents'))
        else:
            for e in I.read(src, 'ents'):
                if not isinstance(e, DE):
                    raise Unsupported('update with a symbolic dict')
                I.setitem(a[0], e.k, e.v)
    for k, v in kw.items():
        I.setitem(a[0], k, v)


def d_pop(I, a, kw):
    r = I.dict_find(a[0], a[1])
    if r is None:
        if len(a) > 2:
            return a[2]
        I.raise_('KeyError', '')
    I.delitem(a[0], a[1])
    return r[1]


def e_append(I, a, kw):
    v = I.force(a[1])
    if not (isinstance(v, Ref) and I.cell(v).kind == 'elem'):
        I.raise_('TypeError', 'append() argument must be Element')
    I.write(a[0], 'kids', I.read(a[0], 'kids') + (Item(v),))


def e_extend(I, a, kw):
    I.write(a[0], 'kids', I.read(a[0], 'kids') + tuple(I.segs_of(a[1])))


def e_insert(I, a, kw):
    if I.force(a[1]) == 0:
        I.write(a[0], 'kids', (Item(a[2]),) + I.read(a[0], 'kids'))
        return
    raise Unsupported('insert')


def _tagsegs(I, segs, tag):
    out = []
    for s in segs:
        if isinstance(s, Item):
            c = I.eq(I.read(I.force(s.v), 'tag'), tag)
            if c is True:
                out.append(s)
            elif c is False:
                continue
            else:
                out.append(Gd([(c, (s,)), (neg(c), ())]))
        elif isinstance(s, FM):
            sub = _tagsegs(I, s.segs, tag)
            if sub:
                out.append(FM(s.n, s.k, tuple(sub)))
        elif isinstance(s, Gd):
            alts = [(c, tuple(_tagsegs(I, x, tag))) for c, x in s.alts]
            if any(x for _, x in alts):
                out.append(Gd(alts))
        else:
            raise partial(s, 'search in an element')
    return out


def e_findall(I, a, kw):
    tag = I.force(a[1])
    if isinstance(tag, str) and ('/' in tag or tag in ('*', '.')):
        raise Unsupported('path')
    return I.new_list_segs(tuple(_tagsegs(I, I.read(a[0], 'kids'), tag)))


def e_find(I, a, kw):
    segs = I.flat(_tagsegs(I, I.read(a[0], 'kids'), I.force(a[1])))
    for s in segs:
        if isinstance(s, Item):
            return s.v
        if isinstance(s, FM):
            it = I.fm_item(s)
            if I.decide(I.num_cmp(s.n, 0, lambda x, y: x > y)):
                return subst(it, [(s.k, z3.IntVal(0))])
    return None


def e_get(I, a, kw):
    return d_get(I, [I.read(a[0], 'attrib')] + list(a[1:]), kw)


def e_set(I, a, kw):
    I.setitem(I.read(a[0], 'attrib'), a[1], a[2])


def f_write(I, a, kw):
    I.write(a[0], 'parts', I.read(a[0], 'parts') + (I.force(a[1]),))


def f_close(I, a, kw):
    f = a[0]
    name = I.read(f, 'name')
    key = name if isinstance(name, str) else str(to_z3(name))
    I.state.files[key] = (name, I.read(f, 'mode'), I.read(f, 'enc'), I.read(f, 'parts'))


def tree_write(I, a, kw):
    o = I.force(a[1])
    enc = I.force(a[2]) if len(a) > 2 else I.force(kw.get('encoding', None))
    el = I.read(a[0], 'el')
    enc = 'us-ascii' if enc is None else enc
    if isinstance(o, Ref) and I.cell(o).kind == 'file':
        if 'b' not in I.read(o, 'mode') and enc != 'unicode':
            I.raise_('TypeError', 'write() argument must be str')
        f_write(I, [o, Bytes(el, enc)], {})
        return
    f = I.alloc('file', None, {'name': o, 'mode': 'wb', 'enc': None, 'parts': (Bytes(el, enc),)})
    f_close(I, [f], {})


def dom_pretty(I, a, kw):
    enc = I.force(kw.get('encoding', a[3] if len(a) > 3 else None))
    if I.read(a[0], 'removed') not in ((), ('\n',), ('\t',), ('\n', '\t'), ('\t', '\n')):
        raise Unsupported('text removed from the serialisation')
    el = I.read(a[0], 'el')
    return DocText(el, None) if enc is None else Bytes(el, enc)


def s_upper(I, a, kw):
    s = a[0]
    if isinstance(s, str):
        return s.upper()
    if isinstance(s, EnumText):
        return s.map(str.upper)
    return UPPER(to_z3(s))


def s_map(name):
    def f(I, a, kw):
        s = a[0]
        args = [I.force(x) for x in a[1:]]
        if not all(isinstance(x, (str, int)) for x in args):
            raise Unsupported('str.%s' % name)
        if isinstance(s, str):
            r = getattr(s, name)(*args)
            return I.new_list(r) if isinstance(r, list) else r
        if isinstance(s, EnumText):
            r = [getattr(t, name)(*args) for t in s.table]
            if all(isinstance(x, str) for x in r):
                return EnumText(s.code, r)
            if all(isinstance(x, bool) for x in r):
                return disj([I.eq(s.code, i) for i, x in enumerate(r) if x])
        raise Unsupported('str.%s of a symbolic text' % name)
    return f


def s_join(I, a, kw):
    items = I.concrete_items(a[1])
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(a[0])
        x = I.force(x)
        if not is_text(x):
            I.raise_('TypeError', 'join')
        out.append(x)
    return I.concat(out)


def s_format(I, a, kw):
    import re
    s = a[0]
    if not isinstance(s, str):
        raise Unsupported('format')
    args = list(a[1:])
    out = []
    n = 0
    for p in re.split(r'(\{[A-Za-z0-9_]*\})', s):
        if re.fullmatch(r'\{[A-Za-z0-9_]*\}', p):
            k = p[1:-1]
            if k == '':
                v = args[n]
                n += 1
            elif k.isdigit():
                v = args[int(k)]
            else:
                v = kw[k]
            out.append(I.to_text(v))
        elif '{' in p or '}' in p:
            raise Unsupported('format')
        else:
            out.append(p)
    return I.concat(out)


def b_replace(I, a, kw):
    b = a[0]
    x, y = I.force(a[1]), I.force(a[2])
    if isinstance(x, bytes) and y == b'':
        return Bytes(b.el, b.enc, tuple(b.removed) + (x.decode('latin1'),))
    if isinstance(x, str) and y == '':
        raise Unsupported('replace in a document text')
    raise Unsupported('replace in a serialisation')


METHODS = {
    'list': dict(append=l_append, extend=l_extend, reverse=l_reverse, insert=l_insert, pop=l_pop, index=l_index, count=l_count, remove=l_remove, clear=l_clear,
                 copy=lambda I, a, kw: I.new_list_segs(I.read(a[0], 'segs'))),
    'set': dict(add=lambda I, a, kw: I.list_append(a[0], a[1]), copy=shallow, update=l_extend),
    'dict': dict(get=d_get, items=d_items('items'), keys=d_items('keys'), values=d_items('values'), update=d_update, setdefault=d_setdefault, pop=d_pop,
                 copy=lambda I, a, kw: b_dict(I, [a[0]], {})),
    'elem': dict(append=e_append, extend=e_extend, insert=e_insert, find=e_find, findall=e_findall, get=e_get, set=e_set,
                 iter=None, keys=lambda I, a, kw: d_items('keys')(I, [I.read(a[0], 'attrib')], {}), items=lambda I, a, kw: d_items('items')(I, [I.read(a[0], 'attrib')], {})),
    'file': dict(write=f_write, close=f_close, __enter__=lambda I, a, kw: a[0], __exit__=f_close),
    'etree': dict(write=tree_write, getroot=lambda I, a, kw: I.read(a[0], 'el')),
    'dom': dict(toprettyxml=dom_pretty, toxml=dom_pretty),
    'text': dict(upper=s_upper, join=s_join, format=s_format),
    'Bytes': dict(replace=b_replace, decode=lambda I, a, kw: DocText(a[0].el, None)),
    'DocText': dict(encode=lambda I, a, kw: Bytes(a[0].el, (a[1] if len(a) > 1 else 'utf-8'))),
}
for _n in ('lower', 'replace', 'split', 'strip', 'startswith', 'endswith', 'title', 'capitalize', 'lstrip', 'rstrip', 'isdigit', 'zfill', 'find', 'count', 'removeprefix'):
    METHODS['text'][_n] = s_map(_n)


def method(I, kind, name, o):
    if kind == 'elem' and name in ('tag', 'attrib', 'text', 'tail'):
        return (I.read(o, name),)
    if kind == 'elem' and name == 'iter':
        raise Unsupported('iter')
    f = METHODS.get(kind, {}).get(name)
    if f is not None:
        return _m(name, f, o)
    if kind == 'file' and name == 'name':
        return (I.read(o, 'name'),)
    if kind == 'num' and name in ('real',):
        return (o,)
    if kind == 'num' and name == 'imag':
        return (0,)
    if kind == 'FuncVal' and name == '__name__':
        return (o.name,)
    return None
