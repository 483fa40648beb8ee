"""Values, states and substitution of the symbolic executor.

Numbers are mathematical: Python ints, Fractions (float literals are read as the decimal they spell) and z3
Int/Real terms.  Texts are Python strs or z3 terms of sort Text.  Objects, lists, dicts, XML elements and
local environments live in a heap of cells; a cell created inside a loop that was summarised is a *family*:
its contents are an expression over the loop indices (vars) and a reference to it carries index terms.
"""
from fractions import Fraction
import re
import z3

z3.set_param('memory_max_size', 6000)


class Unsupported(Exception):
    """the construct is outside the executor's subset: the obligation is undecided, never refuted"""


class OpRead(Unsupported):
    """the contents of a list under construction in a loop are needed"""
    key = None


def partial(s, what):
    if isinstance(s, Op):
        e = OpRead(what + ' partially known')
        e.key = s.key
        return e
    return Unsupported(what + ' of unknown structure')


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- text sort
_T = z3.Datatype('Text')
_T.declare('tnum', ('num', z3.RealSort()))
_T.declare('tlit', ('lit', z3.IntSort()))
_T.declare('tsym', ('sym', z3.IntSort()))
Text = _T.create()

LITS = {}
LITS_REV = []
_numre = re.compile(r'^-?\d+(\.\d+)?$')


def lit(s):
    """z3 Text term for a Python str"""
    if _numre.match(s):
        return Text.tnum(z3.RealVal(s))
    if s not in LITS:
        LITS[s] = len(LITS_REV)
        LITS_REV.append(s)
    return Text.tlit(LITS[s])


def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def is_text(v):
    return isinstance(v, (str, EnumText)) or (isinstance(v, z3.ExprRef) and v.sort() == Text)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def to_z3(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, EnumText):
        return v.z3()
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported('no z3 term for %r' % (v,))


def to_real(v):
    v = to_z3(v)
    if v.sort() == z3.IntSort():
        if z3.is_int_value(v):
            return z3.RealVal(v.as_long())
        return z3.ToReal(v)
    return v


def as_const(v):
    """fold z3 numerals back to Python numbers"""
    if isinstance(v, z3.ArithRef):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
    elif isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


class EnumText:
    """a text that is a function of an enumeration code: table[code]"""
    __slots__ = ('code', 'table')

    def __init__(self, code, table):
        self.code, self.table = code, tuple(table)

    def map(self, fn):
        return EnumText(self.code, [fn(t) for t in self.table])

    def z3(self):
        c = to_z3(self.code)
        r = lit(self.table[-1])
        for i in range(len(self.table) - 2, -1, -1):
            r = z3.If(c == i, lit(self.table[i]), r)
        return r

    def __repr__(self):
        return 'EnumText(%s,%s..)' % (self.code, self.table[:2])


class SEnum:
    """member of an enumeration class; code is an int or a z3 Int"""
    __slots__ = ('cls', 'code')

    def __init__(self, cls, code):
        self.cls, self.code = cls, code

    def __repr__(self):
        return '<%s #%s>' % (self.cls.name, self.code)


class Ref:
    __slots__ = ('oid', 'idx')

    def __init__(self, oid, idx=()):
        self.oid, self.idx = oid, idx

    def __repr__(self):
        return 'Ref(%s%s)' % (self.oid, self.idx or '')


class GV:
    """guarded value: exhaustive, mutually exclusive alternatives [(cond, value)]"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'GV%r' % (self.alts,)


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()


class Opaque:
    """a loop-carried value of a kind the loop rule has no closed form for"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class Cplx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return '(%s + %s j)' % (self.re, self.im)


class RangeVal:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Bytes:
    """result of ET.tostring: the serialisation of an element, some characters removed"""
    __slots__ = ('el', 'removed', 'enc')

    def __init__(self, el, enc, removed=()):
        self.el, self.enc, self.removed = el, enc, removed


class DocText:
    """text of an XML document (pretty printed)"""
    __slots__ = ('el', 'enc')

    def __init__(self, el, enc):
        self.el, self.enc = el, enc


# ---- sequences: tuples of segments
class Item:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'I(%r)' % (self.v,)


class FM:
    """for k in 0..n-1: segs(k), concatenated"""
    __slots__ = ('n', 'k', 'segs')

    def __init__(self, n, k, segs):
        self.n, self.k, self.segs = n, k, segs

    def __repr__(self):
        return 'FM(%s,%s,%r)' % (self.n, self.k, self.segs)


class Gd:
    __slots__ = ('alts',)     # [(cond, segs)], exhaustive and exclusive

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Gd%r' % (self.alts,)


class Op:
    """the unknown contents of a list or dict before the current iteration, n entries"""
    __slots__ = ('key', 'n')

    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return 'Op(%s)' % (self.key,)


# ---- dict entries
class DE:
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return 'DE(%r:%r)' % (self.k, self.v)


class DFM:
    __slots__ = ('n', 'k', 'key', 'val')

    def __init__(self, n, k, key, val):
        self.n, self.k, self.key, self.val = n, k, key, val


class FamW:
    """field of a family cell after writes: base overridden by (cond, value), both over the cell's vars; last wins.
    point is the index tuple of a single-index write or None"""
    __slots__ = ('base', 'writes')

    def __init__(self, base, writes):
        self.base, self.writes = base, writes

    def __repr__(self):
        return 'FamW(%r,%r)' % (self.base, self.writes)


class W:
    __slots__ = ('cond', 'val', 'point')

    def __init__(self, cond, val, point=None):
        self.cond, self.val, self.point = cond, val, point

    def __repr__(self):
        return 'W(%s,%r)' % (self.cond, self.val)


class Cell:
    __slots__ = ('kind', 'cls', 'vars', 'data', 'ro')

    def __init__(self, kind, cls, vars, data):
        self.kind, self.cls, self.vars, self.data = kind, cls, vars, data

    def with_field(self, name, v):
        d = dict(self.data)
        d[name] = v
        return Cell(self.kind, self.cls, self.vars, d)

    def with_data(self, d):
        return Cell(self.kind, self.cls, self.vars, d)

    def __repr__(self):
        return 'Cell(%s,%s,%s,%r)' % (self.kind, self.cls, self.vars, self.data)


class ClassVal:
    def __init__(self, name, bases, oid, module=None):
        self.name, self.bases, self.oid, self.module = name, bases, oid, module
        self.mro = [self]
        for b in bases:
            for c in b.mro:
                if c not in self.mro:
                    self.mro.append(c)
        self.members = None          # list of names for enumerations
        self.native = None           # (interp, args, kw) -> value for native constructors

    def __repr__(self):
        return '<class %s>' % self.name


class FuncVal:
    def __init__(self, name, node, envs, module, defaults, kwdefaults, owner=None):
        self.name, self.node, self.envs, self.module = name, node, envs, module
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.kind = None             # None | 'static' | 'class' | 'property'

    def __repr__(self):
        return '<func %s>' % self.name


class Bound:
    __slots__ = ('self_', 'fn')

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Native:
    """a modelled library or builtin function; fn(interp, args, kw)"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<native %s>' % self.name


class ModuleVal:
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return '<module %s>' % self.name


# ---------------------------------------------------------------- substitution
def subst(v, m):
    """replace z3 constants in any value; m: list of (const, z3 term)"""
    if not m:
        return v
    if isinstance(v, z3.ExprRef):
        return as_const(m(v) if callable(m) else z3.substitute(v, *m))
    if v is None or isinstance(v, (bool, int, Fraction, str)):
        return v
    if isinstance(v, Ref):
        if not v.idx:
            return v
        return Ref(v.oid, tuple(subst(i, m) for i in v.idx))
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    if isinstance(v, SEnum):
        return SEnum(v.cls, subst(v.code, m))
    if isinstance(v, EnumText):
        return EnumText(subst(v.code, m), v.table)
    if isinstance(v, GV):
        return simp_gv([(subst(c, m), subst(x, m)) for c, x in v.alts])
    if isinstance(v, Item):
        return Item(subst(v.v, m))
    if isinstance(v, FM):
        return FM(subst(v.n, m), v.k, subst(v.segs, m))
    if isinstance(v, Gd):
        return Gd([(subst(c, m), subst(s, m)) for c, s in v.alts])
    if isinstance(v, DE):
        return DE(subst(v.k, m), subst(v.v, m))
    if isinstance(v, DFM):
        return DFM(subst(v.n, m), v.k, subst(v.key, m), subst(v.val, m))
    if isinstance(v, Bound):
        return Bound(subst(v.self_, m), v.fn)
    if isinstance(v, FuncVal):
        if any(e.idx for e in v.envs):
            n = FuncVal(v.name, v.node, [subst(e, m) for e in v.envs], v.module, v.defaults, v.kwdefaults, v.owner)
            n.kind = v.kind
            return n
        return v
    if isinstance(v, Cplx):
        return Cplx(subst(v.re, m), subst(v.im, m))
    if isinstance(v, RangeVal):
        return RangeVal(subst(v.start, m), subst(v.stop, m), subst(v.step, m))
    if isinstance(v, FamW):
        return FamW(subst(v.base, m), tuple(W(subst(w.cond, m), subst(w.val, m), None if w.point is None else subst(w.point, m)) for w in v.writes))
    if isinstance(v, list):
        return [subst(x, m) for x in v]
    if isinstance(v, dict):
        return {k: subst(x, m) for k, x in v.items()}
    if isinstance(v, Op):
        return Op(v.key, subst(v.n, m))
    if isinstance(v, (Bytes,)):
        return Bytes(subst(v.el, m), v.enc, v.removed)
    if isinstance(v, DocText):
        return DocText(subst(v.el, m), v.enc)
    return v


def simp_gv(alts):
    out = []
    for c, x in alts:
        c = as_const(z3.simplify(c)) if isinstance(c, z3.ExprRef) else c
        if c is True:
            return x
        if c is False:
            continue
        out.append((c, x))
    if len(out) == 1:
        return out[0][1]
    return GV(out)


def syms_of(v, acc=None):
    """ids of all z3 constants (uninterpreted, arity 0) and UF names occurring in a value"""
    if acc is None:
        acc = {}
    seen = set()

    def ex(e):
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x.decl()
            st.extend(x.children())

    def go(v):
        if isinstance(v, z3.ExprRef):
            ex(v)
        elif isinstance(v, Ref):
            for i in v.idx:
                go(i)
        elif isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, dict):
            for x in v.values():
                go(x)
        elif isinstance(v, GV) or isinstance(v, Gd):
            for c, x in v.alts:
                go(c)
                go(x)
        elif isinstance(v, SEnum) or isinstance(v, EnumText):
            go(v.code)
        elif isinstance(v, Item):
            go(v.v)
        elif isinstance(v, FM):
            go(v.n)
            go(v.segs)
        elif isinstance(v, DE):
            go(v.k)
            go(v.v)
        elif isinstance(v, DFM):
            go(v.n), go(v.key), go(v.val)
        elif isinstance(v, Bound):
            go(v.self_)
        elif isinstance(v, Cplx):
            go(v.re), go(v.im)
        elif isinstance(v, RangeVal):
            go(v.start), go(v.stop), go(v.step)
        elif isinstance(v, FamW):
            go(v.base)
            for w in v.writes:
                go(w.cond), go(w.val)
        elif isinstance(v, (Bytes, DocText)):
            go(v.el)
        elif isinstance(v, Op):
            acc['op!%s' % (v.key,)] = v
            go(v.n)
        elif isinstance(v, Opaque):
            acc['opaque!%d' % id(v)] = v
    go(v)
    return acc


def same(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, Fraction, str, bool)):
        return a == b
    if isinstance(a, Ref):
        return a.oid == b.oid and len(a.idx) == len(b.idx) and all(same(x, y) for x, y in zip(a.idx, b.idx))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SEnum):
        return a.cls is b.cls and same(a.code, b.code)
    if isinstance(a, EnumText):
        return a.table == b.table and same(a.code, b.code)
    if isinstance(a, Item):
        return same(a.v, b.v)
    if isinstance(a, DE):
        return same(a.k, b.k) and same(a.v, b.v)
    if isinstance(a, FM):
        return a.k.eq(b.k) and same(a.n, b.n) and same(a.segs, b.segs)
    if isinstance(a, (GV, Gd)):
        return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, Bound):
        return a.fn is b.fn and same(a.self_, b.self_)
    if isinstance(a, Cplx):
        return same(a.re, b.re) and same(a.im, b.im)
    if isinstance(a, Op):
        return a.key == b.key and same(a.n, b.n)
    if isinstance(a, Bound):
        return a.fn is b.fn and same(a.self_, b.self_)
    if isinstance(a, DFM):
        return a.k.eq(b.k) and same(a.n, b.n) and same(a.key, b.key) and same(a.val, b.val)
    if isinstance(a, FamW):
        return same(a.base, b.base) and len(a.writes) == len(b.writes) and all(x is y for x, y in zip(a.writes, b.writes))
    return False


def map_refs(v, f):
    """rebuild a value with every reference replaced by f(ref)"""
    if isinstance(v, Ref):
        return f(v)
    if isinstance(v, tuple):
        return tuple(map_refs(x, f) for x in v)
    if isinstance(v, GV):
        return GV([(c, map_refs(x, f)) for c, x in v.alts])
    if isinstance(v, Gd):
        return Gd([(c, map_refs(x, f)) for c, x in v.alts])
    if isinstance(v, Item):
        return Item(map_refs(v.v, f))
    if isinstance(v, FM):
        return FM(v.n, v.k, map_refs(v.segs, f))
    if isinstance(v, DE):
        return DE(map_refs(v.k, f), map_refs(v.v, f))
    if isinstance(v, DFM):
        return DFM(v.n, v.k, map_refs(v.key, f), map_refs(v.val, f))
    if isinstance(v, Bound):
        return Bound(map_refs(v.self_, f), v.fn)
    if isinstance(v, FamW):
        return FamW(map_refs(v.base, f), tuple(W(w.cond, map_refs(w.val, f), w.point) for w in v.writes))
    if isinstance(v, Bytes):
        return Bytes(map_refs(v.el, f), v.enc, v.removed)
    if isinstance(v, DocText):
        return DocText(map_refs(v.el, f), v.enc)
    if isinstance(v, FuncVal):
        if any(not same(e, f(e)) for e in v.envs):
            n = FuncVal(v.name, v.node, [f(e) for e in v.envs], v.module, v.defaults, v.kwdefaults, v.owner)
            n.kind = v.kind
            return n
    return v


def conj(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    if not cs:
        return True
    if len(cs) == 1:
        return cs[0]
    return z3.And(*[to_z3(c) for c in cs])


def disj(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    if not cs:
        return False
    if len(cs) == 1:
        return cs[0]
    return z3.Or(*[to_z3(c) for c in cs])


def neg(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def merge(alts):
    """alts: [(cond, value)] exhaustive/exclusive -> one value"""
    alts = [(c, v) for c, v in alts if c is not False]
    if len(alts) == 1:
        return alts[0][1]
    first = alts[0][1]
    if all(same(first, v) for _, v in alts[1:]):
        return first
    vs = [v for _, v in alts]
    if all(is_num(v) for v in vs):
        zs = [to_z3(v) for v in vs]
        if any(z.sort() == z3.RealSort() for z in zs):
            zs = [to_real(z) for z in zs]
        r = zs[-1]
        for (c, _), z in zip(reversed(alts[:-1]), reversed(zs[:-1])):
            r = z3.If(to_z3(c), z, r)
        return r
    if all(is_bool(v) for v in vs):
        r = to_z3(vs[-1])
        for c, v in reversed(alts[:-1]):
            r = z3.If(to_z3(c), to_z3(v), r)
        return as_const(z3.simplify(r))
    if all(is_text(v) for v in vs):
        r = to_z3(vs[-1])
        for c, v in reversed(alts[:-1]):
            r = z3.If(to_z3(c), to_z3(v), r)
        return r
    if all(isinstance(v, SEnum) for v in vs) and all(v.cls is vs[0].cls for v in vs):
        return SEnum(vs[0].cls, merge([(c, v.code) for c, v in alts]))
    if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
        return tuple(merge([(c, v[i]) for c, v in alts]) for i in range(len(vs[0])))
    # flatten nested guarded values, join equal ones
    out = []
    for c, v in alts:
        for c2, v2 in (v.alts if isinstance(v, GV) else ((True, v),)):
            cc = conj([c, c2])
            for j, (c3, v3) in enumerate(out):
                if same(v3, v2):
                    out[j] = (disj([c3, cc]), v3)
                    break
            else:
                out.append((cc, v2))
    if len(out) == 1:
        return out[0][1]
    return GV(out)


class State:
    __slots__ = ('heap', 'pc', 'asm', 'facts', 'loops', 'files', 'approx', 'reads')

    def __init__(self):
        self.heap = {}
        self.pc = []        # branch conditions and assumptions
        self.asm = set()    # positions in pc that are assumptions (preconditions of the contract)
        self.facts = []     # z3 facts (may be quantified)
        self.loops = ()     # indices of the loops being summarised
        self.files = {}
        self.approx = False  # some value was abstracted: a refutation needs a replay
        self.reads = None

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.asm = set(self.asm)
        s.facts = list(self.facts)
        s.loops = self.loops
        s.files = dict(self.files)
        s.approx = self.approx
        s.reads = None if self.reads is None else list(self.reads)
        return s
