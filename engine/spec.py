"""Symbolic meaning of the contract language (module `spec`); rt/spec.py is its concrete twin."""
import z3
from .core import *
from .interp import PyRaise, Infeasible
from .prove import Obl
from . import models

R, Z, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def inp(I, name, idx, sort):
    nm = 'in!' + name
    if not idx:
        return z3.Const(nm, sort)
    ix = []
    sorts = []
    for i in idx:
        i = to_z3(I.force(i))
        if i.sort() != Z and i.sort() != Text:
            raise Unsupported('input index')
        ix.append(i)
        sorts.append(i.sort())
    return z3.Function(nm, *(sorts + [sort]))(*ix)


def _idx(a):
    return list(a)


def bounds(I, v, kw):
    cs = []
    for k, f in (('lo', lambda x: v >= x), ('hi', lambda x: v <= x), ('gt', lambda x: v > x), ('lt', lambda x: v < x)):
        b = I.force(kw.get(k))
        if b is not None:
            cs.append(f(to_real(b) if v.sort() == R else to_z3(b)))
    c = conj(cs)
    if c is not True:
        I.assume(c)
    return v


def any_real(I, a, kw):
    return bounds(I, inp(I, I.force(a[0]), a[1:], R), kw)


def any_int(I, a, kw):
    return bounds(I, inp(I, I.force(a[0]), a[1:], Z), kw)


def any_bool(I, a, kw):
    return inp(I, I.force(a[0]), a[1:], B)


def any_text(I, a, kw):
    t = inp(I, I.force(a[0]), a[1:], Text)
    if I.force(kw.get('symbol', False)):
        I.assume(Text.is_tsym(t))
    return t


def any_size(I, a, kw):
    name = I.force(a[0])
    if name in I.sizes:
        return I.sizes[name]
    v = inp(I, name, (), Z)
    lo, hi = size_range(I, a, kw)
    I.assume(v >= to_z3(lo))
    I.size_names.setdefault(name, (lo, hi))
    return v


def size_range(I, a, kw):
    return I.force(a[1] if len(a) > 1 else kw.get('lo', 0)), I.force(a[2] if len(a) > 2 else kw.get('hi', 3))


def any_enum(I, a, kw):
    cls = I.force(a[0])
    c = inp(I, I.force(a[1]), a[2:], Z)
    I.assume(z3.And(c >= 0, c < len(cls.members)))
    return SEnum(cls, c)


def any_none_or(I, a, kw):
    b = inp(I, I.force(a[0]), a[2:], B)
    return GV([(b, None), (z3.Not(b), a[1])])


def any_case(I, a, kw):
    n = I.force(a[1])
    c = inp(I, I.force(a[0]), a[2:], Z)
    I.assume(z3.And(c >= 0, c < n))
    for i in range(n - 1):
        if I.decide(c == i):
            return i
    return n - 1


def any_id(I, a, kw):
    """pairwise distinct integers"""
    name = I.force(a[0])
    I.injective.add('in!' + name)
    return bounds(I, inp(I, name, a[1:], Z), kw)


def requires(I, a, kw):
    I.assume(I.truth_expr(a[0]))


def record(I, label, goal, kind='bool', data=None):
    st = I.state
    if isinstance(goal, bool):
        g = goal
    elif kind == 'bool':
        g2 = as_const(z3.simplify(goal))
        g = g2 if isinstance(g2, bool) else goal
    else:
        g = None
    pc = [c for c in st.pc if c is not True]
    zs = [to_z3(c) for c in pc]
    if isinstance(g, z3.ExprRef):
        zs.append(g)
    key = (label, kind, frozenset(z.get_id() for z in zs), g if isinstance(g, bool) or g is None else g.get_id(),
           str(sorted((k, str(v)) for k, v in data.items())) if data else '')
    if key in I.obl_keys:
        return
    I.obl_keys.add(key)
    I.keep.append(zs)          # term ids stay in use
    I.obligations.append(Obl(label, pc, list(st.facts), g, st.approx or I.stubbed, kind, data))


def ensures(I, a, kw):
    record(I, lab(I, a[0]), I.truth_expr(a[1]))


def lab(I, v):
    v = I.force(v)
    return v if isinstance(v, str) else str(v)


def same_goal(I, x, y):
    x, y = I.force(x), I.force(y)
    if is_text(x) and is_text(y) and not (isinstance(x, str) and isinstance(y, str)):
        def tn(t):
            if isinstance(t, str):
                t = lit(t)
            if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().name() == 'tnum':
                return t.arg(0)
        p, q = tn(x), tn(y)
        if p is not None and q is not None:
            return p == q
    return I.eq(x, y)


def ensures_same(I, a, kw):
    record(I, lab(I, a[0]), same_goal(I, a[1], a[2]))


def ensures_some(I, a, kw):
    """label, list of alternatives; each is a list of pairs (p, q) of numbers, compared as values, or triples (p, q, 'dir')"""
    alts = []
    s, c = models.LIB['sin'], models.LIB['cos']
    for alt in I.concrete_items(a[1]):
        gs = []
        for t in I.concrete_items(alt):
            t = I.force(t)
            if len(t) == 3:
                gs.append(conj([I.eq(s(I, [t[0]], {}), s(I, [t[1]], {})), I.eq(c(I, [t[0]], {}), c(I, [t[1]], {}))]))
            else:
                gs.append(same_goal(I, t[0], t[1]))
        alts.append(conj(gs))
    if any(g is True for g in alts):
        record(I, lab(I, a[0]), True)
    elif not alts or all(g is False for g in alts):
        record(I, lab(I, a[0]), False)
    else:
        record(I, lab(I, a[0]), None, 'some', dict(alts=[g for g in alts if g is not False]))


def ensures_dir(I, a, kw):
    x, y = a[1], a[2]
    s, c = models.LIB['sin'], models.LIB['cos']
    record(I, lab(I, a[0]), conj([I.eq(s(I, [x], {}), s(I, [y], {})), I.eq(c(I, [x], {}), c(I, [y], {}))]))


def ensures_follows(I, a, kw):
    """label, s, start (x, y), end (x, y), heading(u): for every s the point `end` is reached from `start` by going
    the arc length s along the curve with the given heading"""
    label, s, start, end, heading = a
    s = I.force(s)
    start, end = I.force(start), I.force(end)
    th = I.call(heading, [s], {})
    record(I, lab(I, label), None, 'curve', dict(s=s, start=tuple(I.force(v) for v in start), end=tuple(I.force(v) for v in end), heading=I.force(th)))


def forall(I, a, kw):
    """run the function for a generic index; obligations inside are for all indices; effects are dropped"""
    n = I.force(a[0])
    fn = a[1]
    n = as_const(z3.simplify(n)) if isinstance(n, z3.ExprRef) else n
    if isinstance(n, int):
        for i in range(max(0, n)):
            _isolated(I, lambda: I.call(fn, [i], {}))
        return None
    lo = I.force(kw.get('lo', 0))
    I.forall_n += 1
    i = z3.Int('i!%d' % I.forall_n)

    def body():
        I.assume(z3.And(i >= to_z3(lo), i < to_z3(n)))
        I.call(fn, [i], {})
    _isolated(I, body)


def _isolated(I, body):
    outs = I.explore(body)
    for o in outs:
        if o.kind == 'raise':
            base = I.state
            I.state = o.state
            record(I, 'no unexpected exception: %s(%s)' % (o.val.cls.name, str(o.val.msg)[:60]), False)
            I.state = base


def pairwise(I, a, kw):
    """label, two lists, fn(x, y): the lists are equally long, and fn is run for every pair of elements at the same place; effects are dropped"""
    label, fn = lab(I, a[0]), a[3]
    xs, ys = I.flat(I.segs_of(a[1])), I.flat(I.segs_of(a[2]))
    _isolated(I, lambda: pair_segs(I, label, xs, ys, fn))


def pair_segs(I, label, xs, ys, fn):
    xs, ys = I.flat(xs), I.flat(ys)
    i = 0
    while i < len(xs) and i < len(ys):
        s, t = xs[i], ys[i]
        if isinstance(s, Item) and isinstance(t, Item):
            _isolated(I, lambda: I.call(fn, [s.v, t.v], {}))
        elif isinstance(s, FM) and isinstance(t, FM):
            g = to_z3(s.n) == to_z3(t.n)
            if not I.entails(g):
                break
            I.forall_n += 1
            k = z3.Int('i!%d' % I.forall_n)

            def body():
                I.assume(z3.And(k >= 0, k < to_z3(s.n)))
                pair_segs(I, label, subst(s.segs, [(s.k, k)]), subst(t.segs, [(t.k, k)]), fn)
            _isolated(I, body)
        else:
            break
        i += 1
    xs, ys = xs[i:], ys[i:]
    if not xs and not ys:
        return
    record(I, label + ': equally many', I.eq(I.seq_len(xs), I.seq_len(ys)))
    if any(not isinstance(s, Item) for s in xs + ys):
        raise Unsupported('%s: lists not comparable pair by pair' % label)


def ensures_tree(I, a, kw):
    label = lab(I, a[0])
    skip = I.force(kw['skip']) if 'skip' in kw else ()
    x, y = I.force(a[1]), I.force(a[2])
    _isolated(I, lambda: match(I, label, x, y, tuple(I.force(s) for s in skip)))


def match(I, label, x, y, skip=()):
    x, y = I.force(x), I.force(y)
    cx, cy = I.cell(x), I.cell(y)
    if cx.kind != 'elem' or cy.kind != 'elem':
        raise Unsupported('tree comparison of %s and %s' % (cx.kind, cy.kind))
    t, t2 = I.force(I.read(x, 'tag')), I.force(I.read(y, 'tag'))
    record(I, label + ': element name', I.eq(t, t2))
    tg = t if isinstance(t, str) else 'element'
    match_attrs(I, label + '/' + tg, I.read(x, 'attrib'), I.read(y, 'attrib'), skip)
    tx, ty = I.force(I.read(x, 'text')), I.force(I.read(y, 'text'))
    if tx is not None or ty is not None:
        record(I, label + '/' + tg + ': text', I.eq(tx, ty))
    match_segs(I, label + '/' + tg, I.read(x, 'kids'), I.read(y, 'kids'), skip)


def match_attrs(I, label, x, y, skip):
    ex, ey = I.norm_ents(x), I.norm_ents(y)
    keys = []
    for e in tuple(ex) + tuple(ey):
        if not isinstance(e, DE):
            raise Unsupported('symbolic attribute set')
        k = I.force(e.k)
        if not isinstance(k, str):
            raise Unsupported('symbolic attribute name')
        if k not in keys and k not in skip:
            keys.append(k)

    def get(es, k):
        for e in es:
            if I.force(e.k) == k:
                return e.v
        return UNBOUND
    for k in keys:
        def one(k=k):
            u, v = pick(I, get(ex, k)), pick(I, get(ey, k))
            lb = '%s: attribute %s' % (label, k)
            if u is UNBOUND or v is UNBOUND:
                record(I, lb, u is v)
            else:
                record(I, lb, same_goal(I, u, v))
        if isinstance(get(ex, k), GV) or isinstance(get(ey, k), GV):
            _isolated(I, one)
        else:
            one()


def pick(I, v):
    """like force but UNBOUND (absent) is a value"""
    while isinstance(v, GV):
        for c, x in v.alts[:-1]:
            if I.decide(c):
                v = x
                break
        else:
            c = v.alts[-1][0]
            if c is not True and not I.decide(c):
                raise Infeasible()
            v = v.alts[-1][1]
    return v


def match_segs(I, label, xs, ys, skip):
    xs, ys = I.flat(xs), I.flat(ys)
    i = 0
    while i < len(xs) and i < len(ys):
        s, t = xs[i], ys[i]
        if isinstance(s, Item) and isinstance(t, Item):
            a, b = s.v, t.v
            if len(xs) > 1:
                _isolated(I, lambda: match(I, label, a, b, skip))
            else:
                match(I, label, a, b, skip)
            i += 1
            continue
        if isinstance(s, FM) and isinstance(t, FM):
            if not I.entails(to_z3(s.n) == to_z3(t.n)):
                break
            n = s.n
            I.forall_n += 1
            k = z3.Int('i!%d' % I.forall_n)

            def body():
                I.assume(z3.And(k >= 0, k < to_z3(n)))
                match_segs(I, label, subst(s.segs, [(s.k, k)]), subst(t.segs, [(t.k, k)]), skip)
            _isolated(I, body)
            i += 1
            continue
        break
    xs, ys = xs[i:], ys[i:]
    if not xs and not ys:
        return
    if all(isinstance(s, Item) for s in xs + ys):
        record(I, label + ': number of children', False)
        return
    # index-wise
    try:
        n1, n2 = I.seq_len(xs), I.seq_len(ys)
        record(I, label + ': number of children', I.eq(n1, n2))
        I.forall_n += 1
        k = z3.Int('i!%d' % I.forall_n)

        def body2():
            I.assume(z3.And(k >= 0, k < to_z3(n1), k < to_z3(n2)))
            match(I, label, I.seq_get(xs, k), I.seq_get(ys, k), skip)
        if not isinstance(as_const(z3.simplify(to_z3(n1))), int) or as_const(z3.simplify(to_z3(n1))) > 0:
            _isolated(I, body2)
    except Unsupported as e:
        raise Unsupported('%s: children not comparable (%s)' % (label, e))


def stubbed(I, a, kw):
    """the contract uses stand-ins for the pyodrx classes: a refutation counts only when replayed"""
    I.stubbed = True


def integral(I, a, kw):
    return models.integral(I, a[0], I.force(a[1]), I.force(a[2]))


def document(I, a, kw):
    """the tree a written file parses back to, white space between elements dropped: (element, encoding declared, encoding written)"""
    name = I.force(a[0])
    key = name if isinstance(name, str) else str(to_z3(name))
    if key not in I.state.files:
        record(I, 'the file is written', False)
        raise Infeasible()
    nm, mode, enc, parts = I.state.files[key]
    record(I, 'the file is replaced, not extended', 'w' in mode or 'x' in mode)
    return file_tree(I, mode, enc, parts)


def file_tree(I, mode, enc, parts):
    utf = ('utf-8', 'utf8')
    parts = [p for p in parts if p != '']
    declared = None
    body = []
    for p in parts:
        if isinstance(p, str):
            q = p.strip()
            if q == '':
                continue
            import re
            m = re.fullmatch(r'<\?xml version="1.0"(?: encoding="([^"]+)")?\s*\?>', q)
            if m and not body:
                declared = (m.group(1) or 'utf-8').lower()
                continue
            raise Unsupported('text written to the file')
        body.append(p)
    if len(body) != 1:
        record(I, 'exactly one document is written', False)
        raise Infeasible()
    p = body[0]
    if isinstance(p, Bytes):
        if 'b' not in mode:
            record(I, 'bytes are written to a binary file', False)
        # ET and minidom declare the encoding they use
        record(I, 'encoding is one every XML parser knows', p.enc in utf + ('us-ascii', 'ascii', 'utf-16', 'iso-8859-1'))
        if p.removed:
            raise Unsupported('text removed from the serialisation')
        return p.el
    if 'b' in mode:
        record(I, 'text is written to a text file', False)
    e = I.force(enc)
    record(I, 'text is written in the encoding it declares (utf-8 by default), independent of the locale',
           isinstance(e, str) and e.lower().replace('_', '-') in (declared or 'utf-8', 'utf8' if (declared or 'utf-8') == 'utf-8' else declared, 'utf-8' if declared in (None, 'utf8') else declared))
    return p.el


def lib_value(name):
    return Native(name, lambda I, a, kw: models.LIB[name](I, list(a), kw))


def make(I):
    env = {}
    for n, f in dict(any_real=any_real, any_int=any_int, any_bool=any_bool, any_text=any_text, any_size=any_size, any_enum=any_enum, any_none_or=any_none_or,
                     any_case=any_case, any_id=any_id, requires=requires, ensures=ensures, ensures_same=ensures_same, ensures_dir=ensures_dir, ensures_some=ensures_some,
                     ensures_follows=ensures_follows, forall=forall, pairwise=pairwise, ensures_tree=ensures_tree, stubbed=stubbed, integral=integral, document=document).items():
        env[n] = Native(n, f)
    env['SYMBOLIC'] = True
    env['BOUNDED'] = bool(I.sizes)
    I.modules['spec'] = ModuleVal('spec', env)
