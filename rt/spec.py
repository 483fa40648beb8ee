"""Concrete meaning of the contract language: inputs are drawn at random (or replayed), contracts are checked at run time
on the real code.  engine/spec.py is the symbolic twin."""
import math
import os
import random
import xml.etree.ElementTree as ET

SYMBOLIC = False
BOUNDED = True


class Rejected(Exception):
    pass


class Ctx:
    rng = random.Random(0)
    values = {}
    used = {}
    given = None
    fails = []
    evaluated = {}
    ids = {}
    consts = []      # numbers that occur in the code under test (name of the input generator's dictionary)
    texts = []


def _dictionary(r, lo, hi, kw, whole=False):
    """a number related to one that occurs in the code, or None"""
    if not Ctx.consts or r.random() > 0.06:
        return None
    new = [c for c, fresh in Ctx.consts if fresh]
    c = r.choice(new) if new and r.random() < 0.7 else r.choice(Ctx.consts)[0]
    if whole:
        v = int(c) + r.choice([0, 0, 1, -1, 2])
        v = v if r.random() < 0.7 else -v
    else:
        v = c * r.choice([1, -1, r.uniform(0, 1), r.uniform(0, 1), -r.uniform(0, 1), r.uniform(1, 2)])
    if (lo is not None and v < lo) or (hi is not None and v > hi) or (kw.get('gt') is not None and v <= kw['gt']) or (kw.get('lt') is not None and v >= kw['lt']) or abs(v) > 1e7:
        return None
    return v


def reset(seed, given=None):
    Ctx.rng = random.Random(seed)
    Ctx.values = {}
    Ctx.ids = {}
    Ctx.given = given
    Ctx.fails = []
    Ctx.evaluated = {}


def _key(name, idx):
    return name + ('(%s)' % ','.join(str(i) for i in idx) if idx else '')


def _draw(name, idx, gen):
    k = _key(name, idx)
    if k in Ctx.values:
        return Ctx.values[k]
    v = None
    if Ctx.given is not None:
        if k in Ctx.given:
            v = Ctx.given[k]
        elif name + '(*)' in Ctx.given:
            v = Ctx.given[name + '(*)']
    if v is None:
        v = gen()
    Ctx.values[k] = v
    return v


def _chk(v, kw):
    if (kw.get('lo') is not None and v < kw['lo']) or (kw.get('hi') is not None and v > kw['hi']) or (kw.get('gt') is not None and v <= kw['gt']) or (kw.get('lt') is not None and v >= kw['lt']):
        raise Rejected()
    return v


def any_real(name, *idx, **kw):
    r = Ctx.rng
    typ = kw.get('typical')

    def gen():
        lo = kw.get('lo', kw.get('gt'))
        hi = kw.get('hi', kw.get('lt'))
        v = _dictionary(r, lo, hi, kw)
        if v is not None:
            return v
        a, b = typ or (-20.0, 20.0)
        if lo is not None:
            a = max(a, lo)
            b = max(b, a + 1)
        if hi is not None:
            b = min(b, hi)
            a = min(a, b)
        nice = [v for v in (0, 0.0, 1, -1, 2, 3, 0.5, -0.25, 10) if (lo is None or v > lo or (v == lo and 'gt' not in kw)) and (hi is None or v < hi or (v == hi and 'lt' not in kw)) and (typ is None or a <= v <= b)]
        c = r.random()
        if nice and c < (0.3 if typ is None else 0.15):
            return r.choice(nice)
        if c < 0.4:
            return round(r.uniform(a, b), 1) if a < round(r.uniform(a, b), 1) < b and round((a + b) / 2, 1) != a else r.uniform(a, b)
        return r.uniform(a, b)
    return _chk(_draw(name, idx, gen), kw)


def any_int(name, *idx, **kw):
    r = Ctx.rng

    def gen():
        lo = kw.get('lo', kw['gt'] + 1 if 'gt' in kw else None)
        hi = kw.get('hi', kw['lt'] - 1 if 'lt' in kw else None)
        v = _dictionary(r, lo, hi, kw, True)
        if v is not None:
            return v
        if lo is None and hi is None:
            lo, hi = -8, 12
        elif lo is None:
            lo = hi - 12
        elif hi is None:
            hi = lo + 8
        return r.randint(lo, hi)
    return _chk(int(_draw(name, idx, gen)), kw)


def any_bool(name, *idx):
    return bool(_draw(name, idx, lambda: Ctx.rng.random() < 0.5))


TEXTS = ['a', 'B', 'name', 'some name', 'x_y', 'None', '0', '7', '-3', '', 'id12', 'Straße', 'a<b>&"c"', "it's", 'ä ö €', 'True', 'two  spaces', '京都', 'e\u0301', '1.50']


def any_text(name, *idx, **kw):
    v = _draw(name, idx, lambda: Ctx.rng.choice(TEXTS if not Ctx.texts or Ctx.rng.random() > 0.06 else Ctx.texts))
    if kw.get('symbol') and (v == '' or _num(v) is not None):
        raise Rejected()
    return v


def any_size(name, lo=0, hi=3):
    def gen():
        v = _dictionary(Ctx.rng, lo, max(lo, 12), {}, True)
        return v if v is not None else Ctx.rng.randint(lo, max(lo, hi + 2))
    v = int(_draw(name, (), gen))
    if v < lo or v > 60:
        raise Rejected()
    return v


def any_enum(cls, name, *idx):
    ms = list(cls)
    c = int(_draw(name, idx, lambda: Ctx.rng.randrange(len(ms))))
    if not 0 <= c < len(ms):
        raise Rejected()
    return ms[c]


def any_none_or(name, value, *idx):
    return None if _draw(name, idx, lambda: Ctx.rng.random() < 0.4) else value


def any_case(name, n, *idx):
    c = int(_draw(name, idx, lambda: Ctx.rng.randrange(n)))
    if not 0 <= c < n:
        raise Rejected()
    return c


def any_id(name, *idx, **kw):
    used = Ctx.ids.setdefault(name, {})
    k = _key(name, idx)
    if k in used:
        return used[k]

    def gen():
        while True:
            lo = kw.get('lo', -5 if 'gt' not in kw else kw['gt'] + 1)
            v = Ctx.rng.randint(lo, lo + 30 + 2 * len(used))
            if v not in used.values():
                return v
    v = int(_draw(name, idx, gen))
    if v in used.values():
        raise Rejected()
    used[k] = v
    return _chk(v, kw)


def requires(c):
    if not c:
        raise Rejected()


def _num(v):
    if isinstance(v, bool):
        return None
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


TOL = 1e-6


def close(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, str) != isinstance(b, str):
        return False
    x, y = _num(a), _num(b)
    if x is None or y is None:
        return a == b
    if isinstance(a, str) and ('nan' in a.lower() or 'inf' in a.lower()):
        return a == b
    if x == y:
        return True
    if isinstance(a, str):
        return abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))
    return abs(x - y) <= TOL * (1 + abs(x) + abs(y))


def _rec(label, ok, why=''):
    Ctx.evaluated[label] = Ctx.evaluated.get(label, 0) + 1
    if not ok:
        Ctx.fails.append((label, why))


def ensures(label, cond):
    _rec(label, bool(cond))


def ensures_same(label, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        ok = len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    else:
        ok = close(a, b)
    _rec(label, ok, '%r != %r' % (a, b))


def ensures_dir(label, a, b):
    ok = abs(math.sin(a) - math.sin(b)) < 1e-5 and abs(math.cos(a) - math.cos(b)) < 1e-5
    _rec(label, ok, '%r and %r differ modulo 2 pi' % (a, b))


def _dir(a, b):
    return abs(math.sin(a) - math.sin(b)) < 1e-5 and abs(math.cos(a) - math.cos(b)) < 1e-5


def ensures_some(label, alternatives):
    ok = any(all(_dir(t[0], t[1]) if len(t) == 3 else close(t[0], t[1]) for t in alt) for alt in alternatives)
    _rec(label, ok, 'none of %r' % (alternatives,))


def integral(f, a, b):
    from scipy.integrate import quad
    return quad(f, a, b, limit=400)[0]


def ensures_follows(label, s, start, end, heading):
    turn = sum(abs(heading(s * (i + 1) / 8) - heading(s * i / 8)) for i in range(8))
    if turn > 3000:
        raise Rejected()          # beyond what the numerical integration below settles
    n = min(1 + int(turn + s / 10), 400)
    x, y = start
    for i in range(n):
        lo, hi = s * i / n, s * (i + 1) / n
        x += integral(lambda u: math.cos(heading(u)), lo, hi)
        y += integral(lambda u: math.sin(heading(u)), lo, hi)
    ok = abs(x - end[0]) <= 1e-5 * (1 + s) and abs(y - end[1]) <= 1e-5 * (1 + s)
    _rec(label, ok, 'reaches %r, the curve ends at %r' % (end, (x, y)))


def forall(n, fn, lo=0):
    for i in range(lo, n):
        fn(i)


def pairwise(label, xs, ys, fn):
    ok = len(xs) == len(ys)
    _rec(label + ': equally many', ok, '%d and %d' % (len(xs), len(ys)))
    if ok:
        for x, y in zip(xs, ys):
            fn(x, y)


def ensures_tree(label, a, b, skip=()):
    Ctx.evaluated[label] = Ctx.evaluated.get(label, 0) + 1
    d = _diff(a, b, skip)
    if d:
        Ctx.fails.append((label, d))


def _text(t):
    return (t or '').strip()


def _diff(a, b, skip):
    if a.tag != b.tag:
        return 'element %s instead of %s' % (a.tag, b.tag)
    x, y = {k: v for k, v in a.attrib.items() if k not in skip}, {k: v for k, v in b.attrib.items() if k not in skip}
    if set(x) != set(y):
        return '%s has attributes %s instead of %s' % (a.tag, sorted(x), sorted(y))
    for k in x:
        if not close(x[k], y[k]):
            return '%s/@%s is %r instead of %r' % (a.tag, k, x[k], y[k])
    if _text(a.text) != _text(b.text):
        return '%s has text %r instead of %r' % (a.tag, a.text, b.text)
    if [c.tag for c in a] != [c.tag for c in b]:
        return '%s has children %s instead of %s' % (a.tag, [c.tag for c in a], [c.tag for c in b])
    for c, d in zip(a, b):
        r = _diff(c, d, skip)
        if r:
            return a.tag + '/' + r
    return None


def stubbed():
    pass


def document(name):
    _rec('the file is written', os.path.isfile(name))
    try:
        t = ET.parse(name).getroot()
    except ET.ParseError as e:
        _rec('the written file is well-formed XML', False, str(e))
        raise Rejected()
    _rec('the written file is well-formed XML', True)
    return t
