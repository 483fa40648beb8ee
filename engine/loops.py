"""Loop rule: a loop over a sequence of symbolic length is executed once at a generic iteration.

For every location the body changes, the executor works out its value at the start of iteration K (the loop
invariant) as an expression over K: running sums, values overwritten in each iteration, appended lists, dict
entries with distinct keys, pointwise updates of families, and, as the general case, a recursively defined
function (fold).  Each closed form is justified by the body itself: the merged effect of one generic iteration
applied to the form at K is the form at K+1.  Exits (return, break, raise) are handled through the first
iteration at which the exit condition holds."""
import z3
from .core import *
from .interp import ReturnEx, BreakEx, ContinueEx, PyRaise, Infeasible

UNROLL_WHILE = 400


class LoopDone(Exception):
    pass


def loop(I, it, body):
    itv = I.force(it)
    segs = I.flat(I.segs_of(itv))
    snapshot = None
    if isinstance(itv, Ref) and I.cell(itv).kind in ('list', 'dict') and not I.cell(itv).vars:
        snapshot = I.cell(itv)
    for s in segs:
        r = loop_seg(I, s, body)
        if r == 'break':
            return 'break'
        if snapshot is not None and I.cell(itv) is not snapshot:
            old, new = snapshot.data, I.cell(itv).data
            key = 'segs' if snapshot.kind == 'list' else 'ents'
            if not same(tuple(old[key]), tuple(new[key])):
                if snapshot.kind == 'list' and all(isinstance(x, Item) for x in tuple(old[key]) + tuple(new[key])) and len(old[key]) == len(new[key]):
                    raise Unsupported('list modified while iterated')
                if snapshot.kind == 'dict' and len(old[key]) == len(new[key]):
                    continue
                raise Unsupported('container modified while iterated')
    return None


def run_segs(I, segs, body):
    for s in I.flat(segs):
        if loop_seg(I, s, body) == 'break':
            return 'break'
    return None


def loop_seg(I, s, body, peeled=0):
    if isinstance(s, FM) and peeled < 1 and not isinstance(as_const(s.n), int):
        saved, nobl, okeys = I.state.copy(), len(I.obligations), set(I.obl_keys)
        try:
            return loop_seg1(I, s, body)
        except Unsupported as e:
            if not str(e).startswith('loop-carried') and not (isinstance(e, OpRead) and 'dict' in str(e)):
                raise
            # the first iteration separately
            I.state = saved
            del I.obligations[nobl:]
            I.obl_keys = okeys
            if not I.decide(to_z3(s.n) >= 1):
                return None
            if run_segs(I, subst(s.segs, [(s.k, z3.IntVal(0))]), body) == 'break':
                return 'break'
            k2 = z3.Int('k!P%d' % I.new_oid())
            rest = FM(as_const(z3.simplify(s.n - 1)), k2, subst(s.segs, [(s.k, k2 + 1)]))
            return loop_seg(I, rest, body, peeled + 1)
    return loop_seg1(I, s, body)


def loop_seg1(I, s, body):
    if isinstance(s, Item):
        try:
            body(s.v)
        except ContinueEx:
            pass
        except BreakEx:
            return 'break'
        return None
    if isinstance(s, FM):
        K = z3.Int('k!L%d' % I.new_oid())
        segs = subst(s.segs, [(s.k, K)])
        n = s.n

        def gen():
            if run_segs(I, segs, body) == 'break':
                raise BreakEx()

        def at(e):
            if run_segs(I, subst(segs, [(K, to_z3(e))]), body) == 'break':
                raise BreakEx()
        return summarise(I, n, K, gen, at)
    raise partial(s, 'loop over a list')


def while_loop(I, cond, body, orelse, st, sc):
    count = 0
    limit = I.while_bound
    while True:
        try:
            c = I.truth_expr(cond_expr(I, st, sc))
        except Unsupported:
            raise
        if isinstance(c, z3.ExprRef):
            c2 = as_const(z3.simplify(c))
            if isinstance(c2, bool):
                c = c2
            elif I.check([c]) == 'unsat':
                c = False
            elif I.check([z3.Not(c)]) == 'unsat':
                c = True
        if not isinstance(c, bool):
            if limit is None:
                break
            c = I.decide(c)
        if not c:
            orelse()
            return
        count += 1
        if count > (limit or UNROLL_WHILE):
            if limit is None:
                raise Unsupported('loop does not end within %d iterations' % UNROLL_WHILE)
            I.truncated = True
            raise Infeasible()
        try:
            body()
        except ContinueEx:
            pass
        except BreakEx:
            return
    K = z3.Int('k!W%d' % I.new_oid())

    def gen():
        if not I.truth(cond_expr(I, st, sc)):
            raise BreakEx()
        body()

    done = [False]

    def at(e):
        if not I.truth(cond_expr(I, st, sc)):
            done[0] = True
            raise BreakEx()
        try:
            body()
        except ContinueEx:
            pass
    summarise(I, None, K, gen, at)
    if done[0]:
        orelse()


def cond_expr(I, st, sc):
    return I.ev(st.test, sc)


def summarise(I, n, K, gen, at):
    """n: number of iterations (None for while), gen: one generic iteration at K, at(e): the iteration at index e"""
    if isinstance(n, z3.ExprRef):
        n = cases(I, n)
    base = I.state
    if n is not None:
        nn = as_const(z3.simplify(n)) if isinstance(n, z3.ExprRef) else n
        if isinstance(nn, int):
            for i in range(max(nn, 0)):
                try:
                    at(i)
                except ContinueEx:
                    pass
                except BreakEx:
                    return 'break'
            return None
        if I.check([to_z3(n) >= 1]) == 'unsat':
            return None
    locs = {}          # (oid, field[, j]) -> kind: 'num' | 'bool' | 'list' | 'dict' | 'opaque'
    sorts = {}
    ph = {}            # loc -> placeholder term
    fam = {}           # (oid, field) of families with pointwise writes
    modes = {}         # (oid, field) -> 'items' | 'op'
    uid = I.new_oid()
    inrange = z3.And(K >= 0, K < to_z3(n)) if n is not None else K >= 0
    loops2 = tuple(base.loops) + (K,)
    SR = SelfRead(I, K, uid, base)
    oid0 = oidmax = I.oid
    for rnd in range(16):
        oidmax = max(oidmax, I.oid)
        I.oid = oid0                   # every round allocates the same names
        I.curK = K
        I.state = st = base.copy()
        st.loops = loops2
        st.pc.append(inrange)
        st.asm.add(len(st.pc) - 1)
        st.reads = []
        install(I, st, base, locs, ph, sorts, loops2, uid, SR)
        start = st
        nobl, okeys = len(I.obligations), set(I.obl_keys)
        try:
            outs = I.explore(gen, limit=400, reset_oid=True)
        except OpRead as e:
            I.state = base
            if e.key is None or e.key[2] != uid or e.key[:2] not in locs or locs[e.key[:2]] != 'list' or e.key[:2] in SR.lists:
                raise
            SR.lists[e.key[:2]] = None
            del I.obligations[nobl:]
            I.obl_keys = okeys
            continue
        I.state = base
        I.curK = K
        changed = False
        normals = [o for o in outs if o.kind == 'normal']
        for o in normals:
            for oid, c in o.state.heap.items():
                c0 = start.heap.get(oid)
                if c0 is None or c is c0:
                    continue
                for f, v in c.data.items():
                    v0 = c0.data.get(f, UNBOUND)
                    if v is v0 or same(v, v0):
                        continue
                    if isinstance(v, FamW) and c.vars and not _prefix(c.vars, loops2):
                        if (oid, f) not in fam:
                            fam[(oid, f)] = True
                        continue
                    if (oid, f) not in locs and is_num(v) and is_num(v0) and unchanged(I, o, v, v0):
                        continue
                    changed |= note(I, base, locs, modes, sorts, ph, oid, f, v0, v, uid)
        if SR.lists and normals:
            unify_paths(outs, start)
            changed |= SR.update(normals, start, len(normals) < len(outs))
        if not changed:
            break
        # obligations met in a round that did not have the final set of loop-carried locations do not count
        del I.obligations[nobl:]
        I.obl_keys = okeys
    else:
        raise Unsupported('loop effects do not stabilise')
    I.oid = max(I.oid, oidmax)
    exits = [o for o in outs if o.kind != 'normal']
    if not normals:
        # every iteration leaves the loop
        if n is None or I.decide(to_z3(n) >= 1):
            try:
                at(0)
            except BreakEx:
                return 'break'
            raise Infeasible()
        return None
    if not SR.lists:
        unify_paths(outs, start)
    guards = SR.guards if SR.lists else [o.guard for o in normals]

    def final(o, oid, f):
        return o.state.heap[oid].data.get(f, UNBOUND)

    # ---- merged effect of one iteration
    eff = {}
    for loc, kind in locs.items():
        vals = []
        for g, o in zip(guards, normals):
            v = final(o, loc[0], loc[1])
            if len(loc) == 3:
                v = v[loc[2]].v
            vals.append((g, v))
        eff[loc] = vals
    closed = {}        # loc -> fn(t): value at the start of iteration t
    M = []             # solved placeholders at K
    init = {}
    for loc in locs:
        v = base.heap[loc[0]].data.get(loc[1], UNBOUND)
        if len(loc) == 3:
            v = v[loc[2]].v
        init[loc] = v
    pending = {}
    oplens = {}
    for loc, kind in locs.items():
        if kind in ('num', 'bool'):
            e = merge(eff[loc])
            if not (is_num(e) or is_bool(e)):
                raise Unsupported('loop-carried variable of changing kind')
            if kind == 'num' and isinstance(e, (bool, z3.BoolRef)):
                raise Unsupported('loop-carried variable of changing kind')
            e = to_z3(e)
            if kind == 'num' and sorts[loc] == z3.RealSort():
                e = to_real(e)
            pending[loc] = e
        elif kind in ('list', 'dict'):
            alts = []
            for g, v in eff[loc]:
                alts.append((g, ('append', SR.back(SR.delta(loc, v, start))) if loc in SR.lists else op_delta(I, loc, v)))
            oplens[loc] = alts
            if loc in SR.lists:
                continue
            mode = alts[0][1][0]
            if any(a[1][0] != mode and a[1][0] != 'same' and mode != 'same' for a in alts):
                raise Unsupported('list changed in different ways')
            if not any(a[1][0] == 'reset' for a in alts):
                d = merge([(g, seqlen(I, kind, a)) for g, a in alts])
                pending[('len',) + loc] = to_z3(I.binop_num('+', ph[loc], d))
            ph[('len',) + loc] = ph[loc]
    phs = {loc: ph[loc] for loc in pending}
    names = {phs[l].decl().name(): l for l in pending}
    init_len = {}
    for loc, kind in locs.items():
        if kind in ('list', 'dict') and loc not in SR.lists:
            v = init[loc]
            init_len[loc] = I.seq_len(v) if kind == 'list' else _dictlen(I, v)

    def init_of(loc):
        if loc[0] == 'len':
            return to_z3(init_len[loc[1:]])
        v = to_z3(init[loc])
        return to_real(v) if sorts.get(loc) == z3.RealSort() else v

    def deps(e):
        return {names[x] for x in syms_of(e) if x in names}

    def solve(loc, fn):
        closed[loc] = fn
        M.append((phs[loc], to_z3(fn(K))))

    progress = True
    while pending and progress:
        progress = False
        for loc in list(pending):
            e = z3.substitute(pending[loc], *M) if M else pending[loc]
            d = deps(e)
            if not d <= {loc}:
                continue
            fn = classify(I, e, phs[loc], loc in d, init_of(loc), K, n)
            if fn is None:
                continue
            solve(loc, fn)
            del pending[loc]
            progress = True
    if pending:
        group_fold(I, pending, phs, M, init_of, K, solve, sorts)
    if n is None:
        nt = z3.Int('m!%d' % I.new_oid()) if not base.loops else z3.Function('m!%d' % I.new_oid(), *([z3.IntSort()] * len(base.loops) + [z3.IntSort()]))(*base.loops)
    else:
        nt = to_z3(n)

    fsub = SR.solver(closed, phs, K)

    def S(v):
        v = subst(v, M)
        return subst(v, fsub) if fsub else v

    for ob in I.obligations[nobl:]:
        ob.pc = [to_z3(S(c)) for c in ob.pc]
        ob.facts = [to_z3(S(f)) for f in ob.facts]
        ob.goal = S(ob.goal)
        ob.data = S(ob.data)

    # ---- facts that hold in every iteration (before the first exit)
    newfacts = []
    for o in normals:
        g = [S(c) for i, c in enumerate(o.pc) if i not in o.asm]
        for i in sorted(o.asm):
            newfacts.append((g, S(o.pc[i])))
        for f in o.state.facts[len(base.facts):]:
            newfacts.append((g, S(f)))

    def write_state(count):
        """install the state after `count` iterations without exit"""
        st = I.state
        for loc, kind in locs.items():
            oid, f = loc[0], loc[1]
            if kind in ('num', 'bool'):
                v = as_const(closed[loc](to_z3(count)))
            elif kind == 'opaque':
                v = carry(I, merge([(S(g), S(x)) for g, x in eff[loc]]), init[loc], K, count)
            elif kind == 'list':
                v = list_after(I, oplens[loc], init[loc], K, count, S)
            else:
                v = dict_after(I, oplens[loc], init[loc], K, count, S)
            c = st.heap[oid]
            if len(loc) == 3:
                v = with_entry(c.data[f], loc[2], v)
            st.heap[oid] = c.with_field(f, v)
        for oid, c in newcells.items():
            st.heap[oid] = Cell(c.kind, c.cls, c.vars, {k: S(v) for k, v in c.data.items()})
        # pointwise writes
        for (oid, f) in fam:
            c = st.heap[oid]
            v = c.data.get(f, UNBOUND)
            b, ws = (v.base, list(v.writes)) if isinstance(v, FamW) else (v, [])
            nold = len(ws)
            for g, o in zip(guards, normals):
                ov = o.state.heap[oid].data.get(f)
                if not isinstance(ov, FamW):
                    continue
                neww = ov.writes[nold:]
                if not neww:
                    continue
                for w in neww:
                    ws.append(bulk(I, c, w, S(g), S, K, count))
            st.heap[oid] = c.with_field(f, FamW(b, tuple(ws)))
        for g, f in newfacts:
            body = z3.Implies(to_z3(conj([K >= 0, K < to_z3(count)] + g)), to_z3(f))
            if not any(K.decl().name() == x for x in syms_of(body)):
                st.facts.append(body)
            else:
                st.facts.append(z3.ForAll([K], body))
        for o in outs:
            st.approx = st.approx or o.state.approx
            for fn_, fv in o.state.files.items():
                if fn_ not in base.files:
                    raise Unsupported('file written in a loop')

    check_family_reads(outs, fam, base, start, K)
    newcells = merge_cells(normals, guards, start)
    if SR.lists:
        newcells = {oid: Cell(c.kind, c.cls, c.vars, {f: SR.back(v) for f, v in c.data.items()}) for oid, c in newcells.items() if oid not in SR.shadows}
        eff = {l: [(g, SR.back(v)) for g, v in vs] for l, vs in eff.items()}
        newfacts += SR.definitions(exits)
    if not exits:
        write_state(n if n is not None else _never())
        return None
    # exit condition at K, given that no earlier iteration left the loop
    X = S(disj([o.guard for o in exits]))
    X = to_z3(X)

    def leave(e):
        # e is chosen as the index of the first exit, if there is one: its defining conditions follow from taking this path
        for c in (z3.And(e >= 0, e < nt) if n is not None else e >= 0, z3.substitute(X, (K, e))):
            I.state.asm.add(len(I.state.pc))
            I.state.pc.append(c)
        write_state(e)
        I.state.facts.append(_forall(K, z3.And(K >= 0, K < e), z3.Not(X)))
        if I.check([]) == 'unsat':
            raise Infeasible()
        try:
            at(e)
        except BreakEx:
            return 'break'
        raise Infeasible()

    if n is None:
        return leave(nt)
    e = z3.Int('e!%d' % I.new_oid()) if not base.loops else z3.Function('e!%d' % I.new_oid(), *([z3.IntSort()] * len(base.loops) + [z3.IntSort()]))(*base.loops)
    b = z3.Bool('x!%d' % I.new_oid()) if not base.loops else z3.Function('x!%d' % I.new_oid(), *([z3.IntSort()] * len(base.loops) + [z3.BoolSort()]))(*base.loops)
    if I.decide(b):
        return leave(e)
    I.state.facts.append(_forall(K, inrange, z3.Not(X)))
    write_state(n)
    return None


def cases(I, n):
    """a count that is one of a few numbers is decided by its conditions"""
    def finite(e):
        if z3.is_int_value(e):
            return True
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            return finite(e.arg(1)) and finite(e.arg(2))
        return k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and all(finite(c) for c in e.children())

    def find(e):
        if e.decl().kind() == z3.Z3_OP_ITE:
            return e
        for c in e.children():
            r = find(c)
            if r is not None:
                return r
    n = z3.simplify(n)
    while not z3.is_int_value(n) and finite(n):
        t = find(n)
        n = z3.simplify(z3.substitute(n, (t, t.arg(1) if I.decide(t.arg(0)) else t.arg(2))))
    return n


def unchanged(I, o, v, v0):
    """candidate invariant: the value is the one before the loop; proved for the generic iteration"""
    from . import prove
    if not is_sym(v):
        return not is_sym(v0) and v == v0
    z, z0 = to_real(v), to_real(v0)
    hyps = [to_z3(c) for c in o.state.pc if c is not True] + list(o.state.facts)
    import random
    env, hit = prove.numeric_refute(I, hyps, z == z0, random.Random(3), 25)
    if env is not None:
        return False
    try:
        class D:
            note = None
        return prove.prove_part(I, hyps, z == z0, 2.0, random.Random(4), D())[0] == 'proved'
    except (prove.NoRing, prove.NoEval, z3.Z3Exception):
        return False


def _never():
    raise Unsupported('while loop without exit')


def _forall(K, rng, body):
    return z3.ForAll([K], z3.Implies(rng, body))


def _prefix(vars_, loops):
    return len(vars_) <= len(loops) and all(a.eq(b) for a, b in zip(vars_, loops))


def _dictlen(I, ents):
    n = 0
    for e in ents:
        n = I.binop_num('+', n, e.n if isinstance(e, (DFM, Op)) else 1)
    return n


def seqlen(I, kind, delta):
    if delta[0] == 'same':
        return 0
    if kind == 'list':
        return I.seq_len(delta[1])
    return _dictlen(I, delta[1])


class SelfRead:
    """lists that a loop reads while it appends to them.

    At the start of iteration K such a list is its initial contents followed by E(0), ..., E(K-1), where E is the delta of
    one iteration.  E is found as a fixpoint: the delta of the previous round is assumed for the iterations before K and must
    be reproduced, for the generic K, by the round itself.  Objects allocated by earlier iterations are seen through shadow
    cells that hold their state at the end of their iteration; changing them is not supported.  The path taken by an
    iteration is named by boolean functions of K, so that E does not contain the conditions of the paths."""

    def __init__(self, I, K, uid, base):
        self.I, self.K, self.uid, self.base = I, K, uid, base
        self.lists = {}              # loc -> delta at K (references to the cells of the iteration), or None
        self.cells = {}              # oid -> Cell: merged cells of one iteration
        self.shadow = {}             # oid -> shadow oid
        self.shadows = {}
        self.guards = []
        self.defs = []

    def to_shadow(self, v):
        def f(r):
            if r.oid not in self.cells:
                return r
            if r.oid not in self.shadow:
                n = 7000000 + 10000 * self.uid + len(self.shadow)
                self.shadow[r.oid] = n
                self.shadows[n] = r.oid
            return Ref(self.shadow[r.oid], r.idx)
        return map_refs(v, f)

    def back(self, v):
        return map_refs(v, lambda r: Ref(self.shadows[r.oid], r.idx) if r.oid in self.shadows else r)

    def prefix(self, loc, init):
        d = self.lists[loc]
        if d is None or d == ():
            return tuple(init)
        kk = z3.Int('k!S%d_%d' % (self.uid, list(self.lists).index(loc)))
        return tuple(init) + (FM(self.K, kk, subst(self.to_shadow(d), [(self.K, kk)])),)

    def install(self, st):
        done = set()
        while True:
            todo = [o for o in self.shadow if o not in done]
            if not todo:
                break
            for o in todo:
                done.add(o)
                c = self.cells[o]
                st.heap[self.shadow[o]] = Cell(c.kind, c.cls, c.vars, {f: self.to_shadow(v) for f, v in c.data.items()})
        if self.guards:
            kk = z3.Int('k!G%d' % self.uid)
            gs = [to_z3(subst(g, [(self.K, kk)])) for g in self.guards]
            body = [z3.Or(*gs)] if len(gs) > 1 else []
            body += [z3.Not(z3.And(a, b)) for i, a in enumerate(gs) for b in gs[i + 1:]] if len(gs) <= 6 else []
            if body and not self.exits:
                st.facts.append(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < self.K), z3.And(*body))))

    def delta(self, loc, v, start):
        pre = start.heap[loc[0]].data[loc[1]]
        if len(v) < len(pre) or not same(tuple(v[:len(pre)]), tuple(pre)):
            raise Unsupported('list read and changed other than by appending in a loop')
        return tuple(v[len(pre):])

    def update(self, normals, start, exits):
        """True when the delta or the cells differ from those assumed"""
        I = self.I
        for o in normals:
            for s in self.shadows:
                if s in start.heap and o.state.heap.get(s) is not start.heap[s]:
                    raise Unsupported('a loop changes an object of an earlier iteration')
        names = []
        self.defs = []
        vars_ = list(self.base.loops) + [self.K]
        for i, o in enumerate(normals):
            g = o.guard
            if len(normals) == 1:
                names.append(True)
                continue
            if not has_quant(g):
                names.append(g)
                continue
            b = z3.Function('g!%d_%d' % (self.uid, i), *([z3.IntSort()] * len(vars_) + [z3.BoolSort()]))(*vars_)
            names.append(b)
            self.defs.append((b, g))
        cells = merge_cells(normals, names, start)
        cells = {o: Cell(c.kind, c.cls, c.vars, {f: self.back(v) for f, v in c.data.items()}) for o, c in cells.items() if o not in self.shadows}
        changed = exits != self.exits
        self.exits = exits
        new = {}
        for loc in self.lists:
            d = self.back(_guarded([(g, self.delta(loc, o.state.heap[loc[0]].data[loc[1]], start)) for g, o in zip(names, normals)]))
            new[loc] = d
            if self.lists[loc] is None or not same(d, self.lists[loc]):
                changed = True
        for o in self.shadow:
            a, b = self.cells.get(o), cells.get(o)
            if a is None or b is None or set(a.data) != set(b.data) or not all(same(a.data[f], b.data[f]) for f in a.data):
                changed = True
        if len(names) != len(self.guards) or not all(same(x, y) for x, y in zip(names, self.guards)):
            changed = True
        self.lists.update(new)
        self.cells = cells
        self.guards = names
        return changed

    exits = True

    def definitions(self, exits):
        return [([], b == to_z3(g)) for b, g in self.defs]

    def solver(self, closed, phs, K):
        """replaces pre!(..., t) for any t by the closed form at t"""
        if not self.lists:
            return None
        subs = []
        T = z3.Int('T!%d' % self.uid)
        for loc, p in phs.items():
            if loc not in closed:
                continue
            body = to_z3(closed[loc](T))
            if any(n in syms_of(body) for n in [q.decl().name() for q in phs.values()]):
                raise Unsupported('mutually dependent values in a loop that reads its own list')
            if has_quant(body):
                continue
            n = p.num_args() - 1
            subs.append((p.decl(), z3.substitute(body, (T, z3.Var(n, z3.IntSort()))), n))
        if not subs:
            return None

        def f(e):
            ns = syms_of(e)
            use = [(d, b) for d, b, n in subs if d.name() in ns]
            return z3.substitute_funs(e, *use) if use else e
        return f


def has_quant(v):
    if not isinstance(v, z3.ExprRef):
        return False
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def install(I, st, base, locs, ph, sorts, loops, uid, SR):
    if SR.lists:
        SR.shadow, SR.shadows = {}, {}
        for loc in SR.lists:
            c = st.heap[loc[0]]
            st.heap[loc[0]] = c.with_field(loc[1], SR.prefix(loc, c.data[loc[1]]))
        SR.install(st)
    for loc, kind in locs.items():
        if loc in SR.lists:
            continue
        oid, f = loc[0], loc[1]
        c = st.heap[oid]
        if kind == 'opaque':
            v = Opaque('%s.%s is read before it is written' % (c.cls.name if c.cls else c.kind, f))
        elif kind in ('num', 'bool'):
            v = ph[loc]
        else:
            v = (Op((oid, f, uid), ph[loc]),)
        if len(loc) == 3:
            v = with_entry(c.data[f], loc[2], v)
        st.heap[oid] = c.with_field(f, v)


def with_entry(segs, j, v):
    segs = list(segs)
    segs[j] = DE(segs[j].k, v) if isinstance(segs[j], DE) else Item(v)
    return tuple(segs)


def plain_key(k):
    return isinstance(k, (str, int)) and not isinstance(k, z3.ExprRef)


def note(I, base, locs, modes, sorts, ph, oid, f, v0, v, uid):
    """record that (oid, f) is modified; True if that is news"""
    b = base.heap[oid]
    binit = b.data.get(f, UNBOUND)
    key = (oid, f)
    if b.kind in ('list', 'elem', 'set') and f in ('segs', 'kids'):
        mode = modes.get(key)
        def pointwise():
            return b.kind == 'list' and isinstance(v, tuple) and len(v) == len(binit) and len(binit) and any(isinstance(s, Item) for s in v) and all(
                (isinstance(s, Item) and isinstance(t, Item)) or s is t or same(s, t) for s, t in zip(v, v0)) and len(v0) == len(binit)
        if mode is None:
            mode = modes[key] = 'items' if pointwise() else 'op'
        if mode == 'items':
            if not pointwise():
                modes[key] = 'op'
                for loc in [l for l in locs if l[:2] == key]:
                    del locs[loc]
                locs[key] = 'list'
                ph[key] = _mkph(I, base, uid, ph, z3.IntSort())
                return True
            ch = False
            for j in range(len(binit)):
                if isinstance(v[j], Item) and not same(v[j].v, v0[j].v):
                    ch |= note_val(I, base, locs, sorts, ph, key + (j,), binit[j].v, v[j].v, uid)
            return ch
        if key not in locs:
            locs[key] = 'list'
            ph[key] = _mkph(I, base, uid, ph, z3.IntSort())
            return True
        return False
    if b.kind == 'dict' and f == 'ents':
        mode = modes.get(key)
        fits = len(v) == len(binit) and all(isinstance(e, DE) and plain_key(e.k) and e.v is not UNBOUND for e in tuple(v) + tuple(binit)) and all(x.k == y.k for x, y in zip(v, binit))
        if mode is None:
            mode = modes[key] = 'items' if len(binit) and fits else 'op'
        if mode == 'items':
            if not fits:
                modes[key] = 'op'
                for loc in [l for l in locs if l[:2] == key]:
                    del locs[loc]
            else:
                ch = False
                for j in range(len(binit)):
                    if not same(v[j].v, v0[j].v):
                        ch |= note_val(I, base, locs, sorts, ph, key + (j,), binit[j].v, v[j].v, uid)
                return ch
        if key not in locs:
            locs[key] = 'dict'
            ph[key] = _mkph(I, base, uid, ph, z3.IntSort())
            return True
        return False
    return note_val(I, base, locs, sorts, ph, key, binit, v, uid)


def _mkph(I, base, uid, ph, sort):
    I.ph_n += 1
    fn = z3.Function('pre!%d_%d' % (uid, I.ph_n), *([z3.IntSort()] * (len(base.loops) + 1) + [sort]))
    return fn(*(list(base.loops) + [I.curK]))


def note_val(I, base, locs, sorts, ph, key, init, v, uid):
    kind = locs.get(key)
    if kind == 'opaque':
        return False
    if is_num(init) and is_num(v):
        want = to_z3(v).sort()
        isort = to_z3(init).sort()
        sort = z3.RealSort() if z3.RealSort() in (want, isort) else z3.IntSort()
        if kind == 'num' and (sorts[key] == sort or sorts[key] == z3.RealSort()):
            return False
        locs[key] = 'num'
        sorts[key] = sort
        ph[key] = _mkph(I, base, uid, ph, sort)
        return True
    if is_bool(init) and is_bool(v):
        if kind == 'bool':
            return False
        locs[key] = 'bool'
        ph[key] = _mkph(I, base, uid, ph, z3.BoolSort())
        return True
    locs[key] = 'opaque'
    return True


def op_delta(I, loc, v):
    """('append'|'prepend'|'same'|'reset', delta)"""
    pos = [i for i, s in enumerate(v) if isinstance(s, Op) and s.key[:2] == (loc[0], loc[1])]
    if not pos:
        return ('reset', v)
    if len(pos) > 1:
        raise Unsupported('list doubled in a loop')
    if len(v) == 1:
        return ('same', ())
    if pos[0] == 0:
        return ('append', tuple(v[1:]))
    if pos[0] == len(v) - 1:
        return ('prepend', tuple(v[:-1]))
    raise Unsupported('list extended at both ends')


def list_after(I, alts, init, K, count, S):
    modes = {a[0] for _, a in alts if a[0] != 'same'}
    if not modes:
        return init
    mode = modes.pop()
    alts = [(S(g), S(a[1])) for g, a in alts]
    if mode == 'reset':
        m = [(K, to_z3(count) - 1)]
        pos = to_z3(count) >= 1
        sub = _guarded(alts)
        sub = tuple(subst(x, m) for x in sub)
        c = as_const(z3.simplify(pos))
        if c is True or I.entails(pos):
            return sub
        return (Gd([(pos, sub), (z3.Not(pos), tuple(init))]),)
    if mode == 'append':
        return tuple(init) + (FM(count, K, _guarded(alts)),)
    segs = _guarded(alts)
    return (FM(count, K, subst(segs, [(K, to_z3(count) - 1 - K)])),) + tuple(init)


def _guarded(alts):
    first = alts[0][1]
    if all(same(first, a) for _, a in alts[1:]):
        return tuple(first)
    # one item each: a single item with a merged value
    if all(len(a) == 1 and isinstance(a[0], Item) for _, a in alts):
        vals = [a[0].v for _, a in alts]
        return (Item(merge([(g, a[0].v) for g, a in alts])),)
    # join alternatives with equal pieces
    out = []
    for g, a in alts:
        for j, (g2, a2) in enumerate(out):
            if same(a, a2):
                out[j] = (disj([g2, g]), a2)
                break
        else:
            out.append((g, a))
    return (Gd(out),)


def dict_after(I, alts, init, K, count, S):
    modes = {a[0] for _, a in alts if a[0] != 'same'}
    if not modes:
        return init
    if modes != {'append'} or any(a[0] == 'same' for _, a in alts):
        raise Unsupported('dict changed conditionally in a loop')
    deltas = [(S(g), S(a[1])) for g, a in alts]
    if len({len(a) for _, a in deltas}) != 1:
        raise Unsupported('dict changed conditionally in a loop')
    ents = list(init)
    for i in range(len(deltas[0][1])):
        es = [(g, a[i]) for g, a in deltas]
        if not all(isinstance(e, DE) for _, e in es):
            raise Unsupported('nested dict loop')
        key = merge([(g, e.k) for g, e in es])
        val = merge([(g, e.v) for g, e in es])
        prove_distinct(I, key, ents, init, K, count)
        ents.append(DFM(count, K, key, val))
    return tuple(ents)


def prove_distinct(I, key, ents, init, K, count):
    K2 = z3.Int('k!d%d' % I.new_oid())
    key2 = subst(key, [(K, K2)])
    pc = [K >= 0, K2 >= 0, K < K2, K2 < to_z3(count)]
    e = I.eq(key, key2)
    if e is not False and I.check([to_z3(c) for c in pc] + [to_z3(e)]) != 'unsat':
        inj = I.injective_facts([key, key2])
        if I.check([to_z3(c) for c in pc] + inj + [to_z3(e)]) != 'unsat':
            raise Unsupported('keys of a dict built in a loop may repeat')
    for x in ents:
        if isinstance(x, DE):
            e = I.eq(x.k, key)
            rng = [K >= 0, K < to_z3(count)]
            if e is not False and I.check([to_z3(c) for c in rng] + [to_z3(e)]) != 'unsat':
                raise Unsupported('keys of a dict built in a loop may repeat')
        elif isinstance(x, DFM):
            e = I.eq(subst(x.key, [(x.k, K2)]), key)
            rng = [K >= 0, K < to_z3(count), K2 >= 0, K2 < to_z3(x.n)]
            inj = I.injective_facts([key, subst(x.key, [(x.k, K2)])])
            if e is not False and I.check([to_z3(c) for c in rng] + inj + [to_z3(e)]) != 'unsat':
                raise Unsupported('keys of a dict built in a loop may repeat')


def carry(I, e, init, K, count):
    """value after the loop of a location overwritten in each iteration"""
    c = to_z3(count)
    pos = as_const(z3.simplify(c >= 1))
    last = subst(e, [(K, c - 1)])
    if pos is True or I.entails(c >= 1):
        return last
    if has_opaque(last):
        return GV([(c >= 1, Opaque('carried value')), (z3.Not(c >= 1), init)]) if init is not UNBOUND else Opaque('carried value')
    return merge([(c >= 1, last), (z3.Not(c >= 1), init)])


def has_opaque(v):
    if isinstance(v, Opaque):
        return True
    if isinstance(v, GV):
        return any(has_opaque(x) for _, x in v.alts)
    return False


def lin(e, P):
    """d with e == P + d, or None"""
    if e.eq(P):
        return z3.IntVal(0) if P.sort() == z3.IntSort() else z3.RealVal(0)
    if not z3.is_app(e):
        return None
    nm = P.decl().name()

    def has(x):
        return nm in syms_of(x)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        ch = e.children()
        w = [c for c in ch if has(c)]
        if len(w) != 1:
            return None
        d = lin(w[0], P)
        if d is None:
            return None
        for c in ch:
            if not c.eq(w[0]):
                d = d + c
        return d
    if k == z3.Z3_OP_SUB:
        a = e.children()
        if has(a[0]) and not any(has(x) for x in a[1:]):
            d = lin(a[0], P)
            if d is None:
                return None
            for x in a[1:]:
                d = d - x
            return d
        return None
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if has(c):
            return None
        da, db = lin(a, P), lin(b, P)
        if da is None or db is None:
            return None
        return z3.If(c, da, db)
    if k == z3.Z3_OP_TO_REAL:
        return None
    return None


def classify(I, e, P, own, init, K, n):
    """closed form of a numeric or boolean location, as a function of the iteration index, or None"""
    if not own:
        if not I.has_sym(e, K) and as_const(z3.simplify(e == init)) is True:
            return lambda t: init

        def over(t):
            t = to_z3(t)
            prev = z3.substitute(e, (K, t - 1))
            c = as_const(z3.simplify(t >= 1))
            if c is True:
                return prev
            if c is False:
                return init
            if not K.eq(t) and I.entails(t >= 1):
                return prev
            return z3.If(t >= 1, prev, init)
        return over
    if P.sort() == z3.BoolSort():
        return classify_bool(I, e, P, init, K)
    d = lin(e, P)
    if d is None:
        d = lin(z3.simplify(e), P)
    if d is None:
        return None
    d = z3.simplify(d)
    I.running_sum(d, K, K)   # may raise
    return lambda t: to_z3(I.binop_num('+', as_const(init), as_const(I.running_sum(d, K, t))))


def classify_bool(I, e, P, init, K):
    t_ = z3.simplify(z3.substitute(e, (P, z3.BoolVal(True))))
    f_ = z3.simplify(z3.substitute(e, (P, z3.BoolVal(False))))
    j = z3.Int('k!b%d' % I.new_oid())
    if z3.is_true(t_):      # P' = P or f_
        def fn(t):
            t = to_z3(t)
            if z3.is_true(z3.simplify(init)):
                return z3.BoolVal(True)
            return z3.Or(init, z3.Exists([j], z3.And(j >= 0, j < t, z3.substitute(f_, (K, j)))))
        return fn
    if z3.is_false(f_):     # P' = P and t_
        def fn(t):
            t = to_z3(t)
            return z3.And(init, z3.Not(z3.Exists([j], z3.And(j >= 0, j < t, z3.Not(z3.substitute(t_, (K, j)))))))
        return fn
    return None


def group_fold(I, pending, phs, M, init_of, K, solve, sorts):
    locs = list(pending)
    steps = []
    for l in locs:
        steps.append(z3.substitute(pending[l], *M) if M else pending[l])
    P = [phs[l] for l in locs]
    cur = [z3.Const('cur!%d%s' % (i, p.sort()), p.sort()) for i, p in enumerate(P)]
    st2 = [z3.substitute(s, *zip(P, cur)) for s in steps]
    key, order, syms, ck, bodies = I.canonical(st2, K, extra=cur)
    key = ('fold',) + key
    nl = len(locs)
    if key not in I.foldkeys:
        fid = len(I.foldkeys)
        inits = [z3.Const('init!%d%s' % (i, p.sort()), p.sort()) for i, p in enumerate(P)]
        fs = [z3.Function('fold!%d_%d' % (fid, i), *([p.sort() for p in P] + [o.sort() for o in order] + [z3.IntSort(), p.sort()])) for i, p in enumerate(P)]
        I.foldkeys[key] = fs
        for i, f in enumerate(fs):
            I.folds[f.name()] = dict(index=i, group=fs, inits=inits, pars=syms, k=ck, cur=cur, steps=bodies)
    fs = I.foldkeys[key]
    ini = [init_of(l) for l in locs]
    for i, l in enumerate(locs):
        def fn(t, i=i):
            t = to_z3(t)
            if z3.is_int_value(t) and t.as_long() <= 0:
                return ini[i]
            return fs[i](*(ini + order + [t]))
        solve(l, fn)


def unify_paths(outs, start):
    """the k-th allocation has the same oid on every path; where kinds differ the later path's cell is renamed"""
    seen = {}
    nxt = [max([0] + [max(o.state.heap) for o in outs]) + 1000000]
    for o in outs:
        ren = {}
        for oid, c in list(o.state.heap.items()):
            if oid in start.heap:
                continue
            s = seen.get(oid)
            if s is None:
                seen[oid] = (c.kind, c.cls, tuple(str(v) for v in c.vars))
            elif s != (c.kind, c.cls, tuple(str(v) for v in c.vars)):
                ren[oid] = nxt[0]
                nxt[0] += 1
        if ren:
            def f(r):
                return Ref(ren[r.oid], r.idx) if r.oid in ren else r
            h = {}
            for oid, c in o.state.heap.items():
                h[ren.get(oid, oid)] = c if oid in start.heap and start.heap[oid] is c else Cell(c.kind, c.cls, c.vars, {k: map_refs(v, f) for k, v in c.data.items()})
            o.state.heap = h
            for oid in ren.values():
                c = h[oid]
                seen[oid] = (c.kind, c.cls, tuple(str(v) for v in c.vars))
            o.val = map_refs(o.val, f) if o.kind != 'raise' else o.val


def merge_cells(normals, guards, start):
    cells = {}
    for g, o in zip(guards, normals):
        for oid, c in o.state.heap.items():
            if oid in start.heap:
                continue
            if c.kind == 'env' and False:
                continue
            cells.setdefault(oid, []).append((g, c))
    out = {}
    for oid, gcs in cells.items():
        c0 = gcs[0][1]
        if len(gcs) == 1:
            out[oid] = c0
            continue
        fields = {}
        for _, c in gcs:
            for f in c.data:
                fields[f] = True
        data = {}
        for f in fields:
            vals = [(g, c.data.get(f, UNBOUND)) for g, c in gcs]
            v0 = vals[0][1]
            if all(same(v0, v) for _, v in vals[1:]):
                data[f] = v0
            elif f in ('segs', 'kids') and c0.kind in ('list', 'elem', 'set'):
                data[f] = merge_segs(vals)
            elif f == 'ents' and c0.kind == 'dict':
                data[f] = merge_ents(vals)
            else:
                data[f] = merge(vals)
        out[oid] = Cell(c0.kind, c0.cls, c0.vars, data)
    return out


def merge_segs(vals):
    # common prefix and suffix stay ungarded
    segs = [list(v) for _, v in vals]
    pre = []
    while all(segs) and all(same(segs[0][0], s[0]) for s in segs[1:]):
        pre.append(segs[0][0])
        for s in segs:
            s.pop(0)
    suf = []
    while all(segs) and all(same(segs[0][-1], s[-1]) for s in segs[1:]):
        suf.insert(0, segs[0][-1])
        for s in segs:
            s.pop()
    if not any(segs):
        return tuple(pre + suf)
    if all(len(s) == len(segs[0]) for s in segs) and all(isinstance(x, Item) for s in segs for x in s):
        mid = [Item(merge([(g, s[i].v) for (g, _), s in zip(vals, segs)])) for i in range(len(segs[0]))]
        return tuple(pre + mid + suf)
    alts = []
    for (g, _), s in zip(vals, segs):
        for j, (g2, s2) in enumerate(alts):
            if same(tuple(s), s2):
                alts[j] = (disj([g2, g]), s2)
                break
        else:
            alts.append((g, tuple(s)))
    return tuple(pre + [Gd(alts)] + suf)


def merge_ents(vals):
    """dict entries under guards: an entry missing on some paths has the value UNBOUND there"""
    keys = []
    for _, v in vals:
        for e in v:
            if not isinstance(e, DE):
                raise Unsupported('merge of symbolic dicts')
            for k in keys:
                if same(k, e.k):
                    break
            else:
                keys.append(e.k)
    if any(not isinstance(k, (str, int)) for k in keys) and len(keys) > 1:
        if not all(all(any(same(k, e.k) for e in v) for k in keys) for _, v in vals):
            raise Unsupported('merge of symbolic dicts')
    out = []
    for k in keys:
        alts = []
        for g, v in vals:
            x = next((e.v for e in v if same(e.k, k)), UNBOUND)
            alts.append((g, x))
        v = merge(alts)
        out.append(DE(k, v))
    return tuple(out)


def check_family_reads(outs, fam, base, start, K):
    if not fam:
        return
    pts = {}
    for o in outs:
        for (oid, f) in fam:
            v = o.state.heap[oid].data.get(f)
            b = base.heap[oid].data.get(f)
            if isinstance(v, FamW):
                nold = len(b.writes) if isinstance(b, FamW) else 0
                for w in v.writes[nold:]:
                    if w.point is None:
                        raise Unsupported('bulk write in a nested loop')
                    pts.setdefault((oid, f), set()).add(tuple(x.sexpr() if isinstance(x, z3.ExprRef) else str(x) for x in w.point))
    for key, p in pts.items():
        if len(p) > 1:
            raise Unsupported('a loop writes a family at several points')
        for o in outs:
            for (oid, name, idx) in (o.state.reads or ()):
                if (oid, name) == key:
                    if tuple(x.sexpr() if isinstance(x, z3.ExprRef) else str(x) for x in idx) not in p:
                        raise Unsupported('a loop reads a family at another point than it writes')


def bulk(I, cell, w, g, S, K, count):
    inv = None
    eqs = []
    for v, e in zip(cell.vars, w.point):
        e = to_z3(e)
        if K.decl().name() in syms_of(e):
            off = z3.simplify(e - K)
            if K.decl().name() not in syms_of(off):
                i = z3.simplify(v - off)
            else:
                off = z3.simplify(e + K)
                if K.decl().name() in syms_of(off):
                    raise Unsupported('family written at an index that is not invertible')
                i = z3.simplify(off - v)
            if inv is None:
                inv = i
            else:
                eqs.append(i == inv)
        else:
            eqs.append(v == e)
    if inv is None:
        raise Unsupported('every iteration writes the same member of a family')
    m = [(K, inv)]
    cond = conj([inv >= 0, inv < to_z3(count)] + eqs + [subst(g, m)])
    return W(as_const(z3.simplify(to_z3(cond))), subst(S(w.val), m), None)
