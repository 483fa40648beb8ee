"""Symbolic interpreter for the Python subset used by the code under verification and by the contracts."""
import ast
import os
from fractions import Fraction
import z3
from .core import *
from . import core

FUEL = 400000


def strip_conv(t):
    """drop the injective conversions int -> real -> text"""
    while z3.is_app(t) and (t.decl().name() == 'tnum' or t.decl().kind() == z3.Z3_OP_TO_REAL):
        t = t.arg(0)
    return t


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyRaise(Exception):
    """a Python exception of the interpreted program; exc is a Ref to the exception object"""
    def __init__(self, exc, cls, msg=''):
        self.exc, self.cls, self.msg = exc, cls, msg


def exact_div(e, m):
    """e / m when e is a sum of multiples of m, else None"""
    e = z3.simplify(e, som=True)
    if z3.is_int_value(e):
        return z3.IntVal(e.as_long() // m) if e.as_long() % m == 0 else None
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        qs = [exact_div(c, m) for c in e.children()]
        return None if any(q is None for q in qs) else z3.simplify(z3.Sum(*qs))
    if k == z3.Z3_OP_MUL and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() % m == 0:
        return z3.simplify(z3.Product(*([z3.IntVal(e.arg(0).as_long() // m)] + list(e.children()[1:]))))
    return None


class Outcome:
    __slots__ = ('kind', 'val', 'state', 'pc', 'asm', 'nbase')

    def __init__(self, kind, val, state, nbase):
        self.kind, self.val, self.state, self.nbase = kind, val, state, nbase
        self.pc = state.pc[nbase:]
        self.asm = {i - nbase for i in state.asm if i >= nbase}

    @property
    def guard(self):
        return conj([c for i, c in enumerate(self.pc) if i not in self.asm])


class Interp:
    def __init__(self, roots, base_facts=()):
        self.roots = roots                # package name -> directory
        self.modules = {}
        self.state = State()
        self.base_facts = list(base_facts)
        self.oid = 0
        self.fresh_n = 0
        self.trace = None
        self.stack = None
        self.depth = 0
        self.calldepth = 0
        self.steps = 0
        self.localcache = {}
        self.sat_cache = {}
        self.nonlin = {}
        self.stats = dict(feas=0, feas_s=0.0, paths=0)
        self.inlined = set()              # functions of the repository that were executed
        self.classes = {}
        self.sums = {}                    # canonical running sums
        self.folds = {}                   # UF name -> fold definition
        self.foldkeys = {}
        self.while_bound = None           # unroll while loops up to this bound (bounded mode)
        self.truncated = False
        self.injective = set()            # names of injective input functions
        self.owner_stack = []
        self.max_paths = 4000
        self.stub_calls = {}
        from . import models
        models.install(self)

    # ------------------------------------------------------------ allocation / heap
    def new_oid(self):
        self.oid += 1
        return self.oid

    def fresh(self, name, sort):
        self.fresh_n += 1
        nm = '%s!%d' % (name, self.fresh_n)
        loops = self.state.loops
        if loops:
            f = z3.Function(nm, *([z3.IntSort()] * len(loops) + [sort]))
            return f(*loops)
        return z3.Const(nm, sort)

    def alloc(self, kind, cls, data):
        oid = self.new_oid()
        loops = self.state.loops
        self.state.heap[oid] = Cell(kind, cls, loops, data)
        return Ref(oid, tuple(loops))

    def cell(self, ref):
        try:
            return self.state.heap[ref.oid]
        except KeyError:
            raise Unsupported('dangling reference')

    def _map(self, cell, idx):
        m = []
        for v, e in zip(cell.vars, idx):
            if isinstance(e, z3.ExprRef) and v.eq(e):
                continue
            m.append((v, to_z3(e)))
        return m

    def read(self, ref, name, default=UNBOUND):
        c = self.cell(ref)
        if name not in c.data:
            return default
        v = c.data[name]
        if not c.vars:
            return v
        m = self._map(c, ref.idx)
        if isinstance(v, FamW):
            for w in reversed(v.writes):
                cond = subst(w.cond, m)
                if isinstance(cond, z3.ExprRef):
                    cond = as_const(z3.simplify(cond))
                if cond is True or (cond is not False and self.decide(cond)):
                    return subst(w.val, m)
            if self.state.reads is not None:
                self.state.reads.append((ref.oid, name, ref.idx))
            return subst(v.base, m)
        if self.state.reads is not None and m:
            self.state.reads.append((ref.oid, name, ref.idx))
        elif self.state.reads is not None:
            self.state.reads.append((ref.oid, name, ref.idx))
        return subst(v, m)

    def write(self, ref, name, val):
        c = self.cell(ref)
        if not c.vars:
            self.state.heap[ref.oid] = c.with_field(name, val)
            return
        m = self._map(c, ref.idx)
        if not m:
            self.state.heap[ref.oid] = c.with_field(name, val)
            return
        old = c.data.get(name, UNBOUND)
        conds = [v == to_z3(e) for v, e in zip(c.vars, ref.idx)]
        w = W(conj(conds), val, tuple(ref.idx))
        if isinstance(old, FamW):
            nv = FamW(old.base, old.writes + (w,))
        else:
            nv = FamW(old, (w,))
        self.state.heap[ref.oid] = c.with_field(name, nv)

    def new_list(self, values):
        return self.alloc('list', None, {'segs': tuple(Item(v) for v in values)})

    def new_list_segs(self, segs):
        return self.alloc('list', None, {'segs': tuple(segs)})

    def new_dict(self, items=()):
        return self.alloc('dict', None, {'ents': tuple(DE(k, v) for k, v in items)})

    # ------------------------------------------------------------ solving
    def check(self, conds, timeout=1500):
        """sat / unsat / unknown of the conjunction of conds with the path condition"""
        import time
        cs = [c for c in list(self.state.pc) + list(conds)]
        if any(c is False for c in cs):
            return 'unsat'
        cs = [to_z3(c) for c in cs if c is not True]
        key = (tuple(sorted(c.get_id() for c in cs)), tuple(f.get_id() for f in self.state.facts))
        hit = self.sat_cache.get(key)
        if hit is not None:
            return hit[0]
        t = time.time()
        s = z3.Solver()
        s.set('timeout', min(timeout, 400) if self.state.facts else timeout)
        # products of unknowns are left out where the question has none: fewer hypotheses can only keep a path alive
        drop = bool(self.state.facts) and not any(self.nonlinear(to_z3(c)) for c in conds if c is not True)
        for c in cs:
            if not (drop and self.nonlinear(c)):
                s.add(c)
        for f in self.base_facts:
            s.add(f)
        if self.state.facts:
            s.set('smt.mbqi', False)
            for f in self.state.facts:
                if not (drop and self.nonlinear(f)):
                    s.add(f)
        r = str(s.check())
        self.stats['feas'] += 1
        self.stats['feas_s'] += time.time() - t
        self.sat_cache[key] = (r, cs, list(self.state.facts))     # keeps the terms alive, so ids stay unique
        return r

    def nonlinear(self, e):
        k = e.get_id()
        hit = self.nonlin.get(k)
        if hit is not None:
            return hit[0]
        r = False
        if z3.is_quantifier(e):
            r = self.nonlinear(e.body())
        elif z3.is_app(e):
            kd = e.decl().kind()
            ch = e.children()
            if kd == z3.Z3_OP_MUL:
                r = sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) > 1 and z3.is_real(e)
            elif kd == z3.Z3_OP_DIV:
                r = not z3.is_rational_value(ch[1])
            r = r or any(self.nonlinear(c) for c in ch)
        self.nonlin[k] = (r, e)
        return r

    def assume(self, cond):
        """a precondition: true on every path"""
        if cond is True:
            return
        c2 = as_const(z3.simplify(cond)) if isinstance(cond, z3.ExprRef) else cond
        if c2 is True:
            return
        if c2 is False or self.check([cond]) == 'unsat':
            raise Infeasible()
        self.state.asm.add(len(self.state.pc))
        self.state.pc.append(cond)

    def entails(self, cond):
        if isinstance(cond, bool):
            return cond
        cond2 = as_const(z3.simplify(cond))
        if isinstance(cond2, bool):
            return cond2
        return self.check([z3.Not(cond)]) == 'unsat'

    def decide(self, cond):
        """branch on a z3 condition"""
        if isinstance(cond, bool):
            return cond
        c2 = as_const(z3.simplify(cond))
        if isinstance(c2, bool):
            return c2
        if self.trace is None:
            raise Unsupported('branch outside of an exploration')
        pos = len(self.trace)
        if pos < len(self.prefix):
            ch, forced = self.prefix[pos]
            self.trace.append((ch, forced))
            if not forced:
                self.state.pc.append(cond if ch else z3.Not(cond))
            return ch
        t = self.check([cond])
        f = self.check([z3.Not(cond)]) if t != 'unsat' else 'sat'
        if t == 'unsat':
            if self.check([z3.Not(cond)]) == 'unsat':
                raise Infeasible()
            self.trace.append((False, True))
            return False
        if f == 'unsat':
            self.trace.append((True, True))
            return True
        self.stack.append(self.trace + [(False, False)])
        self.trace.append((True, False))
        self.state.pc.append(cond)
        return True

    def choose(self, n, label='choice'):
        """nondeterministic choice 0..n-1 recorded as a symbolic integer (used for guarded values)"""
        raise Unsupported('choose')

    def force(self, v):
        while isinstance(v, GV):
            for c, x in v.alts[:-1]:
                if self.decide(c):
                    v = x
                    break
            else:
                # exhaustive: the last alternative
                self_c = v.alts[-1][0]
                if self_c is not True:
                    c2 = as_const(z3.simplify(self_c))
                    if c2 is False:
                        raise Infeasible()
                    if c2 is not True and self.check([self_c]) == 'unsat':
                        raise Infeasible()
                    if c2 is not True:
                        self.state.pc.append(self_c)
                v = v.alts[-1][1]
        if v is UNBOUND:
            self.raise_('UnboundLocalError', 'unbound')
        if isinstance(v, Opaque):
            raise Unsupported('loop-carried value: ' + v.why)
        return v

    def explore(self, fn, limit=None, reset_oid=False):
        """run fn on all paths from the current state; the current state is restored"""
        limit = limit or self.max_paths
        oid0 = oidmax = self.oid
        base = self.state
        sv = (self.trace, getattr(self, 'prefix', None), self.stack, self.calldepth, list(self.owner_stack))
        outs = []
        stack = [[]]
        try:
            while stack:
                self.prefix = stack.pop()
                self.trace = []
                self.stack = stack
                self.state = base.copy()
                self.calldepth = sv[3]
                self.owner_stack = list(sv[4])
                if reset_oid:
                    oidmax = max(oidmax, self.oid)
                    self.oid = oid0
                try:
                    r = fn()
                    kind, val = 'normal', r
                except ReturnEx as e:
                    kind, val = 'return', e.v
                except BreakEx:
                    kind, val = 'break', None
                except ContinueEx:
                    kind, val = 'normal', None
                except PyRaise as e:
                    kind, val = 'raise', e
                except Infeasible:
                    continue
                outs.append(Outcome(kind, val, self.state, len(base.pc)))
                self.stats['paths'] += 1
                if len(outs) > limit:
                    raise Unsupported('more than %d paths' % limit)
        finally:
            self.trace, self.prefix, self.stack, self.calldepth = sv[:4]
            self.owner_stack = sv[4]
            self.state = base
            self.oid = max(self.oid, oidmax)
        return outs

    # ------------------------------------------------------------ exceptions
    def raise_(self, clsname, msg=''):
        cls = self.classes[clsname]
        ref = self.alloc('obj', cls, {'args': (msg,)})
        raise PyRaise(ref, cls, msg)

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        parts = name.split('.')
        root = parts[0]
        if root not in self.roots:
            from . import models
            m = models.library(self, name)
            if m is None:
                raise Unsupported('module %s is not modelled' % name)
            self.modules[name] = m
            return m
        path = os.path.join(self.roots[root], *parts[1:])
        if os.path.isdir(path):
            fn, pkg = os.path.join(path, '__init__.py'), name
        else:
            fn, pkg = path + '.py', name.rsplit('.', 1)[0]
        if not os.path.exists(fn):
            raise Unsupported('no module ' + name)
        with open(fn, 'rb') as f:
            tree = ast.parse(f.read(), fn)
        mod = ModuleVal(name, {})
        mod.pkg = pkg
        mod.file = fn
        mod.env['__name__'] = name
        self.modules[name] = mod
        saved = self.trace, self.state.loops
        for st in tree.body:
            self.exec_stmt(st, Scope(None, [], mod))
        if '.' in name:
            par = self.modules.get(name.rsplit('.', 1)[0])
            if par is not None:
                par.env.setdefault(parts[-1], mod)
        return mod

    def exec_import(self, st, sc):
        mod = sc.module
        if isinstance(st, ast.Import):
            for a in st.names:
                m = self.load_module(a.name)
                if a.asname:
                    self.assign_name(a.asname, m, sc)
                else:
                    top = a.name.split('.')[0]
                    tm = m if '.' not in a.name else self.load_module(top)
                    self.assign_name(top, tm, sc)
            return
        base = st.module or ''
        if st.level:
            pkg = mod.pkg.split('.')
            pkg = pkg[:len(pkg) - (st.level - 1)]
            base = '.'.join(pkg + ([base] if base else []))
        if base == '__future__':
            return
        m = self.load_module(base)
        for a in st.names:
            if a.name == '*':
                for k, v in list(m.env.items()):
                    if not k.startswith('_'):
                        self.assign_name(k, v, sc)
                continue
            if a.name in m.env:
                v = m.env[a.name]
            else:
                try:
                    v = self.load_module(base + '.' + a.name)
                except Unsupported:
                    raise Unsupported('cannot import %s from %s' % (a.name, base))
            self.assign_name(a.asname or a.name, v, sc)

    # ------------------------------------------------------------ scopes
    def assign_name(self, name, v, sc):
        if sc.env is None:
            sc.module.env[name] = v
        elif sc.nonlocals and name in sc.nonlocals:
            for e in sc.closure:
                if name in self.cell(e).data:
                    self.write(e, name, v)
                    return
            raise Unsupported('nonlocal ' + name)
        else:
            self.write(sc.env, name, v)

    def lookup(self, name, sc):
        if sc.env is not None:
            v = self.read(sc.env, name, None) if name in self.cell(sc.env).data else UNBOUND
            if v is not UNBOUND:
                return v
            if name in sc.locals:
                self.raise_('UnboundLocalError', name)
        for e in sc.closure:
            if name in self.cell(e).data:
                v = self.read(e, name)
                if v is not UNBOUND:
                    return v
        if name in sc.module.env:
            return sc.module.env[name]
        b = self.builtins.get(name, UNBOUND)
        if b is not UNBOUND:
            return b
        self.raise_('NameError', name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, sc):
        for st in body:
            self.exec_stmt(st, sc)

    def exec_stmt(self, st, sc):
        self.steps += 1
        if self.steps > FUEL * 50:
            raise Unsupported('out of fuel')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st, sc)

    def s_Expr(self, st, sc):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, sc)

    def s_Pass(self, st, sc):
        pass

    def s_Import(self, st, sc):
        self.exec_import(st, sc)

    s_ImportFrom = s_Import

    def s_Global(self, st, sc):
        raise Unsupported('global statement')

    def s_Nonlocal(self, st, sc):
        sc.nonlocals = (sc.nonlocals or set()) | set(st.names)

    def s_Assign(self, st, sc):
        v = self.ev(st.value, sc)
        for t in st.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, sc), sc)

    def s_AugAssign(self, st, sc):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, sc)
            v = self.aug(st.op, old, self.ev(st.value, sc))
            self.assign_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value, sc))
            old = self.getattr(o, t.attr)
            v = self.aug(st.op, old, self.ev(st.value, sc))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, sc))
            k = self.ev(t.slice, sc)
            old = self.getitem(o, k)
            v = self.aug(st.op, old, self.ev(st.value, sc))
            self.setitem(o, k, v)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, old, v):
        old = self.force(old)
        if isinstance(op, ast.Add) and isinstance(old, Ref) and self.cell(old).kind == 'list':
            self.write(old, 'segs', self.read(old, 'segs') + self.segs_of(self.force(v)))
            return old
        return self.binop(op, old, v)

    def s_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.write(sc.env, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, sc))
                self.delitem(o, self.ev(t.slice, sc))
            else:
                raise Unsupported('del')

    def s_Return(self, st, sc):
        raise ReturnEx(None if st.value is None else self.ev(st.value, sc))

    def s_Break(self, st, sc):
        raise BreakEx()

    def s_Continue(self, st, sc):
        raise ContinueEx()

    def s_If(self, st, sc):
        if self.truth(self.ev(st.test, sc)):
            self.exec_block(st.body, sc)
        else:
            self.exec_block(st.orelse, sc)

    def s_Assert(self, st, sc):
        if not self.truth(self.ev(st.test, sc)):
            self.raise_('AssertionError', '')

    def s_Raise(self, st, sc):
        if st.exc is None:
            if not sc.handling:
                raise Unsupported('bare raise')
            raise sc.handling[-1]
        v = self.force(self.ev(st.exc, sc))
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        c = self.cell(v)
        raise PyRaise(v, c.cls, c.data.get('args', ()))

    def s_Try(self, st, sc):
        try:
            try:
                self.exec_block(st.body, sc)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.ev(h.type, sc)):
                        if h.name:
                            self.assign_name(h.name, e.exc, sc)
                        sc.handling.append(e)
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            sc.handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, sc)
        except Infeasible:
            raise
        except Unsupported:
            raise
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if st.finalbody:
                self.exec_block(st.finalbody, sc)
            raise
        else:
            self.exec_block(st.finalbody, sc)

    def exc_matches(self, e, t):
        t = self.force(t)
        ts = t if isinstance(t, tuple) else (t,)
        return any(x in e.cls.mro for x in ts)

    def s_With(self, st, sc):
        exits = []
        for it in st.items:
            v = self.force(self.ev(it.context_expr, sc))
            ent = self.call(self.getattr(v, '__enter__'), [], {})
            exits.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, sc)
        try:
            self.exec_block(st.body, sc)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            for v in reversed(exits):
                self.call(self.getattr(v, '__exit__'), [None, None, None], {})
            raise
        else:
            for v in reversed(exits):
                self.call(self.getattr(v, '__exit__'), [None, None, None], {})

    def s_FunctionDef(self, st, sc):
        fn = self.make_func(st, sc)
        for d in reversed(st.decorator_list):
            dv = self.ev(d, sc)
            if dv is self.builtins['staticmethod']:
                fn.kind = 'static'
            elif dv is self.builtins['classmethod']:
                fn.kind = 'class'
            elif dv is self.builtins['property']:
                fn.kind = 'property'
            else:
                raise Unsupported('decorator')
        self.assign_name(st.name, fn, sc)
        return fn

    def make_func(self, st, sc, name=None):
        a = st.args
        defaults = [self.ev(d, sc) for d in a.defaults]
        kwd = [None if d is None else (self.ev(d, sc),) for d in a.kw_defaults]
        envs = ([sc.env] if sc.env is not None else []) + list(sc.closure)
        return FuncVal(name or st.name, st, envs, sc.module, defaults, kwd)

    def s_ClassDef(self, st, sc):
        bases = [self.force(self.ev(b, sc)) for b in st.bases] or [self.classes['object']]
        if st.keywords or st.decorator_list:
            raise Unsupported('class keywords/decorators')
        saved = self.state.loops
        oid = self.new_oid()
        cls = ClassVal(st.name, bases, oid, sc.module)
        self.state.heap[oid] = Cell('class', cls, (), {})
        cls.ref = Ref(oid)
        csc = Scope(cls.ref, list(([sc.env] if sc.env is not None else []) + sc.closure), sc.module)
        csc.is_class = True
        is_enum = self.classes['Enum'] in cls.mro
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                # the class scope is not visible in methods
                fsc = Scope(sc.env, sc.closure, sc.module)
                fn = self.make_func(s, fsc)
                fn.owner = cls
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                        fn.kind = {'staticmethod': 'static', 'classmethod': 'class', 'property': 'property'}[d.id]
                    else:
                        raise Unsupported('decorator')
                self.write(cls.ref, s.name, fn)
            else:
                self.exec_stmt(s, csc)
        if is_enum:
            names = [k for k, v in self.cell(cls.ref).data.items() if not isinstance(v, FuncVal) and not k.startswith('_')]
            cls.members = names
            for i, k in enumerate(names):
                self.write(cls.ref, k, SEnum(cls, i))
        self.assign_name(st.name, cls, sc)

    def s_For(self, st, sc):
        it = self.ev(st.iter, sc)
        broke = [False]

        def body(v):
            self.assign(st.target, v, sc)
            self.exec_block(st.body, sc)
        r = self.loop(it, body)
        if r != 'break':
            self.exec_block(st.orelse, sc)

    def s_While(self, st, sc):
        self.while_loop(lambda: self.truth(self.ev(st.test, sc)), lambda: self.exec_block(st.body, sc),
                        lambda: self.exec_block(st.orelse, sc), st, sc)

    # ------------------------------------------------------------ assignment targets
    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.force(self.ev(t.value, sc)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.force(self.ev(t.value, sc)), self.ev(t.slice, sc), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.concrete_items(self.force(v))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            if len(vals) != len(t.elts):
                self.raise_('ValueError', 'unpack')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, sc)
        else:
            raise Unsupported('target %s' % type(t).__name__)

    def concrete_items(self, v):
        """the items of a sequence whose length is concrete"""
        segs = self.segs_of(v)
        out = []
        for s in self.flat(segs):
            if not isinstance(s, Item):
                raise Unsupported('sequence of symbolic length')
            out.append(s.v)
        return out

    def flat(self, segs):
        """resolve guarded segments and FMs of concrete length"""
        out = []
        for s in segs:
            if isinstance(s, Gd):
                for c, sub in s.alts[:-1]:
                    if self.decide(c):
                        break
                else:
                    sub = s.alts[-1][1]
                    c = s.alts[-1][0]
                    if isinstance(c, z3.ExprRef):
                        if self.check([c]) == 'unsat':
                            raise Infeasible()
                        self.state.pc.append(c)
                out.extend(self.flat(sub))
            elif isinstance(s, FM):
                n = as_const(z3.simplify(s.n)) if isinstance(s.n, z3.ExprRef) else s.n
                if isinstance(n, int):
                    for i in range(max(0, n)):
                        out.extend(self.flat(subst(s.segs, [(s.k, z3.IntVal(i))])))
                else:
                    out.append(s)
            else:
                out.append(s)
        return out

    def segs_of(self, v):
        """segments of any iterable value"""
        v = self.force(v)
        if isinstance(v, tuple):
            return tuple(Item(x) for x in v)
        if isinstance(v, str):
            return tuple(Item(c) for c in v)
        if isinstance(v, RangeVal):
            return self.range_segs(v)
        if isinstance(v, ClassVal) and v.members is not None:
            return tuple(Item(SEnum(v, i)) for i in range(len(v.members)))
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind == 'list':
                return self.read(v, 'segs')
            if c.kind == 'dict':
                return tuple(Item(e.k) if isinstance(e, DE) else self.dfm_seg(e, e.key) for e in self.norm_ents(v))
            if c.kind == 'elem':
                return self.read(v, 'kids')
            if c.kind == 'set':
                out = []
                for x in self.flat(self.read(v, 'segs')):
                    if not isinstance(x, Item):
                        raise Unsupported('iteration over a symbolic set')
                    if not any(self.decide(self.eq(x.v, y.v)) for y in out):
                        out.append(x)
                return tuple(out)
            if c.kind == 'obj':
                it = self.find_attr(c.cls, '__iter__')
                if it is not None:
                    return self.segs_of(self.call(Bound(v, it), [], {}))
        raise Unsupported('iteration over %r' % (v,))

    def dfm_seg(self, e, v):
        return FM(e.n, e.k, (Item(v),)) if isinstance(e, DFM) else e

    def range_segs(self, r):
        a, b, s = r.start, r.stop, r.step
        if all(isinstance(x, int) for x in (a, b, s)):
            n = len(range(a, b, s))
            if n <= 64:
                return tuple(Item(i) for i in range(a, b, s))
            k = z3.Int('k!r%d' % self.new_oid())
            return (FM(n, k, (Item(as_const(z3.simplify(a + k * s))),)),)
        if not isinstance(s, int) or s == 0:
            raise Unsupported('symbolic range step')
        d = self.binop_num('-', b, a) if s > 0 else self.binop_num('-', a, b)
        q = abs(s)
        if q != 1:
            d = (to_z3(d) + (q - 1)) / z3.IntVal(q)
        n = as_const(z3.simplify(to_z3(d)))
        if isinstance(n, int):
            n = max(0, n)
        elif not self.entails(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        if isinstance(n, int) and n <= 64:
            return tuple(Item(self.num_simplify(to_z3(a) + i * s)) for i in range(n))
        k = z3.Int('k!r%d' % self.new_oid())
        return (FM(n, k, (Item(self.num_simplify(to_z3(a) + k * s)),)),)

    def num_simplify(self, e):
        return as_const(z3.simplify(e)) if isinstance(e, z3.ExprRef) else e

    # ------------------------------------------------------------ expressions
    def ev(self, e, sc):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite float')
            return Fraction(repr(v))
        if isinstance(v, complex):
            return Cplx(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        return v

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Attribute(self, e, sc):
        return self.getattr(self.force(self.ev(e.value, sc)), e.attr)

    def e_Tuple(self, e, sc):
        return tuple(self.seq_elts(e.elts, sc))

    def seq_elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_List(self, e, sc):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.segs_of(self.ev(x.value, sc)))
            else:
                segs.append(Item(self.ev(x, sc)))
        return self.new_list_segs(segs)

    def e_Set(self, e, sc):
        return self.alloc('set', None, {'segs': tuple(Item(v) for v in self.seq_elts(e.elts, sc))})

    def e_Dict(self, e, sc):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.force(self.ev(v, sc))
                for en in self.read(src, 'ents'):
                    if not isinstance(en, DE):
                        raise Unsupported('** of a symbolic dict')
                    self.setitem(d, en.k, en.v)
            else:
                kk = self.ev(k, sc)
                self.setitem(d, kk, self.ev(v, sc))
        return d

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse, sc)

    def e_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, sc)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                return v if not is_bool(v) else t
        return v

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            b = self.truth_expr(v)
            return neg(b)
        v = self.force(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Cplx):
                return Cplx(self.neg_num(v.re), self.neg_num(v.im))
            if not is_num(v):
                self.raise_('TypeError', 'unary -')
            return self.neg_num(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def neg_num(self, v):
        return -v

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        return self.binop(e.op, a, b)

    def e_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, sc)
            c = self.compare(op, left, right)
            res = conj([res, c])
            if res is False:
                return False
            left = right
        return res

    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fn, selfv = self.owner_stack[-1]
            return SuperVal(fn.owner, selfv)
        f = self.ev(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.ev(a.value, sc)))
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, sc))
                for en in self.read(d, 'ents'):
                    if not isinstance(en, DE) or not isinstance(en.k, str):
                        raise Unsupported('** of a symbolic dict')
                    kw[en.k] = en.v
            else:
                kw[k.arg] = self.ev(k.value, sc)
        return self.call(f, args, kw)

    def e_Subscript(self, e, sc):
        o = self.force(self.ev(e.value, sc))
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            return self.getslice(o, *[None if x is None else self.force(self.ev(x, sc)) for x in (s.lower, s.upper, s.step)])
        return self.getitem(o, self.ev(e.slice, sc))

    def e_Slice(self, e, sc):
        raise Unsupported('slice object')

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc, '<lambda>')

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_JoinedStr(self, e, sc):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, sc)
                if p.format_spec is not None:
                    raise Unsupported('format spec')
                parts.append(self.to_text(v, repr_=(p.conversion == 114)))
        return self.concat(parts)

    def _comp(self, e, sc, emit):
        csc = Scope(self.alloc('env', None, {}), ([sc.env] if sc.env is not None else []) + list(sc.closure), sc.module)
        csc.locals = set()

        def gen(i):
            if i == len(e.generators):
                emit(csc)
                return
            g = e.generators[i]
            it = self.ev(g.iter, csc if i else sc)

            def body(v):
                self.assign(g.target, v, csc)
                for c in g.ifs:
                    if not self.truth(self.ev(c, csc)):
                        return
                gen(i + 1)
            self.loop(it, body)
        gen(0)

    def e_ListComp(self, e, sc):
        out = self.new_list([])
        self._comp(e, sc, lambda csc: self.list_append(out, self.ev(e.elt, csc)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, sc):
        out = self.alloc('set', None, {'segs': ()})
        self._comp(e, sc, lambda csc: self.list_append(out, self.ev(e.elt, csc)))
        return out

    def e_DictComp(self, e, sc):
        out = self.new_dict()
        self._comp(e, sc, lambda csc: self.setitem(out, self.ev(e.key, csc), self.ev(e.value, csc)))
        return out

    # ------------------------------------------------------------ truth, comparison
    def truth_expr(self, v):
        """truth value as a Python bool or z3 Bool"""
        v = self.force(v)
        if v is None:
            return False
        if is_bool(v):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if is_text(v):
            return to_z3(v) != lit('')
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind in ('list', 'set'):
                n = self.seq_len(self.read(v, 'segs'))
                return n > 0 if isinstance(n, int) else as_const(z3.simplify(n > 0))
            if c.kind == 'dict':
                n = self.dict_len(v)
                return n > 0
            if c.kind == 'elem':
                raise Unsupported('truth value of an element')
            if c.kind == 'obj':
                for nm in ('__bool__', '__len__'):
                    f = self.find_attr(c.cls, nm)
                    if f is not None:
                        return self.truth_expr(self.call(Bound(v, f), [], {}))
            return True
        if isinstance(v, Cplx):
            return disj([self.eq(v.re, 0), self.eq(v.im, 0)])
        if isinstance(v, RangeVal):
            return self.truth_expr(self.seq_len(self.range_segs(v)))
        return True

    def truth(self, v):
        return self.decide(self.truth_expr(v))

    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b and not isinstance(a, Fraction):
            return True
        if a is None or b is None:
            if isinstance(a, Ref) or isinstance(b, Ref):
                r = a if isinstance(a, Ref) else b
                if self.cell(r).kind == 'obj' and self.find_attr(self.cell(r).cls, '__eq__'):
                    raise Unsupported('__eq__')
            return a is None and b is None
        if isinstance(a, bool) and is_num(b):
            a = int(a)
        if isinstance(b, bool) and is_num(a):
            b = int(b)
        if is_num(a) and is_num(b):
            if not is_sym(a) and not is_sym(b):
                return a == b
            e = self.inj_eq(a, b)
            return e if e is not None else self.num_cmp(a, b, lambda x, y: x == y)
        if is_bool(a) and is_bool(b):
            return as_const(z3.simplify(to_z3(a) == to_z3(b)))
        if is_text(a) and is_text(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            e = self.inj_eq(a, b)
            if e is not None:
                return e
            if isinstance(a, EnumText) and isinstance(b, str):
                return self._enum_eq(a, b)
            if isinstance(b, EnumText) and isinstance(a, str):
                return self._enum_eq(b, a)
            if isinstance(a, EnumText) and isinstance(b, EnumText) and len(set(a.table)) == len(a.table) and a.table == b.table:
                return self.eq(a.code, b.code)
            return as_const(z3.simplify(to_z3(a) == to_z3(b)))
        if isinstance(a, SEnum) and isinstance(b, SEnum):
            if a.cls is not b.cls:
                return False
            return self.eq(a.code, b.code)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Cplx) or isinstance(b, Cplx):
            a, b = self.cplx(a), self.cplx(b)
            return conj([self.eq(a.re, b.re), self.eq(a.im, b.im)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.cell(a), self.cell(b)
            if ca.kind == 'list' and cb.kind == 'list':
                sa, sb = self.flat(self.read(a, 'segs')), self.flat(self.read(b, 'segs'))
                if all(isinstance(s, Item) for s in sa + sb):
                    if len(sa) != len(sb):
                        return False
                    return conj([self.eq(x.v, y.v) for x, y in zip(sa, sb)])
                raise Unsupported('equality of symbolic lists')
            if ca.kind == 'dict' and cb.kind == 'dict':
                ea, eb = self.norm_ents(a), self.norm_ents(b)
                if len(ea) != len(eb):
                    return False
                cs = []
                for x in ea:
                    for y in eb:
                        if self.eq(x.k, y.k) is True:
                            cs.append(self.eq(x.v, y.v))
                            break
                    else:
                        return False
                return conj(cs)
            if ca.kind == 'obj':
                f = self.find_attr(ca.cls, '__eq__')
                if f is not None:
                    return self.truth_expr(self.call(Bound(a, f), [b], {}))
            return self.identical(a, b)
        if isinstance(a, (FuncVal, ClassVal, Native)) and isinstance(b, (FuncVal, ClassVal, Native)):
            return a is b
        if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
            raise Unsupported('equality of opaque value')
        if isinstance(a, Ref) and self.cell(a).kind == 'obj' and self.find_attr(self.cell(a).cls, '__eq__'):
            raise Unsupported('__eq__')
        return False

    def _enum_eq(self, a, s):
        cs = [i for i, t in enumerate(a.table) if t == s]
        return disj([self.eq(a.code, i) for i in cs])

    def identical(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid != b.oid:
                return False
            return conj([self.eq(x, y) for x, y in zip(a.idx, b.idx)])
        if isinstance(a, SEnum) and isinstance(b, SEnum):
            return self.eq(a, b)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if is_bool(a) and is_bool(b):
                return self.eq(a, b)
            return False
        if isinstance(a, (FuncVal, ClassVal, Native)) or isinstance(b, (FuncVal, ClassVal, Native)):
            return a is b
        if is_num(a) and is_num(b) or is_text(a) and is_text(b):
            raise Unsupported('identity of numbers or texts')
        return False

    def inj_eq(self, a, b):
        """equality of two values of one injective input function: equality of the arguments"""
        if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)) or not self.injective:
            return None
        a, b = strip_conv(a), strip_conv(b)
        if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.decl().name() in self.injective:
            return as_const(z3.simplify(z3.And(*[p == q for p, q in zip(a.children(), b.children())])))
        return None

    def num_cmp(self, a, b, f):
        za, zb = to_z3(a), to_z3(b)
        if za.sort() != zb.sort():
            za, zb = to_real(za), to_real(zb)
        return as_const(z3.simplify(f(za, zb)))

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.identical(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return neg(self.contains(b, a))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_num(a) and is_num(b):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            if not is_sym(a) and not is_sym(b):
                return f(a, b)
            return self.num_cmp(a, b, f)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if a is None or b is None:
            self.raise_('TypeError', 'comparison with None')
        raise Unsupported('comparison of %r and %r' % (a, b))

    def contains(self, cont, x):
        cont = self.force(cont)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, Ref) and self.cell(cont).kind == 'dict':
            return self.dict_has(cont, x)
        if isinstance(cont, (Native, ClassVal)) and not (isinstance(cont, ClassVal) and cont.members):
            raise Unsupported('in')
        segs = self.segs_of(cont)
        return self.segs_contain(segs, x)

    def segs_contain(self, segs, x):
        res = []
        for s in segs:
            if isinstance(s, Item):
                res.append(self.eq(s.v, x))
            elif isinstance(s, Gd):
                res.append(disj([conj([c, self.segs_contain(sub, x)]) for c, sub in s.alts]))
            elif isinstance(s, FM):
                inner = self.segs_contain(s.segs, x)
                if inner is False:
                    continue
                q = self.bounded_exists(s.k, s.n, inner)
                res.append(q)
            else:
                raise partial(s, 'membership in a list')
        return disj(res)

    def bounded_exists(self, k, n, body):
        return z3.Exists([k], z3.And(k >= 0, k < to_z3(n), to_z3(body)))

    # ------------------------------------------------------------ arithmetic
    def cplx(self, v):
        return v if isinstance(v, Cplx) else Cplx(v, 0)

    def binop_num(self, op, a, b):
        if not is_sym(a) and not is_sym(b):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
        if op in '+-*':
            if op == '+' and not is_sym(b) and b == 0 and (isinstance(b, int) or to_z3(a).sort() == z3.RealSort()):
                return a
            if op == '+' and not is_sym(a) and a == 0 and (isinstance(a, int) or to_z3(b).sort() == z3.RealSort()):
                return b
            if op == '-' and not is_sym(b) and b == 0:
                return a
            if op == '*' and ((not is_sym(a) and a == 0) or (not is_sym(b) and b == 0)):
                return 0 if to_z3(a).sort() == z3.IntSort() and to_z3(b).sort() == z3.IntSort() else Fraction(0)
            if op == '*' and not is_sym(b) and b == 1:
                return a
            if op == '*' and not is_sym(a) and a == 1:
                return b
        za, zb = to_z3(a), to_z3(b)
        if za.sort() != zb.sort() or op == '/':
            za, zb = to_real(za), to_real(zb)
        if op == '+':
            r = za + zb
        elif op == '-':
            r = za - zb
        elif op == '*':
            if za.eq(zb):
                za = zb = unabs(za)
            r = za * zb
        elif op == '/':
            r = za / zb
        else:
            raise Unsupported(op)
        if za.sort() == z3.IntSort():
            r = as_const(z3.simplify(r))
        return r

    def is_zero(self, b):
        if not is_sym(b):
            return b == 0
        return self.decide(self.num_cmp(b, 0, lambda x, y: x == y))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, z3.BoolRef) and (is_num(b) or isinstance(b, z3.BoolRef)):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef) and is_num(a):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        t = type(op)
        if isinstance(a, Cplx) or isinstance(b, Cplx):
            return self.cplx_op(t, a, b)
        if is_num(a) and is_num(b):
            if t is ast.Add:
                return self.binop_num('+', a, b)
            if t is ast.Sub:
                return self.binop_num('-', a, b)
            if t is ast.Mult:
                return self.binop_num('*', a, b)
            if t is ast.Div:
                if self.is_zero(b):
                    self.raise_('ZeroDivisionError', 'division by zero')
                if not is_sym(a) and not is_sym(b):
                    return Fraction(a) / Fraction(b)
                return self.binop_num('/', a, b)
            if t is ast.Pow:
                return self.power(a, b)
            if t in (ast.FloorDiv, ast.Mod):
                if not is_sym(a) and not is_sym(b):
                    if b == 0:
                        self.raise_('ZeroDivisionError', 'division by zero')
                    return a // b if t is ast.FloorDiv else a % b
                if isinstance(b, int) and b > 0 and to_z3(a).sort() == z3.IntSort():
                    return a / z3.IntVal(b) if t is ast.FloorDiv else a % z3.IntVal(b)
                if t is ast.Mod and not isinstance(a, int):
                    raise Unsupported('real modulus')
            raise Unsupported('operator %s on numbers' % t.__name__)
        if is_text(a) and is_text(b) and t is ast.Add:
            return self.concat([a, b])
        if isinstance(a, str) and t is ast.Mod:
            return self.percent_format(a, b)
        if isinstance(a, str) and isinstance(b, int) and t is ast.Mult:
            return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref) and t is ast.Add:
            if self.cell(a).kind == 'list' and self.cell(b).kind == 'list':
                return self.new_list_segs(self.read(a, 'segs') + self.read(b, 'segs'))
        if isinstance(a, Ref) and self.cell(a).kind == 'list' and t is ast.Mult and is_num(b):
            segs = self.read(a, 'segs')
            if isinstance(b, int):
                return self.new_list_segs(segs * b)
            k = z3.Int('k!m%d' % self.new_oid())
            n = b if self.entails(b >= 0) else z3.If(b >= 0, b, z3.IntVal(0))
            return self.new_list_segs((FM(n, k, segs),))
        if (is_num(a) or is_text(a) or a is None or isinstance(a, Ref)) and (is_num(b) or is_text(b) or b is None or isinstance(b, Ref)):
            if not (isinstance(a, Ref) and self.cell(a).kind == 'obj') and not (isinstance(b, Ref) and self.cell(b).kind == 'obj'):
                self.raise_('TypeError', 'unsupported operand types')
        raise Unsupported('operator %s on %r, %r' % (t.__name__, a, b))

    def power(self, a, b):
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int):
            if not is_sym(a):
                return a ** b if b >= 0 else Fraction(1) / (Fraction(a) ** -b)
            if 0 <= b <= 8:
                if b == 0:
                    return 1
                if b % 2 == 0:
                    a = unabs(a)
                r = a
                for _ in range(b - 1):
                    r = r * a
                return r
            if -8 <= b < 0:
                if self.is_zero(a):
                    self.raise_('ZeroDivisionError', '')
                return self.binop_num('/', 1, self.power(a, -b))
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            return self.libcall('sqrt', a)
        raise Unsupported('power')

    def cplx_op(self, t, a, b):
        a, b = self.cplx(a), self.cplx(b)
        A, S, M = (lambda x, y: self.binop_num('+', x, y)), (lambda x, y: self.binop_num('-', x, y)), (lambda x, y: self.binop_num('*', x, y))
        if t is ast.Add:
            return Cplx(A(a.re, b.re), A(a.im, b.im))
        if t is ast.Sub:
            return Cplx(S(a.re, b.re), S(a.im, b.im))
        if t is ast.Mult:
            return Cplx(S(M(a.re, b.re), M(a.im, b.im)), A(M(a.re, b.im), M(a.im, b.re)))
        if t is ast.Div:
            if not is_sym(b.im) and b.im == 0:
                if self.is_zero(b.re):
                    self.raise_('ZeroDivisionError', '')
                return Cplx(self.binop(ast.Div(), a.re, b.re), self.binop(ast.Div(), a.im, b.re))
        raise Unsupported('complex operator')

    # ------------------------------------------------------------ texts
    def to_text(self, v, repr_=False):
        v = self.force(v)
        if isinstance(v, (str, EnumText)) and not repr_:
            return v
        if is_text(v) and not repr_:
            return v
        if v is None:
            return 'None'
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, z3.BoolRef):
            return 'True' if self.decide(v) else 'False'
        if is_num(v):
            return Text.tnum(to_real(v))
        if isinstance(v, SEnum):
            return EnumText(v.code, [v.cls.name + '.' + m for m in v.cls.members])
        if isinstance(v, Ref) and self.cell(v).kind == 'obj':
            f = self.find_attr(self.cell(v).cls, '__str__')
            if f is not None and not repr_:
                return self.call(Bound(v, f), [], {})
            return self.opaque_text('obj', v)
        if isinstance(v, str):
            return repr(v)
        return self.opaque_text('text', v)

    def opaque_text(self, what, v):
        self.state.approx = True
        return self.fresh('otext', Text)

    concat_f = z3.Function('concat', Text, Text, Text)

    def concat(self, parts):
        out = []
        for p in parts:
            if p == '' if isinstance(p, str) else False:
                continue
            if out and isinstance(out[-1], str) and isinstance(p, str):
                out[-1] += p
            elif out and isinstance(out[-1], EnumText) and isinstance(p, str):
                s = p
                out[-1] = out[-1].map(lambda t: t + s)
            elif out and isinstance(p, EnumText) and isinstance(out[-1], str):
                s = out[-1]
                out[-1] = p.map(lambda t: s + t)
            else:
                out.append(p)
        if not out:
            return ''
        r = out[-1]
        for p in reversed(out[:-1]):
            if isinstance(r, str) and isinstance(p, str):
                r = p + r
            else:
                r = self.concat_f(to_z3(p), to_z3(r))
        return r

    def percent_format(self, fmt, v):
        import re
        vals = list(v) if isinstance(v, tuple) else [v]
        parts = re.split(r'(%[sdrf])', fmt)
        out = []
        for p in parts:
            if re.fullmatch(r'%[sdrf]', p):
                out.append(self.to_text(vals.pop(0)))
            elif '%' in p:
                raise Unsupported('format')
            else:
                out.append(p)
        return self.concat(out)

    # ------------------------------------------------------------ sequences
    def seq_len(self, segs):
        n = 0
        for s in segs:
            if isinstance(s, Item):
                n = self.binop_num('+', n, 1)
            elif isinstance(s, FM):
                c = self.seq_len_generic(s.segs)
                if c is not None:
                    n = self.binop_num('+', n, self.binop_num('*', s.n, c))
                else:
                    d = self.seq_len(s.segs)
                    n = self.binop_num('+', n, self.running_sum(d, s.k, s.n))
            elif isinstance(s, Gd):
                n = self.binop_num('+', n, merge([(c, self.seq_len(x)) for c, x in s.alts]))
            elif isinstance(s, Op):
                n = self.binop_num('+', n, s.n)
            else:
                raise partial(s, 'length of a list')
        return n

    def seq_len_generic(self, segs):
        try:
            c = self.seq_len(segs)
        except Unsupported:
            raise
        return c if isinstance(c, int) else None

    def params_of(self, e, ks):
        """maximal subterms (constants, UF applications) of e without the symbols ks; library functions excluded"""
        names = {k.decl().name() for k in ks}
        acc = {}
        seen = set()
        free = {}

        def has(x):
            i = x.get_id()
            if i not in free:
                if z3.is_app(x) and x.num_args() == 0:
                    free[i] = x.decl().name() in names and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
                else:
                    free[i] = any(has(c) for c in x.children())
            return free[i]

        def go(x):
            if x.get_id() in seen:
                return
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                raise Unsupported('quantified term in a loop summary')
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith('lib!') and not has(x):
                acc[x.get_id()] = x
                return
            for c in x.children():
                go(c)
        go(e)
        return list(acc.values())

    def canonical(self, exprs, k, extra=()):
        """(key, parameter terms, parameter symbols, canonical bodies) of expressions over the index k"""
        pars = {}
        for e in exprs:
            for p in self.params_of(e, [k] + list(extra)):
                pars[p.get_id()] = p
        order = []
        seen = set()

        def visit(x):
            if x.get_id() in seen:
                return
            seen.add(x.get_id())
            if x.get_id() in pars:
                order.append(x)
                return
            for c in x.children():
                visit(c)
        for e in exprs:
            visit(e)
        syms = [z3.Const('par!%d%s' % (i, p.sort()), p.sort()) for i, p in enumerate(order)]
        ck = z3.Int('k!canon')
        m = [(k, ck)] + list(zip(order, syms))
        bodies = [z3.simplify(z3.substitute(e, *m)) for e in exprs]
        return tuple(b.sexpr() for b in bodies), order, syms, ck, bodies

    def running_sum(self, d, k, n):
        """sum of d over k=0..n-1, d a term over k"""
        d = to_z3(d)
        d = z3.simplify(d)
        if not self.has_sym(d, k):
            d = as_const(d)
            return self.binop_num('*', n, d) if to_z3(d).sort() == z3.IntSort() else self.binop_num('*', to_real(n), d)
        kd = d.decl().kind()
        if kd == z3.Z3_OP_ADD:
            r = 0
            for c in d.children():
                r = self.binop_num('+', r, self.running_sum(c, k, n))
            return r
        if kd == z3.Z3_OP_MUL:
            free = [c for c in d.children() if not self.has_sym(c, k)]
            rest = [c for c in d.children() if self.has_sym(c, k)]
            if free:
                r = rest[0]
                for c in rest[1:]:
                    r = r * c
                r = self.running_sum(r, k, n)
                for c in free:
                    r = self.binop_num('*', as_const(c), as_const(to_z3(r)))
                return r
        if kd == z3.Z3_OP_TO_REAL:
            return to_real(self.running_sum(d.arg(0), k, n))
        if kd == z3.Z3_OP_ITE:
            c, a, b = d.children()
            while z3.is_not(c):
                c, a, b = c.arg(0), b, a
            if not self.has_sym(c, k):
                return as_const(z3.If(c, to_z3(self.running_sum(a, k, n)), to_z3(self.running_sum(b, k, n))))
            if not (self.is_01(a, b)):
                ka, kb = self.has_sym(a, k), self.has_sym(b, k)
                if not ka and not kb:
                    # b everywhere plus a - b where c holds
                    cnt = self.running_sum(z3.If(c, z3.IntVal(1), z3.IntVal(0)), k, n)
                    diff = as_const(z3.simplify(a - b))
                    if d.sort() == z3.RealSort():
                        cnt = to_real(cnt)
                    return self.binop_num('+', self.running_sum(b, k, n), self.binop_num('*', diff, as_const(cnt)))
            d = z3.If(c, a, b)
        key, order, syms, ck, bodies = self.canonical([d], k)
        if key not in self.sums:
            f = z3.Function('sum!%d' % len(self.sums), *([p.sort() for p in order] + [z3.IntSort(), d.sort()]))
            self.sums[key] = (f, syms, ck, bodies[0])
        return self.sums[key][0](*(order + [to_z3(n)]))

    @staticmethod
    def is_01(a, b):
        return z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0

    def has_sym(self, e, k):
        return k.decl().name() in syms_of(e)

    def seq_get(self, segs, i):
        i = self.force(i)
        if isinstance(i, bool) or not is_num(i):
            self.raise_('TypeError', 'list index')
        if is_sym(i):
            i = self.num_simplify(i)
        segs = list(self.top_flat(segs))
        if isinstance(i, int) and i < 0:
            r = -i
            for s in reversed(segs):
                if isinstance(s, Item):
                    if isinstance(r, int) and r == 1:
                        return s.v
                    if not isinstance(r, int) and self.decide(r == 1):
                        return s.v
                    r = self.num_simplify(r - 1) if not isinstance(r, int) else r - 1
                elif isinstance(s, FM):
                    its = self.fm_items(s)
                    m = self.num_simplify(to_z3(s.n) * len(its))
                    if self.decide(self.num_cmp(m, r, lambda x, y: x >= y)):
                        return self.fm_pick(s, its, self.num_simplify(to_z3(m) - to_z3(r)))
                    r = self.num_simplify(to_z3(r) - to_z3(m))
                else:
                    raise partial(s, 'index into a list')
            self.raise_('IndexError', 'list index out of range')
        if is_sym(i):
            if not self.entails(i >= 0):
                if not self.decide(i >= 0):
                    n = self.seq_len(segs)
                    return self.seq_get(segs, self.num_simplify(to_z3(n) + i))
        r = i
        for s in segs:
            if isinstance(s, Item):
                c = self.eq(r, 0)
                if self.decide(c):
                    return s.v
                r = self.binop_num('-', r, 1)
            elif isinstance(s, FM):
                its = self.fm_items(s)
                if not its:
                    continue
                m = self.num_simplify(to_z3(s.n) * len(its))
                if self.decide(self.num_cmp(r, m, lambda x, y: x < y)):
                    return self.fm_pick(s, its, r)
                r = self.num_simplify(to_z3(r) - to_z3(m))
            else:
                raise partial(s, 'index into a list')
        self.raise_('IndexError', 'list index out of range')

    def fm_items(self, s):
        """the items of one member of the family, when their number is fixed"""
        out = []
        for x in s.segs:
            if isinstance(x, Item):
                out.append(x.v)
            elif isinstance(x, Gd):
                n = len(x.alts[0][1])
                if any(len(sub) != n or not all(isinstance(y, Item) for y in sub) for _, sub in x.alts):
                    raise Unsupported('index into a list of irregular pieces')
                for j in range(n):
                    out.append(merge([(c, sub[j].v) for c, sub in x.alts]))
            elif isinstance(x, FM) and isinstance(as_const(z3.simplify(to_z3(x.n))), int):
                for j in range(as_const(z3.simplify(to_z3(x.n)))):
                    out.extend(self.fm_items(FM(s.n, s.k, subst(x.segs, [(x.k, z3.IntVal(j))]))))
            else:
                raise Unsupported('index into a list of irregular pieces')
        return out

    def fm_pick(self, s, its, r):
        m = len(its)
        if m == 1:
            return subst(its[0], [(s.k, to_z3(r))])
        if isinstance(r, int):
            return subst(its[r % m], [(s.k, z3.IntVal(r // m))])
        for j in range(m):
            q = exact_div(r - j, m)
            if q is not None:
                return subst(its[j], [(s.k, q)])
        for j in range(m - 1):
            if self.decide(r % m == j):
                return subst(its[j], [(s.k, (r - j) / m)])
        return subst(its[m - 1], [(s.k, (r - (m - 1)) / m)])

    def top_flat(self, segs):
        return self.flat(segs)

    def fm_item(self, s):
        if len(s.segs) == 1 and isinstance(s.segs[0], Item):
            return s.segs[0].v
        if len(s.segs) == 1 and isinstance(s.segs[0], Gd):
            alts = []
            for c, sub in s.segs[0].alts:
                if len(sub) != 1 or not isinstance(sub[0], Item):
                    raise Unsupported('index into a list of irregular pieces')
                alts.append((c, sub[0].v))
            return merge(alts)
        raise Unsupported('index into a list of irregular pieces')

    def seq_set(self, segs, i, v):
        i = self.force(i)
        segs = self.flat(segs)
        if isinstance(i, int):
            order = list(range(len(segs)))
            if i < 0:
                pos = -i - 1
                order = order[::-1]
            else:
                pos = i
            for j in order:
                s = segs[j]
                if isinstance(s, Item):
                    if pos == 0:
                        return tuple(segs[:j]) + (Item(v),) + tuple(segs[j + 1:])
                    pos -= 1
                else:
                    raise Unsupported('assignment into a symbolic list')
            self.raise_('IndexError', 'list assignment index out of range')
        raise Unsupported('assignment at a symbolic index')

    def rev_segs(self, segs):
        out = []
        for s in reversed(segs):
            if isinstance(s, FM):
                inner = self.rev_segs(s.segs)
                out.append(FM(s.n, s.k, subst(inner, [(s.k, to_z3(s.n) - 1 - s.k)])))
            elif isinstance(s, Gd):
                out.append(Gd([(c, self.rev_segs(x)) for c, x in s.alts]))
            elif isinstance(s, Item):
                out.append(s)
            else:
                raise partial(s, 'reversal of a list')
        return tuple(out)

    def list_append(self, ref, v):
        self.write(ref, 'segs', self.read(ref, 'segs') + (Item(v),))

    def getslice(self, o, lo, hi, st):
        if isinstance(o, str):
            return o[slice(lo, hi, st)]
        if isinstance(o, tuple):
            return o[slice(lo, hi, st)]
        segs = self.segs_of(o)
        if lo is None and hi is None and st in (None, 1):
            return self.new_list_segs(segs)
        if lo is None and hi is None and st == -1:
            return self.new_list_segs(self.rev_segs(segs))
        fl = self.flat(segs)
        if all(isinstance(s, Item) for s in fl):
            for x in (lo, hi, st):
                if x is not None and not isinstance(x, int):
                    raise Unsupported('symbolic slice')
            return self.new_list_segs(fl[slice(lo, hi, st)])
        if st in (None, 1) and hi is None and isinstance(lo, int) and 0 <= lo <= 4:
            out = list(fl)
            for _ in range(lo):
                if not out:
                    break
                if isinstance(out[0], Item):
                    out.pop(0)
                elif isinstance(out[0], FM):
                    f = out[0]
                    self.fm_item(f)
                    if self.decide(self.num_cmp(f.n, 1, lambda x, y: x >= y)):
                        out[0] = FM(self.num_simplify(to_z3(f.n) - 1), f.k, subst(f.segs, [(f.k, f.k + 1)]))
                    else:
                        out.pop(0)
                else:
                    raise Unsupported('slice')
            return self.new_list_segs(out)
        if st in (None, 1) and lo is None and isinstance(hi, int) and -4 <= hi < 0:
            out = list(fl)
            for _ in range(-hi):
                if not out:
                    break
                if isinstance(out[-1], Item):
                    out.pop()
                elif isinstance(out[-1], FM):
                    f = out[-1]
                    self.fm_item(f)
                    if self.decide(self.num_cmp(f.n, 1, lambda x, y: x >= y)):
                        out[-1] = FM(self.num_simplify(to_z3(f.n) - 1), f.k, f.segs)
                    else:
                        out.pop()
                else:
                    raise Unsupported('slice')
            return self.new_list_segs(out)
        raise Unsupported('slice of a symbolic list')

    # ------------------------------------------------------------ dicts
    def present(self, v):
        """(condition, value) of a dict entry that exists on some paths only"""
        if isinstance(v, GV) and any(x is UNBOUND for _, x in v.alts):
            alts = [(c, x) for c, x in v.alts if x is not UNBOUND]
            return disj([c for c, _ in alts]), (merge(alts) if len(alts) > 1 else alts[0][1])
        return True, v

    def norm_ents(self, ref):
        """decide the presence of entries that exist on some paths only"""
        ents = self.read(ref, 'ents')
        if any(isinstance(e, DE) and isinstance(e.v, GV) and any(x is UNBOUND for _, x in e.v.alts) for e in ents):
            out = []
            for e in ents:
                if isinstance(e, DE):
                    c, v = self.present(e.v)
                    if c is not True and not self.decide(c):
                        continue
                    e = DE(e.k, v)
                out.append(e)
            return tuple(out)
        return ents

    def dict_find(self, ref, k):
        """(position, entry value, m) or None; decides key equality"""
        k = self.force(k)
        ents = self.read(ref, 'ents')
        for j in range(len(ents) - 1, -1, -1):
            e = ents[j]
            if isinstance(e, DE):
                c = self.eq(e.k, k)
                if c is False:
                    continue
                if c is True or self.decide(c):
                    pc, pv = self.present(e.v)
                    if pc is not True:
                        if not self.decide(pc):
                            continue
                        return j, pv, None
                    return j, e.v, None
            elif isinstance(e, DFM):
                inv = self.invert_key(e, k)
                if inv is not None:
                    if self.decide(conj([self.num_cmp(inv, 0, lambda x, y: x >= y), self.num_cmp(inv, e.n, lambda x, y: x < y)])):
                        return j, subst(e.val, [(e.k, to_z3(inv))]), inv
                    # injective: no other position has this key
                    continue
                body = self.eq(e.key, k)
                if body is False:
                    continue
                ex = self.bounded_exists(e.k, e.n, body)
                if self.decide_q(ex):
                    w = self.fresh('w', z3.IntSort())
                    self.state.pc.append(z3.And(w >= 0, w < to_z3(e.n), to_z3(subst(body, [(e.k, w)]))))
                    return j, subst(e.val, [(e.k, w)]), w
            else:
                raise partial(e, 'lookup in a dict')
        return None

    def decide_q(self, cond):
        return self.decide(cond)

    def injective_facts(self, vals):
        """instances of injectivity for the applications of injective inputs in vals"""
        apps = {}
        for v in vals:
            if isinstance(v, z3.ExprRef):
                st = [v]
                while st:
                    x = st.pop()
                    if z3.is_app(x) and x.decl().name() in self.injective:
                        apps.setdefault(x.decl().name(), {})[x.get_id()] = x
                    st.extend(x.children())
        out = []
        for d in apps.values():
            xs = list(d.values())
            for i, a in enumerate(xs):
                for b in xs[i + 1:]:
                    out.append(z3.Implies(a == b, z3.And(*[p == q for p, q in zip(a.children(), b.children())])))
        return out

    def invert_key(self, e, k):
        """position of key k in the family, when keys are an injective input function of the position"""
        kk, q = to_z3(e.key) if is_text(e.key) or is_num(e.key) else None, (to_z3(k) if (is_text(k) or is_num(k)) else None)
        if kk is None or q is None:
            return None
        if kk.sort() != q.sort():
            return None
        a, b = strip_conv(kk), strip_conv(q)
        if a.sort() == b.sort() and z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.decl().name() in self.injective:
            if a.num_args() == b.num_args() == 1 and a.arg(0).eq(e.k):
                return b.arg(0)
        return None

    def dict_has(self, ref, k):
        k = self.force(k)
        res = []
        for e in self.read(ref, 'ents'):
            if isinstance(e, DE):
                res.append(conj([self.eq(e.k, k), self.present(e.v)[0]]))
            elif isinstance(e, DFM):
                inv = self.invert_key(e, k)
                if inv is not None:
                    res.append(conj([self.num_cmp(inv, 0, lambda x, y: x >= y), self.num_cmp(inv, e.n, lambda x, y: x < y)]))
                else:
                    body = self.eq(e.key, k)
                    if body is not False:
                        res.append(self.bounded_exists(e.k, e.n, body))
            else:
                raise partial(e, 'lookup in a dict')
        return disj(res)

    def dict_len(self, ref):
        n = 0
        for e in self.norm_ents(ref):
            n = self.binop_num('+', n, 1 if isinstance(e, DE) else e.n)
        return n

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        k = self.force(k)
        if isinstance(o, (tuple,)):
            return self.seq_get(tuple(Item(x) for x in o), k)
        if isinstance(o, str):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.raise_('IndexError', '')
        if isinstance(o, RangeVal):
            return self.seq_get(self.range_segs(o), k)
        if isinstance(o, ClassVal) and o.members is not None and isinstance(k, str):
            if k in o.members:
                return SEnum(o, o.members.index(k))
            self.raise_('KeyError', k)
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == 'list':
                return self.seq_get(self.read(o, 'segs'), k)
            if c.kind == 'elem':
                return self.seq_get(self.read(o, 'kids'), k)
            if c.kind == 'dict':
                r = self.dict_find(o, k)
                if r is None:
                    self.raise_('KeyError', k)
                return r[1]
            if c.kind == 'obj':
                f = self.find_attr(c.cls, '__getitem__')
                if f is not None:
                    return self.call(Bound(o, f), [k], {})
        if o is None or is_num(o):
            self.raise_('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, k, v):
        o = self.force(o)
        c = self.cell(o)
        if c.kind == 'list':
            self.write(o, 'segs', self.seq_set(self.read(o, 'segs'), self.force(k), v))
        elif c.kind == 'dict':
            k = self.force(k)
            ents = self.read(o, 'ents')
            if any(not isinstance(e, DE) for e in ents):
                self.dict_set_sym(o, ents, k, v)
                return
            r = self.dict_find(o, k)
            if r is None:
                self.write(o, 'ents', self.read(o, 'ents') + (DE(k, v),))
            else:
                ents = self.read(o, 'ents')
                j = r[0]
                self.write(o, 'ents', ents[:j] + (DE(ents[j].k, v),) + ents[j + 1:])
        else:
            raise Unsupported('item assignment')

    def dict_set_sym(self, o, ents, k, v):
        if any(isinstance(e, Op) for e in ents):
            # keys of earlier iterations are unknown here: the loop rule proves that they differ
            suffix = []
            for e in reversed(ents):
                if isinstance(e, Op):
                    break
                suffix.append(e)
            for e in suffix:
                c = self.eq(e.k, k)
                if c is not False and not (isinstance(c, z3.ExprRef) and self.entails(z3.Not(c))):
                    raise Unsupported('repeated key in a summarised loop')
            self.write(o, 'ents', ents + (DE(k, v),))
            return
        r = self.dict_find(o, k)
        if r is None:
            self.write(o, 'ents', ents + (DE(k, v),))
            return
        j, _, inv = r
        e = ents[j]
        if isinstance(e, DE):
            self.write(o, 'ents', ents[:j] + (DE(e.k, v),) + ents[j + 1:])
            return
        raise Unsupported('assignment to a family entry of a dict')

    def delitem(self, o, k):
        c = self.cell(o)
        if c.kind == 'dict':
            r = self.dict_find(o, k)
            if r is None:
                self.raise_('KeyError', '')
            ents = self.read(o, 'ents')
            if not isinstance(ents[r[0]], DE):
                raise Unsupported('del')
            self.write(o, 'ents', ents[:r[0]] + ents[r[0] + 1:])
            return
        if c.kind == 'list' and isinstance(k, int):
            segs = self.flat(self.read(o, 'segs'))
            if all(isinstance(s, Item) for s in segs):
                segs = list(segs)
                del segs[k]
                self.write(o, 'segs', tuple(segs))
                return
        raise Unsupported('del')

    # ------------------------------------------------------------ attributes
    def find_attr(self, cls, name):
        for c in cls.mro:
            ref = getattr(c, 'ref', None)
            if ref is not None:
                d = self.cell(ref).data
                if name in d:
                    return d[name]
        return None

    def getattr(self, o, name, default=UNBOUND):
        o = self.force(o)
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == 'obj':
                if name in c.data:
                    v = self.read(o, name)
                    if v is not UNBOUND:
                        return v
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    raise Unsupported('__dict__')
                v = self.find_attr(c.cls, name)
                if v is not None:
                    return self.bind(v, o, c.cls)
                for k in c.cls.mro:
                    if k.native and hasattr(k, 'native_attrs') and name in k.native_attrs:
                        return Bound(o, Native(name, k.native_attrs[name]))
                if default is not UNBOUND:
                    return default
                if name in self.cls_none.get(c.cls.name, ()):
                    return None
                self.raise_('AttributeError', name)
            from . import models
            v = models.method(self, c.kind, name, o)
            if v is not None:
                return v[0]
            if default is not UNBOUND:
                return default
            self.raise_('AttributeError', name)
        if isinstance(o, ModuleVal):
            if name in o.env:
                return o.env[name]
            if default is not UNBOUND:
                return default
            if o.name.split('.')[0] not in self.roots:
                raise Unsupported('%s.%s is not modelled' % (o.name, name))
            self.raise_('AttributeError', name)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            if o.members is not None and name == '__members__':
                return self.new_dict([(m, SEnum(o, i)) for i, m in enumerate(o.members)])
            v = self.find_attr(o, name)
            if v is not None:
                if isinstance(v, FuncVal) and v.kind == 'class':
                    return Bound(o, v)
                return v
            if default is not UNBOUND:
                return default
            self.raise_('AttributeError', name)
        if isinstance(o, SuperVal):
            obj = self.force(o.self_)
            mro = self.cell(obj).cls.mro
            for k in mro[mro.index(o.cls) + 1:]:
                ref = getattr(k, 'ref', None)
                if ref is not None and name in self.cell(ref).data:
                    return self.bind(self.cell(ref).data[name], obj, k)
            if name == '__init__':
                return Native('object.__init__', lambda it, a, k: None)
            self.raise_('AttributeError', name)
        if isinstance(o, SEnum):
            if name == 'name':
                if isinstance(o.code, int):
                    return o.cls.members[o.code]
                return EnumText(o.code, o.cls.members)
            if name == 'value':
                return self.binop_num('+', o.code, 1)
            if name == '__class__':
                return o.cls
            v = self.find_attr(o.cls, name)
            if v is not None:
                return self.bind(v, o, o.cls)
        if isinstance(o, Cplx):
            if name == 'real':
                return o.re
            if name == 'imag':
                return o.im
        from . import models
        kind = 'text' if is_text(o) else ('num' if is_num(o) else ('tuple' if isinstance(o, tuple) else type(o).__name__))
        v = models.method(self, kind, name, o)
        if v is not None:
            return v[0]
        if default is not UNBOUND:
            return default
        if o is None or is_num(o) or is_text(o) or isinstance(o, (tuple, FuncVal, Bound, bool)):
            self.raise_('AttributeError', name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def bind(self, v, o, cls):
        if isinstance(v, FuncVal):
            if v.kind == 'static':
                return v
            if v.kind == 'class':
                return Bound(cls, v)
            if v.kind == 'property':
                return self.call(Bound(o, v), [], {})
            return Bound(o, v)
        if isinstance(v, Native):
            return Bound(o, v)
        return v

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == 'obj':
                p = self.find_attr(c.cls, name)
                if isinstance(p, FuncVal) and p.kind == 'property':
                    raise Unsupported('property assignment')
                self.write(o, name, v)
                return
            if c.kind == 'elem' and name in ('text', 'tail', 'tag'):
                self.write(o, name, v)
                return
        if isinstance(o, ClassVal):
            if not getattr(o, 'ref', None):
                raise Unsupported('attribute of a builtin class')
            self.write(o.ref, name, v)
            return
        if o is None:
            self.raise_('AttributeError', name)
        raise Unsupported('attribute assignment on %r' % (o,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, Bound):
            if isinstance(f.fn, Native):
                return f.fn.fn(self, [f.self_] + list(args), kw)
            return self.call_func(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kw)
        if isinstance(f, Native):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ref) and self.cell(f).kind == 'obj':
            m = self.find_attr(self.cell(f).cls, '__call__')
            if m is not None:
                return self.call(Bound(f, m), args, kw)
        if f is None or is_num(f) or is_text(f):
            self.raise_('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        if cls.members is not None:
            # Enum(value)
            v = self.force(args[0])
            if isinstance(v, SEnum) and v.cls is cls:
                return v
            if isinstance(v, int) and 1 <= v <= len(cls.members):
                return SEnum(cls, v - 1)
            raise Unsupported('enumeration lookup')
        for c in cls.mro:
            if c.native:
                return c.native(self, cls, args, kw)
        ref = self.alloc('obj', cls, {})
        init = self.find_attr(cls, '__init__')
        if init is not None:
            self.call(Bound(ref, init), args, kw)
        elif args or kw:
            self.raise_('TypeError', 'arguments')
        return ref

    def locals_of(self, node):
        r = self.localcache.get(id(node))
        if r is not None:
            return r[1]
        names = set()
        nonl = set()

        class V(ast.NodeVisitor):
            def visit_FunctionDef(s, n):
                if n is not node:
                    names.add(n.name)
                else:
                    for x in n.body:
                        s.visit(x)

            def visit_Lambda(s, n):
                if n is node:
                    s.visit(n.body)

            def visit_ClassDef(s, n):
                names.add(n.name)

            def visit_ListComp(s, n):
                pass

            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_ExceptHandler(s, n):
                if n.name:
                    names.add(n.name)
                s.generic_visit(n)

            def visit_Nonlocal(s, n):
                nonl.update(n.names)

            def visit_Import(s, n):
                for a in n.names:
                    names.add((a.asname or a.name).split('.')[0])

            visit_ImportFrom = visit_Import
        V().visit(node)
        names -= nonl
        self.localcache[id(node)] = (node, names)
        return names

    def call_func(self, f, args, kw):
        if self.calldepth > 60:
            raise Unsupported('recursion too deep')
        mod = f.module
        if mod.name.split('.')[0] in self.roots and mod.name.split('.')[0] == 'pyodrx':
            self.inlined.add(mod.name.split('.', 1)[-1] + '.' + ((f.owner.name + '.') if f.owner else '') + f.name)
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            self.raise_('TypeError', 'too many arguments for ' + f.name)
        for n, v in zip(names, args):
            env[n] = v
        rest = args[len(names):]
        kw = dict(kw)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in env:
                if n in kw:
                    self.raise_('TypeError', 'multiple values for ' + n)
                continue
            if n in kw:
                env[n] = kw.pop(n)
            elif i >= len(names) - nd:
                env[n] = f.defaults[i - (len(names) - nd)]
            else:
                self.raise_('TypeError', 'missing argument ' + n)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = d[0]
            else:
                self.raise_('TypeError', 'missing argument ' + x.arg)
        if a.vararg:
            env[a.vararg.arg] = tuple(rest)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(list(kw.items()))
        elif kw:
            self.raise_('TypeError', 'unexpected argument for ' + f.name)
        sc = Scope(self.alloc('env', None, env), f.envs, mod)
        sc.locals = self.locals_of(f.node)
        self.calldepth += 1
        self.owner_stack.append((f, args[0] if args else None))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, sc)
            self.exec_block(f.node.body, sc)
            return None
        except ReturnEx as e:
            return e.v
        finally:
            self.calldepth -= 1
            self.owner_stack.pop()

    def libcall(self, name, *args):
        from . import models
        return models.LIB[name](self, list(args), {})

    # loops are in loops.py
    def loop(self, it, body):
        from . import loops
        return loops.loop(self, it, body)

    def while_loop(self, cond, body, orelse, st, sc):
        from . import loops
        return loops.while_loop(self, cond, body, orelse, st, sc)


def unabs(e):
    """c for If(c >= 0, c, -c): the square is the same"""
    if isinstance(e, z3.ArithRef) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        s = as_const(z3.simplify(a + b))
        if isinstance(s, (int, Fraction)) and s == 0:
            return a
    return e


class SuperVal:
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Scope:
    __slots__ = ('env', 'closure', 'module', 'locals', 'nonlocals', 'handling', 'is_class')

    def __init__(self, env, closure, module):
        self.env, self.closure, self.module = env, closure, module
        self.locals = ()
        self.nonlocals = None
        self.handling = []
        self.is_class = False
