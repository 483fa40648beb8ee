"""Run one contract symbolically: explore all paths of contract + code, collect and discharge obligations."""
import ast
import os
import time
import traceback
import itertools
import z3
from .core import *
from .interp import Interp, PyRaise, Infeasible
from . import models, spec, prove

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self, name):
        self.name = name
        self.mode = None              # 'unbounded' | 'bounded'
        self.sizes = []
        self.obligations = []
        self.error = None             # reason it could not be executed
        self.paths = 0
        self.functions = []
        self.wall = 0.0
        self.truncated = False
        self.vacuous = False


def fresh_interp(sizes=None):
    I = Interp({'pyodrx': os.path.join(REPO, 'pyodrx'), 'contracts': os.path.join(HERE, 'contracts')}, models.BASE_FACTS)
    I.sizes = dict(sizes or {})
    I.size_names = {}
    I.obligations = []
    I.obl_keys = set()
    I.keep = []
    I.ph_n = 0
    I.forall_n = 0
    I.stubbed = False
    if sizes is not None:
        I.while_bound = 12
    spec.make(I)
    return I


def contract_names(module):
    with open(os.path.join(HERE, 'contracts', module + '.py')) as f:
        tree = ast.parse(f.read())
    return [n.name for n in tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith('contract_')]


def config(module):
    with open(os.path.join(HERE, 'contracts', module + '.py')) as f:
        tree = ast.parse(f.read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'CONFIG':
            return ast.literal_eval(n.value)
    return {}


def execute(module, fname, sizes=None):
    """-> (Interp with obligations, number of normal paths)"""
    I = fresh_interp(sizes)

    def load():
        return I.load_module('contracts.' + module)
    m = load()
    f = m.env[fname]

    def body():
        I.fresh_n = 0
        I.forall_n = 0
        return I.call(f, [], {})
    outs = I.explore(body, reset_oid=True)
    ended = 0
    for o in outs:
        if o.kind == 'raise':
            I.state = o.state
            spec.record(I, 'no unexpected exception: %s(%s)' % (o.val.cls.name, str(o.val.msg)[:80]), False)
        else:
            ended += 1
    return I, ended, outs


def run(module, fname, sizes=None, timeout=8.0, log=None):
    r = Result(module + '.' + fname)
    t0 = time.time()
    r.mode = 'unbounded' if sizes is None else 'bounded'
    try:
        I, ended, outs = execute(module, fname, sizes)
        r.interp = I
        r.paths = len(outs)
        r.size_names = I.size_names
        r.functions = sorted(I.inlined)
        r.truncated = I.truncated
        for ob in I.obligations:
            ob.fn = r.name
            ob.truncated = I.truncated
            prove.discharge(I, ob, timeout)
            if log:
                log('%-9s %-10s %6.2fs  %s%s' % (ob.verdict, ob.backend, ob.time, ob.label, '' if not ob.note else '  [' + str(ob.note)[:100] + ']'))
        # an obligation left open for lack of time gets more of it
        open_ = [ob for ob in I.obligations if ob.verdict == 'unknown' and ob.time > 0.5 * timeout]
        t1 = time.time()
        for ob in open_[:6]:
            if sizes is None and time.time() - t1 < 60:
                first = (ob.verdict, ob.backend, ob.time, ob.note)
                prove.discharge(I, ob, 4 * timeout)
                if ob.verdict != 'proved':
                    ob.verdict, ob.backend, ob.time, ob.note = first
        r.obligations = I.obligations
        r.vacuous = ended == 0 or not I.obligations
    except Unsupported as e:
        r.error = 'unsupported: %s' % e
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
    except (RecursionError, z3.Z3Exception, MemoryError) as e:
        r.error = '%s: %s' % (type(e).__name__, str(e)[:200])
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
    r.wall = time.time() - t0
    return r


if __name__ == '__main__':
    import sys
    mod = sys.argv[1]
    only = sys.argv[2:]
    sizes = None
    if only and only[-1].startswith('{'):
        sizes = eval(only.pop())
    for n in contract_names(mod):
        if only and n not in only and n.replace('contract_', '') not in only:
            continue
        print('==', n)
        r = run(mod, n, sizes, log=print)
        print('   paths %d, obligations %d, wall %.1fs, %s' % (r.paths, len(r.obligations), r.wall, r.error or ('VACUOUS' if r.vacuous else 'ok')))
