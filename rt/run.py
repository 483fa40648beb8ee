"""usage: run.py JOB.json  -- evaluates contracts at run time on the real code; prints one JSON object.
JOB: {repo, verif, module, contracts: [..], seed, seconds, max_runs, values (replay) , scratch}"""
import importlib
import importlib.machinery
import json
import os
import random
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
job = json.load(open(sys.argv[1]))
sys.path.insert(0, job['repo'])
sys.path.insert(0, job['verif'])
sys.path.insert(0, os.path.join(job['verif'], 'rt'))
os.chdir(job['scratch'])
warnings.simplefilter('ignore')


class Loader(importlib.machinery.SourceFileLoader):
    """compiles a source once, never from a stored byte code file, so that modules can be loaded afresh quickly"""
    codes = {}

    def get_code(self, name):
        if name not in self.codes:
            path = self.get_filename(name)
            self.codes[name] = self.source_to_code(self.get_data(path), path)
        return self.codes[name]


for p in (job['repo'], job['verif'], os.path.join(job['verif'], 'rt')):
    for q in (p, os.path.join(p, 'pyodrx'), os.path.join(p, 'contracts')):
        sys.path_importer_cache[q] = importlib.machinery.FileFinder(q, (Loader, ['.py']))
import spec


def constants():
    """numbers and texts that occur in the code; those not in rt/constants.json are new"""
    import ast
    nums, texts = set(), set()
    d = os.path.join(job['repo'], 'pyodrx')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py'):
            continue
        try:
            with open(os.path.join(d, fn), encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (SyntaxError, ValueError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and abs(n.value) < 1e9:
                    nums.add(n.value)
                elif isinstance(n.value, str) and len(n.value) < 25 and n.value.isprintable():
                    texts.add(n.value)
    try:
        with open(os.path.join(job['verif'], 'rt', 'constants.json')) as f:
            known = json.load(f)
    except (OSError, ValueError):
        known = dict(numbers=[], texts=[])
    spec.Ctx.consts = [(c, c not in known['numbers']) for c in sorted(nums)]
    new = [t for t in sorted(texts) if t not in known['texts']]
    spec.Ctx.texts = new or sorted(texts)
    return sorted(nums), sorted(texts)


def load(fresh):
    if fresh:
        for m in [m for m in sys.modules if m == 'pyodrx' or m.startswith('pyodrx.') or m.startswith('contracts')]:
            del sys.modules[m]
    return importlib.import_module('contracts.' + job['module'])


class Quiet:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def once(m, name, seed, given):
    spec.reset(seed, given)
    out = sys.stdout
    sys.stdout = Quiet()
    try:
        getattr(m, name)()
    except spec.Rejected:
        if not spec.Ctx.fails:
            return 'rejected'
    except RecursionError:
        spec._rec('no unexpected exception: RecursionError', False)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        spec._rec('no unexpected exception: %s' % type(e).__name__, False, '%s (%s:%d)' % (e, os.path.basename(tb.filename), tb.lineno))
    finally:
        sys.stdout = out
    return 'failed' if spec.Ctx.fails else 'ok'


res = {}
try:
    if job['module'] == 'constants':
        nums, texts = constants()
        with open(os.path.join(job['verif'], 'rt', 'constants.json'), 'w') as f:
            json.dump(dict(numbers=nums, texts=texts), f)
        sys.exit(0)
    constants()
    m = load(False)
    fresh = bool(getattr(m, 'CONFIG', {}).get('fresh'))
    names = job['contracts']
    seed = job['seed']
    if job.get('values') is not None:
        # replay: one or more sets of values; inputs they do not name are drawn at random
        m = load(fresh)
        vs = job['values'] if isinstance(job['values'], list) else [job['values']]
        end = time.time() + job['seconds']
        best = first = None
        for v in vs:
            for s in range(seed, seed + job.get('repeat', 1)):
                if fresh:
                    m = load(True)
                r = once(m, names[0], s, v)
                first = first or r
                if best is None or r == 'failed' or (best['status'] == 'rejected' and r == 'ok'):
                    best = dict(runs=1, status=r, seed=s, fails=[list(f) for f in spec.Ctx.fails], values=dict(spec.Ctx.values))
                if r == 'failed' or time.time() > end:
                    break
            if best['status'] == 'failed' or time.time() > end:
                break
        res[names[0]] = dict(best, first=first)
    else:
        state = {n: dict(runs=0, rejected=0, fails=None, evaluated={}) for n in names}
        end = time.time() + job['seconds']
        i = 0
        alive = list(names)
        while alive and time.time() < end and i < job['max_runs']:
            i += 1
            for n in list(alive):
                if fresh:
                    m = load(True)
                s = seed * 1000003 + i * 101
                r = once(m, n, s, None)
                st = state[n]
                st['runs'] += 1
                if r == 'rejected':
                    st['rejected'] += 1
                    continue
                for k, v in spec.Ctx.evaluated.items():
                    st['evaluated'][k] = st['evaluated'].get(k, 0) + v
                if r == 'failed':
                    st['fails'] = [list(f) for f in spec.Ctx.fails]
                    st['values'] = dict(spec.Ctx.values)
                    st['seed'] = s
                    alive.remove(n)
                if time.time() > end:
                    break
        res = state
except Exception as e:
    res = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()}
print(json.dumps(res, default=str))
