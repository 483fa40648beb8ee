"""check.py <property> quick|thorough: the deciding run for one property.

1. every contract of the property is executed symbolically on the source in /repo (engine) and every obligation discharged;
2. a contract the executor cannot run for unbounded sizes is run for bounded sizes instead (labelled bounded);
3. the same contracts are evaluated at run time on the real code under the project's own interpreter, on random inputs;
4. counterexamples of refuted obligations are replayed on the real code."""
import itertools
import json
import multiprocessing as mp
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time
import z3
from . import run as R
from . import models, directed
from .core import Text, LITS_REV, as_const
from fractions import Fraction

VERIF = R.HERE
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
TIERS = {'quick': dict(concrete=25.0, procs=2, unbounded=170, bounded=130, solver=8.0, maxcombos=60, symbolic=520, replay=120),
         'thorough': dict(concrete=200.0, procs=3, unbounded=330, bounded=330, solver=40.0, maxcombos=400, symbolic=560, replay=120)}


# ---------------------------------------------------------------- counterexamples
def text_value(v):
    try:
        n = v.decl().name()
        if n == 'tlit':
            return LITS_REV[v.arg(0).as_long()]
        if n == 'tnum':
            c = as_const(v.arg(0))
            f = float(c)
            return str(int(f)) if f == int(f) else str(f)
        if n == 'tsym':
            return 's%d' % abs(v.arg(0).as_long())
    except Exception:
        pass
    return 's'


def val(v):
    c = as_const(v)
    if isinstance(c, (bool, int)):
        return c
    if isinstance(c, Fraction):
        return float(c) if c.denominator != 1 else int(c)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if v.sort() == Text:
        return text_value(v)
    return None


def model_values(m):
    """z3 model or numeric environment -> values of the contract inputs"""
    out = {}
    if m is None:
        return None
    if isinstance(m, dict):
        for k, v in m.items():
            if k[0].startswith('in!'):
                out[k[0][3:] + ('(%s)' % ','.join(str(int(x)) for x in k[1:]) if len(k) > 1 else '')] = v
        return out
    for d in m.decls():
        if not d.name().startswith('in!'):
            continue
        nm = d.name()[3:]
        if d.arity() == 0:
            x = val(m[d])
            if x is not None:
                out[nm] = x
        else:
            fi = m[d]
            if isinstance(fi, z3.FuncInterp):
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    x = val(e.value())
                    if x is not None:
                        out['%s(%s)' % (nm, ','.join(str(val(e.arg_value(j))) for j in range(e.num_args())))] = x
                ev = fi.else_value()
                x = val(ev) if ev is not None else None
                if x is not None:
                    out[nm + '(*)'] = x
            # entries for small indices (the model may define the function by an expression)
            for ix in itertools.product(range(4), repeat=min(d.arity(), 2)):
                if len(ix) != d.arity() or any(d.domain(j) != z3.IntSort() for j in range(d.arity())):
                    continue
                x = val(m.eval(d(*[z3.IntVal(i) for i in ix]), model_completion=True))
                if x is not None:
                    out.setdefault('%s(%s)' % (nm, ','.join(map(str, ix))), x)
    return out


def summary(r, bounded_sizes=None):
    obs = []
    left = 60.0
    for ob in r.obligations:
        more = []
        if ob.verdict != 'proved' and left > 0:
            t0 = time.time()
            for m, env in directed.points(r.interp, ob):
                try:
                    v = model_values(m) or {}
                except z3.Z3Exception:
                    v = {}
                v.update(model_values(env))
                more.append(v)
            left -= time.time() - t0
        try:
            mv = model_values(ob.model) if ob.verdict == 'refuted' else None
        except z3.Z3Exception:
            mv = None
        obs.append(dict(label=ob.label, verdict=ob.verdict, backend=ob.backend, time=round(ob.time, 3), note=str(ob.note)[:200] if ob.note else None,
                        values=mv, more=more, approx=bool(ob.approx), quant=bool(ob.facts), goal=str(ob.goal)[:600] if ob.verdict != 'proved' else None,
                        pc=[str(c)[:200] for c in ob.pc][:12] if ob.verdict != 'proved' else None))
    return dict(name=r.name, mode=r.mode, error=r.error, paths=r.paths, obligations=obs, functions=r.functions, wall=round(r.wall, 2),
                truncated=r.truncated, vacuous=r.vacuous, sizes=bounded_sizes, size_names=getattr(r, 'size_names', {}))


def job_unbounded(module, fname, timeout, out):
    r = R.run(module, fname, None, timeout)
    if r.error and not hasattr(r, 'size_names'):
        r.size_names = {}
    with open(out, 'w') as f:
        json.dump(summary(r), f)


def job_bounded(module, fname, timeout, out, limit, maxcombos):
    """all size combinations, smallest first; the sizes are found by running"""
    t0 = time.time()
    names = {}
    results = []
    done = set()
    queue = [{}]
    note = None
    while queue and len(results) < maxcombos and time.time() - t0 < limit * 0.8:
        queue.sort(key=lambda c: (sum(v - names[k][0] for k, v in c.items()), sorted(c.items())))
        c = queue.pop(0)
        if json.dumps(c, sort_keys=True) in done:
            continue
        done.add(json.dumps(c, sort_keys=True))
        need = {}
        r = bounded_one(module, fname, c, timeout, need)
        new = [k for k in need if k not in c]
        if new:
            for k in new:
                names[k] = need[k]
            for vs in itertools.product(*[range(need[k][0], need[k][1] + 1) for k in new]):
                queue.append(dict(c, **dict(zip(new, vs))))
            continue
        results.append((c, summary(r, c)))
        if r.error:
            note = r.error
    with open(out, 'w') as f:
        json.dump(dict(results=[s for c, s in results], complete=not queue, note=note), f)


def bounded_one(module, fname, sizes, timeout, need):
    """run with given sizes; a size asked for that is not given is reported in need"""
    from . import spec as S
    real = S.any_size

    class Need(Exception):
        pass

    def any_size(I, a, kw):
        name = I.force(a[0])
        if name in sizes:
            return sizes[name]
        need[name] = S.size_range(I, a, kw)
        raise R.Unsupported('size ' + name)
    S.any_size = any_size
    try:
        return R.run(module, fname, sizes, timeout)
    finally:
        S.any_size = real


def start(fn, args):
    p = mp.get_context('fork').Process(target=fn, args=args, daemon=False)
    p.start()
    return p


# ---------------------------------------------------------------- concrete stage
def concrete(module, names, seed, seconds, scratch, tag, values=None, repeat=1):
    d = os.path.join(scratch, 'c' + tag)
    os.makedirs(d, exist_ok=True)
    j = os.path.join(scratch, 'job%s.json' % tag)
    with open(j, 'w') as f:
        json.dump(dict(repo=R.REPO, verif=VERIF, module=module, contracts=names, seed=seed, seconds=seconds, max_runs=200000, scratch=d, values=values, repeat=repeat), f)
    # one process in a UTF-8 locale, the others in the C locale
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8' if tag == 'r0' else 'C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', PYTHONIOENCODING='utf-8')
    return subprocess.Popen([PY, os.path.join(VERIF, 'rt', 'run.py'), j], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, cwd=d)


def result_of(p, limit):
    try:
        o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'error': 'time limit', 'trace': ''}
    try:
        return json.loads(o.strip().split('\n')[-1])
    except (ValueError, IndexError):
        return {'error': 'no result', 'trace': (e or '')[-1500:]}


def known_findings(pid):
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding: ') and 'property=%s ' % pid in l:
                d = dict(x.split('=', 1) for x in l.split(' -- ')[0].split()[1:] if '=' in x)
                d['text'] = l.split(' -- ', 1)[1] if ' -- ' in l else l
                out.append(d)
    return out


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = dict(TIERS[tier])
    module = pid.lower()
    conf = R.config(module)
    cfg.update(conf.get(tier, {}))
    names = R.contract_names(module)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    evfile = os.path.join(evdir, pid + '.json')
    if os.path.exists(evfile):
        os.remove(evfile)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return decide(pid, tier, seed, cfg, conf, module, names, scratch, evdir, evfile, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, tier, seed, cfg, conf, module, names, scratch, evdir, evfile, t0):
    conc = [concrete(module, names, seed * 10 + i, cfg['concrete'], scratch, 'r%d' % i) for i in range(cfg['procs'])]
    # ---- symbolic stage
    sym = {}
    bnd = {}
    skip = set(conf.get('concrete_only', ()))
    pending = [(n, 'u') for n in names if n not in skip]
    running = []
    maxp = 6
    deadline = time.time() + cfg['symbolic']
    only_bounded = set(conf.get('bounded', ()))
    pending = [(n, 'b' if n in only_bounded else 'u') for n, _ in pending]
    while pending or running:
        if time.time() > deadline:
            for n, kind in pending:
                sym.setdefault(n, dict(name=module + '.' + n, error='time limit', obligations=[], functions=[], paths=0, mode=kind, vacuous=False, truncated=False, wall=0))
            pending = []
        while pending and len(running) < maxp:
            n, kind = pending.pop(0)
            out = os.path.join(scratch, '%s_%s.json' % (kind, n))
            if kind == 'u':
                p = start(job_unbounded, (module, n, cfg['solver'], out))
                lim = cfg['unbounded']
            else:
                p = start(job_bounded, (module, n, cfg['solver'], out, cfg['bounded'], cfg['maxcombos']))
                lim = cfg['bounded']
            running.append((p, n, kind, out, time.time(), lim))
        time.sleep(0.05)
        for x in list(running):
            p, n, kind, out, ts, lim = x
            if p.is_alive() and time.time() - ts < lim and time.time() < deadline:
                continue
            if p.is_alive():
                p.terminate()
                p.join(2)
                if p.is_alive():
                    p.kill()
            p.join()
            running.remove(x)
            try:
                with open(out) as f:
                    r = json.load(f)
            except (OSError, ValueError):
                r = dict(name=module + '.' + n, error='time limit or crash (exit %s)' % p.exitcode, obligations=[], functions=[], paths=0, mode=kind, results=[], complete=False, note='time limit or crash', vacuous=False, truncated=False, wall=time.time() - ts)
            if kind == 'u':
                sym[n] = r
                if r.get('error') or any(o['verdict'] != 'proved' for o in r['obligations']):
                    pending.append((n, 'b'))
            else:
                bnd[n] = r
    # ---- concrete stage
    cres = [result_of(p, cfg['concrete'] + 200) for p in conc]
    errors = [c for c in cres if 'error' in c]
    runs = {n: dict(runs=0, rejected=0, evaluated={}) for n in names}
    failing = {}
    for c in cres:
        if 'error' in c:
            continue
        for n, st in c.items():
            runs[n]['runs'] += st['runs']
            runs[n]['rejected'] += st['rejected']
            for k, v in st['evaluated'].items():
                runs[n]['evaluated'][k] = runs[n]['evaluated'].get(k, 0) + v
            if st.get('fails') and n not in failing:
                failing[n] = dict(contract=n, fails=st['fails'], values=st['values'], seed=st['seed'])
    # ---- replay of counterexamples, and of inputs that reach the obligations left open
    refuted = []          # (contract, obligation, sizes)
    for n in names:
        rs = []
        if n in sym:
            rs += [(o, None) for o in sym[n]['obligations'] if o['verdict'] != 'proved']
        if n in bnd:
            for r in bnd[n].get('results', ()):
                rs += [(o, r['sizes']) for o in r['obligations'] if o['verdict'] != 'proved']
        rs.sort(key=lambda x: x[0]['verdict'] != 'refuted')
        refuted += [(n, o, s) for o, s in rs]
    replays = 0
    spurious, open_ = [], []
    disproved = set()     # contracts with a refutation that the real code contradicts
    seen = {}
    rend = time.time() + cfg.get('replay', 150)
    for n, o, s in refuted:
        if n in failing:
            continue
        if seen.get(n, 0) >= 10 or time.time() > rend:
            continue
        seen[n] = seen.get(n, 0) + 1
        tries = ([dict(o['values'] or {}, **(s or {}))] if o['verdict'] == 'refuted' else []) + [dict(v, **(s or {})) for v in o['more']]
        if not tries:
            continue
        replays += len(tries)
        r = result_of(concrete(module, [n], seed, 25, scratch, 'p%d' % replays, values=tries, repeat=2), 60)
        if 'error' in r:
            status = 'error'
        else:
            st = r[n]
            status = st['first'] if o['verdict'] == 'refuted' else st['status']
            if st['status'] == 'failed':
                failing[n] = dict(contract=n, fails=st['fails'], values=st['values'], seed=st['seed'], from_obligation=o['label'])
                continue
        if status == 'rejected' and o['verdict'] == 'refuted' and not o['approx'] and not o['quant'] and o['backend'] == 'z3':
            open_.append((n, o, s))
        elif o['verdict'] == 'refuted':
            spurious.append((n, o['label'], status))
            if status == 'ok':
                disproved.add(n)
    # ---- verdict
    known = known_findings(pid)
    lines = []
    viol = []
    for n, f in failing.items():
        k = [d for d in known if d.get('contract') == n and any(d.get('label', '').replace('_', ' ') in l[0] for l in f['fails'])]
        if k:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[0]['text']))
            continue
        viol.append((n, f, ''))
    if not viol:
        for n, o, s in open_:
            if n in failing:
                continue
            viol.append((n, dict(contract=n, obligation=o['label'], verifier_output=dict(goal=o['goal'], path_condition=o['pc'], model=o['values'], backend=o['backend'], note=o['note']), sizes=s), ' no-failing-input-found'))
            break
    if not viol:
        # an obligation that neither the unbounded nor the bounded run discharges and no replay contradicts
        for n in names:
            if n in failing or n in disproved or n not in bnd:
                continue
            bad = [(o, r['sizes']) for r in bnd[n].get('results', ()) for o in r['obligations'] if o['verdict'] != 'proved']
            full = [o for o in sym.get(n, {}).get('obligations', ()) if o['verdict'] != 'proved']
            if bad and (full or sym.get(n, {}).get('error') or n in only_bounded):
                o, s = bad[0]
                viol.append((n, dict(contract=n, obligation=o['label'], verdict=o['verdict'], unbounded=[(x['label'], x['verdict']) for x in full][:20],
                                     verifier_output=dict(goal=o['goal'], path_condition=o['pc'], model=o['values'], backend=o['backend'], note=o['note']), sizes=s), ' no-failing-input-found'))
                break
    proved = sum(1 for n in sym for o in sym[n]['obligations'] if o['verdict'] == 'proved')
    total = sum(len(sym[n]['obligations']) for n in sym)
    fully = [n for n in names if n in sym and not sym[n]['error'] and not sym[n]['vacuous'] and sym[n]['obligations'] and all(o['verdict'] == 'proved' for o in sym[n]['obligations'])]
    bounded = {}
    for n, r in bnd.items():
        obs = [o for x in r.get('results', ()) for o in x['obligations']]
        ok = bool(obs) and all(o['verdict'] == 'proved' for o in obs) and not any(x['error'] for x in r['results'])
        bounded[n] = dict(size_combinations=[x['sizes'] for x in r.get('results', ())], all_combinations_covered=bool(r.get('complete')), obligations=len(obs), discharged=sum(o['verdict'] == 'proved' for o in obs),
                          holds_within_bound=ok, loops_cut=any(x['truncated'] for x in r.get('results', ())), note=r.get('note'),
                          reason_not_unbounded=(sym.get(n, {}).get('error') or 'configured'))
    undecided = [n for n in names if n not in fully and not (n in bounded and bounded[n]['holds_within_bound'])]
    backends = {}
    stime = {}
    functions = set()
    for n in sym:
        functions |= set(sym[n]['functions'])
        for o in sym[n]['obligations']:
            backends[o['backend']] = backends.get(o['backend'], 0) + (o['verdict'] == 'proved')
            stime[o['backend']] = round(stime.get(o['backend'], 0) + o['time'], 3)
    for n in bnd:
        for x in bnd[n].get('results', ()):
            functions |= set(x['functions'])
    vacuous = [n for n in sym if sym[n]['vacuous'] and not sym[n]['error']]
    level = 'proof' if len(fully) == len(names) else 'other'
    from . import assumptions as A
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1), violations=len(viol),
              coverage=dict(obligations=total, discharged=proved, checker_cmd='bin/check %s %s' % (pid, tier), trusted_base=A.TRUSTED,
                            contracts=len(names), contracts_proved_unbounded=fully, contracts_bounded=bounded, contracts_undecided_symbolically=undecided,
                            concrete_only=sorted(skip),
                            functions_executed_under_contract=sorted(functions), discharged_by_backend=backends, solver_seconds=stime,
                            paths=sum(sym[n]['paths'] for n in sym), vacuity='every proved contract has a feasible path to its end and at least one obligation',
                            vacuous=vacuous,
                            runtime_evaluations=sum(v['runs'] - v['rejected'] for v in runs.values()),
                            runtime_rejected=sum(v['rejected'] for v in runs.values()),
                            runtime_obligations_checked=sum(sum(v['evaluated'].values()) for v in runs.values()),
                            per_contract={n: dict(paths=sym[n]['paths'], obligations=len(sym[n]['obligations']), error=sym[n]['error'], wall=sym[n]['wall']) for n in sym},
                            counterexamples_replayed=replays, refutations_not_confirmed=spurious[:20]),
              assumptions=A.ASSUMPTIONS + list(conf.get('assumptions', ())))
    if level == 'other':
        ev['coverage']['explanation'] = ('contract-based deductive verification; %d of %d contracts are discharged for all sizes (%s); the others are decided by the same contracts under a stated bound on the sizes (contracts_bounded) '
                                         'and by evaluating them at run time on random inputs of the real code, which counts as bounded checking and not as proof'
                                         % (len(fully), len(names), ', '.join(fully) or 'none'))
    if bounded:
        ev['coverage']['bounded_obligations'] = sum(b['obligations'] for b in bounded.values())
        ev['coverage']['bounded_discharged'] = sum(b['discharged'] for b in bounded.values())
    with open(evfile, 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print('%s %s: %d/%d obligations discharged (unbounded), %d of %d contracts proved, %d bounded, %d undecided; %d run-time evaluations; %.1fs'
          % (pid, tier, proved, total, len(fully), len(names), sum(b['holds_within_bound'] for b in bounded.values()), len(undecided), ev['coverage']['runtime_evaluations'], time.time() - t0))
    for n in undecided:
        s = sym.get(n)
        print('  undecided: %s: %s' % (n, (s or {}).get('error') or [(o['label'], o['verdict']) for o in (s or {}).get('obligations', ()) if o['verdict'] != 'proved'][:3]))
    for n, b in bounded.items():
        if b['holds_within_bound']:
            print('  bounded: %s: %s' % (n, b['reason_not_unbounded']))
    for n in spurious[:5]:
        print('  refutation not confirmed by replay: %s' % (n,))
    if viol:
        for n, f, suffix in viol[:1]:
            rp = os.path.join(evdir, 'replay', '%s.json' % pid)
            f = dict(f, property=pid, module=module, how='bin/replay %s' % rp)
            with open(rp, 'w') as fh:
                json.dump(f, fh, indent=1, default=str)
            print('failed: %s: %s' % (n, (f.get('fails') or [f.get('obligation')])[:3]))
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, suffix))
        return 1
    if len(errors) == len(cres) and errors:
        # the contracts could not be loaded on this tree at all
        print('run-time stage failed: %s' % errors[0]['error'])
        print(errors[0].get('trace', '')[-1500:])
        if not fully:
            rp = os.path.join(evdir, 'replay', '%s.json' % pid)
            with open(rp, 'w') as fh:
                json.dump(dict(property=pid, error=errors[0]), fh)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
            return 1
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
