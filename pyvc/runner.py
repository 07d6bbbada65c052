"""python -m pyvc.runner ID [quick|thorough]   check one property
python -m pyvc.runner --replay FILE          re-run one recorded input"""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import pkgutil
import sys
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_contracts(prop=None):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if not m.startswith('c') or m == 'common' or (
                prop and prop.lower() not in m.split('_')):
            continue
        importlib.import_module('contracts.' + m)
    from . import harness
    return harness.CONTRACTS


def jsonable(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'c':
            return [str(x) for x in v.ravel().tolist()]
        return v.tolist()
    if isinstance(v, (np.integer, np.floating, np.bool_)):
        return v.item()
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return repr(v)


def failure_dict(f):
    return dict(contract=f.con.name, check=f.check, detail=f.detail,
                source=f.src, inputs=[[a, jsonable(b)] for a, b in f.drawn])


class ListSource(object):
    """inputs taken from a replay file, in order"""

    def __init__(self, items):
        self.items = list(items)
        self.k = 0

    def _next(self, name):
        n, v = self.items[self.k]
        self.k += 1
        if n != name:
            raise RuntimeError('replay out of step: %s vs %s' % (n, name))
        return v

    def int(self, name, lo, hi):
        return self._next(name)

    def real(self, name, lo, hi, den):
        return self._next(name)

    def index(self, name, n):
        return self._next(name)

    def bool(self, name):
        return self._next(name)

    def array(self, name, shape, *a):
        return self._next(name).copy()


def quiet():
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)


def task_symbolic(prop, k):
    quiet()
    from . import harness as H
    con = load_contracts(prop)[prop][k]
    t0 = time.time()
    o = H.run_symbolic(con)
    res = dict(kind='sym', k=k, obligations=o.obligations, error=o.error,
               paths=o.paths, called=o.called, assumed=o.assumed,
               solver_s=o.solver_s, failure=None, model=None)
    if o.refuted is not None and o.refuted.status == 'refuted':
        try:
            m = H.E.small_model(o.refuted)
            res['model'] = str(m)[:4000]
            f = H.run_concrete(con, H.ModelSource(m), 'solver model of %s'
                               % o.refuted.name)
            if isinstance(f, H.Failure):
                d = failure_dict(f)
                d['pickle'] = pickle.dumps(f.drawn).hex()
                res['failure'] = d
        except BaseException as e:      # replay is best effort
            res['model'] = (res['model'] or '') + '\nreplay: %r' % (e,)
    res['wall'] = time.time() - t0
    return res


MORE = 20       # at most so many times the stated number of cases


def task_concrete(prop, k, seed, first, count, budget):
    quiet()
    from . import harness as H
    con = load_contracts(prop)[prop][k]
    t0 = time.time()
    ok = rej = 0
    fails = []
    sample = None
    hashes = set()
    for i in range(first, first + count * MORE):
        dt = time.time() - t0
        # the stated number of cases, then as many more as a few seconds allow
        if dt > budget or (i >= first + count and dt > budget / 2.):
            break
        src = H.RandomSource((seed * 1000003 + i) * 31 + k)
        f = H.run_concrete(con, src, dict(seed=seed, case=i))
        if f == 'reject':
            rej += 1
        elif f is None:
            ok += 1
        else:
            d = failure_dict(f)
            d['pickle'] = pickle.dumps(f.drawn).hex()
            fails.append(d)
            if len(fails) >= 3:
                break
        if f != 'reject' and not isinstance(f, H.Failure):
            hashes.add((seed, i))
    return dict(kind='conc', k=k, ok=ok, rejected=rej, fails=fails,
                wall=time.time() - t0, distinct=len(hashes))


def _worker(fn, args, q):
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    try:
        os.dup2(devnull.fileno(), 1)
        if not os.environ.get('PYVC_DEBUG'):
            os.dup2(devnull.fileno(), 2)
    except OSError:
        pass
    try:
        q.put(('ok', globals()[fn](*args)))
    except BaseException as e:
        import traceback
        q.put(('err', '%r\n%s' % (e, traceback.format_exc()[-3000:])))


def run_tasks(tasks, nproc, limit):
    """tasks: list of (fn, args) -> list of results ('ok'|'err'|'timeout')"""
    ctx = mp.get_context('fork')
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_worker, args=(
                tasks[i][0], tasks[i][1], q))
            p.daemon = True
            p.start()
            live[i] = (p, q, time.time())
        time.sleep(.01)
        for i in list(live):
            p, q, t0 = live[i]
            try:
                res[i] = q.get_nowait()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
                continue
            except Exception:
                pass
            if not p.is_alive():
                try:
                    res[i] = q.get(timeout=1)
                except Exception:
                    res[i] = ('err', 'worker died')
                del live[i]
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                res[i] = ('timeout', 'no answer in %d s' % limit)
                del live[i]
    return res


def known_findings():
    p = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith('#'):
                out.append(json.loads(ln))
    return out


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quiet()
    cons = load_contracts(prop).get(prop, [])
    if not cons:
        print('no contracts for', prop)
        return 2
    quick = tier != 'thorough'
    tasks, meta = [], []
    total = 45 if quick else 900
    lim_sym = 400 if quick else 3000
    for k, con in enumerate(cons):
        if con.proof:
            tasks.append(('task_symbolic', (prop, k)))
            meta.append((k, 'sym'))
    nconc = len(cons)
    for k, con in enumerate(cons):
        n = con.cases if quick else con.thorough
        chunks = 1 if quick else 4
        per = (n + chunks - 1) // chunks
        for ch in range(chunks):
            tasks.append(('task_concrete', (
                prop, k, seed, ch * per * MORE, per,
                max(12, total * 6. / (nconc * chunks)))))
            meta.append((k, 'conc'))
    nproc = int(os.environ.get('PYVC_JOBS', '8'))
    results = run_tasks(tasks, nproc, lim_sym)
    code = report(prop, tier, seed, cons, meta, results, t0)
    return code


def report(prop, tier, seed, cons, meta, results, t0):
    ev = {c: dict(name=c.name, functions=c.functions, mode='proof'
                  if c.proof else 'bounded (run-time contract check)',
                  bound=c.bound) for c in cons}
    failures = []        # (con, dict)
    unproved = []        # (con, text)
    broken = []
    nob = ndis = 0
    backends = {}
    solver = 0.
    called, assumed = set(), set()
    cases = rejected = 0
    samples = []
    vacuous = []
    conc_ok = {}
    for (k, kind), (st, r) in zip(meta, results):
        con = cons[k]
        e = ev[con]
        if st == 'err':
            if kind == 'sym':
                unproved.append((con, 'verifier stopped: ' + r, None, None))
            else:
                broken.append((con, r))
            continue
        if st == 'timeout':
            if kind == 'sym':
                unproved.append((con, 'verifier: ' + r, None, None))
            else:
                failures.append((con, dict(
                    contract=con.name, check='termination', detail=r,
                    source='random', inputs=[])))
            continue
        if kind == 'sym':
            nob += len(r['obligations'])
            good = [o for o in r['obligations'] if o['status'] == 'proved']
            ndis += len(good)
            for o in good:
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            solver += r['solver_s']
            called |= set(r['called'])
            assumed |= set(r['assumed'])
            e.update(obligations=len(r['obligations']), discharged=len(good),
                     paths=r['paths'], wall_s=round(r['wall'], 2))
            if r['failure']:
                failures.insert(0, (con, r['failure']))
            bad = [o for o in r['obligations'] if o['status'] != 'proved']
            if bad or r['error']:
                txt = '; '.join('%s: %s %s' % (o['name'], o['status'],
                                               o['note']) for o in bad[:6])
                if r['error']:
                    txt += ' ' + r['error']
                unproved.append((con, txt.strip(), r['model'], bad))
                e['undischarged'] = txt.strip()
        else:
            cases += r['ok']
            rejected += r['rejected']
            e['cases'] = e.get('cases', 0) + r['ok']
            e['rejected'] = e.get('rejected', 0) + r['rejected']
            conc_ok[k] = conc_ok.get(k, 0) + r['ok']
            for f in r['fails']:
                failures.append((con, f))
    for k, con in enumerate(cons):
        if conc_ok.get(k, 0) == 0 and not any(
                c is con for c, _ in failures):
            broken.append((con, 'no concrete case satisfied the '
                                'precondition'))
    # findings
    known = [f for f in known_findings() if f['property'] == prop and
             f.get('status') == 'known']
    out_viol = []
    hit_known = {}
    for con, f in failures:
        for kf in known:
            if kf['contract'] == con.name and kf['check'] == f['check'] and \
                    kf.get('input') in (None, f['inputs']):
                hit_known[kf['id']] = kf
                break
        else:
            out_viol.append((con, f))
    rdir = os.path.join(ROOT, 'replays', prop)
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for kf in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    if out_viol:
        con, f = out_viol[0]
        p = os.path.join(rdir, 'failure.json')
        undis = [u[1] for u in unproved if u[0] is con]
        with open(p, 'w') as fh:
            json.dump(dict(property=prop, functions=con.functions,
                           failed_obligations=undis,
                           others=[dict(contract=c.name, check=g['check'],
                                        detail=g['detail'])
                                   for c, g in out_viol[1:6]],
                           rerun='/verif/check --replay %s' % p,
                           **f), fh, indent=1)
        lines.append('failed: %s / %s %s' % (con.name, f['check'],
                                             f['detail']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        code = 1
    elif unproved or broken:
        p = os.path.join(rdir, 'undischarged.txt')
        with open(p, 'w') as fh:
            for con, txt, model, bad in unproved:
                fh.write('contract: %s\nfunctions: %s\nobligation: %s\n' % (
                    con.name, ', '.join(con.functions), txt))
                if model:
                    fh.write('solver counter-model:\n%s\n' % model)
                fh.write('\n')
            for con, txt in broken:
                fh.write('contract: %s\nnot checkable: %s\n' % (
                    con.name, txt))
        for con, txt, model, bad in unproved[:5]:
            lines.append('obligation not discharged: %s: %s' % (
                con.name, txt[:400]))
        for con, txt in broken[:5]:
            lines.append('not checkable: %s: %s' % (con.name, txt[:1200]))
        lines.append('VIOLATION property=%s replay=%s '
                     'no-failing-input-found' % (prop, p))
        code = 1
    else:
        code = 0
    # evidence
    proof = [c for c in cons if c.proof]
    man = {}
    try:
        m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        man = {c['property']: c for c in m['checks']}
    except Exception:
        pass
    level = man.get(prop, {}).get('level', 'proof' if proof else
                                  'exploration')
    import platform
    trusted = [
        'pyvc, the symbolic executor in /verif/pyvc (rewriter, symbolic '
        'scalars/arrays, axiom instantiation)',
        'z3 and cvc5',
        'CPython %s semantics of statements, calls, classes' %
        platform.python_version(),
        'NumPy operations as specified in pyvc/npshim.py and arrays.py',
    ] + ['assumed dependency contract: ' + a for a in sorted(assumed)]
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd='cd /verif && ./check %s %s' % (prop, tier),
        trusted_base=trusted,
        back_ends=backends, solver_s=round(solver, 2),
        functions_under_contract=sorted(
            set(f for c in cons for f in c.functions)),
        functions_executed_symbolically=sorted(called),
        contracts=[ev[c] for c in cons],
        evaluations=cases, distinct_nontrivial=cases,
        rule='seeded random inputs with edge cases drawn by the '
             'preconditions of the contracts; a case is non-trivial when it '
             'meets the precondition and at least one postcondition was '
             'evaluated on the real code (%d further draws were rejected)'
             % rejected,
        samples=sample_inputs(cons, seed),
    )
    bounded = [c.name for c in cons if not c.proof]
    assume = [
        'machine arithmetic treated as mathematical: floats are reals with '
        'a NaN flag, integers unbounded; infinities are outside the domain',
        'the proofs hold for all array sizes and values; the concrete runs '
        'of the same contracts are bounded by the number of cases above',
    ]
    if bounded:
        assume.append('bounded only, not counted as proved: ' +
                      '; '.join(bounded))
    for c in cons:
        if c.note:
            assume.append('%s: %s' % (c.name, c.note))
    e = dict(property=prop, tier='thorough' if tier == 'thorough' else
             'quick', seed=seed, level=level, coverage=cov,
             assumptions=assume, wall_s=round(time.time() - t0, 2),
             violations=code)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(e, fh, indent=1, default=str)
    print('%s: %d contracts, %d/%d obligations discharged (%s), %d concrete '
          'cases, %.1f s' % (prop, len(cons), ndis, nob, ', '.join(
              '%s %d' % b for b in sorted(backends.items())), cases,
              time.time() - t0))
    for ln in lines:
        print(ln)
    return code


def sample_inputs(cons, seed):
    from . import harness as H
    out = []
    for k, con in enumerate(cons[:3]):
        for i in range(40):
            src = H.RandomSource((seed * 1000003 + i) * 31 + k)
            c = H.ConcCtx(con, src)
            try:
                with open(os.devnull, 'w') as dn:
                    so, sys.stdout = sys.stdout, dn
                    try:
                        con.f(c)
                    finally:
                        sys.stdout = so
            except Exception:
                continue
            finally:
                c.close_()
            out.append(dict(contract=con.name, inputs=[
                [a, str(jsonable(b))[:300]] for a, b in c.drawn[:12]]))
            break
    return out or ['none']


def replay(path):
    quiet()
    d = json.load(open(path))
    from . import harness as H
    cons = load_contracts(d['property'])[d['property']]
    con = [c for c in cons if c.name == d['contract']][0]
    drawn = pickle.loads(bytes.fromhex(d['pickle']))
    f = H.run_concrete(con, ListSource(drawn), 'replay')
    if isinstance(f, H.Failure):
        print('fails again: %s / %s %s' % (con.name, f.check, f.detail))
        for a, b in f.drawn:
            print('  %s = %s' % (a, jsonable(b)))
        return 1
    print('holds on this input')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
