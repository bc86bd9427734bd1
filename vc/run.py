"""Decide one property: deductive obligations from /repo's current source + run-time contract evaluation.

usage: python3-vt -m vc.run Cnn [--tier quick|thorough]
       python3-vt -m vc.run --replay FILE"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vc import api        # noqa: E402
from tools.levels import LEVEL        # noqa: E402

PYPY = os.environ.get('VC_PYPY', '/opt/pypyvenv/bin/python')
REPO = os.environ.get('VC_REPO', '/repo')
EVID = os.environ.get('VC_EVIDENCE', os.path.join(HERE, 'evidence'))
NPROC = 8


def pypy_start(req):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', VC_REPO=REPO, PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_TIER=req.get('tier', 'quick'))
    p = subprocess.Popen([PYPY, os.path.join(HERE, 'vc', 'runctx.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, cwd='/tmp', text=True)
    p.stdin.write(json.dumps(req))
    p.stdin.close()
    p.stdin = None
    return p


def pypy_wait(p, timeout):
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'run-time checker timed out'
    try:
        return json.loads(o), e
    except ValueError:
        return None, 'run-time checker failed: ' + (e or '')[-1500:]


def _worker(prop, name, seed, tier, deadline, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(6000)
        from vc import symctx
        con = [c for c in api.load(prop) if c.name == name][0]
        r = symctx.verify(con, seed=seed, tier=tier, repo=REPO, deadline=deadline)
    except BaseException as e:
        r = {'contract': name, 'status': 'undecided', 'reason': 'engine: %r' % (e,), 'n': 0, 'proved': 0, 'failures': [],
             'obligations': [], 'paths': 0, 'completed': 0, 'solver_time': 0, 'queries': 0, 'trusted': [], 'stubs': [],
             'wall': 0, 'func': []}
    q.put(r)


def symbolic(prop, cons, seed, tier, nproc):
    todo = sorted(cons, key=lambda c: -c.timeout)
    running = {}
    res = {}
    while todo or running:
        while todo and len(running) < nproc:
            c = todo.pop(0)
            q = mp.Queue()
            lim = c.timeout * (3 if tier == 'thorough' else 1)
            p = mp.Process(target=_worker, args=(prop, c.name, seed, tier, time.time() + lim, q))
            p.start()
            running[c.name] = (p, q, time.time() + lim + 40, c)
        time.sleep(0.03)
        for n in list(running):
            p, q, dl, c = running[n]
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = False
                elif time.time() > dl:
                    p.kill()
                    r = False
            if r is None:
                continue
            if r is False:
                r = {'contract': n, 'status': 'undecided', 'reason': 'verifier process ended (time or memory limit)', 'n': 0,
                     'proved': 0, 'failures': [], 'obligations': [], 'paths': 0, 'completed': 0, 'solver_time': 0,
                     'queries': 0, 'trusted': [], 'stubs': [], 'wall': 0, 'func': c.func}
            p.join(5)
            if p.is_alive():
                p.kill()
            res[n] = r
            del running[n]
    return res


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = json.loads(line[len('finding:'):])
                if d['property'] == prop:
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cons = api.load(prop)
    if a.only:
        cons = [c for c in cons if c.name in a.only.split(',')]
    byname = {c.name: c for c in cons}
    symc = [c for c in cons if c.sym and (c.tier == 'quick' or tier == 'thorough')]
    # ---- bounded part, in the background: PyPy, real numpy, real code
    parts = 3 if tier == 'quick' else 6
    mult = (1.0 if tier == 'quick' else 20.0) / parts
    budget = 240 if tier == 'quick' else 2400
    base = {'prop': prop, 'mode': 'check', 'seed': seed, 'tier': tier, 'budget': budget, 'mult': mult}
    procs = [pypy_start(dict(base, part=[i, parts])) for i in range(parts)]
    # ---- deductive part
    sres = symbolic(prop, symc, seed, tier, max(1, NPROC - parts))
    # ---- run-time results
    rt = {}
    rt_err = ''
    for p in procs:
        o, e = pypy_wait(p, budget + 120)
        if o is None:
            rt_err = e
            continue
        for k, v in o['results'].items():
            d = rt.setdefault(k, {'evaluated': 0, 'discarded': 0, 'checks': 0, 'violations': [], 'sample': None, 'distinct': 0})
            for f in ('evaluated', 'discarded', 'checks', 'distinct'):
                d[f] += v[f]
            d['violations'] += v['violations']
            d['sample'] = d['sample'] or v['sample']
    # ---- undecided contracts: deepen the bounded stand-in
    deep = [n for n, r in sres.items() if r['status'] == 'undecided' and byname[n].run]
    failures = []
    for n, d in rt.items():
        for v in d['violations']:
            failures.append({'contract': n, 'obligation': v['obligation'], 'source': 'run-time', 'inputs': v['inputs'],
                             'seed': v['seed'], 'case': v.get('case', 0), 'detail': v['detail']})
    # ---- replay of refuted obligations
    items, meta = [], {}
    for n, r in sres.items():
        k = 0
        for f in r['failures']:
            if f['status'] == 'refuted' and f['model'] is not None and byname[n].run and k < 12:
                i = '%s/%d' % (n, k)
                k += 1
                items.append({'id': i, 'contract': n, 'model': f['model']})
                meta[i] = (n, f)
                f['replay_id'] = i
    unreplayed = []
    if items:
        o, e = pypy_wait(pypy_start({'prop': prop, 'mode': 'replay', 'items': items, 'tier': tier}), 200)
        got = (o or {}).get('results', {})
        for i, (n, f) in meta.items():
            g = got.get(i)
            f['replay'] = g['status'] if g else 'not run'
            if g and g['status'] == 'violation':
                failures.append({'contract': n, 'obligation': f['obligation'], 'source': 'verifier counterexample, replayed',
                                 'inputs': g['inputs'], 'model': f['model'], 'seed': 'replay', 'detail': g['info']['detail'],
                                 'failed_at': g['info']['obligation'], 'verifier': {x: f[x] for x in ('status', 'by', 'info')}})
    replayed = {f['contract'] for f in failures}
    undecided = []
    for n, r in sres.items():
        if r['status'] == 'undecided':
            undecided.append({'contract': n, 'reason': r['reason']})
        for f in r['failures']:
            hard = (f['status'] == 'refuted' and f['kind'] == 'post' and
                    f['by'] in ('sample', 'z3', 'ring', 'structure') and f['model'] is not None)
            if n in replayed:
                continue
            if hard and (f.get('replay') in ('ok', None) or True):
                unreplayed.append({'contract': n, 'obligation': f['obligation'], 'source': 'verifier', 'model': f['model'],
                                   'verifier': {x: f[x] for x in ('status', 'by', 'info')}, 'replay': f.get('replay')})
            else:
                undecided.append({'contract': n, 'obligation': f['obligation'], 'reason': '%s by %s (replay: %s) %s' % (
                    f['status'], f['by'], f.get('replay'), f['info'][:300])})
    # ---- deepened bounded stand-in where the verifier gave no answer
    und_names = sorted({u['contract'] for u in undecided})
    if (und_names or unreplayed) and not failures and tier == 'quick' and time.time() - t0 < 450:
        dprocs = [pypy_start(dict(base, part=[i, 7], mult=6.0 / 7, seed=seed * 1000 + 7, budget=150)) for i in range(7)]
        for p in dprocs:
            o, e = pypy_wait(p, 220)
            for k, v in (o or {'results': {}})['results'].items():
                for x in v['violations']:
                    failures.append({'contract': k, 'obligation': x['obligation'], 'source': 'run-time', 'inputs': x['inputs'],
                                     'seed': x['seed'], 'case': x.get('case', 0), 'detail': x['detail']})
                if k in rt:
                    for f in ('evaluated', 'discarded', 'checks', 'distinct'):
                        rt[k][f] += v[f]
    # ---- known findings
    kf = known_findings(prop)
    def is_known(f):
        for d in kf:
            if d['contract'] == f['contract'] and d.get('obligation') in (None, f['obligation'], f.get('failed_at')):
                return d
        return None
    shown = set()
    real = []
    for f in failures:
        d = is_known(f)
        if d:
            if d['what'] not in shown:
                shown.add(d['what'])
                print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
        else:
            real.append(f)
    hardun = [u for u in unreplayed if not is_known(u)]
    # ---- evidence
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    n_obl = sum(r['n'] for r in sres.values())
    n_prov = sum(r['proved'] for r in sres.values())
    trusted = ['CPython 3.12 + numpy object arrays (array structure, views)', 'vc engine (path exploration, ring normaliser)',
               'z3 4.x / cvc5 1.1.2', 'machine arithmetic treated as exact real/integer arithmetic; a float literal denotes its decimal value',
               'np.round to >= 5 decimals treated as identity']
    for r in sres.values():
        for t in r['trusted']:
            if t not in trusted:
                trusted.append(t)
    funcs = sorted({f for n, r in sres.items() if r['status'] == 'ok' for f in byname[n].func})
    by = {}
    for r in sres.values():
        for o in r['obligations']:
            if o['status'] == 'proved':
                by[o['by']] = by.get(o['by'], 0) + o['count']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'proof'),
        'coverage': {
            'evaluations': sum(d['evaluated'] for d in rt.values()),
            'distinct_nontrivial': sum(d['distinct'] for d in rt.values()),
            'rule': 'run-time contract evaluations on the real code: inputs generated per contract from the seed; a case counts when every precondition holds, '
                    'distinct by its generated inputs',
            'samples': [dict(contract=n, inputs=d['sample']) for n, d in sorted(rt.items()) if d['sample']][:8],
            'obligations': n_obl, 'discharged': n_prov,
            'checker_cmd': 'cd /verif && python3-vt -m vc.run %s --tier %s' % (prop, tier),
            'trusted_base': trusted,
            'functions_under_contract': funcs,
            'discharged_by': by,
            'solver_time_s': round(sum(r['solver_time'] for r in sres.values()), 2),
            'contracts': [{'contract': n, 'functions': byname[n].func, 'status': r['status'], 'reason': r['reason'][:400],
                           'obligations': r['n'], 'discharged': r['proved'], 'paths': r['paths'], 'wall_s': r['wall'],
                           'solver_s': r['solver_time'], 'smt_queries': r['queries'], 'callee_contracts_used': r['stubs'], 'loop_invariants': r.get('loops', []),
                           'bounded': byname[n].bounded, 'note': byname[n].note} for n, r in sorted(sres.items())],
            'undecided': undecided[:60],
            'bounded_runtime': {n: {'evaluations': d['evaluated'], 'distinct': d['distinct'], 'discarded': d['discarded'],
                                    'postconditions_evaluated': d['checks'], 'sample': d['sample']} for n, d in sorted(rt.items())},
        },
        'assumptions': sorted({c.note for c in cons if c.note} | {'bounded: ' + c.name + ': ' + c.bounded for c in cons if c.bounded} |
                              {'run-time only (bounded, not proved): ' + c.name for c in cons if not c.sym}),
        'wall_s': round(time.time() - t0, 2), 'violations': len(real) + len(hardun),
    }
    if rt_err:
        ev['coverage']['runtime_error'] = rt_err
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    # ---- verdict
    print('%s: %d obligations, %d discharged, %d contracts (%d undecided), run-time evaluations %d, %.1f s' % (
        prop, n_obl, n_prov, len(sres), len({u['contract'] for u in undecided}), sum(d['evaluated'] for d in rt.values()), time.time() - t0))
    shown_u = set()
    for u in undecided:
        if u['contract'] in shown_u:
            continue
        shown_u.add(u['contract'])
        print('UNDECIDED property=%s contract=%s %s %s' % (prop, u['contract'], u.get('obligation', ''), u['reason'][:300].replace('\n', ' ')))
    if rt_err:
        print('RUNTIME-ERROR ' + rt_err[-800:])
    seen = set()
    rc = 0
    k = 0
    for f in real:
        if (f['contract'], f['obligation']) in seen or len(seen) > 8:
            continue
        seen.add((f['contract'], f['obligation']))
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, k))
        k += 1
        json.dump(dict(f, property=prop), open(path, 'w'), indent=1)
        print('FAILED %s.%s: %s :: %s' % (prop, f['contract'], f['obligation'], f['detail'].strip().replace('\n', ' | ')[-400:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if not real:
        for f in hardun:
            if (f['contract'], f['obligation']) in seen:
                continue
            seen.add((f['contract'], f['obligation']))
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, k))
            k += 1
            json.dump(dict(f, property=prop), open(path, 'w'), indent=1)
            print('FAILED %s.%s: %s :: %s' % (prop, f['contract'], f['obligation'], f['verifier']['info'][:400]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            rc = 1
    if rc == 0 and rt_err and not rt:
        # neither refuted nor evaluated: no answer
        return 2
    return rc


def replay(path):
    f = json.load(open(path))
    item = {'id': 'x', 'contract': f['contract'], 'model': f.get('model') or f.get('inputs') or {}, 'seed': f.get('seed', 'replay'),
            'case': f.get('case', 0)}
    o, e = pypy_wait(pypy_start({'prop': f['property'], 'mode': 'replay', 'items': [item]}), 600)
    print(json.dumps(o, indent=1) if o else e)
    return 1 if o and o['results']['x']['status'] == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main())
