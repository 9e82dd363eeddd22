"""Decide one property.   python3-vt -m vf.run PID [--harness NAME] [--verbose]  |  --replay FILE"""
import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PYPY = os.environ.get('VF_PY', '/opt/venv-pypy/bin/python')


def explore(pid, hname, tier, seed, deadline, work, slice_s, done, sample_cap):
    """worker process: one slice of one harness, starting from the given path prefixes"""
    import io
    import traceback
    out = {'harness': hname, 'left': []}
    try:
        from vf import env, engine
        from vf.drivers import SymS
        from vf.harness import load_prop
        env.load(True)
        mod = load_prop(pid)
        h = {x.name: x for x in mod.harnesses(tier)}[hname]
        S = SymS()
        S.cfg = h.cfg
        S.tier = tier
        S.deep = tier == 'thorough'
        env.S = S
        seen = set()
        mon = sys.monitoring
        mon.use_tool_id(4, 'vf')

        def on_start(code, off):
            if '/glompo/' in code.co_filename:
                seen.add(code.co_filename.split('/glompo/', 1)[1] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(4, mon.events.PY_START, on_start)
        mon.set_events(4, mon.events.PY_START)

        def fn(S):
            env.S = S
            env.reset()
            h.fn(S)
        so, se = sys.stdout, sys.stderr
        if not os.environ.get('VF_DEBUG'):
            sys.stdout = io.StringIO()
            sys.stderr = io.StringIO()
        t0 = time.monotonic()
        try:
            ex = engine.Explorer(fn, S, deadline=deadline, max_paths=h.max_paths - done, seed=seed,
                                 path_cpu=40 if tier == 'quick' else 150)
            ex.sample_seen = done
            ex.sample_cap = sample_cap
            ex.run(work, t0 + slice_s)
        finally:
            sys.stdout, sys.stderr = so, se
        out.update(paths=ex.paths, aborted=ex.aborted, decisions=ex.decisions, queries=ex.queries, unsat=ex.unsat,
                   unknown=ex.unknown, solver_time=ex.solver_time, incomplete=ex.incomplete[:20],
                   n_incomplete=len(ex.incomplete), cex=ex.cex, covers=ex.covers, checks=ex.checks,
                   samples=ex.samples, exhausted=ex.exhausted, endless=ex.endless, inconclusive=ex.inconclusive[:20], left=ex.left,
                   wall=time.monotonic() - t0, functions=sorted(seen), bounds=h.bounds, must=h.must)
    except BaseException as e:
        out['crash'] = ''.join(traceback.format_exception(e))[-4000:]
    return out


def merge(a, r):
    """add the outcome of a slice to the outcome of its harness"""
    if a is None:
        a = dict(r, functions=set(r['functions']))
        a['covers'], a['checks'] = dict(r['covers']), dict(r['checks'])
        return a
    for k in ('paths', 'aborted', 'decisions', 'queries', 'unsat', 'unknown', 'solver_time', 'n_incomplete', 'wall'):
        a[k] += r[k]
    for k in ('incomplete', 'inconclusive'):
        a[k] = (a[k] + r[k])[:20]
    for c in r['cex']:
        if sum(1 for x in a['cex'] if x['label'] == c['label']) < 6:
            a['cex'].append(c)
    a['samples'] += r['samples']
    for k in ('covers', 'checks'):
        for n, v in r[k].items():
            a[k][n] = a[k].get(n, 0) + v
    a['functions'] |= set(r['functions'])
    return a


def explore_all(pid, hs, tier, seed, deadline, nproc):
    """work sharing: every harness is explored in time slices, whose left-over path prefixes are shared out again"""
    from collections import deque
    from vf import env
    env.load(True)
    env.preload()  # the workers are forked from here
    import gc
    gc.collect()
    gc.freeze()
    ctx = mp.get_context('fork')
    todo = deque((h, None, 0.5) for h in sorted(hs, key=lambda h: -h.weight))
    acc, busy, stopped = {h.name: None for h in hs}, {}, set()
    running = {h.name: 0 for h in hs}
    crashes = {}
    results = mp.get_context('fork').SimpleQueue()
    n = 0

    def work(k, args):
        r = explore(*args)
        results.put((k, r))
        os._exit(0)
    import select
    while todo or busy:
        while todo and len(busy) < nproc:
            h, w, sl = todo.popleft()
            if h.name in stopped:
                continue
            a = acc[h.name]
            args = (pid, h.name, tier, seed, deadline, w, sl, a['paths'] if a else 0,
                    max(0, 24 - len(a['samples'])) if a else 24)
            n += 1
            p = ctx.Process(target=work, args=(n, args), daemon=True)
            p.start()
            busy[n] = (h, p, time.monotonic())
            running[h.name] += 1
        if not busy:
            break
        got = None
        if select.select([results._reader], [], [], 1.0)[0]:
            got = results.get()
        else:
            for k, (h, p, t) in list(busy.items()):
                late = time.monotonic() > deadline + 60
                if late or (not p.is_alive() and not select.select([results._reader], [], [], 0.2)[0]):
                    if late:
                        p.kill()
                    got = (k, {'harness': h.name, 'crash': 'worker did not finish (time or memory)', 'left': []})
                    break
        if got is None:
            continue
        k, r = got
        if k not in busy:
            continue
        h, p, _ = busy.pop(k)
        p.join(5)
        running[h.name] -= 1
        if 'crash' in r:
            crashes[h.name] = r
            continue
        acc[h.name] = merge(acc[h.name], r)
        a = acc[h.name]
        if r['endless'] or len(a['cex']) >= 12 or a['paths'] + a['aborted'] >= h.max_paths or time.monotonic() > deadline:
            stopped.add(h.name)  # enough counterexamples, or out of budget
        left = r['left']
        if left and h.name in stopped:
            a['incomplete'].append('time budget' if time.monotonic() > deadline else 'path budget')
            a['n_incomplete'] += 1
            left = []
        if left:
            idle = nproc - len(busy) - len(todo)
            parts = max(1, min(len(left), idle))
            for i in range(parts):
                todo.append((h, left[i::parts], 1.2 if parts > 1 or idle > 0 else 2.5))
    out = []
    for h in hs:
        a = acc[h.name]
        if h.name in crashes or a is None:
            out.append(crashes.get(h.name, {'harness': h.name, 'crash': 'not explored'}))
            continue
        a['functions'] = sorted(a['functions'])
        a['exhausted'] = not a['n_incomplete'] and h.name not in stopped or \
            (h.name in stopped and not a['n_incomplete'] and not any(x[0].name == h.name for x in todo))
        endless = [s for s in a['samples'] if s.get('endless')][:2]
        a['samples'] = [s for s in a['samples'] if not s.get('endless')]
        if len(a['samples']) > 30:
            st = len(a['samples']) / 30
            a['samples'] = [a['samples'][int(i * st)] for i in range(30)]
        a['samples'] += endless
        a['wall'] = round(a['wall'], 3)
        a['solver_time'] = round(a['solver_time'], 3)
        out.append(a)
    return out


def replay_jobs(pid, jobs, tier, timeout=600):
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix='vf_replay_')
    jf, of = os.path.join(d, 'jobs.json'), os.path.join(d, 'out.json')
    with open(jf, 'w') as f:
        json.dump(jobs, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OPENBLAS_NUM_THREADS='1', VERIF_TIER=tier,
               MPLCONFIGDIR=os.path.join(d, 'mpl'), PYTHONPATH=ROOT, HOME=d)
    try:
        p = subprocess.run([PYPY, '-m', 'vf.replay', pid, jf, of], cwd=d, env=env, timeout=timeout,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if not os.environ.get('VF_DEBUG') else None)
        err = (p.stderr or b'').decode(errors='replace')
    except subprocess.TimeoutExpired:
        err = 'timeout'
    res = []
    for f in (of, of + '.tmp'):
        if os.path.exists(f):
            try:
                with open(f) as fh:
                    res = json.load(fh)
                break
            except ValueError:
                pass
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    if len(res) < len(jobs):
        res = res + [{'exc': None, 'stop': 'replay worker died: ' + err[-1500:], 'failed': [], 'passed': 0,
                      'missing': [], 'observed': [], 'dead': True}] * (len(jobs) - len(res))
    return res


def replay_parallel(pid, jobs, tier):
    n = min(4, max(1, len(jobs) // 12))
    if n == 1:
        return replay_jobs(pid, jobs, tier)
    from concurrent.futures import ThreadPoolExecutor
    chunks = [jobs[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as tp:
        rs = list(tp.map(lambda c: replay_jobs(pid, c, tier), chunks))
    out = [None] * len(jobs)
    for i, r in enumerate(rs):
        out[i::n] = r
    return out


def known_findings(pid):
    out = {}
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\S+) label=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    # strict (development): anything undecided is an error; otherwise it is recorded in the evidence as not decided,
    # because only a counterexample that the real code reproduces is a violation
    strict = '--strict' in argv or os.environ.get('VF_STRICT')
    verbose = '--verbose' in argv or '-v' in argv
    if '--replay' in argv:
        job = json.load(open(argv[argv.index('--replay') + 1]))
        r = replay_jobs(pid, [job], job.get('tier', tier))[0]
        print(json.dumps(r, indent=1))
        return 1 if r['failed'] or r['exc'] else 0
    t0 = time.monotonic()
    from vf.harness import load_prop
    mod = load_prop(pid)
    hs = mod.harnesses(tier)
    if '--harness' in argv:
        pat = argv[argv.index('--harness') + 1]
        hs = [h for h in hs if re.search(pat, h.name)]
    budget = float(os.environ.get('VF_BUDGET', 280 if tier == 'quick' else 2400))
    deadline = time.monotonic() + budget
    nproc = int(os.environ.get('VF_PROCS', '8'))
    results = explore_all(pid, hs, tier, seed, deadline, nproc)
    t1 = time.monotonic()
    crashes = [r for r in results if 'crash' in r]
    ok = [r for r in results if 'crash' not in r]
    # ---- replay
    jobs, meta = [], []
    for r in ok:
        for c in r['cex']:
            jobs.append({'harness': r['harness'], 'values': c['values'], 'tier': tier})
            meta.append(('cex', r, c))
        for s in r['samples']:
            jobs.append({'harness': r['harness'], 'values': s['values'], 'tier': tier})
            meta.append(('sample', r, s))
    reps = replay_parallel(pid, jobs, tier)
    t2 = time.monotonic()
    from vf.drivers import obs_equal
    confirmed, spurious, mismatch, validated = [], [], [], 0
    worker_dead = None
    for (kind, r, c), rep, job in zip(meta, reps, jobs):
        if rep.get('dead'):
            worker_dead = rep['stop']
        bad = bool(rep['failed'] or rep['exc'])
        if kind == 'cex':
            if bad:
                confirmed.append((r['harness'], c['label'], c, rep, job))
            else:
                spurious.append((r['harness'], c, rep))
        else:
            if bad:
                lab = rep['failed'][0] if rep['failed'] else 'no-unexpected-exception'
                confirmed.append((r['harness'], lab, dict(c, kind='validation', detail=rep['exc']), rep, job))
            elif c.get('endless') and rep['stop'] == 'timeout':
                confirmed.append((r['harness'], 'comes-to-an-end', dict(c, kind='validation', detail='still running after 30 s'), rep, job))
            elif c.get('incomplete'):
                pass
            elif rep['stop'] is None and obs_equal([list(x) for x in c['observed']], rep['observed']):
                validated += 1
            elif not c.get('approx'):
                mismatch.append({'harness': r['harness'], 'values': c['values'], 'symbolic': c['observed'],
                                 'concrete': rep['observed'], 'stop': rep['stop']})
    # ---- vacuity
    vac = []
    for r in ok:
        for m in r['must']:
            if not r['covers'].get(m) and r['exhausted'] and not r['cex']:
                vac.append(f"{r['harness']}: '{m}' never reached")
        if r['exhausted'] and not r['checks'] and not r['cex']:
            vac.append(f"{r['harness']}: no assertion reached")
    kf = known_findings(pid)
    new, known = [], {}
    for h, lab, c, rep, job in confirmed:
        if lab in kf:
            known[lab] = kf[lab]
        else:
            new.append((h, lab, c, rep, job))
    hard_spurious = [s for s in spurious if not s[1].get('approx')]
    functions = sorted({f for r in ok for f in r['functions']})
    incomplete = {r['harness']: r['incomplete'] for r in ok if r['incomplete'] or not r['exhausted']}
    samples = []
    for r in ok:
        for s in r['samples'][:2]:
            samples.append({'harness': r['harness'], 'model': s['values'], 'observed': s['observed']})
    info = getattr(mod, 'INFO', {})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in ok),
            'transitions': sum(r['decisions'] for r in ok),
            'traces_validated_against_impl': validated,
            'samples': samples[:30],
            'meaning': 'states = feasible symbolic paths of the real code explored to the end; transitions = branch '
                       'decisions put to the solver; traces_validated = path models re-run on the real code under the '
                       "repository's interpreter with identical observations",
            'functions_encoded': functions,
            'bounds': {r['harness']: r['bounds'] for r in ok},
            'outside': info.get('outside', ''),
            'harnesses': {r['harness']: {k: r[k] for k in ('paths', 'aborted', 'decisions', 'queries', 'unsat',
                                                             'unknown', 'solver_time', 'wall', 'exhausted', 'checks',
                                                             'covers', 'n_incomplete', 'inconclusive')} for r in ok},
            'queries_discharged': sum(r['queries'] for r in ok),
            'queries_unsat': sum(r['unsat'] for r in ok),
            'queries_unknown': sum(r['unknown'] for r in ok),
            'solver_time_s': round(sum(r['solver_time'] for r in ok), 3),
            'assertions_proved': sum(sum(r['checks'].values()) for r in ok),
            'exhaustive': bool(ok) and not crashes and all(r['exhausted'] and not r['n_incomplete'] for r in ok),
            'incomplete': incomplete,
            'vacuous': vac,
            'validation_mismatches': mismatch[:10],
            'unconfirmed_counterexamples': [{'harness': h, 'label': c['label'], 'values': c['values'],
                                             'detail': c['detail'], 'replay': rep.get('stop')}
                                            for h, c, rep in spurious[:10]],
            'known_findings_seen': sorted(known),
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if '--harness' not in argv:
        def clean(o):
            if isinstance(o, float) and (o != o or o in (float('inf'), -float('inf'))):
                return str(o)
            if isinstance(o, dict):
                return {str(k): clean(v) for k, v in o.items()}
            if isinstance(o, (list, tuple)):
                return [clean(v) for v in o]
            return o
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(clean(ev), f, indent=1)
    # ---- report
    if verbose:
        print(f'  exploration {t1 - t0:.1f} s, replay {t2 - t1:.1f} s')
    if verbose or new or crashes or hard_spurious or vac or mismatch:
        for r in ok:
            print(f"  [{r['harness']}] paths={r['paths']} aborted={r['aborted']} decisions={r['decisions']} "
                  f"queries={r['queries']} solver={r['solver_time']}s wall={r['wall']}s "
                  f"exhausted={r['exhausted']} checks={sum(r['checks'].values())} cex={len(r['cex'])}"
                  + (f" incomplete={r['n_incomplete']}:{r['incomplete'][:3]}" if r['n_incomplete'] else '')
                  + (f" inconclusive={r['inconclusive'][:3]}" if r['inconclusive'] else ''))
    for lab in sorted(known):
        print(f'KNOWN-FINDING: property={pid} {lab}: {known[lab]}')
    for m in mismatch[:3]:
        print('  validation mismatch:', json.dumps(m)[:800])
    for v in vac:
        print('  vacuity:', v)
    if worker_dead:
        print('  replay worker:', worker_dead)
    if new:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for i, (h, lab, c, rep, job) in enumerate(new):
            key = hashlib.sha1(json.dumps([h, lab, job['values']], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, 'replays', f'{pid}-{key}.json')
            with open(path, 'w') as f:
                json.dump(dict(job, property=pid, label=lab, detail=c.get('detail'), outcome=rep), f, indent=1)
            if i < 5:
                print(f"  {h}: {lab}: {c.get('detail') or ''} {rep['exc'] or ''} values={json.dumps(job['values'])[:600]}")
                print(f'VIOLATION property={pid} replay={path}')
        return 1
    if crashes:
        for r in crashes:
            print(f"  [{r['harness']}] crashed: {r['crash']}")
        if strict or not ok:
            return 3
    if hard_spurious:
        for h, c, rep in hard_spurious[:5]:
            print(f"  unconfirmed counterexample in {h}: {c['label']} {c['detail']} "
                  f"{json.dumps(c['values'])[:600]} -> {rep['stop']} missing={rep['missing'][:5]}")
        if strict:
            return 2
    if strict and (mismatch or vac):
        return 2
    if worker_dead and not validated:
        return 4
    print(f"{pid}: held on everything explored ({ev['coverage']['states']} paths, "
          f"{ev['coverage']['queries_discharged']} queries, {validated} traces validated, {ev['wall_s']} s"
          f"{'' if ev['coverage']['exhaustive'] else ', INCOMPLETE'})")
    return 0


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
