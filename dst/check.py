"""check.py PROP quick|thorough     explore, write evidence, exit 0 (held) or 1 (VIOLATION)
check.py --replay FILE              run a recorded violation again

Environment: VERIF_SEED (default 1), DST_RUNS, DST_WALL, DST_WORKERS.
"""
import collections
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYODRX_REPO', '/repo')
ENV = {k: os.environ[k] for k in ('PATH', 'HOME', 'TMPDIR', 'PYODRX_REPO') if k in os.environ}
ENV.update(LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
STALL = 150.0


def python():
    exe = sys.executable
    return [exe, '--jit', 'off'] if sys.implementation.name == 'pypy' else [exe]


def worker(args, inp=None, timeout=None):
    p = subprocess.Popen(python() + [os.path.join(HERE, 'worker.py')] + [str(a) for a in args], stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=VERIF)
    try:
        out, err = p.communicate(inp, timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'timeout'
    ev = [json.loads(l) for l in out.decode('utf-8', 'replace').splitlines() if l.startswith('{')]
    return (ev[-1] if ev else None), err.decode('utf-8', 'replace')[-2000:]


def meta(pid):
    """run counts and the text of the rule, without importing the library into this process"""
    import ruleset
    return ruleset.RULES[pid]


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r'finding: property=(\S+) kind=(\S+) match=(.*?) what=(.*)$', l.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2).replace('_', ' '), m.group(3), m.group(4)))
    return out


def match(findings, v):
    for k, rx, what in findings:
        if v[0] == k and re.search(rx, v[1]):
            return what
    return None


def explore(pid, seed, runs, wall, nw):
    per = -(-runs // nw)
    procs, evs, last, lock = [], [[] for _ in range(nw)], [time.time()] * nw, threading.Lock()

    def reader(k, p):
        for l in p.stdout:
            try:
                e = json.loads(l)
            except ValueError:
                continue
            with lock:
                last[k] = time.time()
                evs[k].append(e)
    errs = []
    ts = []
    for k in range(nw):
        p = subprocess.Popen(python() + [os.path.join(HERE, 'worker.py'), 'run', pid, seed, str(k), str(nw), str(per), str(wall)],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=VERIF)
        procs.append(p)
        t = threading.Thread(target=reader, args=(k, p), daemon=True)
        t.start()
        ts.append(t)
        e = threading.Thread(target=lambda p=p: errs.append(p.stderr.read()), daemon=True)
        e.start()
        ts.append(e)
    stalled = []
    first = None
    while any(p.poll() is None for p in procs):
        time.sleep(.05)
        n = time.time()
        with lock:
            hit = [k for k in range(nw) if any(e['e'] == 'violation' for e in evs[k])]
        if hit and first is None:
            first = n
        for k, p in enumerate(procs):
            if p.poll() is None and n - last[k] > STALL:
                p.kill()
                stalled.append(k)
            if p.poll() is None and first is not None and n - first > 20:
                p.kill()
    for t in ts:
        t.join(5)
    return evs, stalled, per, b''.join(errs).decode('utf-8', 'replace')


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    R = meta(pid)
    runs = int(os.environ.get('DST_RUNS', R['quick'] if tier == 'quick' else 10 ** 9))
    wall = float(os.environ.get('DST_WALL', 240 if tier == 'quick' else 600))
    nw = int(os.environ.get('DST_WORKERS', os.cpu_count() or 8))
    nw = max(1, min(nw, 16, runs))
    t0 = time.time()
    evs, stalled, per, err = explore(pid, seed, runs, wall, nw)
    flat = [e for l in evs for e in l]
    errors = [e for e in flat if e['e'] == 'error']
    ends = [e for e in flat if e['e'] == 'end']
    viol = sorted((e for e in flat if e['e'] == 'violation'), key=lambda e: e['i'])
    findings = known(pid)
    shown = set()
    alarm = None
    for e in viol:
        w = match(findings, e['v'])
        if w is not None:
            if w not in shown:
                shown.add(w)
                print('KNOWN-FINDING: property=%s %s' % (pid, w))
        elif alarm is None:
            alarm = e
    if alarm is None and stalled:
        # a run that does not end: which one
        for k in stalled:
            at = [e['i'] for e in evs[k] if e['e'] == 'at']
            i = (at[-1] if at else k)
            r, er = worker(['run', pid, seed, i, nw, 40, 200], timeout=200)
            if r is None:
                alarm = {'i': i, 'v': ['hang', 'a simulated run from index %d on does not end' % i], 'digest': 'none', 'scn': None, 'trace': None}
                break
    rc = 0
    rep = None
    if alarm is not None:
        rep = report(pid, seed, tier, alarm)
        rc = 1
    elif not ends and not viol:
        sys.stderr.write('no worker finished: %s %s\n' % ([e.get('msg') for e in errors][:1], err[-1500:]))
        rc = 2
    elif errors:
        sys.stderr.write('generator error: %s\n' % errors[0]['msg'])
        rc = 2
    evidence(pid, tier, seed, R, ends, viol, nw, time.time() - t0, alarm, rep)
    n = sum(e['n'] for e in ends)
    print('property=%s tier=%s seed=%s runs=%d wall=%.1fs %s' % (pid, tier, seed, n, time.time() - t0, 'held on everything explored' if rc == 0 else 'exit %d' % rc))
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
    return rc


def report(pid, seed, tier, e):
    """minimise, record, and run the record again in a fresh process"""
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (pid, seed, e['i']))
    rec = {'property': pid, 'seed': '%s:%s:%d' % (seed, pid, e['i']), 'kind': e['v'][0], 'message': e['v'][1], 'digest': e['digest'],
           'scenario': e['scn'], 'trace': e.get('trace'), 'minimised': False}
    if e['scn'] is not None:
        budget = 60 if tier == 'quick' else 180
        m, err = worker(['min', pid, e['v'][0], budget], json.dumps(rec).encode(), timeout=budget + 120)
        if m and m.get('v'):
            rec.update(scenario=m['scn'], message=m['v'][1], digest=m['digest'], minimised=True, original_scenario=e['scn'], minimiser_runs=m['tries'])
        r, err = worker(['replay'], json.dumps(rec).encode(), timeout=300)
        if r:
            rec['reproduced'] = bool(r['v']) and r['v'][0] == rec['kind'] and r['digest'] == rec['digest']
            rec['events'] = r['log']
            rec['schedule'] = r['trace']
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
        f.write('\n')
    print('%s: %s' % (rec['kind'], rec['message']))
    print('seed %s, %s, replayed in a fresh process: %s' % (rec['seed'], 'minimised' if rec['minimised'] else 'not minimised', rec.get('reproduced')))
    if isinstance(rec['scenario'], dict):
        for k in ('pre', 'ops', 'threads', 'post'):
            if rec['scenario'].get(k):
                s = json.dumps(rec['scenario'][k])
                print('  %s: %s' % (k, s if len(s) < 1500 else s[:1500] + ' ...'))
        if rec['scenario'].get('sched', {}).get('switches'):
            print('  switches: %s' % json.dumps(rec['scenario']['sched']['switches'])[:400])
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    if rec.get('scenario') is None:
        print('nothing to replay: %s' % rec['message'])
        return 2
    r, err = worker(['replay'], json.dumps(rec).encode(), timeout=600)
    if r is None:
        print('replay failed: %s' % err)
        return 2
    if not r['v']:
        print('property=%s not violated by this replay on the current tree' % rec['property'])
        return 0
    print('%s: %s' % tuple(r['v']))
    print('digest %s (recorded %s)' % (r['digest'], rec['digest']))
    for l in (r['log'] or [])[-30:]:
        print('  ' + l[:200])
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def evidence(pid, tier, seed, R, ends, viol, nw, wall, alarm, rep):
    counts = collections.Counter()
    for e in ends:
        counts.update(e['counts'])
    sigs = set(s for e in ends for s in e['sigs'])
    traces = set(s for e in ends for s in e['traces'])
    plans = set(s for e in ends for s in e['plans'])
    n = sum(e['n'] for e in ends)
    busy = max([e['wall'] for e in ends] or [0.001])
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault ')}
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(sigs),
        'rule': R['rule'],
        'samples': [s for e in ends for s in e['samples']][:2] or [{'note': 'stopped before a sample was kept'}],
        'simulated_runs': n,
        'nontrivial_runs': sum(e['nt'] for e in ends),
        'seeds': '%s:%s:0 .. %d' % (seed, pid, max([e['next'] for e in ends] or [0]) - 1),
        'runs_per_hour': int(n / max(busy, .001) * 3600),
        'workers': nw,
        'steps_simulated': sum(e['steps'] for e in ends),
        'simulated_seconds': round(sum(e['sim_s'] for e in ends), 3),
        'faults_injected': faults,
        'faults_total': sum(faults.values()),
        'distinct_fault_histories': len(plans),
        'other_events': {k: v for k, v in sorted(counts.items()) if not k.startswith('fault ')},
        'distinct_thread_schedules': len(traces),
        'file_operations': sum(e['fs'] for e in ends),
        'numeric_kernel_calls': sum(e['kern'] for e in ends),
        'distinct_measure': 'digest of the event log: every operation with its result, every fault, at the step it happened',
        'real_components': R['real'],
        'stubbed_components': R['stub'],
        'same_seed_run_twice_differed': sum(e['mism'] for e in ends),
    }
    d = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(seed) if seed.isdigit() else 0, 'level': 'exploration',
         'coverage': cov, 'assumptions': R['assumptions'], 'wall_s': round(wall, 2), 'violations': 0 if alarm is None else 1}
    if rep:
        d['replay'] = rep
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))


if __name__ == '__main__':
    sys.exit(main())
