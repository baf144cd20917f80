"""Simulated runs of one property in this process.

worker.py run PROP SEED START STEP COUNT WALL   -> events as JSON lines on standard output
worker.py replay                                -> scenario on standard input, result on standard output
worker.py min PROP KIND WALL                    -> minimises the scenario on standard input
"""
import collections
import hashlib
import json
import os
import random
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sim      # noqa: E402
sim.install()
import gen      # noqa: E402
import props    # noqa: E402
import ruleset  # noqa: E402

OUT = os.fdopen(os.dup(1), 'w')
now = sim.real_monotonic


def say(**k):
    OUT.write(json.dumps(k) + '\n')
    OUT.flush()


def scenario(pid, seed, i):
    # towards the end of the quick tier, and beyond it, some runs are larger
    q = ruleset.RULES[pid]['quick']
    gen.SCALE = 1 if i < .9 * q else random.Random('%s:%s:%d:scale' % (seed, pid, i)).choice([1, 2] if i < q else [1, 1, 2, 4])
    return json.loads(json.dumps(props.REG[pid].gen(random.Random('%s:%s:%d' % (seed, pid, i)))))


def run(pid, scn):
    """one simulated run; whatever the oracle itself trips over counts as a failure of this run"""
    try:
        return props.REG[pid].run(scn)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return {'v': ['unexpected', '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)], 'nt': True,
                'counts': {}, 'steps': 0, 'digest': 'none', 'sig': 'none', 'sim_s': 0, 'fs': 0, 'kern': 0, 'trace': None, 'fired': []}


def main_run(pid, seed, start, step, count, wall):
    P = props.REG[pid]
    t0 = now()
    agg = collections.Counter()
    sigs, traces, plans = set(), set(), set()
    n = nt = steps = fs = kern = 0
    sim_s = 0.0
    samples = []
    mism = 0
    i = start
    done = 0
    hit = None
    tick = t0
    while done < count and now() - t0 < wall:
        try:
            scn = scenario(pid, seed, i)
        except Exception:
            say(e='error', i=i, msg=traceback.format_exc()[-1500:])
            return
        if now() - tick > 2:
            tick = now()
            say(e='at', i=i)
        r = run(pid, scn)
        n += 1
        done += 1
        nt += r['nt']
        steps += r['steps']
        fs += r['fs']
        kern += r['kern']
        sim_s += r['sim_s']
        agg.update(r['counts'])
        if r['nt']:
            sigs.add(r['sig'])
        if r.get('trace') is not None:
            traces.add(hashlib.sha256(json.dumps(r['trace']).encode()).hexdigest()[:16])
        if r.get('fired'):
            plans.add(hashlib.sha256(json.dumps([scn.get('ops') and len(scn['ops']), r['fired']]).encode()).hexdigest()[:16])
        if r['v']:
            hit = i
            say(e='violation', i=i, v=r['v'], digest=r['digest'], scn=scn, trace=r.get('trace'))
            break
        if done <= 2:
            # the same scenario again: the same execution, event for event
            if not getattr(P, 'nodes', False):
                q = run(pid, scn)
                if q['digest'] != r['digest'] or q['v'] != r['v']:
                    mism += 1
        if len(samples) < 1 and r['nt'] and start < 2:
            samples.append({'seed': '%s:%s:%d' % (seed, pid, i), 'digest': r['digest'], 'scenario': shorten(scn)})
        i += step
    say(e='end', n=n, nt=nt, steps=steps, fs=fs, kern=kern, sim_s=sim_s, counts=dict(agg), sigs=sorted(sigs), traces=sorted(traces), plans=sorted(plans),
        samples=samples, wall=now() - t0, mism=mism, next=i, hit=hit)


def shorten(scn):
    s = json.dumps(scn)
    if len(s) < 6000:
        return scn
    return s[:6000] + '... (%d characters)' % len(s)


# ----------------------------------------------------------------------------- minimisation
def call(v):
    """the operation and the error, where the violation is an error of a call"""
    m = re.match(r'operation \d+ \((\w+)\) (raised \w+|\w+)', v[1]) if v[0] in ('rejected', 'accepted', 'other error', 'later call') else None
    return m and m.groups()


class Minimiser:
    def __init__(self, pid, v, scn, trace, wall):
        kind = v[0]
        self.call = call(v)
        self.P = props.REG[pid]
        self.pid = pid
        self.kind = kind
        self.scn = scn
        self.end = now() + wall
        self.tries = 0
        self.last = None
        if 'sched' in scn and trace is not None:
            s = dict(scn, sched=dict(scn['sched'], switches=trace))
            self.attempt(s)

    def time(self):
        return now() < self.end

    def fails(self, scn):
        self.tries += 1
        r = run(self.pid, scn)
        if r['v'] and r['v'][0] == self.kind and call(r['v']) == self.call:
            return r
        return None

    def attempt(self, scn):
        """adopt scn if it fails in the same way"""
        if not self.time():
            return False
        r = self.fails(scn)
        if r is None and 'sched' in scn and scn['sched'].get('switches') is not None:
            # the recorded switches are those of another program: look for others
            for k in range(4):
                if not self.time():
                    return False
                s = dict(scn, sched={'seed': k, 'p': [.3, .05, .01, .1][k], 'pb': .3, 'first': k % 2})
                r = self.fails(s)
                if r:
                    scn = dict(s, sched=dict(s['sched'], switches=r['trace']))
                    r = self.fails(scn)
                    if r:
                        break
        if r is None:
            return False
        self.scn = scn
        self.last = r
        return True

    def shrink(self, get, put):
        """remove chunks of a list while the failure stays"""
        k = max(1, len(get(self.scn)) // 2)
        while k >= 1 and self.time():
            i = 0
            cut = False
            while i < len(get(self.scn)) and self.time():
                l = get(self.scn)
                if self.attempt(put(self.scn, l[:i] + l[i + k:])):
                    cut = True
                else:
                    i += k
            if k == 1 and not cut:
                break
            k = max(1, k // 2) if k > 1 else (1 if cut else 0)

    def field(self, name):
        self.shrink(lambda s: s[name], lambda s, l: dict(s, **{name: l}))

    def oplists(self):
        s = self.scn
        out = []
        for name in self.P.ops_lists(s):
            out.append((lambda s, n=name: s[n], lambda s, l, n=name: dict(s, **{n: l})))
        for t in range(len(s.get('threads') or [])):
            out.append((lambda s, t=t: s['threads'][t], lambda s, l, t=t: dict(s, threads=s['threads'][:t] + [l] + s['threads'][t + 1:])))
        if 'programs' in s:
            for t in range(len(s['programs'])):
                out.append((lambda s, t=t: s['programs'][t]['ops'],
                            lambda s, l, t=t: dict(s, programs=s['programs'][:t] + [dict(s['programs'][t], ops=l)] + s['programs'][t + 1:])))
        return out

    def run(self):
        if self.last is None and not self.attempt(self.scn):
            return
        if 'programs' in self.scn:
            self.field('variants')
            self.field('programs')
        if len(self.scn.get('threads') or []) > 1:
            self.shrink(lambda s: s['threads'], lambda s, l: dict(s, threads=l) if l else s)
        for rounds in range(2):
            n = len(json.dumps(self.scn))
            for get, put in self.oplists():
                self.shrink(get, put)
            for get, put in self.oplists():
                for i in range(len(get(self.scn))):
                    l = get(self.scn)
                    for k in ('f2', 'f', 'noretry'):
                        if k in l[i] and self.time():
                            self.attempt(put(self.scn, l[:i] + [{a: b for a, b in l[i].items() if a != k}] + l[i + 1:]))
                            l = get(self.scn)
                    if isinstance(l[i].get('f'), list) and len(l[i]['f']) > 1:
                        for j in reversed(range(len(l[i]['f']))):
                            l = get(self.scn)
                            self.attempt(put(self.scn, l[:i] + [dict(l[i], f=l[i]['f'][:j] + l[i]['f'][j + 1:])] + l[i + 1:]))
            sc = self.scn.get('sched')
            if sc and sc.get('switches'):
                self.shrink(lambda s: s['sched']['switches'], lambda s, l: dict(s, sched=dict(s['sched'], switches=l)))
            if len(json.dumps(self.scn)) == n or not self.time():
                break


def main():
    a = sys.argv[1:]
    if a[0] == 'run':
        main_run(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), float(a[6]))
    elif a[0] == 'replay':
        rec = json.loads(sys.stdin.read())
        scn = rec['scenario']
        scn['env'] = dict(scn['env'], keep_log=1)
        log = {}
        s0 = props.summary

        def summ(w, *b, **k):
            log['l'] = (w.eventlog or [])[-400:]
            return s0(w, *b, **k)
        props.summary = summ
        r = run(rec['property'], scn)
        say(e='replayed', v=r['v'], digest=r['digest'], log=log.get('l'), trace=r.get('trace'))
    elif a[0] == 'min':
        rec = json.loads(sys.stdin.read())
        m = Minimiser(a[1], (rec['kind'], rec['message']), rec['scenario'], rec.get('trace'), float(a[3]))
        m.run()
        r = m.last
        say(e='min', scn=m.scn, v=r and r['v'], digest=r and r['digest'], tries=m.tries)


if __name__ == '__main__':
    main()
