"""The properties: for each, how a scenario is generated, run and judged.

run(scenario) returns a dict; 'v' is None or [kind, message].  The same scenario gives the same
result, digest included, in every process.
"""
import collections
import copy
import datetime
import hashlib
import json
import math
import os
import random
import re
import xml.etree.ElementTree as ET

import api
import checks as K
import gen
import model as M
import refgeo
import sim
from checks import Violation, fail

REG = {}
CONSOLE = ['BrokenPipeError', 'ValueError', 'UnicodeEncodeError', 'OSError']
KERNEL = ['MemoryError', 'FloatingPointError', 'ValueError']
WRITE_ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'ENOSPC', 'EIO', 'EPERM', 'ETIMEDOUT', 'ESTALE', 'ENXIO', 'EBADF', 'EPIPE']
OPEN_ERR = ['EACCES', 'ENOSPC', 'EMFILE', 'EROFS', 'EIO', 'EISDIR', 'ENOENT', 'EINTR', 'EPERM', 'ETIMEDOUT', 'ENOTDIR', 'ENAMETOOLONG', 'ELOOP', 'ETXTBSY',
            'EBUSY', 'EEXIST', 'ENFILE', 'EDQUOT', 'EAGAIN']


def prop(cls):
    REG[cls.id] = cls
    return cls


# ------------------------------------------------------------------------------------ common
def rand_env(rng, **k):
    d = datetime.datetime(1999, 1, 1) + datetime.timedelta(seconds=rng.randint(0, 10 ** 9), microseconds=rng.randint(0, 999999))
    e = {'now': d.isoformat(), 'tick_us': rng.choice([1, 7, 1000, 1500000]), 'rs': rng.randint(0, 10 ** 6)}
    e.update(k)
    return e


def console_fault(rng, hi=14):
    return {'k': 'stdout', 'n': rng.randint(1, hi), 'exc': rng.choice(CONSOLE)}


def kernel_fault(rng, hi=6):
    return {'k': 'kernel', 'n': rng.randint(1, hi), 'exc': rng.choice(KERNEL)}


def adjust_faults(rng, p, n):
    """fault plan of one adjust call"""
    if rng.random() >= p:
        return {}
    d = {}
    fs = []
    fs.append(console_fault(rng, 3 * n + 4) if rng.random() < .7 else kernel_fault(rng, 2 * n + 2))
    d['f'] = fs
    if rng.random() < .3:
        d['f2'] = [console_fault(rng, 3 * n + 4)]
    return d


class Run:
    """one simulated run: the world, fresh library modules, the reference model beside it"""
    def __init__(self, scn, extra=None, track=True):
        self.scn = scn
        env = dict(scn['env'])
        if extra:
            env.update(extra)
        self.ses = sim.session(env)
        self.track = track

    def __enter__(self):
        self.w = self.ses.__enter__()
        try:
            self.lib = sim.fresh_pyodrx()
        except BaseException:
            self.ses.__exit__()
            raise
        self.model = M.Model()
        self.env = {}
        self.results = []
        self.lost = False            # the model no longer knows the state
        return self

    def __exit__(self, *a):
        return self.ses.__exit__(*a)

    def go(self, ops, after=None, before=None, strict=True, lib=None):
        """execute with the model beside; after(result, predicted).  strict: accepted calls must be accepted"""
        def b(r, env):
            if before:
                before(r)

        def a(r, env):
            pred = None
            if not self.lost:
                if r.st == 'faulted':
                    pred = 'faulted'
                else:
                    pred = self.model.do(r.op)
            if r.st == 'limit':
                fail('termination', '%s did not end within %d steps', r.op['o'], self.w.step_limit)
            if pred not in (None, 'any', 'faulted') and r.st not in ('killed',):
                rej = isinstance(pred, tuple)
                if not rej and r.st == 'rej' and strict:
                    fail('rejected', 'operation %d (%s) raised %s: %s', r.i, r.op['o'], r.exc[0], r.val)
                if rej and r.st == 'ok':
                    self.accepted(r, pred)
                if rej and r.st == 'rej' and pred[1] not in r.exc:
                    self.other_error(r, pred)
            elif pred == 'any':
                self.lost = True
            elif pred == 'faulted' and r.op['o'] == 'adjust':
                # cut short: lanes may be partly linked until the next adjustment
                D = self.model.o[r.op['x']]
                if len(self.model.reach(D)[1]) == len(D['roads']):
                    D['linked'] = False
                    self.model.autolinks(D, 'allow', self.model.mismatches(D))
            if after:
                after(r, pred)
        rs = api.execute(self.w, lib or self.lib, ops, self.env, before=b, after=a)
        self.results += rs
        return rs

    # overridden where these are the property
    def accepted(self, r, pred):
        self.lost = True

    def other_error(self, r, pred):
        pass

    def fork(self):
        return self.results


class RunR(Run):
    """rejections are part of the property"""
    def accepted(self, r, pred):
        fail('accepted', 'operation %d (%s) returned, %s is documented', r.i, r.op['o'], pred[1])

    def other_error(self, r, pred):
        fail('error kind', 'operation %d (%s) raised %s, %s is documented', r.i, r.op['o'], r.exc[0], pred[1])


def summary(w, v=None, nontrivial=True, sig=None, **k):
    k.setdefault('trace', getattr(w, 'trace', None))
    d = {'v': v, 'nt': bool(nontrivial), 'counts': dict(w.counts), 'steps': w.steps, 'digest': w.digest(), 'sim_s': w.elapsed.total_seconds(),
         'fs': w.fs_ops, 'kern': w.kernel_calls, 'fired': list(getattr(w, 'fired', []) or [])}
    d['sig'] = sig or d['digest']
    d.update(k)
    return d


def concurrently(R, scn, clients, opcodes=True):
    """clients: [(ops, env, before, after)], one thread each; the scheduler decides every switch (or replays the recorded ones)"""
    w = R.w
    sc = scn['sched']
    rng = random.Random(sc['seed'])
    s = sim.Sched(w, len(clients), switches=sc.get('switches'), rng=rng, p=sc['p'], pboundary=sc['pb'], first=sc.get('first', 0) % len(clients))
    out = [None] * len(clients)
    old = w.opcodes
    w.opcodes = opcodes

    def client(i):
        ops, env, b, a = clients[i]

        def f():
            out[i] = api.execute(w, R.lib, ops, env, before=b, after=a)
        return f
    errs = s.run([client(i) for i in range(len(clients))])
    w.opcodes = old
    w.trace = s.trace if sc.get('switches') is None else sc['switches']
    w.counts['context switches'] += s.ctx_switches
    w.counts['threads'] += len(clients)
    for e in errs:
        if e is not None:
            raise e
    if s.deadlock:
        fail('deadlock', 'all threads wait for each other')
    for i, rs in enumerate(out):
        for r in rs or []:
            if r.st == 'limit':
                fail('termination', 'thread %d: %s did not end within %d steps', i, r.op['o'], w.step_limit)
    return out


def schedule(rng):
    return {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.0005, .002, .01, .03, .1, .3]), 'pb': rng.choice([0, .1, .5]), 'first': rng.randint(0, 3)}


def guarded(run, body):
    """body(run) -> nontrivial; returns the summary of the run"""
    v = None
    nt = False
    try:
        nt = body(run)
    except Violation as e:
        v = [e.kind, e.msg[:600]]
        run.w.log('violation', e.kind, e.msg)
        nt = True
    return summary(run.w, v, nt)


def tree_of(b, what):
    try:
        return api.parse(b)
    except Exception as e:
        fail('not well-formed', '%s: %s', what, str(e)[:200])


def fired(r):
    return bool(r.faulted)


class Base:
    threads = False
    thorough = 20000

    @classmethod
    def ops_lists(cls, scn):
        """the lists of operations minimisation may shorten"""
        return [k for k in ('ops', 'pre', 'post') if scn.get(k)]


def finish(rng, net, clients, odr='D'):
    return gen.merge(rng, clients)


def early_points(rng, ops, odr, n):
    """positions at which an early adjust may be inserted: after some add_road"""
    pos = [i + 1 for i, op in enumerate(ops) if op['o'] == 'add_road']
    rng.shuffle(pos)
    return pos[:n]


def fixed_first(net, ops):
    """index after which no road with a fixed start is added any more"""
    last = 0
    for i, op in enumerate(ops):
        if op['o'] == 'add_road' and op['x'] == 'D' and net.roads[int(op['r'][1:])]['fixed']:
            last = i + 1
    return last


def laid(rng, ops, p=.12):
    """some of the given starts are not given to the constructor: the user sets the start point, and lays the plan view himself"""
    out = []
    for i, op in enumerate(ops):
        if op['o'] == 'pv' and op.get('a') and op['a'][0] is not None and rng.random() < p:
            x = op['x']
            last = max([q for q, o in enumerate(ops) if o['o'] == 'geom' and o['x'] == x], default=-1)
            rs = [o['x'] for o in ops if o['o'] == 'road' and o['p'] == x]
            adds = [q for q, o in enumerate(ops) if o['o'] == 'add_road' and o['r'] in rs]
            if last > i and len(rs) == 1 and adds and last < min(adds):
                early = rng.random() < .5
                pose = [{'o': 'set_start', 'x': x, 'a': op['a']}]
                lay = [{'o': 'adjust_pv', 'x': x, 'a': rng.choice([[], [], [False]])}]
                out.append((i, [dict(op, a=[])] + (pose if early else [])))
                out.append((last, [ops[last]] + ([] if early else pose) + lay))
    if not out:
        return ops
    by = dict(out)
    return [o for i, op in enumerate(ops) for o in by.get(i, [op])]


def with_early_adjusts(rng, net, ops, p_fault, k=2):
    """insert early (possibly failing, possibly successful) adjusts"""
    lo = fixed_first(net, ops)
    pos = [i for i in early_points(rng, ops, 'D', k)]
    out = []
    m = M.Model()           # before the roads with a fixed start are there, only adjustments that are bound to fail
    for i, op in enumerate(ops):
        if i in pos and 0 < i < lo:
            D = m.o.get('D')
            if D and D['roads'] and not any(r['pv']['fixed'] for r in D['roads']) and len(m.reach(D)[1]) < len(D['roads']):
                out.append({'o': rng.choice(['adjust', 'startpoints']), 'x': 'D'})
        if lo:
            m.do(op)
        if i in pos and i >= lo and i > 0:
            d = {'o': 'adjust', 'x': 'D'}
            d.update(adjust_faults(rng, p_fault, len(net.roads)))
            if rng.random() < .3 and d.get('f'):
                d['noretry'] = 1
            out.append(d)
            if rng.random() < .3:
                out.append({'o': 'emit', 'x': 'D', 'early': 1})
        out.append(op)
    return out


def long_program(rng, pf=0):
    n = rng.randint(22, 45)
    ops = gen.long_chain(rng, n)
    if rng.random() < .3:
        k = rng.randint(len(ops) - n + 1, len(ops) - 1)
        d = {'o': rng.choice(['adjust', 'startpoints']), 'x': 'D'}
        ops.insert(k, d)
        if any(op.get('a') and op['o'] == 'pv' for op in ops):
            ops.remove(d)               # the fixed start may be added later
    d = {'o': 'adjust', 'x': 'D'}
    d.update(adjust_faults(rng, pf, n))
    ops += [d, {'o': 'emit', 'x': 'D'}]
    return {'env': rand_env(rng, step_limit=40000 + 3000 * (n + 2) ** 2), 'ops': ops}


def crossing_program(rng, pf, **kw):
    """a generated crossing, adjusted and emitted"""
    ops, roads = gen.crossing(rng, **kw)
    d = {'o': 'adjust', 'x': 'D'}
    d.update(adjust_faults(rng, pf, len(roads)))
    ops += [d, {'o': 'emit', 'x': 'D'}]
    if rng.random() < .3:
        d = {'o': 'adjust', 'x': 'D'}
        d.update(adjust_faults(rng, pf, len(roads)))
        ops += [d, {'o': 'emit', 'x': 'D'}]
    return {'env': rand_env(rng), 'ops': ops}


# ------------------------------------------------------------------------------------ C01, C02, C03, C04, C11, C18: networks
class NetProp(Base):
    @classmethod
    def run(cls, scn):
        with cls.runner(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn))

    runner = Run

    @classmethod
    def judge(cls, R, scn):
        st = {'n': 0}

        def after(r, pred):
            if R.lost or r.st != 'ok':
                return
            if r.op['o'] == 'emit' and r.op['x'] == 'D':
                st['n'] += cls.check(R, r, r.out[0]) or 0
            elif r.op['o'] in ('q_road', 'q_pv'):
                cls.query(R, r)
        R.go(scn['ops'], after=after)
        return st['n'] > 0

    @classmethod
    def query(cls, R, r):
        pass


@prop
class C01(NetProp):
    id = 'C01'

    @classmethod
    def gen(cls, rng):
        if rng.random() < .02:
            return long_program(rng)
        net = gen.network(rng, chain=rng.choice([0, 0.24]), bare=.08, n=(2, rng.choice([4, 7])), fixed=.4, sections=(1, 1), island=.12, jid_clash=.5)
        clients = gen.build(rng, net, kinds=rng.choice(['llaassp', 'la', 's', 'p', 'llaas']), late_links=rng.choice([0, 0, .5]), marks=False)
        ops = gen.merge(rng, clients)
        pf = rng.choice([0, 0, .5, .9])
        if rng.random() < .5:
            ops = with_early_adjusts(rng, net, ops, pf)
        d = {'o': 'adjust', 'x': 'D'}
        d.update(adjust_faults(rng, pf, len(net.roads)))
        ops.append(d)
        if rng.random() < .3:
            ops.append({'o': 'adjust', 'x': 'D'})
        for i in range(len(net.roads)):
            if rng.random() < .3:
                ops.append({'o': 'q_road', 'x': 'r%d' % i})
        ops.append({'o': 'emit', 'x': 'D'})
        return {'env': rand_env(rng), 'ops': laid(rng, ops)}

    @classmethod
    def check(cls, R, r, tree):
        m = R.model
        D = m.o['D']
        if not all(x['pv']['adj'] for x in D['roads']) or m.cyclic(D):
            return 0
        if any(x['pv']['adj'] is not True for x in D['roads']) or two_fixed(m, D):
            return 0
        # a link added after the last adjustment is not placed yet
        if D.get('dirty'):
            return 0
        R.last = {x['id']: K.poses(x, e) for x, e in K.roads(m, 'D', tree) if x['pv']['g']}
        for x, end in getattr(R, 'ends', []):
            if x['id'] in R.last and not K.near(end, R.last[x['id']][1]):
                fail('end point', 'road %r says it ends at %s, its geometry at %s', x['id'], K.fmt(end), K.fmt(R.last[x['id']][1]))
        return K.layout(m, 'D', tree)

    @classmethod
    def query(cls, R, r):
        x = R.model.o[r.op['x']]
        if x['pv']['adj'] and r.op['o'] == 'q_road':
            if not hasattr(R, 'ends'):
                R.ends = []
            R.ends.append((x, tuple(float(v) for v in r.out[0])))


def two_fixed(m, D):
    """two fixed roads in one component, or one added to roads laid before: the placement is over-determined"""
    if D.get('late_fixed'):
        return True
    par = {}

    def find(i):
        while par.setdefault(i, i) != i:
            i = par[i]
        return i
    for a, _, b, _, _, _ in m.joints(D):
        par[find(id(a))] = find(id(b))
    c = collections.Counter(find(id(r)) for r in D['roads'] if r['pv']['fixed'])
    return any(v > 1 for v in c.values())


@prop
class C02(NetProp):
    id = 'C02'

    @classmethod
    def gen(cls, rng):
        if rng.random() < 0.08:
            return crossing_program(rng, rng.choice([0, .5]), kinds='llaassp')
        if rng.random() < .05:
            # headings given for every piece
            net = gen.network(rng, n=(1, 1), fixed=.5, sections=(1, 1))
            ops = gen.merge(rng, gen.build(rng, net, kinds='llaassp', npieces=(1, 4), marks=False, styles=False))
            hs = [0, 0.0, round(rng.uniform(-3, 6), 3), 1, math.pi]
            for op in ops:
                if op['o'] == 'geom':
                    op['h'] = rng.choice(hs)
            for _ in range(rng.choice([1, 1, 2])):
                d = {'o': 'adjust', 'x': 'D'}
                d.update(adjust_faults(rng, .5, 1))
                ops += [d, {'o': 'emit', 'x': 'D'}]
                if rng.random() < .3:
                    ops.append({'o': 'adjust_pv', 'x': 'p0'})
            ops.append({'o': 'emit', 'x': 'D'})
            return {'env': rand_env(rng), 'ops': ops}
        net = gen.network(rng, chain=rng.choice([0, 0.2]), n=(1, 5), fixed=.4, sections=(1, 1), ring=.1, extra=.2, island=.1, multifixed=.1)
        clients = gen.build(rng, net, kinds=rng.choice(['llaassp', 'llaassp', 'ss', 'p', 'la', 'sp']), npieces=(1, rng.choice([2, 5])), marks=False,
                            styles=rng.random() < .6, late_links=rng.choice([0, 0, .4]))
        ops = gen.merge(rng, clients)
        pf = rng.choice([0, .5, .9])
        if rng.random() < .4:
            ops = with_early_adjusts(rng, net, ops, pf)
        d = {'o': 'adjust', 'x': 'D'}
        d.update(adjust_faults(rng, pf, len(net.roads)))
        ops.append(d)
        ops.append({'o': 'emit', 'x': 'D'})
        if rng.random() < .3:
            ops += [{'o': 'adjust', 'x': 'D'}, {'o': 'emit', 'x': 'D'}]
        if rng.random() < .25:
            # the plan views adjusted on their own, again
            for i, r in enumerate(net.roads):
                if r['style'] == 'manual' and rng.random() < .5:
                    ops.append({'o': 'adjust_pv', 'x': 'p%d' % i, 'a': [True] if rng.random() < .4 and not r['fixed'] else []})
            ops.append({'o': 'emit', 'x': 'D'})
        return {'env': rand_env(rng), 'ops': laid(rng, ops)}

    @classmethod
    def check(cls, R, r, tree):
        return K.chain(R.model, 'D', tree)


@prop
class C03(NetProp):
    id = 'C03'

    @classmethod
    def gen(cls, rng):
        if rng.random() < 0.12:
            return crossing_program(rng, rng.choice([0, .5]), kinds='llaassp', linkers=.5)
        if rng.random() < .015:
            return long_program(rng, rng.choice([0, .5]))
        net = gen.network(rng, chain=rng.choice([0, 0.3]), bare=.12, n=(2, 6), fixed=.2, sections=(1, 3), lanes=(0, 3), ring=.1, extra=.2, uturn=.1, direct_kind=rng.choice([None, 'consecutive']),
                          junction=rng.choice([.2, .5]))
        mism = None
        cons = [(i, j) for i, c, j, cj in net.direct if c != cj]
        if cons and rng.random() < .2:
            i, j = rng.choice(cons)
            q = rng.choice([i, j])
            side = rng.randrange(2)
            mism = (q, side)
        clients = gen.build(rng, net, kinds='l', npieces=(1, 1), marks=False, linkers=rng.choice([0, .7]), late_links=rng.choice([0, 0, .4]))
        ops = gen.merge(rng, clients)
        pf = rng.choice([0, .5, .9])
        fix = None
        if mism:
            q, side = mism
            # one more lane than its neighbour in every section: reported, then corrected in every linked road
            ln = {'o': 'lane', 'x': 'extra', 'a': {'a': 3}}
            if net.roads[q]['style'] == 'manual':
                k = rng.randrange(net.roads[q]['nsec'])
                at = [i for i, op in enumerate(ops) if op['o'] == 'add_road' and op['r'] == 'r%d' % q][0]
                ops[at:at] = [ln, {'o': ['left', 'right'][side], 'x': 's%d_%d' % (q, k), 'l': 'extra'}]
        if rng.random() < .4:
            ops = with_early_adjusts(rng, net, ops, pf)
        d = {'o': 'adjust', 'x': 'D'}
        d.update(adjust_faults(rng, pf, len(net.roads)))
        ops.append(d)
        ops.append({'o': 'emit', 'x': 'D'})
        if rng.random() < .4:
            d = {'o': 'adjust', 'x': 'D'}
            d.update(adjust_faults(rng, pf, len(net.roads)))
            ops += [d, {'o': 'emit', 'x': 'D'}]
        return {'env': rand_env(rng), 'ops': ops}

    class runner(Run):
        def accepted(self, r, pred):
            if pred[1] == 'NotSameAmountOfLanesError':
                fail('mismatch', 'roads with different lane counts in the touching sections were linked without a report')
            self.lost = True

        def other_error(self, r, pred):
            if pred[1] == 'NotSameAmountOfLanesError':
                fail('mismatch', 'a lane count mismatch was reported as %s', r.exc[0])

    @classmethod
    def check(cls, R, r, tree):
        return K.lane_links(R.model, 'D', tree)


@prop
class C04(NetProp):
    id = 'C04'

    @classmethod
    def gen(cls, rng):
        if rng.random() < 0.2:
            return crossing_program(rng, rng.choice([0, .5]), kinds='llaassp', linkers=.3)
        while True:
            net = gen.network(rng, n=(2, 5), fixed=.2, sections=(1, 2), lanes=(0, 3), junction=.9, extra=.5, uturn=.15, offsets=.5, strids=.4)
            if net.junctions:
                break
        clients = gen.build(rng, net, kinds='l', npieces=(1, 1), marks=False)
        gens, before, afterw = [], [], []
        for q, j in enumerate(net.junctions):
            if rng.random() < .25:
                clients.append(gen.manual_junction(rng, net, q))
                continue
            cr = ['r%d' % i for i in j['cr']]
            rs = sorted({'r%d' % i for i, _ in j['met']})
            rng.shuffle(cr)
            rng.shuffle(rs)
            mk = {'o': 'mkjunction', 'x': 'J%d' % q, 'cr': cr, 'id': j['id'], 'rs': rs}
            tail = [mk]
            if rng.random() < .12:
                # generated before, and thrown away after something was added to it
                old = dict(mk, x='O%d' % q)
                tail = [old, {'o': 'conn', 'x': 'o%d' % q, 'in': 0, 'cr': 0, 'c': 'start'}, {'o': 'addconn', 'x': 'O%d' % q, 'c': 'o%d' % q}, mk]
            tail.append({'o': 'add_junction', 'x': 'D', 'j': 'J%d' % q})
            (before if rng.random() < .5 else afterw).append(tail)
        ops = gen.merge(rng, clients)
        have = {gen.defines(op) for op in ops}
        ops += gen.merge(rng, before, have)
        pf = rng.choice([0, .4])
        d = {'o': 'adjust', 'x': 'D'}
        d.update(adjust_faults(rng, pf, len(net.roads)))
        ops.append(d)
        ops += gen.merge(rng, afterw, have)
        if rng.random() < .3:
            ops.append({'o': 'adjust', 'x': 'D'})
        ops.append({'o': 'emit', 'x': 'D'})
        return {'env': rand_env(rng), 'ops': ops}

    @classmethod
    def check(cls, R, r, tree):
        return K.tables(R.model, 'D', tree)


@prop
class C11(NetProp):
    id = 'C11'

    @classmethod
    def gen(cls, rng):
        if rng.random() < .02:
            s = long_program(rng)
            if rng.random() < .3:
                adds = [op for op in s['ops'][:-3] if op['o'] == 'add_road']
                s['ops'].remove(rng.choice(adds))
            return s
        if rng.random() < .002:         # a very long one: nothing may grow with the length but the time
            n = 2600
            ops = gen.long_chain(rng, n, forward=True)
            ops += [{'o': 'startpoints', 'x': 'D'}] + [{'o': 'q_road', 'x': 'r%d' % (n - 1)}]
            return {'env': rand_env(rng, step_limit=40000 + 3000 * n), 'ops': ops}
        net = gen.network(rng, chain=rng.choice([0, 0.24]), bare=.1, n=(1, rng.choice([4, 9])), fixed=.3, sections=(1, 1), ring=.3, extra=.4, uturn=.1, island=.4, multifixed=.3, jid_clash=.7,
                          junction=rng.choice([0, .4, .8]), lanes=(1, 1))
        clients = gen.build(rng, net, kinds='l', npieces=(1, 1), marks=False, late_links=.2)
        ops = gen.merge(rng, clients)
        m = rng.random()
        if m < .25:
            # some roads are missing (at first)
            n = rng.randint(1, max(1, len(net.roads) // 2))
            adds = [op for op in ops if op['o'] == 'add_road']
            gone = rng.sample(adds, min(n, len(adds)))
            ops = [op for op in ops if op not in gone]
            late = gone if rng.random() < .6 else []
        else:
            late = []
        if rng.random() < .3:
            ops = with_early_adjusts(rng, net, ops, 0)
        lim = 40000 + 3000 * (len(net.roads) + 2) ** 2
        ops.append({'o': 'adjust', 'x': 'D'})
        ops.append({'o': 'emit', 'x': 'D'})
        if late:
            ops += late
            ops += [{'o': 'adjust', 'x': 'D'}, {'o': 'emit', 'x': 'D'}]
        if rng.random() < .05:
            ops = [{'o': 'odr', 'x': 'D', 'n': 'empty'}, {'o': 'adjust', 'x': 'D'}, {'o': 'emit', 'x': 'D'}]
        return {'env': rand_env(rng, step_limit=lim), 'ops': laid(rng, ops)}

    class runner(RunR):
        def accepted(self, r, pred):
            if pred[1] != 'UndefinedRoadNetwork':
                self.lost = True
                return
            fail('not reported', 'the network has unreachable roads, yet adjusting it returned')

        def other_error(self, r, pred):
            fail('error kind', 'adjusting raised %s instead of %s', r.exc[0], pred[1])

    @classmethod
    def judge(cls, R, scn):
        st = {'n': 0, 'ok': False}

        def after(r, pred):
            if r.op['o'] in ('adjust', 'startpoints'):
                st['n'] += 1
                st['ok'] = pred is None or pred == 'ok'
                if pred == 'any':
                    st['ok'] = False
            if r.op['o'] == 'add_road':
                st['ok'] = False
            if r.op['o'] == 'emit' and st['ok'] and r.st == 'ok' and not R.lost:
                for m, e in K.roads(R.model, 'D', r.out[0]):
                    if len(K.geoms(e)) != len(m['pv']['g']):
                        fail('not placed', 'adjusting returned, but road %r is not placed', m['id'])
        R.go(scn['ops'], after=after)
        return st['n'] > 0


@prop
class C18(NetProp):
    id = 'C18'

    @classmethod
    def gen(cls, rng):
        if rng.random() < 0.1:
            return crossing_program(rng, rng.choice([0, .5]), kinds='llaassp', rich=True, names=True, linkers=.4)
        net = gen.network(rng, n=(1, 5), fixed=.3, sections=(1, 3), lanes=(0, 3), ring=.1, extra=.2)
        clients = gen.build(rng, net, kinds='llaassp', rich=True, names=True, linkers=.4, objects=.6, signals=.6, ids=rng.random() < .3, neighbours=.3,
                            late_links=rng.choice([0, .4]))
        nj = len(net.junctions)
        post = []
        for q in range(nj):
            if rng.random() < .5:
                clients.append(gen.manual_junction(rng, net, q))
            else:
                j = net.junctions[q]
                post.append([{'o': 'mkjunction', 'x': 'J%d' % q, 'cr': ['r%d' % i for i in j['cr']], 'id': j['id'], 'rs': sorted({'r%d' % i for i, _ in j['met']})},
                             {'o': 'add_junction', 'x': 'D', 'j': 'J%d' % q}])
        for q in range(nj, nj + rng.choice([0, 0, 1])):
            clients.append(gen.manual_junction(rng, net, q))
        ops = gen.merge(rng, clients)
        have = {gen.defines(op) for op in ops}
        ops += gen.merge(rng, post, have)
        if rng.random() < .3:
            # some things are completed late
            moved = [op for op in ops if op['o'] in ('lane_mark', 'repeat', 'lanelink', 'neigh') and rng.random() < .3]
            for op in moved:
                i = [q for q, o in enumerate(ops) if o is op][0]
                ops.pop(i)
                ops.insert(rng.randint(i, len(ops)), op)
            if moved:
                adds = [q for q, o in enumerate(ops) if o['o'] == 'add_road']
                ops.insert(rng.randint(adds[0], len(ops)) if adds else len(ops), {'o': 'emit', 'x': 'D'})
        # faults on calls that talk to the console, emissions in between
        pf = rng.choice([0, .3])
        out = []
        for op in ops:
            if op['o'] in ('addsec', 'add_obj', 'add_sig', 'create_road', 'straight', 'cac', 'mark', 'obj') and rng.random() < pf:
                if op['o'] not in ('add_obj', 'add_sig') or not isinstance(op['b'], list) and op['b'][0] not in 'QS':
                    op['f'] = [console_fault(rng, 3)]
            out.append(op)
            if op['o'] == 'add_road' and rng.random() < .25:
                out.append({'o': 'emit', 'x': 'D'})
        ops = with_early_adjusts(rng, net, out, pf) if rng.random() < .2 and not pf else out
        if rng.random() < .8:
            d = {'o': 'adjust', 'x': 'D'}
            d.update(adjust_faults(rng, pf, len(net.roads)))
            at = len(ops)
            ops.insert(at, d)
            if rng.random() < .4:
                for i in range(len(net.roads)):
                    if rng.random() < .4:
                        ops.append(gen.obj(rng, 'b%d' % i))
                        ops.append({'o': 'roadside', 'x': 'r%d' % i, 'b': 'b%d' % i, 'd': gen.num(rng, 0, 9), 'a': roadside_args(rng)})
        ops.append({'o': 'emit', 'x': 'D'})
        if rng.random() < .4:
            ops += [{'o': 'write', 'x': 'D', 'file': 'd.xodr', 'pretty': rng.random() < .5}, {'o': 'emit', 'x': 'D'}]
        return {'env': rand_env(rng), 'ops': ops}

    @classmethod
    def check(cls, R, r, tree):
        K.whole(R.model, 'D', tree)
        return 1


def roadside_args(rng):
    a = {}
    if rng.random() < .7:
        a['side'] = rng.choice(['both', 'left', 'right'])
    if rng.random() < .5:
        a['sOffset'] = gen.num(rng, 0, 5)
    if rng.random() < .5:
        a['tOffset'] = gen.num(rng, -1, 5)
    return a


@prop
class C14(NetProp):
    id = 'C14'

    @classmethod
    def gen(cls, rng):
        nr = gen.upto(rng, 1, 3)
        clients = []
        adders = []
        roads = []
        for i in range(nr):
            nsec = gen.upto(rng, 1, 4)
            secs = []
            for q in range(nsec):
                x = 's%d_%d' % (i, q)
                cl = [gen.lane(rng, 'c%d_%d' % (i, q)), {'o': 'section', 'x': x, 's': 10 * q, 'c': 'c%d_%d' % (i, q)}]
                nl, nrr = rng.randint(0, 4), rng.randint(0, 4)
                if rng.random() < .04:
                    nl, nrr = rng.choice([(0, 12), (12, 0), (11, 11), (7, 2)])
                clients.append(cl)
                left = []
                for side, n in (('left', nl), ('right', nrr)):
                    cl2 = []
                    for t in range(n):
                        ln = '%s%d_%d_%d' % (side[0], i, q, t)
                        cl2 += [gen.lane(rng, ln), {'o': side, 'x': x, 'l': ln}]
                        left.append(ln)
                    clients.append(cl2)
                secs.append((x, left))
            roads.append(secs)
        ops = gen.merge(rng, clients)
        have = {gen.defines(op) for op in ops}
        clients = []
        for i, secs in enumerate(roads):
            cl = [{'o': 'lanes', 'x': 'L%d' % i}]
            lks = []
            for q in range(len(secs) - 1):
                a, b = list(secs[q][1]), list(secs[q + 1][1])
                rng.shuffle(a)
                rng.shuffle(b)
                prs = list(zip(a, b))[:rng.randint(0, 5)]
                k = 'k%d_%d' % (i, rng.randint(0, q))
                for u, v in prs:
                    if k not in lks:
                        cl.append({'o': 'linker', 'x': k})
                        lks.append(k)
                    cl.append({'o': 'link', 'x': k, 'a': u, 'b': v})
                if a and b and rng.random() < .3:       # lanes that merge or split
                    for _ in range(rng.randint(1, 3)):
                        u, v = rng.choice(a), rng.choice(b)
                        if (u, v) not in prs:
                            prs.append((u, v))
                            if k not in lks:
                                cl.append({'o': 'linker', 'x': k})
                                lks.append(k)
                            cl.append({'o': 'link', 'x': k, 'a': u, 'b': v})
                if q and rng.random() < .15:            # one lane skips a section
                    z = list(secs[rng.randrange(q)][1])
                    if z and secs[q + 1][1]:
                        u, v = rng.choice(z), rng.choice(secs[q + 1][1])
                        if k not in lks:
                            cl.append({'o': 'linker', 'x': k})
                            lks.append(k)
                        cl.append({'o': 'link', 'x': k, 'a': u, 'b': v})
            for q in range(len(secs)):
                op = {'o': 'addsec', 'x': 'L%d' % i, 's': secs[q][0]}
                if lks and rng.random() < .75:
                    ks = [rng.choice(lks) for _ in range(rng.randint(1, 3))]
                    op['k'] = ks if len(ks) > 1 or rng.random() < .3 else ks[0]
                    if rng.random() < .3:
                        op['f'] = [console_fault(rng, 5)]
                        if rng.random() < .3:
                            op['f2'] = [console_fault(rng, 3)]
                cl.append(op)
            cl += [{'o': 'line', 'x': 'g%d' % i, 'l': 100}, {'o': 'pv', 'x': 'p%d' % i, 'a': []}, {'o': 'geom', 'x': 'p%d' % i, 'g': 'g%d' % i}]
            cl.append({'o': 'road', 'x': 'r%d' % i, 'id': i, 'p': 'p%d' % i, 'l': 'L%d' % i, 'a': {}})
            cl.append({'o': 'add_road', 'x': 'D', 'r': 'r%d' % i})
            if rng.random() < .3:
                cl.append({'o': 'emit', 'x': 'D'})
            clients.append(cl)
        clients.append([{'o': 'odr', 'x': 'D', 'n': 'd'}])
        ops += gen.merge(rng, clients, have)
        ops.append({'o': 'emit', 'x': 'D'})
        # lanes added to a section that already is in a document
        if rng.random() < .3:
            i = rng.randrange(nr)
            side = rng.choice(['left', 'right'])
            ops += [gen.lane(rng, 'late'), {'o': side, 'x': roads[i][-1][0], 'l': 'late'}, {'o': 'emit', 'x': 'D'}]
        return {'env': rand_env(rng), 'ops': ops}

    @classmethod
    def check(cls, R, r, tree):
        return K.lane_ids(R.model, 'D', tree) + K.lane_links(R.model, 'D', tree)


@prop
class C17(NetProp):
    id = 'C17'

    @classmethod
    def gen(cls, rng):
        net = gen.network(rng, n=(1, 4), fixed=.3, sections=(1, 3), lanes=(0, 3))
        clients = gen.build(rng, net, kinds='llas', npieces=(1, 2), rich=rng.random() < .3, objects=.2)
        ops = gen.merge(rng, clients)
        d = {'o': 'adjust', 'x': 'D'}
        d.update(adjust_faults(rng, .2, len(net.roads)))
        ops.append(d)
        nproto = rng.randint(1, 3)
        post = []
        for q in range(nproto):
            post.append(gen.obj(rng, 'b%d' % q, rng.random() < .3))
            if rng.random() < .3:
                post.append(gen.repeat(rng, 'b%d' % q))
        for _ in range(gen.upto(rng, 1, 6)):
            op = {'o': 'roadside', 'x': 'r%d' % rng.randrange(len(net.roads)), 'b': 'b%d' % rng.randrange(nproto), 'd': gen.num(rng, 0, 9), 'a': roadside_args(rng)}
            if rng.random() < .4:
                op['f'] = [console_fault(rng, 3)]
                if rng.random() < .4:
                    op['noretry'] = 1
            post.append(op)
            if rng.random() < .2:
                post.append({'o': 'emit', 'x': 'D'})
        if rng.random() < .4:
            # the prototypes themselves, afterwards
            q = rng.randrange(nproto)
            post.append({'o': 'add_obj', 'x': 'r0', 'b': 'b%d' % q})
            if rng.random() < .3:
                post.append({'o': 'roadside', 'x': 'r%d' % rng.randrange(len(net.roads)), 'b': 'b%d' % q, 'd': 3, 'a': {}})
        ops += post
        ops.append({'o': 'emit', 'x': 'D'})
        return {'env': rand_env(rng), 'ops': ops}

    @classmethod
    def check(cls, R, r, tree):
        n = 0
        for m, e in K.roads(R.model, 'D', tree):
            exp = R.model.x_road(m)
            for tag in ('objects',):
                a = [c for c in exp[2] if c[0] == tag]
                b = K.kids(e, tag)
                if len(a) != len(b):
                    fail('series', 'road %r has %d <%s> instead of %d', m['id'], len(b), tag, len(a))
                for x, y in zip(a, b):
                    n += len(x[2])
                    d = M.diff(x, y, ctx={'length': e[1].get('length')})
                    if d:
                        fail('series', 'road %r: %s', m['id'], '; '.join('%s %s' % t for t in d[:3]))
        return n


# ------------------------------------------------------------------------------------ C10: again equals once
def numeric_close(a, b, tol=1e-6):
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return abs(x - y) <= tol + 1e-12 * max(abs(x), abs(y))


def equivalent(a, b, path='', out=None):
    """same document, numbers up to rounding, headings up to full turns, lane links as a multiset"""
    out = [] if out is None else out
    if len(out) > 5:
        return out
    p = path + '/' + a[0]
    if a[0] != b[0]:
        out.append('%s: %s versus %s' % (path, a[0], b[0]))
        return out
    for k in sorted(set(a[1]) | set(b[1])):
        x, y = a[1].get(k), b[1].get(k)
        if x == y or (x is not None and y is not None and numeric_close(x, y)):
            continue
        if k == 'hdg' and x and y:
            try:
                if abs(refgeo.angdiff(float(x), float(y))) < 1e-6:
                    continue
            except ValueError:
                pass
        out.append('%s: %s is %r versus %r' % (p, k, x, y))
    ca, cb = a[2], b[2]
    if a[0] == 'link':
        ca, cb = sorted(ca, key=repr), sorted(cb, key=repr)
    if len(ca) != len(cb):
        out.append('%s: %d versus %d children' % (p, len(ca), len(cb)))
        return out
    for i, (x, y) in enumerate(zip(ca, cb)):
        equivalent(x, y, p + '[%d]' % i, out)
    return out


@prop
class C10(Base):
    id = 'C10'

    @classmethod
    def gen(cls, rng):
        while True:
            net = gen.network(rng, chain=rng.choice([0, 0.24]), n=(2, 6), fixed=.4, sections=(1, 2), lanes=(1, 2), island=.3, direct_kind=rng.choice([None, 'consecutive']))
            comps = {r['comp'] for r in net.roads}
            per = [sum(1 for r in net.roads if r['fixed'] and r['comp'] == c) for c in comps]
            if per == [0] or set(per) == {1}:       # every group of roads has its own fixed start
                break
        clients = gen.build(rng, net, kinds='llaassp', npieces=(1, 3), marks=False, late_links=rng.choice([0, 0, .5]), linkers=.2, styles=rng.random() < .6)
        ops = gen.merge(rng, clients)
        held = None
        mode = rng.choice(['faults', 'faults', 'mismatch', 'extend', 'extend', 'missing'])
        if mode == 'mismatch':
            # one lane of a touching section is forgotten, and added after the report
            c = [op for op in ops if op['o'] in ('left', 'right')]
            if c:
                held = rng.choice(c)
                ops = [op for op in ops if op is not held]
        pf = rng.choice([.5, 1])
        if mode in ('extend', 'missing'):
            lo = fixed_first(net, ops)
            out = []
            for i, op in enumerate(ops):
                out.append(op)
                if op['o'] == 'add_road' and i + 1 >= lo and i + 1 < len(ops) and rng.random() < .6:
                    d = {'o': 'adjust', 'x': 'D'}
                    if rng.random() < .3:
                        d.update(adjust_faults(rng, 1, len(net.roads)))
                    out += [d, {'o': 'emit', 'x': 'D', 'early': 1}]
            ops = out
        if rng.random() < .4:
            # attempts that are bound to fail, before the roads with a fixed start are there
            lo = fixed_first(net, ops)
            m = M.Model()
            out = []
            for i, op in enumerate(ops):
                D = m.o.get('D')
                if i < lo and D and D['roads'] and op['o'] == 'add_road' and not any(r['pv']['fixed'] for r in D['roads']) and len(m.reach(D)[1]) < len(D['roads']):
                    out.append({'o': rng.choice(['adjust', 'startpoints']), 'x': 'D'})
                out.append(op)
                m.do(op)
            ops = out
        if held:
            ops += [{'o': 'adjust', 'x': 'D'}, held]
        for _ in range(rng.choice([0, 1, 2])):
            d = {'o': 'adjust', 'x': 'D', 'noretry': 1}
            d.update(adjust_faults(rng, pf, len(net.roads)))
            ops.append(d)
        d = {'o': 'adjust', 'x': 'D', 'final': 1}
        d.update(adjust_faults(rng, pf, len(net.roads)))
        ops += [d, {'o': 'emit', 'x': 'D', 'final': 1}]
        for _ in range(rng.choice([1, 1, 2])):
            ops += [{'o': 'adjust', 'x': 'D'}, {'o': 'emit', 'x': 'D', 'again': 1}]
        return {'env': rand_env(rng), 'ops': laid(rng, ops)}

    @classmethod
    def run(cls, scn):
        ops = scn['ops']
        clean = [op for op in ops if op['o'] not in ('adjust', 'startpoints', 'emit') or op.get('final')]
        clean = [{k: v for k, v in op.items() if k not in ('f', 'f2', 'noretry')} for op in clean]
        ref = {}
        with Run(scn) as B:
            def after(r, pred):
                if r.op.get('final') and r.op['o'] == 'emit' and r.st == 'ok':
                    ref['t'] = r.out[0]
                if r.op['o'] == 'adjust':
                    ref['adj'] = r.st == 'ok' and pred == 'ok' and not B.model.cyclic(B.model.o['D'])
            try:
                B.go(clean, after=after)
            except Violation as e:
                return summary(B.w, [e.kind, 'clean run: ' + e.msg])
        if not ref.get('adj') or 't' not in ref:
            with Run(scn) as A:
                return summary(A.w, None, False)
        with Run(scn) as A:
            return guarded(A, lambda A: cls.judge(A, ops, ref['t']))

    @classmethod
    def judge(cls, A, ops, ref):
        st = {'first': None, 'early': [], 'adj': False, 'n': 0}

        def after(r, pred):
            if r.op['o'] in ('adjust', 'startpoints'):
                st['adj'] = r.st == 'ok' and pred == 'ok'
                st['n'] += 1 if (r.faulted or r.st == 'rej') else 0
                if r.op.get('final') and r.st != 'ok':
                    fail('again', 'adjusting again raised %s: %s', r.exc and r.exc[0], r.val if r.st == 'rej' else '')
            if r.op['o'] != 'emit' or r.st != 'ok':
                return
            t = K.undated(r.out[0])
            if r.op.get('early'):
                if st['adj'] and not A.lost and all(x['pv']['adj'] for x in A.model.o['D']['roads']):
                    st['early'].append((len(A.model.o['D']['roads']), t))
            elif r.op.get('final'):
                st['first'] = t
            elif r.op.get('again') and st['first'] is not None:
                if t != st['first']:
                    d = M.differ(st['first'], t)
                    fail('changed', 'adjusting an adjusted network changed it: %s', '; '.join('%s %s' % x for x in d[:3]))
        A.go(ops, after=after, strict=True)
        t = st['first']
        if t is None or A.model.o['D'].get('late_fixed'):
            return False
        d = equivalent(K.undated(ref), t)
        if d:
            fail('differs', 'after %d failed attempts the document differs from a single adjustment: %s', st['n'], '; '.join(d[:3]))
        late = {r[1]['id']: r for r in K.kids(t, 'road')}
        for n, e in st['early']:
            for r in K.kids(e, 'road'):
                q = late.get(r[1]['id'])
                if q is None:
                    fail('lost', 'road %s disappeared', r[1]['id'])
                x = equivalent(K.kid(r, 'planView'), K.kid(q, 'planView'))
                if x:
                    fail('moved', 'extending the network moved road %s: %s', r[1]['id'], x[0])
                for s1, s2 in zip(K.sections(r), K.sections(q)):
                    for (sd, l1), (_, l2) in zip(K.lanes_of(s1), K.lanes_of(s2)):
                        lost = K.links_of(l1) - K.links_of(l2)
                        if lost:
                            fail('relinked', 'extending the network removed links %s', K.show(lost))
        return st['n'] > 0 or len(st['early']) > 0


# ------------------------------------------------------------------------------------ writing
def small_doc(rng, n=(1, 2), adjust=True, objects=.4, names=True, kinds='llas'):
    if rng.random() < .03:
        return [{'o': 'odr', 'x': 'D', 'n': rng.choice(['', 'e', 'no roads'])}, {'o': 'straight', 'x': 'r0', 'id': 0, 'a': {}}]
    net = gen.network(rng, n=n, fixed=.3, sections=(1, 2), lanes=(0, 2))
    clients = gen.build(rng, net, kinds=kinds, npieces=(1, 2), names=names, objects=objects, signals=objects, rich=rng.random() < .3)
    for q in range(rng.choice([0, 1])):
        clients.append(gen.manual_junction(rng, net, len(net.junctions) + q))
    ops = gen.merge(rng, clients)
    if adjust:
        ops.append({'o': 'adjust', 'x': 'D'})
    return ops


ENCODINGS = ['utf-8', 'ascii', 'latin-1', 'cp1252', 'utf-16', 'koi8-r', 'cp932']


def twin(rng, ops, pfx='u.'):
    """another document, of the same length, that differs in one digit (None if there is no such digit)"""
    ops = copy.deepcopy(rename(ops, pfx))
    c = [(d, k) for op in ops for d, ks in ((op.get('a'), 'abcd' if op['o'] == 'lane' else ()), (op, ('s', 't') if op['o'] in ('obj', 'sig') else ())) for k in ks
         if isinstance(d, dict) and isinstance(d.get(k), (int, float)) and 1 <= d[k] < 9]
    if not c:
        return None
    d, k = rng.choice(c)
    d[k] = type(d[k])(repr(d[k]).replace(repr(d[k])[0], str(int(d[k]) % 8 + 1), 1))
    return ops


def file_env(rng, **k):
    return rand_env(rng, encoding=rng.choice(ENCODINGS), linesep=rng.choice(['\n', '\r\n', '\n']), buffer=rng.choice([16, 64, 512, 8192, 8192]), **k)


def file_name(rng, names):
    """one of the names, spelled in some way"""
    n = rng.choice(names)
    m = rng.random()
    if m < .06:
        return {'file': './' + n}
    if m < .12:
        return {'file': 'sub/../' + n}
    if m < .2:
        return {'file': n, 'abs': 1}
    return {'file': n}


def text_in(n):
    """stray character data anywhere in the document"""
    return ''.join((e.text or '') + (e.tail or '') for e in n.iter()).strip()


def complete(b, want, what):
    """the bytes are the complete, well-formed document `want` (tree); dates apart"""
    try:
        root = ET.fromstring(b)
    except Exception as e:
        fail('incomplete', '%s is not well-formed (%d bytes): %s', what, len(b), str(e)[:160])
    t = api.node(root)
    if text_in(root):
        fail('incomplete', '%s holds stray text %r', what, text_in(root)[:60])
    if K.undated(t) != K.undated(want):
        d = M.differ(K.undated(want), K.undated(t))
        fail('incomplete', '%s differs from the document in memory: %s', what, '; '.join('%s %s' % x for x in d[:3]))
    return t


def date_ok(w, d, i0, i1, tid=None):
    """the date is a clock value read during the operation (by that thread)"""
    try:
        v = datetime.datetime.fromisoformat(str(d).replace('T', ' ')[:26].rstrip())
    except ValueError:
        return False
    return any(abs((x - v).total_seconds()) < 1.0 for x, t in zip(w.clock_log[i0:i1], w.clock_by[i0:i1]) if tid is None or t == tid)


@prop
class C06(Base):
    id = 'C06'

    @classmethod
    def gen(cls, rng):
        ops = small_doc(rng, n=(1, 3))
        big = gen.big(rng, ops, .04)
        docs = ['D']
        if rng.random() < .25 and not big:
            other = twin(rng, ops)
            if other:
                ops += other
                docs = ['D', 'u.D']
        for q in range(gen.upto(rng, 1, 4)):
            if q and rng.random() < .25:
                ops += [gen.obj(rng, 'more%d' % q), {'o': 'add_obj', 'x': 'r0', 'b': 'more%d' % q}]
            op = {'o': 'write', 'x': rng.choice(docs)}
            if rng.random() < .85:
                op.update(file_name(rng, ['a.xodr', 'b c.xodr', 'a.xodr', '\u00fc.xodr', 'a.xodr', 'noext', rng.choice(['a$DST_V.xodr', '~/h.xodr', '~.xodr', '%d.xodr', 'a{0}.xodr', '*.xodr', 'a;b.xodr', '#a.xodr', '-o.xodr'])]))
            if rng.random() < .9:
                op['pretty'] = rng.random() < .5
            f = []
            if rng.random() < .7:
                f.append({'k': 'short', 'chunk': rng.choice([1, 2, 3, 7, 64, 500]) if not big else rng.choice([99, 500, 8191])})
            if f:
                op['f'] = f
            ops.append(op)
            if rng.random() < .3:
                ops.append({'o': 'jump', 's': rng.choice([-86400, -5, 3600])})
        scn = {'env': file_env(rng), 'ops': ops}
        if big:
            scn['env']['buffer'] = 8192
        if rng.random() < .5:
            scn['old'] = {'a.xodr': rng.choice([0, 10, 3000, 60000])}
        if rng.random() < .15:      # in another folder
            for op in ops:
                if op['o'] == 'write' and op.get('file') and '/' not in op['file']:
                    op['file'] = 'sub/' + op['file']
        return scn

    @classmethod
    def run(cls, scn):
        with Run(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn))

    @classmethod
    def judge(cls, R, scn):
        w = R.w
        st = {'n': 0}
        # names the file system cannot take are not written by default name
        for k, v in (scn.get('old') or {}).items():
            with sim.real_open(os.path.join(w.root, k), 'wb') as f:
                f.write(b'<old>' + b'x' * v)
        before = {}

        def pre(r):
            if r.op['o'] == 'write':
                before['t'] = [api.node(R.env[r.op['x']].get_element())]
                before['s'] = w.snapshot()
                before['i'] = len(w.clock_log)

        def after(r, pred):
            if r.op['o'] != 'write':
                return
            name = r.op.get('file')
            if name is None:
                name = R.model.o[r.op['x']]['n'] + '.xodr'
                if '/' in name or len(name.encode()) > 250:
                    return
            name = os.path.normpath(name)
            if r.st == 'rej':
                fail('write raised', 'writing raised %s: %s', r.exc[0], r.val)
            st['n'] += 1
            if w.leaked():
                fail('open', 'still open after writing: %s', w.leaked())
            snap = w.snapshot()
            if name not in snap:
                fail('missing', 'no file %r after writing (%s)', name, sorted(snap))
            t = complete(snap[name], before['t'][0], 'the file')
            if not R.lost:
                K.whole(R.model, r.op['x'], t)
            if not date_ok(w, K.date_of(t), before['i'], len(w.clock_log)):
                fail('date', 'the file is dated %r, it was written at %s', K.date_of(t), w.now)
            for k, v in before['s'].items():
                if k != name and snap.get(k) != v:
                    fail('other file', 'writing %r changed %r', name, k)
        R.go(scn['ops'], before=pre, after=after, strict=False)
        return st['n'] > 0


def write_fault(rng, size=4000):
    m = rng.random()
    at = rng.choice([0, rng.randint(0, 60), rng.randint(0, size), rng.randint(0, size), size * 3])
    if m < .2:
        return {'k': 'open', 'n': 1, 'err': rng.choice(OPEN_ERR)}
    if m < .6:
        return {'k': 'write', 'at': at, 'err': rng.choice(WRITE_ERR), 'sticky': rng.random() < .5}
    if m < .8:
        return {'k': 'close', 'err': rng.choice(WRITE_ERR), 'lose': rng.choice([1, 7, 100, 5000])}
    return {'k': 'write', 'at': at, 'err': 'ENOSPC', 'sticky': True}


def kill_fault(rng, size=4000):
    m = rng.random()
    if m < .15:
        return {'k': 'kill_open'}
    if m < .3:
        return {'k': 'kill_close'}
    return {'k': 'kill', 'at': rng.choice([rng.randint(0, 60), rng.randint(0, size), rng.randint(0, size), rng.randint(0, 3 * size)])}


def wellformed(b):
    try:
        return api.parse(b)
    except Exception:
        return None


@prop
class C07(Base):
    id = 'C07'

    @classmethod
    def gen(cls, rng):
        ops = small_doc(rng, n=(1, 2))
        size = rng.choice([300, 1500, 4000])
        old = rng.choice([None, None, 'garbage', 'doc', 'doc', 'long'])
        name = rng.choice(['a.xodr', 'a.xodr', 'sub/b.xodr', 'a', '~/h$DST_V.xodr'])
        big = gen.big(rng, ops, .02)
        if big:
            size = big
        for q in range(gen.upto(rng, 1, 3)):
            op = dict({'o': 'write', 'x': 'D', 'pretty': rng.random() < .5}, **file_name(rng, [name]))
            if big:
                op['file'] = name
            m = rng.random()
            if m < .55:
                op['f'] = [write_fault(rng, size)]
                op['noretry'] = 1
            elif m < .85:
                op['f'] = [kill_fault(rng, size)]
            else:
                # something that cannot be serialised
                ops += [{'o': 'junction', 'x': 'X%d' % q, 'n': 5, 'id': 900 + q}, {'o': 'add_junction', 'x': 'D', 'j': 'X%d' % q}]
                op['bad'] = 1
            if op.get('f') and rng.random() < .4:
                op['f'].append({'k': 'short', 'chunk': rng.choice([1, 7, 50, 400]) if not big else 500})
            ops.append(op)
            if op.get('bad'):
                break
        scn = {'env': file_env(rng), 'ops': ops, 'old': old, 'name': name}
        if big:
            scn['env']['buffer'] = 8192
        return scn

    @classmethod
    def run(cls, scn):
        with Run(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn))

    @classmethod
    def judge(cls, R, scn):
        w = R.w
        name = scn['name']
        os.makedirs(os.path.join(w.root, 'sub'), exist_ok=True)
        p = os.path.join(w.root, name)
        if scn['old'] == 'garbage':
            old = b'<OpenDRIVE' + b'g' * 700
        elif scn['old'] == 'long':
            old = b'<OpenDRIVE>' + b' ' * 40000 + b'</OpenDRIVE>'
        elif scn['old'] == 'doc':
            old = b'<OpenDRIVE><header name="before"/></OpenDRIVE>'
        else:
            old = None
        if old is not None:
            with sim.real_open(p, 'wb') as f:
                f.write(old)
        with sim.real_open(os.path.join(w.root, 'other.xodr'), 'wb') as f:
            f.write(b'<other/>')
        with sim.real_open(os.path.join(w.root, 'sub', 'note.txt'), 'wb') as f:
            f.write(b'note')
        st = {'n': 0}
        todo = list(scn['ops'])
        built = []
        cur = {}

        def pre(r):
            if r.op['o'] == 'write':
                cur['old'] = w.snapshot()
                cur['t'] = K.undated(api.node(R.env['D'].get_element()))

        def others(now):
            for k, v in cur['old'].items():
                if k != name and now.get(k) != v:
                    fail('other file', 'a failed write changed %r', k)

        def after(r, pred):
            if r.op['o'] != 'write':
                return
            now = w.snapshot()
            fault = any(l for l in w.fired[cur.get('fired', 0):])
            cur['fired'] = len(w.fired)
            if r.st == 'killed':
                st['n'] += 1
                others(now)
                b = now.get(name)
                if b != cur['old'].get(name) and b is not None:
                    t = wellformed(b)
                    if t is not None and K.undated(t) != cur['t']:
                        fail('plausible wreck', 'killed while writing: the file is a well-formed document, but neither the new nor the old one')
                return
            if r.op.get('bad'):
                st['n'] += 1
                if r.st == 'ok':
                    t = wellformed(now.get(name, b''))
                    if t is None:
                        fail('silent', 'a document that cannot be serialised was written without an error')
                    return
                if now.get(name) != cur['old'].get(name):
                    fail('lost file', 'a document that cannot be serialised cost the existing file (%s bytes left)', len(now[name]) if name in now else 'no')
                others(now)
                if w.leaked():
                    fail('open', 'left open after a failed write: %s', w.leaked())
                return
            if r.st == 'ok':
                complete(now.get(name, b''), cur['t'], 'the write returned, but the file')
                st['n'] += fault
            else:
                if not fault:
                    fail('write raised', 'writing raised %s: %s', r.exc[0], r.val)
                st['n'] += 1
            if w.leaked():
                fail('open', 'left open after a failed write: %s', w.leaked())
            others(now)
            if r.st == 'faulted':
                if K.undated(api.node(R.env['D'].get_element())) != cur['t']:
                    fail('changed', 'a failed write changed the document in memory')
                # the same call again, without the fault
                rr = api.execute(w, R.lib, [{k: v for k, v in r.op.items() if k not in ('f', 'noretry')}], R.env)
                if rr[0].st != 'ok':
                    fail('repeat', 'the same write after the fault raised %s: %s', rr[0].exc[0], rr[0].val)
                complete(w.snapshot().get(name, b''), cur['t'], 'the file written again')
        rs = R.go(todo, before=pre, after=after, strict=False)
        if rs and rs[-1].st == 'killed':
            # a new process over the same disk does it all again
            w.restart()
            lib = sim.fresh_pyodrx()
            R.lib = lib
            R.env = {}
            k = rs[-1].i
            again = [{a: b for a, b in op.items() if a not in ('f', 'f2')} for op in todo[:k + 1] if op['o'] != 'write' or op is todo[k]]
            R.model = M.Model()
            R.lost = False
            done = {}

            def after2(r, pred):
                if r.op['o'] == 'write':
                    done['r'] = r
            R.go(again, after=after2, strict=False)
            if done['r'].st != 'ok':
                fail('restart', 'after a kill and restart, writing raised %s: %s', done['r'].exc[0], done['r'].val)
            complete(w.snapshot().get(name, b''), api.node(R.env['D'].get_element()), 'the file written after a restart')
        return st['n'] > 0


@prop
class C12(Base):
    id = 'C12'
    threads = True

    @classmethod
    def several(cls, rng):
        """several roads are shown at the same time, each from its own viewer folder"""
        pre, threads, dirs = [], [], []
        for i in range(rng.choice([2, 2, 3])):
            p = 't%d.' % i
            pre += rename(small_doc(rng, n=(1, 1)), p)
            d = rng.choice(['esmini%d', 'tools/e%d', 'e s%d']) % i
            dirs.append(d)
            ops = []
            for q in range(gen.upto(rng, 1, 2)):
                if q and rng.random() < .5:
                    ops += rename([gen.obj(rng, 'more'), {'o': 'add_obj', 'x': 'r0', 'b': 'more'}], p)
                op = {'o': 'view', 'x': p + 'D', 'dir': d, 'os': 'posix', 'a': {}}
                m = rng.random()
                if m < .3:
                    op['f'] = [write_fault(rng)]
                    if rng.random() < .5:
                        op['noretry'] = 1
                elif m < .6:
                    op['f'] = [{'k': 'short', 'chunk': rng.choice([7, 100, 500])}]
                ops.append(op)
            threads.append(ops)
        return {'env': file_env(rng), 'pre': pre, 'threads': threads, 'dirs': dirs, 'mkdir': True, 'old': rng.random() < .4, 'sched': schedule(rng), 'opc': rng.random() < .4}

    @classmethod
    def gen(cls, rng):
        if rng.random() < .15:
            return cls.several(rng)
        ops = small_doc(rng, n=(1, 2))
        d = rng.choice(['esmini', 'tools/esmini', 'e s', 'esmini-2.1', 'v1.0/e', 'esmini/', './esmini', 'tools/../esmini'])
        scn = {'env': file_env(rng), 'ops': ops, 'dir': d, 'mkdir': rng.random() < .9, 'old': rng.random() < .4}
        docs = ['D']
        if rng.random() < .2:
            other = twin(rng, ops)
            if other:
                ops += other
                docs = ['D', 'u.D']
        for q in range(gen.upto(rng, *((2, 4) if len(docs) > 1 else (1, 2)))):
            if q and rng.random() < .4:
                ops += [gen.obj(rng, 'more%d' % q), {'o': 'add_obj', 'x': 'r0', 'b': 'more%d' % q}]
            op = {'o': 'view', 'x': rng.choice(docs), 'dir': d, 'os': rng.choice(['posix', 'posix', 'nt']), 'a': {}}
            if rng.random() < .2:
                op['abs'] = 1
            if rng.random() < .3:
                op['a']['density'] = rng.randint(1, 40)
            m = rng.random()
            if m < .5:
                op['f'] = [write_fault(rng)]
                if rng.random() < .5:
                    op['noretry'] = 1
            elif m < .65:
                op['f'] = [kill_fault(rng)]
            elif m < .8:
                op['f'] = [{'k': 'short', 'chunk': rng.choice([1, 7, 100])}]
            elif m < .88:
                op['f'] = [console_fault(rng, 2)]
                op['noretry'] = 1
            ops.append(op)
        if rng.random() < .3:
            scn['launch'] = {'status': rng.choice([1, 256, -11])}
        elif rng.random() < .15:
            scn['launch'] = {'exc': rng.choice(['OSError', 'MemoryError'])}
            for op in ops:
                if op['o'] == 'view':
                    op['noretry'] = 1
        if rng.random() < .1:
            ops[-1:-1] = [{'o': 'junction', 'x': 'X', 'n': 5, 'id': 900}, {'o': 'add_junction', 'x': ops[-1]['x'], 'j': 'X'}]
            scn['bad'] = 1
        return scn

    @classmethod
    def run(cls, scn):
        with Run(scn) as R:
            return guarded(R, lambda R: (cls.judge_all if 'threads' in scn else cls.judge)(R, scn))

    @staticmethod
    def folder(w, scn, d):
        res = os.path.join(w.root, d, 'resources', 'xodr')
        os.makedirs(res)
        if scn['old']:
            with sim.real_open(os.path.join(res, 'pythonroad.xodr'), 'wb') as f:
                f.write(b'<OpenDRIVE><old/></OpenDRIVE>' + b' ' * 9000)

    @classmethod
    def judge_all(cls, R, scn):
        w = R.w
        for d in scn['dirs']:
            cls.folder(w, scn, d)
        api.execute(w, R.lib, scn['pre'], R.env)

        def client(ops):
            cur = {}
            env = dict(R.env)

            def pre(r, e):
                if r.op['o'] == 'view':
                    cur['l'] = len(w.launches)
                    cur['t'] = api.node(e[r.op['x']].get_element())

            def after(r, e):
                if r.op['o'] != 'view':
                    return
                new = [l for l in w.launches[cur['l']:] if l['tid'] == w.tid()]
                for l in new:
                    cls.good(l, cur, scn)
                if len(new) > 1:
                    fail('twice', '%d viewers were started', len(new))
                if r.st == 'ok' and not new:
                    fail('not started', 'running the road returned, but no viewer was started')
                if r.st == 'faulted' and new:
                    fail('started', 'the viewer was started although writing failed (%s)', r.exc[0])
                if r.st == 'rej':
                    fail('run raised', 'running the road raised %s: %s', r.exc[0], r.val)
            return ops, env, pre, after
        concurrently(R, scn, [client(ops) for ops in scn['threads']], opcodes=scn['opc'])
        return w.counts['process launches'] > 0

    @classmethod
    def judge(cls, R, scn):
        w = R.w
        w.launch_plan = scn.get('launch')
        if scn['mkdir']:
            cls.folder(w, scn, scn['dir'])
        st = {'n': 0}
        cur = {}

        def pre(r):
            if r.op['o'] == 'view':
                cur['l'] = len(w.launches)
                cur['t'] = api.node(R.env[r.op['x']].get_element())
                cur['fired'] = len(w.fired)
                cur['snap'] = w.snapshot()

        def after(r, pred):
            if r.op['o'] != 'view':
                return
            st['n'] += 1
            new = w.launches[cur['l']:]
            bad = scn.get('bad') and any(o['o'] == 'add_junction' and o.get('j') == 'X' and o['x'] == r.op['x'] for o in scn['ops'][:r.i])
            for l in new:
                cls.good(l, cur, scn)
            if len(new) > 1:
                fail('twice', '%d viewers were started', len(new))
            if r.st == 'ok':
                if len(new) != 1:
                    fail('not started', 'running the road returned, but %d viewers were started', len(new))
            elif r.st in ('faulted', 'rej') or r.st == 'killed':
                lx = (scn.get('launch') or {}).get('exc')
                if new and not lx:
                    fail('started', 'the viewer was started although writing failed (%s)', r.exc[0] if r.exc else 'killed')
                if r.st == 'rej' and not lx and not bad and scn['mkdir']:
                    fail('run raised', 'running the road raised %s: %s', r.exc[0], r.val)
            if bad and r.st == 'ok':
                fail('silent', 'a document that cannot be serialised was shown without an error')
            if not scn['mkdir'] and r.st == 'ok' and not new:
                fail('silent', 'no viewer folder, no error')
        R.go(scn['ops'], before=pre, after=after, strict=False)
        return st['n'] > 0

    @classmethod
    def good(cls, l, cur, scn):
        cmd = l['cmd']
        cmd = cmd if isinstance(cmd, str) else ' '.join(map(str, cmd))
        flat = cmd.replace('\\', '/')
        named = [k for k in l['disk'] if os.path.relpath(k, l['cwd']) in flat or os.path.join(l['root'], k) in flat]
        if 'threads' not in scn or set(named) & set(l['open']):
            if l['open']:
                fail('open', 'when the viewer was started, %s was still open', l['open'])
        if not named:
            fail('command', 'the viewer command %r names no file that exists', cmd[:200])
        named.sort(key=len)
        complete(l['disk'][named[-1]], cur['t'], 'when the viewer was started, the file')


# ------------------------------------------------------------------------------------ threads
@prop
class C05(Base):
    id = 'C05'
    threads = True

    @classmethod
    def gen(cls, rng):
        n = rng.choice([2, 2, 2, 3, 4]) * rng.choice([1, gen.SCALE])
        pre = []
        for i in range(n):
            pre.append({'o': 'straight', 'x': 'r%d' % i, 'id': i, 'a': {}})
            pre.append({'o': 'odr', 'x': 'D%d' % i, 'n': 'd'})
            pre.append({'o': 'add_road', 'x': 'D%d' % i, 'r': 'r%d' % i})
            pre.append({'o': 'adjust', 'x': 'D%d' % i})
        if rng.random() < .4:
            # the process has a history
            for q in range(rng.randint(1, 3)):
                pre += [cls.el(rng, 'h%d' % q, .6), {'o': 'add_obj', 'x': 'r0', 'b': 'h%d' % q}]
                if pre[-2]['o'] == 'sig':
                    pre[-1]['o'] = 'add_sig'
        if rng.random() < .25:
            # a document that is gone
            pre += [{'o': 'straight', 'x': 'rH', 'id': 900, 'a': {}}, {'o': 'odr', 'x': 'H', 'n': 'd'}, {'o': 'add_road', 'x': 'H', 'r': 'rH'}, {'o': 'adjust', 'x': 'H'}]
            xs = ['k%d' % q for q in range(rng.choice([1, 2, 5, 12]))]
            for x in xs:
                pre.append(cls.el(rng, x, .5))
                pre.append({'o': 'add_' + pre[-1]['o'], 'x': 'rH', 'b': x})
            pre += [{'o': 'emit', 'x': 'H'}, {'o': 'drop', 'x': '-', 'v': ['rH', 'H'] + xs}]
        pid = rng.choice([0, .3, .7, 1])
        if rng.random() < .06:
            # a whole range of numbers is taken
            o = rng.choice(['obj', 'sig'])
            lo = rng.choice([0, 0, 1, n])
            xs = ['g%d' % q for q in range(rng.choice([6, 12, 30, 120]))]
            for q, x in enumerate(xs):
                pre.append(cls.el(rng, x, 0, o))
                pre[-1]['a']['id'] = str(lo + q) if rng.random() < .9 else lo + q
            pre.append({'o': 'add_' + o, 'x': 'r0', 'b': xs})
        threads = []
        for i in range(n):
            ops = []
            todo = {'obj': [], 'sig': []}
            for q in range(gen.upto(rng, 1, 4)):
                x = 'e%d_%d' % (i, q)
                op = cls.el(rng, x, pid)
                ops.append(op)
                m = rng.random()
                if op['o'] == 'obj' and m < .2:
                    ops.append({'o': 'roadside', 'x': 'r%d' % i, 'b': x, 'd': 3, 'a': {}})
                    if rng.random() < .5:
                        continue
                todo[op['o']].append(x)
                for k, a in (('obj', 'add_obj'), ('sig', 'add_sig')):
                    if todo[k] and rng.random() < .6:
                        b = todo[k]
                        todo[k] = []
                        ops.append({'o': a, 'x': 'r%d' % i, 'b': b if len(b) > 1 or rng.random() < .3 else b[0]})
                        if not isinstance(ops[-1]['b'], list) and rng.random() < .15:
                            ops[-1]['f'] = [console_fault(rng, 3)]
            for k, a in (('obj', 'add_obj'), ('sig', 'add_sig')):
                if todo[k]:
                    ops.append({'o': a, 'x': 'r%d' % i, 'b': todo[k]})
            threads.append(ops)
        post = []
        if rng.random() < .3:
            post = [cls.el(rng, 'late', .3)]
            post.append({'o': 'add_' + post[0]['o'], 'x': 'r0', 'b': 'late'})
        post += [{'o': 'emit', 'x': 'D%d' % i} for i in range(n)]
        return {'env': rand_env(rng), 'pre': pre, 'threads': threads, 'post': post, 'sched': schedule(rng)}

    @classmethod
    def el(cls, rng, x, pid, o=None):
        o = o or rng.choice(['obj', 'obj', 'sig'])
        a = {}
        if rng.random() < pid:
            a['id'] = gen.some_id(rng)
        if o == 'obj':
            return {'o': 'obj', 'x': x, 's': 1, 't': 2, 'a': a}
        return {'o': 'sig', 'x': x, 's': 1, 't': 2, 'c': 'se', 'ty': '1', 'a': a}

    @classmethod
    def run(cls, scn):
        with Run(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn))

    @classmethod
    def judge(cls, R, scn):
        w = R.w
        rs = api.execute(w, R.lib, scn['pre'], R.env)
        for out in concurrently(R, scn, [(ops, R.env, None, None) for ops in scn['threads']]):
            rs += out
        post = api.execute(w, R.lib, scn['post'], R.env)
        rs += post
        kind = {}
        want = {'object': {}, 'signal': {}}
        have = {'object': [], 'signal': []}
        n = 0
        emits = [r for r in rs if r.op['o'] == 'emit' and r.st == 'ok']
        shown = {r.op['x'] for r in emits}
        shown = {r.op['r'] for r in rs if r.op['o'] == 'add_road' and r.st == 'ok' and r.op['x'] in shown}
        for r in rs:
            o = r.op
            if r.st in ('rej',):
                fail('raised', '%s raised %s: %s', o['o'], r.exc[0], r.val)
            if r.st != 'ok':
                continue
            if o['o'] in ('obj', 'sig'):
                kind[o['x']] = ('object' if o['o'] == 'obj' else 'signal', o['a'].get('id'))
            elif o['o'] in ('add_obj', 'add_sig') and o['x'] in shown:
                for b in o['b'] if isinstance(o['b'], list) else [o['b']]:
                    k, v = kind[b]
                    n += 1
                    if v is not None:
                        want[k][str(v)] = b
            elif o['o'] == 'roadside' and o['x'] in shown:
                n += 2
        for r in emits:
            for rd in K.kids(r.out[0], 'road'):
                for g in rd[2]:
                    for c in g[2]:
                        if c[0] in have:
                            have[c[0]].append(c[1].get('id'))
        for k in have:
            d = [v for v, q in collections.Counter(have[k]).items() if q > 1]
            if d:
                fail('duplicate id', '%d %ss with id %s', have[k].count(d[0]), k, d[0])
            if any(v in (None, 'None', '') for v in have[k]):
                fail('no id', 'an added %s has no id', k)
            # every road is shown, and no failed call has used up an id
            if len(shown) == len([r for r in rs if r.op['o'] == 'add_road' and r.st == 'ok']) and not w.fired:
                for v in want[k]:
                    if v not in have[k]:
                        fail('requested id', 'id %r was requested for a %s, none carries it', v, k)
        if sum(map(len, have.values())) != n:
            fail('elements', '%d elements in the documents, %d were added', sum(map(len, have.values())), n)
        return R.w.counts['context switches'] > 0


@prop
class C08(Base):
    id = 'C08'
    threads = True

    @classmethod
    def gen(cls, rng):
        ops = small_doc(rng, n=(1, 3), adjust=False)
        pf = rng.choice([0, .5, .8])
        q = [0]

        def reader():
            m = rng.random()
            q[0] += 1
            if m < .4:
                op = {'o': 'emit', 'x': 'D'}
            elif m < .75:
                op = {'o': 'write', 'x': 'D', 'file': 'f%d.xodr' % q[0], 'pretty': rng.random() < .5}
            else:
                op = {'o': 'print', 'x': 'D'}
            if rng.random() < pf:
                m = rng.random()
                if m < .6:
                    op['f'] = [{'k': 'line', 'n': int(10 ** rng.uniform(0, 3.3)), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}]
                elif op['o'] == 'write':
                    op['f'] = [write_fault(rng)]
                elif op['o'] == 'print':
                    op['f'] = [console_fault(rng, 2)]
                if op.get('f') and (op['o'] == 'print' or rng.random() < .5):
                    op['noretry'] = 1
            return op
        have = set()
        pre = []
        for op in ops:
            pre.append(op)
            if gen.defines(op):
                have.add(gen.defines(op))
            if 'D' in have and rng.random() < .03:
                pre.append(reader())
        pre.append({'o': 'adjust', 'x': 'D'})
        pre.append({'o': 'emit', 'x': 'D', 'base': 1})
        threads = []
        for i in range(rng.choice([1, 1, 2, 3])):
            t = []
            for _ in range(gen.upto(rng, 1, 3)):
                t.append(reader())
                if rng.random() < .5:
                    t.append({'o': 'jump', 's': rng.choice([-10 ** 8, -86400, -3600, -1, 1, 3600, 10 ** 8, 31536000])})
            threads.append(t)
        post = []
        if rng.random() < .6:
            xs = [op['x'] for op in ops if op['o'] in ('road', 'create_road', 'straight', 'cac')]
            for k in range(gen.upto(rng, 1, 3)):
                post += [gen.obj(rng, 'late%d' % k), {'o': rng.choice(['add_obj']), 'x': rng.choice(xs), 'b': 'late%d' % k}]
                if rng.random() < .4:
                    post.append({'o': 'roadside', 'x': rng.choice(xs), 'b': 'late%d' % k, 'd': 2, 'a': roadside_args(rng)})
            if rng.random() < .5:
                post.append({'o': 'adjust', 'x': 'D'})
        post.append({'o': 'emit', 'x': 'D', 'last': 1})
        return {'env': file_env(rng), 'pre': pre, 'threads': threads, 'post': post, 'sched': schedule(rng)}

    READ = ('emit', 'write', 'print', 'jump')

    @classmethod
    def run(cls, scn):
        ctl = {}
        with Run(scn) as B:
            # the same program without emissions in between
            prog = [op for op in scn['pre'] if op['o'] not in cls.READ] + [op for op in scn['post'] if op['o'] not in cls.READ or op.get('last')]
            for r in api.execute(B.w, B.lib, prog, B.env):
                if r.op.get('last') and r.st == 'ok':
                    ctl['t'] = K.undated(r.out[0])
        with Run(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn, ctl.get('t')))

    @classmethod
    def judge(cls, R, scn, ctl):
        w = R.w
        w.keep_console = True
        clk = {}
        seen = []

        def b(r, env):
            t = w.tid()
            clk[t] = (len(w.clock_log), len(w.console.buf))

        def a(r, env):
            # runs inside the thread: collect only
            if r.st == 'ok' and r.op['o'] in ('emit', 'write', 'print'):
                t = w.tid()
                i, c = clk[t]
                if r.op['o'] == 'emit':
                    v = r.out[0]
                elif r.op['o'] == 'write':
                    p = os.path.join(w.root, r.op['file'])
                    v = None
                    if os.path.exists(p):
                        with sim.real_open(p, 'rb') as f:
                            v = f.read()
                else:
                    v = ''.join(s for q, s in w.console.buf[c:] if q == t).encode('utf-8', 'surrogatepass')
                seen.append((r, t, i, len(w.clock_log), v))
        rs = api.execute(w, R.lib, scn['pre'], R.env, before=b, after=a)
        npre = len(seen)
        if not any(r.op.get('base') and r.st == 'ok' for r in rs):
            return False
        base = K.undated([r for r in rs if r.op.get('base')][0].out[0])
        for out in concurrently(R, scn, [(ops, R.env, b, a) for ops in scn['threads']], opcodes=False):
            rs += out
        nthr = len(seen)
        rs += api.execute(w, R.lib, scn['post'], R.env, before=b, after=a)
        for r in rs:
            if r.st == 'rej' and r.op['o'] in ('write', 'emit', 'print'):
                fail('raised', '%s raised %s: %s', r.op['o'], r.exc[0], r.val)
            if r.op['o'] == 'print' and r.out == [False]:
                fail('printing', 'printing an element changed it')
        n = 0
        for k, (r, t, i, j, v) in enumerate(seen):
            what = {'emit': 'the element', 'write': 'the file', 'print': 'the printed document'}[r.op['o']]
            if r.op['o'] != 'emit':
                if v is None:
                    fail('missing', 'no file was written')
                v = tree_of(v, what)
            n += 1
            if not date_ok(w, K.date_of(v), i, j, t):
                fail('date', '%s is dated %r, the clock showed %s', what, K.date_of(v), [str(x) for x in w.clock_log[i:j]][:3])
            if npre - 1 <= k < nthr:
                u = K.undated(v)
                if u != base:
                    d = M.differ(base, u)
                    fail('changed', 'emission %d (%s) differs from the first: %s', k, r.op['o'], '; '.join('%s %s' % x for x in d[:3]))
            if r.op.get('last') and ctl is not None:
                u = K.undated(v)
                if u != ctl:
                    d = M.differ(ctl, u)
                    fail('changed', 'having been emitted before, the document differs: %s', '; '.join('%s %s' % x for x in d[:3]))
        return n > 1


def rename(ops, pfx, keep=()):
    """the same program over other names"""
    def nm(v):
        return v if v in keep else pfx + v
    out = []
    for op in ops:
        q = dict(op)
        if 'x' in q:
            q['x'] = nm(q['x'])
        for k in api.REFS[op['o']]:
            if k != 'x':
                q[k] = nm(q[k])
        for o, ks in (('addsec', ('k',)), ('add_obj', ('b',)), ('add_sig', ('b',)), ('mkjunction', ('cr', 'rs')), ('create_road', ('g',)), ('mklist', ('v',))):
            if op['o'] == o:
                for k in ks:
                    if q.get(k) is not None:
                        q[k] = [nm(v) for v in q[k]] if isinstance(q[k], list) else nm(q[k])
        out.append(q)
    return out


@prop
class C09(Base):
    id = 'C09'
    threads = True

    @classmethod
    def gen(cls, rng):
        pre = []
        gs, ms = [], []
        for q in range(rng.choice([0, 1, 2, 2])):
            p = gen.piece(rng, 'llaassp')
            p['x'] = 'G%d' % q
            pre.append(p)
            gs.append(p['x'])
        for q in range(rng.choice([0, 1, 2])):
            pre.append(gen.mark(rng, 'M%d' % q))
            ms.append('M%d' % q)
        threads = []
        writers = rng.random() < .25
        for i in range(rng.choice([2, 2, 2, 3])):
            if writers:             # small documents, written again and again at the same time
                folder = rng.choice(['', '', 'out%d/' % i])
                ops = [{'o': 'odr', 'x': 'D', 'n': 'doc%d' % i}]
                if rng.random() < .6:
                    ops += [{'o': 'straight', 'x': 'r0', 'id': i, 'a': {}}, {'o': 'add_road', 'x': 'D', 'r': 'r0'}, {'o': 'adjust', 'x': 'D'}]
                for q in range(gen.upto(rng, 2, 5)):
                    ops.append({'o': 'write', 'x': 'D', 'file': folder + 'doc%d%s.xodr' % (i, rng.choice(['', '', 'b'])), 'pretty': rng.random() < .5})
                threads.append(rename(ops, 't%d.' % i, set(gs) | set(ms)))
                continue
            net = gen.network(rng, n=(1, rng.choice([2, 3])), fixed=.3, sections=(1, 2), lanes=(0, 2))
            clients = gen.build(rng, net, kinds='llaassp', npieces=(1, 2), objects=.4, signals=.3, ids=rng.random() < .5, names=rng.random() < .3,
                                shared=gs, smarks=ms, linkers=.3, late_links=rng.choice([0, .4]))
            ops = gen.merge(rng, clients, gs + ms)
            have = {gen.defines(op) for op in ops} | set(gs) | set(ms)
            post = [[{'o': 'mkjunction', 'x': 'J%d' % q, 'cr': ['r%d' % v for v in j['cr']], 'id': j['id'], 'rs': sorted({'r%d' % v for v, _ in j['met']})},
                     {'o': 'add_junction', 'x': 'D', 'j': 'J%d' % q}] for q, j in enumerate(net.junctions)]
            ops += gen.merge(rng, post, have)
            d = {'o': 'adjust', 'x': 'D'}
            d.update(adjust_faults(rng, rng.choice([0, .3]), len(net.roads)))
            ops.append(d)
            if rng.random() < .4:
                ops += [gen.obj(rng, 'bb'), {'o': 'roadside', 'x': 'r0', 'b': 'bb', 'd': 2, 'a': roadside_args(rng)}]
            ops.append({'o': 'emit', 'x': 'D'})
            if rng.random() < .6:
                ops.append({'o': 'write', 'x': 'D', 'file': 'doc%d.xodr' % i, 'pretty': rng.random() < .5})
            threads.append(rename(ops, 't%d.' % i, set(gs) | set(ms)))
        sc = schedule(rng)
        return {'env': rand_env(rng), 'pre': pre, 'threads': threads, 'sched': sc, 'opc': rng.random() < .4}

    @staticmethod
    def disk(w):
        def after(r, env):
            if r.op['o'] == 'write' and r.st == 'ok':
                try:
                    with sim.real_open(os.path.join(w.root, r.op['file']), 'rb') as f:
                        r.disk = f.read()
                except OSError:
                    r.disk = b''
        return after

    @classmethod
    def outcome(cls, w, rs):
        o = []
        for r in rs or []:
            v = None
            if r.op['o'] == 'emit' and r.st == 'ok':
                v = K.unnumbered(r.out[0])
            elif r.op['o'] == 'write' and r.st == 'ok':
                v = K.unnumbered(tree_of(r.disk, 'the file'))
            o.append((r.i, r.op['o'], r.st, r.exc[0] if r.exc and r.st == 'rej' else None, v))
        return o

    @classmethod
    def run(cls, scn):
        alone = []
        for ops in scn['threads']:
            with Run(scn) as B:
                try:
                    api.execute(B.w, B.lib, scn['pre'], B.env)
                    alone.append(cls.outcome(B.w, api.execute(B.w, B.lib, ops, B.env, after=cls.disk(B.w))))
                except Violation as e:
                    return summary(B.w, [e.kind, 'alone: ' + e.msg])
        with Run(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn, alone))

    @classmethod
    def judge(cls, R, scn, alone):
        w = R.w
        api.execute(w, R.lib, scn['pre'], R.env)
        outs = concurrently(R, scn, [(ops, dict(R.env), None, cls.disk(w)) for ops in scn['threads']], opcodes=scn['opc'])
        for i, rs in enumerate(outs):
            got = cls.outcome(w, rs)
            for x, y in zip(alone[i], got):
                if x[:4] != y[:4]:
                    fail('status', 'thread %d, operation %d (%s): %s %s, alone %s %s', i, x[0], x[1], y[2], y[3] or '', x[2], x[3] or '')
                if x[4] != y[4]:
                    d = M.differ(x[4], y[4])
                    fail('document', 'thread %d, operation %d (%s): %s', i, x[0], x[1], '; '.join('%s %s' % t for t in d[:3]))
        return w.counts['context switches'] > 0


# ------------------------------------------------------------------------------------ C13
@prop
class C13(Base):
    id = 'C13'

    @classmethod
    def gen(cls, rng):
        net = gen.network(rng, n=(1, 4), fixed=.3, sections=(1, 2), lanes=(0, 2), extra=.2)
        clients = gen.build(rng, net, kinds='llaassp', names=rng.random() < .3, objects=.3, signals=.2, neighbours=.7, late_links=rng.choice([0, .3]))
        ops = gen.merge(rng, clients)
        have = {gen.defines(op) for op in ops}
        if rng.random() < .25:
            ops += cls.crossing(rng)
        post = [[{'o': 'mkjunction', 'x': 'J%d' % q, 'cr': ['r%d' % v for v in j['cr']], 'id': j['id'], 'rs': sorted({'r%d' % v for v, _ in j['met']})},
                 {'o': 'add_junction', 'x': 'D', 'j': 'J%d' % q}] for q, j in enumerate(net.junctions)]
        ops += gen.merge(rng, post, have)
        out = []
        seen = {}
        roads = []
        pr = rng.choice([.1, .3])
        n = 0
        last = [i for i, op in enumerate(ops) if op['o'] in ('succ', 'pred', 'neigh')]
        ids = [r['id'] for r in net.roads] + [j['id'] for j in net.junctions] + [77]
        for i, op in enumerate(ops):
            out.append(op)
            o = op['o']
            if o in ('succ', 'pred'):
                seen.setdefault(op['x'], []).append(o)
            if o == 'neigh':
                seen.setdefault(op['x'], []).append(o)
            if o in ('road', 'straight', 'cac', 'create_road'):
                roads.append(op['x'])
            for _ in range(2):
                if rng.random() > pr:
                    continue
                n += 1
                m = rng.randrange(9)
                if m <= 2 and seen:
                    x = rng.choice(sorted(seen))
                    k = rng.choice(seen[x])
                    if k == 'neigh':
                        if seen[x].count('neigh') >= 2:
                            out.append({'o': 'neigh', 'x': x, 't': 'road', 'id': rng.choice(ids), 'd': rng.choice(['same', 'opposite']), 'rej': 1})
                    else:
                        d = {'o': k, 'x': x, 't': rng.choice(['road', 'road', 'junction']), 'id': rng.choice(ids), 'rej': 1}
                        if d['t'] == 'road':
                            d['c'] = rng.choice(['start', 'end'])
                            if rng.random() < .4:
                                d['off'] = rng.choice([-2, -1, 1, 2])
                        out.append(d)
                elif m == 3 and roads:
                    out.append({'o': 'neigh', 'x': rng.choice(roads), 't': 'road', 'id': rng.choice(ids), 'd': None, 'rej': 1})
                elif m == 4 and roads:
                    b = 'bad%d' % n
                    out += [gen.obj(rng, b), {'o': 'roadside', 'x': rng.choice(roads), 'b': b, 'd': 3, 'a': roadside_args(rng), 'rej': 1}]
                    if rng.random() < .5:
                        out.append({'o': 'add_obj', 'x': rng.choice(roads), 'b': b})
                elif m == 5:
                    a = rng.choice([[1, None, None], [None, 2, None], [None, None, 1], [1, 2, None], [None, 2, 1], [1, None, 1], [0, None, None], [0, 0, None], [None, 0, 0], [0.0, 0.0, None], [None, None, 0]])
                    out.append({'o': 'pv', 'x': 'bad%d' % n, 'a': a, 'rej': 1})
                elif m == 6:
                    c = gen.curvature(rng)
                    out.append(rng.choice([{'o': 'arc', 'c': c, 'a': {}}, {'o': 'arc', 'c': c, 'a': {'length': 3, 'angle': 1}},
                                           {'o': 'arc', 'c': c, 'a': {'length': 3, 'angle': 0}}, {'o': 'arc', 'c': c, 'a': {'length': 0, 'angle': 1}},
                                           {'o': 'arc', 'c': 0, 'a': {'length': 10}}, {'o': 'arc', 'c': 0, 'a': {'angle': 1}}]))
                    out[-1].update(x='bad%d' % n, rej=1)
                elif m == 7:
                    c = gen.curvature(rng)
                    a = rng.choice([{}, {'length': 5, 'angle': 1}, {'length': 5, 'cdot': .1}, {'angle': 1, 'cdot': .1}, {'length': 5, 'angle': 1, 'cdot': .1},
                                    {'length': 5, 'angle': 0}, {'length': 5, 'cdot': 0}, {'angle': 1, 'cdot': 0.0}, {'length': 0, 'angle': 1}])
                    out.append({'o': 'spiral', 'c0': 0, 'c1': c, 'a': a, 'x': 'bad%d' % n, 'rej': 1})
                elif m == 8:
                    q = rng.random()
                    if q < .6:
                        out += [gen.lane(rng, 'orph%d' % n), {'o': 'emit_lane', 'x': 'orph%d' % n, 'rej': 1}]
                    else:
                        out.append({'o': 'poly', 'x': 'bad%d' % n, 'k': [0, 1, 0, 0, 0, 0, 0, .001], 'a': {'prange': 'arcLength'}, 'rej': 1})
        ops = out
        pf = rng.choice([0, .4])
        if rng.random() < .4:
            ops = with_early_adjusts(rng, net, ops, pf)
            for op in ops:
                # a call cut short and not repeated leaves open whether a road counts as adjusted
                if op['o'] == 'adjust':
                    op.pop('noretry', None)
        # an operation marked rejected that a smaller program accepts is an ordinary one
        d = {'o': 'adjust', 'x': 'D'}
        d.update(adjust_faults(rng, pf, len(net.roads)))
        ops.append(d)
        for x in roads:
            if rng.random() < .3 and seen.get(x):
                k = rng.choice(seen[x])
                if k in ('succ', 'pred'):
                    ops.append({'o': k, 'x': x, 't': 'road', 'id': rng.choice(ids), 'c': rng.choice(['start', 'end']), 'rej': 1})
        ops.append({'o': 'emit', 'x': 'D'})
        if rng.random() < .4:
            ops += [gen.obj(rng, 'bb'), {'o': 'roadside', 'x': 'r0', 'b': 'bb', 'd': 2, 'a': roadside_args(rng)}, {'o': 'adjust', 'x': 'D'}, {'o': 'emit', 'x': 'D'}]
        return {'env': rand_env(rng), 'ops': ops}

    @classmethod
    def crossing(cls, rng):
        """a generated crossing in a document of its own; roads that do not fit, or have a link already, are tried before and after"""
        ops, _ = gen.crossing(rng, 7, odr='E')
        q = [op['o'] for op in ops].index('jroads')
        jr = ops[q]
        m = M.Model()
        for op in ops[:q]:
            m.do(op)
        n = len(m.o[jr['rs'][0]]['lanes']['secs'][-1]['left'])
        before = []
        after = []
        for v in range(rng.randint(1, 3)):
            k = rng.randrange(len(jr['rs']))
            d = dict(jr, rs=list(jr['rs']), out=['x7z%d_%d' % (v, w) for w in range(len(jr['out']))], rej=1)
            x = 'x7o%d' % v
            kind = rng.choice(['lanes', 'lanes', 'link', 'again', 'new'])
            if kind == 'again':
                after.append(d)
                continue
            if kind == 'lanes':
                dl, dr = rng.choice([(1, 1), (1, 0), (0, 1), (0, -1), (-1, 0), (1, -1), (0, 2)])
                before += [{'o': 'line', 'x': x + 'g', 'l': 10}, {'o': 'create_road', 'x': x, 'id': 90 + v, 'g': x + 'g', 'a': {'left_lanes': n + dl, 'right_lanes': n + dr}}]
            else:
                (after if kind == 'new' else before).append({'o': 'straight', 'x': x, 'id': 90 + v, 'a': {'length': 10, 'n_lanes': n}})
            d['rs'][k] = x
            if kind == 'link':
                before.append({'o': 'pred' if k else 'succ', 'x': x, 't': 'road', 'id': 95, 'c': 'end'})
            (after if kind == 'new' else before).append(d)
            if kind != 'link' and rng.random() < .5:
                (after if kind == 'new' else before).append({'o': 'pred' if k else 'succ', 'x': x, 't': 'road', 'id': 95, 'c': 'end'})
        ops[q:q + 1] = before + [jr] + after
        return ops + [{'o': 'adjust', 'x': 'E'}, {'o': 'emit', 'x': 'E'}]

    @classmethod
    def run(cls, scn):
        # which calls are to be rejected, by the model
        m = M.Model()
        pred = [m.do(op) if not (op.get('noretry') and op.get('f')) else 'faulted' for op in scn['ops']]
        clean = []
        for op, p in zip(scn['ops'], pred):
            if isinstance(p, tuple) and op['o'] not in ('adjust', 'startpoints'):
                continue
            clean.append(op)
        ref = []
        with Run(scn) as B:
            for r in api.execute(B.w, B.lib, clean, B.env):
                if r.st != 'skip':
                    ref.append((r.op, r.st, r.exc[0] if r.exc else None, [K.undated(t) for t in r.out] if r.op['o'] == 'emit' else None))
        with RunR(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn, ref, [op for op, p in zip(scn['ops'], pred) if isinstance(p, tuple) and op['o'] not in ('adjust', 'startpoints')]))

    @classmethod
    def judge(cls, R, scn, ref, rejected):
        ref = list(ref)
        st = {'n': 0}
        rej = set(map(id, rejected))

        def after(r, pred):
            if id(r.op) in rej:
                st['n'] += 1
                R.w.counts['rejected calls'] += 1
                if r.st == 'ok':
                    fail('accepted', 'operation %d (%s) returned instead of being rejected', r.i, r.op['o'])
                return
            op, s, e, out = ref.pop(0)
            if r.st == 'rej' and s != 'rej':
                fail('later call', 'operation %d (%s) raised %s: %s; without the rejected calls it is accepted', r.i, r.op['o'], r.exc[0], r.val)
            if s == 'rej' and r.st == 'ok':
                fail('later call', 'operation %d (%s) is accepted; without the rejected calls it raises %s', r.i, r.op['o'], e)
            if r.op['o'] == 'emit' and r.st == 'ok' and s == 'ok':
                t = K.undated(r.out[0])
                if t != out[0]:
                    d = M.differ(out[0], t)
                    fail('document', 'after %d rejected calls the document differs: %s', st['n'], '; '.join('%s %s' % x for x in d[:3]))
        R.go(scn['ops'], after=after)
        return st['n'] > 0


# ------------------------------------------------------------------------------------ C16
@prop
class C16(Base):
    id = 'C16'
    threads = True

    @classmethod
    def gen(cls, rng):
        pre = []
        n = rng.randint(1, 3)
        for q in range(n):
            if q and rng.random() < .2:         # nearly the piece before
                p = gen.sibling(rng, pre[-1])
            else:
                p = gen.piece(rng, 'laaasspp')
            p['x'] = 'g%d' % q
            pre.append(p)
        threads = []
        # few values, so that queries agree in some coordinates and differ in others
        xs, ys, hs = ([f(rng) for _ in range(rng.choice([1, 2, 3]))] for f in (lambda r: gen.num(r, -200, 200), lambda r: gen.num(r, -200, 200), lambda r: gen.pose(r)[2]))
        if rng.random() < .3:
            hs.append(0)
            xs.append(0)
        if rng.random() < .3:           # the same direction, whole turns apart
            hs.append(hs[0] + rng.choice([-2, 2, 2, 4]) * math.pi)

        def pose(rng):
            return [rng.choice(xs), rng.choice(ys), rng.choice(hs)]
        for i in range(rng.choice([1, 2, 2, 3])):
            t = []
            npv = 0
            for _ in range(gen.upto(rng, 1, 6)):
                g = 'g%d' % rng.randrange(n)
                m = rng.random()
                if m < .35:
                    t.append({'o': 'q_end', 'x': g, 'p': pose(rng)})
                elif m < .65:
                    t.append({'o': 'q_start', 'x': g, 'p': pose(rng)})
                elif m < .75:
                    t.append({'o': 'q_el', 'x': g})
                else:
                    x = 'p%d_%d' % (i, npv)
                    npv += 1
                    st = rng.choice([[], pose(rng)])
                    t.append({'o': 'pv', 'x': x, 'a': st})
                    for _ in range(rng.randint(1, 3)):
                        t.append({'o': 'geom', 'x': x, 'g': 'g%d' % rng.randrange(n)})
                    if not st and rng.random() < .5:
                        t.append({'o': 'set_start', 'x': x, 'a': pose(rng)})
                    for _ in range(rng.choice([1, 1, 2])):
                        t.append({'o': 'adjust_pv', 'x': x, 'a': [True] if rng.random() < .4 else []})
                    t.append({'o': 'q_pv', 'x': x})
            for op in t:
                if op['o'] in ('q_end', 'q_start', 'adjust_pv') and rng.random() < .12:
                    op['f'] = [kernel_fault(rng, 3)] if rng.random() < .6 else [console_fault(rng, 6)]
                    if rng.random() < .4:
                        op['noretry'] = 1
            threads.append(t)
        post = []
        for q in range(n):
            for o in ('q_end', 'q_start'):
                if rng.random() < .6:
                    post.append({'o': o, 'x': 'g%d' % q, 'p': pose(rng)})
        rng.shuffle(post)
        return {'env': rand_env(rng), 'pre': pre, 'threads': threads, 'post': post, 'sched': schedule(rng)}

    @classmethod
    def run(cls, scn):
        # every query as the only one its piece ever got, last ones first
        ask = [op for t in scn['threads'] for op in t] + scn['post']
        define = {op['x']: op for op in scn['pre']}
        fresh = {}
        with Run(scn) as B:
            for op in reversed(ask):
                if op['o'] in ('q_end', 'q_start', 'q_el') and op['x'] in define:
                    r = api.execute(B.w, B.lib, [define[op['x']], {k: v for k, v in op.items() if k not in ('f', 'noretry')}], {})[1]
                    fresh[json.dumps([op['o'], op['x'], op.get('p')])] = (r.st, r.out)
        with Run(scn) as R:
            return guarded(R, lambda R: cls.judge(R, scn, fresh))

    @classmethod
    def judge(cls, R, scn, fresh):
        w = R.w
        rs = api.execute(w, R.lib, scn['pre'], R.env)
        m = M.Model()
        for op in scn['pre']:
            m.do(op)
        for out in concurrently(R, scn, [(t, R.env, None, None) for t in scn['threads']]):
            rs += out
        rs += api.execute(w, R.lib, scn['post'], R.env)
        n = 0
        lens = {}
        fromend = {}
        for r in rs:
            o = r.op['o']
            if r.st == 'rej':
                fail('raised', '%s raised %s: %s', o, r.exc[0], r.val)
            if r.st != 'ok':
                if o == 'adjust_pv':
                    fromend.pop(r.op['x'], None)
                continue
            if o in ('q_end', 'q_start', 'q_el'):
                n += 1
                st, out = fresh[json.dumps([o, r.op['x'], r.op.get('p')])]
                a, b = out[0], r.out[0]
                if o == 'q_el':
                    if a != b:
                        fail('element', '%s: %s instead of %s', r.op['x'], b, a)
                    continue
                if any(abs(x - y) > 1e-9 * max(1, abs(x)) for x, y in zip(a, b)) or len(a) != len(b):
                    fail('answer', '%s of %s at %s is %s, a fresh piece answers %s', o, r.op['x'], r.op['p'], b, a)
                p = m.o[r.op['x']]
                loc = refgeo.local_end(p, b[3])
                want = refgeo.given_length(p)
                if want is not None and abs(b[3] - want) > 1e-9 * max(1, abs(want)):
                    fail('length', '%s says it is %r long instead of %r', r.op['x'], b[3], want)
                if o == 'q_end':
                    e = refgeo.move(r.op['p'], loc)
                    if not K.near(b, e):
                        fail('end', '%s from %s ends at %s instead of %s', r.op['x'], r.op['p'], K.fmt(b[:3]), K.fmt(e))
                else:
                    # asked with the reversed end pose, answers the reversed start pose
                    back = refgeo.move((b[0], b[1], b[2] + refgeo.math.pi), loc)
                    if not K.near((back[0], back[1], back[2] + refgeo.math.pi), r.op['p']):
                        fail('start', '%s: from the start %s it leads to %s, asked for %s', r.op['x'], K.fmt(b[:3]), K.fmt(back), r.op['p'])
            elif o in ('pv', 'geom', 'set_start'):
                m.do(r.op)
            elif o == 'adjust_pv':
                fromend[r.op['x']] = bool(r.op.get('a'))
            elif o == 'q_pv' and r.op['x'] in fromend and m.o[r.op['x']]['g']:
                n += 1
                pv = m.o[r.op['x']]
                st, en, total = r.out[0]
                pose = tuple(float(v) for v in st)
                ln = 0
                for g in pv['g']:
                    l = refgeo.given_length(g)
                    if l is None:
                        gx = [x for x, v in m.o.items() if v is g][0]
                        l = cls.len_of(R, gx)
                    pose = refgeo.move(pose, refgeo.local_end(g, l))
                    ln += l
                if not K.near(pose, tuple(float(v) for v in en)):
                    fail('plan view', '%s says it runs from %s to %s, its pieces lead to %s', r.op['x'], st, en, K.fmt(pose))
                anchor = tuple(float(v) for v in (en if fromend[r.op['x']] else st))
                if not K.near(anchor, tuple(pv['start'])) and not (fromend[r.op['x']] and K.near((anchor[0], anchor[1], anchor[2] + refgeo.math.pi), tuple(pv['start']))):
                    fail('plan view', '%s was to start (end) at %s, it does at %s', r.op['x'], pv['start'], K.fmt(anchor))
                if abs(total - ln) > 1e-6 * max(1, ln):
                    fail('plan view', '%s is %r long, its pieces %r', r.op['x'], total, ln)
        return n > 1

    @classmethod
    def len_of(cls, R, x):
        r = api.execute(R.w, R.lib, [{'o': 'q_end', 'x': x, 'p': [0, 0, 0]}], R.env)[0]
        return r.out[0][3]


# ------------------------------------------------------------------------------------ C15
CPY = [p for p in ('/opt/veriftools/pyvenv/bin/python3', '/opt/veriftools/pyvenv/bin/python') if os.path.exists(p)]


def locales():
    """a folder with a compiled locale that has a decimal comma (if the tools for that are there)"""
    d = os.path.join(sim.scratch(), 'locales')
    if not os.path.isdir(d):
        os.makedirs(d)
        try:
            p = sim.real_popen(['localedef', '-i', 'de_DE', '-f', 'UTF-8', '--no-archive', os.path.join(d, 'de_DE.UTF-8')], stdin=-3, stdout=-3, stderr=-3)
            p.wait()
        except OSError:
            pass
    return d


@prop
class C15(Base):
    id = 'C15'
    thorough = 1200
    nodes = True

    @classmethod
    def gen(cls, rng):
        progs = []
        for _ in range(6):
            if rng.random() < .3:
                s = crossing_program(rng, 0, kinds='llaassp', rich=True)
                ops = s['ops']
            else:
                net = gen.network(rng, n=(1, 4), fixed=.3, sections=(1, 2), lanes=(0, 2), extra=.3)
                clients = gen.build(rng, net, kinds='llaassp', rich=True, names=True, linkers=.3, objects=.5, signals=.5, ids=rng.random() < .5, neighbours=.3)
                ops = gen.merge(rng, clients)
                have = {gen.defines(op) for op in ops}
                ops += gen.merge(rng, [[{'o': 'mkjunction', 'x': 'J%d' % q, 'cr': ['r%d' % v for v in j['cr']], 'id': j['id'], 'rs': sorted({'r%d' % v for v, _ in j['met']})},
                                        {'o': 'add_junction', 'x': 'D', 'j': 'J%d' % q}] for q, j in enumerate(net.junctions)], have)
                ops.append({'o': 'adjust', 'x': 'D'})
                if rng.random() < .5:
                    ops += [gen.obj(rng, 'bb'), {'o': 'roadside', 'x': 'r0', 'b': 'bb', 'd': 2, 'a': roadside_args(rng)}]
            ops = [op for op in ops if op['o'] != 'emit']
            ops += [{'o': 'write', 'x': 'D', 'file': 'p.xodr', 'pretty': True}, {'o': 'write', 'x': 'D', 'file': 'c.xodr', 'pretty': False}, {'o': 'emit', 'x': 'D'}]
            e = rand_env(rng)
            progs.append({'env': e, 'ops': ops})
        vs = []
        for impl in (['pypy'] * 3 + ['cpython'] * 2 if CPY else ['pypy'] * 3):
            os_env = {'PYTHONHASHSEED': str(rng.choice([0, 1, 7, rng.randint(2, 10 ** 6)])), 'LC_ALL': rng.choice(['C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8', 'de_DE.UTF-8']),
                      'TZ': rng.choice(['UTC', 'Asia/Kathmandu', 'Asia/Tokyo', 'XYZ+5']), 'HOME': rng.choice(['/root', '/nonexistent', '/tmp']),
                      'PYTHONIOENCODING': rng.choice(['utf-8', 'ascii:replace', 'latin-1:replace']), 'LANG': rng.choice(['', 'de_DE.UTF-8', 'C']),
                      'USER': rng.choice(['a', 'b']), 'LOGNAME': rng.choice(['a', 'b']), 'USERNAME': rng.choice(['c', 'd']), 'HOSTNAME': rng.choice(['h', 'i']),
                      'SOURCE_DATE_EPOCH': rng.choice(['0', '1700000000']), 'PWD': rng.choice(['/x', '/y']), 'TERM': rng.choice(['dumb', 'xterm']), 'COLUMNS': rng.choice(['80', '20']),
                      'PYTHONUTF8': rng.choice(['0', '1']), 'PYTHONOPTIMIZE': rng.choice(['', '', '1'])}
            vs.append({'impl': impl, 'os': os_env, 'env': {'encoding': rng.choice(ENCODINGS), 'console_encoding': rng.choice(['ascii', 'utf-8', 'cp1252', 'utf-16', 'cp437']), 'tty': rng.random() < .5,
                                                           'buffer': rng.choice([64, 8192]), 'rs': rng.randint(0, 10 ** 6)},
                       'rs': rng.randint(0, 10 ** 6), 'dir': rng.choice(['run', 'a/deeper', 'with space']), 'setlocale': rng.random() < .7})
        return {'env': {}, 'programs': progs, 'variants': vs}

    @classmethod
    def ops_lists(cls, scn):
        return []

    @classmethod
    def child(cls, scn, v, show=None):
        exe = [CPY[0]] if v['impl'] == 'cpython' else [sim.sys.executable, '--jit', 'off']
        env = {k: os.environ[k] for k in ('PATH', 'PYODRX_REPO', 'TMPDIR') if k in os.environ}
        env.update(v['os'], OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        job = {'programs': scn['programs'], 'env': v['env'], 'rs': v['rs'], 'dir': v['dir'], 'show': show, 'setlocale': v.get('setlocale')}
        env['LOCPATH'] = locales()
        if v['impl'] == 'pypy' and not sim.sys.executable.endswith(('pypy', 'pypy3')) and sim.sys.implementation.name != 'pypy':
            exe = [sim.sys.executable]
        p = sim.real_popen(exe + [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'child.py')], stdin=-1, stdout=-1, stderr=-1, env=env)
        out, err = p.communicate(json.dumps(job).encode())
        try:
            return json.loads(out), ''
        except ValueError:
            return None, err.decode('utf-8', 'replace')[-300:]

    @classmethod
    def run(cls, scn):
        locales()
        with sim.session(scn['env']) as w:
            v = None
            nt = False
            try:
                nt = cls.judge(w, scn)
            except Violation as e:
                v = [e.kind, e.msg[:600]]
                nt = True
            return summary(w, v, nt)

    @classmethod
    def judge(cls, w, scn):
        n = 0
        for impl in ('pypy', 'cpython'):
            vs = [v for v in scn['variants'] if v['impl'] == impl]
            if len(vs) < 2:
                continue
            rs = [cls.child(scn, v) for v in vs]
            w.counts['interpreters started (%s)' % impl] += len(vs)
            if all(r is None for r, _ in rs):
                # this interpreter cannot run the library at all
                w.counts['interpreter unavailable (%s)' % impl] += 1
                if impl == 'pypy':
                    raise RuntimeError('no child interpreter answered: ' + rs[0][1])
                continue
            for (r, err), v in zip(rs, vs):
                if r is None:
                    fail('environment', 'in one environment the program cannot run: %s', err)
            for (r, _), v in zip(rs[1:], vs[1:]):
                for k, (a, b) in enumerate(zip(rs[0][0], r)):
                    for i, (x, y) in enumerate(zip(a, b)):
                        o = scn['programs'][k]['ops'][i]['o']
                        if o == 'write':
                            n += 1
                        if x != y:
                            if x[0] == y[0] == 'ok' and o == 'write':
                                s = [(cls.child(scn, q, [k, i])[0] or [[]] * (k + 1))[k][i][2][2:] for q in (vs[0], v)]
                                ctx = ''
                                if s[0] and s[1]:
                                    p = next((q for q, (c, d) in enumerate(zip(s[0][0], s[1][0])) if c != d), min(map(len, (s[0][0], s[1][0]))))
                                    ctx = ' at byte %d: %r versus %r' % (p, s[0][0][max(0, p - 30):p + 30], s[1][0][max(0, p - 30):p + 30])
                                fail('bytes', 'program %d writes different files in two environments (%s)%s', k, impl, ctx)
                            fail('environment', 'program %d, operation %d (%s): %s in one environment, %s in another', k, i, o, x, y)
            w.log('same', impl, n, hashlib.sha256(json.dumps(rs[0][0]).encode()).hexdigest())
        return n > 0
