"""Programs of library calls, and their execution against the real library inside a World.

A program is a list of JSON operations {'o': <name>, 'x': <result or target name>, ...}.  Names refer
to objects made by earlier operations; an operation whose names are missing is skipped (so that any
sub-list of a program is a program, which is what minimisation needs).  'f' lists the faults to
inject into that call.  When an injected fault makes the call fail, the client calls again, without
the fault, unless 'noretry' is set.
"""
import gc
import os
import sys
import xml.etree.ElementTree as ET

import sim

# names an operation needs, by operation
REFS = {
    'pv': (), 'geom': ('x', 'g'), 'lane': (), 'mark': (), 'lane_mark': ('x', 'm'), 'section': ('c',),
    'left': ('x', 'l'), 'right': ('x', 'l'), 'lanes': (), 'linker': (), 'link': ('x', 'a', 'b'),
    'addsec': ('x', 's'), 'road': ('p', 'l'), 'succ': ('x',), 'pred': ('x',), 'neigh': ('x',),
    'odr': (), 'add_road': ('x', 'r'), 'adjust': ('x',), 'startpoints': ('x',), 'junction': (), 'conn': (), 'lanelink': ('x',),
    'addconn': ('x', 'c'), 'add_junction': ('x', 'j'), 'mkjunction': (), 'obj': (), 'sig': (),
    'repeat': ('x',), 'add_obj': ('x',), 'add_sig': ('x',), 'roadside': ('x', 'b'), 'create_road': (),
    'straight': (), 'cac': (), 'emit': ('x',), 'write': ('x',), 'print': ('x',), 'view': ('x',),
    'emit_lane': ('x',), 'line': (), 'arc': (), 'spiral': (), 'poly': (), 'q_end': ('x',), 'q_start': ('x',),
    'q_el': ('x',), 'q_pv': ('x',), 'set_name': ('x',), 'jump': (), 'adjust_pv': ('x',), 'set_start': ('x',),
    'lane_link': ('x',), 'q_road': ('x',), 'jroads': (), 'mklist': (), 'push': ('x', 'v'), 'clear': ('x',), 'drop': (),
}


def refs(op):
    r = [op[k] for k in REFS[op['o']]]
    o = op['o']
    if o == 'addsec' and op.get('k'):
        r += op['k'] if isinstance(op['k'], list) else [op['k']]
    elif o in ('add_obj', 'add_sig'):
        r += op['b'] if isinstance(op['b'], list) else [op['b']]
    elif o == 'mklist':
        r += op['v']
    elif o == 'mkjunction':
        r += op['cr'] + op['rs']
    elif o == 'jroads':
        r += op['rs']
    elif o == 'create_road':
        r += op['g'] if isinstance(op['g'], list) else [op['g']]
    return r


def node(el):
    return [el.tag, dict(el.attrib), [node(c) for c in el]]


def parse(b):
    return node(ET.fromstring(b))


class _Os:
    """the os module as pyodrx sees it on another platform (the standard library keeps the real one)"""
    def __init__(self, name):
        self.__dict__['name'] = name

    def __getattr__(self, k):
        return getattr(os, k)


class platform:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.undo = []
        if self.name == os.name:
            return
        px = _Os(self.name)
        for n, m in list(sys.modules.items()):
            if n == 'pyodrx' or n.startswith('pyodrx.'):
                for k, v in list(vars(m).items()):
                    if v is os:
                        setattr(m, k, px)
                        self.undo.append((m, k))
        sys.modules['os'] = px

    def __exit__(self, *a):
        sys.modules['os'] = os
        for m, k in self.undo:
            setattr(m, k, os)
        return False


def _en(lib, cls, v):
    if isinstance(v, str) and v.startswith('!'):
        return v[1:]
    return None if v is None else getattr(getattr(lib.enumerations, cls), v)


MARK_ENUM = {'rule': 'MarkRule', 'color': 'RoadMarkColor', 'marking_weight': 'RoadMarkWeight', 'laneChange': 'LaneChange'}


def _kw(lib, a, enums):
    return {k: (_en(lib, enums[k], v) if k in enums and v is not None else v) for k, v in a.items()}


def call(lib, env, op, out):
    """the library call of one operation; returns a thunk"""
    o = op['o']
    e = env
    E = lib.enumerations

    def put(v):
        e[op['x']] = v

    if o == 'line':
        return lambda: put(lib.Line(op['l']))
    if o == 'arc':
        return lambda: put(lib.Arc(op['c'], **op['a']))
    if o == 'spiral':
        return lambda: put(lib.Spiral(op['c0'], op['c1'], **op['a']))
    if o == 'poly':
        return lambda: put(lib.ParamPoly3(*op['k'], **op['a']))
    if o == 'pv':
        return lambda: put(lib.PlanView(*op['a']) if op['a'] else lib.PlanView())
    if o == 'geom':
        return lambda: e[op['x']].add_geometry(e[op['g']], *([op['h']] if 'h' in op else []))
    if o == 'mark':
        return lambda: put(lib.RoadMark(_en(lib, 'RoadMarkType', op['t']), **_kw(lib, op['a'], MARK_ENUM)))
    if o == 'lane':
        return lambda: put(lib.Lane(**_kw(lib, op['a'], {'lane_type': 'LaneType'})))
    if o == 'lane_mark':
        return lambda: e[op['x']].add_roadmark(e[op['m']])
    if o == 'lane_link':
        return lambda: e[op['x']].add_link(op['t'], op['id'])
    if o == 'section':
        return lambda: put(lib.LaneSection(op['s'], e[op['c']]))
    if o == 'left':
        return lambda: e[op['x']].add_left_lane(e[op['l']])
    if o == 'right':
        return lambda: e[op['x']].add_right_lane(e[op['l']])
    if o == 'lanes':
        return lambda: put(lib.Lanes())
    if o == 'linker':
        return lambda: put(lib.LaneLinker())
    if o == 'link':
        return lambda: e[op['x']].add_link(e[op['a']], e[op['b']])
    if o == 'addsec':
        k = op.get('k')
        if not k:
            return lambda: e[op['x']].add_lanesection(e[op['s']])
        ks = [e[n] for n in k] if isinstance(k, list) else e[k]
        return lambda: e[op['x']].add_lanesection(e[op['s']], ks)
    if o == 'road':
        return lambda: put(lib.Road(op['id'], e[op['p']], e[op['l']], **op['a']))
    if o in ('succ', 'pred'):
        a = [_en(lib, 'ElementType', op['t']), op['id']]
        k = {}
        if op.get('c'):
            k['contact_point'] = _en(lib, 'ContactPoint', op['c'])
        if op.get('off'):
            k['lane_offset'] = op['off']
        m = 'add_successor' if o == 'succ' else 'add_predecessor'
        return lambda: getattr(e[op['x']], m)(*a, **k)
    if o == 'neigh':
        return lambda: e[op['x']].add_neighbor(_en(lib, 'ElementType', op['t']), op['id'], _en(lib, 'Direction', op['d']))
    if o == 'odr':
        return lambda: put(lib.OpenDrive(op['n']))
    if o == 'add_road':
        return lambda: e[op['x']].add_road(e[op['r']])
    if o == 'adjust':
        return lambda: e[op['x']].adjust_roads_and_lanes()
    if o == 'startpoints':
        return lambda: e[op['x']].adjust_startpoints()
    if o == 'adjust_pv':
        return lambda: e[op['x']].adjust_geometries(*op.get('a', []))
    if o == 'set_start':
        return lambda: e[op['x']].set_start_point(*op['a'])
    if o == 'junction':
        return lambda: put(lib.Junction(op['n'], op['id']))
    if o == 'conn':
        a = [op['in'], op['cr'], _en(lib, 'ContactPoint', op['c'])]
        if op.get('id') is not None:
            a.append(op['id'])
        return lambda: put(lib.Connection(*a))
    if o == 'lanelink':
        return lambda: e[op['x']].add_lanelink(op['a'], op['b'])
    if o == 'addconn':
        return lambda: e[op['x']].add_connection(e[op['c']])
    if o == 'add_junction':
        return lambda: e[op['x']].add_junction(e[op['j']])
    if o == 'mkjunction':
        return lambda: put(lib.create_junction([e[n] for n in op['cr']], op['id'], [e[n] for n in op['rs']]))
    if o == 'jroads':
        def f():
            rs = lib.create_junction_roads([e[n] for n in op['rs']], op['ang'], op['r'], op['id'], **({'startnum': op['start']} if 'start' in op else {}))
            for n, r in zip(op['out'], rs):
                e[n] = r
        return f
    if o == 'obj':
        return lambda: put(lib.Object(op['s'], op['t'], **_kw(lib, op['a'], {'Type': 'ObjectType', 'dynamic': 'Dynamic', 'orientation': 'Orientation'})))
    if o == 'sig':
        return lambda: put(lib.Signal(op['s'], op['t'], op['c'], op['ty'], **_kw(lib, op['a'], {'dynamic': 'Dynamic', 'orientation': 'Orientation'})))
    if o == 'repeat':
        return lambda: e[op['x']].repeat(op['l'], op['d'], **op['a'])
    if o in ('add_obj', 'add_sig'):
        b = [e[n] for n in op['b']] if isinstance(op['b'], list) else e[op['b']]
        return lambda: (e[op['x']].add_object if o == 'add_obj' else e[op['x']].add_signal)(b)
    if o == 'roadside':
        a = dict(op['a'])
        if 'side' in a:
            a['side'] = _en(lib, 'RoadSide', a['side'])
        return lambda: e[op['x']].add_object_roadside(e[op['b']], op['d'], **a)
    if o == 'create_road':
        g = [e[n] for n in op['g']] if isinstance(op['g'], list) else e[op['g']]
        return lambda: put(lib.create_road(g, op['id'], **op['a']))
    if o == 'straight':
        return lambda: put(lib.create_straight_road(op['id'], **op['a']))
    if o == 'cac':
        return lambda: put(lib.create_cloth_arc_cloth(op['k'], op['aa'], op['ca'], op['id'], **op['a']))
    if o == 'emit':
        def f():
            out.append(node(e[op['x']].get_element()))
        return f
    if o == 'emit_lane':
        def f():
            out.append(node(e[op['x']].get_element()))
        return f
    if o == 'write':
        a = []
        if op.get('file') is not None:
            a.append(os.path.join(sim.W.root, op['file']) if op.get('abs') else op['file'])
        k = {}
        if 'pretty' in op:
            k['prettyprint'] = op['pretty']
        return lambda: e[op['x']].write_xml(*a, **k)
    if o == 'print':
        def f():
            t = e[op['x']].get_element()
            a = ET.tostring(t, 'unicode')
            try:
                lib.prettyprint(t)
            finally:
                out.append(a == ET.tostring(t, 'unicode'))
        return f
    if o == 'view':
        def f():
            with platform(op.get('os', os.name)):
                lib.helpers.run_road(e[op['x']], os.path.join(sim.W.root, op['dir']) if op.get('abs') else op['dir'], **op.get('a', {}))
        return f
    if o in ('q_end', 'q_start'):
        def f():
            g = e[op['x']]
            r = (g.get_end_data if o == 'q_end' else g.get_start_data)(*op['p'])
            out.append([float(v) for v in r])
        return f
    if o == 'q_el':
        def f():
            out.append(node(e[op['x']].get_element()))
        return f
    if o == 'q_pv':
        def f():
            p = e[op['x']]
            out.append([list(p.get_start_point()), list(p.get_end_point()), p.get_total_length()])
        return f
    if o == 'q_road':
        def f():
            out.append(list(e[op['x']].get_end_point()))
        return f
    if o == 'set_name':
        def f():
            e[op['x']].name = op['n']
        return f
    if o == 'drop':
        def f():
            for n in op['v']:
                e.pop(n, None)
            gc.collect()
            gc.collect()
        return f
    if o == 'mklist':
        return lambda: put([e[n] for n in op['v']])
    if o == 'push':
        return lambda: e[op['x']].append(e[op['v']])
    if o == 'clear':
        return lambda: e[op['x']].clear()
    raise RuntimeError('unknown operation %r' % o)


class Result:
    __slots__ = ('i', 'op', 'st', 'exc', 'out', 'faulted', 'steps', 'val', 'disk', 'clock', 'printed')

    def __init__(self, i, op):
        self.i = i
        self.op = op
        self.st = None          # ok / rej (library raised) / skip / killed / limit
        self.exc = None
        self.out = []           # what the call produced
        self.faulted = []       # exceptions caused by injected faults, one per failed attempt
        self.steps = 0


def mro(e):
    return [c.__name__ for c in type(e).__mro__]


def execute(w, lib, ops, env=None, before=None, after=None, stop_on_kill=True):
    """run the operations on the current (simulated) thread; returns [Result]"""
    env = {} if env is None else env
    res = []
    tid = w.tid()
    for i, op in enumerate(ops):
        r = Result(i, op)
        res.append(r)
        if op['o'] == 'jump':
            w.jump(op['s'])
            r.st = 'ok'
            continue
        if any(n not in env for n in refs(op)):
            r.st = 'skip'
            continue
        if before is not None:
            before(r, env)
        faults = op.get('f')
        n = 0
        while True:
            n += 1
            f0 = w.fired_by[tid]
            r.out = []
            fn = call(lib, env, op, r.out)
            st, v = w.op(fn, faults)
            fired = w.fired_by[tid] > f0
            if st == 'exc' and fired:
                r.faulted.append(mro(v))
                w.log('faulted', i, op['o'], type(v).__name__)
                if op.get('noretry'):
                    r.st, r.exc = 'faulted', mro(v)
                    break
                faults = op.get('f%d' % (n + 1))
                if n > 6:
                    raise RuntimeError('fault does not end')
                continue
            r.st = {'ok': 'ok', 'exc': 'rej'}.get(st, st)
            if st == 'exc':
                r.exc = mro(v)
                r.val = str(v)[:200]
            break
        r.steps = w.op_steps.get(tid, 0)
        w.log('op', i, op['o'], r.st, r.exc[0] if r.exc else '', repr(r.out)[:20000])
        if after is not None:
            after(r, env)
        if r.st == 'killed' and stop_on_kill:
            break
    return res
