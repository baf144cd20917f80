"""Small reference model of what a program of library calls means.

It executes the same operations on plain dictionaries, predicts which calls are rejected and with
what, and predicts the document.  It is written from the documentation of the library and the listed
properties, shares no code with it, and knows nothing about its internals.
"""
import copy

import api

ANY = None                      # an attribute value the model does not predict


class Opt:
    """an attribute that may be left out, and has this value (or ANY) if it is there"""
    def __init__(self, v):
        self.v = v


def s(v):
    return str(v)


def en(n):
    return n.replace('_', ' ')


class Model:
    def __init__(self):
        self.o = {}
        self.log = []

    def run(self, ops):
        return [self.do(op) for op in ops]

    def do(self, op):
        if op['o'] == 'jump':
            return 'ok'
        if any(n not in self.o for n in api.refs(op)):
            return 'skip'
        return getattr(self, 'do_' + op['o'])(op) or 'ok'

    def names(self, v):
        """objects meant by a name, a list of names, or the name of a list"""
        if isinstance(v, list):
            return [self.o[n] for n in v]
        v = self.o[v]
        return list(v) if isinstance(v, list) else [v]

    def do_mklist(self, op):
        self.o[op['x']] = [self.o[n] for n in op['v']]

    def do_push(self, op):
        self.o[op['x']].append(self.o[op['v']])

    def do_clear(self, op):
        self.o[op['x']].clear()

    # ------------------------------------------------------------------ geometry
    def do_line(self, op):
        self.o[op['x']] = {'k': 'line', 'l': op['l']}

    def do_arc(self, op):
        a = op['a']
        n = (a.get('length') is not None) + (a.get('angle') is not None)
        if n == 0:
            return ('rej', 'NotEnoughInputArguments')
        if n == 2:
            return ('rej', 'ToManyOptionalArguments')
        if op['c'] == 0:
            return ('rej', 'ValueError')
        self.o[op['x']] = {'k': 'arc', 'c': op['c'], 'length': a.get('length'), 'angle': a.get('angle')}

    def do_spiral(self, op):
        a = {k: v for k, v in op['a'].items() if v is not None}
        if len(a) == 0:
            return ('rej', 'NotEnoughInputArguments')
        if len(a) > 1:
            return ('rej', 'ToManyOptionalArguments')
        self.o[op['x']] = dict({'k': 'spiral', 'c0': op['c0'], 'c1': op['c1']}, **a)

    def do_poly(self, op):
        pr = op['a'].get('prange', 'normalized')
        if pr == 'arcLength' and op['a'].get('length') is None:
            return ('rej', 'ValueError')
        self.o[op['x']] = {'k': 'poly', 'coef': op['k'], 'prange': pr, 'length': op['a'].get('length')}

    def do_pv(self, op):
        a = op['a']
        if a:
            n = sum(v is not None for v in a)
            if n not in (0, 3):
                return ('rej', 'NotEnoughInputArguments')
        fixed = list(a) if a and a[0] is not None else None
        self.o[op['x']] = {'k': 'pv', 'fixed': fixed, 'start': fixed or [0, 0, 0], 'g': [], 'adj': False}

    def do_geom(self, op):
        p = self.o[op['x']]
        p['g'].append(self.o[op['g']])
        if 'h' in op:
            p.setdefault('h', []).append(op['h'])

    def do_set_start(self, op):
        self.o[op['x']]['start'] = list(op['a'])

    def do_adjust_pv(self, op):
        p = self.o[op['x']]
        if not p['adj'] and not any(op.get('a', [])):
            p['fixed'] = p['start']         # laid by the user: it stays there
        p['adj'] = True

    def do_q_end(self, op):
        pass
    do_q_start = do_q_el = do_q_pv = do_q_road = do_print = do_q_end

    # ------------------------------------------------------------------ lanes
    def do_mark(self, op):
        self.o[op['x']] = {'k': 'mark', 't': op['t'], 'a': op['a']}

    def do_lane(self, op):
        self.o[op['x']] = {'k': 'lane', 'a': op['a'], 'id': None, 'mark': None, 'links': [], 'auto': []}

    def do_lane_mark(self, op):
        self.o[op['x']]['mark'] = self.o[op['m']]

    def do_lane_link(self, op):
        self.o[op['x']]['links'].append((op['t'], s(op['id'])))

    def do_section(self, op):
        c = self.o[op['c']]
        c['id'] = 0
        self.o[op['x']] = {'k': 'section', 's': op['s'], 'c': c, 'left': [], 'right': []}

    def do_left(self, op):
        sec, l = self.o[op['x']], self.o[op['l']]
        sec['left'].append(l)
        l['id'] = len(sec['left'])

    def do_right(self, op):
        sec, l = self.o[op['x']], self.o[op['l']]
        sec['right'].append(l)
        l['id'] = -len(sec['right'])

    def do_lanes(self, op):
        self.o[op['x']] = {'k': 'lanes', 'secs': []}

    def do_linker(self, op):
        self.o[op['x']] = {'k': 'linker', 'l': []}

    def do_link(self, op):
        self.o[op['x']]['l'].append({'a': self.o[op['a']], 'b': self.o[op['b']], 'used': False})

    def do_addsec(self, op):
        k = op.get('k')
        if k:
            for n in self.names(k):
                for l in n['l']:
                    if not l['used']:
                        l['used'] = True
                        l['a']['links'].append(('successor', s(l['b']['id'])))
                        l['b']['links'].append(('predecessor', s(l['a']['id'])))
        self.o[op['x']]['secs'].append(self.o[op['s']])

    # ------------------------------------------------------------------ roads
    def do_road(self, op):
        self.o[op['x']] = {'k': 'road', 'id': op['id'], 'pv': self.o[op['p']], 'lanes': self.o[op['l']],
                           'type': op['a'].get('road_type', -1), 'name': op['a'].get('name'), 'rule': op['a'].get('rule'),
                           'links': [], 'succ': None, 'pred': None, 'neigh': 0, 'obj': [], 'sig': []}

    def _link(self, op, w):
        r = self.o[op['x']]
        if r[w]:
            return ('rej', 'ValueError')
        r[w] = {'t': op['t'], 'id': op['id'], 'c': op.get('c'), 'off': op.get('off', 0)}
        at = {'elementType': en(op['t']), 'elementId': s(op['id'])}
        if op.get('c'):
            at['contactPoint'] = op['c']
        r['links'].append(['successor' if w == 'succ' else 'predecessor', at, []])

    def do_succ(self, op):
        return self._link(op, 'succ')

    def do_pred(self, op):
        return self._link(op, 'pred')

    def do_neigh(self, op):
        r = self.o[op['x']]
        if r['neigh'] >= 2 or op['d'] is None:
            return ('rej', 'ValueError')
        r['neigh'] += 1
        r['links'].append(['neighbor', {'elementType': en(op['t']), 'elementId': s(op['id']), 'direction': op['d']}, []])

    def do_odr(self, op):
        self.o[op['x']] = {'k': 'odr', 'n': op['n'], 'roads': [], 'junctions': [], 'linked': 'no'}

    def do_set_name(self, op):
        self.o[op['x']]['n'] = op['n']

    def do_add_road(self, op):
        self.o[op['x']]['roads'].append(self.o[op['r']])

    def do_add_junction(self, op):
        self.o[op['x']]['junctions'].append(self.o[op['j']])

    # -- the network
    @staticmethod
    def by_id(odr):
        return {s(r['id']): r for r in odr['roads']}

    def joints(self, odr):
        """mutual joints [(a, 'succ'/'pred', b, 'start'/'end', offset)] seen from a; connecting roads' own links count as they are"""
        ids = self.by_id(odr)
        out = []
        for a in odr['roads']:
            for w in ('succ', 'pred'):
                l = a[w]
                if not l or l['t'] != 'road' or s(l['id']) not in ids:
                    continue
                b = ids[s(l['id'])]
                if a['type'] != -1:
                    out.append((a, w, b, l['c'], l['off'], 'conn'))
                    continue
                other = b['pred'] if l['c'] == 'start' else b['succ']
                if other and other['t'] == 'road' and s(other['id']) == s(a['id']) and \
                        other['c'] == ('end' if w == 'succ' else 'start') and b['type'] == -1 and \
                        other['off'] == (-l['off'] if (w == 'succ') == (l['c'] == 'start') else l['off']):
                    out.append((a, w, b, l['c'], l['off'], 'road'))
        return out

    def reach(self, odr):
        """(roads surely placed, roads possibly placed)"""
        roads = odr['roads']
        ids = self.by_id(odr)
        if not roads:
            return [], []
        base = [r for r in roads if r['pv']['adj'] or r['pv']['fixed']]
        if not base:
            base = [roads[0]]
        must = {}
        may = {}
        jm = self.joints(odr)
        for adjm, strict in ((must, True), (may, False)):
            edges = {}
            if strict:
                es = [(a, b) for a, _, b, _, _, _ in jm]
            else:
                es = []
                for a in roads:
                    for w in ('succ', 'pred'):
                        l = a[w]
                        if l and l['t'] == 'road' and s(l['id']) in ids:
                            es.append((a, ids[s(l['id'])]))
            for a, b in es:
                edges.setdefault(id(a), []).append(b)
                edges.setdefault(id(b), []).append(a)
            todo = list(base)
            for r in todo:
                adjm[id(r)] = r
            while todo:
                r = todo.pop()
                for b in edges.get(id(r), ()):
                    if id(b) not in adjm:
                        adjm[id(b)] = b
                        todo.append(b)
        return list(must.values()), list(may.values())

    def mismatches(self, odr):
        out = []
        for a, w, b, c, _, kind in self.joints(odr):
            if kind == 'road' and w == 'succ' and c == 'start':
                if not a['lanes']['secs'] or not b['lanes']['secs']:
                    continue
                x, y = a['lanes']['secs'][-1], b['lanes']['secs'][0]
                if len(x['left']) != len(y['left']) or len(x['right']) != len(y['right']):
                    out.append((a, b))
        return out

    def cyclic(self, odr):
        """does the network contain a cycle (then the layout may not close)"""
        par = {}

        def find(i):
            while par.setdefault(i, i) != i:
                i = par[i]
            return i
        seen = set()
        for a, w, b, c, _, kind in self.joints(odr):
            far = b['pred'] if c == 'start' else b['succ']
            mutual = kind == 'road' or b['type'] != -1 and far and far['t'] == 'road' and s(far['id']) == s(a['id'])
            key = frozenset([(id(a), w), (id(b), 'pred' if c == 'start' else 'succ')]) if mutual else (id(a), w)
            if key in seen:
                continue
            seen.add(key)
            x, y = find(id(a)), find(id(b))
            if x == y:
                return True
            par[x] = y
        return False

    def do_startpoints(self, op):
        return self.do_adjust(op, lanes=False)

    def do_adjust(self, op, lanes=True):
        odr = self.o[op['x']]
        must, may = self.reach(odr)
        n = len(odr['roads'])
        if len(may) < n:
            return ('rej', 'UndefinedRoadNetwork')
        if len(must) < n:
            return 'any'
        if any(r['pv']['adj'] for r in odr['roads']) and any(r['pv']['fixed'] and not r['pv']['adj'] for r in odr['roads']):
            odr['late_fixed'] = True        # a road with a given start came after others had been laid: it may contradict them
        for r in odr['roads']:
            r['pv']['adj'] = True
        if not lanes:
            return
        bad = self.mismatches(odr)
        if bad:
            odr['linked'] = False
            self.autolinks(odr, 'allow', bad)
            return ('rej', 'NotSameAmountOfLanesError')
        odr['linked'] = True
        self.autolinks(odr)

    def autolinks(self, odr, key='auto', bad=()):
        def add(lane, t, i):
            l = lane.setdefault(key, [])
            if (t, s(i)) not in l and (t, s(i)) not in lane['auto'] and (t, s(i)) not in lane['links']:
                l.append((t, s(i)))
        for a, w, b, c, off, kind in self.joints(odr):
            if not a['lanes']['secs'] or any(x is a and y is b for x, y in bad):
                continue
            if kind == 'road':
                if w == 'succ' and c == 'start':
                    x, y = a['lanes']['secs'][-1], b['lanes']['secs'][0]
                    for k in ('left', 'right'):
                        for p, q in zip(x[k], y[k]):
                            add(p, 'successor', q['id'])
                            add(q, 'predecessor', p['id'])
            else:
                sec = a['lanes']['secs'][-1 if w == 'succ' else 0]
                head_on = (c == 'end') == (w == 'succ')
                for k in ('left', 'right'):
                    for p in sec[k]:
                        add(p, 'successor' if w == 'succ' else 'predecessor', (-p['id'] if head_on else p['id']) + off)

    # ------------------------------------------------------------------ junctions
    def do_junction(self, op):
        self.o[op['x']] = {'k': 'junction', 'n': op['n'], 'id': op['id'], 'c': [], 'gen': False}

    def do_conn(self, op):
        self.o[op['x']] = {'k': 'conn', 'in': op['in'], 'cr': op['cr'], 'c': op['c'], 'id': op.get('id'), 'l': []}

    def do_lanelink(self, op):
        self.o[op['x']]['l'].append((op['a'], op['b']))

    def do_addconn(self, op):
        self.o[op['x']]['c'].append(self.o[op['c']])

    def do_mkjunction(self, op):
        self.o[op['x']] = {'k': 'junction', 'n': ANY, 'id': op['id'], 'c': [], 'gen': True,
                           'cr': [self.o[n] for n in op['cr']]}
        ids = [s(self.o[n]['id']) for n in op['rs']]
        if any(not r['lanes']['secs'] or not l or l['t'] != 'road' or s(l['id']) not in ids for r in self.o[op['x']]['cr'] for l in (r['pred'], r['succ'])):
            return 'any'        # nothing is said about connecting roads that do not connect these roads

    # ------------------------------------------------------------------ objects
    def do_obj(self, op):
        self.o[op['x']] = {'k': 'obj', 's': op['s'], 't': op['t'], 'a': op['a'], 'hdg': op['a'].get('hdg', 0), 'rep': []}

    def do_sig(self, op):
        self.o[op['x']] = {'k': 'sig', 's': op['s'], 't': op['t'], 'c': op['c'], 'ty': op['ty'], 'a': op['a']}

    @staticmethod
    def _repeat(o, length, dist, a):
        at = {'length': length if callable(length) else s(length), 'distance': s(dist)}
        at['s'] = s(o['s'] if a.get('sStart') is None else a['sStart'])
        for k, f in (('tStart', o['t']), ('tEnd', o['t']), ('heightStart', o['a'].get('height')), ('heightEnd', o['a'].get('height')),
                     ('zOffsetStart', o['a'].get('zOffset', 0)), ('zOffsetEnd', o['a'].get('zOffset', 0))):
            v = a.get(k)
            if v is None:
                v = f
            at[k] = ANY if v is None else s(v)
        for k in ('widthStart', 'widthEnd', 'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd'):
            if a.get(k) is not None:
                at[k] = s(a[k])
        o['rep'].append(at)

    def do_repeat(self, op):
        self._repeat(self.o[op['x']], op['l'], op['d'], op['a'])

    def do_add_obj(self, op):
        self.o[op['x']]['obj'] += self.names(op['b'])

    def do_add_sig(self, op):
        self.o[op['x']]['sig'] += self.names(op['b'])

    def do_roadside(self, op):
        import math
        r = self.o[op['x']]
        if not r['pv']['adj']:
            return ('rej', 'RoadsAndLanesNotAdjusted')
        a = op['a']
        side = a.get('side', 'both')
        for sec in r['lanes']['secs']:
            for sd, lanes, f in (('left', sec['left'], 1), ('right', sec['right'], -1)):
                if side not in ('both', sd):
                    continue
                o = copy.deepcopy(self.o[op['b']])
                o['s'] = a.get('sOffset', 0) + sec['s']
                o['t'] = f * (sum(l['a'].get('a', 0) for l in lanes) + a.get('tOffset', 0))
                o['hdg'] = math.pi if f == 1 else 0.0
                off = o['s']
                self._repeat(o, (lambda total, off=off: total - off), op['d'], {})
                r['obj'].append(o)

    # ------------------------------------------------------------------ generators
    SOLID = {'k': 'mark', 't': 'solid', 'a': {'width': 0.2}}
    BROKEN = {'k': 'mark', 't': 'broken', 'a': {'width': 0.2}}

    def _lane(self, w, mark):
        return {'k': 'lane', 'a': {'a': w}, 'id': None, 'mark': mark, 'links': [], 'auto': []}

    def _mkroad(self, op, pieces, left, right, centre, type_):
        sec = {'k': 'section', 's': 0, 'c': centre, 'left': left, 'right': right}
        centre['id'] = 0
        for i, l in enumerate(left):
            l['id'] = i + 1
        for i, l in enumerate(right):
            l['id'] = -i - 1
        pv = {'k': 'pv', 'fixed': None, 'start': [0, 0, 0], 'g': pieces, 'adj': False}
        self.o[op['x']] = {'k': 'road', 'id': op['id'], 'pv': pv, 'lanes': {'k': 'lanes', 'secs': [sec]}, 'type': type_,
                           'name': None, 'links': [], 'succ': None, 'pred': None, 'neigh': 0, 'obj': [], 'sig': []}

    def do_create_road(self, op):
        a = op['a']
        g = self.names(op['g'])
        w = a.get('lane_width', 3)

        def side(n):
            return [self._lane(w, self.SOLID if i == n - 1 else self.BROKEN) for i in range(n)]
        self._mkroad(op, g, side(a.get('left_lanes', 1)), side(a.get('right_lanes', 1)), self._lane(0, self.SOLID), a.get('road_type', -1))

    def do_straight(self, op):
        a = op['a']
        n, w = a.get('n_lanes', 1), a.get('lane_offset', 3)
        self._mkroad(op, [{'k': 'line', 'l': a.get('length', 100)}], [self._lane(w, self.BROKEN) for _ in range(n)],
                     [self._lane(w, self.BROKEN) for _ in range(n)], self._lane(3, self.BROKEN), a.get('junction', -1))

    def do_cac(self, op):
        a = op['a']
        n, w = a.get('n_lanes', 1), a.get('lane_offset', 3)
        k, aa, ca, cs = op['k'], op['aa'], op['ca'], a.get('cloth_start', 1 / 1000000000)
        if ca < 0 and k > 0:
            k, aa, ca, cs = -k, -aa, -ca, -cs
        g = [{'k': 'spiral', 'c0': cs, 'c1': k, 'angle': ca}, {'k': 'arc', 'c': k, 'length': None, 'angle': aa},
             {'k': 'spiral', 'c0': k, 'c1': cs, 'angle': ca}]
        self._mkroad(op, g, [self._lane(w, self.BROKEN) for _ in range(n)], [self._lane(w, self.BROKEN) for _ in range(n)],
                     self._lane(3, self.BROKEN), a.get('junction', 1))

    def do_jroads(self, op):
        import math
        rs = [self.o[n] for n in op['rs']]
        for i, r in enumerate(rs):
            if r['succ' if i == 0 and len(rs) > 1 else 'pred']:
                return ('rej', 'ValueError')
        for i in range(len(rs) - 1):
            a = rs[i]['lanes']['secs'][-1 if i == 0 else 0]
            for r in rs[i + 1:]:
                b = r['lanes']['secs'][0]
                if len(a['left']) != len(b['left']) or len(a['right']) != len(b['right']):
                    return ('rej', 'NotSameAmountOfLanesError')
        out = list(op['out'])
        num = op.get('start', 100)
        for i in range(len(rs) - 1):
            self._link({'x': op['rs'][i], 't': 'junction', 'id': op['id']}, 'succ' if i == 0 else 'pred')
            for j in range(i + 1, len(rs)):
                sec = rs[i]['lanes']['secs'][-1 if i == 0 else 0]
                n, w = len(sec['left']), sec['left'][0]['a'].get('a', 0)
                an = op['ang'][j] - op['ang'][i] - math.pi
                x = out.pop(0)
                if an == 0:
                    self.do_straight({'x': x, 'id': num, 'a': {'length': ANY, 'n_lanes': n, 'lane_offset': w, 'junction': op['id']}})
                else:
                    self.do_cac({'x': x, 'id': num, 'k': 1 / op['r'], 'aa': an / 3, 'ca': an / 3, 'a': {'n_lanes': n, 'lane_offset': w, 'junction': op['id']}})
                self._link({'x': x, 't': 'road', 'id': rs[i]['id'], 'c': 'end' if i == 0 else 'start'}, 'pred')
                self._link({'x': x, 't': 'road', 'id': rs[j]['id'], 'c': 'start'}, 'succ')
                num += 1
        self._link({'x': op['rs'][-1], 't': 'junction', 'id': op['id']}, 'pred')

    # ------------------------------------------------------------------ emission
    def do_emit(self, op):
        if any(l['id'] is None for r in self.o[op['x']].get('roads', []) for sec in r['lanes']['secs']
               for l in [sec['c']] + sec['left'] + sec['right']):
            return ('rej', 'ValueError')

    do_write = do_emit
    do_view = do_emit

    def do_emit_lane(self, op):
        if self.o[op['x']]['id'] is None:
            return ('rej', 'ValueError')

    def x_mark(self, m):
        a = m['a']
        at = {'sOffset': s(a.get('soffset', 0)), 'type': en(m['t']), 'weight': en(a.get('marking_weight', 'standard')),
              'color': en(a.get('color', 'standard')), 'height': s(a.get('height', 0.02))}
        def given(k, f=s):
            return ANY if a.get(k) is None else f(a[k])
        if a.get('laneChange') is not None:
            at['laneChange'] = en(a['laneChange'])
        ch = []
        if any(a.get(k) for k in ('length', 'space', 'toffset', 'rule')):
            at['width'] = Opt(ANY) if a.get('width') is None else s(a['width'])
            ch = [['type', {'name': en(m['t']), 'width': given('width')},
                   [['line', {'length': given('length'), 'space': given('space'), 'tOffset': given('toffset'), 'width': given('width'),
                              'sOffset': s(a.get('soffset', 0)), 'rule': Opt(ANY) if a.get('rule') is None else en(a['rule'])}, []]]]]
        elif a.get('width') is not None:
            at['width'] = s(a['width'])
        return ['roadMark', at, ch]

    def x_lane(self, l):
        a = l['a']
        ch = [['link', {}, [[t, {'id': i}, []] for t, i in l['links'] + l['auto']]],
              ['width', {'a': s(a.get('a', 0)), 'b': s(a.get('b', 0)), 'c': s(a.get('c', 0)), 'd': s(a.get('d', 0)),
                         'sOffset': s(a.get('soffset', 0))}, []]]
        if l['mark']:
            ch.append(self.x_mark(l['mark']))
        return ['lane', {'id': s(l['id']), 'type': en(a.get('lane_type', 'driving')), 'level': 'false'}, ch]

    def x_section(self, sec):
        ch = []
        if sec['left']:
            ch.append(['left', {}, [self.x_lane(l) for l in sec['left']]])
        ch.append(['center', {}, [self.x_lane(sec['c'])]])
        if sec['right']:
            ch.append(['right', {}, [self.x_lane(l) for l in sec['right']]])
        return ['laneSection', {'s': s(sec['s'])}, ch]

    def x_piece(self, g):
        k = g['k']
        if k == 'line':
            return ['line', {}, []]
        if k == 'arc':
            return ['arc', {'curvature': s(g['c'])}, []]
        if k == 'spiral':
            return ['spiral', {'curvStart': s(g['c0']), 'curvEnd': s(g['c1'])}, []]
        n = ['aU', 'bU', 'cU', 'dU', 'aV', 'bV', 'cV', 'dV']
        at = {a: s(v) for a, v in zip(n, g['coef'])}
        at['pRange'] = g['prange']
        return ['paramPoly3', at, []]

    def x_common(self, o):
        a = o['a']
        at = {'id': ANY, 's': s(o['s']), 't': s(o['t']), 'dynamic': a.get('dynamic', 'no')}
        for k in ('pitch', 'roll'):
            if a.get(k) is not None:
                at[k] = s(a[k]) if a[k] else Opt('0')
        for k in ('width', 'height'):
            if a.get(k) is not None:
                at[k] = s(a[k])
        if a.get('name') is not None:
            at['name'] = a['name'] or Opt('')
        return at

    def x_obj(self, o):
        a = o['a']
        at = self.x_common(o)
        at['subtype'] = ANY if a.get('subtype') is None else s(a['subtype'])
        at['zOffset'] = s(a.get('zOffset', 0))
        ty = a.get('Type', 'none')
        at['type'] = ty[1:] if ty.startswith('!') else en(ty)
        at['orientation'] = {'positive': '+', 'negative': '-', 'none': 'none'}[a.get('orientation', 'none')]
        if a.get('validLength') is not None:
            at['validLength'] = s(a['validLength'])
        at['hdg'] = s(o['hdg'])
        if a.get('radius') is not None:
            at['radius'] = s(a['radius'])           # the documented choice when both are given
            at.pop('width', None)
        elif a.get('length') is not None or a.get('width') is not None:
            for k in ('length', 'width'):
                at[k] = Opt(ANY) if a.get(k) is None else s(a[k])
        return ['object', at, [['repeat', dict(r), []] for r in o['rep']]]

    def x_sig(self, o):
        a = o['a']
        at = self.x_common(o)
        at['subtype'] = s(a.get('subtype', '-1'))
        at['zOffset'] = s(a.get('zOffset', 1.5))
        at['type'] = s(o['ty'])
        at['country'] = s(o['c']).upper()
        at['orientation'] = {'positive': '+', 'negative': '-', 'none': 'none'}[a.get('orientation', 'positive')]
        if a.get('hOffset') is not None:
            at['hOffset'] = s(a['hOffset']) if a['hOffset'] else Opt('0')
        if a.get('value') is not None:
            at['value'] = s(a['value'])
            at['unit'] = s(a.get('unit'))
        return ['signal', at, []]

    def x_road(self, r):
        at = {'id': s(r['id']), 'junction': s(r['type']), 'length': ANY}
        if r['name'] is not None:
            at['name'] = r['name'] or Opt('')
        if r.get('rule') is not None:
            at['rule'] = r['rule'] or Opt('')
        geo = []
        if r['pv']['adj']:
            for g in r['pv']['g']:
                geo.append(['geometry', {'s': ANY, 'x': ANY, 'y': ANY, 'hdg': ANY, 'length': ANY}, [self.x_piece(g)]])
        else:
            geo = ANY
        ch = [['link', {}, [copy.deepcopy(x) for x in r['links']]], ['planView', {}, geo],
              ['lanes', {}, [self.x_section(x) for x in r['lanes']['secs']]]]
        if r['sig']:
            ch.append(['signals', {}, [self.x_sig(x) for x in r['sig']]])
        if r['obj']:
            ch.append(['objects', {}, [self.x_obj(x) for x in r['obj']]])
        return ['road', at, ch]

    def x_junction(self, j):
        ch = ANY if j['gen'] else [
            ['connection', {'incomingRoad': s(c['in']), 'connectingRoad': s(c['cr']), 'contactPoint': c['c'],
                            'id': ANY if c['id'] is None else s(c['id'])},
             [['laneLink', {'from': s(a), 'to': s(b)}, []] for a, b in c['l']]] for c in j['c']]
        return ['junction', {'name': j['n'], 'id': s(j['id'])}, ch]

    def doc(self, name):
        odr = self.o[name]
        hd = ['header', {'name': odr['n'], 'revMajor': '1', 'revMinor': '5', 'date': ANY, 'north': '0.0', 'south': '0.0',
                         'east': '0.0', 'west': '0.0'}, []]
        return ['OpenDRIVE', {}, [hd] + [self.x_road(r) for r in odr['roads']] + [self.x_junction(j) for j in odr['junctions']]]


# ---------------------------------------------------------------------- comparing documents
def same(a, b):
    if a == b:
        return True
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def diff(exp, act, path='', out=None, skip=(), ctx=None, limit=20):
    """differences between expected (with ANY) and actual; skip: predicate on (path) to ignore a subtree"""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    p = path + '/' + exp[0]
    if exp[0] != act[0]:
        out.append((path, 'element %s where %s is expected' % (act[0], exp[0])))
        return out
    if exp[0] == 'road' and ctx is not None:
        ctx = dict(ctx, length=act[1].get('length'))
    for k in sorted(set(exp[1]) | set(act[1])):
        if k not in exp[1]:
            out.append((p, 'unexpected attribute %s=%r' % (k, act[1][k])))
        elif k not in act[1]:
            if not isinstance(exp[1][k], Opt):
                out.append((p, 'attribute %s missing' % k))
        else:
            e = exp[1][k]
            if isinstance(e, Opt):
                e = e.v
            if e is ANY:
                continue
            if callable(e):
                e = s(e(float(ctx['length'])))
            if not same(e, act[1][k]):
                out.append((p, 'attribute %s is %r instead of %r' % (k, act[1][k], e)))
    if exp[2] is ANY or any(f(p) for f in skip):
        return out
    if len(exp[2]) != len(act[2]):
        out.append((p, '%d children (%s) instead of %d (%s)' % (len(act[2]), ','.join(c[0] for c in act[2])[:80], len(exp[2]), ','.join(c[0] for c in exp[2])[:80])))
        return out
    for i, (e, a) in enumerate(zip(exp[2], act[2])):
        diff(e, a, p if len(exp[2]) == 1 else p + '[%d]' % i, out, skip, ctx, limit)
    return out


def differ(a, b, path='', out=None, limit=10):
    """differences between two concrete trees"""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    if a == b:
        return out
    p = path + '/' + a[0]
    if a[0] != b[0]:
        out.append((path, '%s versus %s' % (a[0], b[0])))
        return out
    for k in sorted(set(a[1]) | set(b[1])):
        if a[1].get(k) != b[1].get(k):
            out.append((p, 'attribute %s: %r versus %r' % (k, a[1].get(k), b[1].get(k))))
    if len(a[2]) != len(b[2]):
        out.append((p, '%d versus %d children' % (len(a[2]), len(b[2]))))
        return out
    for i, (x, y) in enumerate(zip(a[2], b[2])):
        differ(x, y, p + '[%d]' % i, out, limit)
    return out
