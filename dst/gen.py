"""Scenario generation: random road networks, and the random interleaving of the clients that build them.

Everything is drawn from the random.Random handed in; the result is a plain JSON list of operations.
"""
import copy
import math

import api

TEXT = ['road', 'a b', 'x & y', '<tag>', 'say "hi"', "it's", 'Stra\u00dfe', '\u9053\u8def', 'emoji \U0001F697', ']]>', '&amp;',
        ' lead', 'trail ', '\u0440\u043e\u0430\u0434', 'e\u0301', '\u00e5\u00e4\u00f6', '\u20ac', 'n' * 300, '-->', '\u2028x', 'a\u00a0b',
        'two  blanks', '   ', 'a  b   c    d', '<!-- c -->', '"\'', '%s {0} %(x)s', 'back\\nslash', '0', 'None', '&#10;', '\ufffd', '\U0010ffff',
        '<a>b</a>', '><', '/>', 'x="1"', '.', '..', '?>', '<?xml version="1.0"?>', 'True', '-1', '1e5', '\u0301', '\ufeffb', 'N\u0131', '\u202eabc']
LANE_TYPES = ['driving', 'shoulder', 'border', 'sidewalk', 'biking', 'onRamp', 'median', 'none', 'stop', 'parking', 'restricted', 'bidirectional',
              'special1', 'special2', 'special3', 'roadWorks', 'tram', 'rail', 'entry', 'exit', 'offRamp', 'connectingRamp', 'bus', 'taxi', 'HOV',
              'mwyEntry', 'mwyExit']
MARKS = ['solid', 'broken', 'none', 'solid_solid', 'solid_broken', 'broken_solid', 'broken_broken', 'botts_dots', 'curb', 'grass', 'custom', 'edge']
COLORS = ['standard', 'blue', 'green', 'red', 'white', 'yellow', 'orange']
OBJECTS = ['none', 'obstacle', 'pole', 'tree', 'vegetation', 'barrier', 'building', 'parkingSpace', 'patch', 'railing', 'trafficIsland', 'crosswalk',
           'streetLamp', 'gantry', 'soundBarrier', 'roadMark', '!pole', '!my own type', '!none']


def num(rng, lo, hi):
    if rng.random() < 0.2:
        return rng.randint(int(math.ceil(lo)), int(hi))
    return round(rng.uniform(lo, hi), rng.choice([1, 1, 3, 3, 6, 6, 9, 16]))


def val(rng, lo, hi):
    """a value the user gives; 0 is a value like any other"""
    if rng.random() < 0.12:
        return rng.choice([0, 0.0])
    return num(rng, lo, hi)


def pose(rng):
    if rng.random() < .08:
        return [rng.choice([0, 0.0]) for _ in range(3)]
    if rng.random() < .06:          # map coordinates
        return [round(rng.uniform(3e5, 8e5), 3), round(rng.uniform(-6e6, 6e6), 3), round(rng.uniform(-3.3, 6.5), 3)]
    v = [num(rng, -200, 200), num(rng, -200, 200), round(rng.uniform(-3.3, 6.5), 3)]
    return [0 if rng.random() < .12 else q for q in v]


def curvature(rng):
    return rng.choice([-1, 1]) * round(10 ** rng.uniform(-3, -1), 5)


def tiny(rng):
    """an arc that turns by very little"""
    c = rng.choice([-1, 1]) * round(10 ** rng.uniform(-5, -3), 7)
    t = 10 ** rng.uniform(-4, -2.5)
    if rng.random() < .5:
        return {'o': 'arc', 'c': c, 'a': {'length': round(t / abs(c), 3)}}
    return {'o': 'arc', 'c': c, 'a': {'angle': round(t, 6) * (1 if c > 0 else -1)}}


def piece(rng, kinds='lassp'):
    """a geometry operation without its name"""
    k = rng.choice(kinds)
    if k == 'l':
        if rng.random() < .1:
            return {'o': 'line', 'l': rng.choice([round(10 ** rng.uniform(-3, 0), 4), round(10 ** rng.uniform(2.5, 4.3), 2)])}
        return {'o': 'line', 'l': num(rng, 1, 120)}
    if k == 'a':
        if rng.random() < .08:
            return tiny(rng)
        c = curvature(rng)
        if rng.random() < .08:          # most of a roundabout, or more than one turn
            t = round(rng.uniform(2.5, 9), 3)
            if rng.random() < .5:
                return {'o': 'arc', 'c': c, 'a': {'length': round(t / abs(c), 3)}}
            return {'o': 'arc', 'c': c, 'a': {'angle': t * rng.choice([1, -1])}}
        if rng.random() < 0.5:
            return {'o': 'arc', 'c': c, 'a': {'length': round(rng.uniform(1, min(80, 4 / abs(c))), 3)}}
        return {'o': 'arc', 'c': c, 'a': {'angle': round(rng.uniform(0.05, 2.5), 3) * (1 if c > 0 else -1) * rng.choice([1, 1, 1, -1])}}
    if k == 's':
        if rng.random() < .15:          # long and nearly an arc
            c0 = curvature(rng)
            length = round(rng.uniform(5, min(150, 4 / abs(c0))), 3)
            g = rng.choice([-1, 1]) * 10 ** rng.uniform(-6.5, -4.5)
            if rng.random() < .5:
                return {'o': 'spiral', 'c0': c0, 'c1': round(c0 + g * length, 9), 'a': {'length': length}}
            c1 = round(c0 + g * length, 9)
            return {'o': 'spiral', 'c0': c0, 'c1': c1, 'a': {'cdot': (c1 - c0) / length}}
        if rng.random() < .08:          # no change of curvature at all
            c0 = rng.choice([0, 0.0, curvature(rng), curvature(rng)])
            length = round(rng.uniform(2, min(60, 3 / max(abs(c0), 1e-3))), 3)
            return {'o': 'spiral', 'c0': c0, 'c1': c0, 'a': {'length': length} if c0 == 0 or rng.random() < .6 else {'angle': round(rng.uniform(.05, 1.2), 3)}}
        wide = rng.choice([1] * 14 + [4])
        while True:
            c0, c1 = rng.choice([0, 0, curvature(rng), 1e-9]), rng.choice([0, curvature(rng), curvature(rng)])
            if c0 == c1 or max(abs(c0), abs(c1)) < 1e-6:
                continue
            m = rng.randrange(3)
            if m == 0:
                length = round(rng.uniform(2, min(60 * wide, 3 * wide / max(abs(c0), abs(c1)))), 3)
                a = {'length': length}
            elif m == 1:
                ang = round(rng.uniform(0.05, 1.2 * wide), 3)
                a = {'angle': rng.choice([-1, 1]) * ang}
                length = 2 * ang / max(abs(c0), abs(c1))
            else:
                length = rng.uniform(2, min(60 * wide, 3 * wide / max(abs(c0), abs(c1))))
                a = {'cdot': round((c1 - c0) / length, 8)}
                if a['cdot'] == 0:
                    continue
                length = (c1 - c0) / a['cdot']
            if length <= 0 or length > 400 or abs((c1 - c0) / length) < 2e-5:
                continue
            return {'o': 'spiral', 'c0': c0, 'c1': c1, 'a': a}
    bu = round(rng.uniform(5, 60), 2)
    if rng.random() < 0.5:
        return {'o': 'poly', 'k': [0, bu, round(rng.uniform(-.2, .2) * bu, 3), round(rng.uniform(-.1, .1) * bu, 3), 0, 0,
                                   round(rng.uniform(-.4, .4) * bu, 3), round(rng.uniform(-.2, .2) * bu, 3)], 'a': {}}
    length = round(rng.uniform(5, 40), 2)
    q = 1 / length
    cu, du = (0, 0) if rng.random() < .5 else (round(rng.uniform(-.1, .1) * q, 6), round(rng.uniform(-.05, .05) * q * q, 8))
    return {'o': 'poly', 'k': [0, 1, cu, du, 0, 0, round(rng.uniform(-.3, .3) * q, 6), round(rng.uniform(-.2, .2) * q * q, 8)],
            'a': {'prange': 'arcLength', 'length': length}}


def omit(rng, a, junction=-1):
    """arguments that are what they would be anyway may be left out"""
    for k, v in (('left_lanes', 1), ('right_lanes', 1), ('n_lanes', 1), ('junction', junction)):
        if k in a and a[k] == v and rng.random() < .5:
            del a[k]
    return a


def sibling(rng, p):
    """a piece that differs from p in one number, often by very little"""
    p = copy.deepcopy(p)
    f = rng.choice([1 + 1e-12, 1 + 1e-7, 1 + 1e-5, 1 + 1e-4, 1.01, 1.5, 2])
    c = [(p, 'l')] if p['o'] == 'line' else [(p, 'c')] if p['o'] == 'arc' else [(p['k'], 6), (p['k'], 7)] if p['o'] == 'poly' else []
    c += [(p['a'], k) for k in ('length', 'angle', 'cdot') if k in p.get('a', {})]
    if p['o'] == 'spiral' and 'cdot' not in p['a'] and abs(p['c0'] - p['c1']) > 1e-4:
        c += [(p, 'c0'), (p, 'c1')]
        f = min(f, 1.01)
    d, k = rng.choice(c)
    d[k] = d[k] * f
    return p


def mark(rng, x):
    a = {}
    if rng.random() < 0.45:
        while True:                      # at least one of them says that there are lines
            full = rng.random() < .4
            a = {}
            for k, lo, hi in (('width', 1, 2), ('length', 1, 9), ('space', 1, 9), ('toffset', -1, 2)):
                if full or rng.random() < .5:
                    a[k] = val(rng, lo, hi)
            if full or rng.random() < .5:
                a['rule'] = rng.choice(['no_passing', 'caution', 'none'])
            if any(a.get(k) for k in ('length', 'space', 'toffset', 'rule')):
                break
    elif rng.random() < 0.6:
        a['width'] = val(rng, 1, 2)
    if rng.random() < .3:
        a['soffset'] = val(rng, 1, 5)
    if rng.random() < .3:
        a['color'] = rng.choice(COLORS)
    if rng.random() < .2:
        a['marking_weight'] = rng.choice(['standard', 'bold'])
    if rng.random() < .2:
        a['laneChange'] = rng.choice(['increase', 'decrease', 'both', 'none'])
    if rng.random() < .2:
        a['height'] = val(rng, 1, 2)
    return {'o': 'mark', 'x': x, 't': rng.choice(MARKS), 'a': a}


def lane(rng, x, rich=False):
    a = {'a': val(rng, 1, 5) if rich else num(rng, 1, 5)}
    if rich:
        for k in 'bcd':
            if rng.random() < .2:
                a[k] = val(rng, -1, 1)
        if rng.random() < .2:
            a['soffset'] = val(rng, 1, 9)
    if rng.random() < .3:
        a['lane_type'] = rng.choice(LANE_TYPES) if rng.random() < .7 else 'none'
    return {'o': 'lane', 'x': x, 'a': a}


def obj(rng, x, ids=False):
    a = {}
    m = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    if m == 1:
        a['width'], a['length'] = val(rng, 1, 4), val(rng, 1, 9)
    elif m == 2:
        a['radius'] = val(rng, 1, 4)
    elif m == 5:                        # the radius prevails
        a['radius'] = val(rng, 1, 4)
        for k in rng.choice([('width',), ('length',), ('width', 'length')]):
            a[k] = val(rng, 1, 4)
    elif m == 3:
        a['width'] = val(rng, 1, 4)
    elif m == 4:
        a['length'] = val(rng, 1, 9)
    if rng.random() < .5:
        a['height'] = val(rng, 1, 4)
    if rng.random() < .4:
        a['zOffset'] = val(rng, -1, 3)
    if rng.random() < .5:
        a['Type'] = rng.choice(OBJECTS)
    if rng.random() < .3:
        a['name'] = rng.choice(TEXT + [''])
    if rng.random() < .3:
        a['subtype'] = rng.choice(TEXT + [''])
    if rng.random() < .3:
        a['dynamic'] = rng.choice(['yes', 'no'])
    if rng.random() < .3:
        a['orientation'] = rng.choice(['positive', 'negative', 'none'])
    if rng.random() < .2:
        a['pitch'] = val(rng, 1, 3)
    if rng.random() < .2:
        a['roll'] = val(rng, 1, 3)
    if rng.random() < .2:
        a['hdg'] = round(rng.uniform(-3, 3), 3)
    if rng.random() < .2:
        a['validLength'] = val(rng, 1, 9)
    if ids:
        a['id'] = some_id(rng)
    return {'o': 'obj', 'x': x, 's': num(rng, 0, 50), 't': num(rng, -9, 9), 'a': a}


def big(rng, ops, p):
    """one very long text (returns its length)"""
    c = [op for op in ops if op['o'] in ('road', 'obj', 'sig') and 'a' in op]
    if rng.random() >= p or not c:
        return 0
    t = rng.choice([x for x in TEXT if len(x) > 1])
    n = rng.choice([9000, 66000, 66001, 66002, 100000])
    t += 'x' * rng.choice([60, 90, 97])
    rng.choice(c)['a']['name'] = (t * (n // len(t) + 1))[:n].strip() + '.'
    return n


def sig(rng, x, ids=False):
    a = {}
    if rng.random() < .3:
        a['name'] = rng.choice(TEXT + [''])
    if rng.random() < .3:
        a['subtype'] = rng.choice(TEXT + [''])
    if rng.random() < .3:
        a['dynamic'] = rng.choice(['yes', 'no'])
    if rng.random() < .3:
        a['orientation'] = rng.choice(['positive', 'negative', 'none'])
    if rng.random() < .3:
        a['value'], a['unit'] = val(rng, 1, 99), rng.choice(['km/h', 'm/s'])
    if rng.random() < .3:
        a['zOffset'] = val(rng, 1, 4)
    if rng.random() < .2:
        a['hOffset'] = val(rng, 1, 3)
    if rng.random() < .2:
        a['pitch'] = val(rng, 1, 3)
    if rng.random() < .2:
        a['roll'] = val(rng, 1, 3)
    if rng.random() < .3:
        a['width'], a['height'] = val(rng, 1, 4), num(rng, 1, 4)
    if ids:
        a['id'] = some_id(rng)
    return {'o': 'sig', 'x': x, 's': num(rng, 0, 50), 't': num(rng, -9, 9), 'c': rng.choice(['se', 'DE', 'opendrive']),
            'ty': rng.choice(['274', '1000001', 'c1']), 'a': a}


def some_id(rng):
    n = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7])
    if rng.random() < .2:                   # different ids that look alike
        return rng.choice([' %d' % n, '%d ' % n, '0%d' % n, '%d.0' % n, float(n), -n, 'K%d' % n, 'k%d ' % n, 10 ** 20 + n])
    return rng.choice([n, str(n), 'k%d' % n])


def repeat(rng, x):
    a = {}
    for k in ('sStart', 'tStart', 'tEnd', 'heightStart', 'heightEnd', 'zOffsetStart', 'zOffsetEnd', 'widthStart', 'widthEnd',
              'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd'):
        if rng.random() < .25:
            a[k] = val(rng, 1, 20)
    return {'o': 'repeat', 'x': x, 'l': num(rng, 1, 90), 'd': num(rng, 0, 9), 'a': a}


# ---------------------------------------------------------------------- networks
class Net:
    """abstract network: roads with contacts, joints, connecting roads, lane counts"""
    def __init__(self):
        self.roads = []          # dict(id, conn(None or junction idx), secs, fixed, ...)
        self.junctions = []      # dict(id, met roads, connecting)
        self.direct = []         # (i, ci, j, cj)
        self.direct_offsets = 0


def other(c):
    return 'end' if c == 'start' else 'start'


SCALE = 1       # of the sizes of programs, see worker.py


def upto(rng, a, b):
    return rng.randint(a, b * SCALE if b > a else b)


def network(rng, n=(2, 6), junction=0.4, extra=0.0, sections=(1, 3), fixed=0.3, offsets=0.3, lanes=(0, 2), ring=0.0, island=0.0,
            uturn=0.0, strids=0.3, jid_clash=0.5, multifixed=0.0, direct_kind=None, chain=0.0, bare=0.0):
    net = Net()
    net.direct_offsets = rng.choice([0, 0, offsets])
    ids = list(range(0, 60 * SCALE))
    if rng.random() < .06:
        far = rng.choice([200, 990, 10 ** 6, 2 ** 31 - 9, 10 ** 12])
        ids = [far + v for v in ids]
    rng.shuffle(ids)

    def new_id():
        v = ids.pop()
        return 'r%d' % v if rng.random() < strids * .3 else (str(v) if rng.random() < strids else v)

    def new_road(conn=None):
        net.roads.append({'id': new_id(), 'conn': conn, 'links': {}, 'fixed': None, 'comp': None})
        return len(net.roads) - 1
    target = upto(rng, *n)
    if lanes[1] > 1 and rng.random() < .12:
        lanes = (lanes[0], lanes[1] + rng.randint(1, 3))
    if sections[1] > 2 and rng.random() < .08:
        sections = (sections[0], sections[1] + 2)
    wide = rng.random()
    if wide < .012 and lanes[1] > 1:
        lanes = (lanes[0], 12)
    elif wide < .022 and sections[1] > 1:
        sections = (sections[0], 13)
    free = []

    def component(size, comp):
        r = new_road()
        net.roads[r]['comp'] = comp
        mine = [(r, 'start'), (r, 'end')]
        k = 1
        while k < size and mine:
            i, c = mine.pop(rng.randrange(len(mine)))
            if rng.random() < junction:
                j = len(net.junctions)
                jn = {'id': None, 'met': [(i, c)], 'cr': [], 'i': j}
                net.junctions.append(jn)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    b = new_road()
                    net.roads[b]['comp'] = comp
                    cb = rng.choice(['start', 'end'])
                    jn['met'].append((b, cb))
                    mine.append((b, other(cb)))
                    connecting(jn, (i, c), (b, cb), comp)
                    k += 1
                if len(jn['met']) > 2 and rng.random() < extra:
                    a, b = rng.sample(jn['met'][1:], 2)
                    connecting(jn, a, b, comp)
                if rng.random() < uturn:
                    a = rng.choice(jn['met'])
                    connecting(jn, a, a, comp)
                    net.cyc = True
            else:
                b = new_road()
                net.roads[b]['comp'] = comp
                cb = rng.choice(direct_kind or ['start', 'start', 'start', 'end']) if c == 'end' else rng.choice(direct_kind or ['end', 'end', 'end', 'start'])
                if direct_kind == 'consecutive':
                    cb = other(c)
                net.direct.append((i, c, b, cb))
                mine.append((b, other(cb)))
                k += 1
        if rng.random() < ring and len(mine) >= 2:
            a, b = rng.sample(mine, 2)
            if a[0] != b[0]:
                mine.remove(a)
                mine.remove(b)
                net.direct.append((a[0], a[1], b[0], b[1]))
        free.extend(mine)

    def connecting(jn, a, b, comp):
        if rng.random() < .5:
            a, b = b, a
        c = new_road(jn['i'])
        net.roads[c]['comp'] = comp
        off = [0, 0]
        for q in (0, 1):
            if rng.random() < offsets:
                off[q] = rng.choice([-3, -2, -1, 1, 2, 3])
        net.roads[c]['ends'] = (a, b, off)
        jn['cr'].append(c)
        if rng.random() < chain:            # a connection through the junction made of two connecting roads
            d = new_road(jn['i'])
            net.roads[d]['comp'] = comp
            q, at = rng.randrange(2), rng.choice(['start', 'end'])
            far = (a, b)[q]
            ends = [a, b]
            ends[q] = (d, at)
            net.roads[c]['ends'] = (ends[0], ends[1], [0 if z == q else off[z] for z in (0, 1)])
            back = (c, ('start', 'end')[q])
            o = [0, 0]
            o[at == 'start'] = off[q]
            net.roads[d]['ends'] = (back, far, o) if at == 'start' else (far, back, o)
            jn['cr'].append(d)

    comps = 1 + (1 if rng.random() < island else 0)
    for comp in range(comps):
        component(max(1, target // comps), comp)
    # ids of junctions
    rid = [r['id'] for r in net.roads]
    used = set()
    for j in net.junctions:
        while True:
            v = rng.choice(rid) if rng.random() < jid_clash else rng.randint(0, 99)
            if str(v) not in used:
                break
        used.add(str(v))
        j['id'] = v
    # fixed starts
    for comp in range(comps):
        mem = [i for i, r in enumerate(net.roads) if r['comp'] == comp]
        if rng.random() < fixed or (comp > 0 and rng.random() < .6) or (comps > 1 and comp == 0 and rng.random() < .5):
            for i in rng.sample(mem, min(len(mem), 1 + (rng.random() < multifixed))):
                net.roads[i]['fixed'] = pose(rng)
    if rng.random() < bare:             # roads that do not name the junction themselves, placed from their other side
        for comp in range(comps):
            net.roads[[i for i, r in enumerate(net.roads) if r['comp'] == comp][0]]['fixed'] = pose(rng)
        for j in net.junctions:
            if rng.random() < .7:
                j['bare'] = True
    for j in net.junctions:
        if rng.random() < bare * .7:
            j['named'] = True
    # lane counts: one slot per section, touching sections of consecutive roads share their counts
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for i, r in enumerate(net.roads):
        r['nsec'] = rng.randint(*sections) if rng.random() < .6 else 1
    for i, c, j, cj in net.direct:
        if c == cj:
            continue
        if c == 'start':
            i, c, j, cj = j, cj, i, c
        par[find((i, net.roads[i]['nsec'] - 1))] = find((j, 0))
    cnt = {}
    for i, r in enumerate(net.roads):
        r['secs'] = []
        for q in range(r['nsec']):
            f = find((i, q))
            if f not in cnt:
                if rng.random() < .5:
                    v = rng.randint(max(1, lanes[0]), lanes[1])
                    cnt[f] = (v, v)
                else:
                    cnt[f] = (rng.randint(*lanes), rng.randint(*lanes))
            r['secs'].append(list(cnt[f]))
    return net


def linkid(rng, v):
    """ids are compared by value, written as number or text"""
    if isinstance(v, int) and rng.random() < .15:
        return str(v)
    if isinstance(v, str) and v.isdigit() and rng.random() < .15:
        return int(v)
    return v


def links_of(rng, net):
    """per road: list of link operations; direct joints as pairs"""
    own = {i: [] for i in range(len(net.roads))}
    pairs = []
    R = net.roads

    def w(c):
        return 'succ' if c == 'end' else 'pred'
    for i, c, j, cj in net.direct:
        a = {'o': w(c), 'x': 'r%d' % i, 't': 'road', 'id': linkid(rng, R[j]['id']), 'c': cj}
        b = {'o': w(cj), 'x': 'r%d' % j, 't': 'road', 'id': linkid(rng, R[i]['id']), 'c': c}
        if rng.random() < net.direct_offsets:
            # declared on both roads
            a['off'] = rng.choice([-3, -2, -1, 1, 2, 3])
            b['off'] = -a['off'] if c != cj else a['off']
        pairs.append((i, a, j, b))
    for jn in net.junctions:
        for q, (i, c) in enumerate(jn['met']):
            if q == 0 and jn.get('bare'):
                continue
            # a road can name a connecting road itself
            mine = [(k, ('start', 'end')[z]) for k in jn['cr'] for z in (0, 1) if R[k]['ends'][z] == (i, c) and not R[k]['ends'][2][z]]
            if jn.get('named') and mine and rng.random() < .7:
                k, ck = rng.choice(mine)
                own[i].append({'o': w(c), 'x': 'r%d' % i, 't': 'road', 'id': linkid(rng, R[k]['id']), 'c': ck})
                continue
            own[i].append({'o': w(c), 'x': 'r%d' % i, 't': 'junction', 'id': linkid(rng, jn['id'])})
        for k in jn['cr']:
            (a, ca), (b, cb), off = R[k]['ends']
            p = {'o': 'pred', 'x': 'r%d' % k, 't': 'road', 'id': linkid(rng, R[a]['id']), 'c': ca}
            q = {'o': 'succ', 'x': 'r%d' % k, 't': 'road', 'id': linkid(rng, R[b]['id']), 'c': cb}
            if off[0]:
                p['off'] = off[0]
            if off[1]:
                q['off'] = off[1]
            own[k] += [p, q]
    for v in own.values():
        rng.shuffle(v)
    return own, pairs


def road_ops(rng, net, i, kinds='llaassp', npieces=(1, 3), rich=False, styles=True, names=False, linkers=0.0, marks=True, shared=(), smarks=()):
    """operations that create road i (as one client does it)"""
    r = net.roads[i]
    x = 'r%d' % i
    ops = []
    rtype = -1 if r['conn'] is None else net.junctions[r['conn']]['id']
    style = 'manual'
    if styles and r['nsec'] == 1 and r['fixed'] is None and rng.random() < .5:
        l, rr = r['secs'][0]
        if l == rr and l >= 1 and rng.random() < .5:
            style = rng.choice(['straight', 'cac'])
        else:
            style = 'create_road'
    r['style'] = style
    if style == 'straight':
        a = {'length': num(rng, 1, 120), 'n_lanes': r['secs'][0][0], 'junction': rtype}
        if rng.random() < .4:
            a['lane_offset'] = num(rng, 2, 4)
        return [{'o': 'straight', 'x': x, 'id': r['id'], 'a': omit(rng, a)}]
    if style == 'cac':
        sg = rng.choice([-1, 1])
        k = round(rng.uniform(.02, .15), 4)
        aa, ca = round(rng.uniform(.1, .9), 3), round(rng.uniform(.1, .9), 3)
        a = {'n_lanes': r['secs'][0][0], 'junction': rtype}
        if rng.random() < .4:
            a['lane_offset'] = num(rng, 2, 4)
        return [{'o': 'cac', 'x': x, 'id': r['id'], 'k': k, 'aa': sg * aa, 'ca': sg * ca, 'a': omit(rng, a, 1)}]
    gs = []
    for q in range((rng.randint(*npieces) if rng.random() < .9 else upto(rng, *npieces)) + (rng.randint(2, 5) if npieces[1] > 1 and rng.random() < .1 else 0)):
        if shared and rng.random() < .5:
            gs.append(rng.choice(shared))
            continue
        if gs and rng.random() < .15:        # a piece may be used again, also twice in a row
            v = gs[-1] if rng.random() < .5 else rng.choice(gs)
            if rng.random() < .3 and 'a' in kinds:       # at nearly the same heading
                ops.append(dict(tiny(rng), x='g%d_%dt' % (i, q)))
                gs.append(ops[-1]['x'])
            gs.append(v)
            continue
        p = piece(rng, kinds)
        p['x'] = 'g%d_%d' % (i, q)
        ops.append(p)
        gs.append(p['x'])
    if style == 'create_road':
        l, rr = r['secs'][0]
        a = {'left_lanes': l, 'right_lanes': rr}
        if rtype != -1:
            a['road_type'] = rtype
        if rng.random() < .4:
            a['lane_width'] = num(rng, 2, 4)
        a = omit(rng, a)
        g = gs if len(gs) > 1 or rng.random() < .5 else gs[0]
        if isinstance(g, list) and rng.random() < .3:
            ops.append({'o': 'mklist', 'x': 'G%d' % i, 'v': g})
            ops.append({'o': 'create_road', 'x': x, 'id': r['id'], 'g': 'G%d' % i, 'a': a})
            ops += [{'o': 'push', 'x': 'G%d' % i, 'v': rng.choice(gs)}] if rng.random() < .5 else [{'o': 'clear', 'x': 'G%d' % i}]
            return ops
        ops.append({'o': 'create_road', 'x': x, 'id': r['id'], 'g': g, 'a': a})
        return ops
    ops.append({'o': 'pv', 'x': 'p%d' % i, 'a': list(r['fixed']) if r['fixed'] else []})
    for g in gs:
        ops.append({'o': 'geom', 'x': 'p%d' % i, 'g': g})
    ops.append({'o': 'lanes', 'x': 'L%d' % i})
    mk = list(smarks)
    if marks and rng.random() < .7:
        m = mark(rng, 'm%d' % i)
        ops.append(m)
        mk.append(m['x'])
    prev = None
    odd = rng.random()
    s0 = round(rng.uniform(1, 9), 2) if odd < .04 else 0
    lk = []
    for q, (nl, nr) in enumerate(r['secs']):
        c = 'c%d_%d' % (i, q)
        ops.append(lane(rng, c, rich))
        sec = 's%d_%d' % (i, q)
        ops.append({'o': 'section', 'x': sec, 's': s0, 'c': c})
        if not .08 < odd < .11:
            s0 = round(rng.uniform(0, 40), 2) if .04 < odd < .08 else round(s0 + rng.uniform(3, 20), 2)
        todo = [('left', 'l%d_%d_%d' % (i, q, t)) for t in range(nl)] + [('right', 'q%d_%d_%d' % (i, q, t)) for t in range(nr)]
        ol = [t for t in todo if t[0] == 'left']
        orr = [t for t in todo if t[0] == 'right']
        seq = []
        while ol or orr:
            seq.append((ol if ol and (not orr or rng.random() < .5) else orr).pop(0))
        mine = []
        for k, ln in seq:
            ops.append(lane(rng, ln, rich))
            mk2 = list(mk)
            if mk2 and rng.random() < .5:
                ops.append({'o': 'lane_mark', 'x': ln, 'm': rng.choice(mk2)})
            ops.append({'o': k, 'x': sec, 'l': ln})
            mine.append((k, ln))
        if prev and linkers and rng.random() < linkers:
            kn = 'k%d_%d' % (i, q)
            ops.append({'o': 'linker', 'x': kn})
            for k in ('left', 'right'):
                a = [n for t, n in prev if t == k]
                b = [n for t, n in mine if t == k]
                for u, v in zip(a, b):
                    ops.append({'o': 'link', 'x': kn, 'a': u, 'b': v})
            lk.append(kn)
        prev = mine
        d = {'o': 'addsec', 'x': 'L%d' % i, 's': sec}
        if lk and rng.random() < .8:
            ks = lk if rng.random() < .5 else [lk[-1]]
            d['k'] = list(ks) if len(ks) > 1 or rng.random() < .4 else ks[0]
            if rng.random() < .3:       # the client keeps its list of linkers and goes on using it
                ls = 'K%d' % i
                if not any(op['o'] == 'mklist' and op['x'] == ls for op in ops):
                    ops.append({'o': 'mklist', 'x': ls, 'v': list(ks)})
                else:
                    ops += [{'o': 'push', 'x': ls, 'v': n} for n in ks if rng.random() < .7]
                d['k'] = ls
        ops.append(d)
    a = {}
    if rtype != -1:
        a['road_type'] = rtype
    if names and rng.random() < .6:
        a['name'] = rng.choice(TEXT + [''])
    if names and rng.random() < .3:
        a['rule'] = rng.choice(['LHT', 'RHT', ''])
    ops.append({'o': 'road', 'x': x, 'id': r['id'], 'p': 'p%d' % i, 'l': 'L%d' % i, 'a': a})
    return ops


def defines(op):
    return op.get('x') if op['o'] in ('line', 'arc', 'spiral', 'poly', 'pv', 'mark', 'lane', 'section', 'lanes', 'linker', 'road', 'odr', 'junction',
                                      'conn', 'obj', 'sig', 'create_road', 'straight', 'cac', 'mkjunction', 'mklist') else None


def merge(rng, seqs, env=()):
    """random interleaving of the clients' sequences (of blocks) that respects what the names need"""
    have = set(env)
    seqs = [[b if isinstance(b, list) else [b] for b in sq] for sq in seqs if sq]
    out = []
    burst = rng.choice([0, .5, .9])
    cur = None
    while seqs:
        ready = []
        for sq in seqs:
            local = set()
            ok = True
            for op in sq[0]:
                if any(n not in have and n not in local for n in api.refs(op)):
                    ok = False
                    break
                if defines(op):
                    local.add(defines(op))
            if ok:
                ready.append(sq)
        if not ready:
            raise RuntimeError('nothing ready: %r' % [sq[0] for sq in seqs][:4])
        if cur is None or not any(cur is sq for sq in ready) or rng.random() > burst:
            cur = rng.choice(ready)
        for op in cur.pop(0):
            out.append(op)
            if defines(op):
                have.add(defines(op))
        seqs = [sq for sq in seqs if sq]
    return out


def attach(rng, i, n, o, ls, xs):
    """add the elements to roads: one by one, as lists, or through a list the client keeps and goes on using"""
    xs = list(xs)
    out = []
    if rng.random() < .3:
        k = rng.randint(0, len(xs) - 1)
        out += [{'o': 'mklist', 'x': ls, 'v': xs[:k]}, {'o': o, 'x': 'r%d' % i, 'b': ls}]
        xs = xs[k:]
        while xs:
            if rng.random() < .7 or k:
                out.append({'o': 'clear', 'x': ls})
            k = rng.randint(1, len(xs))
            out += [{'o': 'push', 'x': ls, 'v': x} for x in xs[:k]]
            out.append({'o': o, 'x': 'r%d' % (i if rng.random() < .5 else rng.randrange(n)), 'b': ls})
            xs = xs[k:]
        if rng.random() < .5:
            out.append({'o': 'clear', 'x': ls})
        return out
    while xs:
        k = rng.randint(1, len(xs))
        out.append({'o': o, 'x': 'r%d' % i, 'b': xs[:k] if k > 1 or rng.random() < .3 else xs[0]})
        xs = xs[k:]
    return out


def build(rng, net, odr='D', late_links=0.0, objects=0.0, signals=0.0, ids=False, neighbours=0.0, names=False, order=None, **kw):
    """operations that build the network: (list of ops)"""
    own, pairs = links_of(rng, net)
    seqs = []
    late = []
    add = {}
    for i in range(len(net.roads)):
        sq = road_ops(rng, net, i, names=names, **kw)
        tail = list(own[i])
        if neighbours and rng.random() < neighbours:
            for _ in range(rng.choice([1, 2])):
                tail.append({'o': 'neigh', 'x': 'r%d' % i, 't': 'road', 'id': rng.choice(net.roads)['id'], 'd': rng.choice(['same', 'opposite'])})
        rng.shuffle(tail)
        seqs.append([sq, tail])
    for i, a, j, b in pairs:
        if rng.random() < late_links:
            blk = [a, b]
            rng.shuffle(blk)
            late.append(blk)
        else:
            for q, op in ((i, a), (j, b)):
                t = seqs[q][1]
                t.insert(rng.randint(0, len(t)), op)
    clients = []
    for i, (sq, tail) in enumerate(seqs):
        add = {'o': 'add_road', 'x': odr, 'r': 'r%d' % i}
        clients.append(sq + tail + [add])
    for i in range(len(net.roads)):
        cl = []
        if rng.random() < objects:
            for q in range(rng.randint(1, 3)):
                x = 'o%d_%d' % (i, q)
                cl.append(obj(rng, x, ids))
                if rng.random() < .4:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        cl.append(repeat(rng, x))
            xs = [op['x'] for op in cl if op['o'] == 'obj']
            cl += attach(rng, i, len(net.roads), 'add_obj', 'Q%d' % i, xs)
        if rng.random() < signals:
            xs = []
            for q in range(rng.randint(1, 3)):
                cl.append(sig(rng, 'z%d_%d' % (i, q), ids))
                xs.append('z%d_%d' % (i, q))
            cl += attach(rng, i, len(net.roads), 'add_sig', 'S%d' % i, xs)
        if cl:
            clients.append(cl)
    for blk in late:
        clients.append([blk])
    clients.append([{'o': 'odr', 'x': odr, 'n': rng.choice(TEXT)}])
    return clients


def manual_junction(rng, net, q, odr='D', add=True):
    """a junction built by hand, with explicit and automatic connection ids"""
    x = 'J%d' % q
    jid = net.junctions[q]['id'] if q < len(net.junctions) else rng.randint(0, 99)
    ops = [{'o': 'junction', 'x': x, 'n': rng.choice(TEXT), 'id': jid}]
    taken = set()
    nauto = 0
    for t in range(rng.randint(0, 5) if rng.random() < .9 else rng.randint(9, 14)):
        c = 'n%d_%d' % (q, t)
        op = {'o': 'conn', 'x': c, 'in': rng.choice(net.roads)['id'], 'cr': rng.choice(net.roads)['id'], 'c': rng.choice(['start', 'end'])}
        if rng.random() < .5:
            v = rng.randint(0, 6)
            op['id'] = rng.choice([v, v, str(v)])
        ops.append(op)
        for _ in range(rng.randint(0, 3)):
            ops.append({'o': 'lanelink', 'x': c, 'a': rng.randint(-3, 3), 'b': rng.randint(-3, 3)})
        ops.append({'o': 'addconn', 'x': x, 'c': c})
    if add:
        ops.append({'o': 'add_junction', 'x': odr, 'j': x})
    # explicit numbers must be free when they are added: simulate the documented numbering
    taken, n = set(), 0
    ids = {op['x']: op.get('id') for op in ops if op['o'] == 'conn'}
    for op in [o for o in ops if o['o'] == 'addconn']:
        v = ids[op['c']]
        if v is None:
            # any automatic numbering scheme is allowed: later explicit numbers keep clear of small ones
            n += 1
        else:
            if str(v) in taken or n:
                # move explicit ids that come after automatic ones out of reach
                co = [o for o in ops if o['o'] == 'conn' and o['x'] == op['c']][0]
                v = 1000 + len(taken)
                co['id'] = v
            taken.add(str(v))
    return ops


def long_chain(rng, n, odr='D', turns=.3, forward=False):
    """many roads in a row, added in an order that may be as unfavourable as it gets"""
    R = []
    ids = list(range(n))
    if rng.random() < .5:
        rng.shuffle(ids)
    make, add = [], []
    flip = [rng.random() < turns for _ in range(n)]
    conn = set()
    q = 1
    while q < n - 1:                      # some of them are connecting roads
        if rng.random() < .1 and q - 1 not in conn:
            conn.add(q)
        q += 1
    jid = {q: n + 10 + k for k, q in enumerate(sorted(conn))}
    root = rng.randrange(n)
    fixed = rng.random() < .4 and not forward
    for i in range(n):
        x = 'r%d' % i
        if i == root and fixed and i not in conn:
            make += [{'o': 'line', 'x': 'g%d' % i, 'l': 10}, {'o': 'pv', 'x': 'p%d' % i, 'a': pose(rng)}, {'o': 'geom', 'x': 'p%d' % i, 'g': 'g%d' % i},
                     {'o': 'lane', 'x': 'c%d' % i, 'a': {}}, {'o': 'lane', 'x': 'a%d' % i, 'a': {'a': 3}}, {'o': 'lane', 'x': 'b%d' % i, 'a': {'a': 3}},
                     {'o': 'section', 'x': 's%d' % i, 's': 0, 'c': 'c%d' % i}, {'o': 'left', 'x': 's%d' % i, 'l': 'a%d' % i}, {'o': 'right', 'x': 's%d' % i, 'l': 'b%d' % i},
                     {'o': 'lanes', 'x': 'L%d' % i}, {'o': 'addsec', 'x': 'L%d' % i, 's': 's%d' % i},
                     {'o': 'road', 'x': x, 'id': ids[i], 'p': 'p%d' % i, 'l': 'L%d' % i, 'a': {}}]
        else:
            make.append({'o': 'straight', 'x': x, 'id': ids[i], 'a': {'length': rng.randint(5, 20), 'junction': jid.get(i, -1)}})
        add.append({'o': 'add_road', 'x': odr, 'r': x})
    for i in range(n - 1):
        a, b = i, i + 1
        ca, cb = ('start', 'end')[not flip[a]], ('start', 'end')[flip[b]]
        for u, cu, v, cv in ((a, ca, b, cb), (b, cb, a, ca)):
            w = 'succ' if cu == 'end' else 'pred'
            if v in conn:
                make.append({'o': w, 'x': 'r%d' % u, 't': 'junction', 'id': jid[v]})
            else:
                make.append({'o': w, 'x': 'r%d' % u, 't': 'road', 'id': ids[v], 'c': cv})
    order = 'forward' if forward else rng.choice(['forward', 'backward', 'root, backward', 'shuffled', 'odd and even'])
    ks = list(range(n))
    if order == 'backward':
        ks.reverse()
    elif order == 'root, backward':
        ks = [0] + ks[:0:-1]
    elif order == 'shuffled':
        rng.shuffle(ks)
    elif order == 'odd and even':
        ks = ks[::2] + ks[1::2][::-1]
    return [{'o': 'odr', 'x': odr, 'n': 'long'}] + make + [add[k] for k in ks]


ANGLES = [[0, math.pi / 2, 3 * math.pi / 2], [0, 2 * math.pi / 3, 4 * math.pi / 3], [0, math.pi / 2, math.pi, 3 * math.pi / 2], [0, math.pi]]


def crossing(rng, q=0, odr='D', **kw):
    """a generated 3- or 4-way crossing: (ops that build everything but the document, names of all roads, junction op list)"""
    ang = rng.choice(ANGLES)
    net = Net()
    n = rng.randint(1, 3)
    for i in range(len(ang)):
        ns = rng.choice([1, 1, 2, 3])
        secs = [[rng.randint(1, 3), rng.randint(1, 3)] for _ in range(ns)]
        secs[-1 if i == 0 else 0] = [n, n]
        net.roads.append({'id': 10 * q + i + 1, 'conn': None, 'links': {}, 'fixed': pose(rng) if i == 0 and rng.random() < .3 else None, 'comp': 0, 'nsec': ns, 'secs': secs})
    seqs = [rename_road(road_ops(rng, net, i, npieces=(1, 2), **kw), q) for i in range(len(ang))]
    jid = rng.choice([500 + q, 500 + q, 10 * q + 1])
    names = ['x%dr%d' % (q, i) for i in range(len(ang))]
    outs = ['x%dc%d' % (q, k) for k in range(len(ang) * (len(ang) - 1) // 2)]
    jr = {'o': 'jroads', 'x': '-', 'rs': names, 'ang': ang, 'r': rng.choice([5, 10, 20]), 'id': jid, 'start': 100 + 20 * q, 'out': outs}
    if q == 0 and rng.random() < .3:        # the documented defaults
        del jr['start']
    rs = list(names)
    rng.shuffle(rs)
    cr = list(outs)
    if rng.random() < .5:
        rng.shuffle(cr)
    mk = [{'o': 'mkjunction', 'x': 'x%dJ' % q, 'cr': cr, 'id': jid, 'rs': rs}, {'o': 'add_junction', 'x': odr, 'j': 'x%dJ' % q}]
    adds = names + outs
    rng.shuffle(adds)
    ops = merge(rng, seqs) + [jr]
    tail = [[{'o': 'add_road', 'x': odr, 'r': n} for n in adds], mk, ]
    ops += [{'o': 'odr', 'x': odr, 'n': 'crossing'}] + merge(rng, tail, {odr} | set(adds))
    return ops, adds


def rename_road(ops, q):
    """names of the roads of crossing q"""
    out = []
    for op in ops:
        op = dict(op)
        for k, v in list(op.items()):
            if isinstance(v, str) and k in ('x', 'g', 'm', 'p', 'l', 'c', 's', 'k', 'a', 'b', 'v') and not (k == 'c' and op['o'] in ('succ', 'pred', 'conn')):
                op[k] = 'x%d%s' % (q, v)
            elif isinstance(v, list) and k in ('g', 'k', 'v') and op['o'] != 'poly':
                op[k] = ['x%d%s' % (q, n) for n in v]
        out.append(op)
    return out
