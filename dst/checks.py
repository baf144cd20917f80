"""Oracles over an emitted document (parsed tree) and the reference model."""
import collections
import math

import model as M
import refgeo
import sim


class Violation(Exception):
    def __init__(self, kind, msg):
        if sim._scratch:            # its name differs from process to process
            msg = msg.replace(sim._scratch, '<scratch>')
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


def fail(kind, msg, *a):
    raise Violation(kind, msg % a if a else msg)


def kids(n, tag):
    return [c for c in n[2] if c[0] == tag]


def kid(n, tag):
    k = kids(n, tag)
    if len(k) != 1:
        fail('shape', '%d <%s> in <%s>', len(k), tag, n[0])
    return k[0]


def fl(n, a):
    try:
        v = float(n[1][a])
    except (KeyError, ValueError):
        fail('number', '<%s> has %s=%r', n[0], a, n[1].get(a))
    if not math.isfinite(v):
        fail('finite', '<%s> has %s=%r', n[0], a, n[1].get(a))
    return v


def roads(mod, odr, tree):
    """[(model road, emitted road)]"""
    rs = kids(tree, 'road')
    ms = mod.o[odr]['roads']
    if len(rs) != len(ms):
        fail('roads', '%d roads in the document, %d were added', len(rs), len(ms))
    by = {}
    for r in rs:
        by.setdefault(r[1].get('id'), []).append(r)
    out = []
    for m in ms:
        c = by.get(str(m['id']), [])
        if len(c) != 1:
            fail('roads', 'road %r is %d times in the document', m['id'], len(c))
        out.append((m, c[0]))
    return out


def geoms(r):
    return kids(kid(r, 'planView'), 'geometry')


def near(p, q):
    tol = 1e-6 + 1e-12 * max(abs(q[0]), abs(q[1]))      # the library and the reference agree to 1e-9
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol and abs(refgeo.angdiff(p[2], q[2])) <= 1e-7


def poses(m, r):
    """(start, end) pose of an emitted road, recomputed from its geometry elements"""
    gs = geoms(r)
    pieces = m['pv']['g']
    if not gs:
        fail('placed', 'road %r has no geometry', m['id'])
    if len(gs) != len(pieces):
        fail('pieces', 'road %r has %d geometries, %d were added', m['id'], len(gs), len(pieces))
    st = (fl(gs[0], 'x'), fl(gs[0], 'y'), fl(gs[0], 'hdg'))
    last = (fl(gs[-1], 'x'), fl(gs[-1], 'y'), fl(gs[-1], 'hdg'))
    return st, refgeo.move(last, refgeo.local_end(pieces[-1], fl(gs[-1], 'length')))


def layout(mod, odr, tree):
    """C01"""
    rr = roads(mod, odr, tree)
    pose = {}
    n = 0
    for m, r in rr:
        if not m['pv']['g']:
            continue
        st, en = poses(m, r)
        pose[id(m)] = {'start': st, 'end': en}
        if m['pv']['fixed']:
            f = m['pv']['fixed']
            if not (abs(st[0] - f[0]) < 1e-9 and abs(st[1] - f[1]) < 1e-9 and abs(refgeo.angdiff(st[2], f[2])) < 1e-9):
                fail('fixed', 'road %r starts at %r instead of %r', m['id'], st, f)
    for a, w, b, c, off, kind in mod.joints(mod.o[odr]):
        if id(a) not in pose or id(b) not in pose:
            continue
        p = pose[id(a)]['end' if w == 'succ' else 'start']
        q = pose[id(b)][c]
        # heading of a's travel direction at the joint, as b sees it
        same = (w == 'succ') == (c == 'start')
        h = q[2] if same else q[2] + math.pi
        want = (q[0] - 3 * off * math.sin(h), q[1] + 3 * off * math.cos(h), h)
        n += 1
        if not near(p, want):
            fail('joint', 'road %r %s does not meet road %r at its %s: %s instead of %s',
                 a['id'], 'end' if w == 'succ' else 'start', b['id'], c, fmt(p), fmt(want))
    return n


def fmt(p):
    return '(%s)' % ', '.join('%.6f' % v for v in p)


def chain(mod, odr, tree):
    """C02"""
    n = 0
    for m, r in roads(mod, odr, tree):
        if not m['pv']['adj']:
            continue
        gs = geoms(r)
        pieces = m['pv']['g']
        if len(gs) != len(pieces):
            fail('pieces', 'road %r has %d geometries, %d were added', m['id'], len(gs), len(pieces))
        s = 0.0
        pose = None
        for i, (g, p) in enumerate(zip(gs, pieces)):
            n += 1
            at = 'geometry %d of road %r' % (i, m['id'])
            if len(g[2]) != 1:
                fail('piece', '%s has %d shapes', at, len(g[2]))
            d = M.diff(mod.x_piece(p), g[2][0])
            if d:
                fail('piece', '%s: %s %s', at, d[0][0], d[0][1])
            gp = (fl(g, 'x'), fl(g, 'y'), fl(g, 'hdg'))
            ln = fl(g, 'length')
            want = refgeo.given_length(p)
            if want is not None and abs(ln - want) > 1e-9 * max(1, abs(want)):
                fail('length', '%s is %r long instead of %r', at, ln, want)
            if i == 0 and float(g[1]['s']) != 0:
                fail('s', '%s starts at s=%s', at, g[1]['s'])
            if abs(fl(g, 's') - s) > 1e-7 * max(1, s):
                fail('s', '%s starts at s=%s instead of %r', at, g[1]['s'], s)
            if m['pv'].get('h'):                # headings given by the user
                h = m['pv']['h'][i]
                pose = (gp if pose is None else pose)[:2] + (h,)
            if pose is not None and not near(gp, pose):
                fail('gap', '%s starts at %s, the previous piece ends at %s', at, fmt(gp), fmt(pose))
            pose = refgeo.move(gp, refgeo.local_end(p, ln))
            s += ln
        if abs(fl(r, 'length') - s) > 1e-7 * max(1, s):
            fail('road length', 'road %r is %s long, its pieces %r', m['id'], r[1]['length'], s)
        finite(r)
    return n


NUM = {'s', 'x', 'y', 'hdg', 'length', 'curvature', 'curvStart', 'curvEnd', 'aU', 'bU', 'cU', 'dU', 'aV', 'bV', 'cV', 'dV'}


def finite(n):
    if n[0] in ('geometry', 'line', 'arc', 'spiral', 'paramPoly3', 'road'):
        for k in n[1]:
            if k in NUM:
                fl(n, k)
    for c in n[2]:
        finite(c)


def sections(r):
    return kids(kid(r, 'lanes'), 'laneSection')


def lanes_of(sec):
    """[(side, lane element)]"""
    out = []
    for side in ('left', 'center', 'right'):
        for g in kids(sec, side):
            out += [(side, l) for l in kids(g, 'lane')]
    return out


def links_of(lane):
    return collections.Counter((x[0], x[1].get('id')) for l in kids(lane, 'link') for x in l[2])


def lane_links(mod, odr, tree, allowed=None):
    """C03 (and C14): the lane links of every lane, as a multiset"""
    n = 0
    for m, r in roads(mod, odr, tree):
        ss = sections(r)
        if len(ss) != len(m['lanes']['secs']):
            fail('sections', 'road %r has %d lane sections, %d were added', m['id'], len(ss), len(m['lanes']['secs']))
        for q, (sec, ms) in enumerate(zip(ss, m['lanes']['secs'])):
            ids = {}
            for side, l in lanes_of(sec):
                ids[(side, l[1].get('id'))] = l
            for side, mls in (('left', ms['left']), ('center', [ms['c']]), ('right', ms['right'])):
                for ml in mls:
                    l = ids.get((side, str(ml['id'])))
                    if l is None:
                        fail('lane', 'road %r section %d has no %s lane %s', m['id'], q, side, ml['id'])
                    want = collections.Counter(ml['links'])
                    have = links_of(l)
                    n += len(ml['auto']) + len(ml['links'])
                    if mod.o[odr]['linked'] is not False:
                        want.update(ml['auto'])
                        if want != have:
                            fail('lane links', 'road %r section %d lane %s is linked to %s instead of %s',
                                 m['id'], q, ml['id'], show(have), show(want))
                    else:
                        may = collections.Counter(want)
                        may.update(ml['auto'])
                        may.update(x for x in ml.get('allow', ()) if x not in may)
                        if want - have:
                            fail('lane links', 'road %r section %d lane %s lacks links %s', m['id'], q, ml['id'], show(want - have))
                        if have - may:
                            fail('lane links', 'road %r section %d lane %s has links %s after a reported mismatch',
                                 m['id'], q, ml['id'], show(have - may))
    return n


def show(c):
    return '{%s}' % ', '.join('%s %s%s' % (k[0], k[1], '' if v == 1 else ' x%d' % v) for k, v in sorted(c.items(), key=repr))


def lane_ids(mod, odr, tree):
    """C14: dense numbering in the order of addition (identified by the lane's own width values)"""
    n = 0
    for m, r in roads(mod, odr, tree):
        ss = sections(r)
        if len(ss) != len(m['lanes']['secs']):
            fail('sections', 'road %r has %d lane sections, %d were added', m['id'], len(ss), len(m['lanes']['secs']))
        for q, (sec, ms) in enumerate(zip(ss, m['lanes']['secs'])):
            have = [(side, l[1].get('id')) for side, l in lanes_of(sec)]
            want = [('left', str(i + 1)) for i in range(len(ms['left']))] + [('center', '0')] + \
                [('right', str(-1 - i)) for i in range(len(ms['right']))]
            n += len(want)
            if sorted(have) != sorted(want):
                fail('lane ids', 'road %r section %d has lanes %r instead of %r', m['id'], q, have, want)
            by = {(side, l[1].get('id')): l for side, l in lanes_of(sec)}
            for side, mls in (('left', ms['left']), ('right', ms['right']), ('center', [ms['c']])):
                for ml in mls:
                    l = by[(side, str(ml['id']))]
                    a = kid(l, 'width')[1].get('a')
                    if not M.same(str(ml['a'].get('a', 0)), a):
                        fail('lane ids', 'road %r section %d: lane %s is not the one added at that place (a=%s instead of %s)',
                             m['id'], q, ml['id'], a, ml['a'].get('a', 0))
    return n


def tables(mod, odr, tree):
    """C04"""
    n = 0
    js = kids(tree, 'junction')
    mjs = mod.o[odr]['junctions']
    if len(js) != len(mjs):
        fail('junctions', '%d junctions in the document, %d were added', len(js), len(mjs))
    rr = roads(mod, odr, tree)
    el = {id(m): r for m, r in rr}
    for j, mj in zip(js, mjs):
        cs = kids(j, 'connection')
        ids = [c[1].get('id') for c in cs]
        if len(set(ids)) != len(ids) or any(i in (None, 'None') for i in ids):
            fail('connection ids', 'junction %r has connection ids %r', mj['id'], ids)
        if not mj['gen']:
            if len(cs) != len(mj['c']):
                fail('connections', 'junction %r has %d connections, %d were added', mj['id'], len(cs), len(mj['c']))
            for c, mc in zip(cs, mj['c']):
                n += 1
                if mc['id'] is not None and c[1].get('id') != str(mc['id']):
                    fail('connection ids', 'junction %r: connection given id %r has id %r', mj['id'], mc['id'], c[1].get('id'))
            continue
        have = collections.Counter()
        docids = mod.by_id(mod.o[odr])
        for c in cs:
            ll = collections.Counter((x[1].get('from'), x[1].get('to')) for x in kids(c, 'laneLink'))
            have[(c[1].get('incomingRoad'), c[1].get('connectingRoad'), c[1].get('contactPoint'), frozenset(ll.items()))] += 1
        want = collections.Counter()
        for cr in mj['cr']:
            r = el.get(id(cr))
            if r is None:
                continue
            ss = sections(r)
            for w, cp, q in (('succ', 'end', -1), ('pred', 'start', 0)):
                ll = collections.Counter()
                name = 'successor' if w == 'succ' else 'predecessor'
                if mod.o[odr]['linked'] is True:
                    for _, l in lanes_of(ss[q]):
                        for (t, i), k in links_of(l).items():
                            if t == name:
                                ll[(i, l[1].get('id'))] += k
                else:
                    sec = cr['lanes']['secs'][q]
                    head_on = (cr[w]['c'] == 'end') == (w == 'succ')
                    for l in sec['left'] + sec['right']:
                        ll[(str((-l['id'] if head_on else l['id']) + cr[w]['off']), str(l['id']))] += 1
                want[(str(cr[w]['id']), str(cr['id']), cp, frozenset(ll.items()))] += 1
        # connecting roads outside the document, or that meet a road outside of it, have no lane links to compare
        absent = {(str(cr['id']), cp) for cr in mj['cr'] for w, cp in (('succ', 'end'), ('pred', 'start'))
                  if el.get(id(cr)) is None or str(cr[w]['id']) not in docids}
        have = collections.Counter({k: v for k, v in have.items() if k[1:3] not in absent})
        want = collections.Counter({k: v for k, v in want.items() if k[1:3] not in absent})
        n += sum(want.values())
        if have != want:
            a, b = have - want, want - have
            fail('table', 'junction %r: unexpected %s, missing %s', mj['id'], [t[:3] + (sorted(t[3]),) for t in a], [t[:3] + (sorted(t[3]),) for t in b])
    return n


def whole(mod, odr, tree, links=False, skip=(), kind='document'):
    """C18: everything the model predicts (lane links apart)"""
    exp = mod.doc(odr)
    sk = list(skip)
    if not links:
        sk.append(lambda p: p.rsplit('/', 1)[-1] == 'link' and '/lanes' in p)
    d = M.diff(exp, tree, skip=sk, ctx={})
    if d:
        fail(kind, '; '.join('%s %s' % x for x in d[:4]))


def undated(t):
    """the document without the header date"""
    return [t[0], t[1], [[c[0], {k: v for k, v in c[1].items() if k != 'date'}, c[2]] if c[0] == 'header' else c for c in t[2]]]


def unnumbered(t):
    """without date and automatic object and signal ids"""
    if t[0] in ('object', 'signal'):
        return [t[0], {k: v for k, v in t[1].items() if k != 'id'}, t[2]]
    if t[0] == 'header':
        return [t[0], {k: v for k, v in t[1].items() if k != 'date'}, t[2]]
    return [t[0], t[1], [unnumbered(c) for c in t[2]]]


def date_of(t):
    for c in t[2]:
        if c[0] == 'header':
            return c[1].get('date')
