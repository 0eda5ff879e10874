"""contracts of mesh adaptation: what Accessible_mesh::update makes of a mesh of a tree, for enumerated histories of requests.
The sizes and the position of the tree are symbolic; its topology is concrete, and compared with an independent description of the leaves."""
import itertools
from fractions import Fraction as F
from .common import *
from . import persist
from vc.contract import Case
from vc.run import Job


DEBUG = False


class Bad(Exception):
    pass


class Reader:
    def __init__(self, buf):
        self.b = buf
        self.i = 0

    def any(self):
        self.i += 1
        return self.b[self.i - 1]

    def n(self):
        v = self.any()
        if not isinstance(v, float) and not X.isc(v) or v != int(v):
            raise Bad('entry %d of the description is not a number' % (self.i - 1))
        return int(v)


def among(p, points):
    """p is one of the points (which may be off by rounding when the real code is run natively)"""
    return tuple(p) in points or isinstance(p[0], float) and any(all(abs(x - y) < 1e-12 for x, y in zip(p, q)) for q in points)


def read(buf, nd, rs):
    """the dump of a mesh (drivers/persist.cpp)"""
    r = Reader(buf)
    m = {}
    ne = m['n'] = r.n()
    m['params'] = [r.n() for _ in range(5)]
    m['root'] = r.any()
    m['bcs'] = r.n()
    m['verts'] = r.n()
    nv = 2 ** nd
    if not 0 < ne < 200:
        raise Bad('number of elements')
    m['el'] = []
    for i in range(ne):
        e = {'def': r.n(), 'rl': r.n(), 'size': r.any(), 'pos': [r.n() for _ in range(nd)], 'origin': [r.any() for _ in range(nd)]}
        e['vert'] = [[r.any() for _ in range(3)] for _ in range(nv)]
        e['same'] = [[[r.n() for _ in range(nv)] for _ in range(nv)] for _ in range(ne)]
        m['el'].append(e)
    nde = m['ndef'] = r.n()
    r.i += nde * 2 * nd * rs ** (nd - 1)
    m['tab'] = [[[r.n() for _ in range(6)] for _ in range(2 * nd)] for _ in range(ne)]
    m['fines'] = [[[r.n() for _ in range(4)] for _ in range(2 * nd)] for _ in range(ne)]
    m['missing'] = r.n()
    m['redundant'] = r.n()

    def tree():
        t = {'rl': r.n(), 'pos': [r.n() for _ in range(nd)], 'origin': [r.any() for _ in range(nd)], 'size': r.any(), 'status': r.n(), 'elem': r.n(), 'pair': r.n(), 'def': r.n()}
        n = r.n()
        if n not in (0, nv):
            raise Bad('number of children')
        t['ch'] = [tree() for _ in range(n)]
        return t
    m['tree'] = tree()
    return m


# ---- what the histories should produce: sets of leaves (level, position)
def children(l, nd):
    return [(l[0] + 1, tuple(2 * x + b for x, b in zip(l[1], o))) for o in itertools.product((0, 1), repeat=nd)]


def parent(l):
    return l[0] - 1, tuple(x // 2 for x in l[1])


def touching(a, b, nd):
    """(dimension, side of a) if the leaves share a part of a face"""
    (la, pa), (lb, pb) = a, b
    s = max(la, lb)
    ea, eb = 1 << (s - la), 1 << (s - lb)
    found = None
    for d in range(nd):
        a0, a1, b0, b1 = pa[d] * ea, (pa[d] + 1) * ea, pb[d] * eb, (pb[d] + 1) * eb
        if a1 == b0 or b1 == a0:
            if found:
                return None
            found = (d, int(a1 == b0))
        elif not (a0 < b1 and b0 < a1):
            return None
    return found


def contains(a, b):
    return a[0] <= b[0] and all(x == y >> (b[0] - a[0]) for x, y in zip(a[1], b[1]))


def checks(m, nd, rs, V_root, orig, before, ref, unref):
    """labels and values that should be equal; `before`: leaves before the last update, in the order of the elements, None if not known"""
    nv = 2 ** nd
    yield 'no missing connections', m['missing'], 0
    yield 'no redundant connections', m['redundant'], 0
    yield 'parameters', m['params'] == [1, nd + 2, nd, rs, 4] or m['params'], True
    leaves = []

    def walk(t, l):
        yield 'tree level', t['rl'], l[0]
        yield 'tree coordinates', tuple(t['pos']) == l[1], True
        yield 'tree size', t['size'], V_root / 2 ** l[0]
        for k in range(nd):
            yield 'tree origin', t['origin'][k], orig[k]
        if t['ch']:
            yield 'inner tree nodes have no element', t['elem'], -1
            for c, k in zip(t['ch'], children(l, nd)):
                yield from walk(c, k)
        else:
            yield 'every leaf has an element', t['elem'] >= 0, True
            leaves.append((l, t))
    yield from walk(m['tree'], (0, (0,) * nd))
    yield 'one element per leaf', m['n'], len(leaves)
    byelem = {}
    for l, t in leaves:
        if t['elem'] < 0:
            return
        yield 'leaf and element are paired', t['pair'], 1
        e = m['el'][t['elem']]
        yield 'no two leaves have the same element', t['elem'] in byelem, False
        byelem[t['elem']] = l
        yield 'not deformed without a surface', e['def'], 0
        yield 'element level', e['rl'], l[0]
        yield 'element coordinates', tuple(e['pos']) == l[1], True
        yield 'element size', e['size'], V_root / 2 ** l[0]
        for k in range(nd):
            yield 'element origin', e['origin'][k], orig[k]
        for v in range(nv):
            for k in range(3):
                b = (v >> (nd - 1 - k)) & 1 if k < nd else 0
                yield 'vertex position', e['vert'][v][k], orig[k] + V_root / 2 ** l[0] * (l[1][k] + b) if k < nd else 0
    if len(byelem) != m['n']:
        return
    el = [byelem[i] for i in range(m['n'])]
    # vertices are shared by exactly the elements that have the same corner
    pt = lambda l, v: tuple(F(l[1][k] + ((v >> (nd - 1 - k)) & 1), 2 ** l[0]) for k in range(nd))
    ok = all(m['el'][i]['same'][j][v][w] == (pt(el[i], v) == pt(el[j], w)) for i in range(len(el)) for j in range(len(el)) for v in range(nv) for w in range(nv))
    yield 'elements share exactly the corners they have in common', ok, True
    yield 'number of vertices', m['verts'], len({pt(l, v) for l in el for v in range(nv)})
    # connections
    for i, l in enumerate(el):
        for f in range(2 * nd):
            kind, other, g, side, isdef, count = m['tab'][i][f]
            nb = [j for j, q in enumerate(el) if touching(l, q, nd) == (f // 2, f % 2)]
            yield 'neighbours differ by one level at most', all(abs(el[j][0] - l[0]) < 2 for j in nb), True
            opp = 2 * (f // 2) + 1 - f % 2
            if not nb:
                yield 'face on the edge of the tree has its boundary condition', (kind, other, count), (4, f, 1)
            elif len(nb) == 1 and el[nb[0]][0] == l[0]:
                yield 'face is connected to the element next to it', (kind, other, g, count), (1, nb[0], opp, 1)
                yield 'face in the positive direction comes first', side, 1 - f % 2
            elif nd == 1:  # a point: which of the two is stored as the coarse one makes no difference
                j = nb[0]
                ok = (kind, other, g) == (3, j, opp) or kind == 2 and tuple(m['tab'][j][opp][:3]) == (3, i, f) and m['fines'][i][f][0] == j
                yield 'face is connected to the element of another level', ok, True
            elif el[nb[0]][0] < l[0]:
                yield 'fine face is connected to the coarse element', (kind, other, g), (3, nb[0], opp)
            else:
                yield 'coarse face is connected to fine elements', (kind, other, g), (2, 2 ** (nd - 1), 0)
                yield 'fine elements in their places', m['fines'][i][f][:2 ** (nd - 1)] == sorted(nb, key=lambda j: el[j][1]) and len(nb) == 2 ** (nd - 1), True
    # what was requested
    if before is not None:
        for i, q in enumerate(before):
            inside = [l for l in el if contains(q, l)]
            if (ref >> i) & 1 and not (unref >> i) & 1:
                yield 'elements are refined on request', bool(inside) and all(l[0] > q[0] for l in inside), True
            if not inside:
                sib = [j for j, p in enumerate(before) if p[0] and parent(p) == parent(q)]
                yield 'elements are only coarsened if all their siblings ask for it', len(sib) == nv and all((unref >> j) & 1 and not (ref >> j) & 1 for j in sib), True
            if not inside:
                yield 'elements are coarsened by one level only', any(contains(l, q) and l[0] == q[0] - 1 for l in el), True
        yield 'the mesh of the requests', sorted(el) == sorted(expected(before, nd, ref, unref)), True


def expected(before, nd, ref, unref):
    """refine, then coarsen the complete families whose neighbours allow it, then refine what has a neighbour two levels finer"""
    leaves = set(before)
    # neighbours across faces and, as for the mesh, across the edges
    def near(a, b):
        (la, pa), (lb, pb) = a, b
        s = max(la, lb)
        ea, eb = 1 << (s - la), 1 << (s - lb)
        n = 0
        for d in range(nd):
            a0, a1, b0, b1 = pa[d] * ea, (pa[d] + 1) * ea, pb[d] * eb, (pb[d] + 1) * eb
            if a1 == b0 or b1 == a0:
                n += 1
            elif not (a0 < b1 and b0 < a1):
                return 0
        return n
    for i, q in enumerate(before):
        if (ref >> i) & 1 and not (unref >> i) & 1:
            leaves.remove(q)
            leaves |= set(children(q, nd))
    want = {q for i, q in enumerate(before) if (unref >> i) & 1 and not (ref >> i) & 1}
    while True:
        n = len(leaves)
        for q in before:
            if q in leaves and q in want and q[0]:
                p = parent(q)
                fam = children(p, nd)
                if all(c in leaves and c in want for c in fam):
                    rest = leaves - set(fam)
                    if not any(l[0] > p[0] + 1 and near(p, l) == 1 for l in rest):
                        leaves = rest | {p}
        if len(leaves) == n:
            break
    while True:
        bad = [l for l in leaves if any(q[0] > l[0] + 1 and near(l, q) in (1, 2) for q in leaves)]
        if not bad:
            return leaves
        for l in bad:
            leaves.remove(l)
            leaves |= set(children(l, nd))


def history(nd, rs, ups, n=None):
    """the last of the requests is described by `ups[-1]`; the mesh before it is read from the real mesh as well"""
    n = n or 40000
    bs = [[X.var('rsz')] + fvars('orig', nd)] + [fvars('o', n)] * 2 + [fvars('len', 3)]

    def post(V):
        try:
            m = read(V.post[2], nd, rs)
            old = read(V.post[1], nd, rs) if ups else None
        except Bad as e:
            yield (str(e), 0, 1)
            return
        except IndexError:
            yield ('the description of the mesh is complete', 0, 1)
            return
        before = [(e['rl'], tuple(e['pos'])) for e in old['el']] if old else None
        ref, unref = ups[-1] if ups else (0, 0)
        for label, a, b in checks(m, nd, rs, V.pre[0][0], V.pre[0][1:], before, ref, unref):
            if isinstance(a, (bool, tuple, list)) or isinstance(b, (bool, tuple)):
                a, b = int(a == b), 1
            yield (label, a, b)
        if before:
            changed = sorted(before) != sorted((e['rl'], tuple(e['pos'])) for e in m['el'])
            yield ('whether the mesh changed is reported', V.post[3][0], int(changed))
    return Case('adaptation nd=%d updates=%s' % (nd, ups), 'adapt_mesh', bs, [nd, rs, len(ups)] + [x for u in ups for x in u], sets=lambda V: {}, post=post, free=lambda b, i: b > 0, sample=lambda rng: {}, foreach=False,
                contracts=persist.geometry.CONTRACTS, pre=[X.rlt(0, X.var('rsz'))])


def volume(v, nd):
    """of the multilinear element with vertices v (Simpson's rule is exact), and its Jacobian determinants at the points of the rule"""
    w = [F(1, 6), F(4, 6), F(1, 6)]
    tot, dets = 0, []
    for pt in itertools.product(range(3), repeat=nd):
        x = [F(p, 2) for p in pt]
        J = []
        for k in range(nd):
            col = [0] * nd
            for a in range(2 ** nd):
                f = 1
                for d in range(nd):
                    b = (a >> (nd - 1 - d)) & 1
                    f *= (1 if b else -1) if d == k else x[d] if b else 1 - x[d]
                for c in range(nd):
                    col[c] += f * v[a][c]
            J.append(col)
        if nd == 2:
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
        else:
            det = sum(J[0][i] * (J[1][(i + 1) % 3] * J[2][(i + 2) % 3] - J[1][(i + 2) % 3] * J[2][(i + 1) % 3]) for i in range(3))
        dets.append(det)
        for p in pt:
            det = det * w[p]
        tot += det
    return tot, dets


def surface_checks(m, nd, rs, planes, start):
    """a mesh of the part of the unit cube on one side of the planes {dimension: position}"""
    nv = 2 ** nd
    el = m['el']
    sbc = 2 * nd
    yield 'no missing connections', m['missing'], 0
    yield 'no redundant connections', m['redundant'], 0
    lo = [planes[d] if d in planes and start[d] > planes[d] else F(0) for d in range(nd)]
    hi = [planes[d] if d in planes and start[d] < planes[d] else F(1) for d in range(nd)]
    for i, e in enumerate(el):
        if not all(X.isc(x) for v in e['vert'] for x in v):
            yield 'vertex positions are numbers', 0, 1
            return
    # leaves of the tree that have elements
    tree = {}
    bad = []

    def walk(t, l):
        if t['rl'] != l[0] or tuple(t['pos']) != l[1]:
            bad.append('tree coordinates')
        if t['ch']:
            if t['elem'] >= 0:
                bad.append('inner node with an element')
            for c, k in zip(t['ch'], children(l, nd)):
                walk(c, k)
        elif t['elem'] >= 0:
            e = el[t['elem']]
            if t['elem'] in tree or not t['pair'] or e['rl'] != l[0] or tuple(e['pos']) != l[1] or e['def'] and t['def'] != 1:
                bad.append('leaf and element do not belong together')
            tree[t['elem']] = l
            size = F(1, 2 ** l[0])
            for d in range(nd):
                c = (l[1][d] + F(1, 2)) * size
                if not lo[d] < c < hi[d] or d in planes and (c - planes[d]) ** 2 <= F(nd, 4) * size ** 2:
                    bad.append('element on the wrong side of the surface or too close to it')
        else:
            size = F(1, 2 ** l[0])
            c = [(x + F(1, 2)) * size for x in l[1]]
            if all(lo[d] < c[d] < hi[d] for d in range(nd)) and all(abs(c[d] - planes[d]) > 3 * size for d in planes):
                bad.append('leaf far from the surface without an element')
    walk(m['tree'], (0, (0,) * nd))
    yield 'tree and elements %s' % sorted(set(bad)), len(bad), 0
    # elements
    tot = 0
    for i, e in enumerate(el):
        v, dets = volume(e['vert'], nd)
        tot += v
        yield 'elements beyond the tree are deformed', int(i in tree or e['def'] == 1), 1
        if i in tree and not e['def']:
            nom = [[(e['pos'][k] + ((a >> (nd - 1 - k)) & 1)) * F(1, 2 ** e['rl']) for k in range(nd)] for a in range(nv)]
            yield 'Cartesian elements are cubes', int([v[:nd] for v in e['vert']] == nom), 1
    if len(planes) == 1:
        yield 'the elements fill the domain exactly', tot, total_volume(lo, hi)
    # connections
    fv = [[a for a in range(nv) if (a >> (nd - 1 - f // 2)) & 1 == f % 2] for f in range(2 * nd)]
    mean = lambda cs, ns: {tuple(sum(c[k] for c in q) / len(q) for k in range(nd)) for n in ns for q in itertools.combinations(cs, n)}
    hanging = set().union(*[mean([e['vert'][a] for a in fv[f]], (2, 4)) for i, e in enumerate(el) for f in range(2 * nd) if m['tab'][i][f][0] == 2])
    for i, e in enumerate(el):
        for f in range(2 * nd):
            kind, other, g, side, isdef, count = m['tab'][i][f]
            pts = [e['vert'][a] for a in fv[f]]
            if kind == 1:
                yield 'connections are mutual', int(tuple(m['tab'][other][g][:3]) == (1, i, f) and m['tab'][other][g][3] == 1 - side and count == 1), 1
                yield 'connected faces have the same vertices', int(all(any(e['same'][other][a][b] for b in fv[g]) for a in fv[f])), 1
                yield 'deformed connections between deformed elements', int(isdef == (e['def'] and el[other]['def'])), 1
                yield 'conformal connections are of one level', int(el[other]['rl'] == e['rl']), 1
                if not isdef:
                    yield 'Cartesian connections face each other', int(f // 2 == g // 2 and f != g and side == 1 - f % 2), 1
            elif kind == 2:
                fine = [j for j in m['fines'][i][f] if 0 <= j < len(el)][:other]
                yield 'fine elements of a hanging face', int(0 < other <= 2 ** (nd - 1) and all(el[j]['rl'] == e['rl'] + 1 for j in m['fines'][i][f][:other])), 1
                area = [v for j in m['fines'][i][f][:other] for v in el[j]['vert']]
                yield 'corners of a hanging face are shared', int(all(any(e['same'][j][a][b] for j in m['fines'][i][f][:other] for b in range(nv)) for a in fv[f])), 1
            elif kind == 3:
                yield 'hanging connections are mutual', int(m['tab'][other][g][0] == 2 and i in m['fines'][other][g]), 1
                # hanging vertices lie on the coarse face: each coordinate between those of its corners, and the face's vertices are averages of corners
                cs = [el[other]['vert'][a] for a in fv[g]]
                mids = mean(cs, (1, 2, 4))
                yield 'hanging vertices lie on the coarse face', int(all(among(p[:nd], mids) for p in pts)), 1
            elif kind == 4 and other == sbc:
                yield 'surface vertices lie on the surface', int(all(any(abs(p[d] - planes[d]) < 1e-12 for d in planes) or among(p[:nd], hanging) for p in pts)), 1
                yield 'surface elements are extruded', int(i not in tree), 1
            elif kind == 4:
                yield 'outer boundary faces lie on the boundary of the tree', int(all(p[other // 2] == other % 2 for p in pts)), 1
            else:
                yield 'every face is connected', 0, 1


def total_volume(lo, hi):
    r = F(1)
    for a, b in zip(lo, hi):
        r *= b - a
    return r


def surface(nd, rs, ups, before, planes, start):
    n = {2: 60000, 3: 400000}[nd]
    planes = {d: F(c) for d, c in planes.items()}
    start = [F(x) for x in start]
    bs = [[F(1)] + [F(0)] * nd + [planes.get(d, F(0)) for d in range(nd)] + start] + [fvars('o', n)] * 2 + [fvars('len', 3)]

    def post(V):
        try:
            m = read(V.post[2], nd, rs)
        except Bad as e:
            yield (str(e), 0, 1)
            return
        if DEBUG:
            for i, e in enumerate(m['el']):
                print(i, e['def'], e['rl'], e['pos'], [[float(x) if X.isc(x) else X.show(x)[:30] for x in v[:nd]] for v in e['vert']], m['tab'][i])
        yield from surface_checks(m, nd, rs, planes, start)
    ip = [nd, rs, len(ups), sum(1 << d for d in planes), before] + [x for u in ups for x in u]
    name = 'surface %s start=%s nd=%d updates=%s then %s' % (' '.join('x%d=%s' % (d, c) for d, c in planes.items()), [str(x) for x in start], nd, ups[:before], ups[before:])
    return Case(name, 'adapt_surface', bs, ip, sets=lambda V: {}, post=post, free=lambda b, i: b > 0, sample=lambda rng: {}, foreach=False,
                contracts=persist.geometry.CONTRACTS, fork_real=True)


def surfaces(nd, rs, part=0, parts=1, full=True):
    M = (1 << 30) - 1
    one = (1, 0)
    out = []
    if nd == 2:
        two = [one, (15, 0)]
        for planes in ({0: '3/10'}, {0: '6/10'}, {1: '3/10'}, {1: '6/10'}, {0: '3/10', 1: '4/10'}, {0: '3/10', 1: '6/10'}, {0: '7/10', 1: '3/10'}, {0: '6/10', 1: '7/10'}):
            start = [F(9, 10) if F(planes.get(d, '1/10')) < F(1, 2) else F(1, 10) for d in range(2)]
            hs = [(two, 2), (two + [(0, 0)], 2), (two + [(M, 0)], 2), (two + [(0, M)], 2)] + [(two + [(1 << k, 0)], 2) for k in range(0, 12)] + [(two + [(1 << k, 0), (0, M)], 2) for k in range(0, 12, 3)] + [(two + [(1 << k, 0)], 3) for k in range(0, 16, 3)]
            if len(planes) > 1:  # nothing would be left of the coarse mesh
                hs = [(h, b) for h, b in hs if h[-1] != (0, M)]
            for i, (h, b) in enumerate(hs):
                if full or i < 2 or (i + len(out)) % 4 == 0:
                    out.append(surface(nd, rs, h, b, planes, start))
    else:
        for planes in ({0: '2/10'}, {1: '8/10'}, {2: '2/10'}, {0: '2/10', 1: '8/10'}, {0: '2/10', 2: '2/10'}, {1: '2/10', 2: '8/10'}, {0: '2/10', 1: '2/10', 2: '2/10'}):
            start = [F(9, 10) if F(planes.get(d, '1/10')) < F(1, 2) else F(1, 10) for d in range(3)]
            hs = [([one], 1), ([one, (0, 0)], 1)] + [([one, (1 << k, 0)], 1) for k in range(4)]
            for i, (h, b) in enumerate(hs):
                if full or i < 1 or (i + len(out)) % 5 == 0:
                    out.append(surface(nd, rs, h, b, planes, start))
    return out[part::parts]


def histories(nd, full):
    one = (1, 0)
    nv = 2 ** nd
    al = (1 << 64) - 1
    M = (1 << 30) - 1
    hs = [[], [one], [one, (0, 1)], [one, (0, M)], [(0, 1)], [(1, 1)]]
    if nd < 3:
        hs += [[one, (k, 0)] for k in range(2, 2 ** nv)] + [[one, (k, 2 ** nv - 1 - k)] for k in range(1, 2 ** nv - 1)] + [[one, (0, k)] for k in range(2, 2 ** nv - 1)]
    else:
        hs += [[one, (1 << k, 0)] for k in (range(8) if full else (0, 3, 6))] + [[one, (0x81, 0)], [one, (0, 0xfe)], [one, (1, 0), (0, M)]]
    if nd < 3:
        ne = 2 * nv - 1
        for c in range(nv):
            hs += [[one, (1 << c, 0), (1 << k, 0)] for k in range(ne)]
            hs += [[one, (1 << c, 0), (0, M)], [one, (1 << c, 0), (1, M - 1)], [one, (1 << c, 0), (0, M - 1)]]
        for c in range(nv):
            hs += [[one, (1 << c, 0), (M, 0)][:3]] if nd == 1 or full else []
            for k in range(ne):
                if nd == 1 or full or (c + k) % 3 == 0:
                    hs += [[one, (1 << c, 0), (1 << k, 0), (0, M)], [one, (1 << c, 0), (1 << k, 0), (1 << (k + 1), M ^ (1 << (k + 1)))]]
        if nd == 2:
            hs += [[one, (15, 0), (1 << k, 0)] for k in range(0, 16, 1 if full else 5)] + [[one, (15, 0), (0, 15 << k)] for k in (0, 3, 4, 8)]
    return hs


def cases(nd, rs, part=0, parts=1, full=True):
    out = [history(nd, rs, h) for h in histories(nd, full)]
    return out[part::parts]


SRC = persist.SRC
EXTRA = persist.EXTRA
ASSUMED = persist.ASSUMED
LEVEL = 'bounded'


def jobs(tier):
    full = tier == 'thorough'
    out = []
    for nd, parts in ((3, 3), (2, 4), (1, 1)):
        for i in range(parts):
            out.append(Job('adaptation nd=%d%s' % (nd, ' part=%d' % i if parts > 1 else ''), SRC, 'specs.adapt.cases', {'nd': nd, 'rs': 2, 'part': i, 'parts': parts, 'full': full}, [], extra=EXTRA,
                           native_sources=[s for s in SRC if s != 'tree_rt.cpp'], native_extra=[x for x in EXTRA if x[0] != '-' or 'access' in x], budget=800))
    for nd, parts in ((3, 2), (2, 2)):
        for i in range(parts):
            out.append(Job('surface nd=%d part=%d' % (nd, i), SRC, 'specs.adapt.surfaces', {'nd': nd, 'rs': 2, 'part': i, 'parts': parts, 'full': full}, [], extra=EXTRA,
                           native_sources=[s for s in SRC if s != 'tree_rt.cpp'], native_extra=[x for x in EXTRA if x[0] != '-' or 'access' in x], budget=800))
    return out
