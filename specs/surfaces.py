"""contracts of the queries of surface geometries: nearest points and intersections with lines"""
import itertools
import re
from .common import *
from .common import total, dot
from . import geometry
from vc.contract import Case
from vc.run import Job


def inverse(A):
    n = len(A)
    M = [list(map(F, A[i])) + [F(int(i == j)) for j in range(n)] for i in range(n)]
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k]), None)
        if p is None:
            return None
        M[k], M[p] = M[p], M[k]
        M[k] = [x / M[k][k] for x in M[k]]
        for i in range(n):
            if i != k:
                M[i] = [x - M[i][k] * y for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]


def known(x):
    """x, or its value if it is a linear term in which everything cancels"""
    def lin(x):
        if not isinstance(x, X.Node):
            return {None: F(x)}
        if x.op in '+-' or x.op == 'neg':
            a = lin(x.a[0])
            b = lin(x.a[1]) if x.op != 'neg' else {}
            if a is None or b is None:
                return None
            if x.op == 'neg':
                return {k: -v for k, v in a.items()}
            g = 1 if x.op == '+' else -1
            return {k: a.get(k, 0) + g * b.get(k, 0) for k in set(a) | set(b)}
        return {x.id: F(1)} if x.op == 'var' else None
    f = lin(x)
    return f.get(None, F(0)) if f is not None and not any(v for k, v in f.items() if k is not None) else x


def lu_fixed(n):
    """the same contract as of matrices of dynamic size (specs/geometry.py), with the entries stored in the object"""
    def f(ex, st, a):
        from vc.exec import Ptr
        o = a[0]
        A = [[known(ex.load(st, Ptr(o.o, o.off + 8 * (n * j + i)), 8, 'd')) for j in range(n)] for i in range(n)]
        # the norm is what the real estimate of the condition number starts from
        # (which is 0 for a singular matrix, as is made of an infinite norm of the inverse)
        norm = X.var('norm_of_unknown_matrix')
        if all(X.isc(x) for r in A for x in r):
            norm = max(sum(abs(F(A[i][j])) for i in range(n)) for j in range(n)) if inverse(A) else F(0)
        A, perm, tr, sign = geometry.lu_factors(A)
        for j in range(n):
            for i in range(n):
                ex.store(st, Ptr(o.o, o.off + 8 * (n * j + i)), 8, 'd', A[i][j])
        for k, v in ((0, perm), (n, tr)):
            for i in range(n):
                ex.store(st, Ptr(o.o, o.off + 8 * n * n + 4 * (k + i)), 4, 'i', v[i])
        ex.store(st, Ptr(o.o, o.off + 8 * n * n + 8 * n), 8, 'd', norm)
        ex.store(st, Ptr(o.o, o.off + 8 * n * n + 8 * n + 8), 1, 'i', sign & 255)
    return f


CONTRACTS = [(re.compile(r'_ZN5Eigen12PartialPivLUINS_6MatrixIdLi%dELi%dE.*7computeEv$' % (n, n)), lu_fixed(n)) for n in (2, 3)] + geometry.CONTRACTS


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def sq(a):
    return dot(a, a)


def clamp(x):
    return g_min(1, g_max(0, x))


def on_segment(a, b, p):
    d = sub(b, a)
    t = clamp(dot(d, sub(p, a)) / sq(d))
    return [x + t * y for x, y in zip(a, d)]


def closest(cur, cands, p):
    """the nearest of the candidates (empty, squared distance, point) to p"""
    e, ds, q = cur
    for c in cands:
        dc = sq(sub(c, p))
        lt = g_lt(dc, ds)
        e, ds, q = g_ite(lt, 0, e), g_ite(lt, dc, ds), [g_ite(lt, x, y) for x, y in zip(c, q)]
    return e, ds, q


def eq(a, b):
    if isinstance(a, X.Node) or isinstance(b, X.Node):
        return X.req(a, b)
    return int(abs(a - b) < 1e-9 * (1 + abs(a)))


def le(a, b):
    return X.bnot(g_lt(b, a)) if isinstance(a, X.Node) or isinstance(b, X.Node) else int(a <= b)


def or_(xs):
    r = 0
    for x in xs:
        r = X.bor(r, x)
    return r


def and_(xs):
    r = 1
    for x in xs:
        r = X.band(r, x)
    return r


def imp(a, b):
    return X.bor(X.bnot(a), b)


def expect(V, k, want, n, p):
    """the answer in buffer k is the given one"""
    e, ds, q = want
    yield ('found or not', V.post[k][0], e)
    if X.isc(V.post[k][0]) and V.post[k][0] == 0:
        yield ('squared distance', V.post[k][1], ds)
        for i in range(n):
            yield ('nearest point %d' % i, V.post[k][2 + i], q[i])
            yield ('reference point %d' % i, V.post[k][2 + n + i], p[i])


def kw(*free):
    return dict(sets=lambda V: {}, free=lambda b, i: b in free, sample=lambda rng: {}, foreach=False, contracts=CONTRACTS)


def segment(n, fixed):
    def post(V):
        e, p = V.pre[0], V.pre[1]
        q = on_segment(e[:n], e[n:], p)
        for i in range(n):
            yield ('nearest point of the segment %d' % i, V.post[2][i], q[i])
    e = fvars('e', 2 * n)
    return Case('projection to a segment in %dD%s' % (n, ' fixed size' if fixed else ''), 'segment', [e, fvars('p', n), fvars('o', n)], [n, fixed], post=post, pre=[X.rlt(0, sq(sub(e[n:], e[:n])))], **kw(2))


def lemma():
    """|p - e(s)|^2 - |p - q|^2 = |d|^2 ((s - t)^2 - (t - u)^2) >= 0 for every s in [0, 1], where u is where p projects to the line, and t is u limited to [0, 1]"""
    def post(V):
        s, u, l2 = V.pre[0]
        t = clamp(u)
        yield ('no point of the segment is nearer', le((t - u) * (t - u), (s - u) * (s - u)))
    return Case('lemma: limiting the parameter gives the nearest point', 'nothing', [fvars('s', 3)], [], post=post, pre=[X.rle(0, X.var('s_0')), X.rle(X.var('s_0'), 1), X.rlt(0, X.var('s_2'))], **kw())


def merge(n):
    def post(V):
        s, p, m = V.pre[0], V.pre[1], V.pre[2][0]
        v = [s[n * i:n * i + n] for i in range(n)]
        cur = (1, m * m, p)
        if n == 2:
            want = closest(cur, [on_segment(v[0], v[1], p)], p)
        else:
            a, b, c = sub(v[1], v[0]), sub(v[2], v[0]), sub(p, v[0])
            aa, ab, bb, ac, bc = dot(a, a), dot(a, b), dot(b, b), dot(a, c), dot(b, c)
            det = aa * bb - ab * ab
            x, y = (bb * ac - ab * bc) / det, (aa * bc - ab * ac) / det
            inside = and_([le(0, x), le(0, y), le(x + y, 1)])
            w1 = closest(cur, [[v0 + x * i + y * j for v0, i, j in zip(v[0], a, b)]], p)
            w2 = closest(cur, [on_segment(v[i], v[(i + 1) % 3], p) for i in range(3)], p)
            want = tuple(g_ite(inside, i, j) for i, j in zip(w1[:2], w2[:2])) + ([g_ite(inside, i, j) for i, j in zip(w1[2], w2[2])],)
        yield from expect(V, 3, want, n, p)
    s = fvars('v', n * n)
    pre = [X.rlt(0, X.var('m_0'))]
    v = [s[n * i:n * i + n] for i in range(n)]
    pre += [X.rlt(0, sq(sub(v[(i + 1) % n], v[i]))) for i in range(n)]
    if n == 3:
        a, b = sub(v[1], v[0]), sub(v[2], v[0])
        pre += [X.rlt(0, dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b))]
    return Case('nearest point of a simplex in %dD' % n, 'simplex_merge', [s, fvars('p', n), fvars('m', 1), fvars('o', 2 + 2 * n)], [n], post=post, pre=pre, **kw(3))


def ball(n):
    def post(V):
        s, l, b = V.pre[0], V.pre[1], V.pre[3]
        c, r = V.post[2][:n], V.post[2][n]
        for i in range(n):
            yield ('centre of the ball around the simplex %d' % i, c[i], total([s[n * v + i] for v in range(n)]) / n)
        ds = [sq(sub(s[n * i:n * i + n], c)) for i in range(n)]
        far = g_max(ds[0], ds[1]) if n == 2 else g_max(g_max(ds[0], ds[1]), ds[2])
        yield ('the ball reaches the farthest vertex', r, far)
        d, o = sub(l[n:], l[:n]), sub(b[:n], l[:n])
        yield ('the line meets the ball', V.post[4][0], g_ite(le(sq(o) - dot(o, d) * dot(o, d) / sq(d), b[n]), 1, 0))
    l = fvars('l', 2 * n)
    return Case('balls in %dD' % n, 'ball', [fvars('v', n * n), l, fvars('c', n + 1), fvars('b', n + 1), fvars('o', 1)], [n], post=post, pre=[X.rlt(0, sq(sub(l[n:], l[:n])))], **kw(2, 4))


def nearest(n, k):
    def post(V):
        p = V.pre[0]
        yield from expect(V, 3, closest((1, V.pre[1][0] * V.pre[1][0], p), [V.pre[2][n * i:n * i + n] for i in range(k)], p), n, p)
    return Case('nearest of %d candidates in %dD' % (k, n), 'nearest', [fvars('p', n), fvars('m', 1), fvars('c', max(1, n * k)), fvars('o', 2 + 2 * n)], [n, k], post=post, pre=[X.rlt(0, X.var('m_0'))], **kw(3))


def compound(n, comps, lines):
    k = len(comps)

    def post(V):
        p = V.pre[0]
        for i in range(k):
            for j in range(2 * n if lines else n):
                yield ('component %d is asked about the same points' % i, V.post[4][2 * n * i + j], p[j])
        if lines:
            want = [V.pre[2][i * (n + 3) + n + j] for i, (e, m) in enumerate(comps) for j in range(m)]
            yield ('number of intersections', V.post[3][0], len(want))
            for i, w in enumerate(want):
                yield ('intersection %d' % i, V.post[3][1 + i], w)
        else:
            yield from expect(V, 3, closest((1, V.pre[1][0] * V.pre[1][0], p), [V.pre[2][i * (n + 3):i * (n + 3) + n] for i in range(k) if not comps[i][0]], p), n, p)
    return Case('compound in %dD of %s %s' % (n, comps, 'intersections' if lines else 'nearest point'), 'compound', [fvars('p', 2 * n), fvars('m', 2), fvars('a', k * (n + 3)), fvars('o', max(2 + 2 * n, 1 + 3 * k)), fvars('q', 2 * n * k)],
                [n, k, int(lines), 0] + [x for c in comps for x in c], post=post, pre=[X.rlt(0, X.var('m_0'))], **kw(3, 4))


def sphere(n, lines):
    c = fvars('c', n + 1)
    p = fvars('p', 2 * n)

    def post(V):
        p, c, r = V.pre[0], V.pre[2][:n], V.pre[2][n]
        if not lines:
            d = sub(p[:n], c)
            q = [x + r * (y / g_sqrt(sq(d))) for x, y in zip(c, d)]
            yield from expect(V, 3, closest((1, V.pre[1][0] * V.pre[1][0], p[:n]), [q], p[:n]), n, p)
            return
        s, d = sub(p[:n], c), sub(p[n:], p[:n])
        a, b, e = sq(d), 2 * dot(d, s), sq(s) - r * r
        discr = b * b - 4 * a * e
        count = V.post[3][0]
        yield ('number of intersections', count, g_ite(g_lt(discr, 0), 0, g_ite(g_lt(0, discr), 2, 1)))
        if X.isc(count) and count == 1:
            yield ('the line touches', 2 * a * V.post[3][1], -b)
        if X.isc(count) and count == 2:
            yield ('intersections: sum', a * (V.post[3][1] + V.post[3][2]), -b)
            yield ('intersections: product', a * V.post[3][1] * V.post[3][2], e)
    pre = [X.rlt(0, X.var('m_0')), X.rlt(0, c[n]), X.rlt(0, sq(sub(p[n:], p[:n]) if lines else sub(p[:n], c[:n])))]
    return Case('sphere in %dD %s' % (n, 'intersections' if lines else 'nearest point'), 'sphere', [p, fvars('m', 1), c, fvars('o', 2 + 2 * n)], [n, 0, int(lines)], post=post, pre=pre, **kw(3))


# ---- whole geometries made of known simplices
def frac(x):
    return [F(i) for i in x]


SQUARE = [((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0))]
GEOMS = {
    'square': SQUARE,
    'long segments': [((0, 0), (10, 10)), ((10, 10), (-3, 12)), ((-3, 12), (-3, 11))],
    'separate segments': [((0, 0), ('1/8', '1/8')), ((7, 7), ('15/2', 8)), ((0, 8), ('1/4', 8)), ((4, 1), (4, 2))],
    'one segment': [((2, 1), (5, 3))],
    'tetrahedron': [((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((0, 0, 0), (1, 0, 0), (0, 0, 1)), ((0, 0, 0), (0, 1, 0), (0, 0, 1)), ((1, 0, 0), (0, 1, 0), (0, 0, 1))],
    'separate triangles': [((0, 0, 0), (9, 1, 0), (2, 8, 1)), ((8, 8, 8), (9, 8, 8), (8, 9, '17/2')), ((0, 0, 9), (1, 0, 9), (0, '1/2', 9))],
}
# more than 100 simplices make the tree deeper
GEOMS['fine polyline'] = [((F(i, 16), F(i % 2, 4)), (F(i + 1, 16), F((i + 1) % 2, 4))) for i in range(16 * 8)]


def seg_nearest(a, b, p):
    d = sub(b, a)
    t = max(F(0), min(F(1), dot(d, sub(p, a)) / sq(d)))
    return [x + t * y for x, y in zip(a, d)]


def simplex_nearest(s, p):
    s = [frac(v) for v in s]
    if len(s) == 2:
        return seg_nearest(s[0], s[1], p)
    a, b, c = sub(s[1], s[0]), sub(s[2], s[0]), sub(p, s[0])
    aa, ab, bb, ac, bc = dot(a, a), dot(a, b), dot(b, b), dot(a, c), dot(b, c)
    det = aa * bb - ab * ab
    x, y = (bb * ac - ab * bc) / det, (aa * bc - ab * ac) / det
    if x >= 0 and y >= 0 and x + y <= 1:
        return [u + x * i + y * j for u, i, j in zip(s[0], a, b)]
    return min((seg_nearest(s[i], s[(i + 1) % 3], p) for i in range(3)), key=lambda q: sq(sub(q, p)))


def geom_nearest(g, p, guess, default=False, dist=None):
    sims = GEOMS[g]
    n = len(sims[0])
    p = frac(p)
    cands = [simplex_nearest(s, p) for s in sims]
    d2 = min(sq(sub(q, p)) for q in cands)
    best = [q for q in cands if sq(sub(q, p)) == d2]

    def post(V):
        m = V.pre[1][0]
        e = V.post[3][0]
        if default:
            yield ('something is found', e, 0)
        else:
            yield ('found if within the distance', imp(g_lt(d2, m * m), eq(e, 0)))
            yield ('not found if farther', imp(g_lt(m * m, d2), eq(e, 1)))
        if X.isc(e) and e == 0:
            yield ('squared distance', V.post[3][1], d2)
            yield ('nearest point', or_([and_([eq(x, y) for x, y in zip(V.post[3][2:2 + n], q)]) for q in best]))
    bs = [p + p, [X.var('m_0') if dist is None else F(dist), F(guess)], [F(x) for s in sims for v in s for x in v], fvars('o', 2 + 2 * n)]
    return Case('%s: nearest to %s %s' % (g, [str(x) for x in p], 'anywhere' if default else 'guess %s%s' % (guess, '' if dist is None else ' within %s' % dist)), 'simplices', bs, [n, len(sims), 2 if default else 0], post=post,
                pre=[X.rlt(F(1, 1000), X.var('m_0')), X.rlt(X.var('m_0'), 1000)] if dist is None else [], fork_real=True, **kw(3))


def geom_lines(g, dr, box):
    """any line of the direction `dr` through a point in the box"""
    sims = [[frac(v) for v in s] for s in GEOMS[g]]
    n = len(sims[0])
    dr = frac(dr)
    tol = F(1, 10 ** 6)

    def post(V):
        p = V.pre[0][:n]
        cross = []
        for s in sims:
            A = [[-dr[i]] + [s[c][i] - s[0][i] for c in range(1, n)] for i in range(n)]
            inv = inverse(A)
            if inv is None:
                continue
            x = [dot(r, sub(p, s[0])) for r in inv]
            w = x[1:] + [1 - total(x[1:])]
            cross.append((x[0], and_([g_lt(0, y) for y in w]), and_([g_lt(-2 * tol, y) for y in w])))
        cnt = V.post[3][0]
        k = int(cnt)
        found = V.post[3][1:1 + k]
        for i, (t, inside, near) in enumerate(cross):
            yield ('intersection with simplex %d is found' % i, imp(inside, or_([eq(t, f) for f in found])))
        for j, f in enumerate(found):
            yield ('intersection %d is one' % j, or_([X.band(near, eq(t, f)) for t, inside, near in cross]))
        yield ('nothing is found twice', le(k, total([g_ite(near, 1, 0) for t, inside, near in cross] or [0])))
    p = fvars('p', n)
    pre = [X.rle(F(lo), x) for x, (lo, hi) in zip(p, box)] + [X.rle(x, F(hi)) for x, (lo, hi) in zip(p, box)]
    p = [F(lo) if lo == hi else x for x, (lo, hi) in zip(p, box)]
    pre = [c for c in pre if isinstance(c, X.Node)]
    smp = lambda rng: {'p_%d' % i: rng.uniform(float(F(lo)), float(F(hi))) for i, (lo, hi) in enumerate(box)}  # noqa: E731
    k = kw(3)
    k['sample'] = smp
    return Case('%s: lines of direction %s through %s' % (g, [str(x) for x in dr], ' '.join(str(lo) if lo == hi else 'x' for lo, hi in box)), 'simplices', [p + [X.radd(x, y) if isinstance(x, X.Node) else x + y for x, y in zip(p, dr)], [F(1), F(1)], [x for s in sims for v in s for x in v], fvars('o', 2 + len(sims))],
                [n, len(sims), 1], post=post, pre=pre, fork_real=True, max_paths=100000, **k)


def polyline(k):
    def post(V):
        yield ('number of segments', V.post[1][0], k - 1)
        for i in range(k - 1):
            for j in range(4):
                yield ('segment %d end %d' % (i, j), V.post[1][1 + 4 * i + j], V.pre[0][2 * i + j])
    return Case('polyline of %d points' % k, 'polyline', [fvars('p', 2 * k), fvars('o', 1 + 4 * max(1, k - 1))], [k], post=post, **kw(1))


def queries(n, full=True):
    out = []
    if n == 2:
        out += [polyline(k) for k in (1, 2, 3, 5)] + [lemma()]
    out += [segment(n, f) for f in (0, 1)] + [merge(n), ball(n)] + [nearest(n, k) for k in (0, 1, 2, 3)]
    out += [compound(n, c, l) for l in (0, 1) for c in ([(0, 1)], [(1, 0)], [(0, 2), (0, 1)], [(1, 3), (0, 0)], [(0, 1), (1, 0)], [(0, 1), (0, 2), (0, 3)], [(0, 2), (1, 0), (0, 1)]) if n == 2 or l or c != [(0, 1), (0, 2), (0, 3)]]
    out += [sphere(n, l) for l in (0, 1)]
    if n == 2:
        out += [sphere(1, l) for l in (0, 1)]
    return out


def geoms(n, part=0, parts=1, full=True):
    out = []
    for g, sims in GEOMS.items():
        if len(sims[0]) != n:
            continue
        pts = {2: [(0, 0), ('1/2', '1/3'), (3, '5/2'), (-1, 9), (12, -4), ('1/4', '1/8')], 3: [(0, 0, 0), ('1/5', '1/6', '1/7'), (2, 3, 4), (-1, '1/2', 6), (7, 9, 8), (1, 1, 1)]}[n]
        for p in pts:
            if g == 'fine polyline':
                out += [geom_nearest(g, p, u, dist=m) for u in ('1/8', 1000) for m in ('1/9', 2, 30)] + [geom_nearest(g, p, 1, True)]
                continue
            out += [geom_nearest(g, p, u) for u in (('1/8', 1000, 3) if full else ('1/8', 1000))] + [geom_nearest(g, p, 1, True)]
        if n == 2:
            big = g == 'fine polyline'
            for d in ((1, 0), (0, 1), (3, 1), (-2, 5)):
                out.append(geom_lines(g, d, [(F(49, 16), F(49, 16)), (F(1, 7), F(1, 7))] if big else [(-15, 15), (0, 0)] if d[1] else [(0, 0), (-15, 15)]))
        else:
            for d in ((1, 0, 0), (0, 0, 1), (1, 2, 3), (2, -1, 1)):
                for c in ('1/8', 3):
                    out.append(geom_lines(g, d, [(-15, 15), (c, c), (0, 0)] if d[2] else [(0, 0), (c, c), (-15, 15)]))
                    if d[1]:
                        out.append(geom_lines(g, d, [(c, c), (-15, 15), (0, 0)]))
    return out[part::parts]


SRC = ['surface.cpp', 'src/Surface_geom.cpp', 'src/Simplex_geom.cpp', 'src/math.cpp', 'src/Tree.cpp']
EXTRA = ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_NO_CPUID', '-fno-access-control', 'cfg:3']
KW = dict(extra=EXTRA, ir_sources=SRC + ['tree_rt.cpp'], native_extra=[x for x in EXTRA if x[0] != '-' or 'access' in x], budget=700)


def jobs(tier):
    full = tier == 'thorough'
    return [Job('queries nd=%d' % n, SRC, 'specs.surfaces.queries', {'n': n, 'full': full}, [], **KW) for n in (3, 2)] + \
        [Job('geometries nd=%d part=%d' % (n, i), SRC, 'specs.surfaces.geoms', {'n': n, 'part': i, 'parts': 3, 'full': full}, [], **KW) for n in (3, 2) for i in range(3)]
