"""contracts of the geometry of elements: positions, Jacobians, normals, spacing"""
import re
from .common import *
from vc.contract import Case
from vc.run import Job
from vc.ir import Unsupported


def lu_factors(A):
    """entries, order of the rows, transpositions and its sign"""
    n = len(A)
    tr = []
    sign = 1
    for k in range(n):
        piv = next((i for i in range(k, n) if not (X.isc(A[i][k]) and A[i][k] == 0)), None)
        tr.append(k if piv is None else piv)
        if piv is None:
            continue
        if piv != k:
            A[k], A[piv] = A[piv], A[k]
            sign = -sign
        for i in range(k + 1, n):
            A[i][k] = X.rdiv(A[i][k], A[k][k])
            for j in range(k + 1, n):
                A[i][j] = A[i][j] - A[i][k] * A[k][j]
    perm = list(range(n))
    for k in reversed(range(n)):
        perm[k], perm[tr[k]] = perm[tr[k]], perm[k]
    return A, perm, tr, sign


def lu_compute(ex, st, a):
    """contract of Eigen's partial-pivoting LU of a square matrix A (already copied into it): afterwards it holds P, L and U with P A = L U.
    The row order P only matters for rounding: the determinant and the solutions computed from the factors are the same for all of them; here a pivot is any entry that is not identically zero."""
    from vc.exec import Ptr
    p = ex.load(st, Ptr(a[0].o, a[0].off), 8, 'p')
    n = ex.load(st, Ptr(a[0].o, a[0].off + 8), 8, 'i')
    A = [[ex.load(st, Ptr(p.o, p.off + 8 * (n * j + i)), 8, 'd') for j in range(n)] for i in range(n)]
    A, perm, tr, sign = lu_factors(A)
    for j in range(n):
        for i in range(n):
            ex.store(st, Ptr(p.o, p.off + 8 * (n * j + i)), 8, 'd', A[i][j])
    for o, v in ((24, perm), (40, tr)):
        d = ex.load(st, Ptr(a[0].o, a[0].off + o), 8, 'p')
        for i in range(n):
            ex.store(st, Ptr(d.o, d.off + 4 * i), 4, 'i', v[i])
    ex.store(st, Ptr(a[0].o, a[0].off + 64), 1, 'i', sign & 255)
    return None


CONTRACTS = [(re.compile(r'_ZN5Eigen12PartialPivLU.*7computeEv$'), lu_compute)]


def det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        x = m[0][j]
        t = x * det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r


def cof(m, j, i):
    """cofactor of entry (j, i)"""
    s = det([[x for c, x in enumerate(row) if c != i] for r, row in enumerate(m) if r != j])
    return s if (i + j) % 2 == 0 else -s


def points(nd, rs):
    return list(itertools.product(range(rs), repeat=nd))


def position(V, nd, rs, deformed, pt, node=None):
    """where the point with node indices pt is"""
    xi = [V.pre[0][k] for k in pt]
    one = fnum(1, xi[0])
    if not deformed:
        h = V.pre[4][0] * one / 2 ** V.ip[3]
        return [(xi[i] + V.extra['pos'][i]) * h + V.pre[4][1 + i] for i in range(nd)]
    nfq = rs ** (nd - 1)

    def lin(x, d):
        """the multilinear map at x"""
        r = 0
        for v in range(2 ** nd):
            w = one
            for i in range(nd):
                w = w * (x[i] if v >> (nd - 1 - i) & 1 else one - x[i])
            r = r + w * V.pre[5][3 * v + d]
        return r
    out = []
    for d in range(nd):
        p = lin(xi, d)
        for a in range(nd):
            fq = face_index(nd, rs, a, dict(enumerate(pt)))
            adj = (one - xi[a]) * V.pre[6][2 * a * nfq + fq] + xi[a] * V.pre[6][(2 * a + 1) * nfq + fq]
            edge = lin(xi[:a] + [one] + xi[a + 1:], d) - lin(xi[:a] + [0 * one] + xi[a + 1:], d)
            p = p + adj * edge
        out.append(p)
    return out


def bound(V, rs, side, vals):
    return dot([V.pre[3][2 * k + side] for k in range(rs)], vals)


def along(pt, a, rs):
    return [pt[:a] + (k,) + pt[a + 1:] for k in range(rs)]


def reference(V, nd, rs, deformed):
    """the stated geometry"""
    pts = points(nd, rs)
    R = {'x': {pt: position(V, nd, rs, deformed, pt) for pt in pts}}
    h = V.pre[4][0] * fnum(1, V.pre[4][0]) / 2 ** V.ip[3]
    R['h'] = h
    R['J'] = {pt: [[dot([V.pre[2][k * rs + pt[j]] for k in range(rs)], [R['x'][p][i] for p in along(pt, j, rs)]) / h for j in range(nd)] for i in range(nd)] for pt in pts}
    R['det'] = {pt: det(R['J'][pt]) for pt in pts}
    R['n'] = {pt: [[cof(R['J'][pt], j, i) for j in range(nd)] for i in range(nd)] for pt in pts}
    R['fx'] = {}
    R['fn'] = {}
    for a in range(nd):
        for s in (0, 1):
            for fp in face_points(nd, rs, a):
                k = face_index(nd, rs, a, fp)
                pt = tuple(fp.get(i, 0) for i in range(nd))
                row = along(pt, a, rs)
                R['fx'][(a, s, k)] = [bound(V, rs, s, [R['x'][p][i] for p in row]) for i in range(nd)]
                J = [[bound(V, rs, s, [R['J'][p][i][j] for p in row]) for j in range(nd)] for i in range(nd)]
                R['fn'][(a, s, k)] = [cof(J, j, a) for j in range(nd)]

    def corner(f, v):
        r = 0
        for pt in pts:
            w = fnum(1, V.pre[3][0])
            for i in range(nd):
                w = w * V.pre[3][2 * pt[i] + (v >> (nd - 1 - i) & 1)]
            r = r + w * f(pt)
        return r
    R['sp'] = [h * corner(lambda pt: R['det'][pt], v) / total([norm([corner(lambda pt: R['n'][pt][i][j], v) for j in range(nd)]) for i in range(nd)]) for v in range(2 ** nd)]
    return R


def bufs(nd, rs, deformed):
    nq = rs ** nd
    nfq = nq // rs
    nv = 2 ** nd
    return [fvars('nd', rs), [], fvars('D', rs * rs), fvars('B', 2 * rs), fvars('sz', 4), fvars('v', 3 * nv), fvars('adj', 2 * nd * nfq),
            fvars('x', nd * nq), fvars('fx', 2 * nd * nfq * nd), fvars('jd', (nd * nd + 1) * nq), fvars('f', 2 * nd * nd * nfq), fvars('sp', nv), fvars('v0', 3 * nv), fvars('jac', nd * nd * nq), fvars('h', 1)]


def sampler(nd, rs):
    def sample(rng):
        import numpy
        env = {}
        x = (numpy.polynomial.legendre.leggauss(rs)[0] + 1) / 2
        vm = numpy.vander(x, rs)
        for i in range(rs):
            env['nd_%d' % i] = float(x[i])
        D = numpy.array([[sum(1 / (x[j] - x[m]) for m in range(rs) if m != j) if i == j else
                          numpy.prod([(x[i] - x[m]) / (x[j] - x[m]) for m in range(rs) if m not in (i, j)]) / (x[j] - x[i]) for j in range(rs)] for i in range(rs)])
        B = numpy.vander(numpy.array([0., 1.]), rs) @ numpy.linalg.inv(vm)
        for i in range(rs):
            for j in range(rs):
                env['D_%d' % (j * rs + i)] = float(D[i, j])
            for s in (0, 1):
                env['B_%d' % (2 * i + s)] = float(B[s, i])
        env['sz_0'] = rng.uniform(.5, 2)
        for v in range(2 ** nd):
            for i in range(3):
                env['v_%d' % (3 * v + i)] = (v >> (nd - 1 - i) & 1 if i < nd else 0) * .7 + rng.uniform(-.15, .15)
        for i in range(2 * nd * rs ** (nd - 1)):
            env['adj_%d' % i] = rng.uniform(-.1, .1)
        return env
    return sample


def one(nd, rs, deformed, level, pos, lemma=None):
    nq = rs ** nd
    nfq = nq // rs

    def sets(V):
        V.extra['pos'] = [x if isinstance(x, int) else X.v2r(x, 32, True) for x in V.ip[4:4 + nd]]
        R = reference(V, nd, rs, deformed)
        h = R['h']
        d = {(14, 0): h}
        for v in range(2 ** nd):
            for i in range(3):
                d[(12, 3 * v + i)] = (V.extra['pos'][i] + (v >> (nd - 1 - i) & 1)) * h + V.pre[4][1 + i] if i < nd else 0
        pts = points(nd, rs)
        for q, pt in enumerate(pts):
            for i in range(nd):
                d[(7, q * nd + i)] = R['x'][pt][i]
        for a in range(nd):
            for s in (0, 1):
                for k in range(nfq):
                    for i in range(nd):
                        d[(8, ((2 * a + s) * nfq + k) * nd + i)] = R['fx'][(a, s, k)][i]
        if deformed:
            for q, pt in enumerate(pts):
                for i in range(nd):
                    for j in range(nd):
                        d[(9, (i * nd + j) * nq + q)] = R['n'][pt][i][j]
                    for j in range(nd):
                        d[(13, (i * nd + j) * nq + q)] = R['J'][pt][i][j]
                d[(9, nd * nd * nq + q)] = R['det'][pt]
        else:
            for q, pt in enumerate(pts):
                d[(9, nd * nd * nq + q)] = 1
                for i in range(nd):
                    for j in range(nd):
                        d[(13, (i * nd + j) * nq + q)] = int(i == j)
        for a in range(nd):
            for s in (0, 1):
                for k in range(nfq):
                    for i in range(nd):
                        d[(10, ((2 * a + s) * nd + i) * nfq + k)] = R['fn'][(a, s, k)][i] if deformed else int(i == a)
        for v in range(2 ** nd):
            d[(11, v)] = R['sp'][v] if deformed else h / nd
        return d
    def post(V):
        n = lambda i, j, pt: V.post[9][(i * nd + j) * nq + points(nd, rs).index(pt)]  # noqa: E731
        for pt in points(nd, rs):
            for j in range(nd):
                t = 0
                for i in range(nd):
                    t = t + dot([V.pre[2][k * rs + pt[i]] for k in range(rs)], [n(i, j, p) for p in along(pt, i, rs)])
                yield ('the divergence of the area vectors vanishes at point %s component %d' % (pt, j), t, fnum(0, V.pre[2][0]))
    pre = [X.rlt(0, X.var('sz_0'))]
    return Case('geometry nd=%d rs=%d %s level=%d pos=%s' % (nd, rs, 'deformed' if deformed else 'cartesian', level, 'any'), 'geometry', bufs(nd, rs, deformed),
                [nd, rs, int(deformed), level] + pos[:nd] + [0] * (3 - nd), sets=sets, post=post if deformed and nd == 2 else None, sample=sampler(nd, rs), foreach=False, pre=pre, contracts=CONTRACTS)




def cases(nd, rs):
    n = [X.var('pos_%d' % i, 32) for i in range(3)]
    return [one(nd, rs, de, lv, n) for de in (0, 1) for lv in (0, 3)]


SRC = ['geometry.cpp', 'tree_rt.cpp'] + ['src/%s.cpp' % s for s in ('Deformed_element', 'Element', 'Vertex', 'Storage_params', 'math', 'Lock', 'Basis')]


def jobs(tier):
    szs = [(1, 2), (2, 2), (2, 3), (2, 5), (3, 2), (3, 3)] if tier == 'quick' else [(1, r) for r in range(2, 9)] + [(2, r) for r in range(2, 7)] + [(3, 2), (3, 3), (3, 4)]
    return [Job('geometry nd=%d rs=%d' % (nd, rs), SRC, 'specs.geometry.cases', {'nd': nd, 'rs': rs}, [], extra=['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_NO_CPUID'],
                native_sources=[s for s in SRC if s != 'tree_rt.cpp']) for nd, rs in szs[::-1]]


ASSUMED = ['Eigen PartialPivLU::compute of an invertible matrix: its factors satisfy P A = L U (the code using the factors is checked)']
