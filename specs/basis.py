"""contracts of the quadrature bases: every accessor, for every row size the code can be instantiated with"""
from .common import *
from vc.contract import Case
from vc.run import Job

TOL = F(1, 10 ** 13)


def leg_poly(n):
    """coefficients of the shifted Legendre polynomial P_n(2x-1), lowest first (exact)"""
    def mul(p, q):
        r = [F(0)] * (len(p) + len(q) - 1)
        for i, a in enumerate(p):
            for j, b in enumerate(q):
                r[i + j] += a * b
        return r
    x = [F(-1), F(2)]
    p0, p1 = [F(1)], x
    if n == 0:
        return p0
    for k in range(1, n):
        a = mul(x, p1)
        b = p0 + [F(0)] * (len(a) - len(p0))
        p0, p1 = p1, [((2 * k + 1) * u - k * v) / (k + 1) for u, v in zip(a, b)]
    return p1


def ev(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def dpoly(p):
    return [i * c for i, c in enumerate(p)][1:] or [F(0)]


def close(a, b, tol=TOL):
    return int(abs(F(a) - F(b)) <= tol * (1 + abs(F(b))))


_exact = {}


def exact_nodes(kind, n):
    """nodes to 60 digits, by bisection on the defining polynomial (independent of the generator)"""
    if (kind, n) in _exact:
        return _exact[(kind, n)]
    p = leg_poly(n) if kind == 'legendre' else dpoly(leg_poly(n - 1))
    roots = []
    N = 400
    den = 10 ** 40
    xs = [F(i, N) + F(1, 7919 * N) for i in range(-1, N + 1)]
    for a, b in zip(xs, xs[1:]):
        fa, fb = ev(p, a), ev(p, b)
        if fa * fb < 0:
            for _ in range(120):
                m = (a + b) / 2
                m = F(round(m * den), den)
                fm = ev(p, m)
                if fm == 0:
                    a = b = m
                    break
                if fa * fm < 0:
                    b = m
                else:
                    a, fa = m, fm
                if b - a < F(2, den):
                    break
            roots.append((a + b) / 2)
    if kind == 'lobatto':
        roots = [F(0)] + roots + [F(1)]
    assert len(roots) == n, (kind, n, len(roots))
    _exact[(kind, n)] = roots
    return roots


def lagrange(nodes, j, x):
    r = F(1)
    for m, xm in enumerate(nodes):
        if m != j:
            r = r * (x - xm) / (nodes[j] - xm)
    return r


def dlagrange(nodes, j, x):
    t = F(0)
    for k, xk in enumerate(nodes):
        if k == j:
            continue
        r = F(1)
        for m, xm in enumerate(nodes):
            if m != j and m != k:
                r = r * (x - xm) / (nodes[j] - xm)
        t += r / (nodes[j] - xk)
    return t


def weights(kind, n):
    x = exact_nodes(kind, n)
    # integrate the Lagrange polynomials exactly
    out = []
    for j in range(n):
        p = [F(1)]
        for m in range(n):
            if m != j:
                q_ = [F(0)] * (len(p) + 1)
                for i, c in enumerate(p):
                    q_[i] += c * (-x[m]) / (x[j] - x[m])
                    q_[i + 1] += c / (x[j] - x[m])
                p = q_
        out.append(sum(c / (i + 1) for i, c in enumerate(p)))
    return out


def nodes_of(kind, n):
    if kind == 'equidistant':
        return [F(i, n - 1) for i in range(n)]
    return exact_nodes(kind, n)


def num(x):
    return F(x) if not isinstance(x, float) else F(x)


def ortho(kind, n, deg):
    x, w = nodes_of(kind, n), weights(kind, n)
    v = [ev(leg_poly(deg), t) for t in x]
    nrm2 = sum(a * a * b for a, b in zip(v, w))
    import math
    s = F(math.isqrt(int(nrm2 * 10 ** 60)), 10 ** 30)
    return [a / s for a in v]


def eig_reference(kind, n):
    """smallest real parts of the spectra of upwind advection and of the averaged (LDG) diffusion operator on 16 periodic elements"""
    import numpy as np
    x = [float(t) for t in nodes_of(kind, n)]
    w = np.array([float(t) for t in weights(kind, n)])
    D = np.array([[float(dlagrange(nodes_of(kind, n), j, nodes_of(kind, n)[i])) for j in range(n)] for i in range(n)])
    b = np.array([[float(lagrange(nodes_of(kind, n), j, F(s))) for j in range(n)] for s in (0, 1)])
    N = 16

    def op(left, right):
        """D u + lift(face value - own value); left/right: weights (own, neighbour) of the face value"""
        A = np.zeros((N * n, N * n))
        for e in range(N):
            r = slice(e * n, e * n + n)
            A[r, r] += D
            for s, nb, wt in ((0, (e - 1) % N, left), (1, (e + 1) % N, right)):
                sg = 2 * s - 1
                lift = sg * b[s] / w
                A[r, r] += np.outer(lift, (wt[0] - 1) * b[s])
                A[r, nb * n:nb * n + n] += np.outer(lift, wt[1] * b[1 - s])
        return A
    adv = -op((0, 1), (1, 0))
    c = op((.5, .5), (.5, .5))
    return [float(np.linalg.eigvals(m).real.min()) for m in (adv, c @ c)]


def table_case(kind, n, what, arg=0):
    names = ['nodes', 'weights', 'differentiation matrix', 'boundary values', 'orthogonal polynomial', 'filter', 'prolongation', 'restriction', 'eigenvalues', 'node vector', 'interpolation']
    unavailable = (kind == 'lobatto' and what in (6, 7)) or (kind == 'equidistant' and what in (1, 4, 5, 6, 7, 8))
    bad = kind != 'equidistant' and not 2 <= n <= 8

    def post(V):
        if unavailable or bad:
            yield ('request that cannot be served is refused', int(V.post[1][0] == 1))
            return
        yield ('no exception', int(V.post[1][0] == 0))
        x = nodes_of(kind, n)
        R = V.post[0]
        shape = {1: (n, 1), 2: (n, n), 3: (2, n), 4: (n, 1), 5: (n, n), 6: (n, n), 7: (n, n), 9: (n, 1), 10: (2, n)}.get(what)
        if shape:
            yield ('shape', int(V.post[1][1] == shape[0] and V.post[1][2] == shape[1]))
        if what in (0, 9):
            want = x
        elif what == 1:
            want = weights(kind, n)
            for k in range(2 * n if kind == 'legendre' else 2 * n - 2):
                yield ('quadrature is exact for degree %d' % k, close(sum(num(R[i]) * x[i] ** k for i in range(n)), F(1, k + 1)))
        elif what == 2:
            want = [dlagrange(x, j, x[i]) for i in range(n) for j in range(n)]
        elif what == 3:
            want = [lagrange(x, j, F(s)) for s in (0, 1) for j in range(n)]
        elif what == 4:
            want = ortho(kind, n, arg)
        elif what == 5:
            o = [ortho(kind, n, d) for d in range(n)]
            w = weights(kind, n)
            want = [sum(o[d][i] * F(1, 2 ** d) * o[d][j] * w[j] for d in range(n)) for i in range(n) for j in range(n)]
        elif what == 6:
            want = [lagrange(x, j, (x[i] + arg) / 2) for i in range(n) for j in range(n)]
        elif what == 7:
            w = weights(kind, n)
            want = [w[j] / 2 * lagrange(x, i, (x[j] + arg) / 2) / w[i] for i in range(n) for j in range(n)]
        elif what == 8:
            e = eig_reference(kind, n)
            yield ('diffusion eigenvalue', close(num(R[0]), F(e[1]), F(1, 10 ** 5)))
            # quadratic safety factor between 0 and 1; step ratio .5/safety
            yield ('stable step sizes: cfl*ratio = -1/(convection eigenvalue)', close(num(R[1]) * num(R[2]), F(-1 / e[0]), F(1, 10 ** 5)))
            return
        elif what == 10:
            want = [lagrange(x, j, num(V.pre[2][s])) for s in (0, 1) for j in range(n)]
        for i, e in enumerate(want):
            yield ('%s entry %d' % (names[what], i), close(num(R[i]), e))

    def free(b, i):
        return b < 2
    bufs = [[F(777)] * (n * n + 4), [F(777)] * 3, [F(1, 4), F(11, 8)]]
    bufs = [[int(x) if F(x).denominator == 1 else x for x in b] for b in bufs]
    return Case('%s rs=%d %s %d' % (kind, n, names[what], arg), 'ba_' + kind, bufs, [n, what, arg], post=post, free=free, foreach=False)


def table_cases(kind, lo, hi):
    out = []
    for n in range(lo, hi + 1):
        for what in range(11):
            for arg in (range(n) if what == 4 else (0, 1) if what in (6, 7) else (0,)):
                out.append(table_case(kind, n, what, arg))
    return out


def refusal_cases(kind):
    """row sizes outside of the generated range are refused by the table accessors"""
    return [table_case(kind, n, w) for n in (1, 9, 10) for w in (1, 2, 3, 4, 5, 6, 7)]


def interp_cases(sizes):
    out = []
    for n in sizes:
        x = fvars('x', n)
        s = fvars('s', 2)

        def sets(V, n=n):
            d = {}
            for i in range(2):
                for j in range(n):
                    r = fnum(1, V.pre[0][0])
                    for m in range(n):
                        if m != j:
                            r = r * (V.pre[1][i] - V.pre[0][m]) / (V.pre[0][j] - V.pre[0][m])
                    d[(2, i * n + j)] = r
            return d
        out.append(Case('interpolation with arbitrary nodes rs=%d' % n, 'ba_interpolate', [x, s, [0] * (2 * n)], [n, 2], sets=sets, foreach=False,
                        sample=lambda rng, n=n: {'x_%d' % i: i + rng.uniform(0, .5) for i in range(n)}))
    out.append(Case('step sizes from eigenvalues', 'ba_cfl', [fvars('e', 3), [0, 0]], [], foreach=False,
                    sets=lambda V: {(1, 0): fnum(-2, V.pre[0][0]) * V.pre[0][1] / V.pre[0][0], (1, 1): fnum(F(1, 2), V.pre[0][0]) / V.pre[0][1]},
                    sample=lambda rng: {'e_0': -rng.uniform(1, 9), 'e_1': rng.uniform(.3, 1)}))
    return out


SRC = ['basis.cpp', 'src/Basis.cpp', 'src/Equidistant.cpp', 'gen:Gauss_legendre.cpp', 'gen:Gauss_lobatto.cpp']


def jobs(tier):
    out = []
    for k in ('legendre', 'lobatto', 'equidistant'):
        for n in range(8, 1, -1):
            out.append(Job('%s %d' % (k, n), SRC, 'specs.basis.table_cases', {'kind': k, 'lo': n, 'hi': n}))
    out += [Job('refusal ' + k, SRC, 'specs.basis.refusal_cases', {'kind': k}) for k in ('legendre', 'lobatto')]
    out.append(Job('interpolate', SRC, 'specs.basis.interp_cases', {'sizes': [2, 3, 4] if tier == 'quick' else list(range(2, 9))}))
    return out
