"""contracts of the functions of the solution offered to the user and of the values given to visualisation"""
import itertools
import math
from fractions import Fraction
from .common import *
from .common import total, dot
from . import geometry
from vc.contract import Case
from vc.exec import snap
from vc.run import Job

F = Fraction
PI = snap(F(math.pi))
SMALL = snap(F(1e-3))


class View:
    """what the geometry contracts read"""
    def __init__(self, V, nd, rs):
        self.pre = list(V.pre)
        self.pre[6] = [0] * (2 * nd * rs ** (nd - 1))
        self.ip = V.ip
        self.extra = {'pos': [2] * nd}


def bufs(nd, rs, n13, n14=24, n6=None):
    nq = rs ** nd
    nfq = nq // rs
    return [fvars('nd', rs), fvars('w', rs), fvars('D', rs * rs), fvars('B', 2 * rs), fvars('sz', 5), fvars('v', 3 * 2 ** nd), fvars('u', n6 or (nd + 9 + rs) * nq), fvars('res', (nd + 2) * nq),
            fvars('f', (3 * (nd + 2) + 2 * nd) * nfq), fvars('par', 12), [], [], fvars('orth', rs * rs), fvars('out', n13), fvars('fact', n14)]


def sampler(nd, rs):
    base = geometry.sampler(nd, rs)

    def sample(rng):
        env = base(rng)
        nq = rs ** nd
        nfq = nq // rs
        for i in range(nq):
            s = pos_state_sample(rng, nd)
            for v in range(nd + 2):
                env['u_%d' % (v * nq + i)] = s[v]
            env['u_%d' % ((nd + 2) * nq + i)] = rng.uniform(.5, 2)
        s = pos_state_sample(rng, nd)
        for i in range(nfq):
            s = pos_state_sample(rng, nd)
            for v in range(nd + 2):
                env['f_%d' % (v * nfq + i)] = s[v]
        for i in range(rs):
            env['w_%d' % i] = rng.uniform(.2, 1)
        for i in range(12):
            env['par_%d' % i] = rng.uniform(1.1, 1.6)
        env['sz_4'] = rng.uniform(0, 1)
        return env
    return sample


def arg_sampler(nd, rs):
    """the arguments are passed directly"""
    base = sampler(nd, rs)

    def sample(rng):
        env = base(rng)
        s = pos_state_sample(rng, nd)
        for v in range(nd + 2):
            env['u_%d' % v] = s[v]
        return env
    return sample


# ---------------------------------------------------------------- what each function is
def msq(s):
    return total([x * x for x in s[:-2]])


def pres(g, s):
    return (g - 1) * (s[-1] - msq(s) / s[-2] / 2)


def stag(g, s):
    p = pres(g, s)
    # isentropic relation: p (1 + (g-1)/2 M^2)^(g/(g-1))
    return p * X.rfn('pow', 1 + (g - 1) / 2 * (msq(s) / (g * p * s[-2])), g / (g - 1))


def unit(n):
    m = norm(n)
    return [x / m for x in n]


def doublet(par, pos, nd):
    loc, R, g, s = par[:2], par[2], par[3], par[4:4 + nd + 2]
    rho = s[nd]
    u = [s[0] / rho, s[1] / rho]
    U2 = u[0] * u[0] + u[1] * u[1]
    U = X.rsqrt(U2)
    al = X.rfn('atan2', u[1], u[0])
    p = (g - 1) * (s[nd + 1] - U2 * rho / 2)
    H = (s[nd + 1] + p) / rho
    x = [pos[0] - loc[0], pos[1] - loc[1]]
    r = X.rsqrt(x[0] * x[0] + x[1] * x[1])
    th = X.rfn('atan2', x[1], x[0])
    a = R * R / (r * r)
    vr = (1 - a) * U * X.rfn('cos', th - al)
    vt = -(1 + a) * U * X.rfn('sin', th - al)
    c, sn = X.rfn('cos', th), X.rfn('sin', th)
    v = [vr * c - vt * sn, vr * sn + vt * c]
    ke = (v[0] * v[0] + v[1] * v[1]) / 2
    h = H - ke
    m = rho * X.rfn('pow', h / (H - U2 / 2), 1 / (g - 1))
    out = list(s)
    out[0], out[1], out[nd], out[nd + 1] = v[0] * m, v[1] * m, m, m * (h / g + ke)
    return out


def ipow(x, n):
    r = 1
    for _ in range(abs(n)):
        r = r * x
    return r if n >= 0 else 1 / r


# functions of position, time, state (and normal): k = integer parameters, a = real parameters
POINT = {
    0: ('state', lambda a, k, x, t, s, n: s),
    1: ('pressure', lambda a, k, x, t, s, n: [pres(a[0], s)]),
    2: ('stagnation pressure', lambda a, k, x, t, s, n: [stag(a[0], s)]),
    3: ('velocity', lambda a, k, x, t, s, n: [m / s[-2] for m in s[:-2]]),
    4: ('mass', lambda a, k, x, t, s, n: [s[-2]]),
    5: ('stabilisation indicator', lambda a, k, x, t, s, n: [1 / s[-2]]),
    6: ('Mach number', lambda a, k, x, t, s, n: [X.rsqrt(msq(s) / (a[0] * pres(a[0], s) * s[-2]))]),
    7: ('squared difference', lambda a, k, x, t, s, n: [(m / s[-2] - a[i]) * (m / s[-2] - a[i]) for i, m in enumerate(s[:-2])]),
    8: ('error', lambda a, k, x, t, s, n: [(m - a[i]) * (m - a[i]) for i, m in enumerate(s)]),
    9: ('normal', lambda a, k, x, t, s, n: n),
    10: ('pressure stress', lambda a, k, x, t, s, n: [-y * pres(a[0], s) for y in unit(n)]),
    32: ('constant', lambda a, k, x, t, s, n: a[:k[0]]),
    33: ('position', lambda a, k, x, t, s, n: x),
    34: ('linear', lambda a, k, x, t, s, n: [dot(a[:min(k[0], len(x))], x[:min(k[0], len(x))])]),
    35: ('doublet', lambda a, k, x, t, s, n: doublet(a, x, len(x))),
    36: ('Sod', lambda a, k, x, t, s, n: [0] * len(x) + [X.rite(X.rlt(x[0], F(1, 2)), 1, F(1, 8)), X.rite(X.rlt(x[0], F(1, 2)), 1, F(1, 10)) / (a[0] - 1)]),
    37: ('Gaussian', lambda a, k, x, t, s, n: [X.rfn('exp', -total([(y / a[min(i, k[0] - 1)]) * (y / a[min(i, k[0] - 1)]) for i, y in enumerate(x)]) / 2)]),
    38: ('annular diffusion', lambda a, k, x, t, s, n: [0] * len(x) + [a[0] * X.rfn('log', norm(x) / a[1]), a[2]]),
    42: ('nothing', lambda a, k, x, t, s, n: []),
}
SURFACE = (9, 10)
SPACETIME = (32, 33, 34, 35, 36, 37, 38, 42)


def point_case(nd, rs, de, fn, route, k=(), face=(0, 0)):
    name, f = POINT[fn]
    nq = rs ** nd
    nfq = nq // rs
    n_pt = {0: 1, 1: nq, 2: nfq}[route]

    def vals(V):
        a, t = V.pre[9][1:], V.pre[9][0]
        if route == 0:
            yield f(a, k, V.pre[5][:nd], t, V.pre[6][:nd + 2], V.pre[8][:nd])
        elif route == 1:
            W = View(V, nd, rs)
            for q, pt in enumerate(geometry.points(nd, rs)):
                yield f(a, k, geometry.position(W, nd, rs, de, pt), t, [V.pre[6][v * nq + q] for v in range(nd + 2)], None)
        else:
            o = 2 * (nd + 2) * nfq
            for q in range(nfq):
                n = [V.pre[8][o + i * nfq + q] * (1 - 2 * face[1]) for i in range(nd)]
                yield f(a, k, [V.pre[8][o + (nd + i) * nfq + q] for i in range(nd)], t, [V.pre[8][v * nfq + q] for v in range(nd + 2)], unit(n))
    return values_case('%s nd=%d rs=%d %s %s%s%s' % (name, nd, rs, ('given arguments', 'in an element', 'on a boundary')[route], 'deformed ' * de, 'face %d%d ' % face if route == 2 else '', 'parameters %s' % (k,) if k else ''),
                       nd, rs, de, fn, route, vals, n_pt, k, face)


def values_case(name, nd, rs, de, fn, route, vals, n_pt, k=(), face=(0, 0), level=1, pre=(), throws=None):
    def post(V):
        for q, v in enumerate(vals(V)):
            if q == 0:
                yield ('number of components announced', V.post[14][0], len(v))
                yield ('number of components', V.post[14][1], len(v))
            for i, x in enumerate(v):
                yield ('point %d component %d' % (q, i), V.post[13][q * len(v) + i], x)
    kw = {'merge': True} if fn == 29 else {}
    if throws:
        kw = {**kw, 'throws': lambda V: [('rejected', 1)]}
        post = lambda V: [('must be rejected', 0)]  # noqa: E731
    return Case(name, 'out_run', bufs(nd, rs, max(1, n_pt * 8)), [nd, rs, int(de), level, fn, route] + list(face) + list(k) + [0] * (4 - len(k)), sets=lambda V: {}, post=post, free=lambda b, i: b >= 13,
                sample=(arg_sampler if route == 0 else sampler)(nd, rs), foreach=False, contracts=geometry.CONTRACTS, pre=[X.rlt(0, X.var('sz_0'))] + list(pre), **kw)


def point_cases(nd, rs):
    out = []
    par = {32: [(1,), (nd + 2,)], 34: [(1,), (nd,), (nd + 2,)], 37: [(1,), (2,), (nd,)]}
    for fn in POINT:
        if fn == 35 and nd == 1:
            continue
        for k in par.get(fn, [()]):
            out.append(point_case(nd, rs, 0, fn, 0, k))
            if fn not in SURFACE:
                out.append(point_case(nd, rs, 0, fn, 1, k))
                if fn in (33, 37, 38, 0):
                    out.append(point_case(nd, rs, 1, fn, 1, k))
            for face in [(a, s) for a in range(nd) for s in (0, 1)]:
                if fn in (9, 10, 0, 33) or face == (nd - 1, 1):
                    out.append(point_case(nd, rs, int(sum(face) % 2), fn, 2, k, face))
    return out


# ---------------------------------------------------------------- functions of element data
def elem_case(nd, rs, de, fn, name, f, k=(), level=1, route=1, **kw):
    """f(V, q, W) -> components at point q"""
    nq = rs ** nd

    def vals(V):
        W = View(V, nd, rs)
        for q in range(nq if route == 1 else nq // rs):
            yield f(V, q, W)
    return values_case('%s nd=%d rs=%d level=%d%s%s%s' % (name, nd, rs, level, ' deformed' * de, ' parameters %s' % (k,) if k else '', ' on a boundary' if route == 2 else ''), nd, rs, de, fn, route, vals, nq, k, level=level, **kw)


def dets(V, nd, rs, de, W):
    pts = geometry.points(nd, rs)
    if not de:
        return [1 for _ in pts]
    if 'det' not in V.extra:
        V.extra['R'] = geometry.reference(W, nd, rs, 1)
        V.extra['det'] = [V.extra['R']['det'][pt] for pt in pts]
    return V.extra['det']


def average(V, nd, rs, de, W, val, p=1):
    pts = geometry.points(nd, rs)
    d = dets(V, nd, rs, de, W)
    w = []
    for q, pt in enumerate(pts):
        x = d[q]
        for i in pt:
            x = x * V.pre[1][i]
        w.append(x)
    vol = total(w)
    n = len(val(0))
    return [total([w[q] * ipow(val(q)[v], p) for q in range(len(pts))]) / vol for v in range(n)]


def once(V, key, fn):
    if key not in V.extra:
        V.extra[key] = fn()
    return V.extra[key]


def nonsmooth(V, nd, rs, val, n):
    """root mean square over the axes of the L2 norm of the coefficient of the highest one-dimensional orthogonal polynomial"""
    pts = geometry.points(nd, rs)
    P = [V.pre[12][(rs - 1) * rs + i] for i in range(rs)]
    w = V.pre[1]
    out = []
    for v in range(n):
        t = 0
        for a in range(nd):
            for fp in itertools.product(range(rs), repeat=nd - 1):
                c = 0
                ww = 1
                for i in fp:
                    ww = ww * w[i]
                for j in range(rs):
                    pt = fp[:a] + (j,) + fp[a:]
                    c = c + w[j] * P[j] * val(pts.index(pt))[v]
                t = t + ww * c * c
        out.append(X.rsqrt(t / nd))
    return out


def skew(V, nd, rs, de, W):
    if not de:
        J = lambda v: [[int(i == j) for j in range(nd)] for i in range(nd)]  # noqa: E731
    else:
        R = geometry.reference(W, nd, rs, 1)

        def J(v):
            out = []
            for i in range(nd):
                row = []
                for j in range(nd):
                    t = 0
                    for pt in geometry.points(nd, rs):
                        w = 1
                        for d in range(nd):
                            w = w * V.pre[3][2 * pt[d] + (v >> (nd - 1 - d) & 1)]
                        t = t + w * R['J'][pt][i][j]
                    row.append(t)
                out.append(row)
            return out
    m = 0
    for v in range(2 ** nd):
        jac = J(v)
        for i in range(nd):
            for j in range(i + 1, nd):
                a = [jac[r][i] for r in range(nd)]
                b = [jac[r][j] for r in range(nd)]
                na, nb = (X.rite(X.rlt(0, total([x * x for x in y])), norm(y), 1) if de else 1 for y in (a, b))
                c = total([(F(x) / na if isinstance(x, int) else x / na) * (F(y) / nb if isinstance(y, int) else y / nb) for x, y in zip(a, b)])
                ang = X.rfn('acos', c)
                m = X.rmax(m, X.rabs(2 * ang / PI - 1))
    return m


def skew_cases(nd, rs):
    out = [elem_case(nd, rs, 0, 29, 'skewness', lambda V, q, W: [once(V, 'sk', lambda: skew(V, nd, rs, 0, W))])]
    if nd == 1:
        out.append(elem_case(nd, rs, 1, 29, 'skewness', lambda V, q, W: [once(V, 'sk', lambda: skew(V, nd, rs, 1, W))]))
    elif rs == 2:
        # elements of given shapes, with nodes at the ends of the reference interval
        shears = [(i, j, x) for i in range(nd) for j in range(nd) if i != j for x in (F(3, 4), F(-4, 3))]
        shapes = [(str(sh), [[F(i == j) + (sh[2] if (i, j) == sh[:2] else 0) for j in range(nd)] for i in range(nd)], 0) for sh in shears]
        shapes.append(('warped', [[F(1 + (i + 2 * j) % 5, 4) if i != j else F(2) for j in range(nd)] for i in range(nd)], F(1, 8)))
        for name, A, warp in shapes:
            c = elem_case(nd, rs, 1, 29, 'skewness of shape ' + name, lambda V, q, W: [once(V, 'sk', lambda: skew(V, nd, rs, 1, W))], level=0)
            v = []
            for k in range(2 ** nd):
                r = [F(k >> (nd - 1 - d) & 1) for d in range(nd)]
                v += ([sum(A[i][j] * r[j] for j in range(nd)) + warp * (k == i + 1) for i in range(nd)] + [F(0)] * 3)[:3]
            c.bufs[0], c.bufs[2], c.bufs[3], c.bufs[4], c.bufs[5] = [F(0), F(1)], [F(-1), F(-1), F(1), F(1)], [F(1), F(0), F(0), F(1)], [F(3, 2), F(0), F(0), F(0), F(0)], v
            out.append(c)
    return out


def elem_cases(nd, rs):
    nq = rs ** nd
    st = lambda V, q, n=nd + 2: [V.pre[6][v * nq + q] for v in range(n)]  # noqa: E731
    vel = lambda V, q: [V.pre[6][v * nq + q] / V.pre[6][nd * nq + q] for v in range(nd)]  # noqa: E731
    out = []

    def add(de, fn, name, f, k=(), **kw):
        out.append(elem_case(nd, rs, de, fn, name, f, k, **kw))
    for de in (0, 1):
        add(de, 13, 'Jacobian determinant', lambda V, q, W, de=de: [dets(V, nd, rs, de, W)[q]])
        add(de, 14, 'inverse Jacobian determinant', lambda V, q, W, de=de: [1 / (fnum(1, V.pre[1][0]) * dets(V, nd, rs, de, W)[q])])
        add(de, 30, 'deformed', lambda V, q, W, de=de: [de])
        add(de, 30, 'deformed', lambda V, q, W, de=de: [de], route=2)
        if (nd, rs) in ((1, 2), (2, 2), (1, 3), (3, 2)):
            if de == 0 or nd < 3:
                add(de, 25, 'average', lambda V, q, W, de=de: once(V, 'avg', lambda: average(V, nd, rs, de, W, lambda p: st(V, p))), pre=(X.rlt(0, X.var('w_0')),))
                add(de, 26, 'L2 norm', lambda V, q, W, de=de: once(V, 'l2', lambda: [X.rsqrt(x) for x in average(V, nd, rs, de, W, lambda p: st(V, p), 2)]))
                add(de, 28, 'normalised nonsmoothness', lambda V, q, W, de=de: once(V, 'nns', lambda: [x / X.rsqrt(y) for x, y in zip(nonsmooth(V, nd, rs, lambda p: st(V, p), nd + 2), average(V, nd, rs, de, W, lambda p: st(V, p), 2))]))
                add(de, 41, 'concatenated element functions', lambda V, q, W, de=de: once(V, 'cef', lambda: [V.pre[4][4]] + average(V, nd, rs, de, W, lambda p: vel(V, p))))
    add(0, 27, 'nonsmoothness', lambda V, q, W: once(V, 'ns', lambda: nonsmooth(V, nd, rs, lambda p: st(V, p), nd + 2)))
    add(0, 15, 'time step scale', lambda V, q, W: [V.pre[6][(nd + 2) * nq + q]])
    add(1, 16, 'residual', lambda V, q, W: [V.pre[7][v * nq + q] / V.pre[6][(nd + 2) * nq + q] for v in range(nd + 2)])
    add(0, 17, 'artificial viscosity', lambda V, q, W: [V.pre[6][(nd + 3) * nq + q]])
    add(0, 18, 'admissibility coefficient', lambda V, q, W: [V.pre[6][(nd + 4) * nq + q]])
    add(0, 23, 'forcing', lambda V, q, W: [V.pre[6][(nd + 5 + v) * nq + q] for v in range(4)])
    add(0, 22, 'advection state', lambda V, q, W: [V.pre[6][(nd + 9 + v) * nq + q] for v in range(rs)], (rs,))
    for r in (rs - 1, rs + 1):
        add(0, 22, 'advection state', lambda V, q, W: [0], (r,), throws=True)
    add(0, 24, 'uncertainty', lambda V, q, W: [V.pre[4][4]])
    add(1, 24, 'uncertainty', lambda V, q, W: [V.pre[4][4]], route=2)
    add(0, 31, 'has tree', lambda V, q, W: [0])
    for c in range(nd + 2):
        add(0, 19, 'component', lambda V, q, W, c=c: [st(V, q)[c]], (c,))
        add(0, 20, 'scaled', lambda V, q, W, c=c: [(st(V, q)[c] - V.pre[9][1]) / (V.pre[9][2] - V.pre[9][1])], (c,))
    for p in (-2, -1, 0, 1, 2, 3):
        add(0, 21, 'power', lambda V, q, W, p=p: [ipow(x, p) if p else 1 for x in st(V, q)], (p,))
    add(0, 39, 'concatenated', lambda V, q, W: [st(V, q)[nd]] + vel(V, q) + [V.pre[6][(nd + 3) * nq + q]])
    nfq = nq // rs
    for face in [(a, s) for a in range(nd) for s in (0, 1)]:
        def geo(V, q, face=face):
            o = 2 * (nd + 2) * nfq
            n = [V.pre[8][o + i * nfq + q] * (1 - 2 * face[1]) for i in range(nd)]
            fl = [V.pre[8][(2 * (nd + 2) + 2 * nd + v) * nfq + q] for v in range(nd + 2)]
            return n, [V.pre[8][v * nfq + q] for v in range(nd + 2)], fl
        for de in (0, 1):
            # flux through the surface into the wall, per area: minus the flux along the normal that points into the domain
            def vis(V, q, W, face=face, sel=None):
                n, s, fl = geo(V, q)
                m = norm(n)
                return [X.rite(X.rlt(SMALL, m), -fl[v] * (1 - 2 * face[1]) / m, 0) for v in sel]

            out.append(elem_case(nd, rs, de, 11, 'viscous stress face %d%d' % face, lambda V, q, W, vis=vis: vis(V, q, W, sel=range(nd)), route=2, face=face))
            out.append(elem_case(nd, rs, de, 12, 'heat flux face %d%d' % face, lambda V, q, W, vis=vis: vis(V, q, W, sel=[nd + 1]), route=2, face=face))
            out.append(elem_case(nd, rs, de, 40, 'concatenated boundary functions face %d%d' % face, lambda V, q, W, geo=geo: unit(geo(V, q)[0]) + geo(V, q)[1], route=2, face=face))
    return out


# ---------------------------------------------------------------- variables of expressions
def hil_case(nd, rs, de, what, visc=0, tree=0, snapp=0, pt=0, face=(0, 0), level=1):
    nq = rs ** nd
    nfq = nq // rs
    nv = 2 ** nd
    count = (9, 3, 8, 16)[what]

    def vals(V):
        W = View(V, nd, rs)
        pad = lambda x: list(x) + [0] * (3 - len(x))  # noqa: E731
        if what == 0:
            h = V.pre[4][0] * fnum(1, V.pre[4][0]) / 2 ** level
            return [1 - tree, de, level, h, V.pre[4][4], snapp] + [total([V.pre[5][3 * v + i] for v in range(nv)]) / nv for i in range(3)]
        if what == 1:
            return pad(geometry.position(W, nd, rs, de, geometry.points(nd, rs)[pt]))
        if what == 2:
            u = lambda v: V.pre[6][v * nq + pt]  # noqa: E731
            return pad([u(i) for i in range(nd)]) + [u(v) for v in range(nd, nd + 5)]
        o = 2 * (nd + 2) * nfq
        sg = 1 - 2 * face[1]
        n = [V.pre[8][o + i * nfq + pt] * sg for i in range(nd)]
        m = norm(n)
        x = [V.pre[8][o + (nd + i) * nfq + pt] for i in range(nd)]
        s = [V.pre[8][v * nfq + pt] for v in range(nd + 2)]
        fl = [X.rite(X.rlt(SMALL, m), -V.pre[8][o + (2 * nd + v) * nfq + pt] * sg / m, 0) if visc else 0 for v in range(nd + 2)]
        return pad(x) + pad(unit(n)) + pad(s[:nd]) + s[nd:] + pad(fl[:nd]) + fl[nd:]

    def post(V):
        for i, x in enumerate(vals(V)):
            yield ('variable %d is there' % i, V.post[14][i], 1)
            yield ('variable %d' % i, V.post[13][i], x)
    return Case('expression variables nd=%d rs=%d %s %s' % (nd, rs, ('element', 'position', 'state', 'surface')[what], (de, visc, tree, snapp, pt, face, level)), 'out_hil', bufs(nd, rs, 16), [nd, rs, de, level, 0, 0] + list(face) + [visc, tree, snapp, pt, what],
                sets=lambda V: {}, post=post, free=lambda b, i: b >= 13, sample=sampler(nd, rs), foreach=False, contracts=geometry.CONTRACTS, pre=[X.rlt(0, X.var('sz_0'))])


def hil_cases(nd, rs):
    nq = rs ** nd
    nfq = nq // rs
    out = []
    for de in (0, 1):
        for tree, sn, lv in ((0, 0, 1), (1, 0, 2), (0, 1, 0)):
            out.append(hil_case(nd, rs, de, 0, 0, tree, sn, level=lv))
        for pt in (0, nq - 1, nq // 2):
            out.append(hil_case(nd, rs, de, 1, pt=pt))
            out.append(hil_case(nd, rs, de, 2, pt=pt))
        for i, face in enumerate([(a, s) for a in range(nd) for s in (0, 1)]):
            out.append(hil_case(nd, rs, de, 3, (i + de) % 3, pt=nfq - 1 if i % 2 else 0, face=face))
            out.append(hil_case(nd, rs, de, 3, (i + de + 1) % 3, pt=nfq - 1, face=face))
    return out


# ---------------------------------------------------------------- sampling
def lagrange(V, rs, x):
    nodes = [V.pre[0][i] for i in range(rs)]
    out = []
    for i in range(rs):
        r = 1
        for j in range(rs):
            if j != i:
                r = r * ((x - nodes[j]) / (nodes[i] - nodes[j]))
        out.append(r)
    return out


def tensor(V, nd, rs, rows, val):
    """value at a point with the given interpolation row for each axis"""
    t = 0
    for q, pt in enumerate(geometry.points(nd, rs)):
        w = 1
        for a in range(nd):
            w = w * rows[a][pt[a]]
        t = t + w * val(q)
    return t


def vis_case(nd, rs, what, ns, nvar, axis=0, sign=0):
    nq = rs ** nd
    size = {0: nvar * ns * nd * 2 ** (nd - 1), 1: nvar * ns ** nd, 2: nvar * ns ** (nd - 1), 3: nvar * ns, 4: nvar * nq}[what]

    def post(V):
        yield ('number of values', V.post[14][0], size)
        one_ = fnum(1, V.pre[0][0])
        U = [lagrange(V, rs, one_ * F(i, ns - 1) if i < ns - 1 else one_) for i in range(ns)] if what < 3 else None
        if what == 3:
            L = [[lagrange(V, rs, V.pre[7][a * ns + s]) for a in range(nd)] for s in range(ns)]
        bd = [[V.pre[3][2 * j + s] for j in range(rs)] for s in (0, 1)]
        for v in range(nvar):
            val = lambda q: V.pre[6][q * nvar + v]  # noqa: E731
            if what == 0:
                for a in range(nd):
                    for c in range(2 ** (nd - 1)):
                        e = a * 2 ** (nd - 1) + c
                        sides = [(c >> (nd - 2 - i)) & 1 for i in range(nd - 1)]
                        for s in range(ns):
                            rows = [bd[x] for x in sides]
                            rows.insert(a, U[s])
                            yield ('edge %d sample %d variable %d' % (e, s, v), V.post[13][(e * nvar + v) * ns + s], tensor(V, nd, rs, rows, val))
            elif what == 1:
                for i, s in enumerate(itertools.product(range(ns), repeat=nd)):
                    yield ('sample %s variable %d' % (s, v), V.post[13][v * ns ** nd + i], tensor(V, nd, rs, [U[k] for k in s], val))
            elif what == 2:
                for i, s in enumerate(itertools.product(range(ns), repeat=nd - 1)):
                    rows = [U[k] for k in s]
                    rows.insert(axis, bd[sign])
                    yield ('face sample %s variable %d' % (s, v), V.post[13][v * ns ** (nd - 1) + i], tensor(V, nd, rs, rows, val))
            elif what == 3:
                for s in range(ns):
                    yield ('sample %d variable %d' % (s, v), V.post[13][v * ns + s], tensor(V, nd, rs, L[s], val))
            else:
                for q in range(nq):
                    yield ('point %d variable %d' % (q, v), V.post[13][v * nq + q], val(q))
    b = bufs(nd, rs, max(size, 1))
    b[6] = fvars('u', nq * nvar)
    b[7] = fvars('rc', nd * ns)
    return Case('sampling nd=%d rs=%d %s samples=%d variables=%d%s' % (nd, rs, ('edges', 'interior', 'face', 'arbitrary points', 'quadrature points')[what], ns, nvar, ' face %d%d' % (axis, sign) if what == 2 else ''), 'out_vis', b,
                [nd, rs, 0, 0, 0, 0, 0, 0, what, ns, axis, sign, nvar], sets=lambda V: {}, post=post, free=lambda b, i: b >= 13, sample=geometry.sampler(nd, rs), foreach=False)


def vis_cases(nd, rs):
    out = []
    for ns in (2, 3, 4):
        for nvar in (1, 2):
            out.append(vis_case(nd, rs, 0, ns, nvar))
            out.append(vis_case(nd, rs, 1, ns, nvar))
            out.append(vis_case(nd, rs, 3, ns, nvar))
        for a in range(nd):
            for s in (0, 1):
                out.append(vis_case(nd, rs, 2, ns, 1 + (a + s) % 2, a, s))
    out += [vis_case(nd, rs, 4, 2, 3), vis_case(nd, rs, 1, 2, 0), vis_case(nd, rs, 3, 1, 1)]
    return out


SRC = ['output.cpp', 'tree_rt.cpp'] + ['src/%s.cpp' % s for s in ('Qpoint_func', 'Element_func', 'Domain_func', 'Boundary_func', 'Surface_func', 'Spacetime_func', 'Output_data', 'hil_properties', 'Vis_data', 'Tree',
                                                                  'Deformed_element', 'Element', 'Vertex', 'Storage_params', 'math', 'Lock', 'Basis', 'connection', 'Hanging_vertex_matcher')]
EXTRA = ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_NO_CPUID', '-fno-access-control', 'cfg:3']
ASSUMED = ['math functions (sqrt, pow, sin, cos, acos, atan2, exp, log) are functions of their arguments'] + geometry.ASSUMED


def job(name, fn, nd, rs):
    return Job('%s nd=%d rs=%d' % ('skewness' if fn == 'skew_cases' else name, nd, rs), SRC, 'specs.output.' + fn, {'nd': nd, 'rs': rs}, [], extra=EXTRA, native_sources=[s for s in SRC if s != 'tree_rt.cpp'], native_extra=[x for x in EXTRA if x[0] != '-' or 'access' in x])


def jobs(tier, what=('point', 'element', 'expression', 'sampling')):
    szs = [(3, 2), (2, 3), (2, 2), (1, 3)] if tier == 'quick' else [(3, 3), (3, 2), (2, 3), (2, 2), (1, 3), (1, 2)]
    return [job(n, f, nd, rs) for nd, rs in szs for n, f in (('element', 'skew_cases'), ('point', 'point_cases'), ('element', 'elem_cases'), ('expression', 'hil_cases'), ('sampling', 'vis_cases')) if n in what]
