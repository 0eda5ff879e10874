"""Solver-level routines on real small meshes: trace contracts of the kernels they call"""
import functools
import math
import re
from .common import *
from vc.contract import Case
from vc.run import Job
from . import geometry
from fractions import Fraction
from vc.exec import snap
from .connection import face_corner


def n_elem(nd, kind, st=(0, 0)):
    if kind == 8:
        return 1 + 2 ** (nd - 1 - sum(st))
    if kind == 9:
        return 4
    return 2 if kind <= 2 or kind == 5 else 1 if kind in (6, 7) else 1 + 2 ** (nd - 1)


def bufs(nd, rs, kind, ntrace, nres=40, st=(0, 0)):
    nq = rs ** nd
    ne = n_elem(nd, kind, st)
    n = ne * (nd + 9 + rs) * nq
    return [fvars('par', 16), fvars('x', n), fvars('vp', ne * 2 ** nd * 3), fvars('ret', 16), fvars('fr', 8 * n), fvars('tr', ntrace), fvars('y', n), fvars('res', nres)]


def n_bc(nd, kind):
    """(id of the condition) of every boundary connection, in mesh order"""
    if kind <= 2:
        return [int(f > 1) for i in range(2) for f in range(2 * nd) if f != 1 - i]
    raise NotImplementedError


def cheby_num(n, i):
    return 1 / (1 - math.cos((n - i - .5) * math.pi / n))


def cheby(n, i):
    return X.var('cheb_%d_%d' % (n, i))


def cheby_contract(ex, st, a):
    """contract of chebyshev_step, discharged by the cases 'chebyshev step': the step size is a function of its two arguments"""
    return cheby(a[0], a[1])


CONTRACTS = [(re.compile(r'_ZN5hexed4math14chebyshev_stepEii$'), cheby_contract)]
CHEB = {'cheb_%d_%d' % (n, i): cheby_num(n, i) for n in range(1, 9) for i in range(n)}


class Z:
    pre = [fvars('q', 20)] * 8


def par_sample(rng):
    return {'par_%d' % i: rng.uniform(.1, 1) for i in range(16)} | {'ret_%d' % i: rng.uniform(.1, 1) for i in range(16)} | CHEB


def update(nd, rs, kind, local, visc, cond, av, filt, iters, nc):
    bcs = n_bc(nd, kind)

    def trace(V):
        P = V.pre[0]
        R = V.pre[3]
        T = []
        cf = [visc, P[1] if visc else 0, cond, P[2] if cond else 0]
        ldg = visc or cond or av
        t = P[5]
        dt = None
        n = 0
        mc = cheby(nc, nc - 1)
        for it in range(iters):
            for ch in range(nc):
                T += [12 if ldg else 11, 1, P[3] / mc, P[3], local] + (cf if ldg else [])
                dt = X.rmin(R[n], P[4]) * cheby(nc, ch)
                n += 1
                for st in (0, 1):
                    for i, c in enumerate(bcs):
                        T += [101, c, i]
                    if ldg and not st:
                        T += [2, 1, dt, st, 0, filt] + cf
                        for i, c in enumerate(bcs):
                            T += [102, c, i]
                        T += [-2]
                    else:
                        T += [1, 1, dt, st, 0, filt]
                t = t + dt
        return T + [-100], t, dt

    nt = len(trace(Z)[0])

    def post(V):
        T, t, dt = trace(V)
        for i, x in enumerate(T):
            yield ('step %d of the recorded schedule' % i, V.post[5][i], x)
        for lab, i, x in (('one iteration counted', 0, 1), ('flow time advanced by the steps taken', 1, t), ('time step reported', 2, dt), ('iteration counted in the status', 3, 1), ('time step in the status', 5, dt)):
            yield (lab, V.post[7][i], x)
        for i in range(len(V.pre[1])):
            if not av or (i // rs ** nd) % (nd + 9 + rs) != nd + 3:
                yield ('the element data is advanced by the kernels alone', V.post[6][i], V.pre[1][i])
    return Case('update nd=%d rs=%d mesh=%d local=%d visc=%d cond=%d av=%d filter=%d iters=%d cheby=%d' % (nd, rs, kind, local, visc, cond, av, filt, iters, nc), 'sol_update', bufs(nd, rs, kind, nt),
                [nd, rs, kind, local, visc, cond, av, filt, iters, nc], sets=lambda V: {}, post=post, free=lambda b, i: b >= 5, sample=par_sample, foreach=False, contracts=CONTRACTS)


def residual(nd, rs, kind, visc, cond, av, filt):
    def trace(V):
        P = V.pre[0]
        cf = [visc, P[1] if visc else 0, cond, P[2] if cond else 0]
        ldg = visc or cond or av == 1
        T = []
        for i, c in enumerate(n_bc(nd, kind)):
            T += [101, c, i]
        T += [2 if ldg else 1, 1, 1, 0, 1, filt]
        if ldg:
            T += cf
            for i, c in enumerate(n_bc(nd, kind)):
                T += [102, c, i]
            T += [-2]
        return T + [-100]
    nt = len(trace(Z))

    def post(V):
        for i, x in enumerate(trace(V)):
            yield ('step %d of the recorded schedule' % i, V.post[5][i], x)
        for i in range(len(V.pre[1])):
            if not av or (i // rs ** nd) % (nd + 9 + rs) != nd + 3:
                yield ('the element data is advanced by the kernels alone', V.post[6][i], V.pre[1][i])
    return Case('residual nd=%d rs=%d mesh=%d visc=%d cond=%d av=%d filter=%d' % (nd, rs, kind, visc, cond, av, filt), 'sol_residual', bufs(nd, rs, kind, nt),
                [nd, rs, kind, 0, visc, cond, av, filt], sets=lambda V: {}, post=post, free=lambda b, i: b >= 5, sample=par_sample, foreach=False, contracts=CONTRACTS)


def update_cases(nd, rs):
    return [update(nd, rs, k, *x) for k, x in ((0, (0, 0, 0, 0, 0, 1, 1)), (1, (1, 1, 0, 0, 1, 2, 1)), (2, (0, 0, 1, 0, 1, 1, 3)), (2, (1, 0, 0, 1, 0, 2, 2)), (0, (0, 1, 1, 1, 0, 1, 1)))] + \
        [residual(nd, rs, k, *x) for k, x in ((0, (0, 0, 0, 1)), (1, (1, 0, 0, 0)), (2, (0, 1, 0, 1)), (2, (0, 0, 1, 0)), (1, (0, 0, 2, 0)))]


def cheby_cases(nd, rs):
    """the contract of chebyshev_step used by the other cases"""
    out = []
    for n in range(1, 9):
        for i in range(n):
            out.append(Case('chebyshev step %d of %d' % (i, n), 'sol_cheby', [fvars('o', 1)], [n, i], sets=lambda V: {}, free=lambda b, i: True, foreach=False,
                            post=lambda V, n=n, i=i: [('step size is the reciprocal of the distance of a Chebyshev node from the end of the interval', V.post[0][0], 1 / (1 - X.rfn('cos', F(2 * (n - i) - 1, 2) * snap(Fraction(math.pi)) / n)))]))
    return out


def state_sample(nd, rs, kind):
    nq = rs ** nd
    nd1 = nd + 9 + rs

    def f(rng):
        env = par_sample(rng)
        for e in range(n_elem(nd, kind)):
            for k in range(nq):
                for v, x in enumerate(pos_state_sample(rng, nd)):
                    env['x_%d' % ((e * nd1 + v) * nq + k)] = x
                for v in range(nd + 2, nd1):
                    env['x_%d' % ((e * nd1 + v) * nq + k)] = rng.uniform(.1, 1)
        for i in range(8 * n_elem(nd, kind) * nd1 * nq):
            env['fr_%d' % i] = rng.uniform(.1, 1)
        return env
    return f


def smooth(nd, rs, kind, adv, diff, nc, av_rs):
    nq = rs ** nd
    nvar = nd + 9 + rs
    ne = n_elem(nd, kind)
    bcs = n_bc(nd, kind)
    n = ne * nvar * nq
    nsnap = 2 * adv + diff * nc

    def trace(V):
        P = V.pre[0]
        L = P[10]
        dtime = P[5] * L * L / 3
        T = [24, 1, 21, 1, 0, 0, 13, 1, P[3], 1, 1, L]
        for i in range(adv):
            T += [25, 1, 23, 1]
            for st in (0, 1):
                for j, c in enumerate(bcs):
                    T += [103, c, j]
                T += [3, 1, 1, st, 0, 0, L]
        T += [14, 1, 1, P[4], 1, 26, 1, 21, 1, 0, 0]
        for i in range(diff):
            for ch in range(nc):
                for j, c in enumerate(bcs):
                    T += [104, c, j]
                T += [4, 1, cheby(nc, ch), 0, 0, 0, dtime, cheby(nc, ch)]
                for j, c in enumerate(bcs):
                    T += [105, c, j]
                T += [-4]
        return T + [24, 1, 21, 1, 0, 0, -100, 1]
    nt = len(trace(Z))

    def post(V):
        for i, x in enumerate(trace(V)):
            yield ('step %d of the recorded schedule' % i, V.post[5][i], x)
        P = V.pre[0]
        L = P[10]
        w = V.post[7][1:1 + rs]
        orth = V.post[7][1 + rs:1 + 2 * rs]
        # replay the data: x = element data, the recorders replace what the kernels write
        x = [[[V.pre[1][(e * nvar + v) * nq + k] for k in range(nq)] for v in range(nvar)] for e in range(ne)]
        old = [[list(y) for y in z] for z in x]
        scale = [[X.rsqrt(2 * x[e][nd][k] * x[e][nd + 1][k]) for k in range(nq)] for e in range(ne)]
        for e in range(ne):
            for d in range(nd):
                for k in range(nq):
                    x[e][d][k] = x[e][d][k] / scale[e][k]
        fr = iter(V.pre[4])
        snap = 0

        def check(what):
            nonlocal snap
            for e in range(ne):
                for v in range(nvar):
                    for k in range(nq):
                        yield ('data in element %d, variable %d at %s' % (e, v, what), V.post[8][snap], x[e][v][k])
                        snap += 1
        for i in range(adv):
            for st in (0, 1):
                yield from check('advection stage')
                for e in range(ne):
                    for v in range(nd + 9, nd + 9 + rs):
                        for k in range(nq):
                            x[e][v][k] = next(fr)
        for e in range(ne):
            for k in range(nq):
                p = sum(x[e][nd + 9 + r][k] * w[r] * orth[r] for r in range(rs))
                x[e][nd + 5][k] = p * p * 2 * x[e][nd + 1][k] / x[e][nd][k]
        for i in range(diff * nc):
            yield from check('smoothing stage')
            for e in range(ne):
                for v in range(nd + 6, nd + 9):
                    for k in range(nq):
                        x[e][v][k] = next(fr)
        um = L * P[7] * X.rsqrt(2 * P[9] / P[8])
        res = 0
        for e in range(ne):
            vol = V.pre[0][0] ** nd
            for k in range(nq):
                f = P[6] * L * x[e][nd + 8][k]
                new = um * f / (um + f)
                wt = 1
                for a in range(nd):
                    wt = wt * w[(k // rs ** a) % rs]
                res = res + (x[e][nd + 3][k] - new) * (x[e][nd + 3][k] - new) * wt * vol
                x[e][nd + 3][k] = new
                for d in range(nd):
                    x[e][d][k] = old[e][d][k]
        for e in range(ne):
            for v in range(nvar):
                for k in range(nq):
                    yield ('data afterwards in element %d, variable %d' % (e, v), V.post[6][(e * nvar + v) * nq + k], x[e][v][k])
        yield ('change of the artificial viscosity reported', V.post[7][0], X.rsqrt(res))
    pre = [X.rlt(0, X.var('x_%d' % ((e * nvar + v) * nq + k))) for e in range(ne) for v in (nd, nd + 1) for k in range(nq)] + [X.rlt(0, X.var('par_%d' % i)) for i in range(11)]
    return Case('smoothness indicator nd=%d rs=%d mesh=%d adv=%d diff=%d cheby=%d avrs=%d' % (nd, rs, kind, adv, diff, nc, av_rs), 'sol_smooth', bufs(nd, rs, kind, nt) + [fvars('sn', nsnap * n)],
                [nd, rs, kind, 0, 0, 0, 0, adv, diff, nc, av_rs], pre=pre, sets=lambda V: {}, post=post, free=lambda b, i: b >= 5, sample=state_sample(nd, rs, kind), foreach=False, contracts=CONTRACTS)


def av_cases(nd, rs):
    return [smooth(nd, rs, k, *x) for k, x in ((0, (1, 1, 1, rs)), (1, (2, 1, 2, max(2, rs - 1))), (2, (1, 2, 1, 2)))]


# ---------------------------------------------------------------- geometry shared between elements
def mesh_info(nd, kind, dr=None, st=(0, 0)):
    """(number of elements, deformed flags, [(elem, face, elem, face, direction)] of conformal connections, [(elem, face, bc)])"""
    F = 2 * nd
    if kind in (0, 1, 2):
        d = [[0, 0], [1, 1], [0, 1]][kind]
        return 2, d, [(0, 1, 1, 0, (0, 0, 1, 0))], [(i, f, int(f > 1)) for i in range(2) for f in range(F) if f != 1 - i]
    if kind == 5:
        return 2, [1, 1], [(0, 2 * dr[0] + dr[2], 1, 2 * dr[1] + dr[3], dr)], [(i, f, int(f > 1)) for i in range(2) for f in range(F) if f != 2 * dr[i] + dr[2 + i]]
    if kind == 9:
        return 4, [1] * 4, [(i, 1, i + 1, 0, (0, 0, 1, 0)) for i in range(3)], [(i, f, int(f > 1)) for i in range(4) for f in range(F) if f > 1 or (f == 0 and i == 0) or (f == 1 and i == 3)]
    if kind == 8:
        ne = n_elem(nd, 8, st)
        return ne, [1] * ne, [], [(0, f, int(f > 1)) for f in range(F) if f != 2 * dr[0] + dr[2]] + [(i, f, int(f > 1)) for i in range(1, ne) for f in range(F) if f != 2 * dr[1] + dr[3]]
    nf = 2 ** (nd - 1)
    con, bc = [], []
    for f in range(F):
        if f != 1:
            bc.append((0, f, int(f > 1)))
    for i in range(nf):
        bc.append((1 + i, 1, 0))
        for j in range(1, nd):
            bit = 1 << (nd - 1 - j)
            if i & bit:
                bc.append((1 + i, 2 * j + 1, 1))
                con.append((1 + i - bit, 2 * j + 1, 1 + i, 2 * j, (j, j, 1, 0)))
            else:
                bc.append((1 + i, 2 * j, 1))
    return 1 + nf, [int(kind == 3)] * (1 + nf), con, bc


def bc_order(nd, kind, dr=None, st=(0, 0)):
    """boundary connections in mesh order: those of Cartesian elements first"""
    ne, d, con, bc = mesh_info(nd, kind, dr, st)
    return [x for x in bc if not d[x[0]]] + [x for x in bc if d[x[0]]]


def shared(same, ne, nv, own, reduce):
    """value at each vertex of each element: the reduction over all elements that have that vertex"""
    sh = [[None] * nv for e in range(ne)]
    for e in range(ne):
        for v in range(nv):
            m = None
            for j in range(ne):
                for w in range(nv):
                    if same[((e * ne + j) * nv + v) * nv + w]:
                        m = own(j, w) if m is None else reduce(m, own(j, w))
            sh[e][v] = m
    return sh


def hang(nd, hd, st, nfine, sh):
    """hanging vertices take the interpolated value of the coarse face's corners"""
    if not nfine:
        return
    h = nd - 1
    # position of vertex j of fine element i along tangential axis a, in half widths of the coarse face (row-major over the axes that are not stretched)
    ax = [a for a in range(h) if not st[a]]
    place = {}
    for i in range(nfine):
        for j in range(2 ** h):
            t = [2 * ((j >> (h - 1 - a)) & 1) for a in range(h)]
            for m, a in enumerate(ax):
                t[a] = ((i >> (len(ax) - 1 - m)) & 1) + ((j >> (h - 1 - a)) & 1)
            place[1 + i, face_corner(nd, hd[1], hd[3], j)] = t
    corner = {tuple(t): sh[e][v] for (e, v), t in place.items() if all(x != 1 for x in t)}
    for (e, v), t in place.items():
        val = 0
        for c, x in corner.items():
            w = 1
            for a in range(h):
                w = w * (t[a] if c[a] else 2 - t[a])
            if w:
                val = val + x * w / 2 ** h
        sh[e][v] = val


def jac(nd, rs, kind, dr=None, st=(0, 0)):
    ne, defo, con, _ = mesh_info(nd, kind, dr, st)
    bc = bc_order(nd, kind, dr, st)
    nv, nfq = 2 ** nd, rs ** (nd - 1)
    n = nd * nfq
    F = 2 * nd
    dcon = [c for c in con if defo[c[0]] and defo[c[2]]]
    nfine = ne - 1 if kind in (3, 8) else 0
    hd = dr if kind == 8 else (0, 0, 1, 0)
    ncon = len(dcon) + nfine + len(bc)
    nt = len([21, 1, 1, 0, -100])

    def nrm(V, e, f):
        o = (e * F + f) * n
        return [[V.post[8][o + d * nfq + q] for d in range(nd)] for q in range(nfq)]

    def got(V, c, side):
        o = (2 * c + side) * n
        return [[V.post[10][o + d * nfq + q] for d in range(nd)] for q in range(nfq)]

    def post(V):
        for i, x in enumerate([21, 1, 1, 0, -100]):
            yield ('recorded schedule', V.post[5][i], x)
        for ci, (e0, f0, e1, f1, d) in enumerate(dcon):
            mp = point_map(nd, rs, d)
            s0, s1 = 2 * (f0 % 2) - 1, 2 * (f1 % 2) - 1
            A, B, g0, g1 = nrm(V, e0, f0), nrm(V, e1, f1), got(V, ci, 0), got(V, ci, 1)
            for q in range(nfq):
                for k in range(nd):
                    yield ('both elements of a connection have the same area vector, out of one and into the other', s0 * g0[q][k], -s1 * g1[mp[q]][k])
                    yield ('which is the mean of their own', s0 * g0[q][k], (s0 * A[q][k] - s1 * B[mp[q]][k]) / 2)
        mp = point_map(nd, rs, hd) if nfine else None
        for i in range(nfine):
            g0, g1 = got(V, len(dcon) + i, 0), got(V, len(dcon) + i, 1)
            for q in range(nfq):
                for k in range(nd):
                    yield ('fine elements of a hanging face have the area vectors transferred from the coarse face', g0[q][k], V.pre[4][i * n + k * nfq + q])
                    yield ('out of the coarse element and into the fine one', (2 * hd[2] - 1) * g0[q][k], (1 - 2 * hd[3]) * g1[mp[q]][k])
        if nfine:
            A = nrm(V, 0, 2 * hd[0] + hd[2])
            for q in range(nfq):
                for k in range(nd):
                    yield ('the coarse element keeps its own area vectors', V.post[11][k * nfq + q], A[q][k])
        for i, (e, f, c) in enumerate(bc):
            A = nrm(V, e, f)
            for side in (0, 1):
                g = got(V, len(dcon) + nfine + i, side)
                for q in range(nfq):
                    for k in range(nd):
                        yield ('boundary faces have the area vectors of their element', g[q][k], A[q][k])
        for i in range(len(bc) * nd * nfq):
            yield ('boundary faces know their positions', V.post[13][i], V.post[14][i])
        own = [[V.post[9][e * nv + v] for v in range(nv)] for e in range(ne)]
        sh = shared(V.post[15], ne, nv, lambda e, v: own[e][v], X.rmin)
        hang(nd, hd, st, nfine, sh)
        for e in range(ne):
            for v in range(nv):
                yield ('elements meeting at a vertex agree on the spacing there, the smallest of theirs', V.post[12][e * nv + v], sh[e][v])

    def sample(rng):
        env = par_sample(rng)
        for e in range(ne):
            for v in range(nv):
                for k in range(3):
                    bit = ((v >> (nd - 1 - k)) & 1) if k < nd else 0
                    env['vp_%d' % ((e * nv + v) * 3 + k)] = bit + (1 if k == 0 and e else 0) + rng.uniform(-.15, .15)
        return env
    bs = bufs(nd, rs, kind, nt, 40, st) + [fvars('o8', ne * F * n), fvars('o9', ne * nv), fvars('o10', 2 * n * ncon), fvars('o11', n), fvars('o12', ne * nv), fvars('o13', len(bc) * n), fvars('o14', len(bc) * n), fvars('o15', (ne * nv) ** 2)]
    return Case('shared geometry nd=%d rs=%d mesh=%d%s' % (nd, rs, kind, '' if dr is None else ' direction=%s' % (dr,) + (' stretched=%s' % (st,) if any(st) else '')), 'sol_jac', bs, [nd, rs, kind] + [0] * 6 + list(st) + list(dr or [0, 0, 1, 0]), sets=lambda V: {}, post=post, free=lambda b, i: b >= 5,
                sample=sample, foreach=False, contracts=CONTRACTS + geometry.CONTRACTS, pre=[X.rlt(0, X.var('par_0'))])


def jac_bad(nd, rs, kind):
    return Case('incomplete mesh nd=%d kind=%d' % (nd, kind), 'sol_jac', bufs(nd, rs, kind, 10) + [fvars('o%d' % i, 512) for i in range(8, 16)], [nd, rs, kind] + [0] * 12, sets=lambda V: {}, throws=lambda V: [], post=lambda V: [('rejected', 0, 1)],
                foreach=False, native=False, contracts=CONTRACTS + geometry.CONTRACTS, free=lambda b, i: b >= 5)


def jac_cases(nd, rs, part=0, parts=1, full=True):
    out = [jac(nd, rs, k) for k in (0, 1, 2) + ((3, 4) if nd > 1 else ())]
    if nd > 1:
        ds = legal_directions(nd, True)
        out += [jac(nd, rs, 5, d) for d in ds]
        for i, d in enumerate(ds):
            sts = [(0, 0), (1, 0)] if nd == 2 else [(0, 0), [(1, 0), (0, 1), (1, 1)][i // 2 % 3]]
            out += [jac(nd, rs, 8, d, s) for s in (sts if full or nd == 2 else sts[i % 2:i % 2 + 1])]
    return (out + [jac_bad(nd, rs, k) for k in (6, 7)])[part::parts]


# ---------------------------------------------------------------- initial state
def init(nd, rs, kind, nvar):
    ne = n_elem(nd, kind)
    nq = rs ** nd
    N = nd + 9 + rs
    T = [24, 1, 21, 1, 0, 0]
    for i, (e, f, c) in enumerate(bc_order(nd, kind)):
        T += [106, c, i]
    T += [-100]

    def post(V):
        for i, x in enumerate(T):
            yield ('step %d of the recorded schedule' % i, V.post[5][i], x)
        j = 0
        for e in range(ne):
            for k in range(nq):
                for d in range(nd):
                    yield ('the function is evaluated at the position of the point', V.post[8][j + (e * nq + k) * (nd + 1) + d], V.post[9][(e * nq + k) * nd + d])
                yield ('and the current time', V.post[8][j + (e * nq + k) * (nd + 1) + nd], 0)
                for v in range(N):
                    yield ('the state is set to the value of the function and nothing else', V.post[6][(e * N + v) * nq + k], V.pre[4][(e * nq + k) * nvar + v] if v < nd + 2 else V.pre[1][(e * N + v) * nq + k])
    bs = bufs(nd, rs, kind, len(T)) + [fvars('o8', ne * nq * (nd + 1)), fvars('o9', ne * nq * nd), fvars('f2', 64)]
    bad = nvar < nd + 2
    return Case('initial state nd=%d rs=%d mesh=%d variables=%d' % (nd, rs, kind, nvar), 'sol_init', bs, [nd, rs, kind, nvar] + [0] * 11, sets=lambda V: {}, post=(lambda V: [('rejected', 0, 1)]) if bad else post, throws=(lambda V: []) if bad else None,
                free=lambda b, i: b >= 5, sample=par_sample, foreach=False, native=not bad, contracts=CONTRACTS)


# ---------------------------------------------------------------- admissibility
def admis(nd, rs, kind, var):
    """var: which quantity is left arbitrary where (the others are known to be positive): ('x', elem) interior, ('f', elem, face), ('r', fine)"""
    ne = n_elem(nd, kind)
    nq, nfq = rs ** nd, rs ** (nd - 1)
    N = nd + 9 + rs
    F = 2 * nd
    pos = []
    own = {e: [] for e in range(ne)}
    ref = []
    for e in range(ne):
        for k in range(nq):
            for v in (nd, nd + 1):
                x = 'x_%d' % ((e * N + v) * nq + k)
                own[e].append(x)
                if var != ('x', e):
                    pos.append(x)
        for f in range(F):
            for k in range(nfq):
                for v in (nd, nd + 1):
                    x = 'ff_%d' % (((e * F + f) * (nd + 2) + v) * nfq + k)
                    own[e].append(x)
                    if var != ('f', e, f):
                        pos.append(x)
    nref = 2 ** (nd - 1) if kind >= 3 else 0
    for j in range(nref):
        for k in range(nfq):
            for v in (nd, nd + 1):
                x = 'rf_%d' % ((j * (nd + 2) + v) * nfq + k)
                ref.append(x)
                if var != ('r', j):
                    pos.append(x)
    conds = {e: [X.rlt(0, X.var(x)) for x in own[e]] for e in range(ne)}
    rc = [X.rlt(0, X.var(x)) for x in ref]

    def post(V):
        r = V.post[7][0]
        allc = [c for e in range(ne) for c in conds[e]] + rc
        yield ('answer is true or false', X.bor(X.req(r, 0), X.req(r, 1)))
        for c in allc:
            yield ('reported admissible: positive density and energy everywhere', X.bor(X.req(r, 0), c))
        yield ('reported inadmissible: some density or energy is not positive', X.bor(X.req(r, 1), X.bnot(functools.reduce(X.band, allc))))
        for e in range(ne):
            if V.post[7][1 + e] == 1:
                yield ('element marked: it is not admissible', X.bnot(functools.reduce(X.band, conds[e])))
            else:
                yield ('element not marked', V.post[7][1 + e], 0)
                for c in conds[e]:
                    yield ('element not marked: it is admissible', c)
        for i in range(len(V.pre[1])):
            yield ('state untouched', V.post[6][i], V.pre[1][i])
    bs = bufs(nd, rs, kind, 4) + [fvars('ff', ne * F * (nd + 2) * nfq), fvars('rf', max(1, nref * (nd + 2) * nfq))]

    def sample(rng):
        env = par_sample(rng)
        p = rng.choice([0, .1, .3])
        for x in pos:
            env[x] = rng.uniform(.1, 1)
        for e in own:
            for x in own[e]:
                env.setdefault(x, rng.uniform(.1, 1) * (-1 if rng.random() < p else 1))
        for x in ref:
            env.setdefault(x, rng.uniform(.1, 1) * (-1 if rng.random() < p else 1))
        return env
    return Case('admissibility nd=%d rs=%d mesh=%d arbitrary=%s' % (nd, rs, kind, var), 'sol_admis', bs, [nd, rs, kind] + [0] * 12, pre=[X.rlt(0, X.var(x)) for x in pos], sets=lambda V: {}, post=post, free=lambda b, i: b >= 5,
                sample=sample, foreach=False, contracts=CONTRACTS, fork_real=True, max_paths=20000)


# ---------------------------------------------------------------- integrals
def integral(nd, rs, kind):
    ne = n_elem(nd, kind)
    nq, nfq = rs ** nd, rs ** (nd - 1)
    bc = bc_order(nd, kind)
    N = nd + 9 + rs

    def post(V):
        W = V.post[10]
        w = W[:rs]

        def wt(k, d):
            r = 1
            for a in range(d):
                r = r * w[(k // rs ** a) % rs]
            return r
        sz = V.pre[0][0]
        for i in range(2):
            t = 0
            for e in range(ne):
                o = rs + e * (nq + 1)
                h = sz if kind < 3 or e == 0 else sz / 2
                for k in range(nq):
                    t = t + V.pre[8][(e * nq + k) * 2 + i] * W[o + 1 + k] * wt(k, nd) * h ** nd
            yield ('integral over the field is the quadrature sum with the Jacobian determinant', V.post[7][i], t)
            for c in (0, 1):
                t = 0
                for b, (e, f, sn) in enumerate(bc):
                    if sn == c:
                        h = sz if kind < 3 or e == 0 else sz / 2
                        for q in range(nfq):
                            a = X.rsqrt(total(V.pre[9][(b * nd + d) * nfq + q] * V.pre[9][(b * nd + d) * nfq + q] for d in range(nd)))
                            t = t + V.pre[8][(b * nfq + q) * 2 + i] * a * wt(q, nd - 1) * h ** (nd - 1)
                yield ('integral over a surface is the quadrature sum over the faces with that boundary condition', V.post[7][3 + 3 * c + i], t)
        for i in (2, 5, 8):
            yield ('one result per variable', V.post[7][i], 2)
        for i, x in enumerate([24, 1, 24, 1, -100]):
            yield ('faces are up to date', V.post[5][i], x)
        for i in range(len(V.pre[1])):
            yield ('state untouched', V.post[6][i], V.pre[1][i])
    bs = bufs(nd, rs, kind, 8) + [fvars('v', 2 * max(ne * nq, len(bc) * nfq)), fvars('nn', len(bc) * nd * nfq), fvars('o10', rs + ne * (nq + 1))]

    def sample(rng):
        env = par_sample(rng)
        nv = 2 ** nd
        for e in range(ne):
            for v in range(nv):
                for k in range(3):
                    env['vp_%d' % ((e * nv + v) * 3 + k)] = (((v >> (nd - 1 - k)) & 1) if k < nd else 0) + rng.uniform(-.15, .15)
        return env
    return Case('integrals nd=%d rs=%d mesh=%d' % (nd, rs, kind), 'sol_integral', bs, [nd, rs, kind] + [0] * 12, sets=lambda V: {}, post=post, free=lambda b, i: b >= 5, sample=sample, foreach=False,
                contracts=CONTRACTS + geometry.CONTRACTS, pre=[X.rlt(0, X.var('par_0'))])


# ---------------------------------------------------------------- elementwise settings
def uncert(nd, rs, kind):
    ne = n_elem(nd, kind)
    nq = rs ** nd
    N = nd + 9 + rs

    def post(V):
        for e in range(ne):
            yield ('uncertainty of an element is the value of the function there', V.post[7][e], V.pre[4][e])
        yield ('constant artificial viscosity switches it on', V.post[7][10], 1)
        for e in range(ne):
            for v in range(N):
                for k in range(nq):
                    i = (e * N + v) * nq + k
                    yield ('constant artificial viscosity sets that coefficient and nothing else', V.post[6][i], V.pre[0][3] if v == nd + 3 else V.pre[1][i])
    return Case('element settings nd=%d rs=%d mesh=%d' % (nd, rs, kind), 'sol_uncert', bufs(nd, rs, kind, 4), [nd, rs, kind] + [0] * 12, sets=lambda V: {}, post=post, free=lambda b, i: b >= 5, sample=par_sample, foreach=False, contracts=CONTRACTS)


def data_cases(nd, rs):
    ks = (0, 1, 2) + ((3, 4) if nd > 1 else ())
    out = [init(nd, rs, k, nd + 2 + (k == 1)) for k in ks] + [init(nd, rs, 0, nd + 1)] + [integral(nd, rs, k) for k in ks] + [uncert(nd, rs, k) for k in ks]
    return out


def admis_cases(nd, rs, part=0, parts=1, full=True):
    out = [admis(nd, rs, 2, ('x', 0)), admis(nd, rs, 2, ('x', 1)), admis(nd, rs, 2, ('f', 0, 0)), admis(nd, rs, 2, ('f', 1, 1))]
    if nd > 1:
        out += [admis(nd, rs, 3, ('r', j)) for j in range(2 ** (nd - 1))] + [admis(nd, rs, 3, ('f', 1, 3))]
    return out[part::parts]


# ---------------------------------------------------------------- repair of inadmissible states
def interp_vertices(nd, rs, node, val):
    """multilinear interpolation of vertex values to the quadrature points"""
    out = []
    for q in range(rs ** nd):
        t = 0
        for v in range(2 ** nd):
            w = val[v]
            for a in range(nd):
                x = node[(q // rs ** (nd - 1 - a)) % rs]
                w = w * (x if (v >> (nd - 1 - a)) & 1 else 1 - x)
            t = t + w
        out.append(t)
    return out


def fix(nd, rs, kind, mode, local=0):
    """mode: 0 switched off, 1 nothing to repair, 2 density of element 0 not positive until after the first application, 3 energy"""
    ne, _, con, _ = mesh_info(nd, kind)
    bc = bc_order(nd, kind)
    nq, nfq = rs ** nd, rs ** (nd - 1)
    N = nd + 9 + rs
    F = 2 * nd
    nv = 2 ** nd
    n = (nd + 2) * nfq
    neg = 'x_%d' % ((nd + mode - 2) * nq)
    conn = {(e, f) for c in con for e, f in ((c[0], c[1]), (c[2], c[3]))}

    def trace(V):
        """(recorded trace, element data seen by the repair kernel each time, data afterwards)"""
        P = V.pre[0]
        T, snaps = [], []
        if mode < 2:
            return [-100], [], [list(V.pre[1])]
        x = [[[V.pre[1][(e * N + v) * nq + k] for k in range(nq)] for v in range(N)] for e in range(ne)] if len(V.pre[1]) > 20 else None
        face = {(e, f): list(V.pre[8][(e * F + f) * n:(e * F + f + 1) * n]) for e in range(ne) for f in range(F)} if x else None
        fr = iter(V.pre[4]) if x else iter(lambda: 0, 1)
        record = [1] + [0] * (ne - 1)
        mc = cheby(1, 0)
        for it in range(2):
            # elements that touch a marked one, and those that touch these
            touch = lambda r: [max([r[e]] + [r[e + d] for d in (-1, 1) if 0 <= e + d < ne]) for e in range(ne)]
            t1 = touch(record)
            vert = [[max([t1[e]] + [t1[e + d] for d in ([1] if v >> (nd - 1) else [-1]) if 0 <= e + d < ne]) for v in range(nv)] for e in range(ne)]
            T += [15, 1, P[4], P[4], 1]
            for s in (F6(1, 6), F6(5, 6)):
                T += [5, 1, s, 0, 0, 0]
                if x is None:
                    T += [0] * (4 * n * len(bc)) + [-5]
                    continue
                coef = [interp_vertices(nd, rs, V.node, vert[e]) for e in range(ne)]
                snaps.append([x[e][v][k] if v not in (nd + 3, nd + 4) else coef[e][k] if v == nd + 3 else x[e][nd + 3][k] for e in range(ne) for v in range(N) for k in range(nq)])
                for e, f, c in bc:
                    for k in range(n):
                        T += [face[e, f][k]] * 2
                flux = [[next(fr) for k in range(n)] for b in bc]
                T += [-5]
                for b in flux:
                    for k in range(n):
                        T += [b[k], -b[k]]
                for e in range(ne):
                    for v in range(nd + 2):
                        for k in range(nq):
                            x[e][v][k] = next(fr)
                for e in range(ne):
                    for f in range(F):
                        face[e, f] = [next(fr) for k in range(n)]
            T += [11, 1, P[3] / mc, P[3], local]
            if x:
                for e in range(ne):
                    x[e][nd + 4] = coef[e]
            record = [0] * ne
        return T + [-100], snaps, [x[e][v][k] for e in range(ne) for v in range(N) for k in range(nq)] if x else []
    nt = len(trace(Z)[0])
    pos = [('x_%d' % ((e * N + v) * nq + k)) for e in range(ne) for v in (nd, nd + 1) for k in range(nq)] + [('ff_%d' % ((e * F + f) * n + v * nfq + k)) for e in range(ne) for f in range(F) for v in (nd, nd + 1) for k in range(nfq)]
    nfr = (len(bc) * n + ne * (nd + 2) * nq + ne * F * n) * 4
    frpos = []
    o = 0
    for it in range(4):
        o += len(bc) * n
        frpos += ['fr_%d' % (o + (e * (nd + 2) + v) * nq + k) for e in range(ne) for v in (nd, nd + 1) for k in range(nq)]
        o += ne * (nd + 2) * nq
        frpos += ['fr_%d' % (o + (e * F + f) * n + v * nfq + k) for e in range(ne) for f in range(F) for v in (nd, nd + 1) for k in range(nfq)]
        o += ne * F * n
    if mode == 0:
        pre = []
    elif mode == 1:
        pre = [X.rlt(0, X.var(p)) for p in pos]
    else:
        pre = [X.rle(X.var(neg), 0)] + [X.rlt(0, X.var(p)) for p in pos if p != neg and (int(p.split('_')[1]) >= N * nq or p[0] == 'f')] + [X.rlt(0, X.var(p)) for p in frpos]

    def post(V):
        V.node = V.post[11]
        T, snaps, final = trace(V)
        for i, x in enumerate(T):
            yield ('step %d of the recorded schedule' % i, V.post[5][i], x)
        i = 0
        for s in snaps:
            for x in s:
                yield ('data given to the repair kernel', V.post[10][i], x)
                i += 1
        if mode < 2:
            final = final[0]
        for i, x in enumerate(final):
            yield ('data afterwards', V.post[6][i], x)
        for i, x in enumerate([int(mode > 1)] * 3 + [0, 0]):
            yield ('%s' % ('repair reported', 'iterations counted', 'iterations in the status', 'counter reset', 'counter in the status reset')[i], V.post[7][i], x)

    def sample(rng):
        env = par_sample(rng)
        for p in pos + frpos:
            env[p] = rng.uniform(.1, 1)
        if mode != 1:
            env[neg] = -rng.uniform(.1, 1)
        return env
    bs = bufs(nd, rs, kind, nt)
    bs[4] = fvars('fr', max(nfr, 1))
    bs += [fvars('ff', ne * F * n), fvars('rf', 4), fvars('sn', max(1, 4 * ne * N * nq if mode > 1 else 1)), fvars('nd', rs)]
    return Case('repair nd=%d rs=%d mesh=%d mode=%d' % (nd, rs, kind, mode), 'sol_fix', bs, [nd, rs, kind, local, 0, 0, 0, 0, int(mode > 0), 1] + [0] * 5, pre=pre, sets=lambda V: {}, post=post, free=lambda b, i: b in (5, 6, 7, 10, 11), sample=sample,
                foreach=False, contracts=CONTRACTS, fork_real=True)


def F6(a, b):
    return F(a, b)


# ---------------------------------------------------------------- artificial viscosity from elementwise indicators
def elav(nd, rs, kind, mode, dr=None, st=(0, 0)):
    """mode: 0 for admissibility, 1 from the nonsmoothness of each element, 2 the same smeared by diffusion"""
    ne = n_elem(nd, kind, st)
    nq, nv = rs ** nd, 2 ** nd
    N = nd + 9 + rs
    nfine = ne - 1 if kind in (3, 4, 8) else 0
    hd = dr if kind == 8 else (0, 0, 1, 0)
    bc = bc_order(nd, kind, dr, st)

    def trace(V):
        P = V.pre[0]
        if mode == 0:
            return [6, 1, P[3] + P[4], -100, 1]
        if mode == 1:
            return [-100, 1]
        T = [14, 1, 1, P[6], 1, 26, 1, 21, 1, 0, 0]
        for i, (e, f, c) in enumerate(bc):
            T += [104, c, i]
        T += [4, 1, cheby(1, 0), 0, 0, 0, P[5] * P[7] * P[7], cheby(1, 0)]
        for i, (e, f, c) in enumerate(bc):
            T += [105, c, i]
        return T + [-4, 24, 1, 21, 1, 0, 0, -100, 1]
    nt = len(trace(Z))

    def post(V):
        for i, x in enumerate(trace(V)):
            yield ('step %d of the recorded schedule' % i, V.post[5][i], x)
        P = V.pre[0]
        u = []
        for e in range(ne):
            if mode == 0:
                u.append(V.pre[4][e])
            else:
                l10 = snap(Fraction(math.log(10)))
                r = 2 * X.rfn('log', V.post[7][1 + e]) / l10
                c = -4 - F(17, 4) * X.rfn('log', rs - 1) / l10
                s = (1 + X.rfn('sin', snap(Fraction(math.pi)) * (r - c) / 2 / F(1, 2))) / 2
                u.append(X.rmul(X.rite(X.rlt(c - F(1, 2), r), X.rite(X.rlt(r, c + F(1, 2)), s, 1), 0), P[7] / (rs - 1) * (P[3] + P[4])))
            yield ('indicator of element %d' % e, V.post[7][10 + e], u[e])
        fr = iter(V.pre[4])
        node = V.post[9]
        if mode < 2:
            sh = shared(V.post[8], ne, nv, lambda e, v: u[e], X.rmax)
            hang(nd, hd, st, nfine, sh)
        new = [[[V.pre[1][(e * N + v) * nq + k] for k in range(nq)] for v in range(N)] for e in range(ne)]
        if mode == 2:
            for e in range(ne):
                for k in range(nq):
                    new[e][nd + 5][k] = u[e]
                    new[e][nd + 6][k] = new[e][nd + 4][k]
            i = 0
            for e in range(ne):
                for v in range(N):
                    for k in range(nq):
                        yield ('data given to the smoothing', V.post[10][i], new[e][v][k])
                        i += 1
            for e in range(ne):
                for v in range(nd + 6, nd + 9):
                    for k in range(nq):
                        new[e][v][k] = next(fr)
        for e in range(ne):
            new[e][nd + 4] = interp_vertices(nd, rs, node, sh[e]) if mode < 2 else list(new[e][nd + 6])
            for v in range(N):
                for k in range(nq):
                    yield ('artificial viscosity coefficient: continuous across elements' if v == nd + 4 else 'other data', V.post[6][(e * N + v) * nq + k], new[e][v][k])
    bs = bufs(nd, rs, kind, nt, 40, st) + [fvars('o8', (ne * nv) ** 2), fvars('o9', rs), fvars('sn', ne * N * nq)]
    base = state_sample(nd, rs, kind) if kind != 8 else par_sample

    def sample(rng):
        env = base(rng)
        for e in range(ne):
            for v in range(nv):
                for k in range(3):
                    bit = ((v >> (nd - 1 - k)) & 1) if k < nd else 0
                    env['vp_%d' % ((e * nv + v) * 3 + k)] = bit + (1 if k == 0 and e else 0) + rng.uniform(-.15, .15)
        return env
    return Case('elementwise artificial viscosity nd=%d rs=%d mesh=%d mode=%d%s' % (nd, rs, kind, mode, '' if dr is None else ' direction=%s stretched=%s' % (dr, st)), 'sol_elav', bs, [nd, rs, kind, 0, 0, 0, 0, 1, mode] + list(st if kind == 8 else (1, 0)) + list(dr or [0, 0, 1, 0]),
                sets=lambda V: {}, post=post, free=lambda b, i: b >= 5, sample=sample, foreach=False, contracts=CONTRACTS + geometry.CONTRACTS, pre=[X.rlt(0, X.var('par_0'))])


def elav_cases(nd, rs, part=0, parts=1, full=True):
    out = [elav(nd, rs, k, m) for k, m in ((2, 0), (2, 1), (2, 2), (9, 0))]
    if nd > 1:
        out += [elav(nd, rs, k, 0) for k in (3, 4)]
        ds = legal_directions(nd, True)
        out += [elav(nd, rs, 8, 0, d, s) for i, d in enumerate(ds) for s in ([(0, 0), (1, 0)] if nd == 2 else [[(0, 0), (1, 0), (0, 1), (1, 1)][i % 4]])]
    return out[part::parts]


def fix_cases(nd, rs):
    return [fix(nd, rs, 9, m) for m in (0, 1, 2, 3)]


SRC = ['solver.cpp', 'face_perm.cpp', 'tree_rt.cpp'] + ['src/%s.cpp' % s for s in ('Solver', 'Accessible_mesh', 'connection', 'Hanging_vertex_matcher', 'Deformed_element', 'Element', 'Vertex', 'Storage_params', 'math', 'Lock', 'Basis', 'Stopwatch', 'Stopwatch_tree', 'Iteration_status', 'Tree', 'thermo', 'Vis_data', 'Qpoint_func', 'Element_func', 'Output_data', 'Domain_func', 'Spacetime_func')] + ['gen:Gauss_legendre.cpp', 'gen:Gauss_lobatto.cpp']


EXTRA = ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_NO_CPUID', '-fno-access-control', 'cfg:3']
ASSUMED = ['the kernels behave as their own contracts say (decided by the properties on the kernels); here they are recorders that replace the data the kernels write by arbitrary values',
           'math functions (sqrt, log, sin, cos) are functions of their argument']


def job(name, fn, nd, rs, **kw):
    return Job('%s nd=%d rs=%d%s' % (name, nd, rs, ''.join(' %s=%s' % x for x in kw.items() if x[0] == 'part')), SRC, 'specs.solver.' + fn, {'nd': nd, 'rs': rs, **kw}, [], extra=EXTRA,
               native_sources=[s for s in SRC if s != 'tree_rt.cpp'], native_libs=['-lhdf5_serial'], native_extra=[x for x in EXTRA if x[0] != '-' or 'access' in x], budget=800)


def jobs_for(fns, tier, parts={}):
    out = []
    sizes = [(3, 2), (2, 2), (2, 3), (1, 2)] + ([(1, 3), (3, 3)] if tier == 'thorough' else [])
    for nd, rs in sizes:
        for name, fn in fns:
            if fn == 'cheby_cases' and (nd, rs) != (1, 2):
                continue
            n = parts.get((fn, nd), 1)
            for i in range(n):
                out.append(job(name, fn, nd, rs, **({'part': i, 'parts': n, 'full': tier == 'thorough'} if n > 1 else {})))
    return out


def jobs(tier):
    return jobs_for([('update', 'update_cases'), ('chebyshev', 'cheby_cases'), ('artificial viscosity', 'av_cases'), ('shared geometry', 'jac_cases'), ('data', 'data_cases'), ('admissibility', 'admis_cases'), ('repair', 'fix_cases'), ('elementwise', 'elav_cases')], tier)
