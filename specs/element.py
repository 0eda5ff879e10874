"""contracts of the element kernels (Write_face, Local, Reconcile_ldg_flux, Max_dt)"""
from .common import *
from vc.contract import Case
from vc.run import Job
from vc import exec as VX

R_AIR = F('287.05287')
PDES = ('euler', 'ns', 'nsc', 'adv', 'sav', 'fta')


class Lay:
    def __init__(s, pde, nd, rs, df):
        s.pde, s.nd, s.rs, s.df = pde, nd, rs, df
        s.nq = rs ** nd
        s.nfq = rs ** (nd - 1)
        s.nvar = nd + 9 + rs                       # element storage: flow, time step scale, artificial viscosity, advection states
        s.visc = pde in ('ns', 'nsc', 'sav', 'fta')
        s.conv = pde in ('euler', 'ns', 'nsc', 'adv')
        s.src = pde in ('adv', 'sav')
        flow = list(range(nd + 2))
        s.upd = {'adv': [nd + 9 + i for i in range(rs)], 'sav': [nd + 6 + i for i in range(3)]}.get(pde, flow)    # state variables the equation updates
        s.ext = list(range(nd)) + s.upd if pde == 'adv' else s.upd                                                # variables extrapolated to the faces
        s.nu = len(s.upd)
        s.ne = len(s.ext)
        s.fsz = max(s.ne, nd + 2) * s.nfq


def qpoints(nd, rs):
    return list(itertools.product(range(rs), repeat=nd))


def qindex(pt, rs):
    i = 0
    for a in pt:
        i = i * rs + a
    return i


def rows(nd, rs, d):
    """(face point index, [element point indices along axis d])"""
    out = []
    for f, pt in enumerate(face_points(nd, rs, d)):
        out.append((f, [qindex([pt[a] if a != d else i for a in range(nd)], rs) for i in range(rs)]))
    return out


def elem_bufs(L):
    nd, rs, nq, nfq = L.nd, L.rs, L.nq, L.nfq
    b = [fvars('s', L.nvar * nq), fvars('c', max(L.nu, nd + 2) * nq), fvars('t', nq), fvars('vt', 2 ** nd), [X.var('h')]]
    b += [fvars('f%d' % i, L.fsz) if i < 2 * nd else None for i in range(6)]
    b += [fvars('g%d' % i, L.fsz) if i < 2 * nd else None for i in range(6)]
    b += [fvars('N', nd * nd * nq) if L.df else None, fvars('J', nq) if L.df else None]
    b += [fvars('m%d' % i, nd * nfq) if L.df and i < 2 * nd else None for i in range(6)]
    b += [[X.var('unc')]]
    # basis: nodes, weights, diff, boundary, orthogonal, filter, prolong, restrict, eigenvalues
    b += [fvars('x', rs), fvars('w', rs), fvars('D', rs * rs), fvars('b', 2 * rs), fvars('o', rs * rs), fvars('F', rs * rs)] + [fvars('p%d' % i, rs * rs) for i in range(4)] + [fvars('eig', 3)]
    b += [fvars('par', 11)]
    return b


B0 = 26


class Ops:
    """basis operators read from the basis buffers (column-major matrices)"""

    def __init__(s, V, rs):
        g = V.pre
        s.rs = rs
        s.x = g[B0]
        s.w = g[B0 + 1]
        s.D = [[g[B0 + 2][i + rs * j] for j in range(rs)] for i in range(rs)]
        s.b = [[g[B0 + 3][k + 2 * j] for j in range(rs)] for k in range(2)]
        s.F = [[g[B0 + 5][i + rs * j] for j in range(rs)] for i in range(rs)]

    def diff(s, row):
        return [dot(s.D[i], row) for i in range(s.rs)]

    def bound(s, row):
        return [dot(s.b[k], row) for k in range(2)]

    def lift(s, bd):
        """w_i^-1 * (boundary basis value) * outward sign"""
        return [(bd[1] * s.b[1][i] - bd[0] * s.b[0][i]) / s.w[i] for i in range(s.rs)]

    def deriv(s, row, bd):
        own = s.bound(row)
        l = s.lift([bd[0] - own[0], bd[1] - own[1]])
        d = s.diff(row)
        return [a + c for a, c in zip(d, l)]

    def filt(s, row):
        return [dot(s.F[i], row) for i in range(s.rs)]


def sutherland(par, k, sqrt_t):
    """mu = mu0 (T/T0)^(3/2) (T0 + S)/(T + S)"""
    mu0, t0, S = par[k], par[k + 1], par[k + 2]
    r = sqrt_t / g_sqrt(t0)
    return mu0 * r * r * r * (t0 + S) / (sqrt_t * sqrt_t + S)


def transport(L, V, u, nd):
    """dynamic viscosity and the coefficient of the internal-energy gradient in the heat flux"""
    like = u[nd]
    par = V.pre[37]
    e = (u[nd + 1] - dot(u[:nd], u[:nd]) / u[nd] * fnum(F(1, 2), like)) / u[nd]
    T = g_max(e, fnum(0, like)) * fnum(GM1, like) / fnum(R_AIR, like)
    st = g_sqrt(T)
    if L.pde == 'nsc':
        mu, k = par[1], par[4]
    else:
        mu, k = sutherland(par, 1, st), sutherland(par, 4, st)
    return mu, k * fnum(GM1, like) / fnum(R_AIR, like)


def conv_flux(L, V, s, q, n):
    """convective flux of the updated variables through area vector n"""
    nd, nq = L.nd, L.nq
    if L.pde == 'adv':
        vel = [s[d * nq + q] for d in range(nd)]
        return [(glnode(i, V, L.rs) * 2 - 1) * dot(vel, n) * s[L.upd[i] * nq + q] for i in range(L.rs)]
    return euler_flux([s[v * nq + q] for v in range(nd + 2)], n, nd)


def diff_flux(L, V, s, q, grad):
    """viscous flux [var][dir] in physical directions; grad[var][dir]"""
    nd, nq = L.nd, L.nq
    if L.pde in ('sav', 'fta'):
        return [[-grad[v][d] for d in range(nd)] for v in range(L.nu)]
    u = [s[v * nq + q] for v in range(nd + 2)]
    like = u[nd]
    rho = u[nd]
    mu, kap = transport(L, V, u, nd)
    bulk = g_abs(s[(nd + 3) * nq + q]) * rho
    lap = g_abs(s[(nd + 4) * nq + q])
    v = [u[i] / rho for i in range(nd)]
    gv = [[(grad[i][d] - v[i] * grad[nd][d]) / rho for d in range(nd)] for i in range(nd)]      # dv_i/dx_d
    div = total(gv[i][i] for i in range(nd))
    tau = [[mu * (gv[i][j] + gv[j][i]) + ((bulk - mu * fnum(F(2, 3), like)) * div if i == j else fnum(0, like)) for j in range(nd)] for i in range(nd)]
    # specific internal energy e = E/rho - v.v/2
    ge = [grad[nd + 1][d] / rho - u[nd + 1] * grad[nd][d] / (rho * rho) - total(v[i] * gv[i][d] for i in range(nd)) for d in range(nd)]
    out = [[-lap * grad[i][d] - tau[i][d] for d in range(nd)] for i in range(nd)]
    out.append([-lap * grad[nd][d] for d in range(nd)])
    out.append([-lap * grad[nd + 1][d] - total(v[i] * tau[i][d] for i in range(nd)) - kap * ge[d] for d in range(nd)])
    return out


def source(L, V, s, q):
    par = V.pre[37]
    like = s[0]
    if L.pde == 'adv':
        return [fnum(2, like) / par[1]] * L.rs
    f = [g_abs(s[(L.nd + 5 + i) * L.nq + q]) for i in range(3)]
    return [f[0] / par[1], g_sqrt(f[1]) / par[1], f[2] / par[1]]


def normal(L, V, d, j, q, like):
    """component j of the reference-level normal of direction d"""
    return V.pre[17][(d * L.nd + j) * L.nq + q] if L.df else fnum(int(d == j), like)


def face_normal(L, V, ip3, side, j, k, like):
    if L.df and (ip3 >> side) & 1:
        return V.pre[19 + side][j * L.nfq + k]
    return fnum(int(side // 2 == j), like)


def extrapolate(L, O, s):
    """(face buffer, index) -> value"""
    out = {}
    for d in range(L.nd):
        for k, ix in rows(L.nd, L.rs, d):
            for v, var in enumerate(L.ext):
                bd = O.bound([s[var * L.nq + q] for q in ix])
                for side in (0, 1):
                    out[(5 + 2 * d + side, v * L.nfq + k)] = bd[side]
    return out


def gradients(L, O, V, ip3):
    """LDG gradient [var][dir][q] from interior state and shared face state"""
    nd, nq, s = L.nd, L.nq, V.pre[0]
    like = s[0]
    h = V.pre[4][0]
    G = [[[fnum(0, like)] * nq for _ in range(nd)] for _ in range(L.ne)]
    for d in range(nd):
        for k, ix in rows(nd, L.rs, d):
            for v, var in enumerate(L.ext):
                for j in range(nd):
                    if not L.df and j != d:
                        continue
                    row = [normal(L, V, d, j, q, like) * s[var * nq + q] for q in ix]
                    bd = [face_normal(L, V, ip3, 2 * d + sd, j, k, like) * V.pre[11 + 2 * d + sd][v * L.nfq + k] for sd in (0, 1)]
                    for q, g in zip(ix, O.deriv(row, bd)):
                        G[v][j][q] = G[v][j][q] + g / h
    if L.df:
        G = [[[G[v][j][q] / V.pre[18][q] for q in range(nq)] for j in range(nd)] for v in range(L.ne)]
    return G


def filter_all(L, O, A):
    """apply the modal filter along every axis; A[var][q]"""
    A = [list(a) for a in A]
    for d in range(L.nd):
        for k, ix in rows(L.nd, L.rs, d):
            for a in A:
                for q, x in zip(ix, O.filt([a[q] for q in ix])):
                    a[q] = x
    return A


def write_update(L, V, s, q, up, critical):
    """new values of the updated variables at point q"""
    old = [s[v * L.nq + q] for v in L.upd]
    par = V.pre[37]
    if L.pde == 'adv':
        ps = 1 + s[(L.nd + 2) * L.nq + q] * 2 / par[1]
        return [(o + u) / ps if critical else o + u / ps for o, u in zip(old, up)]
    if L.pde == 'sav':
        ps = 1 + s[(L.nd + 2) * L.nq + q] * par[2] / par[1]
        return [(o + u) / ps if critical else o + u for o, u in zip(old, up)]
    return [o + u for o, u in zip(old, up)]


def local_terms(L, O, V, ip):
    """convective and diffusive+source rates [var][q] (times d_pos and Jacobian determinant) and the extrapolated viscous fluxes"""
    nd, rs, nq, s = L.nd, L.rs, L.nq, V.pre[0]
    like = s[0]
    z = fnum(0, like)
    conv = [[z] * nq for _ in range(L.nu)]
    dif = [[z] * nq for _ in range(L.nu)]
    vf = {}
    if L.conv:
        for d in range(nd):
            fl = [conv_flux(L, V, s, q, [normal(L, V, d, j, q, like) for j in range(nd)]) for q in range(nq)]
            for k, ix in rows(nd, rs, d):
                for v in range(L.nu):
                    r = O.deriv([fl[q][v] for q in ix], [V.pre[5 + 2 * d + sd][v * L.nfq + k] for sd in (0, 1)])
                    for q, x in zip(ix, r):
                        conv[v][q] = conv[v][q] - x
    if L.visc:
        G = gradients(L, O, V, ip[3])
        fl = [diff_flux(L, V, s, q, [[G[v][j][q] for j in range(nd)] for v in range(L.ne)]) for q in range(nq)]
        for d in range(nd):
            fn = [[dot(fl[q][v], [normal(L, V, d, j, q, like) for j in range(nd)]) for v in range(L.nu)] for q in range(nq)]
            for k, ix in rows(nd, rs, d):
                for v in range(L.nu):
                    row = [fn[q][v] for q in ix]
                    for sd, x in enumerate(O.bound(row)):
                        vf[(11 + 2 * d + sd, v * L.nfq + k)] = x
                    for q, x in zip(ix, O.diff(row)):
                        dif[v][q] = dif[v][q] - x
    if L.src and not ip[0]:
        for q in range(nq):
            for v, x in enumerate(source(L, V, s, q)):
                dif[v][q] = dif[v][q] + x * V.pre[4][0] * (V.pre[18][q] if L.df else 1)
    if ip[2]:
        conv, dif = filter_all(L, O, conv), filter_all(L, O, dif)
    return conv, dif, vf


def mult(L, O, V, q, stage):
    m = V.pre[37][0] * V.pre[2][q] / V.pre[4][0]
    if stage:
        # second stage is shorter by the step ratio .5/quadratic_safety
        m = m * fnum(F(1, 2), m) / V.pre[B0 + 10][1]
    return m / V.pre[18][q] if L.df else m


def local_one(pde, nd, rs, df, ip):
    L = Lay(pde, nd, rs, df)
    stage, resid, filt = ip[0], ip[1], ip[2]

    def sets(V):
        O = Ops(V, rs)
        s, nq = V.pre[0], L.nq
        conv, dif, d = local_terms(L, O, V, ip)
        new = list(s)
        for q in range(nq):
            m = mult(L, O, V, q, stage)
            up = []
            for v in range(L.nu):
                c = V.pre[1][v * nq + q]
                u = (conv[v][q] - c) if stage else conv[v][q] + dif[v][q]
                u = u * m
                if not stage and L.conv:
                    d[(1, v * nq + q)] = conv[v][q]
                if resid:
                    d[(1, v * nq + q)] = u
                    up.append(fnum(0, u))
                else:
                    up.append(u)
            for var, x in zip(L.upd, write_update(L, V, s, q, up, not L.visc and not stage)):
                d[(0, var * nq + q)] = x
                new[var * nq + q] = x
        if not L.visc:
            d.update(extrapolate(L, O, new))
        return d
    return Case('local update %s nd=%d rs=%d %s stage=%d residual=%d filter=%d normals=%d' % (pde, nd, rs, 'deformed' if df else 'cartesian', stage, resid, filt, ip[3]),
                'lo_%s_%d' % (pde, df), elem_bufs(L), ip, sets=sets, sample=sampler(L), hook=hook, pre=pre_admissible(L))


def reconcile_one(pde, nd, rs, df, ip):
    L = Lay(pde, nd, rs, df)

    def sets(V):
        O = Ops(V, rs)
        s, nq = V.pre[0], L.nq
        like = s[0]
        rate = [[fnum(0, like)] * nq for _ in range(L.nu)]
        for d in range(nd):
            for k, ix in rows(nd, rs, d):
                for v in range(L.nu):
                    l = O.lift([V.pre[11 + 2 * d + sd][v * L.nfq + k] for sd in (0, 1)])
                    for q, x in zip(ix, l):
                        rate[v][q] = rate[v][q] - x
        if ip[2]:
            rate = filter_all(L, O, rate)
        out = {}
        new = list(s)
        for q in range(nq):
            m = mult(L, O, V, q, 0)
            up = [rate[v][q] * m for v in range(L.nu)]
            if ip[1]:
                for v in range(L.nu):
                    out[(1, v * nq + q)] = V.pre[1][v * nq + q] + up[v]
            else:
                for var, x in zip(L.upd, write_update(L, V, s, q, up, True)):
                    out[(0, var * nq + q)] = x
                    new[var * nq + q] = x
        out.update(extrapolate(L, O, new))
        return out
    return Case('viscous flux reconciliation %s nd=%d rs=%d %s residual=%d filter=%d' % (pde, nd, rs, 'deformed' if df else 'cartesian', ip[1], ip[2]),
                're_%s_%d' % (pde, df), elem_bufs(L), ip, sets=sets, sample=sampler(L), hook=hook, pre=pre_admissible(L))


def write_face_one(pde, nd, rs, df):
    L = Lay(pde, nd, rs, df)

    def sets(V):
        return extrapolate(L, Ops(V, rs), V.pre[0])
    return Case('face extrapolation %s nd=%d rs=%d %s' % (pde, nd, rs, 'deformed' if df else 'cartesian'), 'wf_%s_%d' % (pde, df), elem_bufs(L), [0] * 6, sets=sets, sample=sampler(L), hook=hook)


def hook(h):
    VX.register_const(GM1 / R_AIR)
    return gl_contracts(h)


def sampler(L):
    def f(rng):
        env = {}
        for q in range(L.nq):
            for v, x in enumerate(pos_state_sample(rng, L.nd)):
                env['s_%d' % (v * L.nq + q)] = x
            env['s_%d' % ((L.nd + 2) * L.nq + q)] = rng.uniform(.1, 1)
            env['t_%d' % q] = rng.uniform(.5, 2)
            env['J_%d' % q] = rng.uniform(.5, 2)
        for i in range(L.rs):
            env['w_%d' % i] = rng.uniform(.2, 1)
        for i in range(11):
            env['par_%d' % i] = rng.uniform(.5, 2)
        env['h'] = rng.uniform(.5, 2)
        env['eig_0'] = -rng.uniform(1, 20)
        env['eig_1'] = rng.uniform(.3, 1)
        env['eig_2'] = -rng.uniform(10, 200)
        for i in range(2 ** L.nd):
            env['vt_%d' % i] = rng.uniform(.5, 2)
        for i in range(L.rs):
            env['x_%d' % i] = rng.uniform(0, 1)
        return env
    return f


def pre_admissible(L):
    if L.pde not in ('euler', 'ns', 'nsc'):
        return []
    return [X.rlt(0, X.var('s_%d' % (v * L.nq + q))) for v in (L.nd, L.nd + 1) for q in range(L.nq)]


NATIVE = ['element.cpp', 'src/Basis.cpp', 'src/Stopwatch.cpp', 'src/Stopwatch_tree.cpp', 'gen:Gauss_legendre.cpp']


def job(name, fn, nd, rs, df, **args):
    return Job(name, ['element.cpp', 'src/Basis.cpp'], 'specs.element.' + fn, dict(nd=nd, rs=rs, df=df, **args), ['VC_ND=%d' % nd, 'VC_RS=%d' % rs, 'VC_DF=%d' % df], native_sources=NATIVE)


def local_cases(pde, nd, rs, df, full=True):
    L = Lay(pde, nd, rs, df)
    out = []
    masks = [(1 << 2 * nd) - 1] if not (df and L.visc) else [(1 << 2 * nd) - 1, 0b010110 & ((1 << 2 * nd) - 1)]
    for m in masks:
        for filt in (0, 1):
            if L.visc:
                modes = [(0, 0), (0, 1)] if pde not in ('sav', 'fta') else [(0, 0)]
            else:
                modes = [(0, 0), (1, 0)] + ([(0, 1)] if pde == 'euler' else [])
            for stage, resid in modes:
                out.append(local_one(pde, nd, rs, df, [stage, resid, filt, m, 0, 0]))
    return out


def reconcile_cases(pde, nd, rs, df):
    return [reconcile_one(pde, nd, rs, df, [0, r, f, (1 << 2 * nd) - 1, 0, 0]) for r in ((0, 1) if pde == 'ns' else (0,)) for f in (0, 1)]


def write_face_cases(pde, nd, rs, df):
    return [write_face_one(pde, nd, rs, df)]


# ---------------------------------------------------------------- time step
BIG = F((2 ** 53 - 1) * 2 ** 971)


def spacing(L, V, pt):
    """multilinear interpolation of the vertex time step scales at a quadrature point"""
    vals = list(V.pre[3])
    x = V.pre[B0]
    for d in range(L.nd):
        h = len(vals) // 2
        vals = [vals[i] * (1 - x[pt[d]]) + vals[i + h] * x[pt[d]] for i in range(h)]
    return vals[0]


def dt_scale(L, V, q, pt):
    """1/dt of one quadrature point"""
    nd, nq, s = L.nd, L.nq, V.pre[0]
    like = s[0]
    par, eig = V.pre[37], V.pre[B0 + 10]
    dx = spacing(L, V, pt)
    r = fnum(0, like)
    if L.conv:
        if L.pde == 'adv':
            sp = g_max(fnum(1, like), norm([s[d * nq + q] for d in range(nd)]))
        else:
            sp = euler_speed([s[v * nq + q] for v in range(nd + 2)], nd)
        r = r + sp / (fnum(-2, like) * eig[1] / eig[0] * par[8]) / dx
    if L.visc:
        if L.pde in ('sav', 'fta'):
            a = fnum(1, like)
        else:
            u = [s[v * nq + q] for v in range(nd + 2)]
            mu, kap = transport(L, V, u, nd)
            a = g_abs(s[(nd + 4) * nq + q]) + g_max(g_abs(s[(nd + 3) * nq + q]) + mu / u[nd], kap / u[nd])
        r = r + a / (fnum(-2, like) / eig[2] * par[9]) / (dx * dx)
    return r


def max_dt_one(pde, nd, rs, df, ip):
    L = Lay(pde, nd, rs, df)
    loc = ip[4]

    def scales(V):
        return [(q, dt_scale(L, V, q, pt)) for q, pt in enumerate(qpoints(nd, rs))]

    def sets(V):
        one = fnum(1, V.pre[0][0])
        d = {(2, q): (one / r if loc else one) for q, r in scales(V)}
        if V.extra.get('native'):
            d[(37, 10)] = 1. if loc else min(1 / r for q, r in scales(V))
        return d

    def post(V):
        if loc or V.extra.get('native') or V.extra['ret']:
            return
        cands = [(o, n) for o, n in V.extra.get('carry') or [] if isinstance(n, X.Node) and isinstance(o, X.Node) and any(t is o for t in X.topo([n]))]
        yield ('one running minimum is carried from element to element', int(len(cands) == 1))
        for o, n in cands[:1]:
            m = o
            for q, r in scales(V):
                m = g_min(m, 1 / r)
            yield ('running minimum is lowered to the smallest admissible step of the element', n, m)

    def exit_post(V):
        g = V.post[37][10]
        if loc:
            yield ('local time stepping returns 1', g, 1)
            return
        if not V.extra['carry0']:
            yield ('without elements the time step is unlimited', int(X.isc(g) and g >= BIG))
            return
        cs = [(o, e) for o, e in V.extra['carry0'] if isinstance(g, X.Node) and any(t is o for t in X.topo([g]))]
        yield ('the result is the running minimum', int(len(cs) == 1))
        for o, e in cs[:1]:
            yield ('the running minimum starts at the largest number', int(X.isc(e) and e >= BIG))
            m = o
            if V.extra['visited']:
                for q, r in scales(V):
                    m = g_min(m, 1 / r)
            yield ('the result is the smallest admissible step', g_min(BIG, g), g_min(BIG, m))
    return Case('time step %s nd=%d rs=%d %s local=%d' % (pde, nd, rs, 'deformed' if df else 'cartesian', loc), 'dt_%s_%d' % (pde, df), elem_bufs(L), ip, sets=sets, post=post,
                exit_post=exit_post, exit_free=lambda b, i: (b, i) == (37, 10), free=lambda b, i: False, sample=sampler(L), hook=hook, pre=pre_admissible(L))


def max_dt_cases(pde, nd, rs, df):
    return [max_dt_one(pde, nd, rs, df, [0, 0, 0, 0, loc, 0]) for loc in (0, 1)]


# ---------------------------------------------------------------- lemmas over the same code, from axioms of the basis
def axiom_bufs(L, which):
    """basis operators constrained by an axiom, expressed by solving it for one entry per row/column

    'sbp':   sum_i w_i D_ij = b_1j - b_0j   (integration by parts: exact quadrature of derivatives)
    'const': sum_j D_ij = 0, sum_j b_sj = 1  (constants are in the space)"""
    b = elem_bufs(L)
    rs = L.rs
    w, D, bd = b[B0 + 1], b[B0 + 2], b[B0 + 3]
    if which == 'sbp':
        for j in range(rs):
            D[0 + rs * j] = (bd[1 + 2 * j] - bd[0 + 2 * j] - total(w[i] * D[i + rs * j] for i in range(1, rs))) / w[0]
    else:
        for i in range(rs):
            D[i + rs * 0] = -total(D[i + rs * j] for j in range(1, rs))
        for s in range(2):
            bd[s] = 1 - total(bd[s + 2 * j] for j in range(1, rs))
    return b


def wprod(w, pt, skip=None):
    r = 1
    for a, i in enumerate(pt):
        if a != skip:
            r = r * w[i]
    return r


def boundary_integral(L, V, bufs, v, axes=None):
    """quadrature of the outward flux over all faces of the element; bufs: list of buffers by face"""
    w = V.pre[B0 + 1]
    t = fnum(0, w[0])
    for d in range(L.nd):
        for k, pt in enumerate(face_points(L.nd, L.rs, d)):
            a = 1
            for x in pt.values():
                a = a * w[x]
            t = t + a * (bufs[2 * d + 1][v * L.nfq + k] - bufs[2 * d][v * L.nfq + k])
    return t


def conserve_local(pde, nd, rs, df, stage=0):
    L = Lay(pde, nd, rs, df)
    ip = [stage, 0, 0, (1 << 2 * nd) - 1, 0, 0]

    def post(V):
        w = V.pre[B0 + 1]
        for v in range(L.nu):
            lhs = fnum(0, w[0])
            rhs = fnum(0, w[0])
            for q, pt in enumerate(qpoints(nd, rs)):
                old, new = V.pre[0][L.upd[v] * L.nq + q], V.post[0][L.upd[v] * L.nq + q]
                lhs = lhs + wprod(w, pt) * (new - old) / mult(L, None, V, q, stage)
                if stage:
                    rhs = rhs - wprod(w, pt) * V.pre[1][v * L.nq + q]
            if L.conv:
                rhs = rhs - boundary_integral(L, V, V.pre[5:11], v)
            if L.visc:
                rhs = rhs - boundary_integral(L, V, V.post[11:17], v)
            yield ('total change of variable %d equals the net flux through the faces' % v, lhs, rhs)
            if stage == 0 and L.conv:
                c = fnum(0, w[0])
                for q, pt in enumerate(qpoints(nd, rs)):
                    c = c + wprod(w, pt) * V.post[1][v * L.nq + q]
                yield ('cached convective rate of variable %d integrates to the net convective flux' % v, c, -boundary_integral(L, V, V.pre[5:11], v))

    def free(b, i):
        return (b == 0 and i // L.nq in L.upd) or (b == 1 and i < L.nu * L.nq) or 5 <= b < 17
    return Case('conservation of the local update %s nd=%d rs=%d %s stage=%d' % (pde, nd, rs, 'deformed' if df else 'cartesian', stage), 'lo_%s_%d' % (pde, df), axiom_bufs(L, 'sbp'), ip,
                post=post, free=free, sample=sampler(L), hook=hook, pre=pre_admissible(L))


def conserve_reconcile(pde, nd, rs, df):
    L = Lay(pde, nd, rs, df)
    ip = [0, 0, 0, (1 << 2 * nd) - 1, 0, 0]

    def post(V):
        w = V.pre[B0 + 1]
        for v in range(L.nu):
            lhs = fnum(0, w[0])
            for q, pt in enumerate(qpoints(nd, rs)):
                lhs = lhs + wprod(w, pt) * (V.post[0][L.upd[v] * L.nq + q] - V.pre[0][L.upd[v] * L.nq + q]) / mult(L, None, V, q, 0)
            yield ('total change of variable %d equals the net flux correction through the faces' % v, lhs, -boundary_integral(L, V, V.pre[11:17], v))

    def free(b, i):
        return (b == 0 and i // L.nq in L.upd) or 5 <= b < 11
    # integration of the lifted face terms needs the basis to reproduce constants
    return Case('conservation of the flux reconciliation %s nd=%d rs=%d %s' % (pde, nd, rs, 'deformed' if df else 'cartesian'), 're_%s_%d' % (pde, df), axiom_bufs(L, 'const'), ip,
                post=post, free=free, sample=sampler(L), hook=hook, pre=pre_admissible(L))


def both_axioms(L):
    """operators satisfying both axioms: constants reproduced and exact integration by parts"""
    b = elem_bufs(L)
    rs = L.rs
    w, D, bd = b[B0 + 1], b[B0 + 2], b[B0 + 3]
    for s in range(2):
        bd[s] = 1 - total(bd[s + 2 * j] for j in range(1, rs))
    for i in range(1, rs):
        D[i] = -total(D[i + rs * j] for j in range(1, rs))
    for j in range(rs):
        D[0 + rs * j] = (bd[1 + 2 * j] - bd[0 + 2 * j] - total(w[i] * D[i + rs * j] for i in range(1, rs))) / w[0]
    return b


def conservation_cases(pde, nd, rs, df):
    def fix(c):
        c.bufs = both_axioms(Lay(pde, nd, rs, df))
        return c
    out = [fix(conserve_local(pde, nd, rs, df))]
    if pde == 'euler':
        out.append(fix(conserve_local(pde, nd, rs, df, 1)))
    if pde in ('ns', 'fta'):
        out.append(fix(conserve_reconcile(pde, nd, rs, df)))
    return out


def freestream_cases(pde, nd, rs, df):
    """uniform flow on an affine element with consistent interface data is a steady state"""
    L = Lay(pde, nd, rs, df)
    b = both_axioms(L)
    flow = [X.var('U%d' % v) for v in range(nd + 2)]
    for v in range(nd + 2):
        for q in range(L.nq):
            b[0][v * L.nq + q] = flow[v]
    nrm = [[X.var('A%d_%d' % (d, j)) if df else int(d == j) for j in range(nd)] for d in range(nd)]
    if df:
        for d in range(nd):
            for j in range(nd):
                for q in range(L.nq):
                    b[17][(d * nd + j) * L.nq + q] = nrm[d][j]
                for sd in (0, 1):
                    for k in range(L.nfq):
                        b[19 + 2 * d + sd][j * L.nfq + k] = nrm[d][j]
    for d in range(nd):
        f = euler_flux(flow, nrm[d], nd)
        for sd in (0, 1):
            for v in range(nd + 2):
                for k in range(L.nfq):
                    if L.conv:
                        b[5 + 2 * d + sd][v * L.nfq + k] = f[v]
                    if L.visc:
                        b[11 + 2 * d + sd][v * L.nfq + k] = flow[v]

    def post(V):
        for v in range(nd + 2):
            for q in range(L.nq):
                yield ('uniform flow unchanged: variable %d point %d' % (v, q), V.post[0][v * L.nq + q], V.pre[0][v * L.nq + q])
                if L.conv:
                    yield ('zero convective residual: variable %d point %d' % (v, q), V.post[1][v * L.nq + q], fnum(0, V.pre[0][0]))
        if L.visc:
            for sd in range(2 * nd):
                for i in range(L.nu * L.nfq):
                    yield ('zero viscous flux on face %d[%d]' % (sd, i), V.post[11 + sd][i], fnum(0, V.pre[0][0]))
        else:
            for d in range(nd):
                for sd in (0, 1):
                    for v in range(nd + 2):
                        for k in range(L.nfq):
                            yield ('faces receive the uniform state: face %d variable %d' % (2 * d + sd, v), V.post[5 + 2 * d + sd][v * L.nfq + k], V.pre[0][v * L.nq])

    def free(bb, i):
        return (bb == 0 and i // L.nq in L.upd) or (bb == 1 and i < L.nu * L.nq) or (5 <= bb < 11 and not L.visc) or (11 <= bb < 17 and L.visc)

    base = sampler(L)

    def samp(rng):
        env = base(rng)
        for v, x in enumerate(pos_state_sample(rng, nd)):
            env['U%d' % v] = x
        return env
    out = []
    for filt in (0, 1):
        out.append(Case('uniform flow %s nd=%d rs=%d %s filter=%d' % (pde, nd, rs, 'affine' if df else 'cartesian', filt), 'lo_%s_%d' % (pde, df), b, [0, 0, filt, (1 << 2 * nd) - 1, 0, 0],
                        post=post, free=free, sample=samp, hook=hook, pre=[X.rlt(0, flow[nd]), X.rlt(0, flow[nd + 1])]))
    return out


def sizes(tier):
    return [(1, 2), (1, 6), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)] if tier == 'quick' else [(1, r) for r in range(2, 9)] + [(2, r) for r in range(2, 7)] + [(3, r) for r in range(2, 5)]


def jobs_for(fn, pdes, tier, szs=None):
    # largest first, so that the long ones overlap
    return [job('%s %s nd=%d rs=%d def=%d' % (fn, p, nd, rs, df), fn, nd, rs, df, pde=p) for nd, rs in (szs or sizes(tier))[::-1] for df in (1, 0) for p in pdes]
