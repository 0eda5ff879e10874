"""contracts of the interface kernels (Neighbor, Neighbor_reconcile)"""
from .common import *
from vc.contract import Case
from vc.run import Job


def layout(pde, nd, rs):
    nfq = rs ** (nd - 1)
    return {'euler': (nd + 2, nd + 2, 1, 0), 'ns': (nd + 2, nd + 2, 1, 1), 'adv': (nd + rs, rs, 1, 0), 'sav': (3, 3, 0, 1), 'fta': (nd + 2, nd + 2, 0, 1)}[pde] + (nfq,)


def state_bufs(pde, nd, rs, df):
    """buffers 0,1: face states; 2,3: LDG storage; 4: face normal"""
    ne, nu, conv, diff, nfq = layout(pde, nd, rs)
    sz = max(ne, nd + 2) * nfq
    b = [fvars('u0', sz), fvars('u1', sz), fvars('w0', sz), fvars('w1', sz), fvars('n', nd * nfq) if df else None]
    return b


def sampler(pde, nd, rs, df):
    ne, nu, conv, diff, nfq = layout(pde, nd, rs)

    def f(rng):
        env = {}
        if pde in ('euler', 'ns'):
            for s in (0, 1):
                for k in range(nfq):
                    for v, x in enumerate(pos_state_sample(rng, nd)):
                        env['u%d_%d' % (s, v * nfq + k)] = x
        return env
    return f


def pre_positive(pde, nd, rs):
    """the states handed to the convective flux have positive density and energy"""
    if pde not in ('euler', 'ns'):
        return []
    nfq = rs ** (nd - 1)
    out = []
    for s in (0, 1):
        for k in range(nfq):
            for v in (nd, nd + 1):
                out.append(X.rlt(0, X.var('u%d_%d' % (s, v * nfq + k))))
    return out


def case_name(kind, pde, nd, rs, df, dr):
    return '%s %s nd=%d rs=%d %s dir=%s' % (kind, pde, nd, rs, 'deformed' if df else 'cartesian', ','.join(map(str, dr)))


def entry(kind, pde, nd, rs, df):
    return '%s_%s_%d_%d_%d' % (kind, pde, df, nd, rs)


# ---------------------------------------------------------------- conservation
def conservation_cases(nd, rs, pde, df):
    return [c for dr in legal_directions(nd, df) for c in conservation_one(nd, rs, pde, df, dr)]


def conservation_one(nd, rs, pde, df, dr):
    ne, nu, conv, diff, nfq = layout(pde, nd, rs)
    out = []
    if True:
        pm = point_map(nd, rs, dr)
        sg = [1, 1] if not df else [2 * dr[2] - 1, 2 * dr[3] - 1]

        def outward(V, buf, s, v, k):
            # face storage holds the flux along +axis of its own face; outward means towards the other element
            sgn = (2 * dr[2 + s] - 1)
            return V.post[buf + s][v * nfq + k] * sgn

        def post(V):
            if conv:
                for v in range(nu):
                    for k in range(nfq):
                        a = outward(V, 0, 0, v, k)
                        b = outward(V, 0, 1, v, pm[k])
                        yield ('what leaves element 0 enters element 1: variable %d point %d' % (v, k), a + b, fnum(0, a))
            if diff:
                for v in range(ne):
                    for k in range(nfq):
                        yield ('both sides get the same LDG interface state: variable %d point %d' % (v, k), V.post[2][v * nfq + k], V.post[3][v * nfq + pm[k]])

        def free(b, i):
            return (b in (0, 1) and conv and i < nu * nfq) or (b in (2, 3) and diff and i < ne * nfq)
        out.append(Case(case_name('flux', pde, nd, rs, df, dr), entry('nb', pde, nd, rs, df), state_bufs(pde, nd, rs, df), list(dr) + [0], post=post, free=free,
                        sample=sampler(pde, nd, rs, df), hook=gl_contracts, pre=pre_positive(pde, nd, rs)))
        if diff:
            def post2(V):
                for v in range(nu):
                    for k in range(nfq):
                        tot = 0
                        for s, kk in ((0, k), (1, pm[k])):
                            # flux seen by element s = its own viscous flux plus the reconciliation difference, along its own outward normal
                            tot = tot + (V.post[2 + s][v * nfq + kk] + V.pre[2 + s][v * nfq + kk]) * (2 * dr[2 + s] - 1)
                        yield ('reconciled viscous fluxes cancel: variable %d point %d' % (v, k), tot, fnum(0, tot))

            def free2(b, i):
                return b in (2, 3) and i < nu * nfq
            out.append(Case(case_name('reconcile', pde, nd, rs, df, dr), entry('nr', pde, nd, rs, df), state_bufs(pde, nd, rs, df), list(dr) + [0], post=post2, free=free2, hook=gl_contracts))
    return out


# ---------------------------------------------------------------- numerical flux formula
def flux_cases(nd, rs, pde, df):
    return [c for dr in legal_directions(nd, df) for c in flux_one(nd, rs, pde, df, dr)]


def flux_one(nd, rs, pde, df, dr):
    ne, nu, conv, diff, nfq = layout(pde, nd, rs)
    out = []
    if True:
        pm = point_map(nd, rs, dr)

        def sets(V):
            d = {}
            for k in range(nfq):
                kk = [k, pm[k]]
                u = [[V.pre[s][v * nfq + kk[s]] for v in range(ne)] for s in (0, 1)]
                one = fnum(1, u[0][0])
                s0 = 2 * dr[2] - 1     # +1: the outward direction of side 0 is the +axis direction
                if df:
                    n = [V.pre[4][a * nfq + k] * s0 for a in range(nd)]
                else:
                    n = [fnum(int(a == dr[0]), u[0][0]) for a in range(nd)]
                half = fnum(F(1, 2), u[0][0])
                if conv:
                    if pde == 'adv':
                        fl, sp, up = [], [], []
                        for s in (0, 1):
                            vel = u[s][:nd]
                            fl.append([(glnode(i, V, rs) * 2 - 1) * dot(vel, n) * u[s][nd + i] for i in range(rs)])
                            sp.append(g_max(one, norm(vel)))
                            up.append(u[s][nd:])
                    else:
                        fl = [euler_flux(u[s], n, nd) for s in (0, 1)]
                        sp = [euler_speed(u[s], nd) for s in (0, 1)]
                        up = u
                    sm = g_max(sp[0], sp[1])
                    nn = norm(n) if df else one
                    for v in range(nu):
                        f = (fl[0][v] + fl[1][v]) * half + sm * nn * (up[0][v] - up[1][v]) * half
                        for s in (0, 1):
                            # stored along the +axis of its own face
                            sgn = 1 if not df else (1 - 2 * s) * (2 * dr[2 + s] - 1)
                            d[(s, v * nfq + kk[s])] = f * sgn
                if diff:
                    for v in range(ne):
                        a = (u[0][v] + u[1][v]) * half
                        d[(2, v * nfq + k)] = a
                        d[(3, v * nfq + pm[k])] = a
            return d
        out.append(Case(case_name('flux formula', pde, nd, rs, df, dr), entry('nb', pde, nd, rs, df), state_bufs(pde, nd, rs, df), list(dr) + [0], sets=sets,
                        sample=sampler(pde, nd, rs, df), hook=gl_contracts, pre=pre_positive(pde, nd, rs)))
    return out


def sizes(tier):
    return [(1, 2), (1, 7), (2, 2), (2, 3), (2, 6), (3, 2), (3, 3)] if tier == 'quick' else [(1, r) for r in range(2, 9)] + [(2, r) for r in range(2, 9)] + [(3, r) for r in range(2, 6)]


def jobs_for(builder, tier):
    out = []
    for nd, rs in sizes(tier):
        for df in (0, 1):
            for pde in ('euler', 'ns', 'adv', 'sav', 'fta'):
                out.append(Job('%s %d %d %d %s' % (builder, nd, rs, df, pde), ['neighbor.cpp'], 'specs.interface.' + builder, {'nd': nd, 'rs': rs, 'pde': pde, 'df': df},
                               ['VC_ND=%d' % nd, 'VC_RS=%d' % rs], native_sources=['neighbor.cpp', 'src/Basis.cpp', 'src/Stopwatch.cpp', 'src/Stopwatch_tree.cpp', build_gl()]))
    return out


def build_gl():
    return 'gen:Gauss_legendre.cpp'
