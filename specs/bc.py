"""contracts of the flow boundary conditions"""
import re
from .common import *
from vc.contract import Case
from vc.run import Job
from vc import exec as VX

R_AIR = F('287.05287')
PI = F('3.14159265358979323846264338327950288')
SIGMA = 2 * PI ** 5 * F('1.380649e-23') ** 4 / (15 * F(299792458) ** 2 * F('6.62607015e-34') ** 3)
KINDS = ['freestream', 'characteristic', 'pressure outflow', 'user function', 'cached user function', 'inviscid wall', 'no-slip wall', 'copy', 'outflow']
THERMAL = ['given energy', 'given heat flux', 'radiative equilibrium', 'default', 'relaxed heat flux']
PHASES = ['state', 'flux', 'advection', 'smoothing', 'smoothing flux', 'cached state']


def qr_compute(ex, st, a):
    """contract of Eigen's column-pivoting QR of a 3x3 matrix: afterwards solve() answers for the matrix last handed to it (kept in place)"""
    return None


def qr_solve(ex, st, a):
    """contract of Eigen's QR solve for an invertible matrix: dst is the solution of A dst = rhs"""
    from vc.exec import Ptr
    A = [[ex.load(st, Ptr(a[0].o, a[0].off + 8 * (3 * j + i)), 8, 'd') for j in range(3)] for i in range(3)]
    r = [ex.load(st, Ptr(a[1].o, a[1].off + 8 * i), 8, 'd') for i in range(3)]

    def det(m):
        return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    d = det(A)
    for j in range(3):
        ex.store(st, Ptr(a[2].o, a[2].off + 8 * j), 8, 'd', det([[r[i] if k == j else A[i][k] for k in range(3)] for i in range(3)]) / d)
    return None


QR = [(re.compile(r'_ZN5Eigen19ColPivHouseholderQRINS_6MatrixIdLi3ELi3E.*14computeInPlace'), qr_compute), (re.compile(r'_ZNK5Eigen19ColPivHouseholderQRINS_6MatrixIdLi3ELi3E.*11_solve_impl'), qr_solve)]


def hook(h):
    VX.register_const(R_AIR)
    VX.register_const(SIGMA)
    return {}


def bufs(nd, rs, par=None):
    nfq = rs ** (nd - 1)
    n = max(2 * (nd + 2), nd + rs) * nfq
    return [fvars('g', n), fvars('s', n), fvars('n', nd * nfq), fvars('p', nd * nfq), fvars('sc', (nd + 2) * nfq), fvars('fc', (nd + 2) * nfq), fvars('par', max(5, nd + 2)),
            fvars('si', n), fvars('gi', n), fvars('fn', (nd + 2) * (3 * nd + 4))]


def half(x):
    return x * fnum(F(1, 2), x)


def user(V, nd, k, nfq, src, v):
    """value of the user function at point k, given the inside state of buffer src"""
    c = V.pre[9][v * (3 * nd + 4):(v + 1) * (3 * nd + 4)]
    x = c[0]
    for i in range(nd):
        x = x + c[2 + i] * V.pre[3][i * nfq + k] + c[2 + nd + i] * V.pre[2][i * nfq + k]
    for i in range(nd + 2):
        x = x + c[2 + 2 * nd + i] * V.pre[src][i * nfq + k]
    return x


def waves(u, nn, nd):
    """wave speeds along the unit normal and the part of a perturbation x carried by each, by the left eigenvectors of the Euler flux Jacobian at u"""
    a = norm(nn)
    e = [b / a for b in nn]
    rho = u[nd]
    v = [b / rho for b in u[:nd]]
    vn = dot(v, e)
    c = g_sqrt(fnum(HEAT, rho) * g_max(pressure(u, nd), fnum(0, rho)) / rho)
    q = half(dot(v, v))

    def parts(x):
        dp = fnum(GM1, rho) * (x[nd + 1] - dot(v, x[:nd]) + q * x[nd])
        dm = dot(e, x[:nd]) - vn * x[nd]           # density times change of normal velocity
        out = []
        for s in (-1, 1):
            al = half(dp / (c * c) + s * dm / c)
            out.append([al * (v[i] + s * c * e[i]) for i in range(nd)] + [al, al * (q + c * c / fnum(GM1, rho) + s * vn * c)])
        out.append([x[i] - out[0][i] - out[1][i] for i in range(nd + 2)])
        return out
    return [vn - c, vn + c, vn], parts


def one(kind, th, phase, nd, rs, axis, sign):
    nfq = rs ** (nd - 1)
    nv = nd + 2
    S = nv * nfq                       # offset of the LDG storage
    n = max(2 * nv, nd + rs) * nfq
    name = '%s%s: %s nd=%d rs=%d face %d%s' % (KINDS[kind], ' (%s)' % THERMAL[th] if kind == 6 else '', PHASES[phase], nd, rs, axis, '-+'[sign])
    out = 2 * sign - 1

    def sets(V):
        u = V.pre[1]
        N = V.pre[2]
        par = V.pre[6]
        d = {}
        if phase == 2:
            for k in range(nfq):
                nn = [N[i * nfq + k] for i in range(nd)]
                v = [u[i * nfq + k] for i in range(nd)]
                if kind == 5:
                    c = dot(v, nn) / dot(nn, nn)
                    v = [a - c * b - c * b for a, b in zip(v, nn)]
                elif kind == 6:
                    v = [-a for a in v]
                for i in range(nd):
                    d[(0, i * nfq + k)] = v[i]
                for i in range(rs):
                    x = u[(nd + i) * nfq + k]
                    d[(0, (nd + i) * nfq + k)] = x if kind in (5, 6, 7) else fnum(2, x) - x
            return d
        if phase == 3:
            for i in range(nv * nfq):
                d[(0, i)] = u[i]
            return d
        if phase == 4:
            for i in range(nv * nfq):
                d[(0, S + i)] = -u[S + i]
            return d
        if phase in (0, 5):
            for k in range(nfq):
                st = [u[i * nfq + k] for i in range(nv)]
                nn = [N[i * nfq + k] for i in range(nd)]
                if kind == 0:
                    g = [par[i] for i in range(nv)]
                elif kind == 1:
                    sp, parts = waves(st, nn, nd)
                    fs = [par[i] for i in range(nv)]
                    pi, po = parts(st), parts(fs)
                    g = [total(g_ite(g_lt(fnum(out, st[0]) * sp[w], fnum(0, st[0])), po[w][v], pi[w][v]) for w in range(3)) for v in range(nv)]
                    g[nd] = g_max(g[nd], half(st[nd]))
                    ke = half(dot(g[:nd], g[:nd])) / g[nd]
                    g[nd + 1] = g_max(ke + g_max(g[nd + 1] - ke, half(st[nd + 1] - half(dot(st[:nd], st[:nd])) / st[nd])), fnum(0, st[0]))
                elif kind == 2:
                    ke = half(dot(st[:nd], st[:nd])) / st[nd]
                    p = g_max(fnum(GM1, st[0]) * (st[nd + 1] - ke), fnum(0, st[0]))
                    c = g_sqrt(fnum(HEAT, st[0]) * p / st[nd])
                    vn = fnum(out, st[0]) * dot(st[:nd], nn) / st[nd] / norm(nn)
                    g = st[:nd + 1] + [g_ite(g_lt(vn, c), par[0] / fnum(GM1, st[0]) + ke, st[nd + 1])]
                elif kind == 3:
                    g = [user(V, nd, k, nfq, 1, v) for v in range(nv)]
                elif kind == 4:
                    g = [user(V, nd, k, nfq, 1, v) for v in range(nv)] if phase == 5 else [V.pre[4][v * nfq + k] for v in range(nv)]
                elif kind == 5:
                    c = dot(st[:nd], nn) / dot(nn, nn)
                    g = [a - c * b - c * b for a, b in zip(st[:nd], nn)] + st[nd:]
                elif kind == 6:
                    g = [-a for a in st[:nd]] + [st[nd]]
                    if th == 0:
                        e = par[0] * st[nd]
                        g.append(e * e / st[nd + 1])
                    else:
                        g.append(st[nd + 1])
                elif kind in (7, 8):
                    g = st
                for v in range(nv):
                    d[(0, v * nfq + k)] = g[v]
            if phase == 5:
                for i in range(n):
                    d[(1, i)] = V.pre[7][i] if i < 2 * S else V.pre[1][i]
            return d
        # flux: what the two sides average to is the condition on the flux
        for i in range(n):
            d[(1, i)] = V.pre[7][i]
        for k in range(nfq):
            st = [u[i * nfq + k] for i in range(nv)]
            nn = [N[i * nfq + k] for i in range(nd)]
            fl = [V.pre[7][S + i * nfq + k] for i in range(nv)]
            z = fnum(0, fl[0])
            if kind == 1:
                sp, parts = waves(st, nn, nd)              # incoming viscous characteristics are left alone, outgoing ones cancelled
                pf = parts(fl)
                g = [total(g_ite(g_lt(fnum(out, z) * sp[w], z), pf[w][v], z) for w in range(3)) for v in range(nv)]
            elif kind in (0, 3, 4, 7):
                g = fl                                     # viscous flux left alone
            elif kind in (2, 8):
                g = [-x for x in fl]                       # no viscous flux
            elif kind == 5:
                c = dot(fl[:nd], nn) / dot(nn, nn)         # no viscous mass or energy flux and no shear; normal stress left alone
                g = [c * b + c * b - a for a, b in zip(fl[:nd], nn)] + [-x for x in fl[nd:]]
            elif kind == 6:
                area = norm(nn)
                if th == 0:
                    want = fl[nd + 1] * fnum(out, z) / area
                elif th in (1, 4):
                    want = par[0]
                elif th == 3:
                    want = z
                else:
                    w = st[nd + 1]
                    T = w * fnum(GM1, z) / st[nd] / fnum(R_AIR, z)
                    want = par[0] * fnum(SIGMA, z) * T * T * T * T + par[1] * (T - par[2])
                relax = par[1] if th == 4 else fnum(2, z)
                g = list(fl[:nd]) + [-fl[nd], fl[nd + 1] + relax * (area * want * fnum(out, z) - fl[nd + 1])]
            for v in range(nv):
                d[(0, S + v * nfq + k)] = g[v]
        return d

    def free(b, i):
        return b == 4 or b == 0

    def sample(rng):
        env = {}
        for k in range(nfq):
            for pre in ('s', 'si'):
                for v, x in enumerate(pos_state_sample(rng, nd)):
                    env['%s_%d' % (pre, v * nfq + k)] = x
        for i in range(8):
            env['par_%d' % i] = rng.uniform(.1, 2)
        return env
    pre = []
    for k in range(nfq):
        for v in (nd, nd + 1) if phase in (0, 1, 5) else ():     # positive density and energy
            pre.append(X.rlt(0, X.var('s_%d' % (v * nfq + k))))
        if kind == 1:
            st = [X.var('s_%d' % (v * nfq + k)) for v in range(nd + 2)]
            pre.append(X.rlt(0, pressure(st, nd)))
    return Case(name, 'bc_apply', bufs(nd, rs), [nd, rs, axis, sign, phase, kind, th], sets=sets, free=free, sample=sample, foreach=False, pre=pre, hook=hook, contracts=QR if kind == 1 else (), merge=True)


def cases(nd, rs, axis):
    out = []
    for sign in (0, 1):
        for kind in (0, 1, 2, 3, 4, 5, 6, 7, 8):
            for th in (range(5) if kind == 6 else (0,)):
                for ph in (0, 1, 2, 3, 4):
                    if kind == 4 and ph == 0:
                        ph = 5
                    if th and ph in (2, 3, 4):
                        continue
                    if (kind not in (5, 6, 7) and ph == 2 or ph in (3, 4)) and kind != 0 and kind != 8:
                        continue
                    out.append(one(kind, th, ph, nd, rs, axis, sign))
    return out


SRC = ['bc.cpp', 'src/Boundary_condition.cpp', 'src/Storage_params.cpp']
NATIVE = SRC + ['src/Surface_func.cpp', 'src/Output_data.cpp', 'src/Boundary_func.cpp']


def jobs(tier):
    szs = [(1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (1, 6), (2, 7)] if tier == 'quick' else [(1, r) for r in range(2, 9)] + [(2, r) for r in range(2, 9)] + [(3, r) for r in range(2, 9)]
    return [Job('bc nd=%d rs=%d axis=%d' % (nd, rs, ax), SRC, 'specs.bc.cases', native_sources=NATIVE, args={'nd': nd, 'rs': rs, 'axis': ax}) for nd, rs in szs[::-1] for ax in range(nd)]
ASSUMED = ['Eigen ColPivHouseholderQR of an invertible 3x3 matrix: solve() returns the exact solution']
