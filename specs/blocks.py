"""contracts of material models, limiters, monitors, wall layers and linear solvers"""
import itertools
import math
import random
from fractions import Fraction
from .common import *
from .common import total, dot
from vc.contract import Case
from vc.exec import snap
from vc.run import Job

F = Fraction
fn = g_fn
LOG10 = math.log(10)


def cst(x):
    return snap(F(x))


# ---- transport coefficients
def transports(nd=None):
    def s(f):
        def post(V):
            val, ref, off, rt = V.pre[0]
            return [('coefficient', V.post[1][0], f(val, ref, off, rt)), ('is viscous', V.post[1][1], int(V.ip[0] != 0))]
        return post
    sample = lambda rng: {'a_%d' % i: rng.uniform(.5, 3) for i in range(4)}
    pos = [X.rlt(0, X.var('a_%d' % i)) for i in (1, 2, 3)]
    law = lambda v, r, o, t: v * (t / g_sqrt(r)) ** 3 * (r + o) / (t * t + o)
    out = []
    for k, f in enumerate([lambda v, r, o, t: 0, lambda v, r, o, t: v, law]):
        out.append(Case('transport %s' % ['inviscid', 'constant', 'Sutherland'][k], 'transport', [fvars('a', 4), fvars('o', 2)], [k], post=s(f), sets=lambda V: {}, free=[(1, 0), (1, 1)], pre=pos, sample=sample, foreach=False))
    # at the reference temperature it has the reference value
    out.append(Case('transport Sutherland at the reference temperature', 'transport', [[X.var('a_0'), X.rmul(X.var('a_3'), X.var('a_3')), X.var('a_2'), X.var('a_3')], fvars('o', 2)], [2],
                    post=lambda V: [('reference value', V.post[1][0], V.pre[0][0])], sets=lambda V: {}, free=[(1, 0), (1, 1)], pre=pos, sample=sample, foreach=False))
    return out


# ---- the atmosphere: International Standard Atmosphere (geopotential altitude, temperature at the base of the layer)
ISA = [(0, 288.15), (11000, 216.65), (20000, 216.65), (32000, 228.65), (47000, 270.65), (51000, 270.65), (71000, 214.65), (80000, 196.65)]
GRAV, ATM, EARTH = 9.80665, 101325., 6356766.
GAS = 287.05287


def air(h, offset, gas, layer):
    """density and pressure at altitude h in the layer, by the hydrostatic equation from the layers below"""
    p = cst(ATM)
    for i in range(layer + 1):
        (h0, t0), (h1, t1) = ISA[i], ISA[i + 1]
        top = h if i == layer else F(h1)
        lapse = (cst(t1) - cst(t0)) / F(h1 - h0)
        t = cst(t0) + lapse * (top - h0)
        if lapse == 0:
            p = p * fn('exp', -cst(GRAV) * (top - h0) / gas / cst(t0))
        else:
            p = p * fn('pow', t / cst(t0), -cst(GRAV) / lapse / gas)
    return p / gas / (t + offset), p


def atmospheres(nd=None):
    out = []
    eps = F(1, 10 ** 6)
    for k in range(len(ISA) - 1):
        lo, hi = F(ISA[k][0]), F(ISA[k + 1][0])
        for geom in (0, 1):

            def post(V, k=k, geom=geom):
                a = V.pre[0][0]
                hh = cst(EARTH) * a / (cst(EARTH) + a) if geom else a
                d, p = air(hh, V.pre[0][1], cst(GAS), k)
                return [('density', V.post[1][0], d), ('pressure', V.post[1][1], p)]
            a = X.var('h_0')
            g = X.rdiv(X.rmul(cst(EARTH), a), X.radd(cst(EARTH), a)) if geom else a
            out.append(Case('atmosphere layer %d %s altitude' % (k, ['geopotential', 'geometric'][geom]), 'atmosphere', [fvars('h', 2), fvars('o', 2)], [geom], post=post, sets=lambda V: {}, free=[(1, 0), (1, 1)], foreach=False, fork_real=True,
                            pre=[X.rle(lo + eps, g), X.rle(g, hi - eps), X.rlt(0, a)], sample=lambda rng, lo=lo, hi=hi: {'h_0': rng.uniform(float(lo) + 500, float(hi) - 500), 'h_1': rng.uniform(-20, 20)}))
    for name, c in (('below', X.rlt(X.var('h_0'), -1)), ('above', X.rlt(80001, X.var('h_0')))):
        out.append(Case('atmosphere %s the limit' % name, 'atmosphere', [fvars('h', 2), fvars('o', 2)], [0], post=lambda V: [('accepted', 0)], sets=lambda V: {}, free=[(1, 0), (1, 1)], foreach=False, fork_real=True, pre=[c], throws=lambda V: [('rejected', 1)],
                        sample=lambda rng, n=name: {'h_0': rng.uniform(-100, -2) if n == 'below' else rng.uniform(80002, 90000)}))
    return out


# ---- limiter of the modes
def limits(nd, rs):
    nq = rs ** nd
    bs = [fvars('b%d' % i, n) for i, n in enumerate([rs, rs, rs * rs, 2 * rs, rs * rs, 1, 1, 1, 1, 1, 3])] + [fvars('q', nq), [X.var('rate')]]

    def sets(V):
        w, orth, q = V.pre[1], V.pre[4], V.pre[11]
        pts = list(itertools.product(range(rs), repeat=nd))
        modes = []
        for m in pts:
            s = 0
            for i, x in zip(pts, q):
                t = x
                for a, b in zip(m, i):
                    t = t * orth[a * rs + b] * w[b]
                s = s + t
            modes.append(s)
        norm_ = g_sqrt(dot(modes, modes))
        lim = []
        for m, c in zip(pts, modes):
            th = norm_
            for _ in range(sum(m)):
                th = th * V.pre[12][0]
            lim.append((th, c))
        out = []
        for i in pts:
            s = 0
            for m, (th, c) in zip(pts, lim):
                cl = g_ite(g_lt(th, g_abs(c)), th / g_abs(c), 1) * c
                for a, b in zip(m, i):
                    cl = cl * orth[a * rs + b]
                s = s + cl
            out.append(s)
        return {(11, k): v for k, v in enumerate(out)}
    return Case('limiter nd=%d rs=%d' % (nd, rs), 'limit', bs, [nd, rs], sets=sets, foreach=False, pre=[X.rle(0, X.var('rate'))], merge=True,
                sample=lambda rng: {'rate': rng.uniform(0, 1.2)})


HUGE = F(2) ** 1024 - F(2) ** 971


# ---- bounds over a window of the iterations
def histories(full):
    rng = random.Random(7)
    out = []

    def case(samples, win, its):
        its = sorted(its)
        n = len(its)
        w = F(str(win))

        def post(V):
            v = V.pre[0]
            yield ('unbounded below before anything', V.post[2][0], -HUGE)
            yield ('unbounded above before anything', V.post[2][1], HUGE)
            kept = []
            fac = (1 / (1 - win)) ** (1. / samples)
            th = 1.
            for k, it in enumerate(its):
                if not kept or it >= th:
                    kept.append(k)
                    while th <= it:
                        th *= fac
                    inside = [j for j in kept if its[j] >= it * (1 - w)][-samples:]
                lo, hi = v[inside[0]], v[inside[0]]
                for j in inside[1:]:
                    lo, hi = g_min(lo, v[j]), g_max(hi, v[j])
                yield ('minimum after sample %d' % k, V.post[2][2 + 2 * k], lo)
                yield ('maximum after sample %d' % k, V.post[2][3 + 2 * k], hi)
        out.append(Case('history window=%s samples=%d iterations=%s' % (win, samples, its), 'history', [fvars('x', n), [w], fvars('o', 2 + 2 * n)], [samples, n] + its, post=post, sets=lambda V: {}, free=lambda b, i: b == 2,
                        foreach=False, sample=lambda r: {'x_%d' % i: r.uniform(-2, 2) for i in range(n)}, pre=[X.rlt(v, HUGE) for v in fvars('x', n)] + [X.rlt(-HUGE, v) for v in fvars('x', n)]))
    case(10, .3, [0])
    case(3, .3, range(6))
    case(2, .6, [1, 2, 3, 4, 8, 16])
    case(4, .3, [0, 1, 2, 3, 4, 5, 6])
    case(2, .7, [0, 5, 6, 7, 30, 31, 200])
    for _ in range(20 if full else 4):
        case(rng.choice([1, 2, 3, 5]), rng.choice([.3, .6, .7]), rng.sample(range(40), 6))
    return out


# ---- wall layers
def layer_cases(full):
    out = []
    for nw, ng in itertools.product(range(0, 7 if full else 4), range(1, 9 if full else 6)):
        n = nw + ng

        def post(V, nw=nw, ng=ng, n=n):
            ws, o = V.pre[0][0], V.post[1]
            sp, h = o[1:1 + n], o[1 + n:2 + 2 * n]
            yield ('number of layers', o[0], n)
            for i in range(nw):
                yield ('layer %d at the wall has the spacing asked for' % i, sp[i], ws)
            for i in range(nw, n - 1):
                yield ('layer %d is twice as thick as the one below' % (i + 1), sp[i + 1], 2 * sp[i])
            t = 0
            for i in range(n + 1):
                yield ('height %d is the sum of the layers below' % i, h[i], t)
                if i < n:
                    t = t + sp[i]
            yield ('the layers fill the height of one', h[n], 1)
        out.append(Case('wall layers %d+%d' % (nw, ng), 'layers', [[X.var('ws')], fvars('o', 2 + 2 * n)], [nw, ng, n], post=post, sets=lambda V: {}, free=lambda b, i: b == 1, foreach=False,
                        sample=lambda r: {'ws': r.uniform(.001, .1)}))
    # the number of layers that grow: the fewest that do not more than double the thickness
    for ws, ng in ((F(1, 2), 0), (F(2, 5), 1), (F(1, 4), 1), (F(1, 5), 2), (F(1, 10), 3), (F(1, 100), 6), (F(1, 10 ** 6), 19)):
        if ws in (F(1, 2), F(1, 4)):
            continue  # a power of two: rounding decides

        def post(V, ng=ng):
            return [('number of layers', V.post[1][0], 3 + ng)]
        out.append(Case('wall layers of %s' % ws, 'layers', [[ws], fvars('o', 2)], [3, -1, 0], post=post, sets=lambda V: {}, free=lambda b, i: b == 1, foreach=False))
    return out


# ---- linear equations
def system(n, nv):
    return [fvars('A', n * n), fvars('r', n), fvars('g', n)]


def apply(A, x, n):
    return [dot(A[i * n:i * n + n], x) for i in range(n)]


def linear(full):
    out = []
    smp = lambda n, nv=0: (lambda rng: dict([('A_%d' % i, rng.uniform(-1, 1) + (2 if i % (n + 1) == 0 else 0)) for i in range(n * n)] + [('r_%d' % i, rng.uniform(-1, 1)) for i in range(n)] + [('g_%d' % i, rng.uniform(-1, 1)) for i in range(n)]))
    for n in (1, 2) + ((3,) if full else ()):
        for its in range(0, n + 1):
            def post(V, n=n, its=its):
                A, r, x = V.pre[0], V.pre[1], V.post[3][:n]
                for i, a in enumerate(apply(A, x, n)):
                    yield ('residual %d of the iterate is what the recurrence says' % i, V.post[3][2 * n + i], r[i] - a)
                    if its == n:
                        yield ('row %d is solved after as many iterations as unknowns' % i, a, r[i])
                for i in range(n):
                    yield ('right hand side %d' % i, V.post[3][n + i], r[i])
            out.append(Case('BiCGStab n=%d iterations=%d' % (n, its), 'solve', system(n, 8) + [fvars('o', 8 * n)], [n, 8, its], post=post, sets=lambda V: {}, free=lambda b, i: b == 3, foreach=False, sample=smp(n), tol=1e-5))
        out.append(Case('BiCGStab without storage n=%d' % n, 'solve', system(n, 7) + [fvars('o', 7 * n)], [n, 7, 1], post=lambda V: [('accepted', 0)], sets=lambda V: {}, free=lambda b, i: b == 3, foreach=False, throws=lambda V: [('rejected', 1)]))
    for n, nv in ((2, 4), (3, 3)):
        vs = range(nv)
        ops = [(0, o, i, 0) for o in vs for i in vs] + [(1, o, i, j) for o in vs for i in vs for j in vs] + [(2, o, i, 0) for o in vs for i in vs] + [(3, i, j, 0) for i in vs for j in vs] + [(4, i, 0, 0) for i in vs] + [(5, 0, 0, 0)]
        for k, (op, a, b, c) in enumerate(ops):
            if not full and n == 3 and k % 4:
                continue

            def sets(V, n=n, nv=nv, op=op, a=a, b=b, c=c):
                v = [V.pre[2], V.pre[1]] + [V.pre[4][i * n:i * n + n] for i in range(2, nv)]
                co = V.pre[3]
                res = {}
                new = list(v)
                if op == 0:
                    new[a] = [co[0] * x for x in v[b]]
                if op == 1:
                    new[a] = [co[0] * x + co[1] * y for x, y in zip(v[b], v[c])]
                if op == 2:
                    new[a] = apply(V.pre[0], v[b], n)
                if op == 3:
                    res[5, 0] = dot(v[a], v[b])
                if op == 4:
                    res[5, 0] = g_sqrt(dot(v[a], v[a]))
                if op == 5:
                    res[5, 0] = nv
                for i in range(nv):
                    for j in range(n):
                        res[4, i * n + j] = new[i][j]
                return res
            out.append(Case('linear equation n=%d %s %d %d %d' % (n, ['scale', 'add', 'apply', 'inner', 'norm', 'size'][op], a, b, c), 'operate', system(n, nv) + [fvars('c', 2), fvars('v', nv * n), [X.var('res')]], [n, nv, op, a, b, c], sets=sets, foreach=False))
    return out


# ---- the sensor of discontinuities
def sensors(nd, rs):
    nq = rs ** nd
    out = []
    for df in (0, 1):
        sizes = {0: (nd + 2) * nq, 4: 1, 25: 1}
        bs = [fvars('e%d' % i, sizes[i]) if i in sizes else [] for i in range(26)]
        bs += [fvars('b%d' % i, n) for i, n in enumerate([rs, rs, 1, 1, rs * rs, 1, 1, 1, 1, 1, 3])] + [[X.var('speed')]]

        def sets(V):
            w, orth = V.pre[27], V.pre[30]
            proj = [orth[(rs - 1) * rs + i] * w[i] for i in range(rs)]
            ind = [1 / x for x in V.pre[0][nd * nq:nd * nq + nq]]
            pts = list(itertools.product(range(rs), repeat=nd))
            wq = lambda p: prod_([w[i] for i in p])
            nsq = total(x * x * wq(p) for p, x in zip(pts, ind))
            non = 0
            for d in range(nd):
                for f in itertools.product(range(rs), repeat=nd - 1):
                    row = [ind[pts.index(f[:d] + (i,) + f[d:])] for i in range(rs)]
                    c = dot(row, proj)
                    non = non + c * c * wq(f)
            lg = fn('log', non / (nsq * nd)) / cst(LOG10)
            # a ramp of the width of a decade around -4.25*log10(degree)
            center = cst(-4.25 * math.log(rs - 1) / LOG10)
            ramp = (1 + fn('sin', cst(math.pi) * (lg - center))) / 2
            val = g_ite(g_lt(center - F(1, 2), lg), g_ite(g_lt(lg, center + F(1, 2)), ramp, 1), 0)
            return {(25, 0): (rs - 1) * V.pre[37][0] * V.pre[4][0] * val}
        dens = [X.var('e0_%d' % (nd * nq + i)) for i in range(nq)]
        out.append(Case('sensor nd=%d rs=%d deformed=%d' % (nd, rs, df), 'sensor', bs, [nd, rs, df], sets=sets, pre=[X.rlt(0, d) for d in dens] + [X.rlt(0, X.var('b1_%d' % i)) for i in range(rs)],
                        sample=lambda rng: dict([('e0_%d' % (nd * nq + i), rng.uniform(.5, 2)) for i in range(nq)] + [('b1_%d' % i, rng.uniform(.2, 1)) for i in range(rs)] + [('b4_%d' % i, rng.uniform(-.5, .5) * 10 ** rng.choice([-2.5, -1, 0])) for i in range(rs * rs)])))
    return out


def prod_(l):
    r = 1
    for x in l:
        r = r * x
    return r


def misc(full):
    return transports() + atmospheres() + histories(full) + layer_cases(full)


def limiter(full):
    return [limits(nd, rs) for nd, rs in ((1, 2), (1, 3), (2, 2)) + (((1, 4), (3, 2), (2, 3)) if full else ())]


SRC = ['blocks.cpp', 'src/standard_atmosphere.cpp', 'src/filter_limit.cpp', 'src/History_monitor.cpp', 'src/Layer_sequence.cpp', 'src/iterative.cpp', 'src/Linear_equation.cpp', 'src/math.cpp', 'src/stabilizing_art_visc.cpp', 'src/Basis.cpp']
EXTRA = ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_NO_CPUID', '-fno-access-control', 'cfg:3']
KW = dict(extra=EXTRA, ir_sources=SRC + ['tree_rt.cpp'], native_extra=[x for x in EXTRA if x[0] != '-' or 'access' in x], budget=600)


def sensor_jobs(tier):
    return [Job('sensor nd=%d rs=%d' % (nd, rs), SRC, 'specs.blocks.sensors', {'nd': nd, 'rs': rs}, [], **KW) for nd, rs in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2)) + (((3, 3),) if tier == 'thorough' else ())]


def jobs(tier):
    full = tier == 'thorough'
    return [Job('models', SRC, 'specs.blocks.misc', {'full': full}, [], **KW), Job('limiter', SRC, 'specs.blocks.limiter', {'full': full}, [], **KW), Job('linear equations', SRC, 'specs.blocks.linear', {'full': full}, [], **KW)]
