"""the top-level routines run the kernels in the documented order on every part of the mesh: relational contract against the kernels themselves"""
from .common import *
from vc.contract import Case
from vc.run import Job
from vc.ir import Unsupported

NAMES = ['euler', 'advection', 'navier-stokes', 'smoothing', 'admissibility', 'dt euler', 'dt navier-stokes', 'dt advection', 'dt smoothing', 'dt admissibility',
         'prolong', 'restrict', 'prolong advection', 'write face', 'write face advection', 'write face smoothing', 'prolong-restrict', 'face permutation']


def dims(nd, rs):
    nq = rs ** nd
    nfq = nq // rs
    nv = nd + 2
    ns = nd + 9 + rs
    fs = max(2 * nv, nd + rs) * nfq
    es = (ns + nv + rs + 1) * nq + 10 + nd * nd * nq + nq + 6 * nd * nfq
    return nq, nfq, nv, ns, fs, es, 4 * es + (16 + 2 ** (nd - 1)) * fs + 4 * nd * nfq


def bufs(nd, rs):
    n = dims(nd, rs)[-1]
    r2 = rs * rs
    return [fvars('nd', rs), fvars('w', rs), fvars('D', r2), fvars('B', 2 * rs), fvars('O', r2), fvars('Fi', r2), fvars('P0', r2), fvars('P1', r2), fvars('R0', r2), fvars('R1', r2), fvars('bp', 5),
            fvars('x', n), fvars('y', n), fvars('par', 12), fvars('c', 2), fvars('r', 1), fvars('q', 1)]


def one(routine, nd, rs, stage=0, res=0, fil=0, loc=0, a=0, b=0, ip=None):
    nq, nfq, nv, ns, fs, es, n = dims(nd, rs)

    def sets(V):
        return {}

    def free(k, i):
        return k in (11, 12, 15, 16)

    def post(V):
        return [('data %d as by the documented sequence of kernels' % i, V.post[11][i], V.post[12][i]) for i in range(n)] + [('result', V.post[15][0], V.post[16][0])]

    def sample(rng):
        env = {}
        for e in range(4):
            o = e * es
            for k in range(nq):
                for v, x in enumerate(pos_state_sample(rng, nd)):
                    env['x_%d' % (o + v * nq + k)] = x
                for v in range(nv, nd + 9):
                    env['x_%d' % (o + v * nq + k)] = rng.uniform(.1, 1)
            for k in range((ns + nv + rs) * nq, (ns + nv + rs + 1) * nq + 9):
                env['x_%d' % (o + k)] = rng.uniform(.3, 1)
            j = o + (ns + nv + rs + 1) * nq + 10
            for k in range(nd * nd * nq + nq):
                env['x_%d' % (j + k)] = rng.uniform(.2, 1)
            for r in range(nd):
                for c in range(nd):
                    for k in range(nq):
                        env['x_%d' % (j + (r * nd + c) * nq + k)] = rng.uniform(-.2, .2) + (r == c)
        f = 4 * es
        for i in range(16 + 2 ** (nd - 1)):
            for blk in (0, nv * nfq):
                for k in range(nfq):
                    for v, x in enumerate(pos_state_sample(rng, nd)):
                        env['x_%d' % (f + i * fs + blk + v * nfq + k)] = x
        for i in range(12):
            env['par_%d' % i] = rng.uniform(.5, 1)
        for i in range(5):
            env['bp_%d' % i] = -rng.uniform(.5, 1)
        env['bp_1'] = .5
        for k in range(2 * rs):
            env['B_%d' % k] = rng.uniform(.2, .6)
        return env
    ips = ip or [routine, stage, res, fil, loc, a, b]
    return Case('%s nd=%d rs=%d %s' % (NAMES[routine], nd, rs, ips[1:]), 'schedule', bufs(nd, rs), ips, sets=sets, free=free, post=post, sample=sample, foreach=False, merge=True,
                hook=gl_contracts, fork_real=False)


def cases(nd, rs, which):
    out = []
    for r in which:
        if r <= 4:
            for st in (0, 1):
                for res, fil in ((0, 0), (1, 0), (0, 1)) if not st else ((0, 0), (0, 1)) if r < 2 else ():
                    out.append(one(r, nd, rs, st, res, fil))
        elif r <= 9:
            for loc in (0, 1):
                for fil in (0, 1):
                    out.append(one(r, nd, rs, 0, 0, fil, loc))
        elif r in (10, 11):
            for a in (0, 1):
                for b in (0, 1):
                    out.append(one(r, nd, rs, a=a, b=b))
        elif r <= 16:
            out.append(one(r, nd, rs))
        else:
            for d in legal_directions(nd, True):
                for s in (0, 1):
                    out.append(one(r, nd, rs, ip=[r] + list(d) + [s, 0]))
    return out


def dispatch_cases(mx):
    nd, rs = X.var('n_dim', 32), X.var('row_size', 32)

    def inside():
        return X.band(X.band(X.vcmp('sle', 32, 1, nd), X.vcmp('sle', 32, nd, 3)), X.band(X.vcmp('sle', 32, 2, rs), X.vcmp('sle', 32, rs, mx)))

    def post(V):
        st = V.extra.get('st')
        if st is None:      # native: the request is known
            a, b = V.ip[0], V.ip[1]
            a, b = (a if a < 1 << 31 else a - (1 << 32)), (b if b < 1 << 31 else b - (1 << 32))
            ok = 1 <= a <= 3 and 2 <= b <= mx
            return [('an instance is only returned for supported sizes', ok), ('dimension of the instance', V.post[1][0], float(a)), ('row size of the instance', V.post[1][1], float(b)),
                    ('first argument', V.post[1][2], V.pre[0][0]), ('second argument', V.post[1][3], V.pre[0][1])]
        out = [('an instance is only returned for supported sizes', inside())]
        a, b = V.post[1][0], V.post[1][1]
        if not X.isc(a) or not X.isc(b):
            raise Unsupported('instance not determined by the path')
        out += [('dimension of the instance', X.vcmp('eq', 32, nd, int(a))), ('row size of the instance', X.vcmp('eq', 32, rs, int(b)))]
        return out + [('first argument', V.post[1][2], V.pre[0][0]), ('second argument', V.post[1][3], V.pre[0][1])]

    def throws(V):
        if V.extra.get('st') is None:
            a, b = V.ip[0], V.ip[1]
            return [('only unsupported sizes are refused', not (1 <= a <= 3 and 2 <= b <= mx))]
        return [('only unsupported sizes are refused', X.bnot(inside()))]

    def sample(rng):
        return {'n_dim': rng.randrange(0, 5), 'row_size': rng.randrange(0, mx + 3)}
    return [Case('kernel lookup', 'dispatch', [fvars('a', 2), fvars('o', 4)], [nd, rs], free=lambda k, i: k == 1, post=post, throws=throws, sample=sample, foreach=False, max_paths=400)]


SRC = ['schedule.cpp', 'src/kernels_convective.cpp', 'src/kernels_diffusive.cpp', 'src/kernels_max_dt.cpp', 'src/Basis.cpp', 'src/Stopwatch.cpp', 'src/Stopwatch_tree.cpp', 'tree_rt.cpp']


def jobs(tier):
    szs = [(1, 2), (2, 2), (3, 2), (2, 3)] if tier == 'quick' else [(1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3)]
    out = []
    for nd, rs in szs[::-1]:
        for w in ([0], [1], [2], [3], [4], [5, 6, 7, 8, 9], list(range(10, 18))):
            out.append(Job('schedule nd=%d rs=%d %s' % (nd, rs, NAMES[w[0]]), SRC, 'specs.schedule.cases', args={'nd': nd, 'rs': rs, 'which': w}, defines=['VC_ND=%d' % nd, 'VC_RS=%d' % rs],
                           extra=['cfg:3', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], native_sources=SRC[:-1] + ['gen:Gauss_legendre.cpp']))
    out.append(Job('kernel lookup', ['dispatch.cpp'], 'specs.schedule.dispatch_cases', args={'mx': 8}, native_sources=['dispatch.cpp', 'src/Stopwatch.cpp', 'src/Stopwatch_tree.cpp']))
    return out
