"""contracts of the coarse/fine face transfer"""
from .common import *
from vc.contract import Case
from vc.run import Job


def nvars(pde, nd, rs):
    return {'flow': nd + 2, 'adv': nd + rs, 'sav': 3}[pde]


def halves(nd, stretch):
    """list over fine faces of which half of each tangential axis they cover (None: the whole axis)"""
    free = [a for a in range(nd - 1) if not stretch[a]]
    out = []
    for c in itertools.product((0, 1), repeat=len(free)):
        h = [None] * (nd - 1)
        for a, x in zip(free, c):
            h[a] = x
        out.append(h)
    return out


def tensor(mats, rs, vals):
    """apply one operator per axis (None = identity) to values in row-major order"""
    n = len(mats)
    vals = list(vals)
    for a, M in enumerate(mats):
        if M is None:
            continue
        st = rs ** (n - 1 - a)
        new = list(vals)
        for base in range(len(vals)):
            if (base // st) % rs:
                continue
            row = [vals[base + i * st] for i in range(rs)]
            for i in range(rs):
                new[base + i * st] = dot(M[i], row)
        vals = new
    return vals


def bufs(pde, nd, rs, stretch, axiom=None):
    nfq = rs ** (nd - 1)
    n = max(nvars(pde, nd, rs) * nfq, 2 * (nd + 2) * nfq)
    nf = len(halves(nd, stretch))
    b = [fvars('c', n)] + [fvars('f%d' % i, n) if i < nf else None for i in range(4)]
    b += [fvars('P%d' % h, rs * rs) for h in (0, 1)] + [fvars('R%d' % h, rs * rs) for h in (0, 1)] + [fvars('w', rs)]
    if axiom == 'restrict':      # sum_i w_i R_ij = w_j / 2: restriction preserves the integral
        w = b[9]
        for h in (0, 1):
            for j in range(rs):
                b[7 + h][0 + rs * j] = (w[j] * F(1, 2) - total(w[i] * b[7 + h][i + rs * j] for i in range(1, rs))) / w[0]
    return b


def mats(V, k, rs):
    return [[[V.pre[k + h][i + rs * j] for j in range(rs)] for i in range(rs)] for h in (0, 1)]


def samp(rs):
    def f(rng):
        return {'w_%d' % i: rng.uniform(.2, 1) for i in range(rs)}
    return f


def one(kind, pde, nd, rs, stretch, scl, off, default=False):
    nv = nvars(pde, nd, rs)
    nfq = rs ** (nd - 1)
    o = off * (nd + 2) * nfq
    hs = halves(nd, stretch)

    def sets(V):
        d = {}
        if kind == 'prolong':
            M = mats(V, 5, rs)
            for i, h in enumerate(hs):
                for v in range(nv):
                    r = tensor([None if x is None else M[x] for x in h], rs, V.pre[0][o + v * nfq:o + (v + 1) * nfq])
                    for q, x in enumerate(r):
                        for a in h:
                            if a is None and scl:
                                x = x * 2
                        d[(1 + i, o + v * nfq + q)] = x
        else:
            M = mats(V, 7, rs)
            for v in range(nv):
                t = [fnum(0, V.pre[0][0])] * nfq
                for i, h in enumerate(hs):
                    r = tensor([None if x is None else M[x] for x in h], rs, V.pre[1 + i][o + v * nfq:o + (v + 1) * nfq])
                    for q, x in enumerate(r):
                        for a in h:
                            if a is None and scl:
                                x = x / 2
                        t[q] = t[q] + x
                for q in range(nfq):
                    d[(0, o + v * nfq + q)] = t[q]
        return d

    def free(b, i):
        return kind == 'restrict' and 1 <= b < 5 and o <= i < o + nv * nfq      # fine faces are scratch space of the restriction
    fn = {'prolong': 'pr', 'restrict': 'rs'}[kind] if not default else {'prolong': 'pd', 'restrict': 'rd'}[kind]
    return Case('%s %s nd=%d rs=%d stretch=%s scale=%d offset=%d%s' % (kind, pde, nd, rs, stretch, scl, off, ' default' if default else ''), '%s_%s' % (fn, pde), bufs(pde, nd, rs, stretch),
                [stretch[0], stretch[1], scl, off], sets=sets, free=free, sample=samp(rs), hook=gl_contracts)


def conserve(pde, nd, rs, stretch):
    """the restricted coarse face carries the average-weighted total of its fine faces (fluxes: default scaling)"""
    nv = nvars(pde, nd, rs)
    nfq = rs ** (nd - 1)
    hs = halves(nd, stretch)

    def integral(V, vals):
        w = V.pre[9]
        t = fnum(0, w[0])
        for k, pt in enumerate(itertools.product(range(rs), repeat=nd - 1)):
            a = vals[k]
            for i in pt:
                a = a * w[i]
            t = t + a
        return t

    def post(V):
        for v in range(nv):
            fine = fnum(0, V.pre[9][0])
            for i in range(len(hs)):
                fine = fine + integral(V, V.pre[1 + i][v * nfq:(v + 1) * nfq])
            # each fine face has area 1/2^(nd-1) of the coarse face in the reference space of the fluxes
            yield ('flux through the coarse face equals the total through the fine faces: variable %d' % v, integral(V, V.post[0][v * nfq:(v + 1) * nfq]), fine / 2 ** (nd - 1))

    def free(b, i):
        return b <= 4 and i < nv * nfq
    return Case('conservative restriction %s nd=%d rs=%d stretch=%s' % (pde, nd, rs, stretch), 'rd_' + pde, bufs(pde, nd, rs, stretch, 'restrict'), [stretch[0], stretch[1], 0, 0], post=post, free=free, sample=samp(rs), hook=gl_contracts)


def cases(nd, rs):
    out = []
    st = [[a, b] for a in ((0, 1) if nd > 1 else (0,)) for b in ((0, 1) if nd > 2 else (0,))]
    for s in st:
        for pde in ('flow', 'adv', 'sav'):
            for kind in ('prolong', 'restrict'):
                for scl in (0, 1):
                    for off in ((0, 1) if pde != 'adv' else (0,)):
                        out.append(one(kind, pde, nd, rs, s, scl, off))
                out.append(one(kind, pde, nd, rs, s, int(kind == 'restrict'), 0, True))
            out.append(conserve(pde, nd, rs, s))
    return out


def jobs(tier):
    szs = [(1, 2), (2, 2), (2, 3), (2, 6), (3, 2), (3, 3)] if tier == 'quick' else [(nd, r) for nd in (1, 2, 3) for r in range(2, 9 if nd < 3 else 6)]
    return [Job('mortar nd=%d rs=%d' % (nd, rs), ['mortar.cpp'], 'specs.mortar.cases', {'nd': nd, 'rs': rs}, ['VC_ND=%d' % nd, 'VC_RS=%d' % rs],
                native_sources=['mortar.cpp', 'src/Basis.cpp', 'src/Stopwatch.cpp', 'src/Stopwatch_tree.cpp', 'gen:Gauss_legendre.cpp']) for nd, rs in szs[::-1]]
