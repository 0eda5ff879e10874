"""contracts of the connections between faces: storage, pointers, shared vertices, watertight geometry"""
from .common import *
from .geometry import CONTRACTS, det, cof
from vc.contract import Case
from vc.run import Job


def consistent_basis(rs):
    """nodes symmetric about the middle, boundary extrapolation and differentiation exact for linear functions, otherwise arbitrary"""
    n = [None] * rs
    for i in range(rs // 2):
        n[i] = X.var('nd_%d' % i)
        n[rs - 1 - i] = 1 - n[i]
    if rs % 2:
        n[rs // 2] = F(1, 2)

    def row(name, s0, s1):
        r = [None, None] + [X.var('%s_%d' % (name, k)) for k in range(2, rs)]
        a = s0 - total(r[2:])
        b = s1 - total([x * y for x, y in zip(r[2:], n[2:])])
        r[1] = (b - n[0] * a) / (n[1] - n[0])
        r[0] = a - r[1]
        return r
    B = [row('B%d' % s, 1, s) for s in (0, 1)]
    D = [row('D%d' % i, 0, 1) for i in range(rs)]
    return n, [D[i][j] for j in range(rs) for i in range(rs)], [B[s][k] for k in range(rs) for s in (0, 1)]


def bufs(nd, rs, nfine, nfacts):
    nv = 2 ** nd
    nfq = rs ** (nd - 1)
    n, D, B = consistent_basis(rs)
    k = max(1, nfine)
    return [n, [], D, B, fvars('sz', 4), fvars('v', 3 * nv), fvars('u', 3 * nv * k), fvars('o', nfacts), fvars('w', 2 * k), fvars('p', 3 * nv), fvars('q', 3 * nv * k), fvars('x', nd * nfq), fvars('y', nd * nfq * k),
            fvars('f', nd * nfq), fvars('g', nd * nfq), fvars('m', nv * nv * k)]


def sampler(nd, rs, k):
    def sample(rng):
        env = {'sz_0': rng.uniform(.5, 2)}
        for i in range(rs // 2):
            env['nd_%d' % i] = .05 + .4 * (i + rng.uniform(.2, .8)) / max(1, rs // 2)
        return env
    return sample


def corner_bits(nd, v):
    return [v >> (nd - 1 - i) & 1 for i in range(nd)]


def face_corner(nd, axis, sign, i):
    """element vertex that is the i-th corner (row-major over the tangential axes) of a face"""
    b = list(corner_bits(nd - 1, i))
    b.insert(axis, sign)
    v = 0
    for x in b:
        v = 2 * v + x
    return v


def setup(V, nd, deformed, p1=None):
    if deformed:
        return [[V.pre[5][3 * v + i] for i in range(3)] for v in range(2 ** nd)]


def pair(nd, rs, deformed, dr):
    nv = 2 ** nd
    nfq = rs ** (nd - 1)
    pm = point_map(nd, 2, dr)
    faces = [2 * dr[0] + dr[2], 2 * dr[1] + dr[3]]
    shared = {face_corner(nd, dr[0], dr[2], i): face_corner(nd, dr[1], dr[3], pm[i]) for i in range(nv // 2)}
    back = {b: a for a, b in shared.items()}

    def edge(i, j):
        return bin(i ^ j).count('1') == 1
    facts = []
    for s in (0, 1):
        facts += [1] * 7 + [0] * (2 * nd - 1)
    facts += [1, 0, 0]
    for i in range(nv):
        facts += [2 if i in shared else 1, 2 if i in back else 1]
    for i in range(nv):
        for j in range(nv):
            facts += [int(edge(i, j)), int(edge(i, j))]        # the shared edges are edges of both elements
    facts += [0, 1, 0, 1]

    def sets(V):
        d = {(7, i): x for i, x in enumerate(facts)}
        for i in range(nv):
            for j in range(nv):
                d[(15, i * nv + j)] = int(shared.get(i) == j)
        if deformed:
            P = [[V.pre[5][3 * v + i] for i in range(3)] for v in range(nv)]
            Q = [[V.pre[6][3 * v + i] for i in range(3)] for v in range(nv)]
        else:
            P, Q = ([[(corner_bits(nd, v)[i] + (1 if s and i == dr[0] else 0)) * V.pre[4][0] + V.pre[4][1 + i] if i < nd else fnum(0, V.pre[4][0]) for i in range(3)] for v in range(nv)] for s in (0, 1))
        for i, j in shared.items():
            a = [half(x + y) for x, y in zip(P[i], Q[j])]
            P[i] = Q[j] = a
        for v in range(nv):
            for i in range(3):
                d[(9, 3 * v + i)] = P[v][i]
                d[(10, 3 * v + i)] = Q[v][i]
        return d

    def post(V):
        fm = point_map(nd, rs, dr)
        for k in range(nfq):
            for i in range(nd):
                yield ('the two elements put point %d of their common face at the same place' % k, V.post[11][k * nd + i], V.post[12][fm[k] * nd + i])
                a, b = V.post[13][i * nfq + k], V.post[14][i * nfq + fm[k]]
                if deformed:
                    yield ('the area vectors of the two elements at point %d are opposite' % k, (2 * dr[2] - 1) * a, (1 - 2 * dr[3]) * b)
    return Case('element connection nd=%d rs=%d %s %s' % (nd, rs, 'deformed' if deformed else 'cartesian', dr), 'con_pair', bufs(nd, rs, 1, len(facts)), [nd, rs, int(deformed)] + list(dr), sets=sets, post=post,
                free=lambda b, i: 11 <= b <= 14, sample=sampler(nd, rs, 1), foreach=False, pre=[X.rlt(0, X.var('sz_0'))], contracts=CONTRACTS)


def half(x):
    return x * fnum(F(1, 2), x)


def refined(nd, rs, deformed, dr, rev, st):
    nv = 2 ** nd
    nfq = rs ** (nd - 1)
    pm = point_map(nd, 2, dr)
    if rev:
        pm = [pm.index(i) for i in range(len(pm))]      # from coarse to fine corners
    ca, cs, fa, fs = (dr[1], dr[3], dr[0], dr[2]) if rev else (dr[0], dr[2], dr[1], dr[3])
    swapped = nd == 3 and {ca, fa} == {0, 2}
    cst = [st[1], st[0]] if swapped else list(st)
    nt = nd - 1

    def drop(bits, s):
        r = 0
        for a in range(nt):
            if not s[a]:
                r = 2 * r + bits[a]
        return r
    nfine = 2 ** sum(1 for a in range(nt) if not st[a])
    # fine element k lies on coarse sub-face sub[k]
    sub = {}
    for i in range(2 ** nt):
        sub[drop(corner_bits(nt, pm[i]), st)] = drop(corner_bits(nt, i), cst)
    cstretch = [int(bool(x)) for x in cst]
    facts = [nfine, 1, 1, 1, 1] + cstretch + [1]
    for i in range(nfine):
        facts += [1] * 5
    facts += [0, 0]
    facts += [0, 1] + [0] * nfine

    def merged():
        """coarse corner i of the face -> (coarse vertex, fine element, its vertex)"""
        for i in range(2 ** nt):
            j = pm[i]
            yield face_corner(nd, ca, cs, i), drop(corner_bits(nt, j), st), face_corner(nd, fa, fs, j)

    def sets(V):
        d = {(7, i): x for i, x in enumerate(facts)}
        C = [[V.pre[5][3 * v + i] for i in range(3)] for v in range(nv)]
        Q = [[[V.pre[6][3 * (nv * k + v) + i] for i in range(3)] for v in range(nv)] for k in range(nfine)]
        for i in range(nv * nv * nfine):
            d[(15, i)] = 0
        for c, k, v in merged():
            d[(15, (c * nfine + k) * nv + v)] = 1
            C[c] = [half(x + y) for x, y in zip(C[c], Q[k][v])]
        # hanging vertices lie on the multilinear interpolant of the corners
        for k in range(nfine):
            for j in range(2 ** nt):
                p = place(k, [fnum(b, C[0][0]) for b in corner_bits(nt, j)])
                Q[k][face_corner(nd, fa, fs, j)] = at(C, p, V)
        for v in range(nv):
            for i in range(3):
                d[(9, 3 * v + i)] = C[v][i]
                for k in range(nfine):
                    d[(10, 3 * (nv * k + v) + i)] = Q[k][v][i]
        for k in range(nfine):
            for q, pt in enumerate(itertools.product(range(rs), repeat=nt)):
                p = place(k, [V.pre[0][x] for x in pt])
                x = at(C, p, V)
                for i in range(nd):
                    if deformed:
                        d[(12, (k * nfq + q) * nd + i)] = x[i]
        return d

    def place(k, eta):
        """coordinates on the fine side of the whole face -> of the point at local coordinates eta of fine element k"""
        r = []
        kk = k
        bits = []
        for a in reversed(range(nt)):
            if st[a]:
                bits.append(None)
            else:
                bits.append(kk % 2)
                kk //= 2
        bits = bits[::-1]
        for a in range(nt):
            r.append(eta[a] if bits[a] is None else half(eta[a] + bits[a]))
        return r

    def at(C, p, V):
        """point of the coarse face at fine-side face coordinates p"""
        one = fnum(1, p[0]) if p else 1
        r = [0, 0, 0]
        for i in range(2 ** nt):
            j = pm[i]
            w = one
            for a, b in enumerate(corner_bits(nt, j)):
                w = w * (p[a] if b else one - p[a])
            for x in range(3):
                r[x] = r[x] + w * C[face_corner(nd, ca, cs, i)][x]
        return r

    def post(V):
        for i in range(nfine):
            k, s = V.post[8][2 * i:2 * i + 2]
            yield ('connection %d belongs to one of the fine elements' % i, k if isinstance(k, float) else k, k if k in range(nfine) else fnum(-9, V.pre[4][0]))
            yield ('and the sub-face it covers', s, sub.get(int(k), -9) if X.isc(k) or isinstance(k, float) else -9)
        ks = [V.post[8][2 * i] for i in range(nfine)]
        yield ('every fine element has one connection', len(set(ks)), nfine)
    return Case('refined connection nd=%d rs=%d %s %s rev=%d stretch=%s' % (nd, rs, 'deformed' if deformed else 'cartesian', dr, rev, st), 'con_refined', bufs(nd, rs, nfine, len(facts)),
                [nd, rs, int(deformed)] + list(dr) + [rev] + list(st), sets=sets, post=post, free=lambda b, i: b in (8, 11, 12, 13, 14), sample=sampler(nd, rs, nfine), foreach=False,
                pre=[X.rlt(0, X.var('sz_0'))], contracts=CONTRACTS)


def bad(nd, rs, deformed, st, n):
    dr = (0, 0, 1, 0)
    return Case('wrong number of fine elements nd=%d %s stretch=%s: %d' % (nd, 'deformed' if deformed else 'cartesian', st, n), 'con_refined_bad', bufs(nd, rs, 1, 1),
                [nd, rs, int(deformed)] + list(dr) + [0] + list(st) + [n], sets=lambda V: {}, throws=lambda V: [], post=lambda V: [('rejected', 0, 1)], foreach=False, native=False, contracts=CONTRACTS)


def boundary(nd, rs, deformed, axis, sign):
    facts = [X.var('sn', 32), axis, sign] + [1] * 9 + [axis, axis, sign, 1 - sign, 1, 0, 0, 0, 0, 1]

    def sets(V):
        sn = V.ip[7]
        return {(7, i): (sn if isinstance(sn, int) else X.v2r(sn, 32, True)) if i == 0 else x for i, x in enumerate(facts)}
    return Case('boundary connection nd=%d rs=%d %s axis=%d side=%d' % (nd, rs, 'deformed' if deformed else 'cartesian', axis, sign), 'con_boundary', bufs(nd, rs, 1, len(facts)),
                [nd, rs, int(deformed), axis, axis, sign, 1 - sign, X.var('sn', 32)], sets=sets, sample=sampler(nd, rs, 1), foreach=False, contracts=CONTRACTS)


def cases(nd, rs, part=None):
    out = []
    for de in (0, 1):
        for dr in legal_directions(nd, de):
            if part is not None and dr[0] != part:
                continue
            out.append(pair(nd, rs, de, dr))
        for a in range(nd) if part is None else [part]:
            for s in (0, 1):
                out.append(boundary(nd, rs, de, a, s))
    return out


def refined_cases(nd, rs, part=None):
    out = []
    sts = [(a, b) for a in ((0, 1) if nd > 1 else (0,)) for b in ((0, 1) if nd > 2 else (0,))]
    for de in (0, 1):
        for dr in legal_directions(nd, de):
            if part is not None and dr[0] != part:
                continue
            for rev in (0, 1):
                for st in sts:
                    out.append(refined(nd, rs, de, dr, rev, st))
        for st in sts if not part else ():
            n = 2 ** sum(1 for a in range(nd - 1) if not st[a])
            out += [bad(nd, rs, de, st, k) for k in (1, 2, 3) if k != n]
    return out


SRC = ['connection.cpp', 'tree_rt.cpp'] + ['src/%s.cpp' % s for s in ('connection', 'Hanging_vertex_matcher', 'Deformed_element', 'Element', 'Vertex', 'Storage_params', 'math', 'Lock', 'Basis')]


def jobs(tier):
    szs = [(1, 2), (2, 2), (2, 3), (3, 2), (3, 3)] if tier == 'quick' else [(1, r) for r in range(2, 9)] + [(2, r) for r in range(2, 9)] + [(3, r) for r in range(2, 6)]
    out = []
    for nd, rs in szs[::-1]:
        for k, fn in (('connections', 'cases'), ('refined connections', 'refined_cases')):
            if tier == 'quick' and (nd, rs) == (3, 3) and fn == 'refined_cases':
                continue
            for p in range(3) if nd == 3 else [None]:
                a = {'nd': nd, 'rs': rs}
                if p is not None:
                    a['part'] = p
                out.append(Job('%s nd=%d rs=%d%s' % (k, nd, rs, '' if p is None else ' axis=%d' % p), SRC, 'specs.connection.' + fn, a, [], extra=['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_NO_CPUID'],
                               native_sources=[s for s in SRC if s != 'tree_rt.cpp'], budget=800))
    return out


ASSUMED = ['Eigen PartialPivLU::compute of an invertible matrix: its factors satisfy P A = L U (the code using the factors is checked)']
