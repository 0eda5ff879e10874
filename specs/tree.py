"""contracts of the octree: refinement tiles a cell, queries find the leaf that contains a point, neighbours are exactly the leaves that border on a cell,
flood fill marks exactly a connected region"""
from .common import *
from vc.contract import Case
from vc.run import Job
from functools import reduce


# ---- 32-bit integers, concrete or symbolic
def iadd(a, b):
    return a + b if isinstance(a, int) and isinstance(b, int) else X.vbin('add', 32, u(a), u(b))


def imul(a, k):
    return a * k if isinstance(a, int) else X.vbin('mul', 32, a, u(k))


def u(a):
    return a & 0xffffffff if isinstance(a, int) else a


def ile(a, b):
    return int(a <= b) if isinstance(a, int) and isinstance(b, int) else X.vcmp('sle', 32, u(a), u(b))


def ilt(a, b):
    return int(a < b) if isinstance(a, int) and isinstance(b, int) else X.vcmp('slt', 32, u(a), u(b))


def ieq(a, b):
    return int(a == b) if isinstance(a, int) and isinstance(b, int) else X.vcmp('eq', 32, u(a), u(b))


def sgn(a):
    """an integer read back from a view"""
    return a - (1 << 32) if isinstance(a, int) and a >> 31 == 1 else a


def AND(*c):
    return reduce(X.band, c, 1)


def OR(*c):
    return reduce(X.bor, c, 0)


def real(a, like=None):
    return a if isinstance(a, int) else X.v2r(a, 32, True)


class Shape:
    """the nodes of a two- or three-level tree in preorder; boxes in units of a quarter of the top cell, relative to its lower corner"""

    def __init__(self, nd, mask):
        self.nd = nd
        self.par = []; self.lev = []; self.lo = []; self.kids = []

        def add(par, lev, lo, deep):
            i = len(self.par)
            self.par.append(par); self.lev.append(lev); self.lo.append(lo); self.kids.append([])
            if par >= 0:
                self.kids[par].append(i)
            if deep:
                for k in range(2 ** nd):
                    b = [k >> (nd - 1 - a) & 1 for a in range(nd)]
                    h = 2 >> lev
                    add(i, lev + 1, [l + h * x for l, x in zip(lo, b)], lev == 0 and mask >> k & 1)
        add(-1, 0, [0] * nd, mask >= 0)
        self.n = len(self.par)
        self.leaf = [not k for k in self.kids]

    def size(self, i):
        return 4 >> self.lev[i]

    def near(self, i, d):
        """leaves that meet the strip adjacent to node i in direction d"""
        out = []
        box = []
        for a in range(self.nd):
            l, h = self.lo[i][a], self.lo[i][a] + self.size(i)
            box.append((h, h + 1) if d[a] > 0 else (l - 1, l) if d[a] < 0 else (l, h))
        for j in range(self.n):
            if self.leaf[j] and all(self.lo[j][a] < box[a][1] and self.lo[j][a] + self.size(j) > box[a][0] for a in range(self.nd)):
                out.append(j)
        return out

    def at(self, i, d):
        """the leaf at the lowest corner of that strip"""
        p = [self.lo[i][a] + (self.size(i) if d[a] > 0 else -1 if d[a] < 0 else 0) for a in range(self.nd)]
        for j in range(self.n):
            if self.leaf[j] and all(self.lo[j][a] <= p[a] < self.lo[j][a] + self.size(j) for a in range(self.nd)):
                return j
        return -1


def cvars(nd):
    return [X.var('c%d' % a, 32) for a in range(nd)] + [0] * (3 - nd)


def cpre(nd, lim=1 << 12):
    return [AND(X.vcmp('sle', 32, 0, X.var('c%d' % a, 32)), X.vcmp('slt', 32, X.var('c%d' % a, 32), lim)) for a in range(nd)]


def csample(nd, extra=None):
    def f(rng):
        e = {'c%d' % a: rng.randrange(0, 40) for a in range(nd)}
        e['b_0'] = rng.uniform(.3, 3.)
        if extra:
            e.update(extra(rng, e))
        return e
    return f


def bufs(nout):
    return [fvars('b', 4), fvars('p', 3), fvars('o', nout), []]


def coords(V):
    return [sgn(x) for x in V.ip[2:5]]


def refine(nd, mask, L):
    s = Shape(nd, mask)
    per = 7 + nd + 1 + 3 * nd + nd
    nout = 2 + s.n * per + 2

    def sets(V):
        C = coords(V)
        size, o = V.pre[0][0], V.pre[0][1:]
        out = [s.n, s.n]
        for i in range(s.n):
            k = 2 ** s.lev[i]
            cc = [iadd(imul(C[a], k), s.lo[i][a] // s.size(i)) for a in range(nd)]
            sz = size * fnum(F(1, 2 ** (L + s.lev[i])), size)
            if isinstance(size, float):
                x = [float(c) * sz + b for c, b in zip(cc, o)]
            else:
                x = [real(c) * sz + b for c, b in zip(cc, o)]
            out += [s.par[i], 0, int(i == 0), int(s.leaf[i]), len(s.kids[i]), L + s.lev[i], -1] + [real(c) for c in cc] + [sz] + x + [y + sz * fnum(F(1, 2), sz) for y in x] + list(o[:nd]) + [1] * nd
        out += [1, 1]
        return {(2, i): v for i, v in enumerate(out)}
    return Case('refinement nd=%d shape=%d level=%d' % (nd, mask, L), 'tree_refine', bufs(nout), [nd, L] + cvars(nd) + [mask], sets=sets, pre=cpre(nd), sample=csample(nd), foreach=False)


def find(nd, mask, L, rl, bias):
    """bias: list of 0/1/None(symbolic); default argument when bias is None"""
    s = Shape(nd, mask)
    ips = [nd, L] + cvars(nd) + [mask, rl] + [X.var('q%d' % a, 32) for a in range(3)]
    if bias is None:
        ips += [0, 0, 0, 1]
    else:
        ips += [X.var('s%d' % a, 32) for a in range(3)] + [0]
    pre = cpre(nd, 1 << 10)
    for a in range(3):
        q = X.var('q%d' % a, 32)
        pre.append(AND(X.vcmp('sle', 32, u(-(1 << 13)), q), X.vcmp('sle', 32, q, 1 << 13)))
        if bias is not None:
            pre.append(X.vcmp('ule', 32, X.var('s%d' % a, 32), 1))

    def extra(rng, e):
        r = {}
        f = 2. ** (rl - L)
        for a in range(3):
            r['q%d' % a] = (int(math_floor(e.get('c%d' % a, 0) * f)) + rng.randrange(-1, max(1, int(f)) + 2)) & 0xffffffff
            r['s%d' % a] = rng.randrange(2)
        return r

    def inside(V, j):
        C = coords(V)
        M = max(L + 2, rl)
        c = []
        for a in range(nd):
            q, b = sgn(V.ip[7 + a]), V.ip[10 + a]
            p = imul(q, 2 ** (M - rl))
            w = 2 ** (M - L - 2)
            lo = iadd(imul(C[a], 4 * w), s.lo[j][a] * w)
            hi = iadd(lo, s.size(j) * w)
            up = AND(ile(lo, p), ilt(p, hi))       # may lie on the lower face, not on the upper
            dn = AND(ilt(lo, p), ile(p, hi))
            is0 = ieq(b, 0)
            c.append(OR(AND(is0, up), AND(X.bnot(is0), dn)))
        return AND(*c)

    def post(V):
        r = V.post[2][0]
        if X.isc(r) or isinstance(r, float):
            r = int(r)
            if r == -1:
                yield ('no leaf is reported only for a point outside', X.bnot(inside(V, 0)))
            else:
                yield ('the result is a leaf', int(0 <= r < s.n and s.leaf[r]))
                if 0 <= r < s.n:
                    yield ('the leaf contains the point', inside(V, r))
        else:
            yield ('the result is a leaf (%s)' % (X.show(r)[:60] if not isinstance(r, (int, float)) else r), 0)
    return Case('leaf at integer coordinates nd=%d shape=%d level=%d query level=%d%s' % (nd, mask, L, rl, '' if bias is not None else ' default bias'), 'tree_find', bufs(1), ips, post=post, free=[(2, 0)], pre=pre,
                sample=csample(nd, extra), foreach=False)


def math_floor(x):
    import math
    return math.floor(x)


def find_pos(nd, mask, L, C):
    s = Shape(nd, mask)

    def inside(V, j):
        size, o = V.pre[0][0], V.pre[0][1:]
        c = []
        for a in range(nd):
            w = size * fnum(F(1, 2 ** (L + 2)), size)
            lo = w * fnum(4 * C[a] + s.lo[j][a], w) + o[a]
            hi = w * fnum(4 * C[a] + s.lo[j][a] + s.size(j), w) + o[a]
            p = V.pre[1][a]
            if isinstance(p, float):
                e = 1e-9
                c.append(int(lo - e <= p <= hi + e))
            else:
                c += [X.rle(lo, p), X.rle(p, hi)]
        return AND(*c)

    def strictly_inside(V):
        if isinstance(V.pre[1][0], float):
            size, o = V.pre[0][0], V.pre[0][1:]
            w = size / 2 ** L
            return int(all(w * C[a] + o[a] + 1e-9 <= V.pre[1][a] <= w * (C[a] + 1) + o[a] - 1e-9 for a in range(nd)))
        return inside(V, 0)

    def post(V):
        r = V.post[2][0]
        if X.isc(r) or isinstance(r, float):
            r = int(r)
            if r == -1:
                yield ('no leaf is reported only for a position outside', X.bnot(strictly_inside(V)))
            else:
                yield ('the result is a leaf', int(0 <= r < s.n and s.leaf[r]))
                if 0 <= r < s.n:
                    yield ('the leaf contains the position', inside(V, r))
        else:
            yield ('the result is a leaf (%s)' % (X.show(r)[:60] if not isinstance(r, (int, float)) else r), 0)

    def sample(rng):
        e = {'b_0': rng.uniform(.3, 3.)}
        for a in range(3):
            e['b_%d' % (1 + a)] = rng.uniform(-2, 2)
            x = rng.uniform(-.2, 1.2) if rng.random() < .4 else rng.uniform(0, 1)
            e['p_%d' % a] = e['b_%d' % (1 + a)] + e['b_0'] / 2 ** L * ((C[a] if a < nd else 0) + x)
        return e
    return Case('leaf at a position nd=%d shape=%d level=%d coordinates=%s' % (nd, mask, L, C), 'tree_find_pos', bufs(1), [nd, L] + list(C) + [0] * (3 - nd) + [mask], post=post, free=[(2, 0)],
                pre=[X.rlt(0, X.var('b_0'))], sample=sample, foreach=False)


def neighbors(nd, mask, d, L=3):
    s = Shape(nd, mask)
    w = 2 ** (nd - 1)
    out = []
    for i in range(s.n):
        ns = s.near(i, d)
        at = s.at(i, d)
        if not any(d):
            ns = ns[:w] + [-9] * 0
        out += [at, len(s.near(i, d))] + (ns + [-9] * w)[:w]
    dd = list(d) + [0] * (3 - nd)
    return Case('neighbours nd=%d shape=%d direction=%s' % (nd, mask, d), 'tree_neighbors', bufs(len(out)), [nd, L] + cvars(nd) + [mask] + [x & 0xffffffff for x in dd], sets=lambda V: {(2, i): x for i, x in enumerate(out)},
                pre=cpre(nd), sample=csample(nd), foreach=False)


def flood(nd, mask, start, walls=()):
    s = Shape(nd, mask)
    st = [7 if i in walls else X.var('t%d' % i, 32) for i in range(s.n)]
    leaf0 = start
    while not s.leaf[leaf0]:
        leaf0 = s.kids[leaf0][0]
    adj = {}
    for i in range(s.n):
        if s.leaf[i]:
            adj[i] = set()
            for a in range(nd):
                for g in (-1, 1):
                    adj[i] |= set(s.near(i, [g if b == a else 0 for b in range(nd)]))

    def sets(V):
        S = [sgn(x) for x in V.ip[8:8 + s.n]]
        un = [ieq(S[i], -1) for i in range(s.n)]
        R = {i: (un[i] if i == leaf0 else 0) for i in adj}
        for _ in range(len(adj)):
            N = {i: OR(R[i], AND(un[i], OR(*[R[j] for j in sorted(adj[i])]))) for i in adj}
            if all(N[i] is R[i] for i in adj):
                break
            R = N
        return {(2, i): (S, R[i] if i in R else 0, i) for i in range(s.n)}

    def post(V):
        new = sgn(V.ip[7])
        for (b, i), (S, r, _) in sets(V).items():
            v = V.post[2][i]
            if isinstance(v, float):
                yield ('final status of node %d' % i, v, float(new if r else S[i]))
            else:
                nv = v if isinstance(v, int) else X.r2v(v, 32)
                yield ('node %d has the new status if it is connected to the start and keeps its own otherwise' % i, OR(AND(r, ieq(nv, new)), AND(X.bnot(r), ieq(nv, S[i]))))

    def sample(rng):
        e = {'t%d' % i: rng.choice([0xffffffff, 0xffffffff, 0, 5]) for i in range(s.n)}
        e['nw'] = rng.randrange(0, 3)
        return e
    return Case('flood fill nd=%d shape=%d start=%d%s' % (nd, mask, start, ' walls=%s' % (walls,) if walls else ''), 'tree_flood', bufs(s.n), [nd, 0, 0, 0, 0, mask, start, X.var('nw', 32)] + st, post=post, free=[(2, i) for i in range(s.n)],
                pre=[X.bnot(X.vcmp('eq', 32, X.var('nw', 32), 0xffffffff))], sample=sample, foreach=False)


def clear(nd, mask, start):
    s = Shape(nd, mask)

    def below(i):
        while i > 0 and i != start:
            i = s.par[i]
        return i == start
    return Case('clear status nd=%d shape=%d node=%d' % (nd, mask, start), 'tree_flood', bufs(s.n), [nd, 0, 0, 0, 0, mask, (-1 - start) & 0xffffffff, 0] + [X.var('t%d' % i, 32) for i in range(s.n)],
                sets=lambda V: {(2, i): (-1 if below(i) else real(sgn(V.ip[8 + i]))) for i in range(s.n)}, sample=lambda rng: {'t%d' % i: rng.randrange(0, 9) for i in range(s.n)}, foreach=False)


def rejected(nd):
    out = []
    for what in range(7):
        for n in range(nd) if what < 6 else [0]:
            out.append(Case('malformed request nd=%d kind=%d size=%d is rejected' % (nd, what, n), 'tree_short', bufs(1), [nd, 0, 0, 0, 0, 0, what, n], throws=lambda V: [('rejected', 1)], post=lambda V: [('an error is reported', 0)], foreach=False))
    out.append(Case('refining a refined cell is rejected nd=%d' % nd, 'tree_refine_twice', bufs(1), [nd, 0, 0, 0, 0, 0], throws=lambda V: [('rejected', 1)], post=lambda V: [('an error is reported', 0)], foreach=False))
    return out


def directions(nd):
    return list(itertools.product((-1, 0, 1), repeat=nd))


def masks(nd, tier='quick'):
    return {1: range(4), 2: range(16), 3: [0, 1, 0b10010000, 0b01111110, 255] if tier == 'quick' else [0, 1, 2, 4, 8, 16, 32, 64, 128, 0b10010000, 0b01111110, 0b11000011, 255]}[nd]


def cases(nd, what, tier='quick'):
    out = []
    if what == 'cells':
        for m in [-1] + list(masks(nd, tier)):
            for L in (0, 3):
                out.append(refine(nd, m, L))
        for m in (0, 1, 2 ** (2 ** nd) - 1):
            for L, C in ((0, [0] * nd), (2, [1, 3, 2][:nd])):
                out.append(find_pos(nd, m, L, C))
        for k in ([0, 2] if nd > 1 else [0]):
            out.append(clear(nd, 1, k))
        out += rejected(nd)
    elif what == 'leaves':
        for m in (-1, 0, 2) if nd < 3 else (-1, 0):
            for L in (0, 3):
                for rl in range(0, L + 4):
                    out.append(find(nd, m, L, rl, True))
                out.append(find(nd, m, L, L + 1, None))
    elif what == 'neighbours':
        for m in [-1] + list(masks(nd, tier)):
            for d in directions(nd):
                out.append(neighbors(nd, m, list(d)))
    elif what == 'flood':
        if nd == 1:
            for m in range(4):
                for k in range(Shape(nd, m).n):
                    out.append(flood(nd, m, k))
        elif nd == 2:
            for m, ks in ((0, range(5)), (1, range(9)), (8, (1, 4, 5, 8)), (2, (0, 1))):
                for k in ks:
                    out.append(flood(nd, m, k))
            for m in (6, 9, 15):
                s = Shape(2, m)
                out.append(flood(nd, m, 1, tuple(i for i in range(s.n) if s.leaf[i] and i % 3 == 0 and i != 2)))
        else:
            out.append(flood(nd, 0, 0))
            out.append(flood(nd, 0, 3))
            out.append(flood(nd, 1, 0, (2, 3, 4, 5, 7, 8, 9, 10)))
    return out


SRC = ['tree.cpp', 'tree_rt.cpp'] + ['src/%s.cpp' % s for s in ('Tree', 'Deformed_element', 'Element', 'Vertex', 'Storage_params', 'math', 'Lock')]


def jobs(tier):
    out = []
    for nd in (3, 2, 1):
        for w in ('neighbours', 'leaves', 'flood', 'cells'):
            out.append(Job('tree %s nd=%d' % (w, nd), SRC, 'specs.tree.cases', {'nd': nd, 'what': w, 'tier': tier}, [], extra=['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_NO_CPUID', '-fno-access-control'],
                           native_sources=[s for s in SRC if s != 'tree_rt.cpp'], native_extra=['-fno-access-control'], budget=800))
    return out


BOUNDS = 'queries are proved for all integer coordinates and positions on trees of up to three levels (all shapes in 1D and 2D, a selection in 3D); deeper trees by repetition of the same step (the recursion only sees a node and its children)'
