"""contracts of saving and loading: what is loaded is what was saved"""
from fractions import Fraction as F
from .common import *
from . import geometry, solver
from .solver import n_elem
from vc.contract import Case
from vc.run import Job


def sizes(nd, rs, ne, ndef):
    nv = 2 ** nd
    return 9 + ne * (3 + 2 * nd + 3 * nv + ne * nv * nv) + 1 + ndef * 2 * nd * rs ** (nd - 1) + ne * 2 * nd * 10 + 2


def count(nd, kind, st, ip):
    """numbers of elements and of deformed elements"""
    if kind == 20:
        n = 2 ** (nd - 1)
        return 1 + n, ip[13] + bin(ip[14] & (2 ** n - 1)).count('1')
    ne = n_elem(nd, kind, st)
    return ne, {0: 0, 2: 1, 4: 0}.get(kind, ne)


def mesh(nd, rs, kind, dr=None, st=(0, 0), what=None):
    ip = [nd, rs, kind, 0, 0, 0, 0, 0, 0] + list(st) + list(what or dr or [0, 0, 1, 0])
    ne, ndef = count(nd, kind, st, ip)
    n = sizes(nd, rs, ne, ndef)
    bs = solver.bufs(nd, rs, 9 if kind == 20 else kind, 200, 40, st)
    # coordinates beyond the dimension of the mesh are 0
    bs[2] = [v if i % 3 < nd else fnum(0, v) for i, v in enumerate(fvars('vp', ne * 2 ** nd * 3))]
    # which vertices are shared is not known beforehand: the mesh before saving is dumped by the driver
    bs += [fvars('adj', max(1, ndef * 2 * nd * rs ** (nd - 1)))] + [fvars('o%d' % i, n) for i in (9, 10, 11)] + [fvars('len', 3)]

    def post(V):
        for i in range(3):
            yield ('amount of data', V.post[12][i], n)
        for i in range(n):
            yield ('saving leaves the mesh alone %d' % i, V.post[10][i], V.post[9][i])
            yield ('loaded mesh %d' % i, V.post[11][i], V.post[9][i])
    name = {20: 'hanging, coarse deformed and fine deformed %s' % (what and what[2:],)}.get(kind, '')
    return Case('mesh nd=%d rs=%d kind=%d %s%s' % (nd, rs, kind, name, '' if dr is None and what is None else ' direction=%s stretched=%s' % (dr or what[:2], st)), 'io_mesh', bs, ip, sets=lambda V: {}, post=post,
                free=lambda b, i: b in (5, 9, 10, 11, 12), sample=lambda rng: {}, foreach=False, contracts=solver.CONTRACTS + geometry.CONTRACTS, pre=[X.rlt(0, X.var('par_0'))])


def state(nd, rs, kind):
    bs = solver.bufs(nd, rs, kind, 200)
    n = len(bs[1])
    ne = n_elem(nd, kind)
    nq = rs ** nd
    per = (nd + 9 + rs) * nq
    bs[7] = fvars('o7', n)
    bs += [fvars('z', n)]
    nn = nd + 9 + rs

    def post(V):
        for i in range(n):
            yield ('saving leaves the state alone', V.post[7][i], V.pre[1][i])
            v = i % per // nq
            yield ('loaded state' if v < nn else 'rest left alone', V.post[6][i], V.pre[1][i] if v < nn else V.pre[8][i])
    return Case('state nd=%d rs=%d kind=%d' % (nd, rs, kind), 'io_state', bs, [nd, rs, kind, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0], sets=lambda V: {}, post=post, free=lambda b, i: b in (5, 6, 7), sample=lambda rng: {}, foreach=False,
                contracts=solver.CONTRACTS + geometry.CONTRACTS, pre=[X.rlt(0, X.var('par_0'))])


def cases(nd, rs, part=0, parts=1, full=True):
    out = [mesh(nd, rs, k) for k in (0, 1, 2) + ((3, 4, 9) if nd > 1 else ())]
    out += [state(nd, rs, k) for k in (0, 2) + ((3, 4) if nd > 1 else ())]
    if nd > 1:
        ds = legal_directions(nd, True)
        for i, d in enumerate(ds):
            out.append(mesh(nd, rs, 5, d))
            sts = [(0, 0), (1, 0)] if nd == 2 else [(0, 0), (1, 0), (0, 1), (1, 1)]
            out += [mesh(nd, rs, 8, d, s) for s in (sts if full or nd == 2 else [sts[0], sts[1 + i % 3]])]
    nf = 2 ** (nd - 1)
    for d in range(nd):
        for side in (0, 1):
            for cd, fd in ((0, 0), (0, 2 ** nf - 1), (1, 0)) + (((1, 1), (0, 1)) if nd > 1 else ()) :  # in 1D a deformed pair may be saved with the roles exchanged
                out.append(mesh(nd, rs, 20, what=(d, side, cd, fd)))
    return out[part::parts]


def tree(nd, rs, ups, n):
    """a mesh made from a tree and adapted"""
    bs = [[X.var('rsz')] + fvars('orig', nd)] + [fvars('o', n)]*3 + [fvars('len', 3)]

    def post(V):
        for i in (1, 2):
            yield ('amount of data', V.post[4][i], V.post[4][0])
        for i in range(n):
            yield ('saving leaves the mesh alone %d' % i, V.post[2][i], V.post[1][i])
            yield ('loaded mesh %d' % i, V.post[3][i], V.post[1][i])
    return Case('tree nd=%d rs=%d updates=%s' % (nd, rs, ups), 'io_tree', bs, [nd, rs, len(ups)] + [x for u in ups for x in u], sets=lambda V: {}, post=post, free=lambda b, i: b > 0, sample=lambda rng: {}, foreach=False,
                contracts=geometry.CONTRACTS, pre=[X.rlt(0, X.var('rsz'))])


def surface_mesh(nd, rs, ups, before, planes, n):
    """a mesh with a surface; what the last of the updates makes of it and of the mesh that was loaded"""
    pos = {d: F(c) for d, c in planes.items()}
    bs = [[F(1)] + [F(0)] * nd + [pos.get(d, F(0)) for d in range(nd)] + [F(9, 10) if pos.get(d, 0) < F(1, 2) else F(1, 10) for d in range(nd)]]
    bs += [fvars('o', n)] * 3 + [fvars('len', 7)] + [fvars('p', n)] * 2

    def post(V):
        for i, j in ((1, 0), (2, 0), (6, 5), (4, 3)):
            yield ('amount of data and results %d' % i, V.post[4][i], V.post[4][j])
        for i in range(n):
            yield ('saving leaves the mesh alone %d' % i, V.post[2][i], V.post[1][i])
            yield ('loaded mesh %d' % i, V.post[3][i], V.post[1][i])
            yield ('loaded mesh is adapted likewise %d' % i, V.post[6][i], V.post[5][i])
    ip = [nd, rs, len(ups), sum(1 << d for d in planes), before] + [x for u in ups for x in u]
    return Case('surface mesh nd=%d rs=%d planes=%s updates=%s then %s' % (nd, rs, planes, ups[:before], ups[before:]), 'io_surface', bs, ip, sets=lambda V: {}, post=post, free=lambda b, i: b > 0, sample=lambda rng: {}, foreach=False,
                contracts=geometry.CONTRACTS, fork_real=True)


def trees(nd, rs, part=0, parts=1, full=True):
    one, M = (1, 0), (1 << 30) - 1
    nv = 2 ** nd
    out = [tree(nd, rs, [], 1000), tree(nd, rs, [one], {1: 1000, 2: 3000, 3: 40000}[nd])]
    big = {1: 4000, 2: 20000, 3: 100000}[nd]
    out += [tree(nd, rs, [one, (1 << k, 0)], big) for k in (range(nv) if full or nd < 3 else (0, 5))]
    if nd < 3:
        out += [tree(nd, rs, [one, (1, 0), (0, M)], big), tree(nd, rs, [one, (nv // 2, 0), (1, M - 1)], big), tree(nd, rs, [one, (nv - 1, 0), (1, 0)], 3 * big)]
    if nd > 1:
        n = {2: 40000, 3: 200000}[nd]
        for planes in [{0: '3/10'}, {1: '6/10'}] if nd == 2 else [{0: '2/10'}, {1: '8/10'}, {2: '2/10'}]:
            if nd == 2:
                out += [surface_mesh(nd, rs, [one, (15, 0), (1 << k, 0)], 2, planes, n) for k in (0, 3, 5)] + [surface_mesh(nd, rs, [one, (15, 0), (2, 0), (0, M)], 2, planes, n)]
            else:
                out += [surface_mesh(nd, rs, [one, (1 << k, 0)], 1, planes, n) for k in ((0, 1, 2, 3) if full else (0,))]
        if nd == 2:
            out += [surface_mesh(nd, rs, [one, (15, 0), (3, 0)], 2, {0: '3/10', 1: '6/10'}, n)]
    return out[part::parts]


SRC = ['persist.cpp' if s == 'solver.cpp' else s for s in solver.SRC]
SRC = SRC + [s for s in ('src/Boundary_condition.cpp', 'src/Surface_geom.cpp') if s not in SRC]
EXTRA = solver.EXTRA + ['stub:h5']
ASSUMED = ['the HDF5 library stores and returns data as stubs/h5/H5Cpp.h does (an in-memory store with the same interface, which rejects what HDF5 rejects)']


def jobs(tier):
    full = tier == 'thorough'
    kw = dict(extra=EXTRA, native_sources=[s for s in SRC if s != 'tree_rt.cpp'], native_extra=[x for x in EXTRA if x[0] != '-' or 'access' in x], budget=800)
    out = []
    for nd, rs, parts in [(3, 2, 6), (2, 2, 1), (2, 3, 1), (1, 2, 1)] + ([(1, 3, 1), (3, 3, 6)] if full else []):
        for i in range(parts):
            out.append(Job('saving nd=%d rs=%d%s' % (nd, rs, ' part=%d' % i if parts > 1 else ''), SRC, 'specs.persist.cases', {'nd': nd, 'rs': rs, 'part': i, 'parts': parts, 'full': full}, [], **kw))
    for nd, rs, parts in [(3, 2, 2), (2, 2, 2), (1, 2, 1)]:
        for i in range(parts):
            out.append(Job('trees nd=%d%s' % (nd, ' part=%d' % i if parts > 1 else ''), SRC, 'specs.persist.trees', {'nd': nd, 'rs': rs, 'part': i, 'parts': parts, 'full': full}, [], **kw))
    return out
