"""Function contracts on the real code: pre-state, frame and post-conditions of an entry point, checked on every path for all inputs."""
import ctypes
import math
import random
import time
from fractions import Fraction
from . import expr as X
from . import lib  # noqa: F401  (registers the runtime contracts)
from .expr import Node, isc, var
from .exec import Executor, State, Ptr, NULL, UNDEF, VCError, PathEnd, LoopRestart, Budget, Bits
from .ir import Module, Unsupported
from .loops import Foreach


# ------------------------------------------------------------------ generic arithmetic (terms or floats)
def g_sqrt(x):
    if isinstance(x, float):
        return math.sqrt(x) if x >= 0 else float('nan')
    return X.rsqrt(x)


def g_abs(x):
    return abs(x) if isinstance(x, float) else X.rabs(x)


def g_max(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return max(float(x), float(y))
    return X.rmax(x, y)


def g_min(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return min(float(x), float(y))
    return X.rmin(x, y)


def g_lt(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return int(float(x) < float(y))
    return X.rlt(x, y)


def g_ite(c, x, y):
    if isinstance(c, (int, bool)):
        return x if c else y
    return X.rite(c, x, y)


def g_fn(f, *a):
    if any(isinstance(x, float) for x in a):
        return X._ffn(f, [float(x) for x in a])
    return X.rfn(f, *a)


def q(x):
    """the decimal literal x, as the exact value of the double the compiler sees"""
    return Fraction(float(x)) if Fraction(float(x)).denominator != 1 else int(float(x))


# ------------------------------------------------------------------ proving
class Result:
    __slots__ = ('ok', 'how', 'model', 'wall', 'detail')

    def __init__(self, ok, how, model=None, wall=0., detail=''):
        self.ok = ok; self.how = how; self.model = model; self.wall = wall; self.detail = detail


STATS = {'obligations': 0, 'discharged': 0, 'by': {}, 'solver_s': 0.0, 'functions': set(), 'paths': 0, 'cases': 0}


def prove_eq_many(pairs, hyps, seed=1, npts=2, sign_split=True, max_leaves=4096, refute=None):
    """which of the equalities l == r follow from hyps.  Returns list of how-strings or None"""
    res = [None] * len(pairs)
    todo = []
    for i, (l, r) in enumerate(pairs):
        if l is r or (isc(l) and isc(r) and l == r):
            res[i] = 'syntactic'
        else:
            todo.append(i)
    if not todo:
        return res
    ok = set(todo)
    for k in range(npts):
        gf = X.GF(seed * 1000003 + k, 'u')
        ds = []
        for i in sorted(ok):
            ds += list(pairs[i])
        vs = gf.evalall(ds)
        ok = {i for j, i in enumerate(sorted(ok)) if vs[2 * j] == vs[2 * j + 1]}
        if not ok:
            break
    for i in ok:
        res[i] = 'identity'
    todo = [i for i in todo if i not in ok]
    if todo and refute:
        # a point that satisfies the hypotheses and not the equality settles it
        r = refute([pairs[i] for i in todo])
        for i, m in zip(list(todo), r):
            if m is not None:
                res[i] = m
                todo.remove(i)
    if todo and sign_split:
        hv = [(h, _vars([h])) for h in hyps if isinstance(h, Node)]
        groups = {}
        for i in todo:
            groups.setdefault(frozenset(n.id for n in X.topo(list(pairs[i])) if n.op in ('sqrt', 'abs', 'ite')), []).append(i)
        for chunk in [g[j:j + 64] for g in groups.values() for j in range(0, len(g), 64)]:
            # hypotheses about other data are left out first (fewer hypotheses prove no more)
            vs = _vars([x for i in chunk for x in pairs[i]])
            hs = [h for h, v in hv if v <= vs]
            good = _split([pairs[i] for i in chunk], hs, seed, npts, max_leaves)
            if not all(good) and len(hs) < len(hv):
                good = _split([pairs[i] for i in chunk], hyps, seed, npts, max_leaves)
            for j, i in enumerate(chunk):
                if good[j]:
                    res[i] = 'identity-signs'
            if not any(good):
                break      # the case has failed already
    return res


def _vars(xs):
    return {n.id for n in X.topo(xs) if n.op == 'var'}


def _split(pairs, hyps, seed, npts, max_leaves):
    good = [True] * len(pairs)
    got = 0
    s = seed * 7919
    tries = 0
    tend = time.time() + 60
    while got < npts:
        s += 1
        tries += 1
        if tries > 200:
            return [False] * len(pairs)
        try:
            leaves = 0
            live = 0
            stack = [({}, {})]
            vals = [True] * len(pairs)
            while stack:
                signs, bools = stack.pop()
                if time.time() > tend:
                    return [False] * len(pairs)
                gf = X.GF(s, 's', dict(signs), dict(bools), sq=True)
                try:
                    dead = False
                    for h in hyps:
                        if isc(h):
                            v = h
                        else:
                            gf.evalall([h])
                            v = gf.val[h.id]
                        if v == 0:
                            dead = True
                            break
                    if dead:
                        continue
                    for l, r in pairs:
                        a, b = gf.evalall([l, r])
                    leaves += 1
                    if leaves > max_leaves:
                        return [False] * len(pairs)
                    live += 1
                    for j, (l, r) in enumerate(pairs):
                        a, b = gf.evalall([l, r])
                        if a != b:
                            vals[j] = False
                    if not any(vals):
                        break
                except X.NeedSign as e:
                    if isinstance(e.key, tuple) and e.key[0] == 'b':
                        for v in (0, 1):
                            b2 = dict(bools); b2[e.key[1]] = v
                            stack.append((signs, b2))
                    else:
                        for v in (-1, 1):
                            s2 = dict(signs); s2[e.key] = v
                            stack.append((s2, bools))
            good = [a and b for a, b in zip(good, vals)]
            if live == 0:
                return [False] * len(pairs)
            got += 1
            if not any(good):
                return good
        except X.Retry:
            continue
    return good


def prove_cond(c, hyps, timeout=20000):
    """hyps |- c  by z3"""
    if isc(c) and c:
        return 'const', None
    t = time.time()
    r, m = X.z3_check(list(hyps) + ([] if isc(c) else [X.bnot(c)]), timeout, True)
    STATS['solver_s'] += time.time() - t
    if r == 'unsat':
        return 'z3', None
    return None, m


# ------------------------------------------------------------------ views given to a post-condition
class View:
    def __init__(self, pre, post, ip, extra=None):
        self.pre = pre
        self.post = post
        self.ip = ip
        self.extra = extra or {}


class Fail:
    def __init__(self, case, label, kind, detail='', model=None, replay=None):
        self.case = case; self.label = label; self.kind = kind; self.detail = detail; self.model = model; self.replay = replay


class Case:
    """one entry point under one configuration.

    bufs: list of lists of terms (the pre-state), None for an absent buffer
    ips:  integers (or bit-vector terms) passed as int*
    post(View) -> iterable of (label, lhs, rhs) for equalities, (label, cond) for conditions
    free: set of (buffer, index) whose final value the contract leaves open (besides those that occur in `sets`)
    sets: function(View) -> dict (buffer, index) -> value: full functional description; all other cells must be unchanged
    """

    def __init__(self, name, entry, bufs, ips=(), pre=(), post=None, sets=None, free=(), sample=None, foreach=True, throws=None, outs=None, ret=None,
                 contracts=(), native=True, tol=1e-7, max_paths=4096, fork_real=False, hook=None, exit_post=None, exit_free=None, merge=False):
        self.merge = merge
        self.exit_post = exit_post; self.exit_free = exit_free
        self.name = name; self.entry = entry; self.bufs = bufs; self.ips = list(ips); self.pre = list(pre); self.post = post; self.sets = sets
        self.free = free if callable(free) else (lambda b, i, s=set(free): (b, i) in s)
        self.sample = sample; self.foreach = foreach; self.throws = throws; self.contracts = list(contracts); self.native = native; self.tol = tol
        self.max_paths = max_paths; self.fork_real = fork_real; self.hook = hook


class Harness:
    def __init__(self, mod, case, log=None):
        self.mod = mod
        self.case = case
        self.fails = []
        self.nobl = 0
        self.ndis = 0
        self.paths = 0
        self.visited = 0

    # -------- loop obligations
    def omp_static(self, ex, st, a, sz):
        w = sz * 8
        lo = ex.load(st, a[4], sz, 'i')
        up = ex.load(st, a[5], sz, 'i')
        inc = a[7]
        if isc(lo) and isc(up):
            ex.store(st, a[3], 4, 'i', 1)
            return None
        k = st.meta.get('nstatic', 0)
        st.meta['nstatic'] = k + 1
        self.oblige('loop lower bound is 0', X.vcmp('eq', w, lo, 0), st)
        n = var('n!', 32)
        want = X.vbin('sub', w, X.vsext(n, 32, w) if w > 32 else n, 1)
        self.oblige('loop upper bound is size-1', X.vcmp('eq', w, up, want), st)
        self.oblige('loop increment is 1', X.vcmp('eq', w, inc, 1), st)
        lb, ub = var('lb!%d' % k, w), var('ub!%d' % k, w)
        ex.size_vars |= {'lb!%d' % k, 'ub!%d' % k}
        st.assume(X.vcmp('sge', w, lb, 0))
        st.assume(X.vcmp('sle', w, ub, up))
        ex.store(st, a[4], sz, 'i', lb)
        ex.store(st, a[5], sz, 'i', ub)
        ex.store(st, a[3], 4, 'i', var('last!%d' % k, 32))
        st.meta['range'] = (lb, ub, w)
        return None

    def iteration_start(self, ex, st, loop, ctx):
        rng = st.meta.get('range')
        iv = None
        for d, n in ctx['phi'].items():
            e = ctx['entry'][d]
            if n.w == 'r':
                continue
            if rng is not None and not isc(e) and any(x is rng[0] for x in X.topo([e])):
                ub = X.vsext(rng[1], rng[2], n.w) if n.w > rng[2] else rng[1]
                st.assume(X.vcmp('sle', n.w, e, n))
                st.assume(X.vcmp('sle', n.w, n, ub))
                iv = (d, n, e, ub)
            elif rng is None and isc(e) and e == 0:
                nn = var('n!', 32)
                ub = X.vsext(nn, 32, n.w) if n.w > 32 else nn
                st.assume(X.vcmp('sle', n.w, 0, n))
                st.assume(X.vcmp('slt', n.w, n, ub))
                iv = (d, n, e, X.vbin('sub', n.w, ub, 1))
        if iv is None:
            raise Unsupported('no induction variable recognised in %s' % loop.fn)
        ctx['iv'] = iv
        st.meta['iter'] = iv
        st.meta['visits'] = ()

    def iteration_end(self, ex, st, loop, ctx, vals):
        d, n, e, ub = ctx['iv']
        nx = vals[d]
        self.oblige('each element visited once (next index)', X.vcmp('eq', n.w, nx, X.vbin('add', n.w, n, 1)), st)
        self.oblige('loop index stays in range', X.band(X.vcmp('sle', n.w, e, nx), X.vcmp('sle', n.w, nx, ub)), st)
        if not st.meta.get('visits'):
            self.fail('element visited', 'iteration does not access its element', st)
        st.meta['carry'] = [(ctx['phi'][x], vals[x]) for x in ctx['phi'] if ctx['phi'][x].w == 'r']
        for (o, off), (e0, v) in ctx['mem'].items():
            if o in st.mem and st.mem[o].live:
                c = st.mem[o].cells.get(off)
                if c is not None and c[0] == 8 and c[1] == 'd':
                    st.meta['carry'].append((v, c[2]))
        self.finish(ex, st, True)

    def loop_exit(self, ex, st, loop, ctx, fr):
        d, n, e, ub = ctx['iv']
        self.oblige('all elements visited at loop exit', X.vcmp('sge', n.w, n, ub), st)
        st.meta['exited'] = 1
        st.meta['carry0'] = [(ctx['phi'][x], ctx['entry'][x]) for x in ctx['phi'] if ctx['phi'][x].w == 'r'] + [(v, e0) for e0, v in ctx['mem'].values()]

    # -------- obligations
    def oblige(self, label, c, st):
        self.nobl += 1
        how, m = prove_cond(c, st.pc)
        if how:
            self.ndis += 1
            STATS['by'][how] = STATS['by'].get(how, 0) + 1
            return True
        self.fails.append(Fail(self.case.name, label, 'cond', X.show(c) if isinstance(c, Node) else str(c), m))
        return False

    def fail(self, label, detail, st, model=None):
        self.nobl += 1
        self.fails.append(Fail(self.case.name, label, 'error', detail, model))

    # -------- externs
    def ext(self):
        def vc_size(ex, st, a):
            n = var('n!', 32)
            st.assume(X.vcmp('sge', 32, n, 0))
            ex.size_vars.add('n!')
            return n

        def vc_elem(ex, st, a):
            iv = st.meta.get('iter')
            if iv is None:
                if ex.symloops:
                    self.fail('element access', 'element accessed outside of the element loop', st)
                    raise PathEnd('bad')
                self.tentative = True      # the loop is not cut yet: this run is discarded
                return st.meta['ghost']
            d, n, e, ub = iv
            i = a[0]
            w = n.w
            if not any(x is i for x in st.meta['visits']):
                ii = X.vsext(i, 32, w) if w > 32 else i
                self.oblige('iteration i accesses element i only', X.vcmp('eq', w, ii, n), st)
                st.meta['visits'] = st.meta['visits'] + (i,)
            return st.meta['ghost']

        def vc_register(ex, st, a):
            st.meta['ghost'] = a[0]
        d = {'vc_size': vc_size, 'vc_elem': vc_elem, 'vc_register': vc_register}
        if self.case.hook:
            d.update(self.case.hook(self))
        return d

    def setup(self, ex):
        st = State()
        ex.run_ctors(st)
        bufs = []
        tab = st.new(8 * max(1, len(self.case.bufs)), 'bufs', 'ghost')
        for k, b in enumerate(self.case.bufs):
            if b is None:
                p = NULL
            else:
                p = st.new(8 * len(b), 'buf%d' % k, 'ghost')
                o = st.mem[p.o]
                for j, v in enumerate(b):
                    if v is not UNDEF:
                        o.cells[8 * j] = (8, 'd', v)
            bufs.append(p)
            st.mem[tab.o].cells[8 * k] = (8, 'p', p)
        ips = st.new(4 * max(1, len(self.case.ips)), 'ip', 'ghost')
        for k, v in enumerate(self.case.ips):
            st.mem[ips.o].cells[4 * k] = (4, 'i', v & 0xffffffff if isc(v) else v)
        st.meta['bufs'] = bufs
        for c in self.case.pre:
            st.assume(c)
        ex.push(st, self.case.entry, [tab, ips])
        return st

    def read_bufs(self, st):
        out = []
        for p, b in zip(st.meta['bufs'], self.case.bufs):
            if b is None:
                out.append(None)
                continue
            o = st.mem[p.o]
            vals = []
            for j in range(len(b)):
                c = o.cells.get(8 * j)
                if c is None or c[0] != 8:
                    vals.append(UNDEF)
                elif c[1] == 'd':
                    vals.append(c[2])
                else:
                    from .exec import conv
                    vals.append(conv(c[1], c[2], 'd', 8))
            out.append(vals)
        return out

    def finish(self, ex, st, visited, ret=False):
        self.paths += 1
        case = self.case
        post = self.read_bufs(st)
        V = View(case.bufs, post, case.ips, {'carry': None if ret else st.meta.get('carry'), 'st': st, 'ex': ex, 'ret': ret})
        eqs = []
        conds = []
        if visited:
            self.visited += 1
            sets = case.sets(V) if case.sets else {}
            for k, b in enumerate(case.bufs):
                if b is None:
                    continue
                for j in range(len(b)):
                    if (k, j) in sets:
                        eqs.append(('buffer %d[%d]' % (k, j), post[k][j], sets[(k, j)]))
                    elif not case.free(k, j) and not (ret and case.exit_free and case.exit_free(k, j)):
                        eqs.append(('frame: buffer %d[%d] unchanged' % (k, j), post[k][j], b[j]))
            if case.post:
                for o in case.post(V):
                    if len(o) == 3:
                        eqs.append(o)
                    else:
                        conds.append(o)
        else:
            for k, b in enumerate(case.bufs):
                if b is not None:
                    for j in range(len(b)):
                        if not (case.exit_free and case.exit_free(k, j)):
                            eqs.append(('frame: buffer %d[%d] untouched by an empty range' % (k, j), post[k][j], b[j]))
        if ret and case.exit_post:
            V.extra['carry0'] = st.meta.get('carry0', [])
            V.extra['visited'] = visited
            for o in case.exit_post(V):
                (eqs if len(o) == 3 else conds).append(o)
        pairs = []
        for l, a, b in eqs:
            if a is UNDEF and b is UNDEF:
                a = b = 0
            elif a is UNDEF:
                self.fail(l, 'value is undefined (uninitialised or not a number)', st)
                continue
            pairs.append((l, a, b))
        t = time.time()
        res = prove_eq_many([(a, b) for l, a, b in pairs], st.pc, refute=lambda ps: self.refute(ps, st.pc))
        STATS['solver_s'] += time.time() - t
        # vacuity: the path must be feasible for its obligations to count (checked only when something failed to discharge)
        bad = []
        refuted = []
        for (l, a, b), r in zip(pairs, res):
            self.nobl += 1
            if isinstance(r, dict):
                refuted.append((l, r))
            elif r:
                self.ndis += 1
                STATS['by'][r] = STATS['by'].get(r, 0) + 1
            else:
                bad.append((l, a, b))
        for j, (l, m) in enumerate(refuted):
            self.fails.append(Fail(case.name, l, 'eq', '', m if j == 0 else None))
        nz3 = 4 if refuted else 0
        for l, a, b in bad:
            m = None
            if nz3 < 4:
                nz3 += 1
                how, m = prove_cond(X.req(a, b), st.pc, 8000)
                if how:
                    self.ndis += 1
                    STATS['by'][how] = STATS['by'].get(how, 0) + 1
                    nz3 -= 1
                    continue
            self.fails.append(Fail(case.name, l, 'eq', '', m))
        for l, c in conds:
            self.oblige(l, c, st)

    def refute(self, pairs, pc):
        """per pair: an assignment that satisfies the path condition and on which the two sides clearly differ, or None"""
        out = [None] * len(pairs)
        roots = [x for p in pairs for x in p]
        vs = [n for n in X.topo(roots + list(pc)) if n.op == 'var']
        rng = random.Random(7)
        good = 0
        for t in range(24):
            try:
                env = dict(self.case.sample(rng)) if self.case.sample else {}
                for n in vs:
                    if n.a[0] not in env:
                        env[n.a[0]] = rng.uniform(-1, 1) if n.w == 'r' else rng.getrandbits(1) if n.w == 1 else rng.getrandbits(min(n.w, 3))
                if not all(X.feval([c for c in pc if isinstance(c, Node)], env)):
                    continue
                v = X.feval(roots, env)
            except Exception:
                return out
            good += 1
            for i in range(len(pairs)):
                a, b = float(v[2 * i]), float(v[2 * i + 1])
                if abs(a - b) > 1e-5 * (1 + abs(a) + abs(b)):     # false for NaN
                    out[i] = env
            if good >= 3 or any(o is not None for o in out):
                break
        return out

    def run(self):
        case = self.case
        sym = {}
        wsets = {}
        for attempt in range(12):
            ex = Executor(self.mod, case.contracts, self.ext())
            ex.omp_static = self.omp_static
            ex.loop_policy = Foreach(self)
            ex.max_paths = case.max_paths
            ex.fork_real = case.fork_real
            ex.merge = case.merge
            for (fn, h), sl in sym.items():
                ex.register_symloop(fn, h, sl.body)
                ex.symloops[(fn, h)].wset = sl.wset
            self.fails = []
            self.tentative = False
            self.nobl = self.ndis = self.paths = self.visited = 0

            def done(st, out, info):
                if DEBUG: print('DONE', out, info, [f.fn for f in st.frames])
                if out == 'ret':
                    if not case.foreach:
                        self.finish(ex, st, True, True)
                    elif st.meta.get('visits'):
                        self.finish(ex, st, True, True)
                    else:
                        self.finish(ex, st, False, True)
                elif out == 'error':
                    self.fail('safety: ' + info.kind, info.msg, st)
                elif out == 'throw':
                    if case.throws:
                        for l, c in case.throws(View(case.bufs, self.read_bufs(st), case.ips, {'exc': info, 'ex': ex, 'st': st})):
                            self.oblige(l, c, st)
                        self.paths += 1
                        self.visited += 1
                    else:
                        self.fail('no exception', 'uncaught exception', st)
                elif out == 'end':
                    pass
                else:
                    self.fail('outcome', out, st)
            try:
                st = self.setup(ex)
                ex.run(st, done)
            except LoopRestart:
                sym = dict(ex.symloops)
                continue
            sym = dict(ex.symloops)
            if any(s.changed for s in sym.values()):
                continue
            self.ex = ex
            STATS['functions'] |= ex.funcs_run
            STATS['obligations'] += self.nobl
            STATS['discharged'] += self.ndis
            STATS['paths'] += self.paths
            STATS['cases'] += 1
            if self.tentative:
                self.fail('element access', 'element accessed outside of the element loop', st)
            if not self.visited and not self.fails:
                raise Unsupported('vacuous: no path of %s reaches its post-condition' % case.name)
            return self.fails
        raise Unsupported('loop contracts of %s did not stabilise' % case.name)


# ------------------------------------------------------------------ native replay
DEBUG = False
_warned = []
CANARY = 1.2345678912345e+77


class Native:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)

    def call(self, entry, bufs, ips):
        f = getattr(self.lib, entry)
        f.restype = None
        arrs = []
        ptrs = (ctypes.POINTER(ctypes.c_double) * max(1, len(bufs)))()
        pad = 16
        for k, b in enumerate(bufs):
            if b is None:
                arrs.append(None)
                continue
            a = (ctypes.c_double * (len(b) + 2 * pad))(*([CANARY] * pad + [float(x) for x in b] + [CANARY] * pad))
            arrs.append(a)
            ptrs[k] = ctypes.cast(ctypes.byref(a, 8 * pad), ctypes.POINTER(ctypes.c_double))
        ipa = (ctypes.c_int * max(1, len(ips)))(*[int(x) for x in ips])
        f(ptrs, ipa)
        out = []
        canary = []
        for k, a in enumerate(arrs):
            if a is None:
                out.append(None)
                continue
            v = list(a)
            if any(x != CANARY for x in v[:pad] + v[-pad:]):
                canary.append(k)
            out.append(v[pad:-pad])
        bad = 0
        try:
            bad = self.lib.vc_get_bad()
        except AttributeError:
            pass
        return out, canary, bad


def case_vars(case):
    ns = [v for b in case.bufs if b is not None for v in b if isinstance(v, Node)] + [v for v in case.ips if isinstance(v, Node)] + [c for c in case.pre if isinstance(c, Node)]
    return [n for n in X.topo(ns) if n.op == 'var']


def default_sample(case, rng):
    return {n.a[0]: (rng.uniform(-1, 1) if n.w == 'r' else rng.getrandbits(1) if n.w == 1 else rng.getrandbits(min(n.w, 3))) for n in case_vars(case)}


def replay(case, so, tries=60, seed=1, models=(), limit=60., ran=None):
    """look for concrete inputs on which the natively compiled real code violates the contract.  Returns a dict or None.
    Runs in a forked child: a crash of the code under test is itself reported."""
    import json
    import os
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(120)
        try:
            n = [0]
            out = _replay(case, so, tries, seed, models, limit, n)
            if not out:
                out = {'ran': n[0]}
        except BaseException as e:  # noqa
            out = {'harness_error': repr(e)}
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt):
        sig = os.WTERMSIG(stt)
        if sig == signal.SIGALRM or sig == signal.SIGABRT and case.throws:
            return None
        return {'entry': case.entry, 'violated': [['the real code crashed with signal %d on a contract-satisfying input' % sig, 0, 0]], 'seed': seed}
    try:
        out = json.loads(data.decode())
    except ValueError:
        return None
    if out and 'ran' in out:
        if ran is not None:
            ran[0] = out['ran']
        return None
    if out and 'harness_error' in out:
        import sys
        if not _warned:
            _warned.append(1)
            sys.stderr.write('replay: %s\n' % out['harness_error'])
        return None
    return out


def _replay(case, so, tries, seed, models, limit=60., ran=None):
    t0 = time.time()
    nat = Native(so)
    rng = random.Random(seed)
    mods = [m for m in models if m]
    for t in range(tries + len(mods)):
        try:
            r = _replay_one(case, nat, rng, mods, t)
        except ZeroDivisionError:
            continue
        if ran is not None:
            ran[0] += 1
        if time.time() - t0 > limit:
            return r or None
        if r:
            return r
    return None


def _n(x):
    """value of a closed term (None if it contains a function nothing is known about)"""
    if not isinstance(x, Node):
        return float(x)
    try:
        return float(X.feval([x], {})[0])
    except (X.Undef, KeyError):
        return None


def _replay_one(case, nat, rng, mods, t):
    if True:
        env = case.sample(rng) if case.sample else {}
        for n in case_vars(case):
            if n.a[0] not in env:
                env[n.a[0]] = rng.uniform(-1, 1) if n.w == 'r' else rng.getrandbits(1) if n.w == 1 else rng.getrandbits(min(n.w, 3))
        if t < len(mods):
            for k, v in mods[t].items():
                if k in env:
                    env[k] = v
        if case.pre and not all(X.feval([c for c in case.pre if isinstance(c, Node)], env)):
            return None
        flat = [v for b in case.bufs if b is not None for v in b]
        fv = iter(X.feval([v if isinstance(v, Node) else (0. if v is UNDEF else float(v)) for v in flat], env))
        pre = [None if b is None else [float(next(fv)) for _ in b] for b in case.bufs]
        ips = X.feval(list(case.ips), env)
        post, canary, bad = nat.call(case.entry, pre, ips)
        out = []
        for k in canary:
            out.append(['write outside buffer %d' % k, 0, 0])
        if bad:
            out.append(['access to an element other than the one of the iteration', 0, 0])
        V = View(pre, post, ips, {'native': True})
        sets = case.sets(V) if case.sets else {}
        scale = 1.0
        for k, b in enumerate(case.bufs):
            if b is None:
                continue
            for j in range(len(b)):
                if (k, j) in sets:
                    e, g = _n(sets[(k, j)]), post[k][j]
                    if e is None:
                        continue
                elif not case.free(k, j):
                    e, g = pre[k][j], post[k][j]
                else:
                    continue
                if differs(e, g, case.tol):
                    out.append(['buffer %d[%d]: contract requires %.17g, real code gives %.17g' % (k, j, e, g), e, g])
        if case.post:
            for o in case.post(V):
                vals = [_n(x) for x in o[1:3]]
                if None in vals:
                    continue
                if len(o) == 3:
                    if differs(vals[0], vals[1], case.tol):
                        out.append(['%s: %.17g vs %.17g' % (o[0], vals[0], vals[1]), vals[0], vals[1]])
                elif not vals[0]:
                    out.append([o[0], 0, 0])
        if out:
            return {'entry': case.entry, 'case': case.name, 'ip': ips, 'inputs': pre, 'outputs': post, 'violated': out[:20]}
    return None


def differs(a, b, tol):
    if a != a and b != b:
        return False
    if a == b:
        return False
    d = abs(a - b)
    return not d <= tol * (1 + max(abs(a), abs(b)))
