"""Symbolic executor over the parsed IR: strongest postconditions path by path, callee contracts, loop contracts."""
import re
import struct
from fractions import Fraction
from . import expr as E
from .expr import Node, isc
from .ir import P, tokenize, Unsupported, LINKSKIP, CCONV, Block


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o == self.o and (x.off is self.off or (isc(x.off) and isc(self.off) and x.off == self.off))

    def __hash__(self):
        return hash((self.o, self.off if isc(self.off) else self.off.id))


NULL = Ptr(0, 0)
M64 = (1 << 64) - 1


class Bits:
    """the integer view of a double"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Blob:
    """raw bytes of mixed content held in an integer register: list of (reloff, size, kind, value)"""
    __slots__ = ('parts', 'size')

    def __init__(self, parts, size):
        self.parts = parts
        self.size = size


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Obj:
    __slots__ = ('id', 'size', 'cells', 'name', 'fill', 'gen', 'kind', 'lazy', 'live', 'const')

    def __init__(self, id, size, name, kind, fill=None, lazy=None, const=False):
        self.id = id
        self.size = size
        self.cells = {}
        self.name = name
        self.kind = kind      # 'stack','heap','global','ghost'
        self.fill = fill      # None: uninitialised, 0: zero
        self.lazy = lazy      # callable(off,size,kind)->value for symbolic initial contents
        self.gen = 0
        self.live = True
        self.const = const

    def copy(self, gen):
        o = Obj(self.id, self.size, self.name, self.kind, self.fill, self.lazy, self.const)
        o.cells = dict(self.cells)
        o.gen = gen
        o.live = self.live
        return o


class Frame:
    __slots__ = ('fn', 'code', 'R', 'bi', 'prev', 'ip', 'ret', 'allocas', 'inv', 'loopctx', 'tag')

    def copy(self):
        f = Frame()
        f.fn = self.fn; f.code = self.code; f.R = list(self.R); f.bi = self.bi; f.prev = self.prev
        f.ip = self.ip; f.ret = self.ret; f.allocas = list(self.allocas); f.inv = self.inv
        f.loopctx = dict(self.loopctx) if self.loopctx else None
        f.tag = self.tag
        return f


_gen = [1]


class State:
    def __init__(self):
        self.mem = {}
        self.gen = 0
        self.next = 1
        self.pc = []
        self.pcset = {}
        self.frames = []
        self.meta = {}
        self.wlog = None
        self.exc = None

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        _gen[0] += 1
        s.gen = _gen[0]
        _gen[0] += 1
        self.gen = _gen[0]
        s.next = self.next
        s.pc = list(self.pc)
        s.pcset = dict(self.pcset)
        s.frames = [f.copy() for f in self.frames]
        s.meta = dict(self.meta)
        s.wlog = list(self.wlog) if self.wlog is not None else None
        s.exc = self.exc
        return s

    def new(self, size, name, kind, fill=None, lazy=None, const=False):
        i = self.next
        self.next += 1
        o = Obj(i, size, name, kind, fill, lazy, const)
        o.gen = self.gen
        self.mem[i] = o
        return Ptr(i, 0)

    def wobj(self, i):
        o = self.mem[i]
        if o.gen != self.gen:
            o = o.copy(self.gen)
            self.mem[i] = o
        return o

    def assume(self, c, val=1):
        if isc(c):
            return bool(c) == bool(val)
        while c.op == 'not':
            c = c.a[0]
            val = 1 - val
        if c.id in self.pcset:
            return self.pcset[c.id] == val
        self.pcset[c.id] = val
        self.pc.append(c if val else E.bnot(c))
        if val and c.op == 'and':
            for x in c.a:
                if not self.assume(x, 1):
                    return False
        return True

    def decided(self, c):
        neg = 0
        while c.op == 'not':
            c = c.a[0]
            neg ^= 1
        v = self.pcset.get(c.id)
        if v is not None:
            return v ^ neg
        if c.op == 'and':
            vs = [x if isc(x) else self.decided(x) for x in c.a]
            if 0 in vs:
                return 0 ^ neg
            if all(x == 1 for x in vs):
                return 1 ^ neg
        return None


class VCError(Exception):
    """a failed safety obligation (memory, frame) on the path"""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class LoopRestart(Exception):
    pass


class Budget(Exception):
    pass


SNAP = {}        # double -> exact value of the named constant it rounds (registered by the specifications)
_snapc = {}


def register_const(exact):
    """the doubles within a few ulp of `exact` denote it"""
    import math
    for d in (-math.inf, math.inf):
        x = float(exact)
        for _ in range(32):
            SNAP[x] = Fraction(exact)
            x = math.nextafter(x, d)


def snap(f):
    """a floating literal denotes the simple rational it rounds (doubles are treated as reals)"""
    r = _snapc.get(f)
    if r is not None:
        return r
    if f.denominator == 1 and abs(f.numerator) < 1 << 53:
        return f.numerator
    try:
        v = float(f)
    except OverflowError:
        return f
    r = f
    ulp = Fraction(abs(v)) * Fraction(1, 1 << 52)
    for k, e in SNAP.items():
        if abs(e - f) <= 16 * ulp:
            r = e
            break
    else:
        c = f.limit_denominator(10000)
        if c != 0 and abs(c - f) <= 4 * ulp:
            r = c
        else:
            d = Fraction('%.14g' % v)
            if len(('%.14g' % v).split('e')[0].replace('.', '').strip('-0')) <= 11 and abs(d - f) <= 4 * ulp:
                r = d
    if r.denominator == 1:
        r = r.numerator
    _snapc[f] = r
    return r


def float_of_bits(x):
    v = struct.unpack('<d', struct.pack('<Q', x))[0]
    if v != v:
        return E.NAN
    if v == float('inf'):
        return E.INF
    if v == float('-inf'):
        return E.rneg(E.INF)
    return snap(Fraction(v))


def bits_of(v):
    if v is E.INF:
        return 0x7ff0000000000000
    if isc(v):
        fl = float(v)
        if Fraction(fl) == v:
            return struct.unpack('<Q', struct.pack('<d', fl))[0]
    return None


class Executor:
    def __init__(self, mod, contracts=None, ext=None):
        self.mod = mod
        self.ext = dict(BUILTIN)
        if ext:
            self.ext.update(ext)
        self.contracts = contracts or []     # list of (regex, handler)
        self.code = {}
        self.ccache = {}
        self.gptr = {}       # global name -> object id
        self.gobjs = {}      # id -> Obj (initial)
        self.fptr = {}       # function object id -> name
        self.nextg = -1
        self.steps = 0
        self.max_steps = 400_000_000
        self.symloops = {}   # (fn, header idx) -> LoopSpec
        self.loop_hook = None
        self.size_vars = set()
        self.store_hook = None
        self.branch_hook = None
        self.done = []
        self.funcs_run = set()
        self.hcache = {}
        self.late = []
        self.merge = False
        self.joins = 0
        self.merge_log = None
        self.solver_calls = 0
        self.fork_solver = True
        self.fork_real = False
        self.max_paths = 4096

    # ------------------------------------------------------------ globals
    def gaddr(self, name):
        while name in self.mod.aliases:
            name = self.mod.aliases[name]
        i = self.gptr.get(name)
        if i is None:
            i = self.nextg
            self.nextg -= 1
            self.gptr[name] = i
            if name in self.mod.globals:
                g = self.mod.globals[name]
                self._init_global(name, g, i)
            else:
                self.fptr[i] = name
                self.gobjs[i] = Obj(i, 1, name, 'func')
        return Ptr(i, 0)

    def _init_global(self, name, g, i):
        p = P(self.mod, tokenize(_strip_tail(g[0])))
        t = p.type()
        size = self.mod.size(t)[0]
        o = Obj(i, size, '@' + name, 'global', const=g[2])
        o.gen = -1
        self.gobjs[i] = o
        if g[1]:   # external: unknown contents
            o.fill = None
            o.lazy = None
            if name == '__libc_single_threaded':   # selects between two equivalent ways of counting references
                o.cells[0] = (1, 'i', 1)
            return
        c = p.operand(t)
        self._initcells(o, 0, t, c)

    def _initcells(self, o, off, t, c):
        m = self.mod
        t = m.resolve(t)
        if c[0] == 'zero' or c[0] == 'undef':
            s = m.size(t)[0]
            self._zero(o, off, t)
            return
        k = t[0]
        if c[0] == 'str':
            for j, b in enumerate(c[1]):
                o.cells[off + j] = (1, 'i', b)
            return
        if c[0] == 'agg':
            if k in ('a', 'v'):
                es = m.size(t[2])[0]
                for j, e in enumerate(c[1]):
                    self._initcells(o, off + j * es, t[2], e)
            else:
                for j, e in enumerate(c[1]):
                    fo, ft = m.field(t, j)
                    self._initcells(o, off + fo, ft, e)
            return
        v = self.const(t, c)
        o.cells[off] = (m.size(t)[0], _kind(t), v)

    def _zero(self, o, off, t):
        m = self.mod
        t = m.resolve(t)
        k = t[0]
        if k in ('a', 'v'):
            es = m.size(t[2])[0]
            if es * t[1] > 4096 and not o.cells:
                o.fill = 0
                return
            for j in range(t[1]):
                self._zero(o, off + j * es, t[2])
        elif k == 's':
            for j in range(len(t[1])):
                fo, ft = m.field(t, j)
                self._zero(o, off + fo, ft)
        else:
            o.cells[off] = (m.size(t)[0], _kind(t), NULL if k == 'p' else 0)

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gobjs.get(i)
            if o is None:
                return None
            st.mem[i] = o
        return o

    # ------------------------------------------------------------ constants
    def const(self, t, c):
        k = c[0]
        if k == 'k':
            v = c[1]
            if v == 'nan':
                return E.NAN
            if v == 'inf':
                return E.INF
            if v == '-inf':
                return E.rneg(E.INF)
            if isinstance(v, Fraction):
                return snap(v)
            return v
        if k == 'g':
            return self.gaddr(c[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self._undef(c[1])
        if k == 'zero':
            return self._zeroval(c[1])
        if k == 'gep':
            base = self.const(('p',), c[2])
            idx = [(it, self.const(it, io)) for it, io in c[3]]
            return self._gep(c[1], base, idx)
        if k == 'cast':
            v = self.const(c[2], c[3])
            if c[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                if c[1] == 'inttoptr' and v == 0:
                    return NULL
                return v
            w0, w1 = c[2][1], c[4][1]
            return {'trunc': E.vtrunc, 'zext': E.vzext, 'sext': E.vsext}[c[1]](v, w0, w1)
        if k == 'bin':
            return ibin(c[1], c[2][1], self.const(c[2], c[3]), self.const(c[2], c[4]))
        if k == 'icmp':
            return icmp(c[1], c[2], self.const(c[2], c[3]), self.const(c[2], c[4]))
        if k == 'select':
            return self.const(None, c[2]) if self.const(None, c[1]) else self.const(None, c[3])
        if k == 'agg':
            tt = self.mod.resolve(t)
            if tt[0] in ('a', 'v'):
                return [self.const(tt[2], e) for e in c[1]]
            return [self.const(ft, e) for ft, e in zip(tt[1], c[1])]
        if k == 'str':
            return list(c[1])
        raise Unsupported('const %r' % (c,))

    def _undef(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('a', 'v'):
            return [self._undef(t[2]) for _ in range(t[1])]
        if t[0] == 's':
            return [self._undef(x) for x in t[1]]
        return UNDEF

    def _zeroval(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('a', 'v'):
            return [self._zeroval(t[2]) for _ in range(t[1])]
        if t[0] == 's':
            return [self._zeroval(x) for x in t[1]]
        return NULL if t[0] == 'p' else 0

    def _gep(self, bt, base, idx):
        """idx: list of (type, value)"""
        if not isinstance(base, Ptr):
            if base is UNDEF:
                return UNDEF
            raise Unsupported('gep base %r' % (base,))
        off = base.off
        m = self.mod
        t = bt
        for j, (it, v) in enumerate(idx):
            if j == 0:
                s = m.size(t)[0]
            else:
                t = m.resolve(t)
                if t[0] == 's':
                    fo, t = m.field(t, v)
                    off = addoff(off, fo)
                    continue
                t = t[2]
                s = m.size(t)[0]
            if v is UNDEF:
                return UNDEF
            if isc(v):
                v = E._s(v, it[1]) * s
                off = addoff(off, v)
            else:
                v = E.vsext(v, it[1], 64) if it[1] < 64 else v
                off = E.vbin('add', 64, off & M64 if isc(off) else off, E.vbin('mul', 64, v, s))
        return Ptr(base.o, off)

    # ------------------------------------------------------------ memory
    def resolve_ptr(self, st, p, sz):
        """concretise a symbolic offset by forking over its feasible values"""
        o = self.obj(st, p.o)
        if o is None:
            raise VCError('memory', 'access through invalid pointer %r' % (p,))
        if isc(p.off):
            return p
        # candidate offsets
        n = p.off
        limit = o.size if isinstance(o.size, int) else 4096
        outs = []
        inb = None
        for off in range(0, limit - sz + 1):
            if off % min(sz, 8):
                continue
            c = E.vcmp('eq', 64, n, off)
            inb = c if inb is None else E.bor(inb, c)
            if isc(c):
                if c:
                    return Ptr(p.o, off)
                continue
            d = st.decided(c)
            if d == 1:
                return Ptr(p.o, off)
            if d == 0:
                continue
            r, _ = self.check(st.pc + [c])
            if r != 'unsat':
                outs.append((c, off))
        if inb is None:
            raise VCError('memory', 'out of bounds access in %s' % o.name)
        r, _ = self.check(st.pc + [E.bnot(inb)])
        if r != 'unsat':
            raise VCError('memory', 'index into %s (%s bytes) not provably within bounds: offset %s' % (o.name, o.size, E.show(n)))
        if not outs:
            raise PathEnd('infeasible')
        sts = []
        for c, off in outs[1:]:
            s = st.clone()
            s.assume(c)
            sts.append(s)
        st.assume(outs[0][0])
        raise Fork([st] + sts)

    def check(self, conds, timeout=5000):
        self.solver_calls += 1
        return E.z3_check(conds, timeout)

    def _bounds(self, o, off, sz, what):
        if not o.live:
            raise VCError('memory', '%s of freed object %s' % (what, o.name))
        if off < 0 or (o.size is not None and off + sz > o.size):
            raise VCError('memory', '%s out of bounds: %s (size %s) at offset %d' % (what, o.name, o.size, off))

    def load(self, st, p, sz, kind):
        if not isinstance(p, Ptr):
            raise VCError('memory', 'load through %r' % (p,))
        if not isc(p.off):
            p = self.resolve_ptr(st, p, sz)
        off = p.off
        o = st.mem.get(p.o)
        if o is None:
            o = self.obj(st, p.o)
            if o is None:
                raise VCError('memory', 'load through null/invalid pointer')
        if not o.live or off < 0 or (o.size is not None and off + sz > o.size):
            self._bounds(o, off, sz, 'load')
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            if c[1] == kind:
                return c[2]
            return conv(c[1], c[2], kind, sz)
        if c is None and o.lazy is not None:
            v = o.lazy(off, sz, kind)
            if v is not None:
                o = st.wobj(p.o)
                o.cells[off] = (sz, kind, v)
                return v
        return self._load_slow(st, o, off, sz, kind)

    def _load_slow(self, st, o, off, sz, kind):
        parts = []
        i = off - 15
        pos = off
        # collect overlapping cells
        for b in range(off - 31, off + sz):
            c = o.cells.get(b)
            if c is None or b + c[0] <= off:
                continue
            parts.append((b, c))
        if not parts:
            if o.fill == 0:
                return NULL if kind == 'p' else 0
            return UNDEF
        if len(parts) == 1:
            b, c = parts[0]
            if b <= off and b + c[0] >= off + sz:
                return _extract(c, off - b, sz, kind)
        # compose
        segs = []
        for b, c in parts:
            lo = max(b, off)
            hi = min(b + c[0], off + sz)
            if c[2] is UNDEF:
                continue
            if lo == b and hi == b + c[0]:
                segs.append((lo - off, c[0], c[1], c[2]))
            else:
                segs.append((lo - off, hi - lo, 'i', _extract(c, lo - b, hi - lo, 'i')))
        cov = sum(s[1] for s in segs)
        if cov < sz and o.fill == 0:
            have = set()
            for s in segs:
                have.update(range(s[0], s[0] + s[1]))
            for k in range(sz):
                if k not in have:
                    segs.append((k, 1, 'i', 0))
            segs.sort(key=lambda s: s[0])
            cov = sz
        if cov == sz and all(s[2] == 'i' and not isinstance(s[3], (Ptr, Bits, Blob)) for s in segs):
            v = 0
            w = sz * 8
            for ro, s, k, x in segs:
                e = E.vzext(x, s * 8, w) if s * 8 < w else x
                v = E.vbin('or', w, v, E.vbin('shl', w, e, ro * 8)) if not (isc(v) and v == 0) else E.vbin('shl', w, e, ro * 8)
            return conv('i', v, kind, sz)
        if kind == 'i':
            return Blob(segs, sz)
        return UNDEF

    def store(self, st, p, sz, kind, v):
        if not isinstance(p, Ptr):
            raise VCError('memory', 'store through %r' % (p,))
        if not isc(p.off):
            p = self.resolve_ptr(st, p, sz)
        off = p.off
        o = st.mem.get(p.o)
        if o is None:
            o = self.obj(st, p.o)
            if o is None:
                raise VCError('memory', 'store through null/invalid pointer')
        if not o.live or off < 0 or (o.size is not None and off + sz > o.size):
            self._bounds(o, off, sz, 'store')
        if o.const:
            raise VCError('frame', 'store to constant object %s' % o.name)
        if o.gen != st.gen:
            o = o.copy(st.gen)
            st.mem[p.o] = o
        if self.store_hook is not None:
            self.store_hook(self, st, o, off, sz)
        if st.wlog is not None:
            st.wlog.append((p.o, off, sz, kind))
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != sz:
            self._carve(o, off, sz)
        t = type(v)
        if t is Bits:
            v = v.v
            kind = 'd'
        elif t is Blob:
            for ro, s, k, x in v.parts:
                cells[off + ro] = (s, k, x)
            return
        elif t is Ptr:
            kind = 'p'
        cells[off] = (sz, kind, v)

    def _carve(self, o, off, sz):
        cells = o.cells
        if not cells:
            return
        rng = range(off - 31, off + sz)
        if len(cells) < len(rng):
            cand = [b for b in cells if off - 31 <= b < off + sz]
        else:
            cand = [b for b in rng if b in cells]
        for b in cand:
            c = cells[b]
            e = b + c[0]
            if e <= off:
                continue
            del cells[b]
            if b < off:
                cells[b] = (off - b, 'i', _extract(c, 0, off - b, 'i') if c[2] is not UNDEF else UNDEF)
            if e > off + sz:
                cells[off + sz] = (e - off - sz, 'i', _extract(c, off + sz - b, e - off - sz, 'i') if c[2] is not UNDEF else UNDEF)

    def memcpy(self, st, d, s, n):
        if not isc(n):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        if not isc(s.off):
            s = self.resolve_ptr(st, s, n)
        if not isc(d.off):
            d = self.resolve_ptr(st, d, n)
        so = self.obj(st, s.o)
        do = self.obj(st, d.o)
        if so is None or do is None:
            raise VCError('memory', 'memcpy through invalid pointer')
        self._bounds(so, s.off, n, 'memcpy read')
        self._bounds(do, d.off, n, 'memcpy write')
        if so.lazy is not None:
            for b in range(s.off, s.off + n, 8):
                if b not in so.cells and b + 8 <= s.off + n:
                    self.load(st, Ptr(s.o, b), 8, 'd')
            so = st.mem[s.o]
        if len(so.cells) < n:
            it = sorted(b for b in so.cells if s.off - 31 <= b < s.off + n)
        else:
            it = [b for b in range(s.off - 31, s.off + n) if b in so.cells]
        items = []
        for b in it:
            c = so.cells[b]
            e = b + c[0]
            if e <= s.off:
                continue
            lo, hi = max(b, s.off), min(e, s.off + n)
            if lo == b and hi == e:
                items.append((lo - s.off, c))
            else:
                items.append((lo - s.off, (hi - lo, 'i', _extract(c, lo - b, hi - lo, 'i') if c[2] is not UNDEF else UNDEF)))
        if so.fill == 0:
            have = set()
            for ro, c in items:
                have.update(range(ro, ro + c[0]))
            zr = [k for k in range(n) if k not in have]
        else:
            zr = []
        o = st.wobj(d.o)
        if o.const:
            raise VCError('frame', 'memcpy into constant object')
        if self.store_hook is not None:
            self.store_hook(self, st, o, d.off, n)
        if st.wlog is not None:
            st.wlog.append((d.o, d.off, n, 'm'))
        self._carve(o, d.off, n)
        # carve handles cells starting before; remove the ones inside
        if len(o.cells) < n:
            for b in [b for b in o.cells if d.off <= b < d.off + n]:
                del o.cells[b]
        else:
            for b in range(d.off, d.off + n):
                o.cells.pop(b, None)
        for ro, c in items:
            o.cells[d.off + ro] = c
        zr = set(zr)
        k = 0
        for k in sorted(zr):
            if k not in zr:
                continue
            if k % 8 == 0 and all(k + j in zr for j in range(8)):
                o.cells[d.off + k] = (8, 'i', 0)
                zr.difference_update(range(k, k + 8))
            else:
                o.cells[d.off + k] = (1, 'i', 0)
                zr.discard(k)

    def memset(self, st, d, b, n):
        if not isc(n):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        if not isc(d.off):
            d = self.resolve_ptr(st, d, n)
        o = self.obj(st, d.o)
        if o is None:
            raise VCError('memory', 'memset through invalid pointer')
        self._bounds(o, d.off, n, 'memset')
        o = st.wobj(d.o)
        if self.store_hook is not None:
            self.store_hook(self, st, o, d.off, n)
        if st.wlog is not None:
            st.wlog.append((d.o, d.off, n, 'm'))
        self._carve(o, d.off, n)
        for k in [k for k in o.cells if d.off <= k < d.off + n]:
            del o.cells[k]
        off = d.off
        end = off + n
        if isc(b):
            while off < end:
                s = 8 if off % 8 == 0 and off + 8 <= end else 4 if off % 4 == 0 and off + 4 <= end else 1
                o.cells[off] = (s, 'i', int.from_bytes(bytes([b]) * s, 'little'))
                off += s
        else:
            for k in range(off, end):
                o.cells[k] = (1, 'i', b)

    def concretize(self, st, n, w):
        """fork over the feasible values of a small integer term"""
        if isc(n):
            return n
        vals = []
        for v in range(0, 65):
            c = E.vcmp('eq', w, n, v)
            if isc(c):
                if c:
                    return v
                continue
            d = st.decided(c)
            if d == 1:
                return v
            if d == 0:
                continue
            r, _ = self.check(st.pc + [c])
            if r != 'unsat':
                vals.append((c, v))
        nots = [E.bnot(c) for c, v in vals]
        r, _ = self.check(st.pc + nots)
        if r != 'unsat':
            raise Unsupported('cannot concretise %s' % E.show(n))
        if not vals:
            raise PathEnd('infeasible')
        sts = []
        for c, v in vals[1:]:
            s = st.clone()
            s.assume(c)
            sts.append(s)
        st.assume(vals[0][0])
        if sts:
            raise Fork([st] + sts)
        return vals[0][1]

    # ------------------------------------------------------------ compile
    def get_code(self, name):
        c = self.code.get(name)
        if c is None:
            from .compile import compile_fn
            f = self.mod.funcs[name].parse()
            c = self.code[name] = compile_fn(self, f)
        return c

    def push(self, st, name, args, ret=None, inv=None):
        """enter a defined function"""
        code = self.get_code(name)
        self.funcs_run.add(name)
        f = Frame()
        f.fn = name
        f.code = code
        f.R = list(code.tmpl)
        for i, a in enumerate(args[:code.nparams]):
            f.R[i] = a
        f.bi = 0
        f.prev = -1
        f.ip = 0
        f.ret = ret
        f.allocas = []
        f.inv = inv
        f.loopctx = None
        f.tag = None
        st.frames.append(f)
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        return f

    def run(self, st, on_done):
        """explore all paths from st (frames pushed).  on_done(state, outcome, info)"""
        work = [st]
        npaths = 0
        while work:
            s = work.pop()
            try:
                out = self.run_path(s, work)
            except PathEnd as e:
                on_done(s, 'end', e.why)
                continue
            except VCError as e:
                on_done(s, 'error', e)
                npaths += 1
                continue
            npaths += 1
            if npaths > self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            on_done(s, out[0], out[1])

    def run_path(self, st, work):
        frames = st.frames
        base = st.meta.get('_base', 0)
        while True:
            try:
                while True:
                    fr = frames[-1]
                    blk = fr.code.blocks[fr.bi]
                    ins = blk.ins
                    n = len(ins)
                    R = fr.R
                    ip = fr.ip
                    self.steps += n - ip
                    if self.steps > self.max_steps:
                        raise Budget('step limit')
                    while ip < n:
                        r = ins[ip](st, R)
                        ip += 1
                        if r is not None:
                            # a frame was pushed or popped by the call
                            fr.ip = ip
                            if type(r) is tuple:
                                return r
                            break
                    else:
                        fr.ip = n
                        out = blk.term(self, st, fr, work)
                        if out is not None:
                            return out
            except Fork as f:
                # re-execute the current instruction in each state (ip points at the faulting instruction)
                fr.ip = ip
                for s in f.states[1:]:
                    s.frames[-1].ip = ip
                    work.append(s)
                continue

    # ------------------------------------------------------------ misc services
    def handler(self, name):
        h = self.hcache.get(name, 0)
        if h != 0:
            return h
        h = self._find_handler(name)
        self.hcache[name] = h
        return h

    def _find_handler(self, name):
        for rx, h in self.contracts:
            if rx.search(name):
                return h
        if name in self.ext:
            return self.ext[name]
        if name.startswith('llvm.'):
            base = re.sub(r'(\.(p\d+|i\d+|f64|f32|v\d+[if]\d+))+$', '', name)
            if base in self.ext:
                return self.ext[base]
        return None

    def typeid(self, p):
        return 1000 - p.o if p.o < 0 else 1

    def typeinfo_name(self, p):
        for n, i in self.gptr.items():
            if i == p.o:
                return n
        return None

    def depends_on_size(self, c):
        for n in E.topo([c]):
            if n.op == 'var' and n.a[0] in self.size_vars:
                return True
        return False

    def register_symloop(self, fn, h, body):
        from .loops import SymLoop
        self.symloops[(fn, h)] = SymLoop(self, fn, h, body, self.loop_policy)

    loop_policy = None
    omp_static = None
    late = None

    def run_ctors(self, st):
        """execute the module's dynamic initialisers"""
        g = self.mod.globals.get('llvm.global_ctors')
        if g is None:
            return
        names = [x[1][1:] for x in tokenize(g[0]) if x[0] == 'glob']
        for n in names:
            if n not in self.mod.funcs:
                continue
            self.push(st, n, [])
            out = self.run_path(st, [])
            if out[0] != 'ret':
                raise Unsupported('constructor %s: %r' % (n, out))


def addoff(off, k):
    if isc(off):
        return off + k
    return E.vbin('add', 64, off, k & M64)


def _kind(t):
    k = t[0]
    return 'i' if k == 'i' else 'd' if k == 'd' else 'p' if k == 'p' else 'f' if k == 'f' else 'x'


def _strip_tail(s):
    # drop ", align 8", ", comdat", section etc. at top level
    d = 0
    q = False
    for i, ch in enumerate(s):
        if ch == '"':
            q = not q
        if q:
            continue
        if ch in '([{<':
            d += 1
        elif ch in ')]}>':
            d -= 1
        elif ch == ',' and d == 0:
            return s[:i]
    return s


def conv(k0, v, k1, sz):
    """reinterpret a cell value"""
    if v is UNDEF:
        return v
    if k0 == k1:
        return v
    if k1 == 'i':
        if k0 == 'd':
            return Bits(v)
        if k0 == 'p':
            return v if v != NULL else 0
    if k1 == 'd':
        if k0 == 'i':
            if isinstance(v, Bits):
                return v.v
            if isc(v) and isinstance(v, int):
                return float_of_bits(v)
            return UNDEF
    if k1 == 'p':
        if k0 == 'i':
            if isinstance(v, Ptr):
                return v
            if isc(v) and v == 0:
                return NULL
            return v
    if k1 == 'f' and k0 == 'i' and isc(v):
        x = Fraction(struct.unpack('<f', struct.pack('<I', v))[0])
        return x
    return UNDEF


def _extract(c, ro, sz, kind):
    s, k, v = c
    if v is UNDEF:
        return UNDEF
    if k == 'd':
        b = bits_of(v)
        if b is None:
            return Blob([(0, sz, 'i', UNDEF)], sz) if kind == 'i' else UNDEF
        v = b
    elif isinstance(v, Bits):
        b = bits_of(v.v)
        if b is None:
            return UNDEF
        v = b
    elif k == 'p' or isinstance(v, Ptr):
        return UNDEF
    elif isinstance(v, Blob):
        for r, ss, kk, x in v.parts:
            if r == ro and ss == sz:
                return conv(kk, x, kind, sz)
        return UNDEF
    r = E.vtrunc(E.vbin('lshr', s * 8, v, ro * 8), s * 8, sz * 8)
    return conv('i', r, kind, sz)


def tointval(v):
    return v


def known_bytes(a, n):
    """the bytes of an integer some of which may be undefined (None)"""
    if isinstance(a, Blob):
        out = [None] * n
        for r, s, k, x in a.parts:
            if k == 'i' and x is not UNDEF and not isinstance(x, (Ptr, Bits, Blob)):
                for i in range(s):
                    out[r + i] = x >> 8 * i & 255 if isc(x) else E.vtrunc(E.vbin('lshr', 8 * s, x, 8 * i), 8 * s, 8) if s > 1 else x
        return out
    if isc(a):
        return [a >> 8 * i & 255 for i in range(n)]
    return [E.vtrunc(E.vbin('lshr', 8 * n, a, 8 * i), 8 * n, 8) if n > 1 else a for i in range(n)]


def bytewise(op, w, a, b):
    if isinstance(a, (Ptr, Bits)) or isinstance(b, (Ptr, Bits)):
        return UNDEF
    n = w // 8
    out = []
    for x, y in zip(known_bytes(a, n), known_bytes(b, n)):
        if x is None or y is None:
            z = x if y is None else y
            out.append(0 if op == 'and' and z is not None and isc(z) and z == 0 else None)
        else:
            out.append(E.vbin(op, 8, x, y))
    if all(x is None for x in out):
        return UNDEF
    if None in out:
        return Blob([(i, 1, 'i', x) for i, x in enumerate(out) if x is not None], n)
    v = 0
    for i, x in enumerate(out):
        e = E.vbin('shl', w, E.vzext(x, 8, w) if w > 8 else x, 8 * i)
        v = e if isc(v) and v == 0 else E.vbin('or', w, v, e)
    return v


def ibin(op, w, a, b):
    ta, tb = type(a), type(b)
    if a is UNDEF or b is UNDEF:
        if op == 'and' and (a == 0 or b == 0):
            return 0
        if op == 'and' and w % 8 == 0 and w <= 64 and (ta is int or tb is int):
            return bytewise(op, w, Blob([], w // 8) if a is UNDEF else a, Blob([], w // 8) if b is UNDEF else b)
        return UNDEF
    if ta is Ptr or tb is Ptr:
        if op == 'sub' and ta is Ptr and tb is Ptr:
            if a.o == b.o:
                return E.vbin('sub', 64, a.off & M64 if isc(a.off) else a.off, b.off & M64 if isc(b.off) else b.off)
            return UNDEF
        if op == 'add':
            if tb is Ptr:
                a, b = b, a
            if isc(b):
                return Ptr(a.o, addoff(a.off, E._s(b, 64)))
            return Ptr(a.o, E.vbin('add', 64, a.off & M64 if isc(a.off) else a.off, b))
        if op == 'sub' and ta is Ptr:
            if isc(b):
                return Ptr(a.o, addoff(a.off, -E._s(b, 64)))
            return Ptr(a.o, E.vbin('sub', 64, a.off & M64 if isc(a.off) else a.off, b))
        if op == 'and':
            if tb is Ptr:
                a, b = b, a
            if isc(b) and b < 16 and isc(a.off):
                return a.off & b
            if isc(b) and isc(a.off) and (b | 15) == M64:
                return Ptr(a.o, a.off & b)
        if op in ('or', 'xor') and isc(b) and b == 0:
            return a
        return UNDEF
    if ta is Bits or tb is Bits:
        if ta is Bits and isc(b):
            if op == 'and' and b == 0x7fffffffffffffff:
                return Bits(E.rabs(a.v))
            if op == 'xor' and b == 1 << 63:
                return Bits(E.rneg(a.v))
        x = bits_of(a.v) if ta is Bits else a
        y = bits_of(b.v) if tb is Bits else b
        if x is None or y is None:
            return UNDEF
        return E.vbin(op, w, x, y)
    if ta is Blob or tb is Blob:
        if op == 'and' and ta is Blob and isc(b):
            # the bytes selected by the mask, when all of them are known
            need = {k for k in range(a.size) if b >> (8 * k) & 255}
            v = 0
            for r, s, k, x in a.parts:
                if need & set(range(r, r + s)):
                    if k != 'i' or x is UNDEF or isinstance(x, (Ptr, Bits, Blob)):
                        return UNDEF
                    need -= set(range(r, r + s))
                    e = E.vbin('shl', w, E.vzext(x, s * 8, w) if s * 8 < w else x, r * 8)
                    v = e if isc(v) and v == 0 else E.vbin('or', w, v, e)
            return bytewise(op, w, a, b) if need else E.vbin('and', w, v, b)
        if op in ('and', 'or', 'xor') and w % 8 == 0:
            return bytewise(op, w, a, b)
        if ta is Blob and op == 'lshr' and isc(b):
            sh = b // 8
            parts = [(r - sh, s, k, x) for r, s, k, x in a.parts if r >= sh]
            if len(parts) == 1 and parts[0][0] == 0 and parts[0][2] == 'i' and not isinstance(parts[0][3], (Bits, Blob, Ptr)):
                return E.vzext(parts[0][3], parts[0][1] * 8, w) if parts[0][3] is not UNDEF else UNDEF
            return Blob(parts, a.size)
        return UNDEF
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        if isc(b) and b == 0:
            raise VCError('arith', 'integer division by zero')
    return E.vbin(op, w, a, b)


def icmp(pred, t, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ta, tb = type(a), type(b)
    if ta is Ptr or tb is Ptr:
        if ta is not Ptr:
            a = NULL if a == 0 else Ptr('int', a)
        if tb is not Ptr:
            b = NULL if b == 0 else Ptr('int', b)
        if a.o == b.o:
            return E.vcmp(pred, 64, a.off & M64 if isc(a.off) else a.off, b.off & M64 if isc(b.off) else b.off)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        x, y = (a.o if a.o >= 0 else 10 ** 9 - a.o), (b.o if b.o >= 0 else 10 ** 9 - b.o)
        return E.vcmp(pred, 64, x, y)
    if ta is Bits or tb is Bits:
        x = bits_of(a.v) if ta is Bits else a
        y = bits_of(b.v) if tb is Bits else b
        if x is None or y is None:
            return UNDEF
        return E.vcmp(pred, t[1], x, y)
    if ta is Blob or tb is Blob:
        return UNDEF
    return E.vcmp(pred, t[1] if t[0] == 'i' else 64, a, b)


BUILTIN = {}
