"""contracts (trusted) of C/C++ runtime functions and LLVM intrinsics"""
import math
from fractions import Fraction
from . import expr as X
from .expr import isc
from .exec import BUILTIN, Ptr, NULL, UNDEF, VCError, PathEnd, Bits, Blob, M64, Fork, addoff, snap
from .compile import THROW, CALLED
from .ir import Unsupported


def reg(*names):
    def d(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return d


def real1(fn):
    def h(ex, st, a):
        if isinstance(a[0], list):
            return [UNDEF if x is UNDEF else fn(x) for x in a[0]]
        return UNDEF if a[0] is UNDEF else fn(a[0])
    return h


def real2(fn):
    def h(ex, st, a):
        if a[0] is UNDEF or a[1] is UNDEF:
            return UNDEF
        return fn(a[0], a[1])
    return h


for n in ('llvm.sqrt', 'sqrt', '__sqrt_finite'):
    BUILTIN[n] = real1(X.rsqrt)
for n in ('llvm.fabs', 'fabs'):
    BUILTIN[n] = real1(X.rabs)
for f in ('exp', 'log', 'sin', 'cos', 'tan', 'floor', 'ceil', 'trunc', 'round', 'rint', 'log2', 'exp2'):
    BUILTIN['llvm.' + f] = BUILTIN[f] = real1(lambda x, f=f: X.rfn(f, x))
BUILTIN['llvm.log10'] = BUILTIN['log10'] = real1(lambda x: X.rdiv(X.rfn('log', x), snap(Fraction(math.log(10)))))
BUILTIN['llvm.nearbyint'] = BUILTIN['nearbyint'] = real1(lambda x: X.rfn('rint', x))
for f in ('asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'cbrt', 'erf', 'tgamma', 'lgamma', 'log1p', 'expm1'):
    BUILTIN[f] = real1(lambda x, f=f: X.rfn(f, x))
for n in ('llvm.pow', 'pow'):
    BUILTIN[n] = real2(lambda x, y: X.rfn('pow', x, y))
for n in ('fmod', 'atan2', 'hypot'):
    BUILTIN[n] = real2(lambda x, y, n=n: X.rfn(n, x, y))
for n in ('llvm.maxnum', 'fmax', 'llvm.maximum'):
    BUILTIN[n] = real2(X.rmax)
for n in ('llvm.minnum', 'fmin', 'llvm.minimum'):
    BUILTIN[n] = real2(X.rmin)


@reg('ldexp', 'llvm.ldexp')
def ldexp(ex, st, a):
    if not isc(a[1]):
        raise Unsupported('ldexp with a symbolic exponent')
    n = X._s(a[1], 32)
    return UNDEF if a[0] is UNDEF else X.rmul(a[0], 2 ** n if n >= 0 else Fraction(1, 2 ** -n))


@reg('asm comment')
def asm_comment(ex, st, a):
    if a:
        raise Unsupported('inline assembly with operands')
    return None


@reg('llvm.powi')
def powi(ex, st, a):
    n = X._s(a[1], 32)
    r = 1
    for _ in range(abs(n)):
        r = X.rmul(r, a[0])
    return r if n >= 0 else X.rdiv(1, r)


@reg('llvm.fmuladd', 'llvm.fma', 'fma')
def fmuladd(ex, st, a):
    if any(x is UNDEF for x in a[:3]):
        return UNDEF
    if isinstance(a[0], list):
        return [UNDEF if UNDEF in (x, y, z) else X.radd(X.rmul(x, y), z) for x, y, z in zip(*a[:3])]
    return X.radd(X.rmul(a[0], a[1]), a[2])


@reg('llvm.copysign', 'copysign')
def copysign(ex, st, a):
    m = X.rabs(a[0])
    if isc(a[1]):
        return m if a[1] >= 0 else X.rneg(m)
    return X.rite(X.rlt(a[1], 0), X.rneg(m), m)


def _w(ex):
    t = ex.cur_call[1][0][0]
    return t[1] if t[0] == 'i' else 64


def minmax(pred):
    def h(ex, st, a):
        if a[0] is UNDEF or a[1] is UNDEF:
            return UNDEF
        w = _w(ex)
        return X.vite(X.vcmp(pred, w, a[0], a[1]), a[0], a[1], w)
    return h


BUILTIN['llvm.smax'] = minmax('sgt')
BUILTIN['llvm.smin'] = minmax('slt')
BUILTIN['llvm.umax'] = minmax('ugt')
BUILTIN['llvm.umin'] = minmax('ult')


@reg('llvm.abs')
def iabs(ex, st, a):
    w = _w(ex)
    return X.vite(X.vcmp('slt', w, a[0], 0), X.vbin('sub', w, 0, a[0]), a[0], w)


def ovf(op, signed):
    def h(ex, st, a):
        w = _w(ex)
        x, y = a[0], a[1]
        if x is UNDEF or y is UNDEF:
            return [UNDEF, UNDEF]
        r = X.vbin(op, w, x, y)
        if isc(x) and isc(y):
            if signed:
                sx, sy = X._s(x, w), X._s(y, w)
                t = sx + sy if op == 'add' else sx - sy if op == 'sub' else sx * sy
                return [r, int(not -(1 << (w - 1)) <= t < (1 << (w - 1)))]
            t = x + y if op == 'add' else x - y if op == 'sub' else x * y
            return [r, int(not 0 <= t < (1 << w))]
        W = 2 * w
        ext = X.vsext if signed else X.vzext
        t = X.vbin(op, W, ext(x, w, W), ext(y, w, W))
        return [r, X.bnot(X.vcmp('eq', W, ext(r, w, W), t))]
    return h


for op in ('add', 'sub', 'mul'):
    BUILTIN['llvm.u%s.with.overflow' % op] = ovf(op, False)
    BUILTIN['llvm.s%s.with.overflow' % op] = ovf(op, True)


@reg('llvm.usub.sat')
def usubsat(ex, st, a):
    w = _w(ex)
    return X.vite(X.vcmp('ult', w, a[0], a[1]), 0, X.vbin('sub', w, a[0], a[1]), w)


@reg('llvm.ctlz')
def ctlz(ex, st, a):
    w = _w(ex)
    if isc(a[0]):
        return w - a[0].bit_length()
    r = w
    for i in range(w):
        r = X.vite(X.vcmp('uge', w, a[0], 1 << i), w - 1 - i, r, w)
    return r


@reg('llvm.cttz')
def cttz(ex, st, a):
    w = _w(ex)
    if isc(a[0]):
        return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    raise Unsupported('cttz')


@reg('llvm.ctpop')
def ctpop(ex, st, a):
    if isc(a[0]):
        return bin(a[0]).count('1')
    raise Unsupported('ctpop')


@reg('llvm.fshl')
def fshl(ex, st, a):
    w = _w(ex)
    s = a[2] % w
    if s == 0:
        return a[0]
    return X.vbin('or', w, X.vbin('shl', w, a[0], s), X.vbin('lshr', w, a[1], w - s))


@reg('llvm.is.constant')
def isconst(ex, st, a):
    return 0


@reg('llvm.objectsize')
def objsize(ex, st, a):
    return M64


@reg('llvm.expect')
def expect(ex, st, a):
    return a[0]


@reg('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual')
def trap(ex, st, a):
    raise PathEnd('abort')


@reg('llvm.invariant.start')
def _(ex, st, a):
    return NULL


@reg('llvm.lifetime.start')
def lstart(ex, st, a):
    p = a[1]
    o = st.wobj(p.o)
    o.cells = {}
    o.live = True


@reg('llvm.lifetime.end')
def lend(ex, st, a):
    p = a[1]
    o = st.wobj(p.o)
    o.cells = {}
    o.live = False


@reg('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def memcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


@reg('llvm.memset', 'memset')
def memset(ex, st, a):
    ex.memset(st, a[0], a[1] & 255 if isc(a[1]) else a[1], a[2])
    return a[0]


@reg('llvm.eh.typeid.for')
def tyid(ex, st, a):
    return ex.typeid(a[0])


@reg('llvm.threadlocal.address')
def tla(ex, st, a):
    return a[0]


@reg('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def malloc(ex, st, a):
    n = a[0]
    if not isc(n):
        n = ex.concretize(st, n, 64)
    if n >= 1 << 40:
        raise VCError('memory', 'allocation of %d bytes' % n)
    return st.new(n, 'heap%d' % st.next, 'heap')


@reg('calloc')
def calloc(ex, st, a):
    return st.new(a[0] * a[1], 'heap%d' % st.next, 'heap', fill=0)


@reg('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def free(ex, st, a):
    p = a[0]
    if p == NULL or p == 0:
        return
    if not isinstance(p, Ptr) or p.o not in st.mem:
        raise VCError('memory', 'free of invalid pointer')
    o = st.mem[p.o]
    if o.kind != 'heap' or not isc(p.off) or p.off != 0:
        raise VCError('memory', 'free of non-heap pointer into ' + o.name)
    if not o.live:
        raise VCError('memory', 'double free of ' + o.name)
    o = st.wobj(p.o)
    o.live = False
    o.cells = {}


@reg('realloc')
def realloc(ex, st, a):
    p = st.new(a[1], 'heap%d' % st.next, 'heap')
    if a[0] != NULL:
        n = min(st.mem[a[0].o].size, a[1])
        ex.memcpy(st, p, a[0], n)
        free(ex, st, a)
    return p


def byte(ex, st, p, i):
    return ex.load(st, Ptr(p.o, addoff(p.off, i)), 1, 'i')


@reg('memcmp', 'bcmp')
def memcmp(ex, st, a):
    n = a[2] if isc(a[2]) else ex.concretize(st, a[2], 64)
    for i in range(n):
        x, y = byte(ex, st, a[0], i), byte(ex, st, a[1], i)
        if not isc(x) or not isc(y):
            raise Unsupported('symbolic memcmp')
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
    return 0


@reg('strlen')
def strlen(ex, st, a):
    i = 0
    while True:
        b = byte(ex, st, a[0], i)
        if not isc(b) or b is UNDEF:
            raise Unsupported('symbolic strlen')
        if b == 0:
            return i
        i += 1


@reg('strcmp')
def strcmp(ex, st, a):
    i = 0
    while True:
        x, y = byte(ex, st, a[0], i), byte(ex, st, a[1], i)
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
        if x == 0:
            return 0
        i += 1


@reg('memchr')
def memchr(ex, st, a):
    for i in range(a[2]):
        x = byte(ex, st, a[0], i)
        if x == (a[1] & 255):
            return Ptr(a[0].o, addoff(a[0].off, i))
    return NULL


@reg('_ZNSt6chrono3_V212steady_clock3nowEv')
@reg('_ZNSt6chrono3_V212system_clock3nowEv')
def now(ex, st, a):
    return 0     # the time of day is not modelled


# ---- C++ runtime
@reg('__cxa_allocate_exception')
def cxa_alloc(ex, st, a):
    return st.new(a[0], 'exception', 'heap')


@reg('__cxa_free_exception')
def cxa_free(ex, st, a):
    return None


@reg('__cxa_throw')
def cxa_throw(ex, st, a):
    st.exc = (a[0], a[1])
    return THROW


@reg('__cxa_rethrow')
def cxa_rethrow(ex, st, a):
    return THROW


@reg('__cxa_begin_catch')
def cxa_begin(ex, st, a):
    return a[0]


@reg('__cxa_end_catch', '__cxa_atexit', 'atexit', '__cxa_guard_release', '__cxa_guard_abort', 'mtx_lock')
def nop0(ex, st, a):
    return 0


@reg('__cxa_guard_acquire')
def guard(ex, st, a):
    v = ex.load(st, a[0], 1, 'i')
    if v == 0:
        ex.store(st, a[0], 1, 'i', 1)
        return 1
    return 0


@reg('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '_ZNSt6localeC1Ev', '_ZNSt6localeD1Ev')
def nop(ex, st, a):
    return None


def thrower(ti):
    def h(ex, st, a):
        st.exc = (st.new(64, 'exception', 'heap'), ex.gaddr(ti))
        return THROW
    return h


for n, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
              ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'), ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
              ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
              ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'), ('_ZSt27__throw_bad_optional_accessv', '_ZTISt19bad_optional_access')):
    BUILTIN[n] = thrower(ti)


def exc_ctor(ex, st, a):
    # std::runtime_error etc. constructors: the message is not modelled
    return None


for n in ('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
          '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev',
          '_ZNSt13runtime_errorC2EOS_', '_ZNSt13runtime_errorC1EOS_', '_ZNSt13runtime_errorC2ERKS_', '_ZNSt13runtime_errorC1ERKS_',
          '_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD2Ev', '_ZNSt14overflow_errorC1EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt12out_of_rangeC1EPKc',
          '_ZNSt16invalid_argumentC1EPKc'):
    BUILTIN[n] = exc_ctor


# ---- OpenMP
@reg('omp_get_level', 'omp_get_thread_num')
def omp0(ex, st, a):
    return 0


@reg('omp_get_max_threads', 'omp_get_num_threads')
def omp1(ex, st, a):
    return 1


@reg('__kmpc_global_thread_num')
def gtn(ex, st, a):
    return 0


@reg('omp_init_lock', 'omp_destroy_lock', 'omp_set_lock', 'omp_unset_lock', '__kmpc_for_static_fini', '__kmpc_end_reduce_nowait', '__kmpc_end_reduce',
     '__kmpc_barrier', '__kmpc_critical', '__kmpc_end_critical', '__kmpc_push_num_threads')
def ompnop(ex, st, a):
    return None


@reg('__kmpc_fork_call')
def fork_call(ex, st, a):
    fn = ex.fptr[a[2].o]
    t = st.new(4, 'gtid', 'stack')
    ex.store(st, t, 4, 'i', 0)
    st.meta['omp_depth'] = st.meta.get('omp_depth', 0) + 1
    return ('call', fn, [t, t] + a[3:])


def _static_init(sz):
    def h(ex, st, a):
        # (loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk)
        if ex.omp_static is not None:
            return ex.omp_static(ex, st, a, sz)
        ex.store(st, a[3], 4, 'i', 1)
        return None      # a single thread gets the whole iteration space
    return h


BUILTIN['__kmpc_for_static_init_4'] = BUILTIN['__kmpc_for_static_init_4u'] = _static_init(4)
BUILTIN['__kmpc_for_static_init_8'] = BUILTIN['__kmpc_for_static_init_8u'] = _static_init(8)


@reg('__kmpc_reduce_nowait', '__kmpc_reduce')
def kreduce(ex, st, a):
    return 1


def cstr(ex, st, p):
    s = bytearray()
    while True:
        b = byte(ex, st, p, len(s))
        if b is UNDEF or not isc(b):
            raise Unsupported('symbolic string')
        if b == 0:
            return bytes(s)
        s.append(b)


@reg('snprintf')
def snprintf(ex, st, a):
    """C's snprintf for known arguments; an unknown argument is rendered as `?` (the text of messages is not modelled)"""
    import re
    f = cstr(ex, st, a[2]).decode('latin1')
    args = list(a[3:])

    def one(m):
        flags, prec, l, k = m.group(1), m.group(2), m.group(3), m.group(4)
        if k == '%':
            return '%'
        while '*' in flags + (prec or ''):
            v = args.pop(0)
            v = X._s(v, 32) if isc(v) and v is not UNDEF else 0
            if '*' in flags:
                flags = flags.replace('*', str(v))
            else:
                prec = '.%d' % v
        v = args.pop(0)
        if k == 's':
            return ('%' + flags + (prec or '') + 's') % cstr(ex, st, v).decode('latin1')
        if v is UNDEF or not isc(v):
            return '?'
        w = 64 if 'l' in l or 'z' in l else 32
        if k in 'di':
            v = X._s(v, w)
        elif k in 'eEfgG':
            v = float(v)
        elif k == 'u':
            k = 'd'
        elif k == 'c':
            v = chr(v & 255)
        return ('%' + flags + (prec or '') + k) % v
    s = re.sub(r'%([-+ #0-9*]*)(\.[0-9*]*)?(l*|z|h*)([diucsxXeEfgG%])', one, f).encode('latin1')
    n = a[1]
    if n:
        out = s[:n - 1] + b'\0'
        for i, c in enumerate(out):
            ex.store(st, Ptr(a[0].o, addoff(a[0].off, i)), 1, 'i', c)
    return len(s)
