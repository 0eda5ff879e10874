"""Hash-consed expression DAG (exact reals, bit-vectors, booleans) and its decision procedures.

Reals stand for C++ doubles; machine rounding, NaN and overflow are not modelled (stated in the evidence).
"""
import random
import math
from fractions import Fraction

_tab = {}
_cnt = [0]


class Node:
    __slots__ = ('op', 'a', 'id', 'w', '_z')

    def __repr__(self):
        return show(self, 4)

    # operator overloading is for specifications (real sort)
    def __add__(s, o): return radd(s, _lift(o))
    def __radd__(s, o): return radd(_lift(o), s)
    def __sub__(s, o): return rsub(s, _lift(o))
    def __rsub__(s, o): return rsub(_lift(o), s)
    def __mul__(s, o): return rmul(s, _lift(o))
    def __rmul__(s, o): return rmul(_lift(o), s)
    def __truediv__(s, o): return rdiv(s, _lift(o))
    def __rtruediv__(s, o): return rdiv(_lift(o), s)
    def __neg__(s): return rneg(s)
    def __pow__(s, n):
        r = 1
        for _ in range(n):
            r = rmul(r, s)
        return r


def reset():
    _tab.clear()
    _cnt[0] = 0
    _civ_memo.clear()


def _lift(o):
    if isinstance(o, float):
        return Fraction(o)
    return o


def mk(op, a, w='r'):
    k = (op, w) + a
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.a = a
        n.w = w
        n.id = _cnt[0]
        n._z = None
        _cnt[0] += 1
        _tab[k] = n
    return n


def var(name, w='r'):
    return mk('var', (name,), w)


INF = mk('inf', ())
NAN = mk('nan', ())


def _reset_consts():
    global INF, NAN
    INF = mk('inf', ())
    NAN = mk('nan', ())


def isc(x):
    return not isinstance(x, Node)


def _f(x):
    # normalise integral fractions to int (faster arithmetic)
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


# ---------------------------------------------------------------- reals
def radd(x, y):
    if isc(x):
        if isc(y):
            return x + y
        if x == 0:
            return y
    elif isc(y):
        if y == 0:
            return x
    if x is INF or y is INF:
        return INF
    if x is NAN or y is NAN:
        return NAN
    if not isc(x) and not isc(y):
        if x.id > y.id:
            x, y = y, x
    elif not isc(x):
        x, y = y, x
    return mk('+', (x, y))


def rsub(x, y):
    if isc(y):
        if isc(x):
            return x - y
        if y == 0:
            return x
    if x is y:
        return 0
    if isc(x) and x == 0:
        return rneg(y)
    return mk('-', (x, y))


def rneg(x):
    if isc(x):
        return -x
    if x.op == 'neg':
        return x.a[0]
    return mk('neg', (x,))


def rmul(x, y):
    if isc(x):
        if isc(y):
            return _f(x * y)
        if x == 0:
            return 0
        if x == 1:
            return y
        if x == -1:
            return rneg(y)
    elif isc(y):
        if y == 0:
            return 0
        if y == 1:
            return x
        if y == -1:
            return rneg(x)
    if x is NAN or y is NAN:
        return NAN
    if not isc(x) and not isc(y):
        if x.id > y.id:
            x, y = y, x
    elif not isc(x):
        x, y = y, x
    return mk('*', (x, y))


def rdiv(x, y):
    if isc(y):
        if y == 0:
            if isc(x) and x == 0:
                return NAN
            return mk('/', (x, 0))
        if isc(x):
            return _f(Fraction(x) / Fraction(y))
        if y == 1:
            return x
        return rmul(Fraction(1) / Fraction(y), x)
    if isc(x) and x == 0:
        return 0
    if y is INF:
        return 0
    return mk('/', (x, y))


def _exact_sqrt(x):
    x = Fraction(x)
    if x < 0:
        return None
    a = math.isqrt(x.numerator)
    b = math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return _f(Fraction(a, b))
    return None


def rsqrt(x):
    if isc(x):
        r = _exact_sqrt(x)
        if r is not None:
            return r
    return mk('sqrt', (x,))


def rabs(x):
    if isc(x):
        return abs(x)
    if x.op == 'abs' or x.op == 'sqrt':
        return x
    if x.op == 'neg':
        return rabs(x.a[0])
    return mk('abs', (x,))


def rmin(x, y):
    return rite(rlt(y, x), y, x)


def rmax(x, y):
    return rite(rlt(x, y), y, x)


def rfn(name, *args):
    if name == 'pow' and len(args) == 2 and isc(args[1]):
        e = Fraction(args[1])
        if e.denominator == 1 and abs(e) <= 16:
            r = 1
            for _ in range(abs(int(e))):
                r = rmul(r, args[0])
            return r if e >= 0 else rdiv(1, r)
        if e.denominator == 2 and abs(e) <= 8:
            s = rsqrt(args[0])
            r = 1
            for _ in range(abs(e.numerator)):
                r = rmul(r, s)
            return r if e >= 0 else rdiv(1, r)
    if name in ('floor', 'ceil', 'trunc', 'round', 'rint') and isc(args[0]):
        x = Fraction(args[0])
        if name == 'floor':
            return math.floor(x)
        if name == 'ceil':
            return math.ceil(x)
        if name == 'trunc':
            return math.trunc(x)
        if name == 'rint':
            return round(x)
        return math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))
    if name in ('floor', 'ceil', 'trunc') and not isc(args[0]):
        from mpmath import iv, mp
        p, iv.prec = iv.prec, 300
        try:
            v = _civ(args[0])
            if v is not None and mp.isfinite(v.a) and mp.isfinite(v.b):
                f = {'floor': mp.floor, 'ceil': mp.ceil, 'trunc': lambda y: mp.floor(y) if y >= 0 else mp.ceil(y)}[name]
                q, mp.prec = mp.prec, 320
                try:
                    lo, hi = int(f(mp.mpf(v.a))), int(f(mp.mpf(v.b)))
                finally:
                    mp.prec = q
                if lo == hi:
                    return lo
        finally:
            iv.prec = p
    if name == 'exp' and args[0] == 0:
        return 1
    if name == 'log' and isc(args[0]) and args[0] == 1:
        return 0
    if name in ('sin', 'atan', 'asin', 'tan', 'sinh', 'tanh') and isc(args[0]) and args[0] == 0:
        return 0
    if name in ('cos', 'cosh') and isc(args[0]) and args[0] == 0:
        return 1
    return mk('fn:' + name, tuple(args))


def rite(c, x, y):
    if isc(c):
        return x if c else y
    if x is y or (isc(x) and isc(y) and x == y):
        return x
    if c.op == 'not':
        return mk('ite', (c.a[0], y, x))
    return mk('ite', (c, x, y))


# ---------------------------------------------------------------- comparisons
# expressions without variables (square roots of numbers): enclosed by intervals of high precision, which decide strict comparisons
_civ_memo = {}


def _civ(x, depth=0):
    from mpmath import iv
    if not isinstance(x, Node):
        x = Fraction(x)
        return iv.mpf(x.numerator) / iv.mpf(x.denominator)
    k = x.id
    if k in _civ_memo:
        return _civ_memo[k]
    r = None
    if x.op in ('+', '-', '*', '/', 'neg', 'sqrt', 'abs', 'fn:exp', 'fn:log', 'fn:pow', 'fn:sin', 'fn:cos') and depth < 100:
        a = []
        for y in x.a:
            v = _civ(y, depth + 1)
            if v is None:
                break
            a.append(v)
        else:
            if x.op == '+':
                r = a[0] + a[1]
            elif x.op == '-':
                r = a[0] - a[1]
            elif x.op == '*':
                r = a[0] * a[1]
            elif x.op == '/':
                r = a[0] / a[1] if not (a[1].a <= 0 <= a[1].b) else None
            elif x.op == 'neg':
                r = -a[0]
            elif x.op == 'sqrt':
                r = iv.sqrt(a[0]) if a[0].a >= 0 else None
            elif x.op == 'fn:exp':
                r = iv.exp(a[0])
            elif x.op == 'fn:log':
                r = iv.log(a[0]) if a[0].a > 0 else None
            elif x.op == 'fn:pow':
                r = iv.exp(a[1] * iv.log(a[0])) if a[0].a > 0 else None
            elif x.op == 'fn:sin':
                r = iv.sin(a[0])
            elif x.op == 'fn:cos':
                r = iv.cos(a[0])
            else:
                r = abs(a[0])
    _civ_memo[k] = r
    return r


def _closed_order(x, y):
    """-1 / 1 if x < y / x > y, None if not decided"""
    from mpmath import iv
    p, iv.prec = iv.prec, 300
    try:
        a = _civ(x)
        b = _civ(y) if a is not None else None
    finally:
        iv.prec = p
    if a is None or b is None:
        return None
    return -1 if a.b < b.a else 1 if a.a > b.b else None


def rlt(x, y):
    if isc(x) and isc(y):
        return int(x < y)
    if x is y:
        return 0
    if x is NAN or y is NAN:
        return 0
    if y is INF:
        return 1
    if x is INF:
        return 0
    if y is not INF and not isc(y) and y.op == 'neg' and y.a[0] is INF:
        return 0
    if not isc(x) and x.op == 'neg' and x.a[0] is INF:
        return 1
    d = _closed_order(x, y)
    if d is not None:
        return int(d < 0)
    return mk('lt', (x, y), 1)


def rle(x, y):
    if x is y:
        return 1
    if x is NAN or y is NAN:
        return 0
    r = rlt(y, x)
    return 1 - r if isc(r) else bnot(r)


def req(x, y):
    if isc(x) and isc(y):
        return int(x == y)
    if x is y:
        return int(x is not NAN)
    if x is INF or y is INF or x is NAN or y is NAN:
        return 0
    if not isc(x) and not isc(y):
        if x.id > y.id:
            x, y = y, x
    elif not isc(y):
        x, y = y, x
    if _closed_order(x, y):
        return 0
    return mk('eq', (x, y), 1)


# ---------------------------------------------------------------- booleans (width-1 nodes)
def bnot(c):
    if isc(c):
        return 1 - c
    if c.op == 'not':
        return c.a[0]
    return mk('not', (c,), 1)


def band(a, b):
    if isc(a):
        return b if a else 0
    if isc(b):
        return a if b else 0
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), 1)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if isc(a):
        return bnot(b) if a else b
    if isc(b):
        return bnot(a) if b else a
    if a is b:
        return 0
    return mk('xor', (a, b), 1)


def bite(c, a, b):
    if isc(c):
        return a if c else b
    return bor(band(c, a), band(bnot(c), b))


# ---------------------------------------------------------------- bit-vectors
def _s(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def vbin(op, w, x, y):
    """op in add sub mul udiv sdiv urem srem shl lshr ashr and or xor"""
    M = (1 << w) - 1
    if w == 1:
        if op in ('and', 'mul'):
            return band(x, y)
        if op == 'or':
            return bor(x, y)
        if op in ('xor', 'add', 'sub'):
            return bxor(x, y)
    if isc(x) and isc(y):
        if op == 'add':
            return (x + y) & M
        if op == 'sub':
            return (x - y) & M
        if op == 'mul':
            return (x * y) & M
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return (x << y) & M if y < w else 0
        if op == 'lshr':
            return x >> y if y < w else 0
        if op == 'ashr':
            return (_s(x, w) >> min(y, w - 1)) & M
        if op == 'udiv':
            return x // y
        if op == 'urem':
            return x % y
        a, b = _s(x, w), _s(y, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        if op == 'sdiv':
            return q & M
        return (a - q * b) & M
    if op == 'add':
        if isc(x):
            x, y = y, x
        if isc(y):
            if y == 0:
                return x
            if x.op == 'b:add' and isc(x.a[1]):
                return vbin('add', w, x.a[0], (x.a[1] + y) & M)
        elif x.id > y.id:
            x, y = y, x
    elif op == 'sub':
        if isc(y):
            return vbin('add', w, x, (-y) & M)
        if x is y:
            return 0
        if not isc(x) and x.op == 'b:add' and isc(x.a[1]) and x.a[0] is y:
            return x.a[1]
    elif op == 'mul':
        if isc(x):
            x, y = y, x
        if isc(y):
            if y == 0:
                return 0
            if y == 1:
                return x
            if x.op == 'b:add' and isc(x.a[1]):
                return vbin('add', w, vbin('mul', w, x.a[0], y), (x.a[1] * y) & M)
        elif x.id > y.id:
            x, y = y, x
    elif op == 'shl':
        if isc(y):
            return vbin('mul', w, x, (1 << y) & M)
    elif op in ('udiv', 'sdiv'):
        if isc(y) and y == 1:
            return x
    elif op == 'and':
        if isc(x):
            x, y = y, x
        if isc(y):
            if y == 0:
                return 0
            if y == M:
                return x
        if x is y:
            return x
    elif op in ('or', 'xor', 'lshr', 'ashr'):
        if isc(x) and op in ('or', 'xor'):
            x, y = y, x
        if isc(y) and y == 0:
            return x
    return mk('b:' + op, (x, y), w)


def vcmp(pred, w, x, y):
    if w == 1 and pred in ('eq', 'ne'):
        r = bxor(x, y)
        return bnot(r) if pred == 'eq' else r
    if isc(x) and isc(y):
        a, b = (_s(x, w), _s(y, w)) if pred[0] == 's' else (x, y)
        if pred == 'eq':
            return int(x == y)
        if pred == 'ne':
            return int(x != y)
        p = pred[1:]
        return int(a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b)
    if pred == 'ne':
        return bnot(vcmp('eq', w, x, y))
    if pred == 'eq':
        if x is y:
            return 1
        if isc(x):
            x, y = y, x
        # (x + c1) == c2
        if isc(y) and x.op == 'b:add' and isc(x.a[1]):
            return vcmp('eq', w, x.a[0], (y - x.a[1]) & ((1 << w) - 1))
        if isc(y) and x.op == 'vite' and isc(x.a[1]) and isc(x.a[2]):
            return bite(x.a[0], int(x.a[1] == y), int(x.a[2] == y))
        if not isc(y) and x.id > y.id:
            x, y = y, x
        return mk('veq', (x, y), 1)
    if x is y:
        return int(pred[1:] in ('ge', 'le'))
    if pred[1:] == 'gt':
        return vcmp(pred[0] + 'lt', w, y, x)
    if pred[1:] == 'ge':
        return bnot(vcmp(pred[0] + 'lt', w, x, y))
    if pred[1:] == 'le':
        return bnot(vcmp(pred[0] + 'lt', w, y, x))
    return mk('v' + pred, (x, y), 1)


def vite(c, x, y, w):
    if isc(c):
        return x if c else y
    if w == 1:
        return bite(c, x, y)
    if x is y or (isc(x) and isc(y) and x == y):
        return x
    return mk('vite', (c, x, y), w)


def vzext(x, w0, w1):
    if isc(x):
        return x
    return mk('zext', (x, w0), w1)


def vsext(x, w0, w1):
    if isc(x):
        return _s(x, w0) & ((1 << w1) - 1)
    return mk('sext', (x, w0), w1)


def vtrunc(x, w0, w1):
    if isc(x):
        return x & ((1 << w1) - 1)
    if x.op in ('zext', 'sext'):
        if x.a[1] == w1:
            return x.a[0]
        if x.a[1] < w1:
            return mk(x.op, x.a, w1)
    if x.op in ('b:add', 'b:mul') and w1 > 1:
        return vbin(x.op[2:], w1, vtrunc(x.a[0], w0, w1), vtrunc(x.a[1], w0, w1))
    if w1 == 1:
        return vcmp('eq', w0, vbin('and', w0, x, 1), 1)
    return mk('trunc', (x, w0), w1)


def v2r(x, w, signed):
    if isc(x):
        return _s(x, w) if signed else x
    if w == 1:
        return rite(x, -1 if signed else 1, 0)
    if x.op == 'r2v' and signed:
        return rfn('trunc', x.a[0])
    if x.op == 'zext' and x.a[1] == 1:
        return rite(x.a[0], 1, 0)
    if x.op == 'zext':
        return mk('u2r', (x.a[0], x.a[1]))
    if x.op == 'sext' and signed:
        return mk('s2r', (x.a[0], x.a[1]))
    return mk('s2r' if signed else 'u2r', (x, w))


def r2v(x, w):
    if isc(x):
        return math.trunc(x) & ((1 << w) - 1)
    if x.op in ('s2r', 'u2r') and x.a[1] == w:
        return x.a[0]
    return mk('r2v', (x,), w)


def show(n, d=6):
    if isc(n):
        return str(n)
    if n.op == 'var':
        return n.a[0]
    if d == 0:
        return '#%d' % n.id
    return '(%s %s)' % (n.op, ' '.join(show(x, d - 1) for x in n.a))


# ---------------------------------------------------------------- traversal
def topo(roots):
    """nodes reachable from roots, children first (ids are already topologically ordered)"""
    seen = set()
    out = []
    st = [r for r in roots if isinstance(r, Node)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        out.append(n)
        for x in n.a:
            if isinstance(x, Node) and x.id not in seen:
                st.append(x)
    out.sort(key=lambda n: n.id)
    return out


def subst(roots, m):
    """replace var nodes by m[name]"""
    memo = {}
    for n in topo(roots):
        if n.op == 'var':
            memo[n.id] = m.get(n.a[0], n)
            continue
        a = tuple(memo[x.id] if isinstance(x, Node) else x for x in n.a)
        if a == n.a:
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, a)
    return [memo[r.id] if isinstance(r, Node) else r for r in roots]


def rebuild(n, a):
    o = n.op
    if o == '+': return radd(*a)
    if o == '-': return rsub(*a)
    if o == '*': return rmul(*a)
    if o == '/': return rdiv(*a)
    if o == 'neg': return rneg(*a)
    if o == 'sqrt': return rsqrt(*a)
    if o == 'abs': return rabs(*a)
    if o == 'ite': return rite(*a)
    if o == 'lt': return rlt(*a)
    if o == 'eq': return req(*a)
    if o == 'not': return bnot(*a)
    if o == 'and': return band(*a)
    if o == 'xor': return bxor(*a)
    if o[:2] == 'b:': return vbin(o[2:], n.w, *a)
    if o[:3] == 'fn:': return rfn(o[3:], *a)
    if o == 'vite': return vite(a[0], a[1], a[2], n.w)
    if o in ('veq', 'vult', 'vslt'):
        w = max([x.w for x in n.a if isinstance(x, Node)])
        return vcmp(o[1:], w, *a)
    if o == 'zext': return vzext(a[0], a[1], n.w)
    if o == 'sext': return vsext(a[0], a[1], n.w)
    if o == 'trunc': return vtrunc(a[0], a[1], n.w)
    if o == 's2r': return v2r(a[0], a[1], True)
    if o == 'u2r': return v2r(a[0], a[1], False)
    if o == 'r2v': return r2v(a[0], n.w)
    return mk(o, a, n.w)


# ---------------------------------------------------------------- float evaluation
class Undef(Exception):
    pass


def feval(roots, env):
    """evaluate over Python floats/ints; env: var name -> value"""
    val = {}

    def g(x):
        return val[x.id] if isinstance(x, Node) else x
    for n in topo(roots):
        o = n.op
        a = n.a
        try:
            if o == 'var':
                v = env[a[0]]
            elif o == '+':
                v = float(g(a[0])) + float(g(a[1]))
            elif o == '-':
                v = float(g(a[0])) - float(g(a[1]))
            elif o == '*':
                v = float(g(a[0])) * float(g(a[1]))
            elif o == '/':
                d = float(g(a[1]))
                x = float(g(a[0]))
                v = x / d if d else (float('nan') if x == 0 or x != x else math.copysign(float('inf'), x) * math.copysign(1, d))
            elif o == 'neg':
                v = -g(a[0])
            elif o == 'sqrt':
                x = float(g(a[0]))
                v = math.sqrt(x) if x >= 0 else float('nan')
            elif o == 'abs':
                v = abs(g(a[0]))
            elif o == 'ite' or o == 'vite':
                v = g(a[1]) if g(a[0]) else g(a[2])
            elif o == 'lt':
                v = int(float(g(a[0])) < float(g(a[1])))
            elif o == 'eq':
                v = int(float(g(a[0])) == float(g(a[1])))
            elif o == 'not':
                v = 1 - g(a[0])
            elif o == 'and':
                v = g(a[0]) & g(a[1])
            elif o == 'xor':
                v = g(a[0]) ^ g(a[1])
            elif o[:2] == 'b:':
                v = vbin(o[2:], n.w, g(a[0]), g(a[1]))
            elif o in ('veq', 'vult', 'vslt'):
                w = max([x.w for x in a if isinstance(x, Node)])
                v = vcmp(o[1:], w, g(a[0]), g(a[1]))
            elif o == 'zext':
                v = g(a[0])
            elif o == 'sext':
                v = vsext(g(a[0]), a[1], n.w)
            elif o == 'trunc':
                v = g(a[0]) & ((1 << n.w) - 1)
            elif o == 's2r':
                v = float(_s(g(a[0]), a[1]))
            elif o == 'u2r':
                v = float(g(a[0]))
            elif o == 'r2v':
                v = math.trunc(g(a[0])) & ((1 << n.w) - 1)
            elif o == 'inf':
                v = float('inf')
            elif o == 'nan':
                v = float('nan')
            elif o[:3] == 'fn:':
                v = _ffn(o[3:], [float(g(x)) for x in a])
            else:
                raise Undef(o)
        except (OverflowError, ValueError):
            v = float('nan')
        val[n.id] = v
    return [val[r.id] if isinstance(r, Node) else r for r in roots]


def _ffn(f, a):
    if f == 'pow':
        try:
            r = math.pow(a[0], a[1])
        except (ValueError, ZeroDivisionError):
            r = float('nan')
        return r
    if f == 'floor': return float(math.floor(a[0]))
    if f == 'ceil': return float(math.ceil(a[0]))
    if f == 'trunc': return float(math.trunc(a[0]))
    if f == 'rint': return float(round(a[0]))
    if f == 'round':
        return float(math.floor(a[0] + .5) if a[0] >= 0 else -math.floor(-a[0] + .5))
    if f == 'fmod': return math.fmod(*a)
    if hasattr(math, f):
        return float(getattr(math, f)(*a))
    raise Undef(f)


# ---------------------------------------------------------------- identity testing over GF(p)
PR = (1 << 61) - 1


class Retry(Exception):
    pass


class NeedSign(Exception):
    def __init__(self, key):
        self.key = key


def gf_sqrt(v):
    """p = 3 mod 4"""
    r = pow(v, (PR + 1) // 4, PR)
    return r if r * r % PR == v else None


class GF:
    """Evaluate nodes at a random point of GF(2^61-1)  (Schwartz-Zippel).

    mode 'u': sqrt/abs/ite/transcendental applications are uninterpreted functions of their (evaluated) arguments.
    mode 's': sqrt is a genuine square root; abs/ite/min/max are resolved by the sign table `signs`
              (sign of a real term, keyed by its value up to negation); raising NeedSign on an undecided sign.
    """

    def __init__(self, seed, mode='u', signs=None, bools=None, sq=False):
        self.rng = random.Random(seed)
        self.seed = seed
        self.mode = mode
        self.sq = sq
        self.signs = signs if signs is not None else {}
        self.bools = bools if bools is not None else {}
        self.val = {}
        self.atoms = {}
        self.mins = {}

    def extremum(self, c, x, y):
        """min/max are associative, commutative and idempotent: evaluate them as functions of their set of leaves"""
        flip = False
        if c[0] == 'not':
            c = c[1]
            flip = True
        if c[0] != 'lt':
            return None
        d = (x - y) % PR
        if d == c[1]:
            mn = not flip
        elif d == PR - c[1]:
            mn = flip
        else:
            return None
        if not mn:
            x, y = PR - x, PR - y       # max(x, y) = -min(-x, -y)
        leaves = self.mins.get(x % PR, frozenset((x % PR,))) | self.mins.get(y % PR, frozenset((y % PR,)))
        v = self.rnd(('min',) + tuple(sorted(leaves)))
        self.mins[v] = leaves
        return v if mn else (PR - v) % PR

    def rnd(self, key):
        r = random.Random(repr((self.seed, key)))
        return r.randrange(1, PR)

    def const(self, x):
        if isinstance(x, int):
            return x % PR
        return x.numerator % PR * pow(x.denominator, -1, PR) % PR

    def sign(self, v):
        """sign of the real term with GF value v"""
        if v == 0:
            return 0
        k, s = (v, 1) if v <= PR - v else (PR - v, -1)
        if k in self.signs:
            return self.signs[k] * s
        raise NeedSign(k)

    def evalall(self, roots):
        val = self.val

        def g(x):
            return val[x.id] if isinstance(x, Node) else self.const(x)
        for n in topo(roots):
            if n.id in val:
                continue
            o = n.op
            a = n.a
            if n.w == 1:
                v = self.cond(n, o, a, g)
            elif o == 'var':
                v = self.rnd(('var', a[0]))
            elif o == '+':
                v = (g(a[0]) + g(a[1])) % PR
            elif o == '-':
                v = (g(a[0]) - g(a[1])) % PR
            elif o == '*':
                v = g(a[0]) * g(a[1]) % PR
            elif o == '/':
                d = g(a[1])
                if d == 0:
                    v = self.rnd(('div0', g(a[0])))
                else:
                    v = g(a[0]) * pow(d, -1, PR) % PR
            elif o == 'neg':
                v = -g(a[0]) % PR
            elif o == 'sqrt':
                x = g(a[0])
                if self.sq and x:
                    v = self.atoms.get(('sqrt', x))
                    if v is None:
                        v = gf_sqrt(x)
                        if v is None:
                            raise Retry()
                        self.atoms[('sqrt', x)] = v
                else:
                    v = self.rnd(('sqrt', x)) if x else 0
            elif o == 'abs':
                x = g(a[0])
                if self.mode == 's':
                    v = x * self.sign(x) % PR
                else:
                    v = self.rnd(('abs', min(x, PR - x))) if x else 0
            elif o == 'ite':
                c = val[a[0].id]
                x, y = g(a[1]), g(a[2])
                if x == y:
                    v = x
                elif isinstance(c, int):
                    v = x if c else y
                else:
                    if c[0] == 'not':
                        c = c[1]
                        x, y = y, x
                    v = self.extremum(c, x, y)
                    if v is None:
                        v = self.rnd(('ite', c, x, y))
            elif o == 's2r' or o == 'u2r':
                v = self.rnd((o, g(a[0]) if isinstance(a[0], Node) else a[0]))
            elif n.w == 'r':
                v = self.rnd((o,) + tuple(g(x) for x in a))
            else:
                # bit-vector term: uninterpreted, congruent
                v = self.rnd((o, n.w) + tuple(val[x.id] if isinstance(x, Node) else ('c', x) for x in a))
            val[n.id] = v
        return [g(r) for r in roots]

    def cond(self, n, o, a, g):
        """truth value 0/1, or an uninterpreted key in mode 'u'"""
        val = self.val
        if n.id in self.bools:
            return self.bools[n.id]
        if o == 'not':
            c = val[a[0].id]
            if isinstance(c, int):
                return 1 - c
            return c[1] if c[0] == 'not' else ('not', c)
        if o == 'lt':
            d = (g(a[0]) - g(a[1])) % PR
            if self.mode == 's':
                return int(self.sign(d) < 0)
            if d == 0:
                return 0
            k, s = (d, 1) if d <= PR - d else (PR - d, -1)
            if k in self.signs:
                return int(self.signs[k] * s < 0)
            # d<0  vs  not(d<0): generic points only, so -d<0 == not d<0
            return ('lt', k) if s > 0 else ('not', ('lt', k))
        if o == 'eq':
            d = (g(a[0]) - g(a[1])) % PR
            return int(d == 0)
        if o == 'and':
            x = val[a[0].id] if isinstance(a[0], Node) else a[0]
            y = val[a[1].id] if isinstance(a[1], Node) else a[1]
            if isinstance(x, int):
                return y if x else 0
            if isinstance(y, int):
                return x if y else 0
            return ('and', x, y)
        if o == 'xor':
            x, y = val[a[0].id], val[a[1].id]
            if isinstance(x, int) and isinstance(y, int):
                return x ^ y
            return ('xor', x, y)
        # boolean variable or bit-vector comparison
        key = (o,) + tuple(val[x.id] if isinstance(x, Node) else ('c', x) for x in a)
        if self.mode == 's':
            if key in self.bools:
                return self.bools[key]
            raise NeedSign(('b', key))
        return ('bv', key)


# ---------------------------------------------------------------- z3
_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


class Z3:
    def __init__(self):
        self.z3 = z3mod()
        self.m = {}
        self.side = []
        self.aux = 0

    def const(self, x, w):
        z3 = self.z3
        if w == 'r':
            if isinstance(x, str):
                raise Undef(x)
            return z3.RealVal(Fraction(x)) if not isinstance(x, int) else z3.RealVal(x)
        if w == 1:
            return z3.BoolVal(bool(x))
        return z3.BitVecVal(x, w)

    def tr(self, root, w=None):
        if not isinstance(root, Node):
            return self.const(root, w if w is not None else 'r')
        z3 = self.z3
        m = self.m

        def g(x, w='r'):
            return m[x.id] if isinstance(x, Node) else self.const(x, w)
        if root.id in m:
            return m[root.id]
        for n in topo([root]):
            if n.id in m:
                continue
            o, a, w = n.op, n.a, n.w
            if o == 'var':
                v = z3.Real(a[0]) if w == 'r' else z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
            elif o == '+':
                v = g(a[0]) + g(a[1])
            elif o == '-':
                v = g(a[0]) - g(a[1])
            elif o == '*':
                v = g(a[0]) * g(a[1])
            elif o == '/':
                v = g(a[0]) / g(a[1])
            elif o == 'neg':
                v = -g(a[0])
            elif o == 'sqrt':
                self.aux += 1
                v = z3.Real('sqrt!%d' % n.id)
                x = g(a[0])
                self.side += [v >= 0, z3.Implies(x >= 0, v * v == x)]
            elif o == 'abs':
                x = g(a[0])
                v = z3.If(x >= 0, x, -x)
            elif o == 'ite':
                v = z3.If(g(a[0], 1), g(a[1]), g(a[2]))
            elif o == 'lt':
                v = g(a[0]) < g(a[1])
            elif o == 'eq':
                v = g(a[0]) == g(a[1])
            elif o == 'not':
                v = z3.Not(g(a[0], 1))
            elif o == 'and':
                v = z3.And(g(a[0], 1), g(a[1], 1))
            elif o == 'xor':
                v = z3.Xor(g(a[0], 1), g(a[1], 1))
            elif o == 'vite':
                v = z3.If(g(a[0], 1), g(a[1], w), g(a[2], w))
            elif o[:2] == 'b:':
                x, y = g(a[0], w), g(a[1], w)
                p = o[2:]
                v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y),
                     'sdiv': lambda: x / y, 'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y),
                     'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[p]()
            elif o in ('veq', 'vult', 'vslt'):
                ww = max([x.w for x in a if isinstance(x, Node)])
                x, y = g(a[0], ww), g(a[1], ww)
                v = x == y if o == 'veq' else z3.ULT(x, y) if o == 'vult' else x < y
            elif o == 'zext':
                x = g(a[0], a[1])
                if a[1] == 1:
                    v = z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                else:
                    v = z3.ZeroExt(w - a[1], x)
            elif o == 'sext':
                x = g(a[0], a[1])
                if a[1] == 1:
                    v = z3.If(x, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
                else:
                    v = z3.SignExt(w - a[1], x)
            elif o == 'trunc':
                x = g(a[0], a[1])
                v = z3.Extract(w - 1, 0, x)
            elif o == 's2r':
                v = z3.ToReal(z3.BV2Int(g(a[0], a[1]), True))
            elif o == 'u2r':
                v = z3.ToReal(z3.BV2Int(g(a[0], a[1]), False))
            elif o == 'r2v':
                x = g(a[0])
                v = z3.Int2BV(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), w)
            elif o[:3] == 'fn:':
                f = o[3:]
                x = g(a[0])
                if f == 'floor':
                    v = z3.ToReal(z3.ToInt(x))
                elif f == 'ceil':
                    v = -z3.ToReal(z3.ToInt(-x))
                elif f == 'trunc':
                    v = z3.ToReal(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
                else:
                    fd = z3.Function(f, *([z3.RealSort()] * (len(a) + 1)))
                    v = fd(*[g(y) for y in a])
                    if f == 'exp':
                        self.side.append(v > 0)
            else:
                # inf/nan/unknown: arbitrary
                v = z3.Real('%s!%d' % (o, n.id)) if w == 'r' else z3.Bool('%s!%d' % (o, n.id)) if w == 1 else z3.BitVec('%s!%d' % (o, n.id), w)
            m[n.id] = v
        return m[root.id]


def z3_check(conds, timeout=10000, want_model=False):
    """satisfiability of a conjunction of width-1 nodes -> ('unsat'|'sat'|'unknown', model dict)"""
    z3 = z3mod()
    t = Z3()
    s = z3.Solver()
    s.set('timeout', timeout)
    try:
        for c in conds:
            if isc(c):
                if not c:
                    return 'unsat', None
                continue
            s.add(t.tr(c))
        for c in t.side:
            s.add(c)
    except Undef:
        return 'unknown', None
    r = str(s.check())
    mod = None
    if r == 'sat' and want_model:
        mm = s.model()
        mod = {}
        for d in mm.decls():
            if d.arity():
                continue
            v = mm[d]
            try:
                if z3.is_bv_value(v):
                    mod[d.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    mod[d.name()] = float(v.as_fraction())
                elif z3.is_algebraic_value(v):
                    mod[d.name()] = float(v.approx(20).as_fraction())
                elif z3.is_true(v) or z3.is_false(v):
                    mod[d.name()] = int(z3.is_true(v))
            except Exception:
                pass
    return r, mod
