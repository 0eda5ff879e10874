"""Parser for LLVM 18 textual IR (the subset clang emits for the drivers).

Function bodies are parsed lazily, on first execution.
"""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<ws>[ \t\n]+)
 | (?P<cstr>c"[^"]*")
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<loc>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<meta>![a-zA-Z_.0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<flt>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<num>[-+]?[0-9]+)
 | (?P<str>"[^"]*")
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[=,(){}\[\]<>*|:^])
''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        r = m(s, i)
        if not r:
            if s[i] == ';':
                j = s.find('\n', i)
                i = n if j < 0 else j
                continue
            raise Unsupported("token %r" % s[i:i + 40])
        k = r.lastgroup
        if k != 'ws':
            out.append((k, r.group()))
        i = r.end()
    return out


VOID = ('void',)
DBL = ('d',)
FLT = ('f',)
PTR = ('p',)
FP80 = ('x',)
LABEL = ('label',)
META = ('meta',)


def I(w):
    return ('i', w)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (type, init tokens or None, is_const)
        self.funcs = {}       # name -> Function
        self.decls = set()
        self.aliases = {}
        self._size = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                self.types[name] = rest
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Function(self, l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@([-a-zA-Z$._0-9]+|"[^"]*")\(', l)
                self.decls.add(m.group(1))
            i += 1

    def _global(self, l):
        m = re.match(r'@([-a-zA-Z$._0-9]+|"[^"]*") = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        if re.match(r'(?:[a-z_]+(?:\([a-z]*\))? )*alias ', rest):
            t = [x for x in tokenize(rest) if x[0] == 'glob']
            self.aliases[name] = t[-1][1][1:]
            return
        m = re.match(r'((?:[a-z_]+(?:\([a-z0-9]*\))? |addrspace\(\d+\) )*?)(global|constant) (.*)$', rest)
        if not m:
            raise Unsupported('global ' + l[:80])
        ext = 'external' in m.group(1) or 'extern_weak' in m.group(1)
        self.globals[name] = [m.group(3), ext, m.group(2) == 'constant', None, 'thread_local' in m.group(1)]

    # ---- types
    def named(self, name):
        t = self.types[name]
        if isinstance(t, str):
            if t == 'opaque':
                t = ('s', (), False)
            else:
                p = P(self, tokenize(t))
                t = p.type()
            self.types[name] = t
        return t

    def size(self, t):
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self._sz(t)
        return r

    def _sz(self, t):
        """-> (alloc size, align)"""
        k = t[0]
        if k == 'i':
            w = t[1]
            b = 1
            while b * 8 < w:
                b *= 2
            return (b, min(b, 16))
        if k == 'd':
            return (8, 8)
        if k == 'f':
            return (4, 4)
        if k == 'p':
            return (8, 8)
        if k == 'x':
            return (16, 16)
        if k == 'n':
            return self.size(self.named(t[1]))
        if k == 'a':
            s, a = self.size(t[2])
            return (s * t[1], a)
        if k == 'v':
            s, a = self.size(t[2])
            return (s * t[1], s * t[1])
        if k == 's':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        raise Unsupported('size of %r' % (t,))

    def field(self, t, i):
        """struct field -> (offset, type)"""
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IndexError

    def resolve(self, t):
        while t[0] == 'n':
            t = self.named(t[1])
        return t


class P:
    """token stream parser"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def pv(self):
        return self.t[self.i][1] if self.i < len(self.t) else ''

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported('expected %s at %r' % (v, self.t[self.i:self.i + 8]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.pv() == 'addrspace':
                    self.next(); self.skip_paren()
            elif v == 'double':
                t = DBL
            elif v == 'float':
                t = FLT
            elif v == 'void':
                t = VOID
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'x86_fp80':
                t = FP80
            elif v == 'opaque':
                t = ('s', (), False)
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'token':
                t = ('token',)
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = ('n', v)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('a', n, e)
        elif v == '{':
            t = ('s', tuple(self.tlist('}')), False)
        elif v == '<':
            if self.pv() == '{':
                self.next()
                t = ('s', tuple(self.tlist('}')), True)
                self.exp('>')
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('v', n, e)
        else:
            raise Unsupported('type tok %r' % v)
        while self.pv() == '(':   # function type
            self.next()
            args = self.tlist(')')
            t = ('fn', t, tuple(args))
        while self.pv() == '*':
            self.next()
            t = PTR
        return t

    def tlist(self, end):
        r = []
        if self.acc(end):
            return r
        while True:
            if self.acc('...'):
                self.exp(end)
                return r
            r.append(self.type())
            if self.acc(end):
                return r
            self.exp(',')

    def skip_paren(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def skip_attrs(self):
        """parameter / return attributes"""
        while True:
            k, v = self.peek()
            if k == 'attr' or k == 'str':
                self.next()
                if self.pv() == '=':
                    self.next(); self.next()
                continue
            if k == 'word' and v in ATTRS:
                self.next()
                if v == 'align' and self.peek()[0] == 'num':
                    self.next()
                if self.pv() == '(':
                    self.skip_paren()
                continue
            return

    # ---- constants / operands : returns ('r', name) or ('c', pyconst-description)
    def operand(self, t):
        k, v = self.next()
        if k == 'loc':
            return ('r', v)
        if k == 'glob':
            return ('g', v[1:])
        if k == 'num':
            if t[0] in ('d', 'f'):
                return ('k', Fraction(int(v)))
            return ('k', int(v) & ((1 << t[1]) - 1))
        if k == 'flt':
            return ('k', _flt(float(v)))
        if k == 'hex':
            if v[2] in 'KMLHR':
                if v[2] == 'K':
                    return ('k', _fp80(v[3:]))
                raise Unsupported(v)
            return ('k', _flt(struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]))
        if k == 'cstr':
            return ('str', _cstr(v[2:-1]))
        if k == 'word':
            if v == 'null':
                return ('null',)
            if v == 'true':
                return ('k', 1)
            if v == 'false':
                return ('k', 0)
            if v in ('undef', 'poison'):
                return ('undef', t)
            if v == 'zeroinitializer':
                return ('zero', t)
            if v == 'none':
                return ('undef', t)
            if v == 'getelementptr':
                inr = self.acc('inbounds')
                self.exp('(')
                bt = self.type()
                self.exp(',')
                pt = self.type()
                base = self.operand(pt)
                idx = []
                while self.acc(','):
                    if self.acc('inrange'):
                        pass
                    it = self.type()
                    idx.append((it, self.operand(it)))
                self.exp(')')
                return ('gep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                ft = self.type()
                o = self.operand(ft)
                self.exp('to')
                tt = self.type()
                self.exp(')')
                return ('cast', v, ft, o, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                while self.pv() in ('nuw', 'nsw'):
                    self.next()
                self.exp('(')
                ft = self.type(); a = self.operand(ft)
                self.exp(',')
                self.type(); b = self.operand(ft)
                self.exp(')')
                return ('bin', v, ft, a, b)
            if v == 'icmp':
                pr = self.next()[1]
                self.exp('(')
                ft = self.type(); a = self.operand(ft)
                self.exp(',')
                self.type(); b = self.operand(ft)
                self.exp(')')
                return ('icmp', pr, ft, a, b)
            if v == 'select':
                self.exp('(')
                ct = self.type(); c = self.operand(ct); self.exp(',')
                at = self.type(); a = self.operand(at); self.exp(',')
                bt = self.type(); b = self.operand(bt); self.exp(')')
                return ('select', c, a, b)
            if v == 'dso_local_equivalent':
                return self.operand(t)
            if v == 'no_cfi':
                return self.operand(t)
            if v == 'asm':
                while self.peek()[0] == 'word':
                    self.next()
                self.next(); self.exp(','); self.next()
                return ('asm',)
            if v == 'splat':
                self.exp('(')
                et = self.type(); o = self.operand(et); self.exp(')')
                return ('agg', [o] * t[1])
        if v in '[{<':
            if v == '<' and self.pv() == '{':
                self.next()
                r = self._elist('}')
                self.exp('>')
                return ('agg', r)
            return ('agg', self._elist({'[': ']', '{': '}', '<': '>'}[v]))
        raise Unsupported('operand %r %r' % (k, v))

    def _elist(self, end):
        r = []
        if self.acc(end):
            return r
        while True:
            t = self.type()
            r.append(self.operand(t))
            if self.acc(end):
                return r
            self.exp(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.operand(t)


ATTRS = set('''zeroext signext inreg byval sret align noalias nocapture nonnull noundef readonly readnone writeonly
returned dereferenceable dereferenceable_or_null immarg nofree nest swiftself inalloca preallocated allocalign allocptr
byref elementtype noreturn nounwind dead_on_unwind writable range nofpclass inrange memory captures initializes swifterror'''.split())


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def _flt(x):
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return Fraction(x)


def _fp80(h):
    v = int(h, 16)
    sign = v >> 79
    e = (v >> 64) & 0x7fff
    m = v & ((1 << 64) - 1)
    if e == 0 and m == 0:
        return Fraction(0)
    r = Fraction(m) * Fraction(2) ** (e - 16383 - 63)
    return -r if sign else r


class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'idx')


class Function:
    def __init__(self, mod, head, lines):
        self.mod = mod
        self.head = head
        self.lines = lines
        m = re.search(r'@([-a-zA-Z$._0-9]+|"[^"]*")\(', head)
        self.name = m.group(1)
        self._hp = m.end() - 1
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        p = P(self.mod, tokenize(self.head[self._hp:]))
        p.exp('(')
        self.params = []
        self.ptypes = []
        n = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    p.exp(')')
                    break
                t = p.type()
                p.skip_attrs()
                if p.peek()[0] == 'loc':
                    nm = p.next()[1]
                else:
                    nm = '%%%d' % n
                n += 1
                self.params.append(nm)
                self.ptypes.append(t)
                if p.acc(')'):
                    break
                p.exp(',')
        # blocks
        blocks = []
        cur = None
        anon = len(self.params)
        first = True
        buf = []
        # join continued lines
        joined = []
        for l in self.lines:
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if l.startswith('          ') or s.startswith(('cleanup', 'catch ', 'filter ')) or s == ']' or s.startswith(('i8 ', 'i16 ', 'i32 ', 'i64 ', 'i1 ', 'i128 ')) and 'label' in s:
                joined[-1] += ' ' + s
            else:
                joined.append(l)
        for l in joined:
            if l[0] not in ' \t':
                nm = re.match(r'([-a-zA-Z$._0-9]+|"[^"]*"):', l)
                cur = ['%' + nm.group(1), []]
                blocks.append(cur)
                continue
            if cur is None:
                cur = ['%%%d' % len(self.params), []]
                blocks.append(cur)
            cur[1].append(l)
        self.rawblocks = blocks
        return self


LINKSKIP = {'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
CCONV = {'ccc', 'fastcc', 'coldcc', 'cxx_fast_tlscc', 'preserve_mostcc', 'preserve_allcc'}
