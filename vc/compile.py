"""IR function -> list of blocks of closures."""
import re
from fractions import Fraction
from . import expr as X
from . import merge
from .expr import Node, isc, radd, rsub, rmul, rdiv, rneg, rlt, rle, req, bnot, band, rite, vite, bite
from .ir import P, tokenize, Unsupported, LINKSKIP, CCONV, ATTRS
from .exec import (Ptr, NULL, Bits, Blob, UNDEF, VCError, PathEnd, Fork, Frame, ibin, icmp, _kind, addoff, M64, conv, Obj)


class Code:
    pass


class B:
    __slots__ = ('ins', 'term', 'phis', 'name', 'succ', 'txt', 'phit')


class Ctx:
    def __init__(self, ex, f):
        self.ex = ex
        self.f = f
        self.regs = {}
        self.tmpl = []
        self.cmap = {}
        for p in f.params:
            self.reg(p)

    def reg(self, name):
        i = self.regs.get(name)
        if i is None:
            i = self.regs[name] = len(self.tmpl)
            self.tmpl.append(None)
        return i

    def op(self, t, o):
        if o[0] == 'r':
            return self.reg(o[1])
        v = self.ex.const(t, o)
        key = None
        if isinstance(v, (int, Fraction)):
            key = (t, v)
            if key in self.cmap:
                return self.cmap[key]
        i = len(self.tmpl)
        self.tmpl.append(v)
        if key is not None:
            self.cmap[key] = i
        return i


def compile_fn(ex, f):
    cx = Ctx(ex, f)
    names = {}
    for i, (nm, lines) in enumerate(f.rawblocks):
        names[nm] = i
    cx.names = names
    blocks = []
    for nm, lines in f.rawblocks:
        b = B()
        b.name = nm
        b.phis = {}
        b.ins = []
        b.txt = lines
        phis = []
        for k, l in enumerate(lines):
            p = P(ex.mod, tokenize(l))
            last = k == len(lines) - 1
            dst = None
            if p.peek()[0] == 'loc' and p.t[1][1] == '=':
                dst = p.next()[1]
                p.next()
            while p.pv() in LINKSKIP:
                p.next()
            opc = p.next()[1]
            if opc == 'phi':
                t = p.type()
                while p.pv() in LINKSKIP:
                    p.next()
                if p.t[2][0] == 'word' and False:
                    pass
                inc = []
                while True:
                    p.exp('[')
                    o = p.operand(t)
                    p.exp(',')
                    pb = p.next()[1]
                    p.exp(']')
                    inc.append((o, pb))
                    if not p.acc(','):
                        break
                    if p.peek()[0] == 'meta':
                        break
                phis.append((cx.reg(dst), t, inc))
                continue
            if last:
                b.term, b.succ = comp_term(cx, p, dst, opc)
            else:
                c = comp(cx, p, dst, opc)
                if c is not None:
                    b.ins.append(c)
        b.phit = [(d, t) for d, t, inc in phis]
        for d, t, inc in phis:
            for o, pb in inc:
                b.phis.setdefault(names[pb], []).append((d, cx.op(t, o)))
        b.name = nm
        blocks.append(b)
    code = Code()
    code.blocks = blocks
    code.nregs = len(cx.tmpl)
    code.tmpl = cx.tmpl
    code.nparams = len(f.params)
    code.names = names
    code.regs = cx.regs
    code.ptypes = f.ptypes
    code.fname = f.name
    code._loops = None
    code.phinfo = {}
    for i, (nm, lines) in enumerate(f.rawblocks):
        pass
    return code


def natural_loops(code):
    """header block index -> set of block indices"""
    if code._loops is not None:
        return code._loops
    n = len(code.blocks)
    succ = [[s for s in b.succ] for b in code.blocks]
    pred = [[] for _ in range(n)]
    for i, ss in enumerate(succ):
        for s in ss:
            pred[s].append(i)
    dom = [None] * n
    # reverse postorder
    order = []
    seen = set()

    def dfs(s):
        st = [(s, iter(succ[s]))]
        seen.add(s)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
    dfs(0)
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for u in order:
        for v in succ[u]:
            if dominates(v, u):
                body = loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in pred[x] if p in idom)
    code._loops = loops
    return loops


# ------------------------------------------------------------------ control flow
def goto(ex, st, fr, tgt):
    code = fr.code
    blk = code.blocks[tgt]
    cur = fr.bi
    ph = blk.phis.get(cur)
    if ex.symloops:
        sl = ex.symloops.get((fr.fn, tgt))
        if sl is not None:
            return sl.at_header(ex, st, fr, cur, tgt)
        lc = fr.loopctx
        if lc:
            for h in list(lc):
                if tgt not in lc[h]['body']:
                    lc[h]['spec'].at_exit(ex, st, fr, cur, tgt, h)
    if ph:
        R = fr.R
        if len(ph) == 1:
            d, s = ph[0]
            R[d] = R[s]
        else:
            vals = [R[s] for d, s in ph]
            for (d, s), v in zip(ph, vals):
                R[d] = v
    fr.prev = cur
    fr.bi = tgt
    fr.ip = 0
    return None


def branch_cond(ex, st, fr, work, c, alts):
    """alts: (then target, else target).  c symbolic"""
    d = st.decided(c)
    if d is not None:
        return goto(ex, st, fr, alts[0] if d else alts[1])
    if ex.branch_hook is not None:
        d = ex.branch_hook(ex, st, fr, c)
        if d is not None:
            return goto(ex, st, fr, alts[0] if d else alts[1])
    # symbolic loop detection
    if ex.size_vars and ex.depends_on_size(c):
        loops = natural_loops(fr.code)
        for h, body in sorted(loops.items(), key=lambda kv: len(kv[1])):
            if fr.bi in body and ((alts[0] in body) != (alts[1] in body)):
                if (fr.fn, h) not in ex.symloops:
                    ex.register_symloop(fr.fn, h, body)
                    from .exec import LoopRestart
                    raise LoopRestart()
                break
    ok1 = ok0 = True
    if ex.fork_solver and (ex.fork_real or not _has_real(c)):
        r, _ = ex.check(st.pc + [c])
        ok1 = r != 'unsat'
        if ok1:
            r, _ = ex.check(st.pc + [bnot(c)])
            ok0 = r != 'unsat'
    if ok1 and ok0:
        if ex.merge:
            r = merge.branch(ex, st, fr, c, alts, goto)
            if r is not None:
                fs = st.frames
                fs[:] = r.frames
                st.__dict__.update(r.__dict__)
                st.frames = fs
                return None
        o = st.clone()
        o.assume(c, 0)
        of = o.frames[-1]
        g = goto(ex, o, of, alts[1])
        if g is None:
            work.append(o)
        elif g[0] == 'states':
            work.extend(g[1])
        else:
            ex.late.append((o, g))
        st.assume(c, 1)
        return goto(ex, st, fr, alts[0])
    if ok1:
        st.assume(c, 1)
        return goto(ex, st, fr, alts[0])
    if ok0:
        st.assume(c, 0)
        return goto(ex, st, fr, alts[1])
    raise PathEnd('infeasible')


_hr = {}


def _has_real(c):
    r = _hr.get(c.id)
    if r is None or r[0] is not c:
        v = any(n.w == 'r' for n in X.topo([c]))
        _hr[c.id] = (c, v)
        return v
    return r[1]


def do_ret(ex, st, fr, v):
    frames = st.frames
    frames.pop()
    for i in fr.allocas:
        o = st.wobj(i)
        o.live = False
        o.cells = {}
        del st.mem[i]
        st.mem[i] = o
    if fr.inv and fr.inv[0] == 'hook':
        r = fr.inv[1](ex, st, v)
        if r is not None:
            return r
    if not frames:
        return ('ret', v)
    cf = frames[-1]
    if fr.ret is not None:
        cf.R[fr.ret] = v
    if fr.inv and fr.inv[0] == 'invoke':
        return goto(ex, st, cf, fr.inv[1])
    return None


def unwind(ex, st):
    """propagate st.exc to the nearest invoke"""
    frames = st.frames
    while True:
        if not frames:
            return ('throw', st.exc)
        fr = frames[-1]
        frames.pop()
        for i in fr.allocas:
            if i in st.mem:
                o = st.wobj(i)
                o.live = False
        if not frames:
            return ('throw', st.exc)
        if fr.inv and fr.inv[0] == 'invoke':
            return goto(ex, st, frames[-1], fr.inv[2])


def comp_term(cx, p, dst, opc):
    names = cx.names
    if opc == 'br':
        if p.acc('label'):
            t = names[p.next()[1]]

            def f(ex, st, fr, work):
                return goto(ex, st, fr, t)
            return f, [t]
        ty = p.type()
        c = cx.op(ty, p.operand(ty))
        p.exp(',')
        p.exp('label')
        a = names[p.next()[1]]
        p.exp(',')
        p.exp('label')
        b = names[p.next()[1]]

        def f(ex, st, fr, work):
            v = fr.R[c]
            if isinstance(v, int):
                return goto(ex, st, fr, a if v else b)
            if v is UNDEF:
                raise VCError('memory', 'branch on uninitialised value in %s' % fr.fn)
            return branch_cond(ex, st, fr, work, v, (a, b))
        return f, [a, b]
    if opc == 'ret':
        t = p.type()
        if t == ('void',):
            return (lambda ex, st, fr, work: do_ret(ex, st, fr, None)), []
        r = cx.op(t, p.operand(t))
        return (lambda ex, st, fr, work: do_ret(ex, st, fr, fr.R[r])), []
    if opc == 'unreachable':
        def f(ex, st, fr, work):
            raise PathEnd('unreachable in ' + fr.fn)
        return f, []
    if opc == 'switch':
        t = p.type()
        v = cx.op(t, p.operand(t))
        p.exp(',')
        p.exp('label')
        dflt = names[p.next()[1]]
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type()
            cv = p.operand(ct)[1]
            p.exp(',')
            p.exp('label')
            cases.append((cv, names[p.next()[1]]))
        w = t[1]
        table = dict(cases)

        def f(ex, st, fr, work):
            x = fr.R[v]
            if isinstance(x, int):
                return goto(ex, st, fr, table.get(x, dflt))
            if x is UNDEF:
                raise VCError('memory', 'switch on uninitialised value')
            outs = []
            neg = []
            for cv, tg in cases:
                c = X.vcmp('eq', w, x, cv)
                if isc(c):
                    if c:
                        outs = [(None, tg)]
                        neg = None
                        break
                    continue
                d = st.decided(c)
                if d == 1:
                    return goto(ex, st, fr, tg)
                neg.append(bnot(c))
                if d == 0:
                    continue
                r, _ = ex.check(st.pc + [c])
                if r != 'unsat':
                    outs.append((c, tg))
            if neg is not None:
                r, _ = ex.check(st.pc + neg)
                if r != 'unsat':
                    outs.append((neg, dflt))
            if not outs:
                raise PathEnd('infeasible')
            for c, tg in outs[1:]:
                o = st.clone()
                for y in (c if isinstance(c, list) else [c]):
                    o.assume(y)
                g = goto(ex, o, o.frames[-1], tg)
                if g is None:
                    work.append(o)
                elif g[0] == 'states':
                    work.extend(g[1])
            c, tg = outs[0]
            if c is not None:
                for y in (c if isinstance(c, list) else [c]):
                    st.assume(y)
            return goto(ex, st, fr, tg)
        return f, sorted(set([t for _, t in cases] + [dflt]))
    if opc == 'invoke':
        callee, args, rt, fn = parse_call(cx, p)
        p.exp('to')
        p.exp('label')
        norm = names[p.next()[1]]
        p.exp('unwind')
        p.exp('label')
        unw = names[p.next()[1]]
        d = cx.reg(dst) if dst else None

        def f(ex, st, fr, work):
            r = do_call(ex, st, fr, callee, args, d, ('invoke', norm, unw), fn)
            if r is None:
                return goto(ex, st, fr, norm)
            if r == 1:
                return None
            if r == 'unwind':
                return goto(ex, st, fr, unw)
            return r
        return f, [norm, unw]
    if opc == 'resume':
        t, o = p.tv()
        r = cx.op(t, o)

        def f(ex, st, fr, work):
            return unwind(ex, st)
        return f, []
    raise Unsupported('terminator ' + opc)


# ------------------------------------------------------------------ calls
def parse_call(cx, p):
    while p.pv() in CCONV or p.pv() in LINKSKIP:
        p.next()
    p.skip_attrs()
    if p.pv() == 'addrspace':
        p.next(); p.skip_paren()
    t = p.type()
    fnt = t
    if t[0] == 'fn':
        t = t[1]
    k, v = p.peek()
    if k == 'glob':
        p.next()
        callee = v[1:]
        creg = None
    elif k == 'loc':
        p.next()
        callee = None
        creg = cx.reg(v)
    elif v == 'asm':
        text = None
        while p.pv() != '(':
            k, v = p.next()
            if text is None and v and v[0] in '"':
                text = v.strip('"')
        callee = 'asm comment' if text is not None and (not text.strip() or text.strip().startswith('#') and '\\' not in text) else 'asm'
        creg = None
    else:
        o = p.operand(('p',))
        callee = None
        creg = cx.op(('p',), o)
    p.exp('(')
    args = []
    if not p.acc(')'):
        while True:
            at = p.type()
            if at == ('meta',):
                # metadata argument
                d = 0
                while True:
                    v = p.pv()
                    if v in ('(', '{', '['):
                        d += 1
                    if v in (')', '}', ']') :
                        if d == 0:
                            break
                        d -= 1
                    if v == ',' and d == 0:
                        break
                    p.next()
                args.append((at, None))
            else:
                p.skip_attrs_byval = None
                bv = _byval(p)
                o = p.operand(at)
                args.append((at if not bv else ('byval', bv), cx.op(at, o)))
            if p.acc(')'):
                break
            p.exp(',')
    while p.peek()[0] in ('attr', 'str') or (p.peek()[0] == 'word' and p.pv() in ATTRS):
        p.skip_attrs()
        if p.peek()[0] == 'attr':
            p.next()
    if p.pv() == '[':   # operand bundle
        d = 0
        while True:
            v = p.next()[1]
            if v == '[':
                d += 1
            if v == ']':
                d -= 1
                if d == 0:
                    break
    return (callee, creg), args, t, fnt


def _byval(p):
    r = None
    while True:
        k, v = p.peek()
        if k == 'word' and v == 'byval':
            p.next()
            p.exp('(')
            r = p.type()
            p.exp(')')
            continue
        if k in ('attr', 'str') or (k == 'word' and v in ATTRS):
            p.next()
            if v == 'align' and p.peek()[0] == 'num':
                p.next()
            if p.pv() == '(':
                p.skip_paren()
            continue
        return r


def do_call(ex, st, fr, callee, args, d, inv, fnt=None):
    name, creg = callee
    R = fr.R
    if name is None:
        fp = R[creg]
        if not isinstance(fp, Ptr):
            raise VCError('memory', 'indirect call through %r' % (fp,))
        name = ex.fptr.get(fp.o)
        if name is None:
            raise VCError('memory', 'indirect call through non-function pointer %r' % (fp,))
    av = [R[a] if a is not None else None for t, a in args]
    for i, (t, a) in enumerate(args):
        if t[0] == 'byval':
            sz = ex.mod.size(t[1])[0]
            cp = st.new(sz, 'byval', 'stack')
            ex.memcpy(st, cp, av[i], sz)
            av[i] = cp
            fr.allocas.append(cp.o)
    h = ex.handler(name)
    if h is not None:
        ex.cur_call = (name, args, fnt)
        v = h(ex, st, av)
        if v is CALLED:
            f2 = st.frames[-1]
            return 1
        if type(v) is tuple and len(v) == 3 and v[0] == 'call':
            ex.push(st, v[1], v[2], d, inv)
            return 1
        if v is THROW:
            if inv is not None:
                return 'unwind'
            r = unwind(ex, st)
            return 1 if r is None else r
        if d is not None:
            R[d] = v
        return None
    while name in ex.mod.aliases:
        name = ex.mod.aliases[name]
    if name in ex.mod.funcs:
        ex.push(st, name, av, d, inv)
        return 1
    raise Unsupported('call to external function ' + name)


CALLED = object()
THROW = object()


def comp(cx, p, dst, opc):
    d = cx.reg(dst) if dst else None
    ex = cx.ex
    m = ex.mod
    if opc in ('fadd', 'fsub', 'fmul', 'fdiv'):
        while p.pv() in LINKSKIP:
            p.next()
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        b = cx.op(t, p.operand(t))
        fn = {'fadd': radd, 'fsub': rsub, 'fmul': rmul, 'fdiv': rdiv}[opc]
        if t[0] == 'v':
            def f(st, R):
                x, y = R[a], R[b]
                R[d] = [UNDEF if i is UNDEF or j is UNDEF else fn(i, j) for i, j in zip(x, y)]
            return f

        def f(st, R):
            try:
                R[d] = fn(R[a], R[b])
            except TypeError:
                if R[a] is UNDEF or R[b] is UNDEF:
                    R[d] = UNDEF
                else:
                    raise
        return f
    if opc == 'fneg':
        while p.pv() in LINKSKIP:
            p.next()
        t = p.type()
        a = cx.op(t, p.operand(t))

        def f(st, R):
            x = R[a]
            R[d] = UNDEF if x is UNDEF else [rneg(y) for y in x] if isinstance(x, list) else rneg(x)
        return f
    if opc == 'load':
        while p.pv() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        p.exp(',')
        pt = p.type()
        a = cx.op(pt, p.operand(pt))
        t = m.resolve(t)
        if t[0] in ('v', 'a', 's'):
            def f(st, R):
                R[d] = load_agg(ex, st, R[a], t)
            return f
        sz = m.size(t)[0]
        k = _kind(t)
        if t == ('i', 1):
            def f(st, R):
                v = ex.load(st, R[a], 1, 'i')
                R[d] = UNDEF if v is UNDEF else E_trunc1(v)
            return f

        def f(st, R):
            pp = R[a]
            # fast path
            if type(pp) is Ptr:
                o = st.mem.get(pp.o)
                if o is not None and o.live and type(pp.off) is int:
                    c = o.cells.get(pp.off)
                    if c is not None and c[0] == sz and c[1] == k and (o.size is None or pp.off + sz <= o.size):
                        R[d] = c[2]
                        return
            R[d] = ex.load(st, pp, sz, k)
        return f
    if opc == 'store':
        while p.pv() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        v = cx.op(t, p.operand(t))
        p.exp(',')
        pt = p.type()
        a = cx.op(pt, p.operand(pt))
        t = m.resolve(t)
        if t[0] in ('v', 'a', 's'):
            def f(st, R):
                store_agg(ex, st, R[a], t, R[v])
            return f
        sz = m.size(t)[0]
        k = _kind(t)
        if t == ('i', 1):
            def f(st, R):
                x = R[v]
                ex.store(st, R[a], 1, 'i', x if x is UNDEF else X.vzext(x, 1, 8))
            return f

        def f(st, R):
            ex.store(st, R[a], sz, k, R[v])
        return f
    if opc == 'getelementptr':
        while p.pv() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.exp(',')
        pt = p.type()
        base = cx.op(pt, p.operand(pt))
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            it = p.type()
            idx.append((it, cx.op(it, p.operand(it))))
        # constant folding of the offset
        const = 0
        var = []
        t = bt
        for j, (it, r) in enumerate(idx):
            if j == 0:
                s = m.size(t)[0]
            else:
                t = m.resolve(t)
                if t[0] == 's':
                    fo, t = m.field(t, cx.tmpl[r])
                    const += fo
                    continue
                t = t[2]
                s = m.size(t)[0]
            c = cx.tmpl[r]
            if isinstance(c, int):
                const += X._s(c, it[1]) * s
            else:
                var.append((r, it[1], s))
        if not var:
            def f(st, R):
                b = R[base]
                if type(b) is not Ptr:
                    R[d] = UNDEF if b is UNDEF else bad_gep(b, const)
                    return
                R[d] = Ptr(b.o, b.off + const) if type(b.off) is int else Ptr(b.o, addoff(b.off, const))
            return f

        def f(st, R):
            b = R[base]
            if type(b) is not Ptr:
                R[d] = UNDEF if b is UNDEF else bad_gep(b, None)
                return
            off = b.off
            off = off + const if type(off) is int else addoff(off, const)
            for r, w, s in var:
                v = R[r]
                if type(v) is int:
                    if v >> (w - 1):
                        v -= 1 << w
                    off = off + v * s if type(off) is int else addoff(off, v * s)
                elif v is UNDEF:
                    R[d] = UNDEF
                    return
                else:
                    if w < 64:
                        v = X.vsext(v, w, 64)
                    off = X.vbin('add', 64, off & M64 if type(off) is int else off, X.vbin('mul', 64, v, s))
            if type(off) is int and off >> 63 == 1:
                off -= 1 << 64
            R[d] = Ptr(b.o, off)
        return f
    if opc in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        while p.pv() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        b = cx.op(t, p.operand(t))
        if t[0] == 'v':
            w = t[2][1]

            def f(st, R):
                R[d] = [ibin(opc, w, x, y) for x, y in zip(R[a], R[b])]
            return f
        w = t[1]
        M = (1 << w) - 1
        if opc == 'add':
            def f(st, R):
                x, y = R[a], R[b]
                if type(x) is int and type(y) is int:
                    R[d] = (x + y) & M
                else:
                    R[d] = ibin(opc, w, x, y)
            return f
        if opc == 'mul':
            def f(st, R):
                x, y = R[a], R[b]
                if type(x) is int and type(y) is int:
                    R[d] = (x * y) & M
                else:
                    R[d] = ibin(opc, w, x, y)
            return f

        def f(st, R):
            R[d] = ibin(opc, w, R[a], R[b])
        return f
    if opc == 'icmp':
        pred = p.next()[1]
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        b = cx.op(t, p.operand(t))
        if t[0] == 'v':
            def f(st, R):
                R[d] = [icmp(pred, t[2], x, y) for x, y in zip(R[a], R[b])]
            return f
        if t[0] == 'i' and pred in ('eq', 'ne'):
            eq = pred == 'eq'

            def f(st, R):
                x, y = R[a], R[b]
                if type(x) is int and type(y) is int:
                    R[d] = int((x == y) is eq)
                else:
                    R[d] = icmp(pred, t, x, y)
            return f

        def f(st, R):
            R[d] = icmp(pred, t, R[a], R[b])
        return f
    if opc == 'fcmp':
        while p.pv() in LINKSKIP:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        b = cx.op(t, p.operand(t))

        def f(st, R):
            x, y = R[a], R[b]
            if isinstance(x, list):
                R[d] = [fcmp(pred, i, j) for i, j in zip(x, y)]
            else:
                R[d] = fcmp(pred, x, y)
        return f
    if opc == 'select':
        while p.pv() in LINKSKIP:
            p.next()
        ct = p.type()
        c = cx.op(ct, p.operand(ct))
        p.exp(',')
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        t2 = p.type()
        b = cx.op(t2, p.operand(t2))

        def f(st, R):
            v = R[c]
            if type(v) is int:
                R[d] = R[a] if v else R[b]
                return
            if isinstance(v, list):
                R[d] = [select(ex, st, t[2], i, x, y) for i, x, y in zip(v, R[a], R[b])]
                return
            R[d] = select(ex, st, t, v, R[a], R[b])
        return f
    if opc in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
               'fpext', 'fptrunc', 'addrspacecast'):
        while p.pv() in ('nneg', 'nuw', 'nsw') or p.pv() in LINKSKIP:
            p.next()
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp('to')
        t2 = p.type()

        if t[0] == 'v' and t2[0] == 'v' and opc != 'bitcast':
            def f(st, R):
                R[d] = [cast(opc, t[2], t2[2], x) for x in R[a]]
            return f

        def f(st, R):
            R[d] = cast(opc, t, t2, R[a])
        return f
    if opc == 'freeze':
        t = p.type()
        a = cx.op(t, p.operand(t))

        def f(st, R):
            R[d] = R[a]
        return f
    if opc == 'alloca':
        p.acc('inalloca')
        t = p.type()
        n = None
        if p.acc(','):
            if p.pv() != 'align' and p.peek()[0] == 'word':
                nt = p.type()
                n = cx.op(nt, p.operand(nt))
        sz = m.size(t)[0]
        nm = '%s/%s' % (cx.f.name, dst)

        def f(st, R):
            k = R[n] if n is not None else 1
            pp = st.new(sz * k, nm, 'stack')
            R[d] = pp
            st.frames[-1].allocas.append(pp.o)
        return f
    if opc == 'call':
        callee, args, rt, fnt = parse_call(cx, p)
        if callee[0] in NOPS or (callee[0] or '').startswith(('llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch')):
            return None

        def f(st, R):
            return do_call(ex, st, st.frames[-1], callee, args, d, None, fnt)
        return f
    if opc == 'extractvalue':
        t = p.type()
        a = cx.op(t, p.operand(t))
        idx = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))

        def f(st, R):
            v = R[a]
            for i in idx:
                if v is UNDEF:
                    break
                v = v[i]
            R[d] = v
        return f
    if opc == 'insertvalue':
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        vt = p.type()
        b = cx.op(vt, p.operand(vt))
        idx = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))

        def f(st, R):
            R[d] = ins_agg(R[a], idx, R[b])
        return f
    if opc == 'extractelement':
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        it = p.type()
        i = cx.op(it, p.operand(it))

        def f(st, R):
            R[d] = R[a][R[i]]
        return f
    if opc == 'insertelement':
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        et = p.type()
        e = cx.op(et, p.operand(et))
        p.exp(',')
        it = p.type()
        i = cx.op(it, p.operand(it))

        def f(st, R):
            v = list(R[a])
            v[R[i]] = R[e]
            R[d] = v
        return f
    if opc == 'shufflevector':
        t = p.type()
        a = cx.op(t, p.operand(t))
        p.exp(',')
        p.type()
        b = cx.op(t, p.operand(t))
        p.exp(',')
        mt = p.type()
        mo = p.operand(mt)
        mask = ex.const(mt, mo)

        def f(st, R):
            v = list(R[a]) + list(R[b])
            R[d] = [UNDEF if i is UNDEF else v[i] for i in mask]
        return f
    if opc == 'landingpad':
        t = p.type()
        clauses = []
        while p.peek()[0] == 'word':
            w = p.next()[1]
            if w == 'cleanup':
                clauses.append(('cleanup', None))
            elif w == 'catch':
                tt, o = p.tv()
                clauses.append(('catch', ex.const(tt, o)))
            else:
                tt, o = p.tv()
                clauses.append(('filter', None))

        def f(st, R):
            R[d] = landing(ex, st, clauses)
        return f
    if opc == 'fence':
        return None
    if opc == 'atomicrmw':
        while p.pv() in ('volatile',):
            p.next()
        op = p.next()[1]
        pt = p.type()
        a = cx.op(pt, p.operand(pt))
        p.exp(',')
        t = p.type()
        b = cx.op(t, p.operand(t))
        sz = m.size(t)[0]

        def f(st, R):
            old = ex.load(st, R[a], sz, _kind(t))
            if op == 'xchg':
                new = R[b]
            elif op in ('fadd', 'fsub'):
                new = radd(old, R[b]) if op == 'fadd' else rsub(old, R[b])
            else:
                new = ibin(op, t[1], old, R[b])
            ex.store(st, R[a], sz, _kind(t), new)
            R[d] = old
        return f
    if opc == 'cmpxchg':
        while p.pv() in ('weak', 'volatile'):
            p.next()
        pt = p.type()
        a = cx.op(pt, p.operand(pt))
        p.exp(',')
        t = p.type()
        c = cx.op(t, p.operand(t))
        p.exp(',')
        p.type()
        n = cx.op(t, p.operand(t))
        sz = m.size(t)[0]

        def f(st, R):
            old = ex.load(st, R[a], sz, _kind(t))
            ok = icmp('eq', t, old if not isinstance(old, Bits) else old, R[c]) if not isinstance(R[c], Bits) else 1
            if isc(ok):
                if ok:
                    ex.store(st, R[a], sz, _kind(t), R[n])
            else:
                raise Unsupported('symbolic cmpxchg')
            R[d] = [old, ok]
        return f
    raise Unsupported('instruction ' + opc)


def bad_gep(b, c):
    if b == 0:
        return Ptr(0, c or 0)
    if isinstance(b, Blob):
        return UNDEF
    raise Unsupported('gep base %r' % (b,))


def E_trunc1(v):
    if type(v) is int:
        return v & 1
    if isinstance(v, (Bits, Blob, Ptr)):
        return UNDEF
    return X.vtrunc(v, 8, 1)


def load_agg(ex, st, pp, t):
    m = ex.mod
    t = m.resolve(t)
    if t[0] in ('v', 'a'):
        es = m.size(t[2])[0]
        return [load_agg(ex, st, Ptr(pp.o, addoff(pp.off, i * es)), t[2]) for i in range(t[1])]
    if t[0] == 's':
        r = []
        for i in range(len(t[1])):
            fo, ft = m.field(t, i)
            r.append(load_agg(ex, st, Ptr(pp.o, addoff(pp.off, fo)), ft))
        return r
    v = ex.load(st, pp, m.size(t)[0], _kind(t))
    if t == ('i', 1):
        v = UNDEF if v is UNDEF else E_trunc1(v)
    return v


def store_agg(ex, st, pp, t, v):
    m = ex.mod
    t = m.resolve(t)
    if t[0] in ('v', 'a'):
        es = m.size(t[2])[0]
        for i in range(t[1]):
            store_agg(ex, st, Ptr(pp.o, addoff(pp.off, i * es)), t[2], UNDEF if v is UNDEF else v[i])
        return
    if t[0] == 's':
        for i in range(len(t[1])):
            fo, ft = m.field(t, i)
            store_agg(ex, st, Ptr(pp.o, addoff(pp.off, fo)), ft, UNDEF if v is UNDEF else v[i])
        return
    if t == ('i', 1) and v is not UNDEF:
        v = X.vzext(v, 1, 8)
    ex.store(st, pp, m.size(t)[0], _kind(t), v)


def ins_agg(a, idx, v):
    if len(idx) == 0:
        return v
    a = list(a) if a is not UNDEF else []
    while len(a) <= idx[0]:
        a.append(UNDEF)
    a[idx[0]] = ins_agg(a[idx[0]], idx[1:], v)
    return a


def fcmp(pred, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x is X.NAN or y is X.NAN:
        if pred == 'ord':
            return 0
        return 1 if pred[0] == 'u' else 0
    if pred == 'ord':
        return 1
    if pred == 'uno':
        return 0
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    q = pred[1:]
    if q == 'lt':
        return rlt(x, y)
    if q == 'gt':
        return rlt(y, x)
    if q == 'le':
        return rle(x, y)
    if q == 'ge':
        return rle(y, x)
    if q == 'eq':
        return req(x, y)
    if q == 'ne':
        return bnot(req(x, y))
    raise Unsupported('fcmp ' + pred)


def select(ex, st, t, c, x, y):
    if type(c) is int:
        return x if c else y
    if c is UNDEF:
        return UNDEF
    if x is y:
        return x
    dd = st.decided(c)
    if dd is not None:
        return x if dd else y
    k = t[0]
    if x is UNDEF and y is UNDEF:
        return UNDEF
    if k == 'd' and x is not UNDEF and y is not UNDEF:
        return rite(c, x, y)
    if k == 'i' and x is not UNDEF and y is not UNDEF and not isinstance(x, (Ptr, Bits, Blob)) and not isinstance(y, (Ptr, Bits, Blob)):
        return vite(c, x, y, t[1])
    if type(x) is Ptr and type(y) is Ptr and x.o == y.o:
        if x == y:
            return x
        return Ptr(x.o, vite(c, x.off & M64 if isc(x.off) else x.off, y.off & M64 if isc(y.off) else y.off, 64))
    # fork on the condition
    s = st.clone()
    st.assume(c, 1)
    s.assume(c, 0)
    raise Fork([st, s])


def cast(opc, t, t2, v):
    if v is UNDEF:
        return UNDEF
    if opc in ('ptrtoint', 'inttoptr', 'addrspacecast'):
        if opc == 'inttoptr' and not isinstance(v, Ptr):
            if isc(v) and v == 0:
                return NULL
            return Ptr('int', v)
        return v
    if opc == 'bitcast':
        if t == t2:
            return v
        if t[0] == 'd' and t2[0] == 'i':
            b = X and None
            return Bits(v)
        if t[0] == 'i' and t2[0] == 'd':
            return conv('i', v, 'd', 8)
        if t[0] == 'v' and t2[0] == 'i' and isinstance(v, list):
            # pack
            es = t[2][1] if t[2][0] == 'i' else 64
            if all(isc(x) and isinstance(x, int) for x in v) and t[2][0] == 'i':
                r = 0
                for i, x in enumerate(v):
                    r |= x << (i * es)
                return r
            return Blob([(i * es // 8, es // 8, _kind(t[2]), x) for i, x in enumerate(v)], es // 8 * len(v))
        if t[0] == 'i' and t2[0] == 'v' and t2[2][0] == 'i':
            es = t2[2][1]
            if isinstance(v, Blob):
                return UNDEF
            return [X.vtrunc(X.vbin('lshr', t[1], v, i * es), t[1], es) for i in range(t2[1])]
        if t[0] == 'v' and t2[0] == 'v' and t[1] == t2[1]:
            return [cast('bitcast', t[2], t2[2], x) for x in v]
        raise Unsupported('bitcast')
    if opc in ('trunc', 'zext', 'sext'):
        if isinstance(v, Bits):
            from .exec import bits_of
            b = bits_of(v.v)
            if b is None:
                return UNDEF
            v = b
        if isinstance(v, Blob):
            if opc == 'trunc':
                n = t2[1] // 8
                for ro, s, k, x in v.parts:
                    if ro == 0 and s == n:
                        return conv(k, x, 'i', s)
            return UNDEF
        if isinstance(v, Ptr):
            return UNDEF
        return {'trunc': X.vtrunc, 'zext': X.vzext, 'sext': X.vsext}[opc](v, t[1], t2[1])
    if opc == 'sitofp':
        return X.v2r(v, t[1], True)
    if opc == 'uitofp':
        return X.v2r(v, t[1], False)
    if opc in ('fptosi', 'fptoui'):
        return X.r2v(v, t2[1])
    if opc in ('fpext', 'fptrunc'):
        return v
    raise Unsupported(opc)


def landing(ex, st, clauses):
    exo, ti = st.exc
    for k, v in clauses:
        if k == 'catch':
            if v == NULL or catches(ex, st, ti, v):
                return [exo, ex.typeid(v)]
    return [exo, 0]


def catches(ex, st, ti, v):
    """is type-info ti equal to or derived (singly) from v"""
    seen = 0
    while seen < 20:
        if ti == v:
            return True
        nm = ex.gobjs[ti.o].name.lstrip('@') if ti.o in ex.gobjs else ''
        if ex.typeinfo_name(ti) == ex.typeinfo_name(v):
            return True
        o = ex.obj(st, ti.o)
        c = o.cells.get(16) if o is not None else None
        if c is None or not isinstance(c[2], Ptr):
            b = STD_BASES.get(ex.typeinfo_name(ti))
            if b is None:
                return False
            if b == ex.typeinfo_name(v):
                return True
            while b in STD_BASES:
                b = STD_BASES[b]
                if b == ex.typeinfo_name(v):
                    return True
            return False
        ti = c[2]
        seen += 1
    return False


STD_BASES = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
             '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
             '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception'}

NOPS = {'llvm.assume', 'llvm.stackrestore.p0', 'llvm.stacksave.p0', 'llvm.var.annotation.p0', 'llvm.va_start', 'llvm.va_end'}
