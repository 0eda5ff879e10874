"""Joining the two sides of a branch where they meet again.

At a branch on a symbolic condition both sides are executed up to the branch's immediate postdominator in the same frame, and the
states that arrive there are joined: values that differ become if-then-else terms over the conditions of the sides.  Where the
states cannot be joined (different pointers, allocations, exceptions, returns, loop contracts) the executor forks instead.
"""
from . import expr as X
from .ir import Unsupported
from .expr import isc, Node


class NoMerge(Exception):
    pass


def ipdoms(code):
    """block -> immediate postdominator inside the function (None if there is none); blocks that end without a successor other than a
    return are ignored"""
    if getattr(code, 'ipd', None) is not None:
        return code.ipd
    n = len(code.blocks)
    succ = [list(b.succ) for b in code.blocks]
    rets = [i for i in range(n) if code.blocks[i].txt[-1].strip().startswith('ret')]
    # blocks that can reach a return
    pred = [[] for _ in range(n)]
    for i in range(n):
        for j in succ[i]:
            pred[j].append(i)
    live = set(rets)
    w = list(rets)
    while w:
        x = w.pop()
        for p in pred[x]:
            if p not in live:
                live.add(p)
                w.append(p)
    full = frozenset(live)
    pd = {i: full for i in live}
    for r in rets:
        pd[r] = frozenset([r])
    ch = True
    order = sorted(live, reverse=True)
    while ch:
        ch = False
        for i in order:
            if i in rets:
                continue
            s = None
            for j in succ[i]:
                if j in live:
                    s = pd[j] if s is None else s & pd[j]
            s = (s or frozenset()) | {i}
            if s != pd[i]:
                pd[i] = s
                ch = True
    out = {}
    for i in live:
        c = pd[i] - {i}
        out[i] = None
        for d in c:
            if all(e in pd[d] for e in c):
                out[i] = d
    code.ipd = out
    return out


def _ite(c, a, b, kind, w):
    if a is b:
        return a
    if kind == 'd':
        if isinstance(a, (int,)) or isinstance(a, Node) or hasattr(a, 'numerator'):
            if isinstance(b, Node) or hasattr(b, 'numerator'):
                if isinstance(a, Node) and a.w != 'r' or isinstance(b, Node) and b.w != 'r':
                    raise NoMerge('kinds')
                return a if (isc(a) and isc(b) and a == b) else X.rite(c, a, b)
        raise NoMerge('value')
    if kind == 'i':
        if (isinstance(a, (int, Node))) and isinstance(b, (int, Node)):
            if isinstance(a, Node) and a.w == 'r' or isinstance(b, Node) and b.w == 'r':
                raise NoMerge('kinds')
            if isc(a) and isc(b) and a == b:
                return a
            return X.vite(c, a, b, w) if w > 1 else X.bite(c, a, b)
        raise NoMerge('value')
    if kind == 'v':
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [_ite(c, x, y, 'd' if (isinstance(x, Node) and x.w == 'r') else '?', 0) for x, y in zip(a, b)]
    if _same(a, b):
        return a
    raise NoMerge('value')


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, Node) or isinstance(b, Node):
        return False
    return type(a) is type(b) and a == b


def _kindof(t):
    if t[0] == 'd':
        return 'd', 0
    if t[0] == 'i':
        return 'i', t[1]
    return 'x', 0


def join(base, ss, phis, dropped):
    """join the states ss (each with guard) onto one"""
    n0 = len(base.pc)
    guards = []
    for s in ss:
        g = 1
        for c in s.pc[n0:]:
            g = X.band(g, c)
        guards.append(g)
    a = ss[-1]
    A = a.frames[-1]
    for s, g in zip(ss[-2::-1], guards[-2::-1]):
        # the value is s's where g holds, a's otherwise
        if s.exc is not a.exc or len(s.frames) != len(a.frames):
            raise NoMerge('frames')
        if s.meta.keys() != a.meta.keys() or any(not _same(s.meta[k], a.meta[k]) for k in s.meta):
            raise NoMerge('meta')
        for f, h in zip(s.frames, a.frames):
            if f.fn != h.fn or f.loopctx != h.loopctx and f.loopctx and h.loopctx and f.loopctx.keys() != h.loopctx.keys():
                raise NoMerge('frames')
            if f.allocas != h.allocas:
                raise NoMerge('allocas')
        if bool(s.frames[-1].loopctx) != bool(A.loopctx):
            raise NoMerge('loops')
        S = s.frames[-1]
        for d, t in phis:
            x, y = S.R[d], A.R[d]
            if not _same(x, y):
                k, w = _kindof(t)
                A.R[d] = _ite(g, x, y, k, w)
        for i in set(s.mem) | set(a.mem):
            o, p = s.mem.get(i), a.mem.get(i)
            if o is p:
                continue
            if i not in base.mem:
                if (o is None or not o.live) and (p is None or not p.live):
                    if p is None:
                        a.mem[i] = o
                    continue
                raise NoMerge('allocation')
            if o is None or p is None or o.live != p.live:
                raise NoMerge('allocation')
            if not o.live:
                continue
            if o.fill != p.fill or o.lazy is not p.lazy:
                raise NoMerge('fill')
            b = base.mem[i]
            upd = {}
            for off in set(o.cells) | set(p.cells):
                x, y = o.cells.get(off), p.cells.get(off)
                if x is y:
                    continue
                if x is None or y is None:
                    # written on one side only: an unwritten cell of an uninitialised object stays undefined
                    if o.fill is None and o.lazy is None and o.kind in ('stack', 'heap'):
                        upd[off] = None
                        continue
                    if o.lazy is not None and (x or y)[1] == 'd':
                        z = x or y
                        v = o.lazy(off, z[0], z[1])
                        v = v if not isinstance(v, tuple) else v[2]
                        x = x or (z[0], z[1], v)
                        y = y or (z[0], z[1], v)
                    elif o.fill == 0:
                        z = x or y
                        if z[1] == 'p':
                            raise NoMerge('pointer')
                        x = x or (z[0], z[1], 0)
                        y = y or (z[0], z[1], 0)
                    else:
                        raise NoMerge('cell')
                if x[0] != y[0] or x[1] != y[1]:
                    raise NoMerge('cell kinds')
                if _same(x[2], y[2]):
                    continue
                upd[off] = (x[0], x[1], _ite(g, x[2], y[2], x[1], x[0] * 8))
            if upd:
                q = a.wobj(i)
                for off, v in upd.items():
                    if v is None:
                        q.cells.pop(off, None)
                    else:
                        q.cells[off] = v
        a.next = max(a.next, s.next)
        if s.wlog is not None:
            a.wlog = list(a.wlog or ()) + s.wlog[len(base.wlog or ()):]
    # path condition: the base's, and that one of the guards holds
    a.pc = list(base.pc)
    a.pcset = dict(base.pcset)
    if dropped:
        allg = 0
        for g in guards:
            allg = X.bor(allg, g)
        if not a.assume(allg):
            raise NoMerge('infeasible')
    return a


def run_until(ex, work, depth, tgt, limit=256):
    """run the states in work until each is about to execute block tgt in the frame at depth"""
    from .exec import Fork, PathEnd
    out = []
    dropped = False
    while work:
        st = work.pop()
        try:
            while True:
                try:
                    while True:
                        frames = st.frames
                        if len(frames) < depth:
                            raise NoMerge('left the frame')
                        fr = frames[-1]
                        if len(frames) == depth and fr.bi == tgt and fr.ip == 0:
                            out.append(st)
                            if len(out) > limit:
                                raise NoMerge('too many')
                            st = None
                            break
                        blk = fr.code.blocks[fr.bi]
                        ins = blk.ins
                        n = len(ins)
                        R = fr.R
                        ip = fr.ip
                        ex.steps += n - ip
                        if ex.steps > ex.max_steps:
                            raise NoMerge('steps')
                        while ip < n:
                            r = ins[ip](st, R)
                            ip += 1
                            if r is not None:
                                fr.ip = ip
                                if type(r) is tuple:
                                    raise NoMerge('outcome')
                                break
                        else:
                            fr.ip = n
                            nl = len(ex.late)
                            o = blk.term(ex, st, fr, work)
                            if o is not None or len(ex.late) != nl:
                                raise NoMerge('outcome')
                except Fork as f:
                    fr.ip = ip
                    for s in f.states[1:]:
                        s.frames[-1].ip = ip
                        work.append(s)
                    continue
                break
        except PathEnd as e:
            if e.why != 'infeasible' and not e.why.startswith('unreachable'):
                raise NoMerge('end')
            dropped = True
    return out, dropped


def branch(ex, st, fr, c, alts, goto):
    """try to join the two sides of a branch in place; True if st now stands at the join"""
    j = ipdoms(fr.code).get(fr.bi)
    if j is None or (fr.fn, j) in ex.symloops:
        return None
    from .exec import VCError, Budget
    depth = len(st.frames)
    work = []
    steps = ex.steps
    try:
        for v in (1, 0):
            s = st.clone()
            if not s.assume(c, v):
                continue
            g = goto(ex, s, s.frames[-1], alts[0] if v else alts[1])
            if g is not None:
                return None
            work.append(s)
        base = st.clone()
        ss, dropped = run_until(ex, work, depth, j)
        if not ss:
            return None
        if len(ss) == 1:
            return ss[0]
        r = join(base, ss, fr.code.blocks[j].phit, dropped)
        ex.joins += 1
        return r
    except (NoMerge, VCError, Unsupported) as e:
        if ex.merge_log is not None:
            ex.merge_log.append((fr.fn, fr.bi, repr(e)))
        return None
