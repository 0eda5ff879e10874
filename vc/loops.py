"""Loop contracts for loops whose trip count is symbolic (loops over the elements / connections of a mesh).

The loop is cut at its header: header phis and everything the body writes outside iteration-owned storage are havocked,
one arbitrary iteration is executed, and the policy checks its obligations at the back edge.
"""
from . import expr as X
from .expr import isc
from .exec import PathEnd, VCError, UNDEF, Ptr
from .ir import Unsupported


class SymLoop:
    def __init__(self, ex, fn, h, body, policy):
        self.ex = ex
        self.fn = fn
        self.h = h
        self.body = body
        self.policy = policy
        self.wset = {}       # (obj, off) -> (size, kind) havoc set, grown to a fixpoint
        self.changed = False

    def at_header(self, ex, st, fr, cur, tgt):
        code = fr.code
        lc = fr.loopctx or {}
        ph = code.blocks[tgt].phis.get(cur, [])
        if cur in self.body and tgt in lc:
            # back edge: end of the arbitrary iteration
            self._collect(ex, st, lc[tgt])
            vals = {d: fr.R[s] for d, s in ph}
            self.policy.iteration_end(ex, st, self, lc[tgt], vals)
            raise PathEnd('iteration')
        # entry
        ent = [(d, fr.R[s]) for d, s in ph]
        ctx = {'body': self.body, 'spec': self, 'entry': dict(ent), 'phi': {}, 'mem': {}, 'next0': st.next, 'wlog0': st.wlog}
        for k, (d, v) in enumerate(ent):
            w = None
            if isinstance(v, Ptr):
                raise Unsupported('pointer-valued induction variable in %s' % self.fn)
            t = self._phitype(code, tgt, d)
            if t[0] == 'i':
                n = X.var('iter!%s!%d' % (self.fn[-24:], d), t[1])
                ctx['phi'][d] = n
            elif t[0] == 'd':
                n = X.var('carry!%s!%d' % (self.fn[-24:], d))
                ctx['phi'][d] = n
            else:
                raise Unsupported('loop-carried %r' % (t,))
        for (o, off), (sz, kind) in self.wset.items():
            if o in st.mem and st.mem[o].live:
                v = self.policy.havoc(ex, st, self, o, off, sz, kind)
                if v is None:
                    v = X.var('carried!%d!%d' % (o, off)) if kind == 'd' else X.var('carriedi!%d!%d' % (o, off), sz * 8)
                oo = st.wobj(o)
                if kind == 'd' and sz == 8:
                    c = oo.cells.get(off)
                    ctx['mem'][(o, off)] = (c[2] if c is not None and c[1] == 'd' and c[0] == 8 else UNDEF, v)
                ex._carve(oo, off, sz)
                oo.cells[off] = (sz, kind, v)
        for d, n in ctx['phi'].items():
            fr.R[d] = n
        if fr.loopctx is None:
            fr.loopctx = {}
        fr.loopctx[tgt] = ctx
        st.wlog = []
        self.policy.iteration_start(ex, st, self, ctx)
        fr.prev = cur
        fr.bi = tgt
        fr.ip = 0
        return None

    def _phitype(self, code, tgt, d):
        from .ir import P, tokenize
        from .compile import LINKSKIP
        for l in code.blocks[tgt].txt:
            p = P(self.ex.mod, tokenize(l))
            if p.peek()[0] == 'loc' and p.t[1][1] == '=' and p.t[2][1] == 'phi':
                if code.regs[p.t[0][1]] == d:
                    p.i = 3
                    while p.pv() in LINKSKIP:
                        p.next()
                    return p.type()
        raise Unsupported('phi type')

    def _collect(self, ex, st, ctx):
        for o, off, sz, kind in st.wlog or ():
            if o >= ctx['next0'] or o < 0:
                continue
            if self.policy.owned(ex, st, o):
                continue
            if kind == 'm':
                ob = st.mem[o]
                its = [(b, ob.cells[b]) for b in range(off, off + sz) if b in ob.cells]
                its = [(b, c[0], c[1]) for b, c in its]
            else:
                its = [(off, sz, kind)]
            for b, s, k in its:
                if not st.mem[o].live:
                    continue
                if (o, b) not in self.wset:
                    self.wset[(o, b)] = (s, k)
                    self.changed = True

    def at_exit(self, ex, st, fr, cur, tgt, h):
        ctx = fr.loopctx[h]
        self._collect(ex, st, ctx)
        self.policy.loop_exit(ex, st, self, ctx, fr)
        del fr.loopctx[h]
        st.wlog = ctx['wlog0']


class Foreach:
    """policy: `for i in [lb, ub]` visiting element i only; iteration obligations are independent"""

    def __init__(self, harness):
        self.h = harness

    def owned(self, ex, st, o):
        return st.mem[o].kind == 'ghost'

    def havoc(self, ex, st, loop, o, off, sz, kind):
        return None

    def iteration_start(self, ex, st, loop, ctx):
        self.h.iteration_start(ex, st, loop, ctx)

    def iteration_end(self, ex, st, loop, ctx, vals):
        self.h.iteration_end(ex, st, loop, ctx, vals)

    def loop_exit(self, ex, st, loop, ctx, fr):
        self.h.loop_exit(ex, st, loop, ctx, fr)
