"""Loop invariants, attached to the loops of the functions under contract.

An invariant that is not established or not preserved raises Limit: the unit then falls back to
unrolling (bounded), it does not raise an alarm.
"""
import z3
from engine import NULL, Limit, PathEnd, Ptr, simp, bv, _IntT, isc, mask, UNDEF
from z3 import BitVec, BitVecVal, If, And, Or, Not, ULE, ULT
from absstate import Runner, LIMIT


def slots(fn, f, body):
    """Integer local variables of the function assigned in the loop: {alloca id: width}."""
    out = {}
    al = {}
    for b in fn.blocks:
        for i in b.insts:
            if i.op == 'alloca' and i.x.k == 'int' and i.x.w in (8, 16, 32, 64):
                al[i.id] = i.x.w
    for bi in body:
        for i in fn.blocks[bi].insts:
            if i.op == 'store':
                o = i.ops[1]
                if o[0] == 'l' and o[1] in al:
                    out[o[1]] = al[o[1]]
    return out


def rd(E, st, f, k, w):
    try:
        v = E.load(st, f.loc[k], _IntT(w // 8))
    except Exception:
        return None
    if v is UNDEF or isinstance(v, (Ptr,)) or v is None:
        return None
    try:
        return simp(bv(v, w))
    except Exception:
        return None


def wr(E, st, f, k, w, v):
    E.store(st, f.loc[k], simp(v) if not isc(v) else v, _IntT(w // 8))


class CutLoop:
    """take_formal: the second arrival at the header hands over to the contract for the next parameter."""
    def at_header(self, E, st, f, blk, body, n):
        f.ip = 1
        if n == 0:
            return None
        named = [i.id for b in f.fn.blocks for i in b.insts if i.op == 'alloca' and i.x.k == 'int' and i.x.w == 32]
        vals = [rd(E, st, f, k, 32) for k in named]
        st.ghost['cut'] = [v for v in vals if v is not None]
        E.throw(st, (NULL, '#cut'))
        return [st]


class CountLoop:
    """A loop that applies the same action j times; inv(state, j) is the abstract state after j of them."""
    def __init__(self, inv, total):
        self.inv = inv; self.total = total
        self.trial = None

    def at_header(self, E, st, f, blk, body, n):
        f.ip = 1
        env = E.env
        if any(i.op == 'phi' for i in blk.insts):
            raise Limit("loop with phi nodes")
        sl = slots(f.fn, f, body)
        if self.trial is not None:
            if n == 0:
                return None
            self.trial.append({k: rd(E, st, f, k, w) for k, w in sl.items()})
            raise PathEnd()
        if n == 0:
            v0 = {k: rd(E, st, f, k, w) for k, w in sl.items()}
            self.trial = []
            t = st.fork()
            obls = len(E.obls)
            try:
                E.run(t, len(t.frames))
            finally:
                got, self.trial = self.trial, None
            del E.obls[obls:]
            if not got:
                # the loop body is never completed from here
                return None
            j = BitVec('j!%s' % blk.idx, 32)
            delta = {}
            for k, w in sl.items():
                ds = []
                for g in got:
                    if v0[k] is None or g[k] is None:
                        ds.append(None)
                    else:
                        d = simp((g[k] if not isc(g[k]) else BitVecVal(g[k], w)) - v0[k])
                        ds.append(d if isc(d) else (d.as_long() if z3.is_bv_value(d) else None))
                delta[k] = ds[0] if all(d == ds[0] for d in ds) else None
            s0 = env.L.get(st)
            total = self.total(env, st, s0)
            st.pc.append(ULE(j, total))
            self.ctx = (j, v0, delta, s0, total)
            self.assume(E, st, f, sl, j)
            return None
        # back edge: one more
        j, v0, delta, s0, total = self.ctx
        for k, w in sl.items():
            if delta[k] is not None:
                want = self.slot(v0[k], delta[k], j + 1, w)
                have = rd(E, st, f, k, w)
                if have is None or E.prove(st.pc, bv(have, w) == want)[0] != 'proved':
                    raise Limit("loop counter does not follow the invariant")
        if E.prove(st.pc, ULE(j + 1, total))[0] != 'proved':
            raise Limit("loop runs longer than the invariant allows")
        want = s0.clone(); want.R = Runner(E, st.pc)
        self.inv(want, simp(j + 1))
        if want.R.alts:
            raise Limit("case split in a loop invariant")
        if E.prove(st.pc, ULE(j + 1, LIMIT))[0] != 'proved':
            raise Limit("loop runs past the stack limit")
        import verify
        for what, g in verify.compare(env, env.L.get(st), want, None, None, None):
            if E.prove(st.pc, g)[0] != 'proved':
                raise Limit("loop invariant not preserved: " + what)
        raise PathEnd()

    def slot(self, v0, d, j, w):
        jj = z3.ZeroExt(w - 32, j) if w > 32 else j if w == 32 else z3.Extract(w - 1, 0, j)
        return bv(v0, w) + BitVecVal(d & mask(w), w) * jj

    def assume(self, E, st, f, sl, j):
        _, v0, delta, s0, total = self.ctx
        for k, w in sl.items():
            if delta[k] is None:
                wr(E, st, f, k, w, E.fresh('slot', w))
            elif delta[k] != 0:
                wr(E, st, f, k, w, self.slot(v0[k], delta[k], j, w))
        want = s0.clone(); want.R = Runner(E, st.pc)
        self.inv(want, j)
        st.pc.extend([ULE(want.n, LIMIT), ULE(j, LIMIT)])
        E.env.L.put(st, want, s0)


class RecLoop:
    """A loop that computes a recursive function: args(state values) stays equal under each iteration.

    pick(env) -> expected entry values of the loop variables, in order;
    same(cur, new) -> formula: the recursive functions agree at cur and new;
    unfold(s, cur) -> defining equations at cur."""
    def __init__(self, pick, same, unfold):
        self.pick = pick; self.same = same; self.unfold = unfold

    def at_header(self, E, st, f, blk, body, n):
        f.ip = 1
        env = E.env
        sl = slots(f.fn, f, body)
        if n == 0:
            want = self.pick(env, st)
            cur = {}
            self.ids = []
            for v in want:
                c = [k for k, w in sl.items() if w == 32 and k not in self.ids and
                     (lambda x: x is not None and bv(x, 32).eq(simp(v)))(rd(E, st, f, k, 32))]
                if len(c) != 1:
                    raise Limit("loop variables not recognised")
                self.ids.append(c[0])
            self.s0 = env.L.get(st)
            self.start = want
            for k, w in sl.items():
                v = E.fresh('loop', w)
                wr(E, st, f, k, w, v)
                cur[k] = v
            self.cur = [cur[k] for k in self.ids]
            st.pc.append(self.same(self.s0, self.start, self.cur))
            st.pc.extend(self.unfold(self.s0, self.cur))
            return None
        new = [bv(rd(E, st, f, k, 32), 32) for k in self.ids]
        if E.prove(st.pc, self.same(self.s0, self.start, new))[0] != 'proved':
            raise Limit("loop invariant not preserved")
        import verify
        for what, g in verify.compare(env, env.L.get(st), self.s0, None, None, None):
            if E.prove(st.pc, g)[0] != 'proved':
                raise Limit("loop changes " + what)
        raise PathEnd()


class InputLoop:
    """Skipping carriage returns: the next byte that is not one stays the same."""
    def at_header(self, E, st, f, blk, body, n):
        from specs import NEXT, next_unfold
        f.ip = 1
        if any(i.op == 'phi' for i in blk.insts):
            raise Limit("loop with phi nodes")
        if n == 0:
            self.start = st.ghost['inpos']
            for b in f.fn.blocks:
                for i in b.insts:
                    if i.op == 'alloca' and i.x.k == 'int' and i.x.w in (8, 16, 32, 64) and i.id in f.loc:
                        wr(E, st, f, i.id, i.x.w, E.fresh('loop', i.x.w))
            p = E.fresh('inpos', 32)
            st.ghost['inpos'] = p
            st.pc.extend([NEXT(p) == NEXT(self.start), next_unfold(p)])
            self.s0 = E.env.L.get(st)
            return None
        p = st.ghost['inpos']
        if E.prove(st.pc, NEXT(p) == NEXT(self.start))[0] != 'proved':
            raise Limit("loop invariant not preserved")
        import verify
        s1 = E.env.L.get(st)
        s1.extra = self.s0.extra
        for what, g in verify.compare(E.env, s1, self.s0, None, None, None):
            if E.prove(st.pc, g)[0] != 'proved':
                raise Limit("loop changes " + what)
        raise PathEnd()
