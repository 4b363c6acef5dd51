"""Abstract machine state: the vocabulary of the contracts, and its link to program memory."""
import z3
import dom
from engine import (Engine, Ptr, NULL, Region, RS, Seg, _IntT, isc, bv, norm, simp, tobool, mask, Limit, off_bv, FPtr, low32)
from z3 import BitVecVal, BitVec, Array, Extract, ZeroExt, SignExt, If, And, Or, Not, Select, Store, ULT, ULE, UGE

B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
LIMIT = 0x100000


def w32(x): return BitVecVal(x & 0xffffffff, 32) if type(x) is int else x
def w64(x): return BitVecVal(x & mask(64), 64) if type(x) is int else x


class Throw(Exception):
    """The specified outcome is a reported error."""
    def __init__(self, kind='error'):
        self.kind = kind


class Unspecified(Exception):
    """The contract says nothing about this case."""


SCALARS = ['OT', 'OR', 'A', 'S', 'B', 'C', 'L', 'fp', 'lfp', 'sb', 'n', 'seed', 'rout', 'sw', 'swv']
ARRAYS = ['disp', 'st', 'sv', 'ev', 'ep', 'mem']


class Infeasible(Exception):
    pass


class Runner:
    """Explores the branches of a specification under a path condition."""
    def __init__(self, E, pc):
        self.E = E
        self.pc = list(pc)
        self.prefix = (); self.pos = 0; self.conds = []; self.taken = []; self.alts = []

    def explore(self, s0, fn, facts=()):
        """[(conds, kind, result, state)] for every feasible way through fn(s)."""
        work = [()]
        out = []
        while work:
            prefix = work.pop()
            s = s0.clone()
            s.R = self
            self.prefix = prefix
            self.pos = 0
            self.conds = list(facts)
            self.taken = []
            self.alts = []
            try:
                try:
                    r = fn(s)
                    kind = 'ret'
                except Throw as e:
                    r = None
                    kind = 'throw' if e.kind == 'error' else e.kind
                except Unspecified:
                    r = None
                    kind = 'any'
                out.append((list(self.conds), kind, r, s))
            except Infeasible:
                pass
            for k in self.alts:
                work.append(tuple(self.taken[:k]) + (not self.taken[k],))
        return out

    def feasible(self, c):
        if self.E is None:
            raise Limit("symbolic branch in a concrete specification: " + str(z3.simplify(c))[:300])
        return self.E.feasible(self.pc + self.conds, c) != 'unsat'

    def branch(self, c):
        if type(c) is bool:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t, f = self.feasible(c), None
            if not t:
                d = False
                # (the path condition itself may be infeasible; then either answer is fine)
                self.taken.append(d)
                self.pos += 1
                return d
            f = self.feasible(Not(c))
            d = True
            if f:
                self.alts.append(len(self.taken))
            else:
                self.taken.append(True)
                self.pos += 1
                return True
        self.pos += 1
        self.taken.append(d)
        self.conds.append(c if d else Not(c))
        return d

    def fact(self, f):
        self.conds.append(f)


class Any:
    """A value the contract leaves open, up to a predicate."""
    def __init__(self, pred, width):
        self.pred = pred; self.width = width


class AS:
    """State.  Scalars are bit-vectors (C, L, swv: Bool); arrays are z3 arrays indexed by BV32."""
    def __init__(self):
        self.R = None
        self.out = ()
        self.extra = {}

    def clone(self):
        s = AS.__new__(type(self))
        s.__dict__.update(self.__dict__)
        s.extra = dict(self.extra)
        return s

    # -- control
    def when(self, c):
        return self.R.branch(c)

    def throw_if(self, c, kind='error'):
        if self.R.branch(c):
            raise Throw(kind)

    def fact(self, f):
        self.R.fact(f)


class Layout:
    """Where the abstract state lives in program memory."""
    def __init__(self, E, offs):
        self.E = E
        self.o = offs
        self.missing = [k for k, v in offs.items() if v < 0]

    def setup(self, st, name='M', sym=True):
        """Create the Machine/Processor object with arbitrary contents; returns (machine ptr, cpu ptr)."""
        E, o = self.E, self.o
        if self.missing:
            raise Limit("state fields not found: " + ", ".join(self.missing))
        kind = 'sym' if sym else 'zero'
        mach = E.region(name, o['sizeof_machine'], kind)
        cpu = o['cpu']
        mach.segs.append(Seg(o['memory'], 4, 32768, [(0, 4, 'w')], 'memory'))
        mach.segs.append(Seg(cpu + o['display'], 4, 32, [(0, 4, 'd')], 'display'))
        stk = E.region(name + '.stack', None, kind)
        self.stkvec = cpu + o['stack'] + o['storage']
        def count(E, st):
            f = E.load(st, Ptr(mach.id, self.stkvec + 8), PT)
            c = E.ptr_diff(f, Ptr(stk.id))
            if isc(c):
                return c // 16
            return lin_count(c)
        stk.segs.append(Seg(0, 16, count, [(0, 4, 'type'), (8, 8, 'value')], 'cell'))
        em = E.region(name + '.eis', None, kind)
        em.segs.append(Seg(0, 4, 1 << 32, [(0, 4, 'op')], 'op'))
        E.emap_region = em
        for r in (mach, stk, em):
            st.mem[r.id] = RS()
        E.wrs(st, em).arrs['present'] = Array(name + '.eis.present', B32, z3.BoolSort()) if sym else z3.K(B32, z3.BoolVal(False))
        c = E.wrs(st, mach).cells
        c[cpu + o.get('machine', 0)] = (8, Ptr(mach.id))
        n = BitVec(name + '.n', 32)
        if sym:
            fin = Ptr(stk.id, 0, ((16, ZeroExt(32, n)),))
            st.pc.append(ULE(n, LIMIT))
        else:
            fin = Ptr(stk.id, 0)
        c[self.stkvec] = (8, Ptr(stk.id))
        c[self.stkvec + 8] = (8, fin)
        c[self.stkvec + 16] = (8, Ptr(stk.id, 1 << 40))
        # booleans hold 0 or 1
        for k in (cpu + o['core'] + o['cC'], cpu + o['core'] + o['cL'], o['swvalid']):
            if sym:
                v = z3.Bool(f"{name}.bool.{k}")
                c[k] = (1, If(v, BitVecVal(1, 8), BitVecVal(0, 8)))
            else:
                c[k] = (1, 0)
        self.mach, self.stk, self.em = mach, stk, em
        return Ptr(mach.id), Ptr(mach.id, cpu)

    def addr(self, k):
        o = self.o
        cpu = o['cpu']
        core = cpu + o['core']
        return {'OT': (cpu + o['OT'], 4), 'OR': (cpu + o['OR'], 4), 'A': (core + o['cA'], 4), 'S': (core + o['cS'], 4),
                'B': (core + o['cB'], 4), 'C': (core + o['cC'], 1), 'L': (core + o['cL'], 1),
                'fp': (cpu + o['frame_ptr'], 4), 'lfp': (cpu + o['last_frame_ptr'], 4), 'sb': (cpu + o['stack_base'], 4),
                'seed': (o['seed'], 4), 'rout': (o['rout'], 8), 'sw': (o['switches'], 4), 'swv': (o['swvalid'], 1)}[k]

    def arrs(self, k):
        E = self.E
        return {'disp': (self.mach, self.mach.segs[1], 0), 'mem': (self.mach, self.mach.segs[0], 0),
                'st': (self.stk, self.stk.segs[0], 0), 'sv': (self.stk, self.stk.segs[0], 1),
                'ev': (self.em, self.em.segs[0], 0)}[k]

    def get(self, st):
        """Read the abstract state out of program memory."""
        E = self.E
        s = AS()
        for k in SCALARS:
            if k == 'n':
                f = E.load(st, Ptr(self.mach.id, self.stkvec + 8), PT)
                if f.r != self.stk.id:
                    raise Limit("stack storage replaced")
                c = E.ptr_diff(f, Ptr(self.stk.id))
                s.n = BitVecVal(c // 16, 32) if isc(c) else low32(lin_count(c))
                continue
            a, sz = self.addr(k)
            v = E.load(st, Ptr(self.mach.id, a), _IntT(sz))
            v = z3.simplify(bv(v, sz * 8))
            if k in ('C', 'L', 'swv'):
                v = z3.simplify(v != 0)
            setattr(s, k, v)
        for k in ('disp', 'mem', 'st', 'sv', 'ev'):
            r, seg, fi = self.arrs(k)
            setattr(s, k, E.arr(st, r, seg, seg.fields[fi]))
        s.ep = E.rs(st, self.em).arrs['present']
        s.out = tuple(e for e in st.ghost.get('out', ()) if e[0] in ('_ZSt4cout', 'OUT'))
        s.extra = {k: v for k, v in st.ghost.items() if k in ('rng', 'rngseed', 'inpos', 'inchar', 'tod')}
        return s

    def put(self, st, s, old):
        """Write the abstract state back (only what changed with respect to old)."""
        E = self.E
        for k in SCALARS:
            v, u = getattr(s, k), getattr(old, k)
            if v is u or v.eq(u):
                continue
            if k == 'n':
                n = z3.simplify(v)
                if z3.is_bv_value(n):
                    fin = Ptr(self.stk.id, 16 * n.as_long())
                else:
                    base, c = split_const(n)
                    fin = Ptr(self.stk.id, (16 * c) & mask(64), ((16, ZeroExt(32, base)),))
                E.put_cell(st, self.mach, self.stkvec + 8, 8, fin)
                continue
            a, sz = self.addr(k)
            if k in ('C', 'L', 'swv'):
                v = If(v, BitVecVal(1, 8), BitVecVal(0, 8))
            E.put_cell(st, self.mach, a, sz, simp(v))
        for k in ('disp', 'mem', 'st', 'sv', 'ev'):
            v, u = getattr(s, k), getattr(old, k)
            if v is u or v.eq(u):
                continue
            r, seg, fi = self.arrs(k)
            E.set_arr(st, r, seg, seg.fields[fi], v)
        if not (s.ep is old.ep or s.ep.eq(old.ep)):
            E.wrs(st, self.em).arrs['present'] = s.ep
        if len(s.out) > len(old.out):
            st.ghost['out'] = st.ghost.get('out', ()) + s.out[len(old.out):]
        for k, v in s.extra.items():
            st.ghost[k] = v


PT = type('P', (), {'k': 'ptr', 'size': 8})()


def split_const(n):
    """n = base + c with c a small signed constant (32-bit)."""
    if z3.is_app_of(n, z3.Z3_OP_BADD) and z3.is_bv_value(n.arg(0)):
        c = n.arg(0).as_signed_long()
        if abs(c) < 4096:
            rest = [n.arg(i) for i in range(1, n.num_args())]
            b = rest[0]
            for x in rest[1:]:
                b = b + x
            return b, c
    return n, 0


def lin_count(c):
    """Element count from a LinInt byte difference (elements of 16 bytes)."""
    e = BitVecVal((c.c >> 4) & mask(64) if c.c < (1 << 63) else ((c.c - (1 << 64)) >> 4) & mask(64), 64)
    for k, t in c.t:
        k = k - (1 << 64) if k >> 63 else k
        assert k % 16 == 0
        e = e + (t if k == 16 else BitVecVal((k // 16) & mask(64), 64) * t)
    return e


