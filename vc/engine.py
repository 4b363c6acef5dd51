"""Deductive symbolic execution of LLVM IR: a verification-condition generator.

A function body is executed on a symbolic pre-state, forking on branches, until
every path ends in `return` or `throw`.  Calls to functions that carry a contract
are replaced by the contract; other defined functions are executed in place;
library functions go through models.py.  Every undefined-behaviour condition met
on the way, and every path's postcondition, is an obligation for the solver.
"""
import time
import z3
import dom
from z3 import BitVecVal, BitVec, BitVecRef, BoolRef, Extract, Concat, ZeroExt, SignExt, If, And, Or, Not

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)

FP80 = z3.FPSort(15, 64)
FP64 = z3.FPSort(11, 53)
FP32 = z3.FPSort(8, 24)
RNE, RTZ = z3.RNE(), z3.RTZ()


class Limit(Exception):
    """The engine cannot handle this code (not a property failure)."""


class Ptr:
    __slots__ = ("r", "c", "t")
    def __init__(self, r, c=0, t=()):
        self.r = r; self.c = c; self.t = t
    def __repr__(self):
        return f"Ptr({self.r},{self.c},{self.t})"

NULL = Ptr(None, 0)


class FPtr:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name


class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()


def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v


def isc(v): return type(v) is int


def bv(v, w):
    """z3 bit-vector of width w for an engine integer."""
    if type(v) is int:
        return BitVecVal(v, w)
    if isinstance(v, BoolRef):
        return If(v, BitVecVal(1, w), BitVecVal(0, w))
    return v


def tobool(v):
    if type(v) is int:
        return z3.BoolVal(bool(v))
    if isinstance(v, BoolRef):
        return v
    return v != 0


def norm(v):
    """Fold a z3 constant into a Python int."""
    if type(v) is int:
        return v
    if isinstance(v, BitVecRef):
        if z3.is_bv_value(v):
            return v.as_long()
        return v
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def simp(v):
    if type(v) is int:
        return v
    return norm(z3.simplify(v))


_mulcache = {}


def muls_of(e):
    """The products (dom.mul applications) occurring in an expression, as {id: term}."""
    k = e.get_id()
    r = _mulcache.get(k)
    if r is None:
        d = {}
        if z3.is_app(e):
            if dom.is_mul(e):
                d[k] = e
            for a in e.children():
                d.update(muls_of(a))
        elif z3.is_quantifier(e):
            d.update((i, m) for i, m in muls_of(e.body()).items())
        r = (d, e)
        _mulcache[k] = r
    return r[0]


def mul_defs(exprs):
    d = {}
    for e in exprs:
        d.update(muls_of(e))
    return [m == m.arg(0) * m.arg(1) for m in d.values() if not has_var(m)]


def mul_comm(exprs):
    """Products commute: facts that relate the opaque products of equal factors."""
    d = {}
    for e in exprs:
        d.update(muls_of(e))
    ms = [m for m in d.values() if not has_var(m)]
    r = []
    for i, x in enumerate(ms):
        for y in ms[:i]:
            if x.decl().eq(y.decl()):
                r.append(z3.Implies(And(x.arg(0) == y.arg(1), x.arg(1) == y.arg(0)), x == y))
    return r


def has_var(e):
    return z3.is_var(e) or any(has_var(c) for c in e.children())


def lin_add(a, b):
    """Add two offset term tuples."""
    if not b:
        return a
    if not a:
        return b
    d = {}
    for k, e in a + b:
        i = e.get_id()
        if i in d:
            d[i] = ((d[i][0] + k) & mask(64), e)
        else:
            d[i] = (k & mask(64), e)
    return tuple(sorted((x for x in d.values() if x[0]), key=lambda x: x[1].get_id()))


def off_bv(p):
    e = BitVecVal(p.c & mask(64), 64)
    for k, t in p.t:
        e = e + (t if k == 1 else BitVecVal(k, 64) * t)
    return e


class Seg:
    """A symbolic array embedded in a region: elements of `stride` bytes, each with
    fields (offset, size, key).  count: int or z3 BV64 giving the number of elements."""
    __slots__ = ("start", "stride", "count", "fields", "name")
    def __init__(self, start, stride, count, fields, name):
        self.start = start; self.stride = stride; self.count = count; self.fields = fields; self.name = name


class Region:
    __slots__ = ("id", "name", "size", "segs", "kind", "base", "ty", "leaves", "const", "strbytes")
    def __init__(self, id, name, size=None, kind="undef", ty=None):
        self.id = id; self.name = name; self.size = size; self.kind = kind
        self.segs = []; self.base = {}; self.ty = ty; self.leaves = None; self.const = False
        self.strbytes = None


class RS:
    """Contents of a region in one state."""
    __slots__ = ("cells", "arrs", "live")
    def __init__(self, cells=None, arrs=None):
        self.cells = cells if cells is not None else {}
        self.arrs = arrs if arrs is not None else {}
    def copy(self):
        return RS(dict(self.cells), dict(self.arrs))


class Frame:
    __slots__ = ("fn", "blk", "ip", "prev", "loc", "ret", "inv", "cnt", "allocas", "cut", "resume")
    def copy(self):
        f = Frame()
        f.fn = self.fn; f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.loc = list(self.loc); f.ret = self.ret; f.inv = self.inv; f.cnt = dict(self.cnt)
        f.allocas = self.allocas; f.cut = dict(self.cut); f.resume = self.resume
        return f


class State:
    __slots__ = ("mem", "pc", "frames", "ghost", "exc", "result", "kind")
    def __init__(self):
        self.mem = {}; self.pc = []; self.frames = []; self.ghost = {}; self.exc = None
        self.result = None; self.kind = None
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.pc = list(self.pc); s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost); s.exc = self.exc; s.result = self.result; s.kind = self.kind
        return s


class Obligation:
    __slots__ = ("kind", "desc", "status", "model", "secs", "where")
    def __init__(self, kind, desc, status, model=None, secs=0.0, where=""):
        self.kind = kind; self.desc = desc; self.status = status; self.model = model; self.secs = secs
        self.where = where


def leaves_of(ty, off=0, out=None):
    """Scalar leaves (offset,size,Type) of a type; arrays of more than 64 elements are skipped."""
    if out is None:
        out = []
    if ty.k == 'struct':
        for e, o in zip(ty.elts, ty.offs):
            leaves_of(e, off + o, out)
    elif ty.k == 'array':
        if ty.n <= 64:
            for i in range(ty.n):
                leaves_of(ty.elt, off + i * ty.elt.size, out)
    elif ty.k in ('int', 'ptr', 'fp80', 'double', 'float'):
        out.append((off, ty.size, ty))
    return out


def same_val(x, y):
    """The same value, syntactically."""
    if x is y:
        return True
    if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
        return isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)
    if x.__class__ is not y.__class__:
        return False
    if isinstance(x, (tuple, list)):
        return len(x) == len(y) and all(same_val(p, q) for p, q in zip(x, y))
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same_val(p, y[k]) for k, p in x.items())
    if isinstance(x, Ptr):
        return x.r == y.r and same_val(x.c, y.c) and same_val(x.t, y.t)
    try:
        return bool(x == y)
    except Exception:
        return False


_cross = {}


def cross_block(fn):
    """Values used outside the block that computes them."""
    r = _cross.get(id(fn))
    if r is None:
        where = {}
        for b in fn.blocks:
            for i in b.insts:
                where[i.id] = b.idx
        r = set()
        def use(o, b):
            if isinstance(o, tuple):
                if len(o) == 2 and o[0] == 'l':
                    if where.get(o[1]) != b:
                        r.add(o[1])
                else:
                    for x in o:
                        use(x, b)
            elif isinstance(o, list):
                for x in o:
                    use(x, b)
            elif isinstance(o, dict):
                for x in o.values():
                    use(x, -1)
        for b in fn.blocks:
            for i in b.insts:
                use(i.ops if isinstance(i.ops, (tuple, list)) else list(i.ops or []), b.idx)
                use(i.x, b.idx)
        _cross[id(fn)] = r
    return r


def find_loops(fn):
    """Natural loop headers -> set of body blocks (by index)."""
    if fn._loops is not None:
        return fn._loops
    n = len(fn.blocks)
    succs = []
    for b in fn.blocks:
        t = b.insts[-1]
        if t.op == 'br':
            s = list(t.x)
        elif t.op == 'switch':
            s = [t.x[0]] + [d for _, d in t.x[1]]
        elif t.op == 'invoke':
            s = [t.x[1], t.x[2]]
        else:
            s = []
        succs.append(s)
    preds = [[] for _ in range(n)]
    for i, s in enumerate(succs):
        for j in s:
            preds[j].append(i)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in range(1, n):
            ps = [dom[p] for p in preds[i]]
            nd = (set.intersection(*ps) if ps else set()) | {i}
            if nd != dom[i]:
                dom[i] = nd
                ch = True
    loops = {}
    for i in range(n):
        for j in succs[i]:
            if j in dom[i]:
                body = loops.setdefault(j, {j})
                st = [i]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn._loops = loops
    return loops


class Engine:
    def __init__(self, mod, timeout_ms=20000, unroll=70, max_paths=20000):
        self.mod = mod
        self.regions = {}
        self.nreg = 0
        self.globals = {}
        self.contracts = {}        # demangled name -> callable(E, st, fn, args) -> [(st,kind,val)]
        self.models = []           # (compiled regex, handler)
        self._mcache = {}
        self.obls = []
        self.timeout = timeout_ms
        self.unroll = unroll
        self.max_paths = max_paths
        self.nfresh = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.sstack = []
        self.solver_time = 0.0
        self.queries = 0
        self.loopinv = {}          # (demangled fn, ordinal of loop) -> invariant object
        self.check_ub = True
        self.check_overflow = False    # signed arithmetic is taken to wrap (an assumption of every proof)
        self.used_contracts = set()
        self.used_models = set()
        self.inlined = set()
        self.npaths = 0
        self.typeids = {}
        self.deadline = None
        self.globals_sym = set()   # names of globals whose initial contents are arbitrary
        self.global_hook = {}      # name -> fn(E, region) configure
        self._keep = []
        self._fields = {}
        self.emap_region = None
        self.seg_hook = None
        self.merge_fns = set()
        self.axioms = []           # always-assumed facts (about uninterpreted functions)

    # ---------------------------------------------------------------- solver
    def fresh(self, name, w):
        self.nfresh += 1
        return BitVec(f"{name}!{self.nfresh}", w)

    def freshbool(self, name):
        self.nfresh += 1
        return z3.Bool(f"{name}!{self.nfresh}")

    def freshfp(self, name, sort=FP80):
        self.nfresh += 1
        return z3.FP(f"{name}!{self.nfresh}", sort)

    def _sync(self, pc):
        st = self.sstack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        k = len(st) - n
        if k:
            self.solver.pop(k)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def feasible(self, pc, extra=None):
        """Can pc and extra hold?  May say yes wrongly: only used to leave out impossible cases."""
        return self.check(pc, extra, self.refine_ms)

    refine_ms = 1000

    def check(self, pc, extra=None, quick=None):
        """'sat' | 'unsat' | 'unknown' for pc /\\ extra."""
        if self.deadline and time.time() > self.deadline:
            raise Limit("time budget of this function is used up")
        t = time.time()
        self.queries += 1
        if dom.MODE['digits']:
            e = dom.without_fp(extra) if extra is not None else z3.BoolVal(True)
            if e is not None:
                pcs = dom.related([x for x in map(dom.without_fp, pc) if x is not None], e)
                ids = {x.get_id() for x in pcs}
                if e.get_id() in ids:
                    r = 'sat'
                elif z3.is_false(e) or z3.simplify(Not(e)).get_id() in ids:
                    r = 'unsat'
                else:
                    s = z3.SolverFor('QF_AUFBV')
                    s.set('timeout', self.timeout)
                    s.add(e, *pcs)
                    r = str(s.check())
                if r == 'unsat' or quick and r == 'sat':
                    self.solver_time += time.time() - t
                    self._model = None
                    return r
        self._sync(pc)
        self.solver.push()
        if extra is not None:
            self.solver.add(extra)
        r = str(self.solver.check())
        self._model = None
        if r != 'unsat':
            # products were opaque so far
            defs = mul_defs(list(pc) + ([extra] if extra is not None else []))
            if len(defs) > 1:
                self.solver.add(*mul_comm(list(pc) + ([extra] if extra is not None else [])))
                r = str(self.solver.check())
            if defs and r != 'unsat':
                self.solver.add(*defs)
                if quick:
                    self.solver.set("timeout", min(quick, self.timeout))
                r = str(self.solver.check())
                if quick:
                    self.solver.set("timeout", self.timeout)
            if r == 'sat':
                self._model = self.solver.model()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def prove(self, pc, goal):
        """('proved'|'failed'|'unknown', model)"""
        goal = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(goal):
            return 'proved', None
        r = self.check(pc, Not(goal))
        if r == 'unsat':
            return 'proved', None
        if r == 'sat':
            return 'failed', self._model
        # second attempt: fresh solver, other strategy
        for mk in (lambda: z3.Solver(), lambda: z3.Then('simplify', 'solve-eqs', 'elim-uncnstr', 'smt').solver(),):
            s = mk()
            s.set("timeout", self.timeout * 2)
            s.add(*pc)
            s.add(Not(goal))
            s.add(*mul_defs(list(pc) + [goal]))
            t = time.time()
            r = str(s.check())
            self.solver_time += time.time() - t
            if r == 'unsat':
                return 'proved', None
            if r == 'sat':
                return 'failed', s.model()
        return 'unknown', None

    def oblige(self, st, cond, kind, desc, assume=True):
        c = simp(tobool(cond)) if not isinstance(cond, bool) else int(cond)
        where = self.where(st)
        if isc(c) and c == 1:
            self.obls.append(Obligation(kind, desc, 'proved', where=where))
            return True
        cc = tobool(c)
        t = time.time()
        r, m = self.prove(st.pc, cc)
        self.obls.append(Obligation(kind, desc, r, (m, st) if m is not None else None, time.time() - t, where))
        if r != 'proved' and assume:
            st.pc.append(cc)
        return r == 'proved'

    def where(self, st):
        if st.frames:
            f = st.frames[-1]
            return f"{f.fn.dem.split('(')[0]}:{f.fn.blocks[f.blk].name or f.blk}"
        return ""

    # ---------------------------------------------------------------- regions
    def region(self, name, size=None, kind="undef", ty=None):
        self.nreg += 1
        r = Region(self.nreg, name, size, kind, ty)
        self.regions[r.id] = r
        return r

    def rs(self, st, r):
        x = st.mem.get(r.id)
        if x is None:
            x = RS()
            st.mem[r.id] = x
        return x

    def wrs(self, st, r):
        x = self.rs(st, r).copy()
        st.mem[r.id] = x
        return x

    def arr(self, st, r, seg, f):
        """z3 array of field f of segment seg in state st."""
        rs = self.rs(st, r)
        key = (seg.name, f[0])
        a = rs.arrs.get(key)
        if a is None:
            a = r.base.get(key)
            if a is None:
                if r.kind == 'zero':
                    a = z3.K(z3.BitVecSort(32), BitVecVal(0, f[1] * 8))
                else:
                    a = z3.Array(f"{r.name}.{seg.name}.{f[2]}", z3.BitVecSort(32), z3.BitVecSort(f[1] * 8))
                r.base[key] = a
            rs.arrs[key] = a
        return a

    def set_arr(self, st, r, seg, f, a):
        self.wrs(st, r).arrs[(seg.name, f[0])] = a

    def locate(self, st, p, size, what):
        """Resolve a pointer to ('cell', region, off) or ('seg', region, seg, field, idx32)."""
        r = self.regions.get(p.r)
        if r is None:
            self.oblige(st, False, 'memory', f"{what} through an invalid (null or forged) pointer", assume=False)
            raise PathEnd()
        if not p.t:
            off = sgn(p.c & mask(64), 64)
            for s in r.segs:
                if off >= s.start and (not isc(s.count) or off < s.start + s.stride * s.count):
                    idx, fo = divmod(off - s.start, s.stride)
                    if not isc(s.count):
                        self.oblige(st, z3.ULT(BitVecVal(idx, 64), self.segcount(st, s)), 'memory',
                                    f"{what}: index inside {r.name}.{s.name}")
                    return ('seg', r, s, fo, BitVecVal(idx, 32))
            if r.size is not None and not (0 <= off and off + size <= r.size):
                self.oblige(st, False, 'memory', f"{what}: offset {off} outside {r.name} ({r.size} bytes)", assume=False)
                raise PathEnd()
            return ('cell', r, off)
        # symbolic offset: choose the segment
        coefs = [sgn(k, 64) for k, _ in p.t]
        c = sgn(p.c & mask(64), 64)
        best = None
        for s in r.segs:
            if all(k % s.stride == 0 for k in coefs):
                inside = s.start <= c and (not isc(s.count) or c < s.start + s.stride * s.count)
                if best is None or inside:
                    best = s
                    if inside:
                        break
        if best is None:
            # small flat object indexed symbolically: fork over concrete values
            raise SymOffset(p, r, size)
        s = best
        q, fo = divmod(c - s.start, s.stride)
        idx = BitVecVal(q & mask(64), 64)
        for k, (_, t) in zip(coefs, p.t):
            m = (k // s.stride) & mask(64)
            idx = idx + (t if m == 1 else BitVecVal(m, 64) * t)
        idx = z3.simplify(idx)
        self.oblige(st, z3.ULT(idx, self.segcount(st, s)), 'memory', f"{what}: index inside {r.name}.{s.name}")
        return ("seg", r, s, fo, low32(idx))

    def segcount(self, st, s):
        c = s.count
        if callable(c):
            c = c(self, st)
        return bv(c, 64)

    def load(self, st, p, ty, what="load"):
        if ty.k == 'struct':
            return tuple(self.load(st, Ptr(p.r, (p.c + o) & mask(64), p.t), e, what) for e, o in zip(ty.elts, ty.offs))
        if ty.k == 'array':
            return tuple(self.load(st, Ptr(p.r, (p.c + i * ty.elt.size) & mask(64), p.t), ty.elt, what)
                         for i in range(ty.n))
        try:
            w = self.locate(st, p, ty.size, what)
        except SymOffset as e:
            return self.load_symoff(st, e, p, ty, what)
        if w[0] == 'seg':
            _, r, s, fo, idx = w
            if self.seg_hook:
                self.seg_hook(st, r, s, idx)
            for f in s.fields:
                if f[0] == fo and f[1] == ty.size:
                    v = simp(z3.Select(self.arr(st, r, s, f), idx))
                    return self.decode_seg(st, v, f, ty)
                if f[0] <= fo and fo + ty.size <= f[0] + f[1]:
                    v = z3.Select(self.arr(st, r, s, f), idx)
                    sh = (fo - f[0]) * 8
                    return simp(Extract(sh + ty.size * 8 - 1, sh, v))
            # several adjacent fields (e.g. an aggregate copied as one integer)
            parts = []
            o = fo
            while o < fo + ty.size:
                for f in s.fields:
                    if f[0] == o:
                        parts.append(z3.Select(self.arr(st, r, s, f), idx))
                        o += f[1]
                        break
                else:
                    raise Limit(f"access of {ty.size} bytes at field offset {fo} of {r.name}.{s.name}")
            return simp(Concat(*reversed(parts)))
        _, r, off = w
        return self.load_cell(st, r, off, ty)

    def decode_seg(self, st, v, f, ty):
        if ty.k == 'int':
            if ty.w == 1:
                return norm(simp(bv(v, f[1] * 8) != 0))
            return v
        if ty.k == 'ptr':
            if isc(v) and v == 0:
                return NULL
        raise Limit(f"segment load of {ty}")

    def load_symoff(self, st, e, p, ty, what):
        """Load at a symbolic offset of a constant/flat object by case split into an ite-chain."""
        r = e.r
        off = off_bv(p)
        if r.size is None or r.size > 65536:
            raise Limit(f"symbolic offset into {r.name}")
        strides = [abs(sgn(k, 64)) for k, _ in p.t]
        import math
        g = 0
        for s in strides:
            g = math.gcd(g, s)
        c0 = sgn(p.c & mask(64), 64) % g
        offs = [o for o in range(c0, r.size - ty.size + 1, g)]
        self.oblige(st, Or(*[off == BitVecVal(o, 64) for o in offs]) if len(offs) <= 4 else
                    And(z3.ULE(off, BitVecVal(offs[-1], 64))), 'memory', f"{what}: offset inside {r.name}")
        vals = [(o, self.load_cell(st, r, o, ty)) for o in offs]
        if ty.k == 'int':
            w = ty.w
            res = bv(vals[-1][1], w)
            for o, v in reversed(vals[:-1]):
                res = If(off == BitVecVal(o, 64), bv(v, w), res)
            return simp(res)
        # pointers (tables of strings etc.): fork is done by the caller
        raise ForkLoad(off, vals)

    def load_cell(self, st, r, off, ty):
        rs = self.rs(st, r)
        c = rs.cells.get(off)
        if c is not None and c[0] == ty.size:
            return self.coerce(c[1], ty)
        if r.strbytes is not None and ty.k == 'int' and off + ty.size <= len(r.strbytes):
            return int.from_bytes(r.strbytes[off:off + ty.size], 'little')
        # overlapping pieces?
        pieces = self.pieces(st, r, off, ty.size)
        if pieces is None:
            if r.kind == 'sym':
                return self.lazy(st, r, off, ty)
            if r.kind == 'zero':
                return self.zero(ty)
            return UNDEF
        if len(pieces) == 1 and pieces[0][3] == 0 and pieces[0][1] == ty.size == pieces[0][4]:
            return self.coerce(pieces[0][2], ty)
        bits = []
        for po, ps, v, vo, vs in pieces:
            pass
        vals = []
        for po, ps, v, vo, vs in pieces:
            if v is UNDEF:
                return UNDEF
            if isinstance(v, (Ptr, FPtr)) or z3.is_fp(v):
                raise Limit(f"partial load of a non-integer in {r.name}+{off}")
            x = bv(v, vs * 8)
            if vo != 0 or ps != vs:
                x = Extract((vo + ps) * 8 - 1, vo * 8, x)
            vals.append(x)
        res = vals[0] if len(vals) == 1 else Concat(*reversed(vals))
        return self.coerce(simp(res), ty)

    def pieces(self, st, r, off, size):
        """Cover [off,off+size) with stored cells; None when no stored cell overlaps."""
        cells = self.rs(st, r).cells
        out = []
        o = off
        any_ = False
        while o < off + size:
            hit = None
            for back in range(0, 16):
                c = cells.get(o - back)
                if c is not None and c[0] > back:
                    hit = (o - back, c)
                    break
            if hit:
                any_ = True
                co, (cs, v) = hit
                n = min(co + cs, off + size) - o
                out.append((o - off, n, v, o - co, cs))
                o += n
            else:
                # gap
                nxt = min([k for k in cells if o < k < off + size] + [off + size])
                n = nxt - o
                if r.kind == 'zero':
                    out.append((o - off, n, 0, 0, n))
                elif r.kind == 'sym':
                    k = ('raw', o, n)
                    v = r.base.get(k)
                    if v is None:
                        v = BitVec(f"{r.name}.{o}.{n}", n * 8)
                        r.base[k] = v
                    out.append((o - off, n, v, 0, n))
                else:
                    out.append((o - off, n, UNDEF, 0, n))
                o += n
        return out if any_ else None

    def lazy(self, st, r, off, ty):
        k = (off, ty.size)
        v = r.base.get(k)
        if v is None:
            if ty.k == 'int':
                v = BitVec(f"{r.name}.{off}", ty.size * 8)
            elif ty.k in ('fp80', 'double', 'float'):
                v = z3.FP(f"{r.name}.{off}", {'fp80': FP80, 'double': FP64, 'float': FP32}[ty.k])
            else:
                raise Limit(f"lazy pointer in {r.name}+{off}")
            r.base[k] = v
        self.rs(st, r).cells[off] = (ty.size, v)
        return self.coerce(v, ty)

    def zero(self, ty):
        if ty.k == 'int':
            return 0
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'fp80':
            return z3.fpPlusZero(FP80)
        if ty.k == 'double':
            return z3.fpPlusZero(FP64)
        if ty.k == 'float':
            return z3.fpPlusZero(FP32)
        if ty.k == 'struct':
            return tuple(self.zero(e) for e in ty.elts)
        if ty.k == 'array':
            return tuple(self.zero(ty.elt) for _ in range(ty.n))
        raise Limit(f"zero of {ty}")

    def coerce(self, v, ty):
        if v is UNDEF:
            return v
        if ty.k == 'int':
            if isinstance(v, Ptr):
                if v.r is None and not v.t:
                    return v.c
                return PtrInt(v)
            if z3.is_expr(v) and z3.is_fp(v):
                return simp(z3.fpToIEEEBV(v))
            if ty.w == 1 and not isc(v) and isinstance(v, BitVecRef):
                return simp(Extract(0, 0, v) == 1)
            if isc(v):
                return v & mask(ty.w)
            if isinstance(v, BitVecRef) and v.size() > ty.w:
                return simp(Extract(ty.w - 1, 0, v))
            return v
        if ty.k == 'ptr':
            if isinstance(v, PtrInt):
                return v.p
            if isc(v):
                return Ptr(None, v)
            return v
        if ty.k in ('fp80', 'double', 'float'):
            if isc(v) and v == 0:
                return self.zero(ty)
            if isinstance(v, BitVecRef) or isc(v):
                if ty.k == 'fp80':
                    x = bv(v, 128) if isc(v) else v
                    return z3.simplify(z3.fpFP(Extract(79, 79, x), Extract(78, 64, x), Extract(62, 0, x)))
                w = 64 if ty.k == 'double' else 32
                return z3.simplify(z3.fpBVToFP(bv(v, w), FP64 if w == 64 else FP32))
            return v
        return v

    def store(self, st, p, v, ty, what="store"):
        if ty.k == 'struct':
            if v is UNDEF:
                return
            for x, e, o in zip(v, ty.elts, ty.offs):
                self.store(st, Ptr(p.r, (p.c + o) & mask(64), p.t), x, e, what)
            return
        if ty.k == 'array':
            for i in range(ty.n):
                self.store(st, Ptr(p.r, (p.c + i * ty.elt.size) & mask(64), p.t), v[i], ty.elt, what)
            return
        w = self.locate(st, p, ty.size, what)
        if w[0] == 'seg':
            _, r, s, fo, idx = w
            if v is UNDEF:
                v = self.fresh("undef", ty.size * 8)
            if isinstance(v, (Ptr, PtrInt)):
                raise Limit(f"pointer stored in {r.name}.{s.name}")
            if self.regions[r.id].const:
                self.oblige(st, False, 'memory', f"store into constant {r.name}", assume=False)
            for f in s.fields:
                if f[0] == fo and f[1] == ty.size:
                    self.set_arr(st, r, s, f, z3.Store(self.arr(st, r, s, f), idx, bv(v, f[1] * 8)))
                    return
                if f[0] <= fo and fo + ty.size <= f[0] + f[1]:
                    a = self.arr(st, r, s, f)
                    old = z3.Select(a, idx)
                    sh = (fo - f[0]) * 8
                    W = f[1] * 8
                    m = mask(ty.size * 8) << sh
                    new = (old & BitVecVal(mask(W) ^ m, W)) | (ZeroExt(W - ty.size * 8, bv(v, ty.size * 8)) << sh)
                    self.set_arr(st, r, s, f, z3.Store(a, idx, new))
                    return
            o = fo
            x = bv(v, ty.size * 8)
            while o < fo + ty.size:
                for f in s.fields:
                    if f[0] == o:
                        self.set_arr(st, r, s, f, z3.Store(self.arr(st, r, s, f), idx,
                                                           simpbv(Extract((o - fo + f[1]) * 8 - 1, (o - fo) * 8, x))))
                        o += f[1]
                        break
                else:
                    raise Limit(f"store of {ty.size} bytes at field offset {fo} of {r.name}.{s.name}")
            return
        _, r, off = w
        if r.const:
            self.oblige(st, False, 'memory', f"store into constant {r.name}", assume=False)
        if ty.k == 'int' and ty.w == 1:
            v = v if isc(v) else bv(v, 8)
        self.put_cell(st, r, off, ty.size, v)

    def put_cell(self, st, r, off, size, v):
        rs = self.wrs(st, r)
        cells = rs.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            # split what overlaps
            for k in list(cells):
                ks, kv = cells[k]
                if k < off + size and off < k + ks:
                    del cells[k]
                    if kv is UNDEF or (isinstance(kv, (Ptr, FPtr, PtrInt)) or (z3.is_expr(kv) and z3.is_fp(kv))):
                        continue
                    x = bv(kv, ks * 8)
                    if k < off:
                        cells[k] = (off - k, simp(Extract((off - k) * 8 - 1, 0, x)))
                    if k + ks > off + size:
                        cells[off + size] = (k + ks - off - size, simp(Extract(ks * 8 - 1, (off + size - k) * 8, x)))
        cells[off] = (size, v)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        # copy field by field
        i = 0
        rsrc = self.regions.get(s.r)
        if rsrc is None or self.regions.get(d.r) is None:
            self.oblige(st, False, 'memory', "memcpy through an invalid pointer", assume=False)
            raise PathEnd()
        while i < n:
            sp = Ptr(s.r, (s.c + i) & mask(64), s.t)
            dp = Ptr(d.r, (d.c + i) & mask(64), d.t)
            step = None
            # source segment field?
            w = self.locate(st, sp, 1, "memcpy")
            wd = self.locate(st, dp, 1, "memcpy")
            if w[0] == 'seg':
                for f in w[2].fields:
                    if f[0] == w[3]:
                        step = f[1]
                if step is None:
                    nx = [f[0] for f in w[2].fields if f[0] > w[3]] + [w[2].stride]
                    i += min(nx) - w[3]   # padding
                    continue
                v = simp(z3.Select(self.arr(st, w[1], w[2], [f for f in w[2].fields if f[0] == w[3]][0]), w[4]))
            else:
                _, r, off = w
                c = self.rs(st, r).cells.get(off)
                if c is not None:
                    step, v = c
                elif r.strbytes is not None:
                    step = 1
                    v = r.strbytes[off] if off < len(r.strbytes) else 0
                elif r.kind == 'sym' and r.leaves:
                    lf = r.leaves.get(off)
                    if lf is None:
                        i += 1
                        continue
                    step = lf.size
                    v = self.load_cell(st, r, off, lf)
                elif r.kind == 'zero':
                    step = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
                    if wd[0] == 'seg':
                        fl = [f[1] for f in wd[2].fields if f[0] == wd[3]]
                        if fl:
                            step = fl[0]
                    v = 0
                else:
                    if wd[0] == 'seg':
                        fl = [f[1] for f in wd[2].fields if f[0] == wd[3]]
                        if not fl:
                            i += 1
                            continue
                        step = fl[0]
                        v = self.fresh("undef", step * 8)
                    else:
                        i += 1
                        continue
            if i + step > n:
                raise Limit("partial memcpy")
            t = _IntT(step)
            if isinstance(v, (Ptr, PtrInt, FPtr)) or (z3.is_expr(v) and z3.is_fp(v)) or v is UNDEF:
                wl = self.locate(st, dp, step, "memcpy")
                if wl[0] == 'seg':
                    if v is UNDEF:
                        v = self.fresh("undef", step * 8)
                        self.store(st, dp, v, t)
                    else:
                        raise Limit("pointer copied into a segment")
                else:
                    self.put_cell(st, wl[1], wl[2], step, v)
            else:
                self.store(st, dp, v, t, "memcpy")
            i += step

    # ---------------------------------------------------------------- constants
    def const_val(self, st, c):
        k = c[0]
        if k == 'i':
            return c[1]
        if k == 'null':
            return NULL
        if k == 'f':
            return FPtr(c[1])
        if k == 'g':
            return Ptr(self.global_region(st, c[1]).id)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(c[2] if len(c) > 2 else c[1])
        if k == 'fp':
            return self.fpconst(c[1], c[2])
        if k == 'agg':
            return tuple(self.const_val(st, x) for x in c[1])
        if k == 'str':
            return c
        if k == 'ce':
            i = c[1]
            ops = [self.const_val(st, o) for o in i.ops]
            if i.op == 'gep':
                return self.gep(st, i.x, ops)
            if i.op in ('bitcast', 'ptrtoint', 'inttoptr'):
                return ops[0]
            raise Limit("constant expression " + i.op)
        if k == 'meta':
            return None
        raise Limit(f"constant {k}")

    def fpconst(self, text, ty):
        if text.startswith("0xK"):
            b = int(text[3:], 16)
            return z3.simplify(z3.fpFP(BitVecVal(b >> 79, 1), BitVecVal((b >> 64) & mask(15), 15),
                                       BitVecVal(b & mask(63), 63)))
        if text.startswith("0x"):
            b = int(text[2:], 16)
            v = z3.fpBVToFP(BitVecVal(b, 64), FP64)
            return z3.simplify(v if ty.k == 'double' else z3.fpToFP(RNE, v, FP32))
        import struct
        if ty.k in ('double', 'float'):
            b = struct.unpack('<Q', struct.pack('<d', float(text)))[0]
            v = z3.fpBVToFP(BitVecVal(b, 64), FP64)
            return z3.simplify(v if ty.k == 'double' else z3.fpToFP(RNE, v, FP32))
        raise Limit("fp constant " + text)

    def global_region(self, st, name):
        r = self.globals.get(name)
        if r is None:
            ty, init, const = self.mod.global_init(name)
            r = self.region(name, ty.size, 'zero', ty)
            self.globals[name] = r
            r.const = const
            if name in self.global_hook:
                self.global_hook[name](self, r)
            elif init is None:
                r.kind = 'sym' if ty.k != 'opaque' else 'undef'
                r.size = ty.size or None
            elif name in self.globals_sym:
                r.kind = 'sym'
            else:
                if init[0] == 'str':
                    r.strbytes = init[1]
                elif init[0] != 'zero':
                    r.base['init'] = self.flatten(st, init, ty)
            if not r.segs and ty.k == 'array' and ty.n > 64 and ty.elt.k == 'int' and r.strbytes is None \
                    and name not in self.global_hook:
                r.segs.append(Seg(0, ty.elt.size, ty.n, [(0, ty.elt.size, 'v')], 'a'))
                if 'init' in r.base:
                    a = z3.K(z3.BitVecSort(32), BitVecVal(0, ty.elt.size * 8))
                    for o, s, v in r.base['init']:
                        a = z3.Store(a, BitVecVal(o // ty.elt.size, 32), bv(v, s * 8))
                    r.base[('a', 0)] = a
                    del r.base['init']
        if r.id not in st.mem:
            rs = RS()
            for o, s, v in r.base.get('init', ()):
                rs.cells[o] = (s, v)
            st.mem[r.id] = rs
        return r

    def flatten(self, st, c, ty, off=0, out=None):
        if out is None:
            out = []
        if ty.k == 'struct':
            if c[0] in ('zero', 'undef'):
                return out
            for x, e, o in zip(c[1], ty.elts, ty.offs):
                self.flatten(st, x, e, off + o, out)
        elif ty.k == 'array':
            if c[0] in ('zero', 'undef'):
                return out
            if c[0] == 'str':
                for i, b in enumerate(c[1]):
                    out.append((off + i, 1, b))
            else:
                for i, x in enumerate(c[1]):
                    self.flatten(st, x, ty.elt, off + i * ty.elt.size, out)
        else:
            v = self.const_val(st, c)
            if v is not UNDEF:
                out.append((off, ty.size, v))
        return out

    # ---------------------------------------------------------------- pointers
    def gep(self, st, ty, ops):
        p = ops[0]
        if isinstance(p, PtrInt):
            p = p.p
        if p is UNDEF:
            raise Limit("gep on undef")
        c = p.c
        t = p.t
        cur = ty
        for n, ix in enumerate(ops[1:]):
            if n == 0:
                size = ty.size
            elif cur.k == 'struct':
                c += cur.offs[ix]
                cur = cur.elts[ix]
                continue
            else:
                cur = cur.elt
                size = cur.size
            if isc(ix):
                # index width: treat as signed of its own width (constants decoded unsigned)
                c += size * ix
            else:
                if ix is UNDEF:
                    raise Limit("gep index undef")
                _, dc, t = self.addterm(t, ix, size)
                c += dc
        return Ptr(p.r, c & mask(64), t)

    def addterm(self, t, ix, size):
        e = ix
        if isinstance(e, PtrInt):
            raise Limit("pointer used as index")
        w = e.size()
        if w < 64:
            e = SignExt(64 - w, e)
        e = z3.simplify(e)
        # peel constant addends: bvadd(const, x)
        k = 1
        c = 0
        ch = True
        while ch:
            ch = False
            if z3.is_app_of(e, z3.Z3_OP_BADD) and z3.is_bv_value(e.arg(0)):
                c += k * e.arg(0).as_long()
                rest = [e.arg(i) for i in range(1, e.num_args())]
                e = rest[0] if len(rest) == 1 else sum_bv(rest)
                ch = True
            elif z3.is_app_of(e, z3.Z3_OP_BMUL) and z3.is_bv_value(e.arg(0)):
                k *= e.arg(0).as_long()
                rest = [e.arg(i) for i in range(1, e.num_args())]
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                e = r
                ch = True
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            for i in range(e.num_args()):
                a = e.arg(i)
                kk = k
                if z3.is_app_of(a, z3.Z3_OP_BMUL) and z3.is_bv_value(a.arg(0)):
                    kk = k * a.arg(0).as_long()
                    r = a.arg(1)
                    for j in range(2, a.num_args()):
                        r = r * a.arg(j)
                    a = r
                t = lin_add(t, (((size * kk) & mask(64), a),))
        else:
            if z3.is_bv_value(e):
                return ('c', size * (c + k * e.as_long()), t)
            t = lin_add(t, (((size * k) & mask(64), e),))
        return ('c', size * c, t)

    def ptr_eq(self, st, a, b):
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            if isinstance(a, FPtr) and isinstance(b, FPtr):
                return int(a.name == b.name)
            return 0
        if a.r != b.r:
            return 0
        t = lin_add(a.t, tuple(((-k) & mask(64), e) for k, e in b.t))
        if not t:
            return int((a.c - b.c) & mask(64) == 0)
        return simp(off_bv(Ptr(None, (a.c - b.c) & mask(64), t)) == 0)

    def ptr_diff(self, a, b):
        if a.r != b.r:
            raise Limit("difference of pointers to different objects")
        t = lin_add(a.t, tuple(((-k) & mask(64), e) for k, e in b.t))
        c = (a.c - b.c) & mask(64)
        if not t:
            return c
        return LinInt(c, t)

    # ---------------------------------------------------------------- running
    def new_frame(self, fn, args, ret, inv):
        self.mod.body(fn)
        f = Frame()
        f.fn = fn; f.blk = 0; f.ip = 0; f.prev = -1
        f.loc = [None] * fn.nslots
        for i, a in enumerate(args[:len(fn.params)]):
            f.loc[i] = a
        f.ret = ret; f.inv = inv; f.cnt = {}; f.allocas = []; f.cut = {}; f.resume = False
        return f

    def run_function(self, fn, st, args):
        """Execute fn from st; return the list of terminal states (kind 'ret'/'throw')."""
        st.frames.append(self.new_frame(fn, args, None, None))
        base = len(st.frames)
        return self.run(st, base)

    def run(self, st, base):
        done = []
        work = [st]
        parked = []
        while work:
            s = work.pop()
            try:
                r = self.run_path(s, base)
            except PathEnd:
                r = []
            if r is None:
                done.append(s)
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Limit(f"more than {self.max_paths} paths")
            elif r == 'park':
                parked.append(s)
                if len(parked) == 1 and not work:
                    work, parked = parked, []
            else:
                work.extend(r)
            if not work and parked:
                work, parked = self.join(parked), []
        return done

    def join(self, states):
        """Merge states waiting at the same loop header that differ only in their path conditions."""
        groups = {}
        for s in states:
            key = tuple((id(f.fn), f.blk, f.prev if f is s.frames[-1] and f.fn.blocks[f.blk].insts[0].op == 'phi' else 0, f.ip)
                        for f in s.frames)
            for t in groups.setdefault(key, []):
                if self.join2(t, s):
                    break
            else:
                groups[key].append(s)
        return [s for g in groups.values() for s in g]

    def join2(self, a, b):
        """Fold b into a; False when they differ in more than the path condition."""
        if not same_val(a.ghost, b.ghost):
            return False
        upd = []
        for f, g in zip(a.frames, b.frames):
            if f is a.frames[-1]:
                live = cross_block(f.fn)
                loops = find_loops(f.fn)
                for k in set(f.cnt) | set(g.cnt):
                    if f.cnt.get(k) != g.cnt.get(k) and (k == f.blk or f.blk in loops[k]):
                        return False
                for k in range(len(f.loc)):
                    if k in live and not same_val(f.loc[k], g.loc[k]):
                        return False
            elif f.cnt != g.cnt or f.cut != g.cut or not all(same_val(x, y) for x, y in zip(f.loc, g.loc)):
                return False
        for rid, r1 in a.mem.items():
            r2 = b.mem.get(rid)
            if r2 is None or r1 is r2:
                continue
            if set(r1.arrs) != set(r2.arrs) or any(not same_val(x, r2.arrs[k]) for k, x in r1.arrs.items()):
                return False
            if r1.cells.keys() != r2.cells.keys():
                return False
            for off, c1 in r1.cells.items():
                c2 = r2.cells[off]
                if c1 is c2 or same_val(c1, c2):
                    continue
                v1, v2 = c1[1], c2[1]
                if c1[0] == c2[0] == 1 and len(upd) < 4 and isinstance(v1, (int, z3.ExprRef)) and isinstance(v2, (int, z3.ExprRef)):
                    upd.append((rid, off, v1, v2))
                else:
                    return False
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        ca, cb = And(*a.pc[n:]) if len(a.pc) > n else z3.BoolVal(True), And(*b.pc[n:]) if len(b.pc) > n else z3.BoolVal(True)
        for rid, off, v1, v2 in upd:
            self.wrs(a, self.regions[rid]).cells[off] = (1, simp(If(ca, bv(v1, 8), bv(v2, 8))))
        for rid in [k for k in a.mem if k not in b.mem]:
            del a.mem[rid]
        a.pc[n:] = [z3.simplify(Or(ca, cb))]
        self.joins = getattr(self, 'joins', 0) + 1
        return True

    def goto(self, f, tgt):
        f.prev = f.blk
        f.blk = tgt
        f.ip = 0

    def run_path(self, st, base):
        """Run until the path ends (None) or forks (list of states)."""
        while len(st.frames) >= base:
            f = st.frames[-1]
            blk = f.fn.blocks[f.blk]
            if f.ip == 0:
                r = self.enter_block(st, f, blk)
                if r is not None:
                    return r
                continue
            i = f.ip
            ins = blk.insts[i - 1]
            f.ip = i + 1
            r = self.step(st, f, ins)
            if r.__class__ is list:
                return r
        return None

    def enter_block(self, st, f, blk):
        loops = find_loops(f.fn)
        if blk.idx in loops:
            body = loops[blk.idx]
            if f.prev in body and not f.resume and (f.fn.dem, sorted(loops).index(blk.idx)) not in self.loopinv:
                f.resume = True
                return 'park'
            f.resume = False
            if f.prev in body:
                n = f.cnt.get(blk.idx, 0) + 1
            else:
                n = 0
            f.cnt[blk.idx] = n
            inv = self.loopinv.get((f.fn.dem, sorted(loops).index(blk.idx)))
            if inv is not None:
                return inv.at_header(self, st, f, blk, body, n)
            if n > self.unroll:
                raise Limit(f"loop in {f.fn.dem.split('(')[0]} not exhausted after {self.unroll} unrollings")
        # phis
        phis = []
        for i in blk.insts:
            if i.op != 'phi':
                break
            phis.append((i.id, self.val(st, f, i.x[f.prev])))
        for k, v in phis:
            f.loc[k] = v
        f.ip = len(phis) + 1
        return None

    def val(self, st, f, o):
        if o[0] == 'l':
            v = f.loc[o[1]]
            return v
        if o[0] == 'i':
            return o[1]
        return self.const_val(st, o)

    def fork(self, st, alts):
        """alts: list of (cond, fn(state)); keeps the feasible ones."""
        out = []
        conds = []
        for cond, act in alts:
            c = simp(tobool(cond))
            if isc(c):
                if c == 0:
                    continue
                act(st)
                return None
            conds.append((c, act))
        feas = []
        for n, (c, act) in enumerate(conds):
            if n == len(conds) - 1 and not feas:
                feas.append((c, act))   # the alternatives are exhaustive
                break
            if self.feasible(st.pc, c) != 'unsat':
                feas.append((c, act))
        if not feas:
            raise PathEnd()
        if len(feas) == 1:
            c, act = feas[0]
            if c is not None:
                st.pc.append(c)
            act(st)
            return None
        for c, act in feas:
            s = st.fork()
            if c is not None:
                s.pc.append(c)
            act(s)
            out.append(s)
        return out

    def step(self, st, f, i):
        op = i.op
        h = getattr(self, "op_" + op, None)
        if h is None:
            raise Limit("instruction " + op)
        return h(st, f, i)

    # ---------------------------------------------------------------- instructions
    def op_alloca(self, st, f, i):
        n = self.val(st, f, i.ops[0])
        if not isc(n):
            raise Limit("variable-length alloca")
        r = self.region(f"{f.fn.dem.split('(')[0]}.alloca{i.id}", i.x.size * n, 'undef', i.x)
        st.mem[r.id] = RS()
        f.loc[i.id] = Ptr(r.id)

    def op_load(self, st, f, i):
        p = self.val(st, f, i.ops[0])
        if p is UNDEF:
            raise Limit("load through undef pointer in " + self.where(st))
        if isinstance(p, FPtr):
            raise Limit("load through a function pointer")
        if isinstance(p, PtrInt):
            p = p.p
        try:
            f.loc[i.id] = self.load(st, p, i.ty)
        except ForkLoad as e:
            alts = []
            for o, v in e.vals:
                def act(s, v=v, k=i.id):
                    s.frames[-1].loc[k] = v
                alts.append((e.off == BitVecVal(o, 64), act))
            return self.fork(st, alts)

    def op_store(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        p = self.val(st, f, i.ops[1])
        if isinstance(p, PtrInt):
            p = p.p
        if isinstance(v, FPtr):
            v = v
        self.store(st, p, v, i.x)

    def op_gep(self, st, f, i):
        ops = [self.val(st, f, o) for o in i.ops]
        # constants are unsigned-decoded: sign-fix them
        fixed = [ops[0]]
        for o, v in zip(i.ops[1:], ops[1:]):
            if o[0] == 'i':
                v = sgn(v, o[2])
            elif isc(v):
                v = sgn(v, 64) if v >> 32 else sgn(v, 64)
                v = self.sfix(f, o, v)
            elif isinstance(v, LinInt):
                v = v.bv()
            fixed.append(v)
        f.loc[i.id] = self.gep(st, i.x, fixed)

    def sfix(self, f, o, v):
        return v

    def op_br(self, st, f, i):
        if not i.ops:
            self.goto(f, i.x[0])
            return
        c = self.val(st, f, i.ops[0])
        if c is UNDEF:
            self.oblige(st, False, 'undef', "branch on an uninitialised value", assume=False)
            c = self.freshbool("undef")
        if isc(c):
            self.goto(f, i.x[0] if c else i.x[1])
            return
        b = tobool(c)
        if f.fn.dem in self.merge_fns and self.merge_diamond(st, f, i, b):
            return
        return self.fork(st, [(b, lambda s: self.goto(s.frames[-1], i.x[0])),
                              (Not(b), lambda s: self.goto(s.frames[-1], i.x[1]))])

    def merge_diamond(self, st, f, i, b):
        """`if (b) { straight-line block }`: execute both ways and join the states."""
        for tb, fb, cond in ((i.x[0], i.x[1], b), (i.x[1], i.x[0], Not(b))):
            blk = f.fn.blocks[tb]
            t = blk.insts[-1]
            if t.op != 'br' or t.ops or list(t.x) != [fb] or tb == fb:
                continue
            if f.fn.blocks[fb].insts[0].op == 'phi' or any(x.op in ('call', 'invoke', 'phi', 'alloca') for x in blk.insts):
                continue
            s = st.fork()
            s.pc.append(cond)
            g = s.frames[-1]
            self.goto(g, tb)
            self.enter_block(s, g, blk)
            n0 = len(s.pc)
            try:
                for ins in blk.insts[g.ip - 1:-1]:
                    if self.step(s, g, ins) is not None:
                        return False
            except PathEnd:
                return False
            # join
            upd = []
            for rid, r2 in s.mem.items():
                r1 = st.mem.get(rid)
                if r1 is r2:
                    continue
                if r1 is None or r1.arrs != r2.arrs:
                    return False
                for off, c2 in r2.cells.items():
                    c1 = r1.cells.get(off)
                    if c1 is c2 or (c1 is not None and c1[1] is c2[1]):
                        continue
                    if c1 is None or c1[0] != c2[0]:
                        return False
                    v1, v2 = c1[1], c2[1]
                    if isinstance(v1, (int, z3.BitVecRef)) and isinstance(v2, (int, z3.BitVecRef)):
                        v = simp(If(cond, bv(v2, 8 * c1[0]), bv(v1, 8 * c1[0])))
                    elif z3.is_expr(v1) and z3.is_expr(v2) and v1.sort() == v2.sort():
                        v = z3.simplify(If(cond, v2, v1))
                    else:
                        return False
                    upd.append((rid, off, c1[0], v))
            for x in s.pc[n0:]:
                st.pc.append(z3.Implies(cond, x))
            for rid, off, sz, v in upd:
                self.wrs(st, self.regions[rid]).cells[off] = (sz, v)
            self.goto(f, fb)
            f.prev = tb
            return True
        return False

    def op_switch(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        w = i.x[0]
        dflt, cases = i.x
        if isc(v):
            for k, d in cases:
                if k == v:
                    self.goto(f, d)
                    return
            self.goto(f, dflt)
            return
        if v is UNDEF:
            self.oblige(st, False, 'undef', "switch on an uninitialised value", assume=False)
            raise PathEnd()
        w = v.size()
        bydest = {}
        for k, d in cases:
            bydest.setdefault(d, []).append(k)
        alts = []
        for d, ks in bydest.items():
            alts.append((Or(*[v == BitVecVal(k, w) for k in ks]),
                         lambda s, d=d: self.goto(s.frames[-1], d)))
        alts.append((And(*[v != BitVecVal(k, w) for k, _ in cases]) if cases else True,
                     lambda s: self.goto(s.frames[-1], dflt)))
        return self.fork(st, alts)

    def op_unreachable(self, st, f, i):
        self.oblige(st, False, 'unreachable', "unreachable code is not reached", assume=False)
        raise PathEnd()

    def op_ret(self, st, f, i):
        v = self.val(st, f, i.ops[0]) if i.ops else None
        st.frames.pop()
        if f.ret is None:
            st.kind = 'ret'
            st.result = v
            return 'end'
        g = st.frames[-1]
        g.loc[f.ret] = v
        if f.inv is not None:
            self.goto(g, f.inv[0])
        return 'end'

    def throw(self, st, exc):
        """Unwind to the nearest handler that can catch exc=(ptr, typeinfo name)."""
        while st.frames:
            f = st.frames.pop()
            if f.ret is None:
                st.kind = 'throw'
                st.exc = exc
                return
            g = st.frames[-1]
            if f.inv is not None and self.land(st, g, f.inv[1], exc):
                return
        st.kind = 'throw'
        st.exc = exc

    def land(self, st, g, blk, exc):
        b = g.fn.blocks[blk]
        lp = next(i for i in b.insts if i.op == 'landingpad')
        for c in lp.x[1]:
            if c == ('null',) or (c[0] in ('g',) and catches(c[1], exc[1])):
                self.goto(g, blk)
                st.ghost['pending'] = (exc, self.typeid(c))
                return True
        return False

    def typeid(self, c):
        k = c[1] if c[0] == 'g' else ''
        return self.typeids.setdefault(k, len(self.typeids) + 1)

    def op_landingpad(self, st, f, i):
        exc, sel = st.ghost.pop('pending')
        st.ghost['caught'] = exc
        f.loc[i.id] = (exc[0], sel)

    def op_resume(self, st, f, i):
        exc = st.ghost.get('caught')
        # emulate: exception leaves this frame
        f2 = st.frames.pop()
        if f2.ret is None:
            st.kind = 'throw'
            st.exc = exc
            return 'end'
        g = st.frames[-1]
        if f2.inv is not None and self.land(st, g, f2.inv[1], exc):
            return 'end'
        self.throw(st, exc)
        return 'end'

    def op_extractvalue(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        if v is UNDEF:
            f.loc[i.id] = UNDEF
            return
        for k in i.x:
            v = v[k]
        f.loc[i.id] = v

    def op_insertvalue(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        x = self.val(st, f, i.ops[1])
        if len(i.x) != 1:
            raise Limit("nested insertvalue")
        if v is UNDEF:
            n = len(i.ty.elts) if i.ty.k == 'struct' else i.ty.n
            v = tuple([UNDEF] * n)
        v = list(v)
        v[i.x[0]] = x
        f.loc[i.id] = tuple(v)

    def op_phi(self, st, f, i):
        raise Limit("phi outside block head")

    def op_select(self, st, f, i):
        c = self.val(st, f, i.ops[0])
        a = self.val(st, f, i.ops[1])
        b = self.val(st, f, i.ops[2])
        if isc(c):
            f.loc[i.id] = a if c else b
            return
        if i.ty.k == 'int' and not isinstance(a, (LinInt, PtrInt)) and not isinstance(b, (LinInt, PtrInt)) \
                and a is not UNDEF and b is not UNDEF:
            if i.ty.w == 1:
                f.loc[i.id] = simp(If(tobool(c), tobool(a), tobool(b)))
            else:
                f.loc[i.id] = simp(If(tobool(c), bv(a, i.ty.w), bv(b, i.ty.w)))
            return
        if i.ty.k in ('fp80', 'double', 'float'):
            f.loc[i.id] = z3.simplify(If(tobool(c), a, b))
            return
        cb = tobool(c)
        k = i.id
        def sa(s): s.frames[-1].loc[k] = a
        def sb(s): s.frames[-1].loc[k] = b
        return self.fork(st, [(cb, sa), (Not(cb), sb)])

    def op_freeze(self, st, f, i):
        f.loc[i.id] = self.val(st, f, i.ops[0])

    def op_fence(self, st, f, i):
        pass

    def ints(self, st, f, i):
        a = self.val(st, f, i.ops[0])
        b = self.val(st, f, i.ops[1])
        w = i.ty.w
        if a is UNDEF or b is UNDEF:
            self.oblige(st, False, 'undef', "arithmetic on an uninitialised value", assume=False)
            if a is UNDEF:
                a = self.fresh("undef", w)
            if b is UNDEF:
                b = self.fresh("undef", w)
        return a, b, w

    def _arith(self, st, f, i, pyop, zop, ovf):
        a, b, w = self.ints(st, f, i)
        if isinstance(a, (PtrInt, LinInt)) or isinstance(b, (PtrInt, LinInt)):
            f.loc[i.id] = self.ptr_arith(i.op, a, b)
            return
        if isc(a) and isc(b):
            r = pyop(a, b) & mask(w)
            if self.check_overflow and i.nsw and not (-(1 << (w - 1)) <= pyop(sgn(a, w), sgn(b, w)) < (1 << (w - 1))):
                self.oblige(st, False, 'overflow', f"signed {i.op} does not overflow", assume=False)
            f.loc[i.id] = r
            return
        if w == 1:
            A, B = tobool(a), tobool(b)
            f.loc[i.id] = simp(z3.Xor(A, B) if i.op in ('add', 'sub') else And(A, B))
            return
        A, B = bv(a, w), bv(b, w)
        if i.nsw and self.check_overflow:
            self.oblige(st, ovf(A, B, w), 'overflow', f"signed {i.op} does not overflow", assume=False)
        f.loc[i.id] = simp(zop(A, B))

    def op_add(self, st, f, i):
        self._arith(st, f, i, lambda a, b: a + b, lambda a, b: a + b,
                    lambda a, b, w: And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))

    def op_sub(self, st, f, i):
        self._arith(st, f, i, lambda a, b: a - b, lambda a, b: a - b,
                    lambda a, b, w: And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))

    def op_mul(self, st, f, i):
        self._arith(st, f, i, lambda a, b: a * b, dom.mul,
                    lambda a, b, w: SignExt(w, a) * SignExt(w, b) == SignExt(w, a * b))

    def ptr_arith(self, op, a, b):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return self.ptr_diff(a.p, b.p)
        if isinstance(a, LinInt) and isc(b):
            return {'add': lambda: LinInt(a.c + b, a.t), 'sub': lambda: LinInt(a.c - b, a.t)}[op]()
        if isinstance(a, LinInt):
            a = a.bv()
        if isinstance(b, LinInt):
            b = b.bv()
        if isinstance(a, PtrInt) and (isc(b)) and op in ('add', 'sub'):
            return PtrInt(Ptr(a.p.r, (a.p.c + (b if op == 'add' else -b)) & mask(64), a.p.t))
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            raise Limit("pointer arithmetic " + op)
        A, B = bv(a, 64), bv(b, 64)
        return simp({'add': A + B, 'sub': A - B, 'mul': A * B}[op])

    def _div(self, st, f, i, signed, rem):
        a, b, w = self.ints(st, f, i)
        if isinstance(a, LinInt) and isc(b):
            # exact division of a pointer difference by an element size
            if all(sgn(k, 64) % b == 0 for k, _ in a.t) and sgn(a.c & mask(64), 64) % b == 0 and not rem:
                t = tuple(((sgn(k, 64) // b) & mask(64), e) for k, e in a.t)
                l = LinInt((sgn(a.c & mask(64), 64) // b), t)
                f.loc[i.id] = simp(l.bv())
                return
            a = a.bv()
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            raise Limit("pointer division")
        if isc(a) and isc(b):
            if b == 0:
                self.oblige(st, False, 'div0', "divisor is not zero", assume=False)
                raise PathEnd()
            if signed:
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                f.loc[i.id] = ((x - q * y) if rem else q) & mask(w)
            else:
                f.loc[i.id] = a % b if rem else a // b
            return
        A, B = bv(a, w), bv(b, w)
        self.oblige(st, B != 0, 'div0', "divisor is not zero")
        if signed:
            if not (isc(b) and b != mask(w)):
                self.oblige(st, Not(And(A == BitVecVal(1 << (w - 1), w), B == BitVecVal(mask(w), w))), 'overflow',
                            "signed division does not overflow", assume=False)
            r = z3.SRem(A, B) if rem else A / B
        else:
            r = z3.URem(A, B) if rem else z3.UDiv(A, B)
        f.loc[i.id] = simp(r)

    def op_sdiv(self, st, f, i): self._div(st, f, i, True, False)
    def op_udiv(self, st, f, i): self._div(st, f, i, False, False)
    def op_srem(self, st, f, i): self._div(st, f, i, True, True)
    def op_urem(self, st, f, i): self._div(st, f, i, False, True)

    def _logic(self, st, f, i, py, zz, bb):
        a, b, w = self.ints(st, f, i)
        if isinstance(a, LinInt): a = a.bv()
        if isinstance(b, LinInt): b = b.bv()
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            raise Limit("pointer logic")
        if isc(a) and isc(b):
            f.loc[i.id] = py(a, b)
        elif w == 1:
            f.loc[i.id] = simp(bb(tobool(a), tobool(b)))
        else:
            f.loc[i.id] = simp(zz(bv(a, w), bv(b, w)))

    def op_and(self, st, f, i): self._logic(st, f, i, lambda a, b: a & b, lambda a, b: a & b, lambda a, b: And(a, b))
    def op_or(self, st, f, i): self._logic(st, f, i, lambda a, b: a | b, lambda a, b: a | b, lambda a, b: Or(a, b))
    def op_xor(self, st, f, i): self._logic(st, f, i, lambda a, b: a ^ b, lambda a, b: a ^ b, lambda a, b: z3.Xor(a, b))

    def _shift(self, st, f, i, py, zz):
        a, b, w = self.ints(st, f, i)
        if isinstance(a, LinInt):
            if isc(b) and i.op in ('ashr',) and all(sgn(k, 64) % (1 << b) == 0 for k, _ in a.t) \
                    and sgn(a.c & mask(64), 64) % (1 << b) == 0:
                l = LinInt(sgn(a.c & mask(64), 64) >> b, tuple(((sgn(k, 64) >> b) & mask(64), e) for k, e in a.t))
                f.loc[i.id] = simp(l.bv())
                return
            a = a.bv()
        if isc(a) and isc(b):
            if b >= w:
                self.oblige(st, False, 'shift', "shift amount is below the width", assume=False)
                f.loc[i.id] = self.fresh("shift", w)
            else:
                f.loc[i.id] = py(a, b, w)
            return
        A, B = bv(a, w), bv(b, w)
        if isc(b):
            if b >= w:
                self.oblige(st, False, 'shift', "shift amount is below the width", assume=False)
        elif self.check_ub:
            self.oblige(st, z3.ULT(B, BitVecVal(w, w)), 'shift', "shift amount is below the width", assume=False)
            # x86 semantics of the code that actually runs: the amount is taken modulo the width
            B = B & BitVecVal(w - 1, w)
        f.loc[i.id] = simp(zz(A, B))

    def op_shl(self, st, f, i):
        if i.nsw:
            a, b, w = self.ints(st, f, i)
        self._shift(st, f, i, lambda a, b, w: (a << b) & mask(w), lambda a, b: a << b)
    def op_lshr(self, st, f, i): self._shift(st, f, i, lambda a, b, w: a >> b, lambda a, b: z3.LShR(a, b))
    def op_ashr(self, st, f, i): self._shift(st, f, i, lambda a, b, w: (sgn(a, w) >> b) & mask(w), lambda a, b: a >> b)

    def _src(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        if v is UNDEF:
            return UNDEF
        if isinstance(v, LinInt):
            v = v.bv()
        return v

    def op_trunc(self, st, f, i):
        v = self._src(st, f, i)
        w = i.ty.w
        if v is UNDEF:
            f.loc[i.id] = v
        elif isinstance(v, PtrInt):
            raise Limit("trunc of pointer")
        elif isc(v):
            f.loc[i.id] = v & mask(w)
        elif w == 1:
            f.loc[i.id] = simp(Extract(0, 0, v) == 1)
        else:
            f.loc[i.id] = simp(Extract(w - 1, 0, v))

    def op_zext(self, st, f, i):
        v = self._src(st, f, i)
        if v is UNDEF or isc(v):
            f.loc[i.id] = v
        elif isinstance(v, BoolRef):
            f.loc[i.id] = simp(bv(v, i.ty.w))
        else:
            f.loc[i.id] = simp(ZeroExt(i.ty.w - v.size(), v))

    def op_sext(self, st, f, i):
        v = self._src(st, f, i)
        if v is UNDEF:
            f.loc[i.id] = v
        elif isc(v):
            f.loc[i.id] = sgn(v, i.x.w) & mask(i.ty.w)
        elif isinstance(v, BoolRef):
            f.loc[i.id] = simp(If(v, BitVecVal(mask(i.ty.w), i.ty.w), BitVecVal(0, i.ty.w)))
        else:
            f.loc[i.id] = simp(dom.sext(simpbv(v), i.ty.w - v.size()))

    def op_bitcast(self, st, f, i):
        f.loc[i.id] = self.coerce(self._src(st, f, i), i.ty)

    def op_ptrtoint(self, st, f, i):
        p = self.val(st, f, i.ops[0])
        if isinstance(p, Ptr) and p.r is None and not p.t:
            f.loc[i.id] = p.c
        else:
            f.loc[i.id] = PtrInt(p)

    def op_inttoptr(self, st, f, i):
        p = self.val(st, f, i.ops[0])
        f.loc[i.id] = p.p if isinstance(p, PtrInt) else Ptr(None, p) if isc(p) else Ptr(None, 0, ((1, p),))

    def op_icmp(self, st, f, i):
        a = self.val(st, f, i.ops[0])
        b = self.val(st, f, i.ops[1])
        pred, ty = i.x
        if a is UNDEF or b is UNDEF:
            self.oblige(st, False, 'undef', "comparison of an uninitialised value", assume=False)
            f.loc[i.id] = self.freshbool("undef")
            return
        if isinstance(a, LinInt): a = a.bv()
        if isinstance(b, LinInt): b = b.bv()
        if isinstance(a, PtrInt): a = a.p
        if isinstance(b, PtrInt): b = b.p
        if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            if isc(a): a = Ptr(None, a)
            if isc(b): b = Ptr(None, b)
            if pred in ('eq', 'ne'):
                r = self.ptr_eq(st, a, b)
                f.loc[i.id] = r if pred == 'eq' else (1 - r if isc(r) else simp(Not(r)))
                return
            d = self.ptr_diff(a, b)
            d = d.bv() if isinstance(d, LinInt) else BitVecVal(d, 64)
            z = BitVecVal(0, 64)
            f.loc[i.id] = simp({'ult': d < z, 'ule': d <= z, 'ugt': d > z, 'uge': d >= z,
                                'slt': d < z, 'sle': d <= z, 'sgt': d > z, 'sge': d >= z}[pred])
            return
        w = ty.w
        if isc(a) and isc(b):
            x, y = (sgn(a, w), sgn(b, w)) if pred[0] == 's' else (a, b)
            k = pred[-2:] if pred not in ('eq', 'ne') else pred
            f.loc[i.id] = int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[k])
            return
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq':
                f.loc[i.id] = simp(A == B)
            elif pred == 'ne':
                f.loc[i.id] = simp(z3.Xor(A, B))
            else:
                raise Limit("ordered comparison of i1")
            return
        A, B = bv(a, w), bv(b, w)
        f.loc[i.id] = simp({'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B),
                            'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
                            'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B,
                            'sle': lambda: A <= B}[pred]())

    # floating point
    def op_fcmp(self, st, f, i):
        a = self.val(st, f, i.ops[0])
        b = self.val(st, f, i.ops[1])
        p = i.x[0]
        if p in ('true', 'false'):
            f.loc[i.id] = int(p == 'true')
            return
        eq, lt, gt = z3.fpEQ(a, b), z3.fpLT(a, b), z3.fpLT(b, a)
        uno = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        r = {'oeq': eq, 'ogt': gt, 'oge': z3.fpLEQ(b, a), 'olt': lt, 'ole': z3.fpLEQ(a, b),
             'one': Or(lt, gt), 'ord': Not(uno), 'uno': uno, 'ueq': Or(uno, eq), 'ugt': Or(uno, gt),
             'uge': Or(uno, z3.fpLEQ(b, a)), 'ult': Or(uno, lt), 'ule': Or(uno, z3.fpLEQ(a, b)),
             'une': Not(eq)}[p]
        f.loc[i.id] = simp(r)

    def _fbin(self, st, f, i, op):
        a = self.val(st, f, i.ops[0])
        b = self.val(st, f, i.ops[1])
        if a is UNDEF or b is UNDEF:
            self.oblige(st, False, 'undef', 'arithmetic on an uninitialised value', assume=False)
            raise PathEnd()
        r = f.loc[i.id] = dom.fbin(op, a, b)
        if dom.MODE['digits'] and not dom.isfpc(r):
            self.digit_step(st, op, a, b, r)

    def op_fadd(self, st, f, i): self._fbin(st, f, i, 'add')
    def op_fsub(self, st, f, i): self._fbin(st, f, i, 'sub')
    def op_fmul(self, st, f, i): self._fbin(st, f, i, 'mul')
    def op_fdiv(self, st, f, i): self._fbin(st, f, i, 'div')

    def op_fneg(self, st, f, i):
        f.loc[i.id] = z3.simplify(z3.fpNeg(self.val(st, f, i.ops[0])))

    def op_fpext(self, st, f, i):
        f.loc[i.id] = z3.simplify(z3.fpToFP(RNE, self.val(st, f, i.ops[0]), fsort(i.ty)))

    def op_fptrunc(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        if v is UNDEF or fsort(i.ty) != z3.FPSort(11, 53) or v.sort() != FP80:
            raise Limit("fptrunc")
        f.loc[i.id] = dom.fptrunc(v)

    def op_sitofp(self, st, f, i):
        v = self._src(st, f, i)
        f.loc[i.id] = self.i2f(st, bv(v, i.x.w), fsort(i.ty))

    def op_uitofp(self, st, f, i):
        v = self._src(st, f, i)
        f.loc[i.id] = self.i2f(st, ZeroExt(32 if i.x.w == 32 else 1, bv(v, i.x.w)), fsort(i.ty))

    def fp_fields(self, st, x):
        """(sign, exponent, fraction) bit-vectors of a non-NaN FP80 value."""
        x = z3.simplify(x)
        if z3.is_app_of(x, z3.Z3_OP_FPA_FP):
            return x.arg(0), x.arg(1), x.arg(2)
        key = ('fields', x.get_id())
        v = self._fields.get(key)
        if v is None:
            self.nfresh += 1
            n = self.nfresh
            v = (BitVec(f"sg!{n}", 1), BitVec(f"ex!{n}", 15), BitVec(f"fr!{n}", 63), x)
            self._fields[key] = v
        self.fact(st, z3.fpFP(v[0], v[1], v[2]) == x)
        return v[:3]

    def exact_div(self, o, k):
        return simp(z3.UDiv(bv(o, 64), BitVecVal(k, 64)))

    def i2f(self, st, v, so):
        facts = []
        r = dom.sitofp(v, so, facts)
        for x in facts:
            self.fact(st, x)
        return r

    def fact(self, st, x):
        k = x.get_id()
        seen = st.ghost.get('facts', frozenset())
        if k not in seen:
            st.ghost['facts'] = seen | {k}
            self._keep.append(x)
            st.pc.append(x)

    def op_fptosi(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        self.fptoint(st, f, i, v, True)

    def op_fptoui(self, st, f, i):
        v = self.val(st, f, i.ops[0])
        self.fptoint(st, f, i, v, False)

    def digit_step(self, st, op, a, b, r):
        """Facts about a digit loop: kept aside (est) once established, so that long loops stay cheap."""
        if r.sort() == FP80 and op in ('mul', 'sub'):
            if op == 'mul' and dom.isfpc(a):
                a, b = b, a
            fs = dom.digit_facts(op, a, b, r)
            if fs:
                need, get = ('unit', 'ten') if op == 'mul' else ('ten', 'unit')
                if self.established(st, need, a):
                    st.ghost['est'] = {**st.ghost.get('est', {}), r.get_id(): (get, r)}
                return
        st.pc.extend(dom.digit_facts(op, a, b, r))

    def established(self, st, kind, a):
        k = st.ghost.get('est', {}).get(a.get_id())
        if k is not None and k[0] == kind:
            return True
        if k is not None:
            return False
        f = {'unit': dom.unit, 'ten': dom.ten}[kind](a)
        return self.prove(st.pc, f)[0] == 'proved'

    def fptoint(self, st, f, i, v, signed):
        w = i.ty.w
        so = v.sort()
        if dom.MODE['digits'] and so == FP80 and w == 32 and signed and st.ghost.get('est', {}).get(v.get_id(), ('',))[0] == 'ten':
            # dom.digit_facts: 0 <= v < 10, so the conversion is defined and gives a digit
            self.obls.append(Obligation('fptoint', "floating value fits the integer type it is converted to", 'proved', where=self.where(st)))
            f.loc[i.id] = simp(dom.fptosi(v, w))
            return
        if dom.MODE['digits'] and so == dom.FP64 and w == 32 and signed and not dom.isfpc(v) and self.prove(st.pc, dom.within(v, 641))[0] == 'proved':
            self.obls.append(Obligation('fptoint', "floating value fits the integer type it is converted to", 'proved', where=self.where(st)))
            r = f.loc[i.id] = simp(dom.fptosi(v, w))
            st.pc.append(And(r >= -641, r <= 641))
            return
        if self.check_ub:
            if signed:
                lo = fpint(-(1 << (w - 1)), so)
                hi = fpint(1 << (w - 1), so)
                # truncation towards zero must fit
                ok = And(Not(z3.fpIsNaN(v)), Not(z3.fpIsInf(v)), z3.fpGT(v, fpint_below(-(1 << (w - 1)) - 1, so)), z3.fpLT(v, hi))
            else:
                ok = And(Not(z3.fpIsNaN(v)), z3.fpGT(v, fpint(-1, so)), z3.fpLT(v, fpint(1 << w, so)))
            self.oblige(st, ok, 'fptoint', "floating value fits the integer type it is converted to", assume=True)
        r = dom.fptosi(v, w) if signed else dom.fptoui(v, w)
        f.loc[i.id] = simp(r)
        if dom.MODE['digits'] and signed and w == 32 and z3.is_expr(f.loc[i.id]) and not z3.is_bv_value(f.loc[i.id]):
            st.pc.extend(dom.digit_facts('digit', v, None, r))

    # calls
    def op_call(self, st, f, i):
        return self.do_call(st, f, i, None)

    def op_invoke(self, st, f, i):
        return self.do_call(st, f, i, (i.x[1], i.x[2]))

    def do_call(self, st, f, i, inv):
        callee = i.x[0]
        if callee[0] == 'asm':
            if not callee[1] and i.ty.k == 'void':
                return None
            raise Limit("inline assembly")
        args = [self.val(st, f, o) if o[0] != 'meta' else None for o in i.ops]
        if callee[0] == 'l':
            cv = f.loc[callee[1]]
            if not isinstance(cv, FPtr):
                raise Limit("indirect call in " + f.fn.dem)
            name = cv.name
        elif callee[0] == 'f':
            name = callee[1]
        else:
            raise Limit("call through " + str(callee))
        name = self.mod.aliases.get(name, name)
        fn = self.mod.funcs[name]
        outs = self.apply_callee(st, fn, args, i)
        if outs is None:
            st.frames.append(self.new_frame(fn, args, i.id, inv))
            self.inlined.add(fn.dem)
            if len(st.frames) > 60:
                raise Limit("recursion")
            return None
        res = []
        for s, kind, v in outs:
            g = s.frames[-1]
            if kind == 'ret':
                g.loc[i.id] = v
                if inv is not None:
                    self.goto(g, inv[0])
                res.append(s)
            else:
                exc = v if v is not None else (NULL, '_ZTISt13runtime_error')
                if inv is not None and self.land(s, g, inv[1], exc):
                    res.append(s)
                else:
                    # leave this frame
                    g = s.frames.pop()
                    if g.ret is None:
                        s.kind = 'throw'
                        s.exc = exc
                    else:
                        h = s.frames[-1]
                        if not (g.inv is not None and self.land(s, h, g.inv[1], exc)):
                            self.throw(s, exc)
                    res.append(s)
        if len(res) == 1 and res[0] is st:
            return None
        return list(res)

    def apply_callee(self, st, fn, args, ins):
        c = self.contracts.get(fn.dem)
        if c is not None:
            self.used_contracts.add(fn.dem)
            r = c(self, st, fn, args)
            if r is not None:
                return r
        m = self.model_for(fn.dem)
        if m is not None:
            self.used_models.add(m[1])
            r = m[0](self, st, fn, args, ins)
            if isinstance(r, list):
                return r
            if r is not INLINE:
                return [(st, 'ret', r)]
        if fn.decl:
            raise Limit("no model for external function " + fn.dem)
        return None

    def model_for(self, dem):
        r = self._mcache.get(dem, 0)
        if r != 0:
            return r
        r = None
        for rx, h, label in self.models:
            if rx.match(dem):
                r = (h, label)
                break
        self._mcache[dem] = r
        return r


class _IntT:
    k = 'int'
    def __init__(self, size):
        self.size = size; self.w = size * 8


def IntT(size): return _IntT(size)


class PathEnd(Exception):
    pass


class SymOffset(Exception):
    def __init__(self, p, r, size):
        self.p = p; self.r = r; self.size = size
        super().__init__(f"symbolic offset into {r.name}")


class ForkLoad(Exception):
    def __init__(self, off, vals):
        self.off = off; self.vals = vals


class PtrInt:
    __slots__ = ("p",)
    def __init__(self, p): self.p = p


class LinInt:
    __slots__ = ("c", "t")
    def __init__(self, c, t): self.c = c; self.t = t
    def bv(self): return simp(off_bv(Ptr(None, self.c & mask(64), self.t)))


INLINE = object()


def simpbv(v):
    return z3.simplify(v)


def sum_bv(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


def fsort(ty):
    return {'fp80': FP80, 'double': FP64, 'float': FP32}[ty.k]


def fpint(n, so):
    return z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(n), so))


def fpint_below(n, so):
    """Largest value of the sort <= n, for the open lower bound of a truncating conversion."""
    return z3.simplify(z3.fpRealToFP(z3.RTN(), z3.RealVal(n), so))


BASES = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
}


def catches(handler, thrown):
    return handler == thrown or handler in BASES.get(thrown, [])


def low32(e):
    """Extract(31,0,e) pushed through sums and extensions, so that equal indices look equal."""
    if z3.is_bv_value(e):
        return BitVecVal(e.as_long() & mask(32), 32)
    if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(e, z3.Z3_OP_SIGN_EXT):
        a = e.arg(0)
        if a.size() == 32:
            return a
    if z3.is_app_of(e, z3.Z3_OP_BADD) or z3.is_app_of(e, z3.Z3_OP_BMUL):
        r = low32(e.arg(0))
        for i in range(1, e.num_args()):
            x = low32(e.arg(i))
            r = r + x if z3.is_app_of(e, z3.Z3_OP_BADD) else r * x
        return z3.simplify(r)
    if z3.is_app_of(e, z3.Z3_OP_CONCAT):
        last = e.arg(e.num_args() - 1)
        if last.size() == 32:
            return last
    return z3.simplify(Extract(31, 0, e))
