"""Contracts of the simulator, as executable specification functions over the abstract state.

Each function says what a routine must do to the machine; the same text is the
postcondition proved of the routine's body, the contract assumed at its call sites,
and the oracle a counterexample is replayed against.
"""
import z3
import dom
from absstate import AS, Throw, Unspecified, w32, w64, LIMIT, B32, B64
from engine import Limit
from z3 import BitVecVal, BitVec, Extract, Concat, ZeroExt, SignExt, If, And, Or, Not, Select, Store, ULT, ULE, UGE, UGT

NUL, INTA, REALA, INT, REAL = range(5)
(PUSH_VALUE, PUSH_ADDRESS, PUSH_STRING, REMOVE_ARG, ADD, SUBTRACT, MULTIPLY, DIVIDE, PUSH_DEREF, ADD_DEREF,
 SUBTRACT_DEREF, MULTIPLY_DEREF, DIVIDE_DEREF) = range(13)
STACK = 0o100000
MAXINT = (1 << 26) - 1
TRUE, FALSE = 0, 1
# offsets in a procedure frame
RESULT, FP, PC, SP, BN, DISPLAY, ARG = -1, 0, 1, 2, 3, 4, 5

simp = z3.simplify
mask64 = (1 << 64) - 1


def _root(k):
    """Largest x with x**k <= MAXINT."""
    x = 1
    while (x * 2) ** k <= MAXINT:
        x *= 2
    st = x
    while st:
        if (x + st) ** k <= MAXINT:
            x += st
        else:
            st //= 2
    assert x ** k <= MAXINT < (x + 1) ** k
    return x


ROOT = {k: _root(k) for k in range(1, 29)}


def c32(n): return BitVecVal(n & 0xffffffff, 32)
def c64(n): return BitVecVal(n & 0xffffffffffffffff, 64)
def low(v, w): return simp(Extract(w - 1, 0, v))
def low27(v): return low(v, 27)
def zx(v, w): return simp(ZeroExt(w - v.size(), v)) if v.size() < w else v
def sx(v, w): return dom.sext(simp(v), w - v.size())


def to_int(w27):
    """Value of a 27-bit ones' complement word, as a signed 32-bit number."""
    w = ZeroExt(5, w27)
    return simp(If(Extract(26, 26, w27) == 1, -ZeroExt(5, ~w27), w))


def of_int(i):
    """Ones' complement word of a number known to lie in range (any width >= 28)."""
    return simp(If(i < 0, ~Extract(26, 0, -i), Extract(26, 0, i)))


class Cell:
    __slots__ = ('t', 'v')
    def __init__(self, t, v):
        self.t = c32(t) if type(t) is int else t
        self.v = v
    def addr(self): return zx(low27(self.v), 32)
    def word(self): return low27(self.v)
    def real(self): return low(self.v, 54)


def icell(w): return Cell(INT, zx(w, 64))
def acell(a): return Cell(INTA, zx(a, 64))
def racell(a): return Cell(REALA, zx(a, 64))
def rcell(r): return Cell(REAL, zx(r, 64))


ARR64 = z3.ArraySort(B32, B64)
ARR32 = z3.ArraySort(B32, B32)
UD = z3.Function('display_after_update', B32, B32, B32, ARR64, ARR32, ARR32)
UDT = z3.Function('update_display_fails', B32, B32, B32, ARR64, z3.BoolSort())
RBF = z3.Function('roll_back_frame', B32, B32, B32, ARR64, B32)
RBT = z3.Function('roll_back_fails', B32, B32, B32, ARR64, z3.BoolSort())
WORDAT = z3.Function('word_at', B32, ARR64, ARR32, z3.BitVecSort(27))
POWU = z3.Function('repeated_product', dom.FP80, B32, dom.FP80)


class Spec(AS):
    exact = False           # expand update_display instead of using its contract symbol
    devices = False         # specify accesses to device addresses

    # ------------------------------------------------------------ numbers
    def int_word(self, i):
        """Word of a signed number; out of range is an error."""
        w = i.size()
        self.throw_if(Or(i > MAXINT, i < -MAXINT))
        return of_int(i)

    def x2i(self, r):
        facts = []
        v = dom.x2i(r, facts)
        for f in facts:
            self.fact(f)
        return v

    def i2x(self, x):
        ovf, w = dom.i2x(x)
        if not dom.isfpc(x):
            self.fact(z3.Implies(Or(z3.fpIsInf(x), z3.fpIsNaN(x)), ovf))
        self.throw_if(ovf)
        return w

    def i2f(self, i):
        facts = []
        v = dom.sitofp(i, dom.FP80, facts)
        for f in facts:
            self.fact(f)
        return v

    def iszero(self, x): return z3.fpIsZero(x)

    def round_int(self, x):
        """Nearest integer of a real, which must be in range; signed 32-bit."""
        r = dom.fun('roundl', x)
        lo, hi = dom.fpint(-MAXINT), dom.fpint(MAXINT)
        self.throw_if(Not(And(z3.fpGEQ(r, lo), z3.fpLEQ(r, hi))))
        v = dom.fptosi(r, 32)
        if not z3.is_bv_value(v):
            self.fact(And(v >= -MAXINT, v <= MAXINT))
        return v

    # ------------------------------------------------------------ cells
    def isint(self, c): return self.when(c.t == INT)
    def isreal(self, c): return self.when(c.t == REAL)
    def isaddr(self, c): return self.when(Or(c.t == INTA, c.t == REALA))

    def number(self, c):
        """Numeric value of a number cell, as floating point."""
        if self.isreal(c):
            return self.x2i(c.real())
        if self.isint(c):
            return self.i2f(to_int(c.word()))
        raise Unspecified()

    def arith(self, op, a, b):
        """Cell a op b for op in + - * /."""
        if op != '/' and self.isint(a) and self.isint(b):
            x, y = sx(to_int(a.word()), 64), sx(to_int(b.word()), 64)
            if op == '+':
                return icell(self.int_word(x + y))
            if op == '-':
                return icell(self.int_word(x - y))
            p = dom.mul(x, y)
            if self.when(And(p <= MAXINT, p >= -MAXINT)):
                return icell(of_int(p))
            return rcell(self.i2x(self.i2f(p)))
        x, y = self.number(a), self.number(b)
        if op == '/':
            self.throw_if(self.iszero(y))
        return rcell(self.i2x(dom.fbin({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], x, y)))

    def sign(self, c):
        """-1, 0, 1 as a 32-bit number."""
        if self.isint(c):
            i = to_int(c.word())
            return simp(If(i > 0, c32(1), If(i < 0, c32(-1), c32(0))))
        if self.isreal(c):
            r = self.x2i(c.real())
            z = dom.fpint(0)
            return simp(If(z3.fpGT(r, z), c32(1), If(z3.fpLT(r, z), c32(-1), c32(0))))
        raise Throw()

    def less(self, a, b):
        if self.isint(a) and self.isint(b):
            return simp(to_int(a.word()) < to_int(b.word()))
        for c in (a, b):
            if not (self.isint(c) or self.isreal(c)):
                raise Throw()
        return simp(z3.fpLT(self.number(a), self.number(b)))

    def equal(self, a, b):
        if self.isint(a) and self.isint(b):
            return simp(to_int(a.word()) == to_int(b.word()))
        if (self.isint(a) or self.isreal(a)) and (self.isint(b) or self.isreal(b)):
            return simp(z3.fpEQ(self.number(a), self.number(b)))
        if self.isaddr(a) and self.isaddr(b):
            return simp(a.addr() == b.addr())
        if self.isreal(a) or self.isreal(b) or self.when(a.t == NUL) or self.when(b.t == NUL):
            raise Throw()
        raise Unspecified()         # an integer against an address

    def powf(self, x, n):
        """x*x*...*x, n factors, n >= 1."""
        if dom.isfpc(x) and z3.is_bv_value(simp(n)):
            k = simp(n).as_long()
            r = dom.fpint(1)
            while k:
                if k & 1:
                    r = dom.fbin('mul', r, x)
                k >>= 1
                x = dom.fbin('mul', x, x)
            return r
        return dom.pw(x, simp(n))

    def ipow(self, a, n):
        """Exact a**n for n >= 1 as a word; out of range is an error."""
        a64 = sx(a, 64)
        if self.when(a == 0):
            return of_int(c32(0))
        if self.when(a == 1):
            return of_int(c32(1))
        if self.when(a == -1):
            return simp(If(Extract(0, 0, n) == 1, of_int(c32(-1)), of_int(c32(1))))
        mag = simp(If(a < 0, -a, a))
        k = self.exponent(mag, n)
        self.throw_if(UGT(mag, ROOT[k]))
        if z3.is_bv_value(simp(a)):
            return of_int(BitVecVal((simp(a).as_signed_long() ** k) & mask64, 64))
        p = a64
        for _ in range(k - 1):
            p = dom.mul(p, a64)
        return of_int(p)

    def exponent(self, mag, n):
        """Case split on the exponents n >= 1 for which mag**n can be in range (mag >= 2)."""
        n = simp(n)
        if z3.is_bv_value(n):
            self.throw_if(UGT(n, 26))
            return n.as_long()
        for j in range(1, 27):
            if self.when(n == j):
                return j
            self.throw_if(UGT(mag, ROOT[j + 1]))     # already too large for the next exponent
        raise Throw()

    def power(self, a, b):
        """Cell a raised to b."""
        if self.isint(a):
            ai, af = to_int(a.word()), None
            azero = simp(ai == 0)
        elif self.isreal(a):
            ai, af = None, self.x2i(a.real())
            azero = self.iszero(af)
        else:
            raise Throw()
        if self.isint(b):
            n = to_int(b.word())
            if self.when(n > 0):
                if ai is not None:
                    return self.ipow_cell(ai, n)
                return rcell(self.i2x(self.powf(af, n)))
            self.throw_if(azero)
            if self.when(n == 0):
                return icell(BitVecVal(1, 27)) if ai is not None else rcell(self.i2x(dom.fpint(1)))
            x = af if ai is None else self.i2f(ai)
            return rcell(self.i2x(self.powf(dom.fbin('div', dom.fpint(1), x), -n)))
        if self.isreal(b):
            r = self.x2i(b.real())
            pos = simp(ai > 0) if ai is not None else z3.fpGT(af, dom.fpint(0))
            if self.when(pos):
                x = af if ai is None else self.i2f(ai)
                return rcell(self.i2x(dom.fun('expl', dom.fbin('mul', r, dom.fun('logl', x)))))
            if self.when(azero):
                self.throw_if(z3.fpLEQ(r, dom.fpint(0)))
                return rcell(BitVecVal(0, 54))
            raise Throw()
        raise Throw()

    def ipow_cell(self, a, n):
        if self.opaque_ipow:
            # contract symbol: proved of the loop separately
            f = dom.uf('int_power', B32, B32, B32)
            o = dom.uf('int_power_overflows', B32, B32, z3.BoolSort())
            if not (z3.is_bv_value(simp(a)) and z3.is_bv_value(simp(n))):
                self.throw_if(o(a, n))
                v = f(a, n)
                self.fact(And(v >= -MAXINT, v <= MAXINT))
                return icell(of_int(v))
        return icell(self.ipow(a, n))

    opaque_ipow = False

    # ------------------------------------------------------------ stack
    def cell(self, i):
        """Contents of cell i (no bounds check)."""
        t, v = simp(Select(self.st, i)), simp(Select(self.sv, i))
        return Cell(t, v)

    def push(self, c):
        self.throw_if(UGE(self.n, LIMIT))
        self.st = Store(self.st, self.n, c.t)
        self.sv = Store(self.sv, self.n, c.v)
        self.n = simp(self.n + 1)

    def pop(self):
        self.throw_if(self.n == 0)
        self.n = simp(self.n - 1)
        return self.cell(self.n)

    def get(self, i):
        i = simp(i)
        self.throw_if(UGE(i, self.n))
        return self.cell(i)

    def put(self, i, c):
        i = simp(i)
        self.throw_if(UGE(i, self.n))
        self.st = Store(self.st, i, c.t)
        self.sv = Store(self.sv, i, c.v)

    def top(self):
        self.throw_if(self.n == 0)
        return self.cell(simp(self.n - 1))

    def settop(self, c):
        self.put(self.n - 1, c)

    def erase(self, p):
        self.throw_if(UGT(p, self.n))
        self.n = simp(p)

    def pop_num(self):
        """A number, as floating point."""
        c = self.pop()
        if self.isint(c) or self.isreal(c):
            return self.number(c)
        raise Throw()

    def pop_int(self):
        c = self.pop()
        if self.isint(c):
            return to_int(c.word())
        raise Throw()

    def pop_addr(self):
        c = self.pop()
        if self.isint(c) or self.isreal(c):
            raise Throw()
        return c.addr()

    def pop_bool(self):
        c = self.pop()
        if self.isint(c):
            return simp(c.word() == TRUE)
        if self.isreal(c):
            return simp(c.real() == TRUE)
        raise Throw()

    def push_int(self, w): self.push(icell(w))
    def push_bool(self, b): self.push(icell(simp(If(b, BitVecVal(TRUE, 27), BitVecVal(FALSE, 27)))))
    def push_real(self, r): self.push(rcell(r))
    def push_ieee(self, x): self.push(rcell(self.i2x(x)))
    def push_null(self): self.push(Cell(NUL, c64(0)))

    def reserve(self, w):
        """Push w integer zeros (w: unsigned 32-bit)."""
        ok = And(ULE(w, LIMIT), ULE(self.n + w, LIMIT))
        self.throw_if(Not(ok))
        self.fill(w)

    def fill(self, w):
        n0, st, sv = self.n, self.st, self.sv
        w = simp(w)
        if z3.is_bv_value(w) and w.as_long() <= 64:
            for j in range(w.as_long()):
                st = Store(st, simp(n0 + j), c32(INT))
                sv = Store(sv, simp(n0 + j), c64(0))
        else:
            k = BitVec('k!', 32)
            inn = ULT(k - n0, w)
            st = z3.Lambda([k], If(inn, c32(INT), Select(st, k)))
            sv = z3.Lambda([k], If(inn, c64(0), Select(sv, k)))
        self.st, self.sv, self.n = st, sv, simp(n0 + w)

    # ------------------------------------------------------------ memory
    def load(self, a, w=27):
        """Word at address a (27 bits)."""
        a = simp(a & 0x7fff)
        if not self.devices:
            if self.when(And(UGE(a, 0o77771), ULE(a, 0o77776), a != 0o77773)):
                raise Unspecified()
            return low27(Select(self.mem, a))
        if self.when(a == 0o77771):
            n = self.extra.get('rng', 0)
            self.extra['rng'] = n + 1
            x = z3.FP(f'random!{n}', z3.FPSort(11, 53))
            self.rout = zx(self.i2x(z3.fpToFP(z3.RNE(), x, dom.FP80)), 64)
            return low27(z3.LShR(self.rout, 27))
        if self.when(a == 0o77772):
            return low27(self.rout)
        if self.when(a == 0o77774):
            if self.stdin is not None:
                return low27(self.input_char())
            n = self.extra.get('inchar', 0)
            self.extra['inchar'] = n + 1
            self.throw_if(INPUT_BAD(c32(n)))
            v = INPUT_CHAR(c32(n))
            self.fact(ULT(v, 256))
            return low27(v)
        if self.when(Or(a == 0o77775, a == 0o77776)):
            raise Unspecified()
        return low27(Select(self.mem, a))

    def store(self, a, v):
        """Store a word (27 or 32 bits)."""
        a = simp(a & 0x7fff)
        v = zx(v, 32)
        if not self.devices:
            if self.when(And(UGE(a, 0o77771), ULE(a, 0o77773))):
                raise Unspecified()
        else:
            if self.when(a == 0o77771):
                self.seed = v
                return
            if self.when(a == 0o77772):
                self.seed = simp(self.seed + (v & MAXWORD))
                self.extra['rngseed'] = self.seed
                return
            if self.when(a == 0o77773):
                self.algol_char(v)
                return
        self.mem = Store(self.mem, a, v)

    def algol_char(self, v):
        self.out = self.out + (('_ZSt4cout', 'algol', simp(v & 0x7f)),)

    def load_word(self, a):
        """Word at a memory or stack address."""
        a = simp(a)
        if not self.opaque_word:
            if self.when(ULT(a, STACK)):
                return self.load(a)
            return self.get(a - STACK).word()
        # without a case split on which
        stack = UGE(a, STACK)
        m = simp(a & 0x7fff)
        if self.when(And(Not(stack), UGE(m, 0o77771), ULE(m, 0o77776), m != 0o77773)):
            raise Unspecified()
        self.throw_if(And(stack, UGE(simp(a - STACK), self.n)))
        return WORDAT(a, self.sv, self.mem)

    opaque_word = False

    def load_real(self, a):
        if self.when(ULT(a, STACK)):
            hi = self.load(a)
            lo = self.load(a + 1)
            return simp(Concat(hi, lo))
        return self.get(a - STACK).real()

    def load_value(self, c):
        if self.when(c.t == INTA):
            return icell(self.load_word(c.addr()))
        if self.when(c.t == REALA):
            return rcell(self.load_real(c.addr()))
        raise Throw()

    def assign(self, dest, src):
        """dest := src with the conversions of the language."""
        a = dest.addr()
        if self.when(dest.t == INTA):
            if self.isint(src):
                w = src.word()
            elif self.isreal(src):
                w = of_int(self.round_int(self.x2i(src.real())))
            else:
                raise Throw()
            if self.when(ULT(a, STACK)):
                self.store(a, w)
            else:
                self.put(a - STACK, icell(w))
        elif self.when(dest.t == REALA):
            if self.isreal(src):
                r = src.real()
            elif self.isint(src):
                if self.when(src.word() == MAXWORD):
                    r = BitVecVal((1 << 54) - 1, 54)        # minus zero stays minus zero
                else:
                    r = self.i2x(self.i2f(to_int(src.word())))
            else:
                raise Throw()
            if self.when(ULT(a, STACK)):
                self.store(a, Extract(53, 27, r))
                self.store(a + 1, Extract(26, 0, r))
            else:
                self.put(a - STACK, rcell(r))
        else:
            raise Throw()

    # ------------------------------------------------------------ display and frames
    def display(self, level):
        level = simp(level)
        if self.when(level == 0):
            return c32(0)
        self.throw_if(UGE(level, 32))
        return simp(Select(self.disp, level))

    def dyn(self, d):
        """Stack index of a dynamic address: display[level] + offset."""
        return simp(self.display(d & 31) + z3.LShR(d, 5))

    def block_level(self):
        if self.when(self.sb == 0):
            return c32(0)
        return self.get(self.fp + BN).addr()

    def update_display(self, level, fp):
        level, fp = simp(level), simp(fp)
        if self.when(level == 0):
            return
        self.throw_if(UGE(level, 32))
        if z3.is_bv_value(level) and (self.exact or level.as_long() <= 0):
            for j in range(level.as_long(), 0, -1):
                self.disp = Store(self.disp, c32(j), fp)
                fp = self.get(fp + DISPLAY).addr()
            return
        if self.exact:
            for j in range(1, 32):
                if self.when(level == j):
                    return self.update_display(c32(j), fp)
        self.throw_if(UDT(level, fp, self.n, self.sv))
        self.disp = UD(level, fp, self.n, self.sv, self.disp)

    def refresh_display(self):
        self.update_display(self.block_level(), self.fp)

    def set_level(self, level):
        """Give the current frame its block level and its static link."""
        bn = self.get(self.fp + BN)
        disp = self.get(self.fp + DISPLAY)
        self.throw_if(level == 0)
        if self.when(bn.v == 0):
            self.put(self.fp + BN, Cell(bn.t, zx(level, 64)))
        if self.when(UGT(level, 1)):
            d = self.display(level - 1)
            disp = self.get(self.fp + DISPLAY)
            self.put(self.fp + DISPLAY, Cell(disp.t, zx(d, 64)))

    def frame_create(self, ret, nargs):
        f = self.n
        for v in (self.fp, ret, self.sb, c32(0), c32(0)):
            self.push(acell(v))
        pard = simp(self.block_level() << 15 | self.fp)
        self.args(nargs, pard)
        self.fp = f
        self.sb = self.n
        self.ev = Store(self.ev, self.sb, c32(PUSH_VALUE))
        self.ep = Store(self.ep, self.sb, True)
        self.lfp = self.fp

    def args(self, nargs, pard):
        """Two cells for each formal parameter."""
        nargs = simp(nargs)
        self.throw_if(Not(And(ULE(nargs, LIMIT), ULE(self.n + 2 * nargs, LIMIT))))
        self.fill_args(nargs, pard)

    def fill_args(self, w, pard):
        n0, st, sv = self.n, self.st, self.sv
        w = simp(w)
        if z3.is_bv_value(w) and w.as_long() <= 64:
            for j in range(w.as_long()):
                for c in (icell(BitVecVal(0, 27)), acell(pard)):
                    st = Store(st, n0, c.t)
                    sv = Store(sv, n0, c.v)
                    n0 = simp(n0 + 1)
            self.n = n0
        else:
            k = BitVec('k!', 32)
            inn = ULT(k - n0, 2 * w)
            odd = Extract(0, 0, k - n0) == 1
            st = z3.Lambda([k], If(inn, If(odd, c32(INTA), c32(INT)), Select(st, k)))
            sv = z3.Lambda([k], If(And(inn, odd), zx(pard, 64), If(inn, c64(0), Select(sv, k))))
            self.n = simp(n0 + 2 * w)
        self.st, self.sv = st, sv

    def frame_release(self):
        """Drop the current frame; returns the return address."""
        f = self.fp
        self.throw_if(UGE(f, self.n))
        ret = self.get(f + PC).addr()
        self.sb = self.get(f + SP).addr()
        self.fp = self.get(f + FP).addr()
        self.erase(f)
        self.refresh_display()
        self.lfp = self.fp
        return ret

    def roll_back(self, goal):
        """Leave frames until the one whose caller is `goal` is gone."""
        if z3.is_bv_value(simp(self.fp)) and (self.exact or self.R.E is None):
            f = self.fp
            seen = set()
            while not self.when(f == 0):
                p = self.get(f + FP).addr()
                if self.when(p == goal):
                    break
                if f.as_long() in seen:
                    raise Unspecified()
                seen.add(f.as_long())
                f = p
            else:
                raise Throw()
        else:
            self.throw_if(RBT(self.fp, goal, self.n, self.sv))
            f = RBF(self.fp, goal, self.n, self.sv)
        self.fp = simp(f)
        self.frame_release()
        self.pop()

    def move_base(self, amount):
        """Move the stack base; the pending operation goes with it."""
        op = self.pending()
        self.sb = simp(self.sb + amount)
        self.set_pending(op)

    def pending(self):
        self.throw_if(Not(Select(self.ep, self.sb)))
        return simp(Select(self.ev, self.sb))

    def set_pending(self, op):
        self.ev = Store(self.ev, self.sb, op if not type(op) is int else c32(op))
        self.ep = Store(self.ep, self.sb, True)

    # ------------------------------------------------------------ formal parameters
    def descriptor(self, d):
        num = z3.LShR(simp(z3.LShR(d, 5) - 5), 1)
        ret = self.get(self.display(d & 31) + PC).addr()
        return zx(self.load(ret - num - 3), 32)

    def arg_context(self, d):
        """(level, frame) in which the actual parameter is to be evaluated."""
        w = zx(self.get(self.dyn(d) + 1).word(), 32)
        return simp(z3.LShR(w, 15)), simp(w & 0x7fff)

    def arg_address(self, d, descr):
        alevel, off = simp(z3.LShR(descr, 22)), simp(descr & 0x7fff)
        level, f = self.arg_context(d)
        if self.R.E is None or z3.is_bv_value(level):
            while not self.when(level == 0):
                if self.when(level == alevel):
                    return simp(f + off)
                f = self.get(f + DISPLAY).addr()
                level = simp(level - 1)
            raise Throw()
        if self.opaque_argaddr:
            self.throw_if(AAT(level, f, alevel, off, self.n, self.sv))
            return AAV(level, f, alevel, off, self.n, self.sv)
        for _ in range(33):
            if self.when(level == 0):
                raise Throw()
            if self.when(level == alevel):
                return simp(f + off)
            f = self.get(f + DISPLAY).addr()
            level = simp(level - 1)
        raise Unspecified()

    opaque_argaddr = True

    def formal_proc(self, d):
        descr = self.descriptor(d)
        if self.when((z3.LShR(descr, 15) & 0o77) == 0o40):
            return simp(descr & 0x7fff)
        raise Throw()

    def deref(self, op):
        if self.when(op == PUSH_ADDRESS):
            return c32(PUSH_ADDRESS)
        if self.when(op == PUSH_VALUE):
            return c32(PUSH_DEREF)
        if self.when(And(UGE(op, ADD), ULE(op, DIVIDE))):
            return simp(op - ADD + ADD_DEREF)
        raise Throw()

    def apply_at(self, op, addr, real):
        """Apply the operation to the parameter found at addr (integer or real)."""
        if self.when(Or(op == PUSH_ADDRESS, op == PUSH_STRING)):
            self.push(racell(addr) if real else acell(addr))
        elif self.when(op == REMOVE_ARG):
            raise Throw()
        else:
            if self.when(UGE(op, PUSH_DEREF)):
                addr = zx(self.load_word(addr), 32)
            x = rcell(self.load_real(addr)) if real else icell(self.load_word(addr))
            for k, o in (('+', ADD), ('-', SUBTRACT), ('*', MULTIPLY), ('/', DIVIDE)):
                if self.when(Or(op == o, op == o + ADD_DEREF - ADD)):
                    self.settop(self.arith(k, self.top(), x))
                    break
            else:
                self.push(x)
        self.refresh_display()

    def apply_top(self, op):
        """Apply the operation to the value (or address) on top of the stack."""
        for k, o in (('+', ADD), ('-', SUBTRACT), ('*', MULTIPLY), ('/', DIVIDE)):
            if self.when(op == o):
                b = self.pop()
                self.settop(self.arith(k, self.top(), b))
                return
            if self.when(op == o + ADD_DEREF - ADD):
                b = self.load_value(self.pop())
                self.settop(self.arith(k, self.top(), b))
                return
        if self.when(op == PUSH_DEREF):
            self.settop(self.load_value(self.top()))

    opaque_take = False     # take_formal is an uninterpreted change of state, the same for code and contract

    def changed(self):
        import absstate
        o = self.origin
        return o is None or len(self.out) or any(not getattr(self, k).eq(getattr(o, k)) for k in absstate.SCALARS + absstate.ARRAYS)

    origin = None

    def havoc(self, name):
        """An arbitrary well-formed state."""
        import absstate
        for k in absstate.SCALARS:
            v = getattr(self, k)
            setattr(self, k, z3.Const(f'{name}!{k}', v.sort()))
        for k in absstate.ARRAYS:
            setattr(self, k, z3.Const(f'{name}!{k}', getattr(self, k).sort()))
        self.fact(ULE(self.n, absstate.LIMIT))
        for k in 'ASB':
            self.fact(ULT(getattr(self, k), 1 << 27))
        self.fact(ULT(self.OT, 32769))

    def take_formal(self, d, op, depth=0):
        if self.opaque_take:
            if self.changed():
                raise Limit("take_formal in the middle of an operation")
            self.emit('take_formal', simp(d), simp(op))
            self.throw_if(z3.Bool('take_formal fails'))
            self.havoc('after take_formal')
            return
        if depth >= self.formal_depth:
            self.result = d
            raise Throw('cut')
        descr = self.descriptor(d)
        a = simp(descr & 0x7fff)
        k = simp(z3.LShR(descr, 15) & 0o77)
        if self.when(k == 0o00):
            return self.apply_at(op, a, True)
        if self.when(k == 0o20):
            return self.apply_at(op, a, False)
        if self.when(k == 0o02):
            return self.apply_at(op, simp(self.arg_address(d, descr) + STACK), True)
        if self.when(k == 0o22):
            return self.apply_at(op, simp(self.arg_address(d, descr) + STACK), False)
        if self.when(k == 0o06):
            level, f = self.arg_context(d)
            self.update_display(level, f)
            return self.take_formal(simp(z3.LShR(descr, 22) | (a << 5)), op, depth + 1)
        if self.when(k == 0o60):
            op = self.deref(op)
        elif not self.when(k == 0o40):
            raise Throw()
        if self.when(op == PUSH_STRING):
            return self.apply_at(op, a, False)
        level, f = self.arg_context(d)
        self.push_int(BitVecVal(0, 27))
        self.frame_create(self.OT, c32(0))
        if self.when(level != 0):
            self.fp = f
            self.update_display(level, f)
        self.set_pending(op)
        self.OT = a

    formal_depth = 2

    # ------------------------------------------------------------ arrays
    def storage_frame(self, size):
        """RSF, ISF: build the storage functions from the bounds on the stack."""
        nitems = zx(low27(self.S), 32)
        ndim = simp(z3.LShR(self.n - self.sb, 1))
        nd = self.concrete(ndim, range(0, 3))
        bounds = []
        for _ in range(nd):
            hi = self.pop_int()
            lo = self.pop_int()
            bounds.insert(0, (lo, hi))
        self.push(acell(c32(0)) if size == 1 else racell(c32(0)))
        zero = self.n
        self.push_null()
        offset, stride = c64(0), c64(size)
        for lo, hi in bounds:
            if self.when(stride < 0):
                raise Unspecified()
            self.push_int(low27(stride))
            offset = simp(offset + dom.mul(stride, sx(lo, 64)))
            stride = dom.mul(stride, sx(simp(hi - lo + 1), 64))
            self.throw_if(Or(offset > MAXINT, offset < -MAXINT, stride > MAXINT, stride < -MAXINT))
        self.put(zero, icell(of_int(offset)))
        self.push_int(of_int(simp(-stride)))
        ni = self.concrete(nitems, range(0, 3))
        for _ in range(ni - 1):
            for j in range(nd + 3):
                self.push(self.get(self.sb + j))
        self.move_base(c32(ni * (nd + 3)))

    def concrete(self, v, values):
        """Case split: v as a Python int; the contract is silent beyond `values`."""
        v = simp(v)
        if z3.is_bv_value(v):
            return v.as_long()
        for k in values:
            if self.when(v == k):
                return k
        raise Unspecified()

    def value_array_frame(self, size):
        self.take_formal(self.S, c32(PUSH_ADDRESS))
        fn = self.pop_addr()
        a = self.load_word(fn)
        mk = racell if size == 2 else acell
        self.push(mk(a))
        self.push(mk(self.load_word(fn + 1)))
        seen = z3.BoolVal(False)
        for i in range(2, 8):
            w = self.load_word(fn + i)
            val = to_int(w)
            if i == 2 and self.when(val != size):
                # stored without masking; only the low 27 bits of a cell count
                self.push(Cell(INT, zx(simp(val * 10 + size), 64)))
            else:
                self.push_int(w)
            seen = Or(seen, And(val < 0, val >= -32767))
        self.throw_if(Not(seen))
        self.move_base(c32(8))

    def index(self):
        """IND: address of a subscripted element."""
        idx = []
        while True:
            c = self.pop()
            if self.isaddr(c):
                break
            idx.insert(0, c)
            if len(idx) > self.maxdim:
                raise Unspecified()
        self.throw_if(z3.BoolVal(not idx))
        fn = c
        a = fn.addr()
        nd = len(idx)
        loc = to_int(self.load_word(a))
        base = self.load_word(a + 1)
        limit = to_int(self.load_word(a + 2 + nd))
        self.throw_if(Or(limit >= 0, limit < -0xfffff))
        e = Extract(25, 0, base)
        for i, c in enumerate(idx):
            d = to_int(self.load_word(a + 2 + i))
            if self.isint(c):
                x = to_int(c.word())
            elif self.isreal(c):
                x = self.round_int(self.x2i(c.real()))
            else:
                raise Unspecified()
            e = simp(e + Extract(25, 0, dom.mul(sx(x, 64), sx(d, 64))))
        e = zx(e, 32)
        self.throw_if(Or(e < loc, e + limit >= loc))
        self.push(Cell(fn.t, zx(e, 64)))

    maxdim = 3

    def local_array(self):
        """LAP: allocate the array whose storage function is at dynamic address S."""
        f = self.dyn(self.S)
        c = self.get(f)
        self.throw_if(c.addr() != 0)
        ct = c.t
        for p in range(2, 32):
            c = self.get(f + p)
            if self.when(And(c.t == INT, to_int(c.word()) < 0)):
                break
        else:
            raise Throw()
        words = simp(-to_int(self.get(f + p).word()))
        self.put(f, Cell(ct, zx(self.sb + STACK, 64)))
        off = to_int(self.get(f + 1).word())
        self.put(f + 1, Cell(ct, zx(self.sb - off + STACK, 64)))
        self.reserve(words)
        self.move_base(words)

    def value_array(self):
        """VAP: copy an array passed by value."""
        f = self.dyn(self.S)
        actual = self.get(f).addr()
        zero = self.get(f + 1).addr()
        size = zx(self.get(f + 2).word(), 32)
        size = self.concrete_or_throw(size, (1, 2, 12, 21))
        ct = INTA if size in (1, 21) else REALA
        mul, div = (2 if size == 12 else 1), (2 if size == 21 else 1)
        for p in range(2, 8):
            c = self.get(f + p)
            if self.when(And(c.t == INT, to_int(c.word()) < 0)):
                break
        else:
            raise Throw()
        if mul != div:
            for i in range(3, p + 1):
                v = to_int(self.get(f + i).word())
                self.put(f + i, icell(self.int_word(simp((v * mul) / div))))
        words = simp(-to_int(self.get(f + p).word()))
        off = simp((((actual - zero) << 6) >> 6) * mul / div)
        self.put(f, Cell(ct, zx(self.sb + STACK, 64)))
        self.put(f + 1, Cell(ct, zx(self.sb - off + STACK, 64)))
        n = self.concrete(words, range(0, 3))
        for i in range(n):
            if size == 1:
                self.push_int(self.load_word(actual + i))
            elif size == 2:
                self.push_real(self.load_real(actual + i))
            elif size == 21:
                self.push_int(of_int(self.round_int(self.x2i(self.load_real(actual + 2 * i)))))
            else:
                self.push_real(self.i2x(self.i2f(to_int(self.load_word(actual + i // 2)))))
        if size > 2:
            self.put(f + 2, icell(BitVecVal(size % 10, 27)))
        self.move_base(words)

    def concrete_or_throw(self, v, values):
        for k in values:
            if self.when(v == k):
                return k
        raise Throw()

    # ------------------------------------------------------------ input
    stdin = None        # the bytes, in a concrete run

    def at_end(self):
        p = self.extra['inpos']
        return p.as_long() >= len(self.stdin) if self.stdin is not None else self.when(UGE(p, INLEN))

    def next_byte(self):
        """0..255, or None at the end."""
        if self.at_end():
            return None
        p = self.extra['inpos']
        self.extra['inpos'] = simp(p + 1)
        if self.stdin is not None:
            return self.stdin[p.as_long()]
        b = Select(INBYTES, p)
        lo, hi = 0, 256
        while hi - lo > 1:
            m = (lo + hi) // 2
            if self.when(ULT(b, m)):
                hi = m
            else:
                lo = m
        return lo

    def skip_cr(self):
        p = self.extra['inpos']
        if self.stdin is not None:
            p = p.as_long()
            while self.stdin[p:p + 1] == b'\r':
                p += 1
            self.extra['inpos'] = c32(p)
        else:
            q = NEXT(p)
            self.fact(next_unfold(p))
            self.fact(next_unfold(q))
            self.fact(q == NEXT(q))
            self.extra['inpos'] = q

    def input_char(self):
        """The next character of the input in the Algol encoding; 0377 at the end; CR is skipped."""
        self.skip_cr()
        got = b''
        while True:
            b = self.next_byte()
            if b is None:
                return c32(0o377)
            got += bytes([b])
            if got in INPUT_TEXT:
                return c32(INPUT_TEXT[got])
            if not any(k.startswith(got) for k in INPUT_TEXT):
                raise Throw()

    # ------------------------------------------------------------ output
    def emit(self, *ev):
        self.out = self.out + (('_ZSt4cout',) + ev,)

    def putc(self, ch): self.emit('char', BitVecVal(ch, 8))


# standard input: bytes inbytes[0..inlen-1]; next_not_cr(p): the first position from p on that is not a carriage return
INBYTES, INLEN = z3.Array('inbytes', B32, z3.BitVecSort(8)), BitVec('inlen', 32)
NEXT = z3.Function('next_not_cr', B32, B32)
def next_unfold(p):
    return If(And(ULT(p, INLEN), Select(INBYTES, p) == 13), NEXT(p) == NEXT(p + 1), NEXT(p) == p)


INPUT_CHAR = z3.Function('next_input_char', B32, B32)
INPUT_BAD = z3.Function('next_input_char_bad', B32, z3.BoolSort())
OPC_RESULT = z3.Bool('call_opc result')
AAT = z3.Function('arg_address_fails', B32, B32, B32, B32, B32, ARR64, z3.BoolSort())
AAV = z3.Function('arg_address', B32, B32, B32, B32, B32, ARR64, B32)
MAXWORD = (1 << 27) - 1


# doc/algol-encoding.md: the text of each of the 128 codes
ALGOL_TEXT = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"] + [chr(97 + i) for i in range(26)] + [None] + \
        [chr(65 + i) for i in range(26)] + [None] + \
        ["+", "-", "×", "/", "÷", "↑", ">", "≥", "=", "≤", "<", "≠", "¬", "∧", "∨", "⊃", "≡"] + [None] * 6 + \
        [",", ".", "⏨", ":", ";", ":=", " "] + [None] * 4 + ["(", ")", "[", "]", "`", "'"] + [None] * 14 + \
        ["\t", "\n", None, '"', "?"] + [None] * 5
INPUT_TEXT = {t.encode(): k for k, t in enumerate(ALGOL_TEXT) if t and len(t) == 1}
INPUT_TEXT.update({b'*': 66, b'@': 89, b'|': 162, b'_': 163})
