"""Contracts of the Algol operations (call_opc) and of the X1 instruction step."""
import z3
import dom
from absstate import Throw, Unspecified, LIMIT
from engine import Limit
from specs import *
from specs import Spec as _Spec, OPC_RESULT

ADDR3 = 0o77774


class Spec(_Spec):
    # ------------------------------------------------------------ operands
    def dyn_int(self, d):
        c = self.get(self.dyn(d))
        if not self.isint(c):
            raise Throw()
        return c

    def dyn_real(self, d):
        c = self.get(self.dyn(d))
        if not self.isreal(c):
            raise Throw()
        return c

    def static_real(self, a): return rcell(self.load_real(a))
    def static_int(self, a): return icell(self.load_word(a))

    def op_top(self, op, b):
        self.settop(self.arith(op, self.top(), b))

    def op_static_real(self, op, b):
        """top := top op <real constant or variable>; the result is real."""
        if op == '/':
            self.throw_if(self.iszero(self.number(b)))
        c = self.top()
        if not (self.isint(c) or self.isreal(c)):
            raise Throw()
        x = self.number(c)
        self.settop(rcell(self.i2x(dom.fbin({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], x, self.number(b)))))

    def op_static_int(self, op, b, loose=False):
        c = self.top()
        if not (self.isint(c) or self.isreal(c)):
            if loose:
                raise Unspecified()
            raise Throw()
        self.settop(self.arith(op, c, b))

    def binary(self, op):
        b = self.pop()
        a = self.top()
        for c in (b, a):
            if not (self.isint(c) or self.isreal(c)):
                raise Unspecified()
        self.settop(self.arith(op, a, b))

    # ------------------------------------------------------------ procedures
    def leave(self):
        """Common part of RET: drop the frame, hand the result to the pending operation."""
        op = self.pending()
        self.OT = self.frame_release()
        if self.when(self.top().t == NUL):
            self.pop()
        else:
            self.apply_top(op)

    def eis(self):
        """End of an implicit subroutine: its value, or its address, replaces the parameter."""
        item = self.pop()
        op = self.pending()
        if self.when(op == REMOVE_ARG):
            self.sb = simp(self.sb - 2)
        self.fp = simp(self.sb - 5)
        self.OT = self.frame_release()
        self.settop(item)
        self.apply_top(op)

    def scc(self, level):
        self.throw_if(UGT(level, 31))
        if self.when(self.block_level() != 0):
            self.fp = simp(self.sb - 5)
        self.set_level(level)
        self.update_display(level, self.fp)

    def arg_cell(self, k): return self.get(self.fp + k)

    # ------------------------------------------------------------ functions of the language
    def entier(self, c):
        if self.isint(c):
            return c
        if self.isreal(c):
            x = dom.fun('floorl', self.x2i(c.real()))
            ok = And(z3.fpGEQ(x, dom.fpint(-MAXINT)), z3.fpLEQ(x, dom.fpint(MAXINT)))
            self.throw_if(Not(ok))
            v = dom.fptosi(x, 32)
            if not z3.is_bv_value(v):
                self.fact(And(v >= -MAXINT, v <= MAXINT))
            return icell(of_int(v))
        raise Throw()


OPS = {}


def op(num, name):
    def deco(f):
        OPS[num] = (name, f)
        return f
    return deco


def _def(num, name, f):
    OPS[num] = (name, f)


@op(8, 'ETMR')
def _(s):
    s.push_int(BitVecVal(0, 27))
    s.frame_create(s.OT, zx(low27(s.A), 32))
    s.OT = s.B


@op(9, 'ETMP')
def _(s):
    s.mem = Store(s.mem, c32(51), simp(s.OT - 8))
    s.push_null()
    s.frame_create(s.OT, zx(low27(s.A), 32))
    s.OT = s.B


@op(10, 'FTMR')
def _(s):
    a = s.formal_proc(s.S)
    s.push_int(BitVecVal(0, 27))
    s.frame_create(s.OT, zx(low27(s.A), 32))
    s.OT = a


@op(11, 'FTMP')
def _(s):
    a = s.formal_proc(s.S)
    s.mem = Store(s.mem, c32(51), simp(s.OT - 8))
    s.push_null()
    s.frame_create(s.OT, zx(low27(s.A), 32))
    s.OT = a


@op(12, 'RET')
def _(s): s.leave()

@op(13, 'EIS')
def _(s): s.eis()

_def(14, 'TRAD', lambda s: s.push(racell(simp(s.dyn(s.S) + STACK))))
_def(15, 'TRAS', lambda s: s.push(racell(s.B)))
_def(16, 'TIAD', lambda s: s.push(acell(simp(s.dyn(s.S) + STACK))))
_def(17, 'TIAS', lambda s: s.push(acell(s.B)))
_def(18, 'TFA', lambda s: s.take_formal(s.S, c32(PUSH_ADDRESS)))


@op(19, 'FOR0')
def _(s):
    prev = s.get(s.fp + FP).addr()
    level = simp(zx(s.get(prev + BN).word(), 32) + 1)
    s.B = level
    s.push_int(BitVecVal(0, 27))
    s.move_base(c32(1))
    s.scc(level)


@op(20, 'FOR1')
def _(s):
    c = s.get(s.fp + ARG)
    s.put(s.fp + ARG, acell(s.OT))
    s.OT = s.get(s.fp + PC).addr()


@op(21, 'FOR2')
def _(s):
    c = s.get(s.fp + PC)
    s.put(s.fp + PC, acell(s.OT))
    src = s.pop()
    dest = s.pop()
    s.assign(dest, src)
    s.OT = s.get(s.fp + ARG).addr()


@op(22, 'FOR3')
def _(s):
    src = s.pop()
    dest = s.pop()
    s.assign(dest, src)
    s.push(dest)


@op(23, 'FOR4')
def _(s):
    s.C = s.pop_bool()
    if s.when(s.C):
        s.pop()
        s.OT = s.get(s.fp + ARG).addr()
    else:
        s.put(s.fp + PC, acell(s.OT))


@op(24, 'FOR5')
def _(s):
    s.put(s.fp + RESULT, Cell(NUL, c64(0)))
    s.put(s.fp + PC, acell(s.OT))


@op(25, 'FOR6')
def _(s):
    incr = s.pop()
    d = s.sign(incr)
    if not s.when(s.get(s.fp + RESULT).t == NUL):
        var = s.pop()
        v = s.load_value(var)
        v = s.arith('+', v, incr)
        s.push(var)
        s.push(v)
    s.put(s.fp + RESULT, icell(of_int(d)))


@op(26, 'FOR7')
def _(s):
    limit = s.pop()
    value = s.pop()
    var = s.pop()
    s.assign(var, value)
    d = to_int(s.get(s.fp + RESULT).word())
    if s.when(d > 0):
        done = s.when(s.less(limit, value))
    elif s.when(d < 0):
        done = s.when(s.less(value, limit))
    else:
        done = False
    if done:
        s.push(var)
        s.put(s.fp + PC, acell(s.OT))
    else:
        s.OT = s.get(s.fp + ARG).addr()


@op(27, 'FOR8')
def _(s):
    s.pop()
    s.put(s.fp + RESULT, Cell(NUL, c64(0)))
    s.put(s.fp + PC, acell(s.S))
    s.leave()


@op(28, 'GTA')
def _(s):
    s.fp = s.lfp
    s.roll_back(s.display(s.B))


@op(29, 'SSI')
def _(s):
    s.mem = Store(s.mem, c32(0o60), zx(s.pop().word(), 32))


@op(30, 'CAC')
def _(s): s.C = s.pop_bool()


_def(31, 'TRRD', lambda s: s.push(s.dyn_real(s.S)))
_def(32, 'TRRS', lambda s: s.push(s.static_real(s.B)))
_def(33, 'TIRD', lambda s: s.push(s.dyn_int(s.S)))
_def(34, 'TIRS', lambda s: s.push(icell(s.load(s.B))))
_def(35, 'TFR', lambda s: s.take_formal(s.S, c32(PUSH_VALUE)))
for _i, (_n, _o) in enumerate((('AD', '+'), ('SU', '-'), ('MU', '*'), ('DI', '/'))):
    _b = 36 + 5 * _i
    _def(_b, _n + 'RD', lambda s, o=_o: s.op_top(o, s.dyn_real(s.S)))
    _def(_b + 1, _n + 'RS', lambda s, o=_o: s.op_static_real(o, s.static_real(s.B)))
    _def(_b + 2, _n + 'ID', lambda s, o=_o: s.op_top(o, s.dyn_int(s.S)))
    _def(_b + 3, _n + 'IS', lambda s, o=_o: s.op_static_int(o, icell(s.load(s.B)), o == '*'))
    _def(_b + 4, _n[:2] + 'F', lambda s, o=_o: s.take_formal(s.S, c32({'+': ADD, '-': SUBTRACT, '*': MULTIPLY, '/': DIVIDE}[o])))
_def(56, 'IND', lambda s: s.index())


@op(57, 'NEG')
def _(s):
    c = s.top()
    if s.isint(c):
        s.settop(icell(simp(~c.word())))
    elif s.isreal(c):
        s.settop(rcell(simp(~c.real())))
    else:
        raise Throw()


_def(58, 'TAR', lambda s: s.push(s.load_value(s.pop())))
_def(59, 'ADD', lambda s: s.binary('+'))
_def(60, 'SUB', lambda s: s.binary('-'))
_def(61, 'MUL', lambda s: s.binary('*'))
_def(62, 'DIV', lambda s: s.binary('/'))


@op(63, 'IDI')
def _(s):
    b = s.pop_int()
    s.throw_if(b == 0)
    a = s.pop_int()
    s.push_int(of_int(simp(a / b)))


@op(64, 'TTP')
def _(s):
    b = s.pop()
    a = s.top()
    s.settop(s.power(a, b))


def _cmp(f):
    def g(s):
        b = s.pop()
        a = s.pop()
        s.push_bool(f(s, a, b))
    return g


_def(65, 'MOR', _cmp(lambda s, a, b: s.less(b, a)))
_def(66, 'LST', _cmp(lambda s, a, b: Not(s.less(a, b))))
_def(67, 'EQU', _cmp(lambda s, a, b: s.equal(a, b)))
_def(68, 'MST', _cmp(lambda s, a, b: Not(s.less(b, a))))
_def(69, 'LES', _cmp(lambda s, a, b: s.less(a, b)))
_def(70, 'UQU', _cmp(lambda s, a, b: Not(s.equal(a, b))))
_def(71, 'NON', lambda s: s.push_bool(Not(s.pop_bool())))


def _bool(f):
    def g(s):
        b = s.pop_bool()
        a = s.pop_bool()
        s.push_bool(f(a, b))
    return g


_def(72, 'AND', _bool(lambda a, b: And(a, b)))
_def(73, 'OR', _bool(lambda a, b: Or(a, b)))
_def(74, 'IMP', _bool(lambda a, b: Or(Not(a), b)))
_def(75, 'QVL', _bool(lambda a, b: a == b))


def _fun(f):
    def g(s):
        x = s.pop_num()
        s.push_ieee(f(s, x))
    return g


@op(76, 'abs')
def _(s):
    c = s.pop()
    if s.isint(c):
        w = c.word()
        m = simp(If(Extract(26, 26, w) == 1, ~w, w))
        s.push_ieee(s.i2f(zx(m, 32)))
    elif s.isreal(c):
        r = c.real()
        s.push_real(simp(If(Extract(53, 53, r) == 1, ~r, r)))
    else:
        raise Throw()


@op(77, 'sign')
def _(s): s.push_int(of_int(s.sign(s.pop())))


def _sqrt(s, x):
    s.throw_if(z3.fpLT(x, dom.fpint(0)))
    return dom.fun('sqrtl', x)


def _ln(s, x):
    s.throw_if(z3.fpLEQ(x, dom.fpint(0)))
    return dom.fun('logl', x)


def _exp(s, x):
    r = dom.fun('expl', x)
    s.throw_if(z3.fpIsInf(r))
    return r


_def(78, 'sqrt', _fun(_sqrt))
_def(79, 'sin', _fun(lambda s, x: dom.fun('sinl', x)))
_def(80, 'cos', _fun(lambda s, x: dom.fun('cosl', x)))
_def(81, 'arctan', _fun(lambda s, x: dom.fun('atanl', x)))
_def(82, 'ln', _fun(_ln))
_def(83, 'exp', _fun(_exp))
_def(84, 'entier', lambda s: s.push(s.entier(s.pop())))


@op(85, 'ST')
def _(s):
    src = s.pop()
    s.assign(s.pop(), src)


@op(86, 'STA')
def _(s):
    src = s.pop()
    s.assign(s.pop(), src)
    s.push(src)


def _stp(keep):
    def g(s):
        c = s.top() if keep else s.pop()
        i = simp(s.display(s.B + 1) - 1)
        if not s.when(s.get(i).t == NUL):
            s.put(i, c)
    return g


_def(87, 'STP', _stp(False))
_def(88, 'STAP', _stp(True))
_def(89, 'SCC', lambda s: s.scc(s.B))
_def(90, 'RSF', lambda s: s.storage_frame(2))
_def(91, 'ISF', lambda s: s.storage_frame(1))
_def(92, 'RVA', lambda s: s.value_array_frame(2))
_def(93, 'IVA', lambda s: s.value_array_frame(1))
_def(94, 'LAP', lambda s: s.local_array())
_def(95, 'VAP', lambda s: s.value_array())
_def(96, 'START', lambda s: None)
_def(97, 'STOP', lambda s: True)


@op(98, 'TFP')
def _(s):
    level = s.block_level()
    if s.when(level == 0):
        level = simp(zx(s.get(s.get(s.fp).addr() + BN).word(), 32) + 1)
        s.set_level(level)
        s.update_display(level, s.fp)
    s.set_pending(REMOVE_ARG)
    s.take_formal(simp((c32(5) << 5) + level), c32(PUSH_VALUE))


@op(99, 'TAS')
def _(s): s.algol_char(s.S)


@op(103, 'print')
def _(s):
    k = s.concrete(simp(s.n - s.sb), range(0, 3)) if not s.when(UGT(s.sb, s.n)) else -1
    for i in range(max(k, 0)):
        if i:
            s.putc(0x20)
        c = s.get(s.sb + i)
        if s.isint(c):
            s.emit('print_int', c.word())
        elif s.isreal(c):
            s.emit('print_real', c.real())
        else:
            raise Throw()
    s.erase(s.sb)


_def(104, 'TAB', lambda s: s.putc(9))
_def(105, 'NLCR', lambda s: s.putc(10))


@op(107, 'SPACE')
def _(s):
    k = s.pop_int()
    k = 0 if s.when(k <= 0) else s.concrete(k, range(1, 7))
    for _ in range(k):
        s.putc(0x20)


def _flot(s):
    x = s.pop_num()
    if s.when(s.n == s.sb + 1):
        m = c32(2)
    elif s.when(s.n == s.sb + 2):
        m = s.pop_int()
    else:
        raise Throw()
    n = s.pop_int()
    s.emit('flot', n, m, x)


_def(110, 'FLOT', _flot)


def _fixt(sign):
    def g(s):
        x = s.pop_num()
        m = s.pop_int()
        n = s.pop_int()
        s.emit('fixt', n, m, x, c32(1 if sign else 0))
    return g


_def(111, 'FIXT', _fixt(True))
_def(112, 'ABSFIXT', _fixt(False))
for _i in (0, 1, 2, 3, 4, 5, 6, 7, 100, 101, 109, 113, 200, 4095, 32767):
    def _bad(s):
        raise Throw()
    _def(_i, f'unassigned{_i}', _bad)
NOT_SPECIFIED = {102: 'read: tokenises the input stream (bounded check)', 106: 'XEEN: console switches (bounded check)',
                 108: 'stop: waits for the operator'}


def call_opc(s, opc):
    """Contract of call_opc for a known operation number."""
    k = simp(opc)
    if not z3.is_bv_value(k):
        raise Limit("symbolic operation number")
    k = k.as_long()
    if k in NOT_SPECIFIED:
        raise Unspecified()
    if k not in OPS:
        raise Throw()
    return z3.BoolVal(OPS[k][1](s) is True)


# ---------------------------------------------------------------- instructions
INSTR = {}


def instr(code, name):
    def deco(f):
        INSTR[code] = (name, f)
        return f
    return deco


def bad_unless(s, c):
    s.throw_if(Not(c))


def s_indexed(s, a): return s.load(simp((a + s.B) & 0x7fff))


@instr(0o00220, '2A n: A := n')
def _(s, a): s.A = a

@instr(0o00244, '2A 32764 X0 B P: A := top of the stack')
def _(s, a):
    bad_unless(s, a == ADDR3)
    w = s.top().word()
    s.A = zx(w, 32)
    s.C = simp(Extract(26, 26, w) == 0)
    s.L = simp(Extract(26, 26, w) == 1)

@instr(0o00320, '3A n: A := -n')
def _(s, a): s.A = zx(low27(~a), 32)

@instr(0o00350, '3A 32767 X0 B Z: type of the top')
def _(s, a):
    bad_unless(s, a == 0o77777)
    c = s.top()
    if s.isint(c):
        v = c32(0)
    elif s.isreal(c):
        v = c32(1)
    elif s.isaddr(c):
        v = None
    else:
        raise Throw()
    if v is None:
        # an address: A becomes negative
        s.negA = True
        s.A = simp(If(c.t == INTA, c32(-12345), c32(-23456)))
    else:
        s.A = v
    s.C = simp(s.A == 0)
    s.L = simp(Extract(26, 26, s.A) == 1)

@instr(0o00400, '4A n: allocate / move the stack base')
def _(s, a):
    if s.when(a == 0o61):
        s.reserve(s.A)
    elif s.when(a == 0o62):
        s.move_base(s.A)
    else:
        raise Throw()

@instr(0o00600, '6A n: M[n] := A')
def _(s, a): s.store(a, s.A)

@instr(0o00640, '6A 32764 X0 B: top := A')
def _(s, a):
    bad_unless(s, a == ADDR3)
    s.settop(Cell(s.top().t, zx(s.A, 64)))

@instr(0o01200, '2S n: S := M[n]')
def _(s, a): s.S = zx(s.load(a), 32)

@instr(0o01220, '2S n: S := n')
def _(s, a): s.S = a

@instr(0o01240, '2S n B: S := M[n+B]')
def _(s, a): s.S = zx(s_indexed(s, a), 32)

@instr(0o01600, '6S n: M[n] := S')
def _(s, a): s.store(a, s.S)

@instr(0o03431, 'U 0LS n A Z: C := S = n')
def _(s, a): s.C = simp(s.S == a)

@instr(0o03620, '2LS n: S := S and n')
def _(s, a): s.S = simp(s.S & a)

@instr(0o04020, '0B n: B := B + n')
def _(s, a): s.B = simp(s.B + a)

@instr(0o04200, '2B n: B := M[n]')
def _(s, a): s.B = simp(zx(s.load(a), 32) & 0x7fff)

@instr(0o04220, '2B n: B := n')
def _(s, a): s.B = a

@instr(0o04240, '2B n B: B := M[n+B]')
def _(s, a):
    if s.when(a == 5):
        s.take_formal(c32((5 << 5) + 1), c32(PUSH_STRING))
        s.B = s.pop_addr()
    else:
        s.B = zx(s_indexed(s, a), 32)

@instr(0o04600, '6B n: M[n] := B')
def _(s, a): s.store(a, s.B)

@instr(0o05100, '1T n: jump back over 1+M[n]')
def _(s, a): s.OT = simp(s.OT - (1 + zx(s.load(a), 32)))

@instr(0o05220, '2T n: jump')
def _(s, a): s.OT = a

@instr(0o05404, '4T n 0 P: count down M[0] and jump')
def _(s, a):
    w = low27(Select(s.mem, c32(0)))
    # decrement in ones' complement: 1 and 0 go on to minus zero and minus one
    v = simp(If(UGT(w, 1), w - 1, w - 2))
    s.mem = Store(s.mem, c32(0), zx(v, 32))
    if s.when(UGT(w, 1)):
        s.OT = a

@instr(0o06700, 'stop on a type error')
def _(s, a): raise Throw()

def shifter(round_):
    def g(s, a):
        amount = simp(a & 31)
        reg = simp(z3.LShR(a, 5))
        if s.when(reg == 0):
            k = 'A'
        elif s.when(reg == 1):
            k = 'S'
        else:
            raise Throw()
        w = low27(getattr(s, k))
        if round_:
            n = low27(z3.URem(amount, 27))
            v = simp(z3.LShR(w, n) | (w << (27 - n)))
            sg = simp(Extract(26, 26, v) == 1)
            s.C = simp(sg == s.L)
            s.L = sg
        else:
            v = simp(w >> low27(amount))
        setattr(s, k, zx(v, 32))
    return g

INSTR[0o06714] = ('1P nn rr E: round shift', shifter(True))
INSTR[0o07700] = ('3P nn rr: clear shift', shifter(False))


def step(s):
    """One X1 instruction.  self.opcode: the operation part, known to the caller of this contract."""
    ot = simp(s.OT & 0x7fff)
    w = simp(low27(Select(s.mem, ot)))
    s.OR = zx(w, 32)
    code = simp(Extract(26, 15, w))
    a = zx(simp(Extract(14, 0, w)), 32)
    s.OT = simp(ot + 1)
    cond = simp(Extract(1, 0, code))
    if s.when(cond == 2):
        if not s.when(s.C):
            return z3.BoolVal(False)
        code = simp(code & 0xffc)
    elif s.when(cond == 3):
        if s.when(s.C):
            return z3.BoolVal(False)
        code = simp(code & 0xffc)
    if not z3.is_bv_value(code):
        known = [0] + sorted(INSTR)
        s.throw_if(And(*[code != x for x in known]))
        for x in known:
            if s.when(code == x):
                code = BitVecVal(x, 12)
                break
    k = code.as_long()
    if k == 0:
        # the operation number is the address part
        if z3.is_bv_value(simp(a)):
            return call_opc(s, a)
        s.emit('call_opc', simp(a))
        return OPC_RESULT
    if k not in INSTR:
        raise Throw()
    INSTR[k][1](s, a)
    return z3.BoolVal(False)

