"""The functions under contract."""
import z3
import dom
from verify import *
from engine import FP80
from specs import *
from specs import INPUT_CHAR, INPUT_BAD, ALGOL_TEXT


# ---------------------------------------------------------------- numbers
def c_integer_to_x1(s, i): return s.int_word(sx(i, 64))
def c_x1_to_integer(s, w): return to_int(low27(w))


def c_x1_to_ieee(s, r):
    r = low(r, 54)
    if dom.MODE['fp'] != 'exact':
        return s.x2i(r)
    neg = Extract(53, 53, r) == 1
    a = simp(If(neg, ~r, r))
    m = simp(Concat(Extract(52, 27, a), Extract(25, 12, a)))
    e = simp(ZeroExt(20, Extract(11, 0, a)) - 2048 - 40)         # value = m * 2**e
    zero = z3.fpFP(If(neg, BitVecVal(1, 1), BitVecVal(0, 1)), BitVecVal(0, 15), BitVecVal(0, 63))
    # normalise: the leading one of m becomes the implicit bit
    f = zx(m, 64) << 24
    sh = BitVecVal(0, 32)
    for k in (32, 16, 8, 4, 2, 1):
        c = z3.LShR(f, 64 - k) == 0
        f, sh = If(c, f << k, f), If(c, sh + k, sh)
    ex = Extract(14, 0, e + 39 - sh + 16383)
    v = z3.fpFP(If(neg, BitVecVal(1, 1), BitVecVal(0, 1)), ex, Extract(62, 0, f))
    return If(m == 0, zero, v)


def c_ieee_to_x1(s, x):
    if dom.MODE['fp'] != 'exact':
        return s.i2x(x)
    sg, ex, fr = x.arg(0), x.arg(1), x.arg(2)
    s.throw_if(ex == 0x7fff)
    minus = BitVecVal((1 << 54) - 1, 54)
    sign = lambda w: simp(If(sg == 1, ~w, w))
    if s.when(ex == 0):
        return sign(BitVecVal(0, 54))           # zero, or far below the smallest X1 real
    m = simp((Concat(BitVecVal(1, 2), fr) + (1 << 23)) >> 24)     # 40 bits, rounded half up
    m = Extract(40, 0, m)
    carry = Extract(40, 40, m) == 1
    e = simp(ZeroExt(17, ex) - 16382)
    m, e = If(carry, z3.LShR(m, 1), m), If(carry, e + 1, e)
    s.throw_if(e > 2047)
    if s.when(e < -2048):
        return sign(BitVecVal(0, 54))
    return sign(Concat(BitVecVal(0, 1), Extract(39, 14, m), BitVecVal(0, 1), Extract(13, 0, m), Extract(11, 0, e + 2048)))


def c_words_to_real(s, hi, lo): return simp(Concat(Extract(26, 0, hi), Extract(26, 0, lo)))
def c_neg_int(s, w): return simp(~low27(w))
def c_neg_real(s, r): return simp(~low(r, 54))
def c_abs_int(s, w): return simp(If(Extract(26, 26, w) == 1, ~low27(w), low27(w)))
def c_abs_real(s, r): return simp(If(Extract(53, 53, r) == 1, ~low(r, 54), low(r, 54)))
def c_round_int(s, x): return s.round_int(x)


def c_power_int(s, a, n):
    if s.opaque_ipow:
        f = dom.uf('int_power', B32, B32, B32)
        o = dom.uf('int_power_overflows', B32, B32, z3.BoolSort())
        if not (z3.is_bv_value(simp(a)) and z3.is_bv_value(simp(n))):
            s.throw_if(o(a, n))
            v = f(a, n)
            s.fact(And(v >= -MAXINT, v <= MAXINT))
            return v
    return to_int(s.ipow(a, n))


def c_power_real(s, x, n): return s.powf(x, n)


def word27(s, w, *r): return [ULT(w, 1 << 27)]
def word54(s, w, *r): return [ULT(w, 1 << 54)]


CONTRACTS = {}


def C(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.id] = c
    return c


ld = 'fp'
C('integer_to_x1(int)', c_integer_to_x1, None, [32], 27)
C('x1_to_integer(unsigned int)', c_x1_to_integer, None, [32], 32, pre=word27)
C('x1_to_ieee(unsigned long)', c_x1_to_ieee, None, [64], 'fp', pre=word54, fp='exact')
C('ieee_to_x1(long double)', c_ieee_to_x1, None, ['fp'], 54, fp='exact')
C('x1_words_to_real(unsigned int, unsigned int)', c_words_to_real, None, [32, 32], 54, pre=lambda s, a, b: word27(s, a) + word27(s, b))
C('x1_negate_int(unsigned int)', c_neg_int, None, [32], 27, pre=word27)
C('x1_negate_real(unsigned long)', c_neg_real, None, [64], 54, pre=word54)
C('x1_abs_int(unsigned int)', c_abs_int, None, [32], 27, pre=word27)
C('x1_abs_real(unsigned long)', c_abs_real, None, [64], 54, pre=word54)
C('round_to_integer(long double)', c_round_int, None, ['fp'], 32, fp='exact')
C('power(int, unsigned int)', c_power_int, None, [32, 32], 32, id='power_int', opts={'site_opaque_ipow': True})
C('power(long double, unsigned int)', c_power_real, None, ['fp', 32], 'fp', id='power_real')


# ---------------------------------------------------------------- display, frames, parameters
def c_update_display(s, level, fp): s.update_display(level, fp)
def c_get_arg_display(s, d): return s.arg_context(d)
def c_arg_address(s, d, descr): return s.arg_address(d, descr)
def c_roll_back(s, goal): s.roll_back(goal)
def c_frame_create(s, ret, nargs): s.frame_create(ret, nargs)
def c_frame_release(s): return s.frame_release()
def c_allocate(s, w): s.reserve(w)
def c_take_formal(s, d, op): s.take_formal(d, op)
def c_storage_frame(s, size): s.storage_frame(simp(size).as_long())
def c_value_array_frame(s, size): s.value_array_frame(simp(size).as_long())
def c_mem_load(s, a): return s.load(a)
def c_mem_store(s, a, v): s.store(a, v)
def c_load_word(s, a): return s.load_word(a)
def c_call_opc(s, opc): return call_opc(s, opc)
def c_step(s): return step(s)
def c_apply_at(s, op, addr, t): s.apply_at(op, addr, s.when(t == REALA))
def c_apply_top(s, op): s.apply_top(op)
def c_print_int(s, w): s.emit('print_int', low27(w))


def valid_op(s, op, *r): return [ULE(op, DIVIDE_DEREF)]


C('Processor::update_display(unsigned int, unsigned int)', c_update_display, 'cpu', [32, 32], opts={'exact': True})
C('Processor::arg_address(unsigned int, unsigned int)', c_arg_address, 'cpu', [32, 32], 32, opts={'opaque_argaddr': False})
C('Processor::roll_back(unsigned int)', c_roll_back, 'cpu', [32])
C('Processor::frame_create(unsigned int, unsigned int)', c_frame_create, 'cpu', [32, 32])
C('Processor::frame_release()', c_frame_release, 'cpu', [], 32)
C('Processor::allocate_stack(unsigned int)', c_allocate, 'cpu', [32])
C('Processor::take_formal(unsigned int, Formal_Op)', c_take_formal, 'cpu', [32, 32], pre=lambda s, d, op: [ULE(op, DIVIDE)])
C('Machine::mem_load(unsigned int)', c_mem_load, 'mach', [32], 27)
C('Machine::mem_store(unsigned int, unsigned int)', c_mem_store, 'mach', [32, 32])
C('Processor::load_word(unsigned int)', c_load_word, 'cpu', [32], 27)
C('Processor::call_opc(unsigned int)', c_call_opc, 'cpu', [32], 'bool')
C('Processor::step()', c_step, 'cpu', [], 'bool')
LEAF = [CONTRACTS[k] for k in ('x1_to_ieee', 'ieee_to_x1', 'integer_to_x1', 'x1_to_integer', 'round_to_integer', 'power_int', 'power_real')]
LOOPS = [CONTRACTS['Processor::' + k] for k in ('update_display', 'arg_address', 'roll_back', 'frame_create', 'allocate_stack')]
MEM = [CONTRACTS['Machine::mem_load'], CONTRACTS['Machine::mem_store']]


# ---------------------------------------------------------------- characters and numbers on the console
COUT, CIN = '_ZSt4cout', '_ZSt3cin'
OS = 'std::basic_ostream<char, std::char_traits<char> >&'
IS = 'std::basic_istream<char, std::char_traits<char> >&'


def pick(s, v, lo, hi):
    """The value of v in lo..hi-1, by cases."""
    while hi - lo > 1:
        m = (lo + hi) // 2
        if s.when(ULT(v, m)):
            hi = m
        else:
            lo = m
    return lo


def c_algol_putc(s, ch, out):
    k = pick(s, ch & 0x7f, 0, 128)
    for b in (ALGOL_TEXT[k] or '⎕').encode():
        s.putc(b)


def c_x1_print_integer(s, out, w):
    w = low27(w)
    if s.when(Extract(26, 26, w) == 1):
        s.putc(0x2d)
        w = simp(~w)
    s.emit('int', zx(w, 64))


def c_x1_print_real(s, out, r):
    s.emit('fmt', '%.13Lg', s.x2i(low(r, 54)))


C(f'algol_putc(int, {OS})', c_algol_putc, None, [32, COUT])
C(f'x1_print_integer({OS}, unsigned int)', c_x1_print_integer, None, [COUT, 32], pre=lambda s, o, w: word27(s, w))
C(f'x1_print_real({OS}, unsigned long)', c_x1_print_real, None, [COUT, 64], pre=lambda s, o, w: word54(s, w))


def fl(x): return z3.simplify(z3.fpRealToFP(dom.RNE, z3.RealVal(str(x)), FP80))
TEN = fl(10)


def power_of_ten(n): return dom.fun('powl', TEN, dom.sitofp(n, FP80))


def c_fixt(s, out, n, m, x0, sign):
    """n digits, a point when m > 0, m digits; sign or space in front, space behind."""
    n, m = sx(n, 64), sx(m, 64)
    def flot():
        s.emit('flot', c32(13), c32(3), x0)
    if s.when(Or(n < 0, m < 0, n + m > 21, n + m == 0)):
        return flot()
    neg = s.when(z3.fpIsNegative(x0))
    sign = s.when(tobool(sign))
    x = simp(z3.fpNeg(x0)) if neg else x0
    x = dom.fbin('add', x, dom.fbin('div', fl('0.5'), power_of_ten(m)))
    n, m = s.concrete(n, range(0, 22)), s.concrete(m, range(0, 22))
    if n > 0:
        x = dom.fbin('div', x, power_of_ten(c32(n)))
    if s.when(z3.fpGEQ(x, fl(1))):
        return flot()
    s.putc(0x20 if not sign else 0x2d if neg else 0x2b)
    blank = True            # nothing but leading zeros so far
    for k in range(n + m):
        if k == n:
            s.putc(0x2e)
        if k >= n or k == n - 1 and m == 0:
            blank = False
        x = dom.fbin('mul', x, TEN)
        d = dom.fptosi(x, 32)
        x = dom.fbin('sub', x, dom.sitofp(d, FP80))
        if blank and s.when(d == 0):
            s.putc(0x20)
        else:
            blank = False
            s.emit('int', sx(d, 64))
    s.putc(0x20)


def c_flot(s, out, n, m, x0):
    """Sign, point, n digits, ten, sign and m characters of exponent, space."""
    if s.when(Or(n < 1, n > 13, m < 1, m > 3)):
        n, m = 13, 3
    else:
        n, m = s.concrete(n, range(1, 14)), s.concrete(m, range(1, 4))
    neg = s.when(z3.fpIsNegative(x0))
    x = x1 = simp(z3.fpNeg(x0)) if neg else x0
    lim = {1: 9, 2: 99, 3: 999}
    zero = s.when(z3.fpIsZero(x))
    e = c32(0) if zero else dom.exponent_of(x)
    def wide(e, m): return Or(e > lim[m], e < -lim[m])
    if not zero:
        if m < 3 and s.when(wide(e, m)):
            n, m = 13, 3
        if s.when(wide(e, 3)):
            raise Unspecified()
    def scaled(n):
        x = x1
        if not zero and s.when(e != 0):
            x = dom.fbin('div', x, power_of_ten(e))
        return dom.fbin('add', x, dom.fbin('div', fl('0.5'), power_of_ten(c32(n))))
    x = scaled(n)
    if s.when(z3.fpGEQ(x, fl(1))):
        if m < 3 and s.when(e + 1 > lim[m]):
            n, m = 13, 3
            x = scaled(n)
            if s.when(z3.fpGEQ(x, fl(1))):
                x, e = dom.fbin('div', x, TEN), simp(e + 1)
        else:
            x, e = dom.fbin('div', x, TEN), simp(e + 1)
    if s.when(wide(e, 3)):
        raise Unspecified()
    s.putc(0x2d if neg else 0x2b)
    s.putc(0x2e)
    for k in range(n):
        x = dom.fbin('mul', x, TEN)
        d = dom.fptosi(x, 32)
        x = dom.fbin('sub', x, dom.sitofp(d, FP80))
        s.emit('int', sx(d, 64))
    for b in '\u23e8'.encode():
        s.putc(b)
    if s.when(e < 0):
        s.putc(0x2d)
        e = simp(-e)
    else:
        s.putc(0x2b)
    blank = True
    for k in range(m - 1, -1, -1):
        d = simp(z3.SRem(e / c32(10 ** k) if k else e, c32(10)))
        if k and blank and s.when(d == 0):
            s.putc(0x20)
        else:
            blank = False
            s.emit("int", sx(d, 64))
    s.putc(0x20)


def c_int_or_real(s, out, x):
    if s.when(And(z3.fpEQ(x, dom.fun('floorl', x)), z3.fpLT(z3.fpAbs(x), fl(1 << 40)))):
        s.emit('fixt', c32(13), c32(0), x, c32(1))
        for k in range(6):
            s.putc(0x20)
    else:
        s.emit('flot', c32(13), c32(3), x)


C(f'Machine::print_fixed_point({OS}, int, int, long double, bool)', c_fixt, None, [COUT, 32, 32, 'fp', 1])
C(f'Machine::print_floating_point({OS}, int, int, long double)', c_flot, None, [COUT, 32, 32, 'fp'])
C(f'Machine::print_int_or_real({OS}, long double)', c_int_or_real, None, [COUT, 'fp'])

C(f'Machine::input_char({IS})', lambda s, i: s.input_char(), None, [CIN], 32)


class OutContract:
    """Printing routines at call sites: one output item carrying the value printed."""
    def __init__(self, dem, kind, conv):
        self.dem = dem; self.kind = kind; self.conv = conv

    def install(self, env):
        if self.dem in env.m.bydem:
            def h(E, st, fn, a):
                vals = []
                for v, w in zip(a[1:], self.conv):
                    if w == 'fp':
                        vals.append(v)
                    else:
                        v = simp(bv(v, v.size() if z3.is_bv(v) else (1 if z3.is_bool(v) else 64 if w == 54 else 32)))
                        v = BitVecVal(v, w) if type(v) is int else v
                        v = zx(v, w) if v.size() < w else simp(Extract(w - 1, 0, v))
                        vals.append(v)
                models.emit(st, models.sname(E, a[0]), self.kind, *vals)
                return [(st, 'ret', None)]
            env.E.contracts[self.dem] = h


O = 'std::basic_ostream<char, std::char_traits<char> >&, '
PRINT = [OutContract(f'Machine::print_fixed_point({O}int, int, long double, bool)', 'fixt', [32, 32, 'fp', 32]),
         OutContract(f'Machine::print_floating_point({O}int, int, long double)', 'flot', [32, 32, 'fp']),
         OutContract(f'x1_print_integer({O}unsigned int)', 'print_int', [27]),
         OutContract(f'x1_print_real({O}unsigned long)', 'print_real', [54])]


class PutcContract:
    dem = f'algol_putc(int, {O[:-2]})'
    def install(self, env):
        def h(E, st, fn, a):
            models.emit(st, models.sname(E, a[1]), 'algol', simp(bv(a[0], 32) & 0x7f))
            return [(st, 'ret', None)]
        if self.dem in env.m.bydem:
            env.E.contracts[self.dem] = h


class GetcContract:
    dem = 'Machine::input_char(std::basic_istream<char, std::char_traits<char> >&)'
    def install(self, env):
        def h(E, st, fn, a):
            k = st.ghost.get('inchar', 0)
            st.ghost['inchar'] = k + 1
            t = st.fork()
            t.pc.append(INPUT_BAD(c32(k)))
            st.pc.append(Not(INPUT_BAD(c32(k))))
            v = INPUT_CHAR(c32(k))
            st.pc.append(ULT(v, 256))
            return [(st, 'ret', v), (t, 'throw', None)]
        if self.dem in env.m.bydem:
            env.E.contracts[self.dem] = h


DEVICE = [PutcContract(), GetcContract()]
SITE = LEAF + LOOPS + MEM + PRINT + DEVICE


def addr_near_top(depth):
    """An address cell is among the top `depth` cells (or the stack ends before)."""
    def pre(s, *a):
        alts = [ULE(s.n, depth)]
        for k in range(1, depth + 1):
            t = Select(s.st, s.n - k)
            alts.append(Or(t == INTA, t == REALA))
        return [Or(*alts)]
    return pre


def small_frame(dims, arrays):
    def pre(s, *a):
        return [ULE(s.sb, s.n), ULE(s.n - s.sb, 2 * dims + 1), ULE(s.S, arrays)]
    return pre


def top_int_below(k):
    def pre(s, *a):
        c = s.cell(simp(s.n - 1))
        return [to_int(c.word()) <= k]
    return pre


def few_args(k):
    def pre(s, *a): return [Or(UGT(s.sb, s.n), ULE(s.n - s.sb, k))]
    return pre


def small_value_array(words):
    def pre(s, *a):
        lv = simp(s.S & 31)
        f = simp(If(lv == 0, c32(0), Select(s.disp, lv)) + z3.LShR(s.S, 5))
        r = []
        for p in range(2, 8):
            v = to_int(low27(Select(s.sv, simp(f + p))))
            r.append(v >= -words)
        return r
    return pre


# operations whose loop is unrolled only up to a bound (labelled bounded in the evidence)
BOUNDED = {
    103: ('at most 2 arguments', few_args(2)),
    107: ('at most 6 spaces', top_int_below(6)),
}
