"""Value domain shared by the engine and the specifications.

Floating-point work has two modes.  `opaque`: arithmetic, conversions and library
functions are uninterpreted functions, so a proof about a caller holds for whatever
they compute.  `exact`: the z3 floating-point theory (used for the conversion
functions themselves).  Numerals are always folded exactly.
"""
import z3, math
from fractions import Fraction
from z3 import BitVecVal, Extract, Concat, ZeroExt, SignExt, If, And, Or, Not

FP80 = z3.FPSort(15, 64)
RNE, RTZ, RNA, RTN = z3.RNE(), z3.RTZ(), z3.RNA(), z3.RTN()
B = z3.BitVecSort

MODE = {'fp': 'opaque', 'digits': False}
FP64 = z3.FPSort(11, 53)

_uf = {}
def uf(name, *sig):
    f = _uf.get(name)
    if f is None:
        f = z3.Function(name, *sig)
        _uf[name] = f
    return f

X2I = uf('x1_to_ieee', B(54), FP80)
I2X = uf('ieee_to_x1', FP80, B(54))
I2XOVF = uf('ieee_to_x1_overflows', FP80, z3.BoolSort())
I2F = uf('int_to_fp', B(64), FP80)


def isfpc(x): return z3.is_fp_value(x)
def isbvc(x): return type(x) is int or z3.is_bv_value(x)


def fpnum(fr_neg, fr):
    """FP80 numeral from sign and non-negative Fraction (rounded to nearest even)."""
    v = z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(str(fr)), FP80))
    return z3.simplify(z3.fpNeg(v)) if fr_neg else v


def bits80(x):
    """80-bit pattern of an FP80 numeral, as (sign, biased exponent, 63-bit fraction)."""
    s = 1 if z3.is_true(z3.simplify(z3.fpIsNegative(x))) else 0
    if z3.is_true(z3.simplify(z3.fpIsNaN(x))):
        return (0, 0x7fff, 1 << 62)
    if z3.is_true(z3.simplify(z3.fpIsInf(x))):
        return (s, 0x7fff, 0)
    v = z3.simplify(z3.fpToIEEEBV(x)).as_long()
    return (v >> 78, (v >> 63) & 0x7fff, v & ((1 << 63) - 1))


def from_bits80(s, e, f):
    return z3.simplify(z3.fpFP(BitVecVal(s, 1), BitVecVal(e, 15), BitVecVal(f, 63)))


def to_x87(x):
    """16-byte memory image of an FP80 numeral."""
    s, e, f = bits80(x)
    m = f | ((1 << 63) if e else 0)
    return m.to_bytes(8, 'little') + ((s << 15) | e).to_bytes(2, 'little') + b'\0' * 6


def from_x87(b):
    m = int.from_bytes(b[:8], 'little')
    se = int.from_bytes(b[8:10], 'little')
    return from_bits80(se >> 15, se & 0x7fff, m & ((1 << 63) - 1))


def tofrac(x):
    """Exact value of a finite numeral."""
    s, e, f = bits80(x)
    if e == 0:
        v = Fraction(f, 1) * Fraction(2) ** (1 - 16383 - 63)
    else:
        v = Fraction(f | (1 << 63)) * Fraction(2) ** (e - 16383 - 63)
    return -v if s else v


# ------------------------------------------------------------------ X1 reals
def x2i_py(v):
    """Value of an X1 real word pair (54-bit int) as an FP80 numeral."""
    v &= (1 << 54) - 1
    neg = v >> 53
    if neg:
        v ^= (1 << 54) - 1
    m = ((v >> 27) & ((1 << 26) - 1)) << 14 | ((v >> 12) & 0x3fff)
    e = (v & 0xfff) - 2048 - 40
    return fpnum(neg, Fraction(m) * Fraction(2) ** e)


def i2x_py(x):
    """(overflow, 54-bit word) for an FP80 numeral."""
    s, e, f = bits80(x)
    if e == 0x7fff:
        return True, 0
    fr = abs(tofrac(x))
    if fr == 0:
        return False, ((1 << 54) - 1 if s else 0)
    # fr = m * 2^ex, m in [1/2,1)
    n, d = fr.numerator, fr.denominator
    ex = n.bit_length() - d.bit_length()
    while Fraction(2) ** ex <= fr:
        ex += 1
    while Fraction(2) ** (ex - 1) > fr:
        ex -= 1
    q = fr * Fraction(2) ** (40 - ex)
    m = math.floor(q + Fraction(1, 2))
    if m == 1 << 40:
        m >>= 1
        ex += 1
    if ex > 2047:
        return True, 0
    if ex < -2048:
        return False, ((1 << 54) - 1 if s else 0)
    w = (m >> 14) << 27 | (m & 0x3fff) << 12 | (ex + 2048)
    if s:
        w ^= (1 << 54) - 1
    return False, w


def x2i(v, facts=None):
    """X1 real (BV54) -> FP80.  facts: list that receives the facts known about the result."""
    if isbvc(v):
        return x2i_py(v if type(v) is int else v.as_long())
    r = X2I(v)
    if facts is not None:
        facts.append(Not(z3.fpIsNaN(r)))
        facts.append(Not(z3.fpIsInf(r)))
    return r


def i2x(x):
    """FP80 -> (overflow Bool, BV54)."""
    if isfpc(x):
        o, w = i2x_py(x)
        return z3.BoolVal(o), BitVecVal(w, 54)
    return I2XOVF(x), I2X(x)


# ------------------------------------------------------------------ arithmetic
def fbin(op, a, b):
    so = a.sort()
    if op == 'mul' and POWERS.get('base') is not None:
        r = power_mul(a, b, POWERS['base'])
        if r is not None:
            return r
    if so == FP64 and MODE['digits'] and not (isfpc(a) and isfpc(b)):
        if op in ('add', 'mul') and a.get_id() > b.get_id():
            a, b = b, a
        return uf('d' + op, FP64, FP64, FP64)(a, b)
    if op in ('add', 'mul') and a.get_id() > b.get_id():
        a, b = b, a
    if isfpc(a) and isfpc(b) or MODE['fp'] == 'exact' or so != FP80:
        f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op]
        r = f(RNE, a, b)
        return z3.simplify(r) if isfpc(a) and isfpc(b) else r
    return uf('f' + op, FP80, FP80, FP80)(a, b)


def sitofp(v, so, facts=None):
    """Signed bit-vector to floating point."""
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return z3.simplify(z3.fpSignedToFP(RNE, v, so))
    if MODE['fp'] == 'exact' or so != FP80 or v.size() > 64:
        while z3.is_app_of(v, z3.Z3_OP_SIGN_EXT):
            v = v.arg(0)
        return z3.fpSignedToFP(RNE, v, so)
    w = v if v.size() == 64 else z3.simplify(SignExt(64 - v.size(), v))
    r = I2F(w)
    if facts is not None:
        facts += [Not(z3.fpIsNaN(r)), Not(z3.fpIsInf(r)), z3.fpIsZero(r) == (w == 0),
                  z3.fpIsNegative(r) == (w < 0)]
    return r


_libm = None
def libm(name, *args):
    """Evaluate a libm function on FP80 numerals with the C library."""
    global _libm
    import ctypes
    if _libm is None:
        import build
        _libm = ctypes.CDLL(build.fplib())
    buf = (ctypes.c_char * 16)()
    f = getattr(_libm, 'vc_' + name)
    f(buf, *[ctypes.create_string_buffer(to_x87(a), 16) for a in args])
    return from_x87(bytes(buf))


def fun(name, *args):
    """libm function on FP80 values."""
    if all(isfpc(a) for a in args):
        if name == 'floorl':
            return z3.simplify(z3.fpRoundToIntegral(RTN, args[0]))
        if name == 'roundl':
            return z3.simplify(z3.fpRoundToIntegral(RNA, args[0]))
        if name == 'fabsl':
            return z3.simplify(z3.fpAbs(args[0]))
        return libm(name, *args)
    if name == 'fabsl':
        return z3.fpAbs(args[0])
    if name == 'floorl':
        return z3.fpRoundToIntegral(RTN, args[0])
    if name == 'roundl':
        return z3.fpRoundToIntegral(RNA, args[0])
    return uf(name, *([FP80] * (len(args) + 1)))(*args)


def dfloor(v):
    """floor of a double."""
    if MODE['digits'] and not isfpc(v):
        return uf('dfloor', FP64, FP64)(v)
    return z3.simplify(z3.fpRoundToIntegral(RTN, v))


def fptosi(v, w):
    if MODE['digits'] and v.sort() == FP64 and not isfpc(v):
        return uf(f'd_to_int{w}', FP64, B(w))(v)
    if isfpc(v) or MODE['fp'] == 'exact' or v.sort() != FP80:
        r = z3.fpToSBV(RTZ, v, B(w))
        return z3.simplify(r)
    return uf(f'fp_to_int{w}', FP80, B(w))(v)


def fptoui(v, w):
    if isfpc(v) or MODE['fp'] == 'exact' or v.sort() != FP80:
        return z3.simplify(z3.fpToUBV(RTZ, v, B(w)))
    return uf(f'fp_to_uint{w}', FP80, B(w))(v)


def fpint(n):
    return z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(n), FP80))


def fptrunc(v):
    """Long double to double."""
    so = FP64
    if isfpc(v) or MODE['fp'] == 'exact':
        return z3.simplify(z3.fpToFP(RNE, v, so))
    return uf('fptrunc', FP80, so)(v)


# ------------------------------------------------------------------ what the digit loops rely on (each proved by `lemma digits`)
def nonneg(x): return z3.fpGEQ(x, fpint(0))
def unit(x): return And(nonneg(x), z3.fpLT(x, fpint(1)))
def within(x, k): return And(z3.fpGEQ(x, z3.FPVal(-k, x.sort())), z3.fpLEQ(x, z3.FPVal(k, x.sort())))
def below(x, e): return z3.fpLT(x, from_bits80(0, 16383 + e, 0))
def ten(x): return And(nonneg(x), z3.fpLT(x, fpint(10)))


def digit_facts(op, a, b, r):
    """Facts about the result r of an operation on opaque values (op: add, div, mul, sub, digit, floor)."""
    if a.sort() == FP64:
        if op == 'floor':
            return [z3.Implies(within(a, 640), within(r, 640))]
        if op == 'add':
            return [z3.Implies(And(within(a, 640), within(b, 1)), within(r, 641)), z3.Implies(And(within(b, 640), within(a, 1)), within(r, 641))]
        if op == 'digit':
            return [z3.Implies(within(a, 641), And(r >= -641, r <= 641))]
        return []
    if op == 'add':
        return [z3.Implies(And(nonneg(a), nonneg(b)), nonneg(r)),
                z3.Implies(And(below(a, 2048), below(b, 2048)), below(r, 2049)),
                z3.Implies(And(z3.fpLEQ(a, fpint(2)), z3.fpLEQ(b, fpint(1))), z3.fpLEQ(r, fpint(3))),
                z3.Implies(And(z3.fpLEQ(b, fpint(2)), z3.fpLEQ(a, fpint(1))), z3.fpLEQ(r, fpint(3)))]
    if op == 'div':
        more = []
        if isfpc(b) and b.eq(fpint(10)):
            more = [z3.Implies(And(nonneg(a), z3.fpLEQ(a, fpint(3))), unit(r))]
        return more + [z3.Implies(And(nonneg(a), below(a, 2049), z3.fpGT(b, fpint(0))), nonneg(r))]
    if op == 'mul':
        if isfpc(a) and a.eq(fpint(10)):
            a, b = b, a
        if isfpc(b) and b.eq(fpint(10)):
            return [z3.Implies(unit(a), ten(r))]
    if op == 'digit':
        return [z3.Implies(ten(a), And(r >= 0, r <= 9))]
    if op == 'sub' and z3.is_app(b) and b.decl().eq(I2F) and b.arg(0).eq(z3.simplify(SignExt(32, fptosi(a, 32)))):
        return [z3.Implies(ten(a), unit(r))]
    return []


def exponent_of(x):
    """Decimal exponent: one more than the integer part of the decimal logarithm."""
    l = fptrunc(fun('log10l', x))
    return z3.simplify(fptosi(fbin('add', dfloor(l), z3.FPVal(1, l.sort())), 32))


def libm_facts(name, r, *a):
    """Assumed of libm: powers of ten up to 1000 are positive and finite; logarithms of X1 numbers are moderate."""
    if name == 'powl' and isfpc(a[0]) and a[0].eq(fpint(10)) and z3.is_app(a[1]) and a[1].decl().eq(I2F):
        n = a[1].arg(0)
        return [z3.Implies(And(n >= -1000, n <= 1000), And(z3.fpGT(r, fpint(0)), Not(z3.fpIsInf(r))))]
    if name == 'log10l':
        x = a[0]
        d = fptrunc(r)
        e = exponent_of(x)
        q = fbin('div', x, fun('powl', fpint(10), sitofp(e, FP80)))
        # x is scaled into [0, 1], up to rounding
        return [z3.Implies(x1_range(x), And(within(d, 640), z3.fpLEQ(q, fpint(2)), z3.Implies(e == 0, z3.fpLEQ(x, fpint(2)))))]
    return []


def x1_range(x):
    """A positive number of the magnitude an X1 real can have."""
    f = lambda e: from_bits80(0, 16383 + e, 0)
    return And(z3.fpGEQ(x, f(-2100)), z3.fpLT(x, f(2048)))


_vars = {}


def names(c):
    """Ids of the unknowns in a formula."""
    k = c.get_id()
    if k not in _vars:
        seen, todo, r = set(), [c], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(t.decl().name())
                todo += t.children()
        _vars[k] = (c, frozenset(r))
    return _vars[k][1]


def related(pc, e):
    """The conditions that share unknowns with e, directly or not."""
    out, vs, rest = [], set(names(e)), list(pc)
    while True:
        hit = [c for c in rest if not names(c).isdisjoint(vs)]
        if not hit:
            return out
        out += hit
        rest = [c for c in rest if names(c).isdisjoint(vs)]
        for c in hit:
            vs |= names(c)


_abs = {}


def without_fp(c):
    """c with the integers taken from floating-point values replaced by unknowns; None if floating point remains."""
    k = c.get_id()
    if k in _abs:
        return _abs[k][1]
    subs, seen, todo, bad = [], set(), [c], False
    while todo and not bad:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_fp(t) or isinstance(t, z3.FPRMRef):
            bad = True
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and any(z3.is_fp(x) for x in t.children()):
            v = z3.Const('abs!%d' % t.get_id(), t.sort())
            subs.append((t, v))
        else:
            todo += t.children()
    r = None if bad else z3.substitute(c, *subs) if subs else c
    _abs[k] = (c, r, subs)
    return r


# ------------------------------------------------------------------ powers of a real, as an algebra
PW = uf('real_power', FP80, B(64), FP80)
POWERS = {'on': False}


def pw(x, n):
    """x multiplied by itself, n factors (rounding of the intermediate products disregarded)."""
    if n.size() < 64:
        n = ZeroExt(64 - n.size(), n)
    return PW(x, z3.simplify(n))


def as_power(t, base):
    """Exponent e with t = base**e, or None."""
    if t.eq(base):
        return BitVecVal(1, 64)
    if z3.is_app(t) and t.decl().eq(PW) and t.arg(0).eq(base):
        return t.arg(1)
    if isfpc(t) and t.eq(fpint(1)):
        return BitVecVal(0, 64)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = as_power(t.arg(1), base), as_power(t.arg(2), base)
        if a is not None and b is not None:
            return z3.simplify(If(t.arg(0), a, b))
    return None


def power_mul(a, b, base):
    x, y = as_power(a, base), as_power(b, base)
    if x is None or y is None:
        return None
    return PW(base, z3.simplify(x + y))


def sext(v, n):
    """Sign extension by n bits; a negated non-negative number is negated after the extension."""
    if n <= 0:
        return v
    if z3.is_app_of(v, z3.Z3_OP_BMUL) and v.num_args() == 2 and z3.is_bv_value(v.arg(0)) and v.arg(0).as_signed_long() == -1:
        c = v.arg(1)
        if z3.is_app_of(c, z3.Z3_OP_CONCAT) and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() == 0 and c.arg(0).size() >= 2:
            return z3.simplify(-ZeroExt(n, c))
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        return z3.simplify(If(v.arg(0), sext(v.arg(1), n), sext(v.arg(2), n)))
    if z3.is_app_of(v, z3.Z3_OP_CONCAT) and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() >> (v.arg(0).size() - 1) == 0:
        return z3.simplify(ZeroExt(n, v))
    return z3.simplify(SignExt(n, v))


def mul(a, b):
    """Product of two bit-vectors; opaque (defined on demand by the engine) when neither is constant."""
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_bv_value(a) or z3.is_bv_value(b) or a.size() < 16:
        return z3.simplify(a * b)
    if a.get_id() > b.get_id():
        a, b = b, a
    w = a.size()
    return uf(f'product{w}', B(w), B(w), B(w))(a, b)


def is_mul(e):
    return z3.is_app(e) and e.num_args() == 2 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('product')
