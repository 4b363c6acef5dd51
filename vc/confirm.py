"""Confirmation of a failed obligation on the real code."""
import random, time
import z3
import dom, specs, ops, replay
from replay import *
from specs import c32, c64, low27
from engine import Limit
from absstate import Unspecified, Throw


def fp_bits(h): return dom.from_x87(bytes.fromhex(h)[::-1])


def fp_hex(x): return dom.to_x87(x)[:10][::-1].hex()


def width_ret(w):
    def f(r, v):
        want, have = num(r), int(v[0])
        if (want ^ have) & ((1 << w) - 1):
            return f"result {have}, specified {want}"
    return f


def bool_ret(r, v):
    if bool(num(r)) != bool(int(v[0])):
        return f"result {v[0]}, specified {num(r)}"


def fp_ret(r, v):
    r = simp(r)
    x = fp_bits(v[0])
    if not (r.eq(x) or z3.is_true(simp(z3.And(z3.fpIsNaN(r), z3.fpIsNaN(x)))) or z3.is_true(simp(r == x))):
        return f"result {v[0]}, specified {fp_hex(r)}"


NATIVE_NAME = {'Processor::call_opc': 'call_opc', 'Processor::step': 'step', 'Machine::mem_load': 'mem_load', 'Machine::mem_store': 'mem_store'}
for _k in ('integer_to_x1', 'x1_to_integer', 'x1_to_ieee', 'ieee_to_x1', 'x1_words_to_real', 'x1_negate_int', 'x1_negate_real',
           'x1_abs_int', 'x1_abs_real', 'algol_putc'):
    NATIVE_NAME[_k] = _k
NATIVE_NAME['x1_print_integer'] = 'print_int'
NATIVE_NAME['x1_print_real'] = 'print_real'
NATIVE_NAME['Machine::input_char'] = 'input_char'
NATIVE_NAME['Machine::print_fixed_point'] = 'fixt'
NATIVE_NAME['Machine::print_int_or_real'] = 'print'
NATIVE_NAME['Machine::print_floating_point'] = 'flot'


def stream(w): return type(w) is str and w.startswith('_Z')


class Trial:
    """One concrete run to compare: state, native call, specification, result comparison."""
    def __init__(self, unit, state, args):
        c = unit.c()
        self.unit = unit; self.state = state; self.args = args; self.c = c
        self.call = [NATIVE_NAME[c.id]] + [fp_hex(a) if w == 'fp' else a for a, w in zip(args, c.conv or []) if not stream(w)]
        self.ret = None
        if c.ret == 'fp':
            self.ret = fp_ret
        elif c.ret == 'bool':
            self.ret = bool_ret
        elif c.ret:
            self.ret = width_ret(c.ret)

    def zargs(self):
        return [z3.BitVecVal(a, w) if type(w) is int else a for a, w in zip(self.args, self.c.conv or [])]

    def run(self, native):
        dom.MODE['fp'] = 'opaque'
        try:
            if self.c.fp == 'exact':
                dom.MODE['fp'] = 'exact'
            return difference(self.state, lambda s: self.c.spec(s, *self.zargs()), self.call, native, self.ret)
        finally:
            dom.MODE['fp'] = 'opaque'

    def admissible(self):
        """The unit's precondition, concretely."""
        for p in (self.c.pre, self.unit.pre):
            if not p:
                continue
            s = self.state.spec()
            for f in p(s, *self.zargs()):
                f = simp(f) if not isinstance(f, bool) else f
                if f is False or z3.is_false(f):
                    return False
        return True


def replayable(unit):
    return unit.c().id in NATIVE_NAME


def trial_from_model(unit, env, model):
    st = from_model(model, env.s0)
    args = []
    for a, w in zip(env.args, unit.c().conv or []):
        if stream(w):
            args.append(None)
            continue
        v = model.eval(a, model_completion=True)
        args.append(simp(v) if w == 'fp' else num(v))
    return Trial(unit, st, args)


FPX = None


def rand_args(unit, rng):
    global FPX
    c = unit.c()
    r = []
    fixed = unit.args() if callable(unit.args) else unit.args
    for k, w in enumerate(c.conv or []):
        if fixed is not None and isinstance(fixed[k], int):
            r.append(fixed[k])
        elif w == 'fp':
            kind = rng.random()
            if kind < .4:
                b = rng.getrandbits(1) << 79 | rng.choice([0x3fff, 0x3ffe, 0x4017, 0x4018, 0x47fe, 0x47ff, 0x3000, 0x3bff, 0x37ff, rng.randrange(0x3700, 0x4900)]) << 64 | 1 << 63 | \
                    rng.choice([0, (1 << 63) - 1, rng.getrandbits(63), ((1 << 40) - 1) << 23, rng.getrandbits(40) << 23])
            else:
                v = real_of_int(rng.choice(INTS) or 1, rng.randrange(-60, 60))
                x = dom.x2i_py(v)
                r.append(x)
                continue
            r.append(fp_bits('%020x' % b))
        elif w == 1:
            r.append(rng.getrandbits(1))
        elif stream(w):
            r.append(None)
        elif w == 64:
            r.append(rword(rng))
        else:
            r.append(iword(rng) if rng.random() < .7 else rng.choice([0, 1, 2, 3, 5, 0x7fff, 0o77771, 0o77772, 0o77774, 1 << 26, MW, 0x7fffffff, 0x80000000, 0xffffffff, 67108864, 67108863,
                                                                            (-67108863) & 0xffffffff, (-67108864) & 0xffffffff, (-1) & 0xffffffff]))
    return r


def rand_trial(unit, rng):
    c = unit.c()
    if c.recv is None:
        st = ConcreteState()
        if c.id == 'Machine::input_char':
            st.stdin = input_text(rng)
        return Trial(unit, st, rand_args(unit, rng))
    st = gen_state(rng)
    if unit.opcode is not None:
        a = rng.choice([rng.randrange(0, 120), rng.randrange(32768), 0o77774, 0o77777, 0o61, 0o62, rng.randrange(64, 2000)])
        st.mem.items[st.reg['OT'] & 0x7fff] = (unit.opcode << 15) | a
    if c.id == 'Processor::step' and unit.opcode is None:
        st.mem.items[st.reg['OT'] & 0x7fff] = rng.getrandbits(27)
    return Trial(unit, st, rand_args(unit, rng))


class Finding:
    def __init__(self, unit, what, trial=None):
        self.unit = unit; self.what = what; self.trial = trial


def confirm(unit, env, mm, native, seed, secs=20):
    """Search for a concrete run that shows the failed obligation; Finding or None."""
    if not replayable(unit):
        return None
    rng = random.Random(f"{seed} {unit.id} {mm.what}")
    t0 = time.time()
    base = None
    if mm.model is not None:
        try:
            base = trial_from_model(unit, env, mm.model)
            if base.state.n <= 5000 and base.admissible():
                d = base.run(native)
                if d:
                    return Finding(unit, d, base)
        except (Limit, z3.Z3Exception) as e:
            pass
    return search(unit, native, rng, secs, base)


def search(unit, native, rng, secs, base=None, count=None):
    """Random runs of the unit on the real code."""
    t0 = time.time()
    n = 0
    unit.tried = getattr(unit, 'tried', 0)
    while time.time() - t0 < secs and (count is None or n < count):
        n += 1
        try:
            if base is not None and base.state.n <= 2000 and n % 2:
                if unit.c().recv is None:
                    t = Trial(unit, base.state, [x if rng.random() < .5 else y for x, y in zip(base.args, rand_args(unit, rng))])
                else:
                    t = Trial(unit, vary(base.state, rng), base.args)
            else:
                t = rand_trial(unit, rng)
            if not t.admissible():
                continue
            unit.tried += 1
            d = t.run(native)
        except (Limit, z3.Z3Exception):
            continue
        if d:
            return Finding(unit, d, t)
    return None
