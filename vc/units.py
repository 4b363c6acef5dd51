"""The proof units: one function under contract, for one choice of its constant arguments."""
import z3
import dom, ops, specs
from contracts import *
from verify import *
from invariants import CutLoop, CountLoop, RecLoop, InputLoop
from specs import *
from specs import RBF, RBT, AAT, AAV
import absstate

LD = z3.fpFP


class Unit:
    def __init__(self, id, contract, args=None, pre=None, sites=(), opts=None, setup=None, bounded=None, timeout=15000,
                 budget=240, weight=1, helper=False, init=None, opcode=None):
        self.id = id; self.contract = contract; self.args = args; self.pre = pre; self.sites = sites
        self.opts = opts or {}; self.setup = setup; self.bounded = bounded; self.timeout = timeout; self.budget = budget
        self.weight = weight
        self.helper = helper        # a failure here is only reported through the units that depend on it
        self.init = init
        self.opcode = opcode
        self.tier = 'quick'

    def c(self):
        return CONTRACTS[self.contract]

    def run(self, without=(), safety_only=False, budget=None):
        sites = [x for x in self.sites if x.dem not in without]
        env = Env(sites, timeout_ms=self.timeout, budget=budget or self.budget, opts=self.opts)
        env.safety_only = safety_only
        try:
            if self.setup and not without:
                self.setup(env)
            env.init = self.init
            args = self.args() if callable(self.args) else self.args
            r = run_unit(self.c(), env, Result(self.id), args, self.pre)
        finally:
            dom.POWERS.clear()
            dom.MODE['digits'] = False
        r.env = env
        r.bounded = self.bounded
        return r


UNITS = {}


def U(*a, **k):
    u = Unit(*a, **k)
    UNITS[u.id] = u
    return u


P = 'Processor::'
# ---------------------------------------------------------------- numbers
for _k in ('integer_to_x1', 'x1_to_integer', 'x1_words_to_real', 'x1_negate_int', 'x1_negate_real', 'x1_abs_int', 'x1_abs_real',
           'round_to_integer'):
    U(_k, _k)
U('x1_to_ieee', 'x1_to_ieee', timeout=60000, weight=24)
U('ieee_to_x1', 'ieee_to_x1', lambda: [z3.fpFP(BitVec('sg', 1), BitVec('ex', 15), BitVec('fr', 63))], timeout=150000, weight=80)


# ---------------------------------------------------------------- powers
def _pw_setup(env):
    dom.POWERS['base'] = z3.FP('arg0', dom.FP80)
    env.E.merge_fns.add(CONTRACTS['power_real'].dem)


def _pw_pre(s, x, n):
    return [n != 0, ULT(n, 1 << 27), Not(z3.fpIsNaN(x)), Not(z3.fpEQ(x, dom.fpint(1)))]


U('power_real', 'power_real', pre=_pw_pre, setup=_pw_setup, timeout=60000, budget=400, weight=110, helper=True)


def _exact_products(env):
    env.E.refine_ms = None


def _ipow(name, lo, hi, n, *facts, **kw):
    m, nv = BitVec('m', 26), BitVec('n', 32)
    for sg in (1, -1):
        a = simp(sg * ZeroExt(6, m))
        fs = [UGE(m, lo), ULE(m, hi)]
        if n is None:
            fs += [f(nv) for f in facts] + [ULT(nv, 1 << 26)]
        U(f'power_int {name}{"" if sg > 0 else " negative"}', 'power_int', [a, nv if n is None else n],
          pre=lambda s, x, k, fs=fs: list(fs), setup=_exact_products, timeout=60000, weight=10, **kw)


def _const_base(k):
    nv = BitVec('n', 32)
    U(f'power_int base {k}', 'power_int', [k & 0xffffffff, nv], pre=lambda s, x, n: [n != 0, ULT(n, 1 << 26)],
      timeout=60000)


_ipow('n=1', 0, (1 << 26) - 1, 1)
_ipow('|a|>=8192', 8192, (1 << 26) - 1, None, lambda n: UGE(n, 2))
_ipow('n=2', 91, 8191, 2)
_ipow('n=3', 91, 8191, 3)
_b = [91, 128, 192, 256, 407, 512, 1024, 2048, 4096, 8192]
for _lo, _hi in zip(_b, _b[1:]):
    _ipow(f'n>=4 |a| {_lo}..{_hi - 1}', _lo, _hi - 1, None, lambda n: UGE(n, 4))
for _k in range(-90, 91):
    _const_base(_k)


# ---------------------------------------------------------------- display, frames
def _fill(s, j): s.fill(j)


def _alloc(env):
    env.E.loopinv[(P + 'allocate_stack(unsigned int)', 0)] = CountLoop(_fill, lambda env, st, s: env.args[0])


def _frame(env):
    def inv(s, j):
        s.fill_args(j, simp(s.block_level() << 15 | s.fp))
    env.E.loopinv[(P + 'frame_create(unsigned int, unsigned int)', 0)] = CountLoop(inv, lambda env, st, s: env.args[1])


def _rollback(env):
    dem = P + 'roll_back(unsigned int)'
    def fails(s, f): return RBT(f, env.args[0], s.n, s.sv)
    def val(s, f): return RBF(f, env.args[0], s.n, s.sv)
    def same(s, a, b):
        return And(fails(s, a[0]) == fails(s, b[0]), Or(fails(s, a[0]), val(s, a[0]) == val(s, b[0])))
    def unfold(s, c):
        f = c[0]
        bad = UGE(f, s.n)
        p = zx(low27(Select(s.sv, f)), 32)
        return [z3.Implies(Or(f == 0, bad), fails(s, f)),
                z3.Implies(And(f != 0, Not(bad), p == env.args[0]), And(Not(fails(s, f)), val(s, f) == f)),
                z3.Implies(And(f != 0, Not(bad), p != env.args[0]), And(fails(s, f) == fails(s, p), val(s, f) == val(s, p)))]
    env.E.loopinv[(dem, 0)] = RecLoop(lambda env, st: [env.L.get(st).fp], same, unfold)


def _argaddr(env):
    dem = P + 'arg_address(unsigned int, unsigned int)'
    def al(): return simp(z3.LShR(env.args[1], 22))
    def off(): return simp(env.args[1] & 0x7fff)
    def fails(s, c): return AAT(c[0], c[1], al(), off(), s.n, s.sv)
    def val(s, c): return AAV(c[0], c[1], al(), off(), s.n, s.sv)
    def same(s, a, b):
        return And(fails(s, a) == fails(s, b), Or(fails(s, a), val(s, a) == val(s, b)))
    def unfold(s, c):
        l, f = c
        d = simp(f + specs.DISPLAY)
        bad = UGE(d, s.n)
        p = zx(low27(Select(s.sv, d)), 32)
        nx = [simp(l - 1), p]
        go = And(l != 0, l != al())
        return [z3.Implies(l == 0, fails(s, c)),
                z3.Implies(And(l != 0, l == al()), And(Not(fails(s, c)), val(s, c) == f + off())),
                z3.Implies(And(go, bad), fails(s, c)),
                z3.Implies(And(go, Not(bad)), And(fails(s, c) == fails(s, nx), val(s, c) == val(s, nx)))]
    def pick(env, st):
        s = env.L.get(st)
        s.R = absstate.Runner(env.E, st.pc)
        return list(s.arg_context(env.args[0]))
    env.E.loopinv[(dem, 0)] = RecLoop(pick, same, unfold)


UPD = [CONTRACTS[P + 'update_display']]
U('update_display', P + 'update_display', helper=True, weight=20)
U('arg_address', P + 'arg_address', setup=_argaddr, opts={}, helper=True)
CONTRACTS[P + 'arg_address'].opts = {}
U('roll_back', P + 'roll_back', sites=UPD + [CONTRACTS[P + 'frame_release']], setup=_rollback, helper=True)
U('frame_create', P + 'frame_create', setup=_frame, helper=True)
U('frame_release', P + 'frame_release', sites=UPD, helper=True)
U('allocate_stack', P + 'allocate_stack', setup=_alloc, helper=True)

# ---------------------------------------------------------------- memory
U('mem_load', 'Machine::mem_load', sites=LEAF + DEVICE, opts={'devices': True}, helper=False)
U('mem_store', 'Machine::mem_store', sites=DEVICE, opts={'devices': True}, helper=False)

U('algol_putc', 'algol_putc', weight=8)
U('x1_print_integer', 'x1_print_integer')
U('x1_print_real', 'x1_print_real', sites=LEAF)

def _stdin(env, st): st.ghost['inpos'] = BitVec('inpos', 32)
def _inchar(env): env.E.loopinv[(CONTRACTS['Machine::input_char'].dem, 0)] = InputLoop()


U('input_char', 'Machine::input_char', init=_stdin, setup=_inchar, weight=30)


_X = z3.FP('x', FP80)


def _x1_number(s, *a):
    x = [v for v in a if z3.is_fp(v)][0]
    return [Not(z3.fpIsNaN(x)), Or(z3.fpIsZero(x), dom.x1_range(z3.fpAbs(x)))]


def _digits(env): dom.MODE['digits'] = True


for _n in range(0, 22):
    for _m in range(0, 22 - _n):
        if _n + _m:
            U(f'print_fixed_point {_n} {_m}', 'Machine::print_fixed_point', [None, _n, _m, _X, z3.Bool('sign')], sites=PRINT[1:2],
              pre=_x1_number, setup=_digits)
_nn, _nm = BitVec('n', 32), BitVec('m', 32)
U('print_fixed_point, no such format', 'Machine::print_fixed_point', [None, _nn, _nm, _X, z3.Bool('sign')], sites=PRINT[1:2],
  pre=lambda s, o, n, m, *r: [Or(n < 0, m < 0, n > 21, m > 21, n + m > 21, n + m == 0)])
for _n in range(1, 14):
    for _m in range(1, 4):
        U(f'print_floating_point {_n} {_m}', 'Machine::print_floating_point', [None, _n, _m, _X], pre=_x1_number, setup=_digits)
U('print_floating_point, no such format', 'Machine::print_floating_point', [None, _nn, _nm, _X],
  pre=lambda s, o, n, m, x: [Or(n < 1, m < 1, n > 13, m > 3)] + _x1_number(s, x), setup=_digits)
U('print_int_or_real', 'Machine::print_int_or_real', sites=PRINT[:2])

# ---------------------------------------------------------------- formal parameters
OPNAMES = ['PUSH_VALUE', 'PUSH_ADDRESS', 'PUSH_STRING', 'REMOVE_ARG', 'ADD', 'SUBTRACT', 'MULTIPLY', 'DIVIDE']


def _cut(env):
    for k in range(3):
        env.E.loopinv[(P + 'take_formal(unsigned int, Formal_Op)', k)] = CutLoop()


for _i, _n in enumerate(OPNAMES):
    U('take_formal ' + _n, P + 'take_formal', lambda i=_i: [BitVec('d', 32), i], sites=SITE, opts={'opaque_ipow': True, 'formal_depth': 1},
      setup=_cut, helper=True, weight=30)
TAKE = CONTRACTS[P + 'take_formal']
TAKE.opts = {'formal_depth': 1, 'site_formal_depth': 1}

# ---------------------------------------------------------------- operations
FSITE = SITE + [TAKE]


def _opaque_take(env):
    if TAKE.dem in env.m.bydem:
        env.opts['opaque_take'] = True
    if LOADW.dem in env.m.bydem:
        env.opts['opaque_word'] = True


TAKERS = (18, 35, 40, 45, 50, 55, 56, 92, 93, 95)
LOADW = CONTRACTS[P + 'load_word']
U('load_word', P + 'load_word', sites=SITE, helper=True)
OPOPTS = {'opaque_ipow': True, 'formal_depth': 1}
HEAVY = {12: 90, 13: 140, 27: 60, 56: 300, 95: 100, 90: 100, 91: 100, 94: 40}
SPLIT = (56, 90, 91, 95)
for _k, (_n, _f) in sorted(ops.OPS.items()):
    if _k in SPLIT:
        continue
    _b = BOUNDED.get(_k, (None, None))
    U(f'OPC {_k} {_n}', P + 'call_opc', [_k], pre=_b[1], sites=FSITE + ([LOADW] if _k in (56, 92, 93, 95) else []), opts=OPOPTS, bounded=_b[0], weight=HEAVY.get(_k, 3),
      budget=400, setup=_opaque_take if _k in TAKERS else None)




def _split(k, name, init, bounded, weight=10, pre=None):
    U(f'OPC {k} {ops.OPS[k][0]}, {name}', P + 'call_opc', [k], pre=pre, sites=FSITE + [LOADW], opts=OPOPTS, bounded=bounded, weight=weight,
      budget=300, setup=_opaque_take, init=init)


def _frame_init(nd, na):
    def init(env, st):
        s = env.L.get(st)
        t = s.clone()
        t.sb = simp(s.n - 2 * nd)
        t.S = BitVecVal(na, 32)
        st.pc.append(UGE(s.n, 2 * nd))
        env.L.put(st, t, s)
    return init


for _k in (90, 91):
    for _d in (1, 2):
        for _a in (1, 2):
            _split(_k, f'{_d} dimension{"s"[:_d - 1]}, {_a} array{"s"[:_a - 1]}', _frame_init(_d, _a),
                   'declarations of 1 or 2 arrays of 1 or 2 dimensions', 30)


def _index_init(types):
    def init(env, st):
        s = env.L.get(st)
        t = s.clone()
        for j, c in enumerate(types):
            t.st = Store(t.st, simp(s.n - 1 - j), BitVecVal(c, 32))
        a = simp(Select(t.st, simp(s.n - 1 - len(types))))
        st.pc.append(Or(ULE(s.n, len(types)), a == specs.INTA, a == specs.REALA))
        env.L.put(st, t, s)
    return init


import itertools
_split(56, 'no subscript', _index_init(()), None)
for _d in (1, 2, 3):
    for _t in itertools.product((specs.INT, specs.REAL), repeat=_d):
        _split(56, ' '.join('integer' if x == specs.INT else 'real' for x in _t), _index_init(_t), 'at most 3 subscripts', 10)


def _vap_init(size, pos=None, words=None):
    def init(env, st):
        s = env.L.get(st)
        t = s.clone()
        lv = simp(s.S & 31)
        f = simp(If(lv == 0, c32(0), Select(s.disp, lv)) + z3.LShR(s.S, 5))
        if size:
            t.sv = Store(t.sv, simp(f + 2), BitVecVal(size, 64))
        else:
            for k in (1, 2, 12, 21):
                st.pc.append(low27(Select(s.sv, simp(f + 2))) != k)
        if pos:
            for p in range(2, pos + 1):
                if p > 2:
                    t.st = Store(t.st, simp(f + p), BitVecVal(specs.INT, 32))
                    w = Extract(26, 26, Select(t.sv, simp(f + p)))
                    if p == pos:
                        t.sv = Store(t.sv, simp(f + p), BitVecVal((1 << 27) - 1 - words, 64))
                    else:
                        st.pc.append(w == 0)
        env.L.put(st, t, s)
    return init


for _s, _w, _p, _t in ((12, 1, 3, 'quick'), (21, 2, 3, 'quick'), (21, 2, 4, 'quick'), (12, 1, 4, 'thorough'), (12, 1, 5, 'thorough'),
                       (21, 2, 5, 'thorough'), (21, 2, 6, 'thorough'), (21, 4, 3, 'thorough')):
    _n = f'element size {_s}, {_p - 2} dimension{"s"[:_p - 3]}, {_w} words'
    _split(95, _n, _vap_init(_s, _p, _w), 'at most 2 words in the array', 60, small_value_array(_w))
    UNITS['OPC 95 VAP, ' + _n].tier = _t
for _s in (1, 2, 0):
    _split(95, f'element size {_s}' if _s else 'bad element size', _vap_init(_s), 'at most 2 words in the array', 60, small_value_array(2))

# ---------------------------------------------------------------- instructions
class CallOpc:
    dem = P + 'call_opc(unsigned int)'
    def install(self, env):
        if self.dem in env.m.bydem:
            def h(E, st, fn, a):
                st.ghost['out'] = st.ghost.get('out', ()) + (('_ZSt4cout', 'call_opc', simp(bv(a[1], 32))),)
                return [(st, 'ret', specs.OPC_RESULT)]
            env.E.contracts[self.dem] = h


def _word(code):
    def init(env, st):
        L, E = env.L, env.E
        s = L.get(st)
        t = s.clone()
        if code is not None:
            c = BitVecVal(code, 12)
        else:
            c = BitVec('code', 12)
            for k in [0] + list(ops.INSTR):
                st.pc.append(c != k)
                if not k & 3:
                    st.pc.append(And(c != k | 2, c != k | 3))
        t.mem = Store(t.mem, simp(s.OT & 0x7fff), Concat(BitVecVal(0, 5), c, BitVec('addr', 15)))
        L.put(st, t, s)
    return init


STEPSITE = [x for x in FSITE if x not in UPD]
for _k in [0] + sorted(ops.INSTR):
    for _c in ((0, 2, 3) if not _k & 3 else (0,)):
        _n = 'operation' if _k == 0 else ops.INSTR[_k][0]
        U(f'step {_k | _c:04o} {_n}{("", "", " if C", " if not C")[_c]}', P + 'step', sites=FSITE + [CallOpc()], init=_word(_k | _c),
          opts=OPOPTS, opcode=_k | _c)
U('step, unassigned operation part', P + 'step', sites=FSITE + [CallOpc()], init=_word(None), opts=OPOPTS)
