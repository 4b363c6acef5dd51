"""Lemmas over the contracts: what the function contracts together imply."""
import time
import z3
import dom, specs
from specs import *
from units import UNITS
from verify import Result
from z3 import BitVec, BitVecVal, And, Or, Not, Implies, Extract, Concat, ULT, ULE, UGE, If, SignExt, ZeroExt


class Lemma:
    tier = 'quick'; helper = False; bounded = None; opcode = None

    def __init__(self, id, fn, timeout=60000, weight=2):
        self.id = id; self.fn = fn; self.timeout = timeout; self.weight = weight; self.budget = 120
        self.tier = 'quick'

    def c(self): return None

    def run(self, without=(), safety_only=False, budget=None):
        r = Result(self.id)
        t0 = time.time()
        if not safety_only:
            try:
                for what, hyp, goal in self.fn():
                    s = z3.Solver()
                    s.set('timeout', self.timeout)
                    s.add(*hyp)
                    s.add(Not(goal))
                    r.obls += 1
                    k = str(s.check())
                    if k == 'unsat':
                        r.proved += 1
                    else:
                        class M: pass
                        m = M(); m.what = what; m.status = k; m.model = None; m.st = None; m.conds = []
                        (r.fails if k == 'sat' else r.unknown).append(m)
            finally:
                dom.MODE['fp'] = 'opaque'
        r.secs = r.solver = time.time() - t0
        r.paths = 1
        r.env = None
        return r


def L(id, fn, **k):
    UNITS[id] = Lemma(id, fn, **k)


def ints():
    i, w = BitVec('i', 32), BitVec('w', 27)
    yield 'integer -> word -> integer', [i <= MAXINT, i >= -MAXINT], to_int(of_int(i)) == i
    yield 'word -> integer -> word', [w != MAXWORD], of_int(to_int(w)) == w
    yield 'negation', [], to_int(~w) == -to_int(w)
    yield 'range', [], And(to_int(w) <= MAXINT, to_int(w) >= -MAXINT)
    yield 'minus zero equals zero', [], to_int(BitVecVal(MAXWORD, 27)) == 0
    v = BitVec('v', 27)
    yield 'equal numbers', [to_int(v) == to_int(w), to_int(w) != 0], v == w


L('lemma integers', ints)


def reals():
    """X1 real -> number -> X1 real gives back every normalised real."""
    dom.MODE['fp'] = 'exact'
    from contracts import c_x1_to_ieee, c_ieee_to_x1
    from absstate import Runner
    import engine
    r = BitVec('r', 54)
    a = If(Extract(53, 53, r) == 1, ~r, r)
    hyp = [Extract(26, 26, a) == 0, Extract(52, 52, a) == 1]
    s = Spec_()
    x = c_x1_to_ieee(s, r)
    sg, ex, fr = fields(x)
    m = Concat(Extract(52, 27, a), Extract(25, 12, a))
    e = ZeroExt(20, Extract(11, 0, a)) - 2048 + 16382
    yield 'sign', hyp, sg == Extract(53, 53, r)
    yield 'exponent', hyp, ex == Extract(14, 0, e)
    yield 'fraction', hyp, fr == Concat(Extract(38, 0, m), BitVecVal(0, 24))
    # back
    y = z3.fpFP(BitVec('sg', 1), BitVec('ex', 15), BitVec('fr', 63))
    sg, ex, fr = y.arg(0), y.arg(1), y.arg(2)
    hyp = [UGE(ex, 16382 - 2048), ULE(ex, 16382 + 2047), Extract(23, 0, fr) == 0]
    w = Spec_.paths(lambda s: c_ieee_to_x1(s, y), hyp)
    for conds, kind, r2 in w:
        yield 'a 40-bit fraction is representable', hyp + conds, z3.BoolVal(kind == 'ret')
        if kind == 'ret':
            b = If(sg == 1, ~r2, r2)
            e2 = ZeroExt(17, ex) - 16382 + 2048
            yield 'back: sign', hyp + conds, Extract(53, 53, r2) == sg
            yield 'back: mantissa', hyp + conds, And(Extract(52, 52, b) == 1, Concat(Extract(51, 27, b), Extract(25, 12, b)) == Extract(62, 24, fr),
                                                     Extract(26, 26, b) == 0)
            yield 'back: exponent', hyp + conds, ZeroExt(20, Extract(11, 0, b)) == e2


def digits():
    """dom.digit_facts hold of IEEE arithmetic."""
    x, y = z3.FP('x', dom.FP80), z3.FP('y', dom.FP80)
    R = dom.RNE
    def facts(op, a, b, r):
        for k, f in enumerate(dom.digit_facts(op, a, b, r)):
            yield f'{op} {k}', [], f
    yield from facts('add', x, y, z3.fpAdd(R, x, y))
    u, v = z3.FP('u', dom.FP64), z3.FP('v', dom.FP64)
    yield from facts('floor', u, None, z3.fpRoundToIntegral(dom.RTN, u))
    yield from facts('add', u, v, z3.fpAdd(R, u, v))
    yield from facts('digit', u, None, z3.fpToSBV(dom.RTZ, u, z3.BitVecSort(32)))
    yield from facts('div', x, y, z3.fpDiv(R, x, y))
    yield from facts('div', x, dom.fpint(10), z3.fpDiv(R, x, dom.fpint(10)))
    yield from facts('mul', x, dom.fpint(10), z3.fpMul(R, x, dom.fpint(10)))
    d = z3.fpToSBV(dom.RTZ, x, z3.BitVecSort(32))
    yield from facts('digit', x, None, d)
    for k in range(10):
        yield f'sub {k}', [dom.ten(x), d == k], dom.unit(z3.fpSub(R, x, z3.fpSignedToFP(R, BitVecVal(k, 32), dom.FP80)))


L('lemma digits', digits, weight=15)


def fields(x):
    x = z3.simplify(x, elim_ite=False) if False else x
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_FPA_FP:
        return x.arg(0), x.arg(1), x.arg(2)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        p, q = fields(x.arg(1)), fields(x.arg(2))
        return tuple(If(x.arg(0), u, v) for u, v in zip(p, q))
    raise ValueError(str(x)[:100])


class _E:
    """Feasibility only."""
    def feasible(self, pc, c=None):
        s = z3.Solver(); s.set('timeout', 5000); s.add(*pc)
        if c is not None:
            s.add(c)
        return str(s.check())
    check = feasible


class Spec_:
    def __new__(cls):
        from ops import Spec
        return Spec()

    @staticmethod
    def paths(fn, hyp):
        from absstate import Runner
        from ops import Spec
        R = Runner(_E(), list(hyp))
        return [(c, k, r) for c, k, r, s in R.explore(Spec(), fn)]


L('lemma reals', reals)
