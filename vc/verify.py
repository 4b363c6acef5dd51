"""Prove one unit (a function, for one choice of its constant arguments) against its contract."""
import time, traceback
import z3
import dom, build, llvmc, engine, models, absstate
from absstate import Layout, Runner, Throw, Unspecified, SCALARS, LIMIT, B32
from engine import (Engine, State, Ptr, NULL, RS, Limit, PathEnd, isc, bv, norm, simp, tobool, mask, _IntT)
from ops import Spec, call_opc, step, Cell
import specs
from specs import c32, c64, zx, sx, low27, to_int, low, NUL, INTA, REALA, INT, REAL
from z3 import BitVecVal, BitVec, If, And, Or, Not, Select, Store, ULT, ULE, UGT, UGE, ZeroExt, SignExt, Extract, Concat

_mod = None


def module():
    global _mod
    if _mod is None:
        _mod = llvmc.Module(build.simulator_bc())
    return _mod


class SpecLayout(Layout):
    def get(self, st):
        s = super().get(st)
        t = Spec()
        t.__dict__.update(s.__dict__)
        return t


class Env:
    """An engine with the simulator's models and the contracts chosen for call sites."""
    def __init__(self, contracts=(), timeout_ms=10000, budget=None, opts=None):
        self.m = module()
        self.E = Engine(self.m, timeout_ms=timeout_ms)
        models.install(self.E)
        self.L = SpecLayout(self.E, build.offsets())
        self.opts = dict(opts or {})
        self.E.env = self
        for c in contracts:
            c.install(self)
        if budget:
            self.E.deadline = time.time() + budget
        self.init = None
        self.safety_only = False

    def prestate(self):
        st = State()
        mp, cp = self.L.setup(st)
        for k in ('A', 'S', 'B', 'OT'):
            s = self.L.get(st)
            v = getattr(s, k)
            st.pc.append(ULT(v, 1 << 27 if k != 'OT' else 32769))
        self.E.seg_hook = self.seg_hook
        self.membase = self.E.arr(st, self.L.mach, self.L.mach.segs[0], self.L.mach.segs[0].fields[0])
        return st, mp, cp

    def seg_hook(self, st, r, s, idx):
        """Words of the initial memory are 27 bits wide."""
        if r is self.L.mach and s.name == 'memory':
            st.pc.append(ULT(Select(self.membase, idx), 1 << 27))


def mk_spec(s, opts):
    for k, v in opts.items():
        setattr(s, k, v)
    return s


# ---------------------------------------------------------------- contracts at call sites
class Contract:
    """spec(s, *args) -> result term(s); receiver: 'cpu', 'mach' or None."""
    def __init__(self, dem, spec, recv='cpu', conv=None, ret=None, pre=None, outs=None, fp='opaque', opts=None, id=None,
                 bounded=None):
        self.dem = dem; self.spec = spec; self.recv = recv; self.conv = conv; self.ret = ret; self.pre = pre
        self.outs = outs or []; self.fp = fp; self.opts = opts or {}; self.id = id or dem.split('(')[0]
        self.bounded = bounded

    def install(self, env):
        if self.dem in env.m.bydem:
            env.E.contracts[self.dem] = lambda E, st, fn, a: self.apply(env, st, fn, a)

    def apply(self, env, st, fn, a):
        args = list(a)
        if self.recv:
            p = args.pop(0)
            base = env.L.o['cpu'] if self.recv == 'cpu' else 0
            if not (isinstance(p, Ptr) and p.r == env.L.mach.id and p.c == base and not p.t):
                return None
        outp = []
        for k in sorted(self.outs, reverse=True):
            outp.insert(0, args.pop(k))
        vals = []
        for v in args:
            if isinstance(v, Ptr):
                return None
            if isinstance(v, engine.LinInt):
                v = v.bv()
            vals.append(v)
        widths = list(self.conv or [])
        vals = [bv(v, w) if type(w) is int else v for v, w in zip(vals, widths)]
        s0 = mk_spec(env.L.get(st), env.opts)
        for k, v in self.opts.items():
            if k.startswith('site_'):
                setattr(s0, k[5:], v)
        if self.pre:
            for g in self.pre(s0, *vals):
                env.E.oblige(st, g, 'precondition', self.id)
        R = Runner(env.E, st.pc)
        outs = []
        res = R.explore(s0, lambda s: self.spec(s, *vals))
        for n, (conds, kind, r, s1) in enumerate(res):
            t = st.fork() if n < len(res) - 1 else st
            t.pc.extend(conds)
            if kind == 'ret':
                env.L.put(t, s1, s0)
                if outp:
                    for q, x in zip(outp, r):
                        env.E.store(t, q, simp(x), _IntT(4))
                    r = None
                outs.append((t, 'ret', None if r is None else self.reton(r, fn)))
            elif kind == 'throw':
                outs.append((t, 'throw', None))
            elif kind == 'any':
                outs.append((t, 'throw', (NULL, '#any')))
            else:
                env.L.put(t, s1, s0)
                t.ghost['cut'] = [getattr(s1, 'result', None)]
                outs.append((t, 'throw', (NULL, '#' + kind)))
        return outs

    def reton(self, r, fn):
        if self.ret == 'bool' or z3.is_fp(r):
            return norm(r) if not z3.is_fp(r) else r
        w = 32 if r.size() <= 32 else 64
        return norm(zx(r, w))


# ---------------------------------------------------------------- comparison
class Mismatch:
    def __init__(self, what, status, model, st, conds):
        self.what = what; self.status = status; self.model = model; self.st = st; self.conds = conds


def cell_eq(t1, v1, t2, v2):
    return And(t1 == t2, Or(t1 == NUL, If(t1 == REAL, Extract(53, 0, v1) == Extract(53, 0, v2),
                                          Extract(26, 0, v1) == Extract(26, 0, v2))))


W27 = ('A', 'S', 'B')


def compare(env, s1, s2, res1, res2, ret):
    """List of (what, goal) that must hold for code state s1 and specified state s2."""
    g = []
    for k in SCALARS:
        a, b = getattr(s1, k), getattr(s2, k)
        if a is b or a.eq(b):
            continue
        if k in W27:
            g.append((k, Extract(26, 0, a) == Extract(26, 0, b)))
        elif k == 'rout':
            g.append((k, Extract(53, 0, a) == Extract(53, 0, b)))
        elif k == 'swv' or k == 'sw' or k == 'seed':
            g.append((k, a == b))
        elif k == 'OT':
            # only its low 15 bits are used, by the next instruction
            g.append((k, Extract(14, 0, a) == Extract(14, 0, b)))
        else:
            g.append((k, a == b))
    i = BitVec('idx!', 32)
    if not s1.disp.eq(s2.disp):
        g.append(('display', z3.Implies(And(ULT(i, 32), i != 0), Select(s1.disp, i) == Select(s2.disp, i))))
    if not s1.mem.eq(s2.mem):
        g.append(('memory', z3.Implies(ULT(i, 32768), Extract(26, 0, Select(s1.mem, i)) == Extract(26, 0, Select(s2.mem, i)))))
    if not (s1.st.eq(s2.st) and s1.sv.eq(s2.sv)):
        g.append(('stack contents', z3.Implies(ULT(i, s2.n),
                  cell_eq(Select(s1.st, i), Select(s1.sv, i), Select(s2.st, i), Select(s2.sv, i)))))
    if not s1.ep.eq(s2.ep):
        g.append(('pending operations', Select(s1.ep, i) == Select(s2.ep, i)))
    if not s1.ev.eq(s2.ev):
        g.append(('pending operation', z3.Implies(Select(s2.ep, i), Select(s1.ev, i) == Select(s2.ev, i))))
    g.append(('stack size limit', ULE(s1.n, LIMIT)))
    if len(s1.out) != len(s2.out):
        g.append((f'output: {len(s1.out)} items instead of {len(s2.out)}', z3.BoolVal(False)))
    else:
        for e1, e2 in zip(s1.out, s2.out):
            if e1[0:2] != e2[0:2] or len(e1) != len(e2):
                g.append((f'output: {e1[1]} instead of {e2[1]}', z3.BoolVal(False)))
                continue
            for x, y in zip(e1[2:], e2[2:]):
                if z3.is_expr(x) and z3.is_expr(y):
                    if not x.eq(y):
                        g.append(('output ' + str(e1[1]), fpeq(x, y) if z3.is_fp(x) else bv(x, 32) == y if x.sort() != y.sort() else x == y))
                elif x != y:
                    g.append(('output ' + str(e1[1]), z3.BoolVal(False)))
    for k in set(s1.extra) | set(s2.extra):
        a, b = s1.extra.get(k), s2.extra.get(k)
        if isinstance(a, int) and isinstance(b, int) or a is None or b is None:
            if a != b:
                g.append((k, z3.BoolVal(False)))
        else:
            g.append((k, Extract(31, 0, bv(a, 32)) == Extract(31, 0, bv(b, 32))))
    if ret is not None:
        if ret == 'fp':
            g.append(('result', fpeq(res1, res2)))
        elif ret == 'bool':
            g.append(('result', tobool(res1) == tobool(res2)))
        elif type(ret) is int:
            w = ret
            m = w if w not in (27, 54) else w
            a, b = bv(res1, 32 if w <= 32 else 64), res2
            g.append(('result', Extract(m - 1, 0, a) == Extract(m - 1, 0, b)))
        elif ret == 'cell':
            g.append(('result', cell_eq(res1.t, res1.v, res2.t, res2.v)))
    return g


def fpeq(x, y):
    return Or(x == y, And(z3.fpIsNaN(x), z3.fpIsNaN(y)))


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obls = 0; self.proved = 0; self.paths = 0
        self.fails = []         # Mismatch
        self.unknown = []
        self.limit = None
        self.secs = 0.0; self.solver = 0.0
        self.inlined = set(); self.contracts = set(); self.models = set()
        self.bounded = None


def run_unit(c, env, unit, args=None, pre=None, throws_match=True, stop_after=3):
    """c: Contract of the function under proof.  unit: Result.  args: engine argument values (after the receiver)."""
    E, L = env.E, env.L
    t0 = time.time()
    res = unit
    dom.MODE['fp'] = c.fp
    E.contracts.pop(c.dem, None)
    try:
        fn = env.m.bydem.get(c.dem)
        if fn is None or fn.decl:
            raise Limit("no function " + c.dem)
        st, mp, cp = env.prestate()
        if env.init:
            env.init(env, st)
        if args is None:
            args = []
            for k, w in enumerate(c.conv or []):
                if type(w) is str and w.startswith('_Z'):
                    args.append(None)
                elif w == 'fp':
                    args.append(z3.FP(f'arg{k}', engine.FP80))
                else:
                    args.append(BitVec(f'arg{k}', w))
        sargs = [bv(a, w) if type(w) is int else a for a, w in zip(args, c.conv or [])]
        eargs = list(args)
        outregs = []
        for w in c.conv or []:
            if type(w) is str and w.startswith('_Z'):
                vt = E.region('vtable', None, 'sym')
                st.mem[vt.id] = RS()
                E.store(st, Ptr(vt.id, 40), 16, _IntT(8))       # offset of the virtual base
                E.store(st, Ptr(E.global_region(st, w).id), Ptr(vt.id, 64), models.PT)
        eargs = [Ptr(E.global_region(st, w).id) if type(w) is str and w.startswith('_Z') else a for a, w in zip(eargs, c.conv or eargs)]
        for k in c.outs:
            r = E.region(f'out{k}', 4)
            st.mem[r.id] = RS()
            outregs.append(r)
            eargs.insert(k, Ptr(r.id))
        # this
        s0 = mk_spec(L.get(st), {**env.opts, **{k: v for k, v in c.opts.items() if not k.startswith('site_')}})
        s0.origin = s0.clone()
        env.opts['origin'] = s0.origin
        facts = []
        for p in (c.pre, pre):
            if p:
                facts += p(s0, *sargs)
        st.pc.extend(f for f in facts if not z3.is_true(f))
        env.args = sargs
        env.s0 = s0
        recv = {'cpu': [cp], 'mach': [mp], None: []}[c.recv]
        if E.check(st.pc) == 'unsat':
            raise Limit("precondition is unsatisfiable")
        outs = E.run_function(fn, st, recv + eargs)
        res.paths = len(outs)
        for o in outs if not env.safety_only else []:
            exc = o.exc[1] if o.kind == 'throw' else None
            R = Runner(E, o.pc)
            for conds, kind, r2, s2 in R.explore(s0, lambda s: c.spec(s, *sargs)):
                if kind == 'any' or exc == '#any':
                    continue
                pcs = o.pc + conds
                if o.kind == 'throw' and exc in ('#abort', '#exit'):
                    goals = [('program aborts', z3.BoolVal(False))]
                    s1 = None
                elif o.kind == 'throw' and exc == '#cut' or kind == 'cut':
                    if exc != '#cut' or kind != 'cut':
                        # one side still inside the parameter chain
                        goals = [(f'code {"error" if o.kind == "throw" else "return"}, specified {kind}', z3.BoolVal(False))]
                    else:
                        s1 = L.get(o)
                        a, b = o.ghost.get('cut'), getattr(s2, 'result', None)
                        goals = compare(env, s1, s2, None, None, None) + [('parameter', Or(*[bv(x, 32) == b for x in a]))]
                elif o.kind != kind:
                    if o.kind == 'throw':
                        goals = [('reports an error where none is specified', z3.BoolVal(False))]
                    else:
                        goals = [('no error reported where one is specified', z3.BoolVal(False))]
                elif kind == 'throw':
                    res.obls += 1
                    res.proved += 1
                    continue
                else:
                    s1 = L.get(o)
                    r1 = o.result
                    if c.outs:
                        r1 = [bv(E.load(o, Ptr(r.id), _IntT(4)), 32) for r in outregs]
                        goals = compare(env, s1, s2, None, None, None)
                        goals += [('result %d' % k, x == y) for k, (x, y) in enumerate(zip(r1, r2))]
                    else:
                        goals = compare(env, s1, s2, r1, r2, c.ret)
                for what, g in goals:
                    res.obls += 1
                    status, model = E.prove(pcs, g)
                    if status == 'proved':
                        res.proved += 1
                    else:
                        mm = Mismatch(what, status, model, o, conds)
                        mm.s2kind = kind
                        (res.fails if status == 'failed' else res.unknown).append(mm)
                        if len(res.fails) >= stop_after:
                            raise StopUnit()
        if not outs:
            raise Limit("no path reaches the end")
    except StopUnit:
        pass
    except Limit as e:
        res.limit = str(e)
    except z3.Z3Exception as e:
        res.limit = "z3: " + str(e)
    finally:
        dom.MODE['fp'] = 'opaque'
    for ob in E.obls:
        res.obls += 1
        if ob.status == 'proved':
            res.proved += 1
        else:
            mm = Mismatch(f'{ob.kind}: {ob.desc} [{ob.where}]', ob.status, ob.model[0] if ob.model else None, None, [])
            mm.safety = True
            (res.fails if ob.status == 'failed' else res.unknown).append(mm)
    res.secs = time.time() - t0
    res.solver = E.solver_time
    res.inlined = set(E.inlined)
    res.contracts = set(E.used_contracts)
    res.models = set(E.used_models)
    return res


class StopUnit(Exception):
    pass
