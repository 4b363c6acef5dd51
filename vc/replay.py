"""Replay of states on the real code (native/harness.cpp) against the specification, concretely."""
import os, random, subprocess, select, time
import z3
import build, dom, specs, ops, absstate
from absstate import Runner, Throw, Unspecified, SCALARS, B32, B64
from engine import Limit
from ops import Spec
from z3 import BitVecVal, If, Select, Store

simp = z3.simplify
REGS = ['OT', 'OR', 'A', 'S', 'B', 'C', 'L', 'fp', 'lfp', 'sb', 'seed', 'rout', 'sw', 'swv']


class ArrVal:
    def __init__(self, default=0, items=None):
        self.d = default; self.items = dict(items or {})
    def get(self, i): return self.items.get(i, self.d)
    def copy(self): return ArrVal(self.d, self.items)


class ConcreteState:
    """reg: dict of numbers; disp, mem, st, sv, ev: ArrVal; ep: ArrVal of bool; n."""
    def __init__(self):
        self.reg = {k: 0 for k in REGS}
        self.n = 0
        self.disp = ArrVal(); self.mem = ArrVal(); self.st = ArrVal(3); self.sv = ArrVal(); self.ev = ArrVal(); self.ep = ArrVal(True)
        self.stdin = b''

    def copy(self):
        c = ConcreteState()
        c.reg = dict(self.reg); c.n = self.n; c.stdin = self.stdin
        for k in ('disp', 'mem', 'st', 'sv', 'ev', 'ep'):
            setattr(c, k, getattr(self, k).copy())
        return c

    def sanitize(self):
        for k in ('A', 'S', 'B'):
            self.reg[k] &= (1 << 27) - 1
        self.reg['OT'] &= 0x7fff
        self.mem.d &= (1 << 27) - 1
        self.mem.items = {i: v & ((1 << 27) - 1) for i, v in self.mem.items.items() if 0 <= i < 32768}
        if not 0 <= self.st.d <= 4:
            self.st.d = 3
        self.st.items = {i: v if 0 <= v <= 4 else 3 for i, v in self.st.items.items() if i < self.n}
        self.sv.items = {i: v for i, v in self.sv.items.items() if i < self.n}
        self.disp.items = {i: v for i, v in self.disp.items.items() if 0 < i < 32}

    def spec(self):
        """The same state for the specification."""
        s = Spec()
        for k in SCALARS:
            if k == 'n':
                s.n = BitVecVal(self.n, 32)
            elif k in ('C', 'L', 'swv'):
                setattr(s, k, z3.BoolVal(bool(self.reg[k])))
            else:
                setattr(s, k, BitVecVal(self.reg[k], 64 if k == 'rout' else 32))
        def arr(a, w):
            r = z3.K(B32, BitVecVal(a.d, w))
            for i, v in sorted(a.items.items()):
                r = Store(r, BitVecVal(i, 32), BitVecVal(v, w))
            return r
        s.disp = arr(self.disp, 32); s.mem = arr(self.mem, 32); s.st = arr(self.st, 32); s.sv = arr(self.sv, 64)
        s.ev = arr(self.ev, 32)
        p = z3.K(B32, z3.BoolVal(bool(self.ep.d)))
        for i, v in self.ep.items.items():
            p = Store(p, BitVecVal(i, 32), z3.BoolVal(bool(v)))
        s.ep = p
        s.out = ()
        s.extra = {'inpos': BitVecVal(0, 32)}
        s.stdin = self.stdin
        s.exact = True
        s.devices = True
        s.opaque_ipow = False
        s.formal_depth = 40
        s.maxdim = 40
        return s

    def text(self, call):
        L = ['call ' + ' '.join(str(x) for x in call)]
        L.append('S ' + ' '.join(f'{k} {int(self.reg[k])}' for k in REGS))
        L.append(f'N {self.n} {self.st.d} {self.sv.d}')
        if self.mem.d:
            L.append(f'DM {self.mem.d}')
        if self.disp.d:
            L.append(f'DD {self.disp.d}')
        L += [f'D {i} {v}' for i, v in self.disp.items.items()]
        L += [f'M {i} {v}' for i, v in self.mem.items.items()]
        for i in set(self.st.items) | set(self.sv.items):
            L.append(f'K {i} {self.st.get(i)} {self.sv.get(i)}')
        if self.ep.d:
            L.append(f'DE {self.ev.d}')
        for i in set(self.ev.items) | set(self.ep.items):
            if self.ep.get(i):
                L.append(f'E {i} {self.ev.get(i)}')
        if self.stdin:
            L.append('I -' + self.stdin.hex())
        L.append('run')
        return '\n'.join(L) + '\n'


class Native:
    """The harness process."""
    def __init__(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99')
        self.path = build.harness()
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)

    def run(self, text):
        self.p.stdin.write(text)
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if l == 'end\n':
                break
            if l == '':
                return ['R crash harness']
            out.append(l.rstrip('\n'))
        return out

    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()


class Post:
    pass


def parse(lines):
    r = Post()
    r.kind = 'crash'; r.value = None; r.reg = {}; r.out = b''; r.inpos = 0; r.lines = lines
    r.D = {}; r.K = {}; r.M = {}; r.E = {}; r.Y = {}; r.Z = {}
    for l in lines:
        f = l.split()
        if f[0] == 'R':
            r.kind = f[1]
            r.value = f[2:]
        elif f[0] == 'S':
            r.reg = {f[i]: int(f[i + 1]) for i in range(1, len(f), 2)}
        elif f[0] == 'O':
            r.out = bytes.fromhex(f[1][1:])
        elif f[0] == 'P':
            r.inpos = int(f[1])
        elif f[0] in 'DME':
            getattr(r, f[0])[int(f[1])] = int(f[2])
        elif f[0] == 'K':
            r.K[int(f[1])] = (int(f[2]), int(f[3]))
        elif f[0] == 'Y':
            r.Y[bytes.fromhex(f[1][1:])] = int(f[2])
        elif f[0] == 'Z':
            r.Z[int(f[1])] = int(f[2])
    return r


def num(x):
    x = simp(x)
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    if not z3.is_bv_value(x):
        raise Limit("not a number: " + str(x)[:200])
    return x.as_long()


def cell_same(t1, v1, t2, v2):
    if t1 != t2:
        return False
    if t1 == 0:
        return True
    w = (1 << 54) - 1 if t1 == 4 else (1 << 27) - 1
    return v1 & w == v2 & w


def stores(a, base):
    """Indices stored in an array term on top of base, or None when it has another form."""
    r = set()
    while z3.is_store(a):
        if a.eq(base):
            return r
        r.add(num(a.arg(1)))
        a = a.arg(0)
    return r if a.eq(base) or z3.is_K(a) or z3.is_const_array(a) else None


def expected(state, fn):
    """Outcome of the specification fn(s): (kind, result, spec state)."""
    R = Runner(None, [])
    s0 = state.spec0 = state.spec()
    outs = R.explore(s0, fn)
    if len(outs) != 1:
        raise Limit("specification not deterministic")
    _, kind, r, s = outs[0]
    return kind, r, s


def difference(state, fn, call, native, ret=None, ret_of=None):
    """None if the real code does what fn specifies from this state, else a description."""
    kind, r, s = expected(state, fn)
    if kind in ('any', 'cut'):
        return None
    post = parse(native.run(state.text(call)))
    if post.kind in ('crash', 'hang', 'other'):
        return f"the program {'hangs' if post.kind == 'hang' else 'crashes'} ({' '.join(post.lines[0].split()[1:])})"
    if kind == 'throw':
        return None if post.kind == 'throw' else 'no error is reported where one is specified'
    if post.kind == 'throw':
        return 'an error is reported where none is specified: ' + bytes.fromhex(post.value[0][1:]).decode('latin1')
    if ret is not None:
        d = ret(r, post.value)
        if d:
            return d
    for k in SCALARS:
        want = num(getattr(s, k))
        have = post.reg[k]
        m = {'A': 27, 'S': 27, 'B': 27, 'rout': 54, 'OT': 15}.get(k, 64)
        if (want ^ have) & ((1 << m) - 1):
            return f"{k} = {have}, specified {want}"
    n = post.reg['n']
    s0 = state.spec0
    def scan(a0, base, post_items, limit):
        idx = set(post_items)
        st = stores(a0, base)
        if st is None:
            idx |= set(range(min(limit, 3000)))
        else:
            idx |= st
        return sorted(i for i in idx if i < limit)
    for i in scan(s.disp, s0.disp, post.D, 32):
        if i == 0:
            continue
        have = post.D.get(i, state.disp.get(i))
        want = num(Select(s.disp, BitVecVal(i, 32)))
        if want != have:
            return f"display[{i}] = {have}, specified {want}"
    for i in scan(s.mem, s0.mem, post.M, 32768):
        have = post.M.get(i, state.mem.get(i))
        want = num(Select(s.mem, BitVecVal(i, 32)))
        if (want ^ have) & ((1 << 27) - 1):
            return f"memory[{i}] = {have}, specified {want}"
    for i in sorted(set(scan(s.st, s0.st, post.K, n)) | set(scan(s.sv, s0.sv, post.K, n))):
        if i >= state.n and i not in post.K:
            continue
        ht, hv = post.K.get(i, (state.st.get(i), state.sv.get(i)))
        wt, wv = num(Select(s.st, BitVecVal(i, 32))), num(Select(s.sv, BitVecVal(i, 32)))
        if not cell_same(ht, hv, wt, wv):
            return f"stack[{i}] = type {ht} value {hv}, specified type {wt} value {wv}"
    for i in scan(s.ev, s0.ev, post.E, 1 << 32):
        if num(Select(s.ep, BitVecVal(i, 32))):
            have = post.E.get(i, state.ev.get(i))
            want = num(Select(s.ev, BitVecVal(i, 32)))
            if want != have:
                return f"pending operation at {i} = {have}, specified {want}"
    if call[0] == 'input_char' and post.inpos != num(s.extra['inpos']):
        return f"{post.inpos} bytes of input read, specified {num(s.extra['inpos'])}"
    want = render(s.out)
    if want is not None and want != post.out:
        return f"output {post.out!r}, specified {want!r}"
    return None


ALGOL = specs.ALGOL_TEXT
assert len(ALGOL) == 128


def real_text(x):
    """%.13Lg"""
    from decimal import Decimal, Context, ROUND_HALF_EVEN
    neg = dom.bits80(x)[0]
    f = abs(dom.tofrac(x))
    if f == 0:
        return b'-0' if neg else b'0'
    # the value has a finite decimal expansion
    big = Context(prec=4000, Emax=10**6, Emin=-10**6)
    d = big.divide(Decimal(f.numerator), Decimal(f.denominator))
    d = Context(prec=13, rounding=ROUND_HALF_EVEN, Emax=10**6, Emin=-10**6).plus(d)
    sg, digits, ex = d.as_tuple()
    digits = ''.join(map(str, digits))
    e = ex + len(digits) - 1
    digits = digits.rstrip('0') or '0'
    if -4 <= e < 13:
        if e < 0:
            t = '0.' + '0' * (-e - 1) + digits
        else:
            a = digits.ljust(e + 1, '0')
            t = a[:e + 1] + ('.' + a[e + 1:] if a[e + 1:] else '')
    else:
        t = digits[0] + ('.' + digits[1:] if digits[1:] else '') + 'e' + ('-' if e < 0 else '+') + '%02d' % abs(e)
    return (('-' if neg else '') + t).encode()


def render(events):
    """Text of the specified output items; None when it has an item whose text is not specified here."""
    r = b''
    for e in events:
        k = e[1]
        if k == 'char':
            r += bytes([num(e[2])])
        elif k == 'algol':
            c = ALGOL[num(e[2])]
            if c is None:
                c = "⎕"
            r += c.encode()
        elif k == 'print_int':
            w = num(e[2])
            r += (b'-' + str(w ^ ((1 << 27) - 1)).encode()) if w >> 26 else str(w).encode()
        elif k == 'int':
            w = num(e[2])
            r += str(w - (1 << 64) if w >> 63 else w).encode()
        elif k == 'print_real':
            r += real_text(dom.x2i_py(num(e[2])))
        elif k == 'fmt' and e[2] == '%.13Lg':
            r += real_text(simp(e[3]))
        elif k in ('fixt', 'flot'):
            import contracts
            f = contracts.c_fixt if k == 'fixt' else contracts.c_flot
            outs = Runner(None, []).explore(Spec(), lambda s: f(s, None, *[simp(x) for x in e[2:]]))
            if len(outs) != 1 or outs[0][1] != 'ret':
                return None
            t = render(outs[0][3].out)
            if t is None:
                return None
            r += t
        else:
            return None
    return r


# ---------------------------------------------------------------- states from models
def arrval(model, a, w):
    v = model.eval(a, model_completion=True)
    items = {}
    while True:
        if z3.is_store(v):
            i = v.arg(1)
            if z3.is_bv_value(i):
                x = v.arg(2)
                items.setdefault(i.as_long(), bool(z3.is_true(x)) if w == 1 else x.as_long())
            v = v.arg(0)
        elif z3.is_K(v) or z3.is_const_array(v):
            x = v.arg(0)
            return ArrVal(bool(z3.is_true(x)) if w == 1 else x.as_long(), items)
        elif z3.is_as_array(v):
            f = model[z3.get_as_array_func(v)]
            els = f.else_value()
            d = 0
            if els is not None and (z3.is_bv_value(els) or z3.is_true(els) or z3.is_false(els)):
                d = bool(z3.is_true(els)) if w == 1 else els.as_long()
            for k in range(f.num_entries()):
                e = f.entry(k)
                x = e.value()
                items.setdefault(e.arg_value(0).as_long(), bool(z3.is_true(x)) if w == 1 else x.as_long())
            return ArrVal(d, items)
        else:
            raise Limit("array value not understood")


def from_model(model, s0):
    c = ConcreteState()
    ev = lambda x: model.eval(x, model_completion=True)
    for k in SCALARS:
        if k == 'n':
            c.n = num(ev(s0.n))
        else:
            c.reg[k] = num(ev(getattr(s0, k)))
    for k, w in (('disp', 32), ('mem', 32), ('st', 32), ('sv', 64), ('ev', 32), ('ep', 1)):
        base = getattr(s0, k)
        extra = []
        while z3.is_store(base):
            extra.insert(0, (base.arg(1), base.arg(2)))
            base = base.arg(0)
        a = arrval(model, base, w)
        for i, v in extra:
            v = ev(v)
            a.items[num(ev(i))] = bool(z3.is_true(v)) if w == 1 else num(v)
        setattr(c, k, a)
    c.sanitize()
    return c


# ---------------------------------------------------------------- generated states
INTS = [0, 1, 2, 3, 5, 7, 10, 100, 8191, 8192, 46341, 65535, 1 << 20, (1 << 25), (1 << 26) - 1]
MW = (1 << 27) - 1
MR = (1 << 54) - 1


def iword(rng):
    v = rng.choice(INTS) if rng.random() < .8 else rng.getrandbits(rng.randrange(1, 27))
    return v if rng.random() < .6 else v ^ MW


def rword(rng):
    x = rng.choice([0.0, 1.0, -1.0, .5, 2.0, 3.25, -2.5, 1e-3, 1e10, 123456.75, 67108863.0, 67108864.0, -67108864.0, .49999, 1e300, 1e-300])
    if rng.random() < .3:
        x = rng.uniform(-100, 100)
    if rng.random() < .1:
        return rng.getrandbits(54)
    try:
        ov, w = dom.i2x_py(dom.tofrac_float(x)) if hasattr(dom, 'tofrac_float') else (True, 0)
    except Exception:
        ov = True
    if ov:
        # integer-valued reals by construction
        v = rng.choice(INTS)
        return real_of_int(v if rng.random() < .6 else -v, rng.choice([0, 0, 0, -1, -2, 3, -20, 40, 900, -900, 2000, -2000]))
    return w


def real_of_int(v, e=0):
    """X1 real of v * 2**e, when representable."""
    neg = v < 0
    m = abs(v)
    if m == 0:
        return MR if neg else 0
    ex = 40 + e
    while m < 1 << 39:
        m <<= 1
        ex -= 1
    ex = max(-2048, min(2047, ex))
    w = (m >> 14) << 27 | (m & 0x3fff) << 12 | (ex + 2048)
    return w ^ MR if neg else w


def input_text(rng):
    r = b''
    for _ in range(rng.randrange(4)):
        k = rng.random()
        r += b'\r' * rng.choice([0, 0, 1, 2])
        r += rng.choice(list(specs.INPUT_TEXT)) if k < .7 else bytes([rng.randrange(256)]) if k < .9 else rng.choice(list(specs.INPUT_TEXT))[:-1]
    return r


def gen_state(rng):
    """A machine in the middle of a program: frames, variables, operands, parameter descriptors."""
    c = ConcreteState()
    for i in range(60):
        c.mem.items[rng.randrange(64, 2000)] = iword(rng)
    c.mem.items[0] = iword(rng)
    c.reg['OT'] = rng.randrange(1000, 2000)
    for k in 'ASB':
        c.reg[k] = rng.choice([0, 1, 2, 3, 5, 8, rng.randrange(32)])
    c.reg['C'] = rng.randrange(2); c.reg['L'] = rng.randrange(2)
    cells = []
    def push(t, v): cells.append((t, v))
    def value():
        t = rng.choice([3, 3, 4])
        return (t, iword(rng) if t == 3 else rword(rng))
    fp = 0; sb = 0
    frames = []
    if rng.random() < .3:
        c.stdin = input_text(rng)
    pend = {}
    level = 0
    for d in range(rng.randrange(0, 5)):
        push(*((0, 0) if rng.random() < .4 else (3, 0) if rng.random() < .7 else value()))
        f = len(cells)
        ret = rng.randrange(1000, 2000)
        push(1, fp); push(1, ret); push(1, sb)
        lv = rng.choice([level + 1, level + 1, max(level, 1), 0])
        link = 0
        for (ff, ll) in frames:
            if ll == lv - 1:
                link = ff
        push(1, lv); push(1, link)
        nargs = rng.randrange(0, 4)
        for a in range(nargs):
            push(3, 0)
            push(1, (frames[-1][1] << 15 | frames[-1][0]) if frames else 0)
            kind = rng.choice([0, 0o20, 2, 0o22, 6, 0o60, 0o40, 0o77])
            addr = rng.randrange(64, 2000) if kind in (0, 0o20, 0o40, 0o60) else rng.randrange(1, 12)
            lvl = rng.randrange(0, 4)
            c.mem.items[(ret - a - 3) & 0x7fff] = (lvl << 22) | (kind << 15) | addr
        fp = f
        sb = len(cells)
        pend[sb] = rng.choice([0, 0, 0, 1, 4, 5, 6, 7, 8, 9, 3])
        if lv:
            level = lv
        frames.append((f, lv))
        if lv < 32:
            c.disp.items[lv] = f
        for _ in range(rng.randrange(0, 4)):
            push(*value())
            if rng.random() < .8:
                sb = len(cells)
                pend[sb] = rng.choice([0, 1])
    for _ in range(rng.randrange(0, 5)):
        r = rng.random()
        if r < .7:
            push(*value())
        elif r < .95:
            push(rng.choice([1, 2]), rng.choice([rng.randrange(64, 2000), 0o100000 + rng.randrange(0, max(len(cells), 1))]))
        else:
            push(0, 0)
    c.n = len(cells)
    for i, (t, v) in enumerate(cells):
        c.st.items[i] = t
        c.sv.items[i] = v
    c.reg['fp'] = fp; c.reg['lfp'] = fp; c.reg['sb'] = sb
    c.ep = ArrVal(False, {i: True for i in pend})
    c.ev = ArrVal(0, pend)
    if rng.random() < .7:
        lv = rng.randrange(0, 4)
        c.reg['S'] = rng.choice([rng.randrange(5, 13), rng.randrange(max(len(cells), 1))]) << 5 | lv
        c.reg['B'] = rng.choice([rng.randrange(64, 2000), rng.randrange(0, 4), 0o100000 + rng.randrange(0, len(cells) + 1)])
    return c


def vary(c, rng):
    """A state like c with some of its numbers replaced."""
    c = c.copy()
    for _ in range(rng.choice([1, 1, 2, 3])):
        w = rng.random()
        if w < .6 and c.n:
            i = c.n - 1 - min(int(rng.expovariate(.7)), c.n - 1)
            t = c.st.get(i)
            if rng.random() < .2:
                t = rng.choice([3, 4])
                c.st.items[i] = t
            if t == 3:
                c.sv.items[i] = iword(rng)
            elif t == 4:
                c.sv.items[i] = rword(rng)
        elif w < .85 and c.mem.items:
            c.mem.items[rng.choice(list(c.mem.items))] = iword(rng)
        else:
            c.reg[rng.choice('ASB')] = iword(rng) if rng.random() < .3 else rng.randrange(64)
    return c
