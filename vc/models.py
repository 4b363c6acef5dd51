"""Models of the C/C++ library and runtime functions the code under contract calls.

These are the trusted boundary: each model is listed in the evidence when used.
"""
import re
import z3
import dom
from z3 import BitVecVal, BitVec, Extract, Concat, ZeroExt, SignExt, If, And, Or, Not
from engine import (Ptr, NULL, FPtr, UNDEF, INLINE, Limit, PathEnd, Region, RS, Seg, PtrInt, LinInt, isc, bv, norm,
                    simp, tobool, mask, sgn, FP80, lin_add, off_bv, _IntT)

M = []
def model(rx, label=None):
    def d(f):
        M.append((re.compile(rx), f, label or f.__name__))
        return f
    return d


def throw(st, ti, p=NULL):
    return (st, 'throw', (p, ti))


# ---------------------------------------------------------------- exceptions
@model(r'__cxa_allocate_exception$')
def cxa_alloc(E, st, fn, a, i):
    r = E.region('exception', None)
    st.mem[r.id] = RS()
    return Ptr(r.id)

@model(r'__cxa_throw$')
def cxa_throw(E, st, fn, a, i):
    return [throw(st, E.regions[a[1].r].name, a[0])]

@model(r'__cxa_rethrow$')
def cxa_rethrow(E, st, fn, a, i):
    return [(st, 'throw', st.ghost.get('caught') or (NULL, '_ZTISt13runtime_error'))]

@model(r'__cxa_begin_catch$')
def cxa_begin(E, st, fn, a, i):
    return a[0]

@model(r'(__cxa_end_catch|__cxa_free_exception|__clang_call_terminate|llvm\.experimental\.noalias.*|llvm\.lifetime.*|llvm\.dbg.*)$')
def nop(E, st, fn, a, i):
    return None

@model(r'llvm\.eh\.typeid\.for')
def typeid_for(E, st, fn, a, i):
    return E.typeid(('g', E.regions[a[0].r].name))

@model(r'(std::terminate\(\)|abort|llvm\.trap|__assert_fail)$')
def terminates(E, st, fn, a, i):
    return [throw(st, '#abort')]

@model(r'exit$')
def exits(E, st, fn, a, i):
    st.ghost['exitcode'] = a[0]
    return [throw(st, '#exit')]

@model(r'std::__throw_out_of_range')
def t_oor(E, st, fn, a, i): return [throw(st, '_ZTISt12out_of_range')]
@model(r'std::__throw_invalid_argument')
def t_inv(E, st, fn, a, i): return [throw(st, '_ZTISt16invalid_argument')]
@model(r'std::__throw_(length_error|logic_error|bad_alloc|bad_array_new_length)')
def t_other(E, st, fn, a, i): return [throw(st, '_ZTISt12length_error')]

@model(r'std::(runtime_error|logic_error|out_of_range|invalid_argument|overflow_error|exception|range_error|domain_error)::')
def exc_ctor(E, st, fn, a, i):
    if i.ty.k == 'ptr':
        return Ptr(E.region('what', None).id)
    return None


# ---------------------------------------------------------------- memory
@model(r'llvm\.memcpy\.')
def memcpy(E, st, fn, a, i):
    if not isc(a[2]):
        raise Limit("memcpy of symbolic length")
    E.memcpy(st, a[0], a[1], a[2])

@model(r'llvm\.memmove\.')
def memmove(E, st, fn, a, i):
    n = a[2]
    if isinstance(n, LinInt):
        n = n.bv()
    if not isc(n):
        n = simp(n)
    if not isc(n):
        # moving zero bytes is the only symbolic case that occurs (erase at the end)
        r, _ = E.prove(st.pc, n == 0)
        if r == 'proved':
            return a[0]
        raise Limit("memmove of symbolic length")
    if n == 0:
        return a[0]
    # via a temporary
    t = E.region('memmove', n)
    st.mem[t.id] = RS()
    E.memcpy(st, Ptr(t.id), a[1], n)
    E.memcpy(st, a[0], Ptr(t.id), n)
    return a[0]

@model(r'llvm\.memset\.')
def memset(E, st, fn, a, i):
    p, v, n = a[0], a[1], a[2]
    if not isc(n) or not isc(v):
        raise Limit("symbolic memset")
    if v != 0:
        k = 0
        while k < n:
            E.store(st, Ptr(p.r, (p.c + k) & mask(64), p.t), v, _IntT(1))
            k += 1
        return None
    r = E.regions[p.r]
    off = sgn(p.c, 64)
    k = 0
    while k < n:
        seg = next((s for s in r.segs if s.start <= off + k and isc(s.count) and off + k < s.start + s.stride * s.count), None)
        if seg is not None:
            if off + k == seg.start and n - k >= seg.stride * seg.count:
                for f in seg.fields:
                    E.set_arr(st, r, seg, f, z3.K(z3.BitVecSort(32), BitVecVal(0, f[1] * 8)))
                k += seg.stride * seg.count
                continue
            raise Limit("partial memset of an array")
        step = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
        nxt = [s.start - off - k for s in r.segs if s.start > off + k]
        while nxt and step > min(nxt):
            step //= 2
        E.put_cell(st, r, off + k, step, 0)
        k += step
    return None

@model(r'operator new\(unsigned long\)')
def op_new(E, st, fn, a, i):
    r = E.region('heap', a[0] if isc(a[0]) else None)
    st.mem[r.id] = RS()
    return Ptr(r.id)

@model(r'operator delete')
def op_delete(E, st, fn, a, i): return None

@model(r'__cxa_atexit$')
def atexit(E, st, fn, a, i): return 0

@model(r'__cxa_guard_acquire$')
def guard(E, st, fn, a, i): return 0
@model(r'__cxa_guard_(release|abort)$')
def guard2(E, st, fn, a, i): return None

@model(r'__errno_location$')
def errno(E, st, fn, a, i):
    r = E.globals.get('#errno')
    if r is None:
        r = E.region('#errno', 4, 'sym')
        E.globals['#errno'] = r
    return Ptr(r.id)


# ---------------------------------------------------------------- strings (content is not modelled)
@model(r'std::__cxx11::basic_string<char.*>::~?(basic_string|_Alloc_hider)\(|std::__cxx11::basic_string<char.*>::(reserve|operator=|clear|_M_)', 'std::string (content not modelled)')
def str_nop(E, st, fn, a, i):
    return generic(E, st, fn, a, i)

def generic(E, st, fn, a, i):
    """Result of a library call whose value is not modelled."""
    k = i.ty.k
    if k == 'void':
        return None
    if k == 'ptr':
        r = E.region('opaque:' + fn.dem[:40], None, 'sym')
        st.mem[r.id] = RS()
        return Ptr(r.id)
    if k == 'int':
        return E.freshbool('lib') if i.ty.w == 1 else E.fresh('lib', i.ty.w)
    if k == 'struct':
        raise Limit("library result " + fn.dem)
    return E.freshfp('lib', {'fp80': FP80}.get(k, z3.FPSort(11, 53)))

@model(r'(std::__cxx11::basic_string<char.*> std::operator\+|std::__cxx11::(basic_string<char.*>::|to_string)|std::allocator<|std::__new_allocator<|std::char_traits|std::operator\+|to_octal|std::__cxx11::basic_ostringstream)', 'std::string (content not modelled)')
def str_ops(E, st, fn, a, i):
    return generic(E, st, fn, a, i)

@model(r'Stack_Cell::to_string', 'Stack_Cell::to_string (trace text; throws iff the cell type is invalid)')
def cell_to_string(E, st, fn, a, i):
    return None

# trace output: debug_flag is false
@model(r'Machine::trace_(stack|memory_read|memory_write|display|level|instruction|registers|exception)\(', 'Machine::trace_* (tracing off)')
def trace(E, st, fn, a, i):
    return None


# ---------------------------------------------------------------- vectors
SIZES = {'Stack_Cell': 16, 'std::pair<int, int>': 8, 'unsigned int': 4, 'int': 4, 'char const*': 8, 'unsigned long': 8,
         'char': 1, 'long double': 16}

def vec_elt(dem):
    m = re.search(r'std::vector<(.*?), std::allocator<', dem)
    t = m.group(1)
    if t not in SIZES:
        raise Limit("vector of " + t)
    return t, SIZES[t]

PT = type('P', (), {'k': 'ptr', 'size': 8})()

def vget(E, st, v):
    return E.load(st, v, PT), E.load(st, Ptr(v.r, v.c + 8, v.t), PT)

def vset(E, st, v, start=None, finish=None):
    if start is not None:
        E.store(st, v, start, PT)
    if finish is not None:
        E.store(st, Ptr(v.r, v.c + 8, v.t), finish, PT)

@model(r'(.*& )?std::vector<.*>::(push_back|emplace_back)', 'std::vector::push_back/emplace_back')
def vec_push(E, st, fn, a, i):
    t, sz = vec_elt(fn.dem)
    v = a[0]
    s, e = vget(E, st, v)
    if s.r is None:
        r = E.region('vector', None)
        st.mem[r.id] = RS()
        s = e = Ptr(r.id)
        vset(E, st, v, s, s)
    tmp = E.region('tmp', sz)
    st.mem[tmp.id] = RS()
    if len(a) > 1:
        E.memcpy(st, Ptr(tmp.id), a[1], sz)
    ne = Ptr(e.r, (e.c + sz) & mask(64), e.t)
    vset(E, st, v, None, ne)
    if len(a) > 1:
        E.memcpy(st, e, Ptr(tmp.id), sz)
    return e if i.ty.k == 'ptr' else None

@model(r'std::vector<.*>::erase\(', 'std::vector::erase to the end')
def vec_erase(E, st, fn, a, i):
    t, sz = vec_elt(fn.dem)
    v = a[0]
    s, e = vget(E, st, v)
    if len(a) < 3:
        raise Limit("vector::erase(one)")
    p, q = a[1], a[2]
    r, _ = E.prove(st.pc, tobool(E.ptr_eq(st, q, e)))
    if r != 'proved':
        raise Limit("vector::erase not up to the end")
    o1 = E.ptr_diff(p, s)
    o1 = o1 if isc(o1) else o1.bv()
    o2 = E.ptr_diff(e, s)
    o2 = o2 if isc(o2) else o2.bv()
    E.oblige(st, z3.ULE(bv(o1, 64), bv(o2, 64)), 'memory', 'vector::erase: first iterator inside the vector')
    vset(E, st, v, None, p)
    return p

@model(r'std::vector<.*>::clear\(', 'std::vector::clear')
def vec_clear(E, st, fn, a, i):
    s, e = vget(E, st, a[0])
    vset(E, st, a[0], None, s)

@model(r'std::vector<.*>::resize\(unsigned long\)', 'std::vector::resize (shrinking)')
def vec_resize(E, st, fn, a, i):
    t, sz = vec_elt(fn.dem)
    s, e = vget(E, st, a[0])
    n = a[1]
    if isinstance(n, LinInt):
        n = n.bv()
    o2 = E.ptr_diff(e, s)
    o2 = o2 if isc(o2) else o2.bv()
    cnt = simp(bv(o2, 64) / BitVecVal(sz, 64)) if not isc(o2) else o2 // sz
    cnt = E.exact_div(o2, sz) if not isc(o2) else o2 // sz
    r, _ = E.prove(st.pc, z3.ULE(bv(n, 64), bv(cnt, 64)))
    if r != 'proved':
        raise Limit("vector::resize may grow")
    from engine import lin_add
    if isc(n):
        ne = Ptr(s.r, (s.c + sz * n) & mask(64), s.t)
    else:
        t2 = E.addterm(s.t, n, sz)
        ne = Ptr(s.r, (s.c + t2[1]) & mask(64), t2[2])
    vset(E, st, a[0], None, ne)

@model(r'std::vector<.*>::reserve\(', 'std::vector::reserve')
def vec_reserve(E, st, fn, a, i): return None

@model(r'std::vector<.*>::vector\(\)', 'std::vector()')
def vec_ctor(E, st, fn, a, i):
    E.store(st, a[0], NULL, PT)
    E.store(st, Ptr(a[0].r, a[0].c + 8, a[0].t), NULL, PT)
    E.store(st, Ptr(a[0].r, a[0].c + 16, a[0].t), NULL, PT)

@model(r'std::vector<.*>::~vector\(\)', '~std::vector')
def vec_dtor(E, st, fn, a, i): return None


# ---------------------------------------------------------------- unordered_map<unsigned, Formal_Op>
EMAP = r'std::unordered_map<unsigned int, Formal_Op.*?>::'

def emap(E, st, p):
    r = E.emap_region
    seg = r.segs[0]
    return r, seg

def epres(E, st):
    r = E.emap_region
    return E.rs(st, r).arrs['present']

def key_of(E, st, p):
    v = E.load(st, p, _IntT(4))
    return bv(v, 32)

def eslot(E, k):
    r = E.emap_region
    if z3.is_bv_value(k):
        return Ptr(r.id, 4 * k.as_long())
    return Ptr(r.id, 0, ((4, ZeroExt(32, k)),))

@model(EMAP + r'operator\[\]', 'std::unordered_map<unsigned, Formal_Op>::operator[]')
def emap_index(E, st, fn, a, i):
    k = key_of(E, st, a[1])
    r, seg = emap(E, st, a[0])
    pr = epres(E, st)
    f = seg.fields[0]
    arr = E.arr(st, r, seg, f)
    pk = z3.simplify(z3.Select(pr, k))
    if not z3.is_true(pk):
        E.set_arr(st, r, seg, f, z3.Store(arr, k, If(pk, z3.Select(arr, k), BitVecVal(0, 32))))
        E.wrs(st, r).arrs['present'] = z3.Store(pr, k, True)
    return eslot(E, k)

@model(EMAP + r'at\(', 'std::unordered_map<unsigned, Formal_Op>::at')
def emap_at(E, st, fn, a, i):
    k = key_of(E, st, a[1])
    pk = z3.simplify(z3.Select(epres(E, st), k))
    out = []
    if not z3.is_false(pk) and (z3.is_true(pk) or E.feasible(st.pc, pk) != 'unsat'):
        s = st.fork()
        s.pc.append(pk)
        out.append((s, 'ret', eslot(E, k)))
    if not z3.is_true(pk) and E.feasible(st.pc, Not(pk)) != 'unsat':
        s = st.fork()
        s.pc.append(Not(pk))
        out.append(throw(s, '_ZTISt12out_of_range'))
    return out

@model(EMAP + r'count\(', 'std::unordered_map<unsigned, Formal_Op>::count')
def emap_count(E, st, fn, a, i):
    k = key_of(E, st, a[1])
    return simp(If(z3.Select(epres(E, st), k), BitVecVal(1, 64), BitVecVal(0, 64)))

@model(EMAP + r'clear\(', 'std::unordered_map<unsigned, Formal_Op>::clear')
def emap_clear(E, st, fn, a, i):
    E.wrs(st, E.emap_region).arrs['present'] = z3.K(z3.BitVecSort(32), z3.BoolVal(False))

# ---------------------------------------------------------------- maths
def fmath(rx, name, n=1):
    @model(rx, 'libm ' + name)
    def h(E, st, fn, a, i):
        if any(z3.is_expr(x) and x.sort() != FP80 for x in a[:n]):
            raise Limit("double-precision " + name)
        r = dom.fun(name, *a[:n])
        if dom.MODE['digits'] and not dom.isfpc(r):
            st.pc.extend(dom.libm_facts(name, r, *a[:n]))
        return r

for nm in ('expl', 'logl', 'sinl', 'cosl', 'atanl', 'sqrtl', 'log10l'):
    fmath('%s$' % nm, nm)
fmath(r'powl$', 'powl', 2)
fmath(r'(llvm\.floor\.f80|floorl$)', 'floorl')
fmath(r'(llvm\.round\.f80|roundl$)', 'roundl')
fmath(r'(llvm\.fabs\.f80|fabsl$)', 'fabsl')
@model(r'(llvm\.(floor|fabs)\.f64|floor$|fabs$)', 'double floor/fabs')
def dfloor(E, st, fn, a, i):
    if 'fabs' in fn.dem:
        return simp(z3.fpAbs(a[0]))
    r = dom.dfloor(a[0])
    if dom.MODE['digits'] and not dom.isfpc(r):
        st.pc.extend(dom.digit_facts('floor', a[0], None, r))
    return r

for nm in ('exp', 'log', 'sin', 'cos', 'atan', 'sqrt', 'log10', 'floor', 'round', 'fabs'):
    fmath(r'std::%s\(long double\)' % {'fabs': '(?:fabs|abs)'}.get(nm, nm), nm + 'l')

@model(r'(llvm\.abs\.i\d+|labs|llabs|abs)(\(|$)', 'abs')
def iabs(E, st, fn, a, i):
    v = bv(a[0], i.ty.size * 8)
    return norm(simp(If(v < 0, -v, v)))

@model(r'(llvm\.(smax|smin|umax|umin)\.i\d+)', 'integer min/max')
def minmax(E, st, fn, a, i):
    w = i.ty.size * 8
    x, y = bv(a[0], w), bv(a[1], w)
    k = fn.dem.split('.')[1]
    c = {'smax': x > y, 'smin': x < y, 'umax': z3.UGT(x, y), 'umin': z3.ULT(x, y)}[k]
    return norm(simp(If(c, x, y)))

@model(r'llvm\.fmuladd\.')
def fmuladd(E, st, fn, a, i):
    # x86 has no fused instruction for this type: multiply, then add
    return dom.fbin('add', dom.fbin('mul', a[0], a[1]), a[2])

@model(r'(std::signbit\(long double\)|__signbitl)')
def signbit(E, st, fn, a, i):
    return simp(z3.fpIsNegative(a[0]))

@model(r'std::(isfinite|isnan|isinf)\(long double\)', 'std::isfinite/isnan/isinf')
def isfin(E, st, fn, a, i):
    if 'isnan' in fn.dem:
        return simp(z3.fpIsNaN(a[0]))
    if 'isinf' in fn.dem:
        return simp(z3.fpIsInf(a[0]))
    return simp(Not(Or(z3.fpIsNaN(a[0]), z3.fpIsInf(a[0]))))

@model(r'llvm\.is\.fpclass')
def fpclass(E, st, fn, a, i):
    m = a[1]
    x = a[0]
    neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
    sub = And(z3.fpIsSubnormal(x))
    nrm = z3.fpIsNormal(x)
    cs = [z3.fpIsNaN(x), z3.fpIsNaN(x), And(z3.fpIsInf(x), neg), And(nrm, neg), And(sub, neg), And(z3.fpIsZero(x), neg),
          And(z3.fpIsZero(x), pos), And(sub, pos), And(nrm, pos), And(z3.fpIsInf(x), pos)]
    return simp(Or(*[c for k, c in enumerate(cs) if m >> k & 1]))

@model(r'frexpl$')
def frexpl(E, st, fn, a, i):
    """Exact: normal numbers get exponent field 0x3ffe; zero, inf, nan unchanged with exponent 0;
    subnormals: some mantissa in [1/2,1) and an exponent below -16381."""
    x, p = a[0], a[1]
    out = []
    if dom.isfpc(x):
        s, e, f = dom.bits80(x)
        if e == 0x7fff or (e == 0 and f == 0):
            E.store(st, p, 0, _IntT(4))
            return x
        if e == 0:
            fr = abs(dom.tofrac(x))
            k = 0
            while fr < dom.Fraction(1, 2):
                fr *= 2
                k -= 1
            E.store(st, p, k & mask(32), _IntT(4))
            return dom.fpnum(s, fr)
        E.store(st, p, (e - 16382) & mask(32), _IntT(4))
        return dom.from_bits80(s, 0x3ffe, f)
    cases = [(Or(z3.fpIsZero(x), z3.fpIsInf(x), z3.fpIsNaN(x)), 'z'), (z3.fpIsNormal(x), 'n'), (z3.fpIsSubnormal(x), 's')]
    for c, k in cases:
        if E.feasible(st.pc, c) == 'unsat':
            continue
        s = st.fork()
        s.pc.append(c)
        if k == 'z':
            E.store(s, p, 0, _IntT(4))
            out.append((s, 'ret', x))
            continue
        if k == 'n':
            sg, ex, fr = E.fp_fields(s, x)
            E.store(s, p, simp(ZeroExt(17, ex) - 16382), _IntT(4))
            out.append((s, 'ret', z3.fpFP(sg, BitVecVal(0x3ffe, 15), fr)))
            continue
        e = E.fresh('frexp_e', 32)
        fr = E.fresh('frexp_f', 63)
        sg, _, _ = E.fp_fields(s, x)
        s.pc.append(And(e >= -16445, e <= -16382))
        E.store(s, p, e, _IntT(4))
        out.append((s, 'ret', z3.fpFP(sg, BitVecVal(0x3ffe, 15), fr)))
    return out

@model(r'(ldexpl|scalbnl)$')
def ldexpl(E, st, fn, a, i):
    """Exact for zero/inf/nan and for normal results of normal arguments; otherwise unspecified."""
    x, n = a
    if dom.isfpc(x) and isc(n):
        s, e, f = dom.bits80(x)
        if e == 0x7fff or (e == 0 and f == 0):
            return x
        return dom.fpnum(s, abs(dom.tofrac(x)) * dom.Fraction(2) ** sgn(n, 32))
    n = bv(n, 32)
    out = []
    special = Or(z3.fpIsZero(x), z3.fpIsInf(x), z3.fpIsNaN(x))
    sp = z3.simplify(special)
    if not z3.is_false(sp) and E.feasible(st.pc, sp) != 'unsat':
        s = st.fork()
        s.pc.append(sp)
        out.append((s, 'ret', x))
    if E.feasible(st.pc, Not(special)) != 'unsat':
        s = st.fork()
        s.pc.append(Not(special))
        sg, ex, fr = E.fp_fields(s, x)
        ne = z3.simplify(SignExt(2, n) + ZeroExt(19, ex))
        ok = And(z3.fpIsNormal(x), ne >= 1, ne <= 0x7ffe)
        r, _ = E.prove(s.pc, ok)
        if r == 'proved':
            v = z3.fpFP(sg, z3.simplify(Extract(14, 0, ne)), fr)
        else:
            v = If(ok, z3.fpFP(sg, z3.simplify(Extract(14, 0, ne)), fr), dom.uf('ldexpl', FP80, z3.BitVecSort(32), FP80)(x, n))
        out.append((s, 'ret', v))
    return out


# ---------------------------------------------------------------- output streams
def emit(st, stream, *ev):
    st.ghost['out'] = st.ghost.get('out', ()) + ((stream,) + ev,)

def sname(E, p):
    return E.regions[p.r].name if isinstance(p, Ptr) and p.r in E.regions else '?'

@model(r'.*std::operator<< <std::char_traits<char> ?>\(std::basic_ostream<char, std::char_traits<char> ?>&, char\)')
def out_char(E, st, fn, a, i):
    emit(st, sname(E, a[0]), 'char', bv(a[1], 8))
    return a[0]

@model(r'std::basic_ostream<.*>::put\(char\)')
def out_put(E, st, fn, a, i):
    emit(st, sname(E, a[0]), 'char', bv(a[1], 8))
    return a[0]

@model(r'.*std::operator<< <std::char_traits<char> ?>\(.*, char const\*\)')
def out_cstr(E, st, fn, a, i):
    s = cstr(E, st, a[1])
    if s is None:
        g = st.ghost.get('snprintf:%d' % a[1].r) if isinstance(a[1], Ptr) and not a[1].t and a[1].c == 0 else None
        if g:
            emit(st, sname(E, a[0]), 'fmt', g[0].decode('latin1') if g[0] else g[0], *g[1])
        else:
            emit(st, sname(E, a[0]), 'str', None)
    else:
        for c in s:
            emit(st, sname(E, a[0]), 'char', BitVecVal(c, 8))
    return a[0]

def cstr(E, st, p):
    if not isinstance(p, Ptr) or p.r not in E.regions or p.t:
        return None
    r = E.regions[p.r]
    if r.strbytes is None:
        return None
    b = r.strbytes[p.c:]
    return b[:b.index(0)] if 0 in b else b

@model(r'.*std::operator<< <char, .*basic_string<char')
def out_str(E, st, fn, a, i):
    emit(st, sname(E, a[0]), 'str', None)
    return a[0]

@model(r'.*std::operator<< <char, .*std::_(Setfill|Setw|Setprecision)')
def out_manip(E, st, fn, a, i):
    emit(st, sname(E, a[0]), 'manip', fn.dem[-40:])
    return a[0]

@model(r'std::basic_ostream<.*>::operator<<\((unsigned )?(int|long|long long|unsigned|short|bool|long double|double)\)')
def out_num(E, st, fn, a, i):
    k = re.search(r'operator<<\((.*)\)$', fn.dem).group(1)
    v = a[1]
    if isinstance(v, (LinInt,)):
        v = v.bv()
    if k in ('long double', 'double'):
        emit(st, sname(E, a[0]), 'fp', v)
    else:
        w = {'bool': 1, 'int': 32, 'unsigned int': 32, 'short': 16}.get(k, 64)
        v = bv(v, w if w > 1 else 8) if not z3.is_bool(v) else If(v, BitVecVal(1, 8), BitVecVal(0, 8))
        v = z3.simplify(SignExt(64 - v.size(), v) if k in ('int', 'long', 'long long', 'short') else ZeroExt(64 - v.size(), v) if v.size() < 64 else v)
        emit(st, sname(E, a[0]), 'int', v)
    return a[0]

@model(r'std::basic_ostream<.*>::operator<<\(std::basic_ostream<.*>& \(\*\)')
def out_fn(E, st, fn, a, i):
    n = a[1].name if isinstance(a[1], FPtr) else '?'
    if 'endl' in n:
        emit(st, sname(E, a[0]), 'char', BitVecVal(10, 8))
    elif 'flush' not in n:
        emit(st, sname(E, a[0]), 'manip', n)
    return a[0]

@model(r'(.*)?std::(flush|endl)<')
def out_fn2(E, st, fn, a, i):
    if 'endl' in fn.dem.split('<')[0] + fn.dem:
        if re.search(r'std::endl<', fn.dem):
            emit(st, sname(E, a[0]), 'char', BitVecVal(10, 8))
    return a[0]

@model(r'std::basic_ostream<.*>::operator<<\(std::ios_base& \(\*\)')
def out_ios(E, st, fn, a, i):
    emit(st, sname(E, a[0]), 'manip', a[1].name if isinstance(a[1], FPtr) else '?')
    return a[0]

@model(r'std::basic_ostream<.*>::flush\(')
def out_flush(E, st, fn, a, i): return a[0]

@model(r'snprintf$')
def snprintf(E, st, fn, a, i):
    """x1_print_real: the text is determined by the format and the value."""
    fmt = cstr(E, st, a[2])
    r = E.regions[a[0].r]
    st.ghost['snprintf:%d' % r.id] = (fmt, tuple(a[3:]))
    return E.fresh('snprintf', 32)


# ---------------------------------------------------------------- input stream: the bytes inbytes[inpos..inlen-1] are still to come
@model(r'std::basic_istream<.*>::get\(char&\)', 'std::istream::get(char &)')
def in_get(E, st, fn, a, i):
    import specs
    p = st.ghost['inpos']
    end = simp(z3.UGE(p, specs.INLEN))
    out = []
    if E.feasible(st.pc, end) != 'unsat':
        s = st.fork()
        s.pc.append(end)
        s.ghost['infail'] = True
        out.append((s, 'ret', a[0]))
    if E.feasible(st.pc, Not(end)) != 'unsat':
        s = st.fork()
        s.pc.append(Not(end))
        s.ghost['infail'] = s.ghost.get('infail', False)
        if not s.ghost['infail']:
            E.store(s, a[1], z3.Select(specs.INBYTES, p), _IntT(1))
            s.ghost['inpos'] = simp(p + 1)
        out.append((s, 'ret', a[0]))
    return out

@model(r'std::basic_ios<.*>::operator!\(\) const', 'std::ios::operator!')
def ios_not(E, st, fn, a, i): return 1 if st.ghost.get('infail') else 0

@model(r'std::basic_ios<.*>::(operator bool\(\)|good\(\)) const', 'std::ios::operator bool')
def ios_bool(E, st, fn, a, i): return 0 if st.ghost.get('infail') else 1

@model(r'std::basic_ios<.*>::(eof|fail)\(\) const', 'std::ios::eof/fail')
def ios_eof(E, st, fn, a, i): return 1 if st.ghost.get('infail') else 0


# ---------------------------------------------------------------- devices
@model(r'double std::generate_canonical<', 'std::generate_canonical')
def gencanon(E, st, fn, a, i):
    n = st.ghost.get('rng', 0)
    st.ghost['rng'] = n + 1
    return z3.fpToFP(dom.RNE, z3.FP(f'random!{n}', z3.FPSort(11, 53)), z3.FPSort(11, 53))

@model(r'std::mersenne_twister_engine<.*>::seed\(', 'std::mt19937::seed')
def rngseed(E, st, fn, a, i):
    st.ghost['rngseed'] = a[1]
    return None
@model(r'std::mersenne_twister_engine<.*>::mersenne_twister_engine', 'std::mt19937')
def rngctor(E, st, fn, a, i): return None

@model(r'gettimeofday$')
def gettod(E, st, fn, a, i):
    E.store(st, a[0], E.fresh('tv_sec', 64), _IntT(8))
    E.store(st, Ptr(a[0].r, a[0].c + 8, a[0].t), E.fresh('tv_usec', 64), _IntT(8))
    return 0

@model(r'localtime$')
def localtime(E, st, fn, a, i):
    r = E.region('struct tm', 56, 'sym')
    st.mem[r.id] = RS()
    return Ptr(r.id)


def install(E):
    E.models = list(M)
