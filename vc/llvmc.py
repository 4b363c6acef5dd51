"""Read LLVM bitcode through libLLVM's C API (ctypes) into plain Python objects.

Nothing is interpreted here: one Python object per function, basic block and
instruction, with operands decoded into small value objects.
"""
import ctypes, glob, re, subprocess
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_size_t, byref, POINTER

def _load():
    for p in ["/usr/lib/llvm-18/lib/libLLVM.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
              *sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*")),
              *sorted(glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*"))]:
        try:
            return ctypes.CDLL(p)
        except OSError:
            pass
    raise RuntimeError("libLLVM-18 not found")

L = _load()
def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

P = c_void_p
ctx_create = _f("LLVMContextCreate", P)
membuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(P), POINTER(c_char_p))
parse_bc = _f("LLVMParseBitcodeInContext2", c_int, P, P, POINTER(P))
mod_dl = _f("LLVMGetModuleDataLayout", P, P)
f_first = _f("LLVMGetFirstFunction", P, P)
f_next = _f("LLVMGetNextFunction", P, P)
g_first = _f("LLVMGetFirstGlobal", P, P)
g_next = _f("LLVMGetNextGlobal", P, P)
a_first = _f("LLVMGetFirstGlobalAlias", P, P)
a_next = _f("LLVMGetNextGlobalAlias", P, P)
alias_aliasee = _f("LLVMAliasGetAliasee", P, P)
v_name = _f("LLVMGetValueName2", P, P, POINTER(c_size_t))
is_decl = _f("LLVMIsDeclaration", c_int, P)
param_n = _f("LLVMCountParams", c_uint, P)
param_get = _f("LLVMGetParam", P, P, c_uint)
bb_first = _f("LLVMGetFirstBasicBlock", P, P)
bb_next = _f("LLVMGetNextBasicBlock", P, P)
bb_val = _f("LLVMBasicBlockAsValue", P, P)
i_first = _f("LLVMGetFirstInstruction", P, P)
i_next = _f("LLVMGetNextInstruction", P, P)
i_op = _f("LLVMGetInstructionOpcode", c_int, P)
i_icmp = _f("LLVMGetICmpPredicate", c_int, P)
i_fcmp = _f("LLVMGetFCmpPredicate", c_int, P)
v_type = _f("LLVMTypeOf", P, P)
v_kind = _f("LLVMGetValueKind", c_int, P)
nop = _f("LLVMGetNumOperands", c_int, P)
op_get = _f("LLVMGetOperand", P, P, c_uint)
t_kind = _f("LLVMGetTypeKind", c_int, P)
t_iw = _f("LLVMGetIntTypeWidth", c_uint, P)
t_sname = _f("LLVMGetStructName", c_char_p, P)
t_selts = _f("LLVMCountStructElementTypes", c_uint, P)
t_sget = _f("LLVMStructGetTypeAtIndex", P, P, c_uint)
t_alen = _f("LLVMGetArrayLength2", c_ulonglong, P)
t_vlen = _f("LLVMGetVectorSize", c_uint, P)
t_elt = _f("LLVMGetElementType", P, P)
t_opaque = _f("LLVMIsOpaqueStruct", c_int, P)
dl_size = _f("LLVMABISizeOfType", c_ulonglong, P, P)
dl_off = _f("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
c_zext = _f("LLVMConstIntGetZExtValue", c_ulonglong, P)
c_op = _f("LLVMGetConstOpcode", c_int, P)
v_print = _f("LLVMPrintValueToString", P, P)
v_free = _f("LLVMDisposeMessage", None, P)
c_isstr = _f("LLVMIsConstantString", c_int, P)
c_str = _f("LLVMGetAsString", P, P, POINTER(c_size_t))
c_elt = _f("LLVMGetAggregateElement", P, P, c_uint)
gep_ty = _f("LLVMGetGEPSourceElementType", P, P)
g_init = _f("LLVMGetInitializer", P, P)
g_vty = _f("LLVMGlobalGetValueType", P, P)
g_const = _f("LLVMIsGlobalConstant", c_int, P)
al_ty = _f("LLVMGetAllocatedType", P, P)
phi_n = _f("LLVMCountIncoming", c_uint, P)
phi_v = _f("LLVMGetIncomingValue", P, P, c_uint)
phi_b = _f("LLVMGetIncomingBlock", P, P, c_uint)
sw_def = _f("LLVMGetSwitchDefaultDest", P, P)
call_fn = _f("LLVMGetCalledValue", P, P)
call_na = _f("LLVMGetNumArgOperands", c_uint, P)
inv_n = _f("LLVMGetNormalDest", P, P)
inv_u = _f("LLVMGetUnwindDest", P, P)
lp_n = _f("LLVMGetNumClauses", c_uint, P)
lp_c = _f("LLVMGetClause", P, P, c_uint)
lp_cl = _f("LLVMIsCleanup", c_int, P)
br_cond = _f("LLVMIsConditional", c_int, P)
n_idx = _f("LLVMGetNumIndices", c_uint, P)
idxs = _f("LLVMGetIndices", POINTER(c_uint), P)
succ_n = _f("LLVMGetNumSuccessors", c_uint, P)
succ = _f("LLVMGetSuccessor", P, P, c_uint)
get_nsw = _f("LLVMGetNSW", c_int, P)
get_nuw = _f("LLVMGetNUW", c_int, P)
f_ret = _f("LLVMGetReturnType", P, P)
i_dbg = _f("LLVMGetDebugLocLine", c_uint, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem',
       18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 58: 'resume', 59: 'landingpad', 67: 'callbr', 68: 'freeze',
       56: 'cmpxchg', 57: 'atomicrmw', 60: 'addrspacecast'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno',
        9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Type:
    __slots__ = ("k", "w", "size", "elts", "offs", "name", "n", "elt")
    def __repr__(self):
        return {'int': lambda: f"i{self.w}", 'struct': lambda: f"%{self.name}"}.get(self.k, lambda: self.k)()


class Inst:
    __slots__ = ("op", "ty", "ops", "id", "x", "line", "nsw")


class Block:
    __slots__ = ("insts", "idx", "name", "fn", "phis")


class Func:
    __slots__ = ("name", "dem", "decl", "params", "blocks", "rty", "mod", "nslots", "_h", "_loops")
    def __repr__(self):
        return self.dem


# value encodings: ('l', slot) local | ('i', int, width) | ('g', name) | ('f', name) | ('null',) |
# ('undef', Type) | ('fp', text, Type) | ('agg', [vals], Type) | ('zero', Type) | ('str', bytes)
# | ('ce', Inst-like) | ('bb', idx) | ('meta',)

class Module:
    def __init__(self, path):
        ctx = ctx_create()
        buf, msg = P(), c_char_p()
        if membuf(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if parse_bc(ctx, buf, byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.dl = mod_dl(m)
        self._types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.structs = {}
        f = f_first(m)
        hs = []
        while f:
            fn = Func()
            fn.name = self._name(f)
            fn.decl = bool(is_decl(f))
            fn._h = f
            fn.blocks = None
            fn.mod = self
            fn._loops = None
            hs.append(fn)
            self.funcs[fn.name] = fn
            f = f_next(f)
        dem = demangle([fn.name for fn in hs])
        for fn, d in zip(hs, dem):
            fn.dem = d
        g = g_first(m)
        while g:
            self.globals[self._name(g)] = g
            g = g_next(g)
        a = a_first(m)
        while a:
            self.aliases[self._name(a)] = self._name(alias_aliasee(a))
            a = a_next(a)
        self.bydem = {fn.dem: fn for fn in hs}

    def _name(self, v):
        n = c_size_t()
        p = v_name(v, byref(n))
        return ctypes.string_at(p, n.value).decode("utf8", "replace") if n.value else ""

    def _pr(self, v):
        p = v_print(v)
        s = ctypes.string_at(p).decode("utf8", "replace")
        v_free(p)
        return s

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        r = Type()
        self._types[t] = r
        k = t_kind(t)
        r.name = None
        r.size = 0
        if k == 8:
            r.k = 'int'; r.w = t_iw(t); r.size = dl_size(self.dl, t)
        elif k == 0:
            r.k = 'void'
        elif k == 12:
            r.k = 'ptr'; r.size = 8
        elif k == 4:
            r.k = 'fp80'; r.size = 16
        elif k == 3:
            r.k = 'double'; r.size = 8
        elif k == 2:
            r.k = 'float'; r.size = 4
        elif k == 10:
            r.k = 'struct'
            n = t_sname(t)
            r.name = n.decode() if n else None
            if t_opaque(t):
                r.k = 'opaque'
                return r
            r.elts = [self.type(t_sget(t, i)) for i in range(t_selts(t))]
            r.offs = [dl_off(self.dl, t, i) for i in range(len(r.elts))]
            r.size = dl_size(self.dl, t)
            if r.name:
                self.structs[r.name] = r
        elif k == 11:
            r.k = 'array'; r.n = t_alen(t); r.elt = self.type(t_elt(t)); r.size = dl_size(self.dl, t)
        elif k == 13:
            r.k = 'vector'; r.n = t_vlen(t); r.elt = self.type(t_elt(t)); r.size = dl_size(self.dl, t)
        elif k == 14:
            r.k = 'meta'
        elif k == 9:
            r.k = 'fn'
        else:
            r.k = f'kind{k}'
        return r

    def const(self, v):
        k = v_kind(v)
        if k == 18:
            ty = self.type(v_type(v))
            if ty.w <= 64:
                return ('i', c_zext(v) & ((1 << ty.w) - 1), ty.w)
            return ('i', int(self._pr(v).split()[-1]) & ((1 << ty.w) - 1), ty.w)
        if k == 20:
            return ('null',)
        if k == 5:
            return ('f', self._name(v))
        if k == 8:
            return ('g', self._name(v))
        if k == 6:
            n = self.aliases.get(self._name(v)) or self._name(alias_aliasee(v))
            return ('f', n) if n in self.funcs else ('g', n)
        if k in (14, 25):
            return ('undef', self.type(v_type(v)))
        if k == 19:
            return ('fp', self._pr(v).split()[-1], self.type(v_type(v)))
        if k == 15:
            return ('zero', self.type(v_type(v)))
        if k in (11, 12, 13):
            return ('agg', [self.const(op_get(v, i)) for i in range(nop(v))], self.type(v_type(v)))
        if k in (16, 17):
            ty = self.type(v_type(v))
            if k == 16 and ty.elt.k == 'int' and ty.elt.w == 8:
                n = c_size_t()
                p = c_str(v, byref(n))
                return ('str', ctypes.string_at(p, n.value))
            return ('agg', [self.const(c_elt(v, i)) for i in range(ty.n)], ty)
        if k == 10:
            i = Inst()
            i.op = OPC.get(c_op(v), f'op{c_op(v)}')
            i.ty = self.type(v_type(v))
            i.x = None
            i.nsw = False
            i.line = 0
            i.ops = [self.const(op_get(v, j)) for j in range(nop(v))]
            if i.op == 'gep':
                i.x = self.type(gep_ty(v))
            return ('ce', i)
        if k == 22:
            return ('meta',)
        if k == 23:
            # the text of the assembly: empty means it does nothing
            return ('asm', 0 if re.search(r'asm (?:\w+ )*""', self._pr(v)) else 1)
        raise NotImplementedError(f"const kind {k}: {self._pr(v)}")

    def global_init(self, name):
        g = self.globals[name]
        if is_decl(g):
            return self.type(g_vty(g)), None, False
        return self.type(g_vty(g)), self.const(g_init(g)), bool(g_const(g))

    def global_type(self, name):
        return self.type(g_vty(self.globals[name]))

    def body(self, fn):
        if fn.blocks is not None or fn.decl:
            return fn
        slots = {}
        fn.params = []
        for i in range(param_n(fn._h)):
            p = param_get(fn._h, i)
            slots[p] = len(slots)
            fn.params.append(self.type(v_type(p)))
        bbs = {}
        blocks = []
        b = bb_first(fn._h)
        while b:
            blk = Block()
            blk.idx = len(blocks)
            blk.fn = fn
            blk.name = self._name(bb_val(b))
            bbs[bb_val(b)] = blk.idx
            bbs[b] = blk.idx
            blocks.append((b, blk))
            i = i_first(b)
            while i:
                slots[i] = len(slots)
                i = i_next(i)
            b = bb_next(b)

        def val(v):
            s = slots.get(v)
            if s is not None:
                return ('l', s)
            if v_kind(v) == 1:
                return ('bb', bbs[v])
            return self.const(v)

        for b, blk in blocks:
            blk.insts = []
            i = i_first(b)
            while i:
                ins = Inst()
                o = i_op(i)
                ins.op = OPC.get(o, f'op{o}')
                ins.ty = self.type(v_type(i))
                ins.id = slots[i]
                ins.line = 0
                ins.x = None
                ins.nsw = False
                op = ins.op
                if op == 'br':
                    if br_cond(i):
                        ins.ops = [val(op_get(i, 0))]
                        ins.x = (bbs[succ(i, 0)], bbs[succ(i, 1)])
                    else:
                        ins.ops = []
                        ins.x = (bbs[succ(i, 0)],)
                elif op == 'switch':
                    n = nop(i)
                    ins.ops = [val(op_get(i, 0))]
                    ins.x = (bbs[sw_def(i)], [(val(op_get(i, j))[1], bbs[op_get(i, j + 1)]) for j in range(2, n, 2)])
                elif op in ('call', 'invoke'):
                    ins.ops = [val(op_get(i, j)) for j in range(call_na(i))]
                    ins.x = (val(call_fn(i)),) + ((bbs[inv_n(i)], bbs[inv_u(i)]) if op == 'invoke' else ())
                elif op == 'phi':
                    ins.ops = []
                    ins.x = {bbs[phi_b(i, j)]: val(phi_v(i, j)) for j in range(phi_n(i))}
                elif op == 'landingpad':
                    ins.ops = []
                    ins.x = (bool(lp_cl(i)), [val(lp_c(i, j)) for j in range(lp_n(i))])
                else:
                    ins.ops = [val(op_get(i, j)) for j in range(nop(i))]
                    if op == 'gep':
                        ins.x = self.type(gep_ty(i))
                    elif op == 'alloca':
                        ins.x = self.type(al_ty(i))
                    elif op == 'icmp':
                        ins.x = ICMP[i_icmp(i)]
                    elif op == 'fcmp':
                        ins.x = FCMP[i_fcmp(i)]
                    elif op in ('extractvalue', 'insertvalue'):
                        ins.x = [idxs(i)[j] for j in range(n_idx(i))]
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        ins.nsw = bool(get_nsw(i))
                    elif op == 'store':
                        ins.x = self.type(v_type(op_get(i, 0)))
                if op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'icmp', 'fcmp',
                          'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'ret', 'switch'):
                    if nop(i):
                        ins.x = (ins.x, self.type(v_type(op_get(i, 0)))) if op in ('icmp', 'fcmp') else \
                            (ins.x if op == 'switch' else self.type(v_type(op_get(i, 0))))
                if op in ('call', 'invoke'):
                    ins.x = ins.x + ([self.type(v_type(op_get(i, j))) for j in range(call_na(i))],)
                blk.insts.append(ins)
                i = i_next(i)
        fn.blocks = [blk for _, blk in blocks]
        fn.nslots = len(slots)
        return fn


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    out = p.stdout.split("\n")
    return out[:len(names)]
