"""Loads LLVM 18 bitcode through the LLVM-C API (ctypes) into plain Python objects.

The bitcode is what clang++ emits from /repo's current sources on this run.
"""
import ctypes as C
import subprocess

_L = None


def lib():
    global _L
    if _L is None:
        _L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
        P, U, S = C.c_void_p, C.c_uint, C.c_char_p

        def d(name, res, *args):
            f = getattr(_L, name)
            f.restype, f.argtypes = res, list(args)
        PP = C.POINTER(P)
        d("LLVMContextCreate", P)
        d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, S, PP, C.POINTER(S))
        d("LLVMParseBitcodeInContext2", C.c_int, P, P, PP)
        d("LLVMGetFirstFunction", P, P)
        d("LLVMGetNextFunction", P, P)
        d("LLVMGetFirstGlobal", P, P)
        d("LLVMGetNextGlobal", P, P)
        d("LLVMGetFirstGlobalAlias", P, P)
        d("LLVMGetNextGlobalAlias", P, P)
        d("LLVMAliasGetAliasee", P, P)
        d("LLVMGetInitializer", P, P)
        d("LLVMIsGlobalConstant", C.c_int, P)
        d("LLVMGlobalGetValueType", P, P)
        d("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
        d("LLVMCountParams", U, P)
        d("LLVMGetParam", P, P, U)
        d("LLVMGetFirstBasicBlock", P, P)
        d("LLVMGetNextBasicBlock", P, P)
        d("LLVMGetFirstInstruction", P, P)
        d("LLVMGetNextInstruction", P, P)
        d("LLVMGetInstructionOpcode", C.c_int, P)
        d("LLVMGetConstOpcode", C.c_int, P)
        d("LLVMGetNumOperands", C.c_int, P)
        d("LLVMGetOperand", P, P, U)
        d("LLVMTypeOf", P, P)
        d("LLVMGetValueKind", C.c_int, P)
        d("LLVMGetICmpPredicate", C.c_int, P)
        d("LLVMGetFCmpPredicate", C.c_int, P)
        d("LLVMGetNumIndices", U, P)
        d("LLVMGetIndices", C.POINTER(U), P)
        d("LLVMGetCalledValue", P, P)
        d("LLVMGetNumArgOperands", U, P)
        d("LLVMGetNormalDest", P, P)
        d("LLVMGetUnwindDest", P, P)
        d("LLVMCountIncoming", U, P)
        d("LLVMGetIncomingValue", P, P, U)
        d("LLVMGetIncomingBlock", P, P, U)
        d("LLVMGetAllocatedType", P, P)
        d("LLVMGetGEPSourceElementType", P, P)
        d("LLVMConstIntGetSExtValue", C.c_longlong, P)
        d("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
        d("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
        d("LLVMGetAggregateElement", P, P, U)
        d("LLVMPrintValueToString", P, P)
        d("LLVMPrintTypeToString", P, P)
        d("LLVMDisposeMessage", None, P)
        d("LLVMGetNSW", C.c_int, P)
        d("LLVMGetDebugLocLine", U, P)
        d("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
        d("LLVMGetNumSuccessors", U, P)
        d("LLVMGetSuccessor", P, P, U)
        d("LLVMIsConditional", C.c_int, P)
        d("LLVMGetCondition", P, P)
        d("LLVMIsCleanup", C.c_int, P)
        d("LLVMGetNumClauses", U, P)
        d("LLVMGetTypeKind", C.c_int, P)
        d("LLVMGetIntTypeWidth", U, P)
        d("LLVMCountStructElementTypes", U, P)
        d("LLVMStructGetTypeAtIndex", P, P, U)
        d("LLVMGetElementType", P, P)
        d("LLVMGetArrayLength2", C.c_uint64, P)
        d("LLVMGetVectorSize", U, P)
        d("LLVMGetStructName", S, P)
        d("LLVMIsOpaqueStruct", C.c_int, P)
        d("LLVMGetModuleDataLayout", P, P)
        d("LLVMABISizeOfType", C.c_ulonglong, P, P)
        d("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
        d("LLVMBasicBlockAsValue", P, P)
        d("LLVMIsAConstantDataSequential", P, P)
        d("LLVMGetLinkage", C.c_int, P)
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno',
        9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ("k", "size", "bits", "elems", "offs", "name", "n")

    def __repr__(self):
        return self.name or self.k


class Val:
    """operand kinds: local (instr/arg, key), const int, const fp, null, undef, global, func, cexpr, agg, block"""
    __slots__ = ("k", "ty", "v", "ops")

    def __init__(self, k, ty, v=None, ops=None):
        self.k, self.ty, self.v, self.ops = k, ty, v, ops

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Ins:
    __slots__ = ("id", "op", "ty", "ops", "x", "line", "file", "name")

    def __repr__(self):
        return "%%%d=%s %s %s" % (self.id, self.op, self.ops, self.x)


class Block:
    __slots__ = ("name", "ins", "idx", "succ", "key")


class Func:
    def __init__(self):
        self.blocks = None


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self.tycache = {}
        self.funcs = {}
        self.globals = {}
        self._gptr = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Func()
            fn.name = self._name(f)
            fn.ptr = f
            fn.defined = bool(L.LLVMGetFirstBasicBlock(f))
            fn.nparams = L.LLVMCountParams(f)
            self.funcs[fn.name] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        self.aliases = {}
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self._name(a)] = self._name(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)
        names = list(self.funcs) + list(self.globals)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.dem = dict(zip(names, out))
        for n, fn in self.funcs.items():
            fn.dem = self.dem[n]
        self.bydem = {}
        for n, fn in self.funcs.items():
            self.bydem.setdefault(fn.dem, fn)

    def _name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode("latin1") if p and n.value else ""

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        L = self.L
        r = Ty()
        self.tycache[t] = r
        r.name = None
        r.elems = r.offs = None
        r.bits = r.n = 0
        r.size = 0
        k = L.LLVMGetTypeKind(t)
        if k == 8:
            r.k, r.bits = 'int', L.LLVMGetIntTypeWidth(t)
            r.size = (r.bits + 7) // 8
        elif k in (2, 3, 4):
            r.k = {2: 'float', 3: 'double', 4: 'x86_fp80'}[k]
            r.size = L.LLVMABISizeOfType(self.td, t)
        elif k == 12:
            r.k, r.size = 'ptr', 8
        elif k == 0:
            r.k = 'void'
        elif k == 10:
            r.k = 'struct'
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            if L.LLVMIsOpaqueStruct(t):
                r.elems, r.offs = [], []
            else:
                r.size = L.LLVMABISizeOfType(self.td, t)
                n = L.LLVMCountStructElementTypes(t)
                r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
        elif k == 11:
            r.k = 'array'
            r.elems = [self.ty(L.LLVMGetElementType(t))]
            r.n = L.LLVMGetArrayLength2(t)
            r.size = L.LLVMABISizeOfType(self.td, t)
        elif k == 13:
            r.k = 'vector'
            r.elems = [self.ty(L.LLVMGetElementType(t))]
            r.n = L.LLVMGetVectorSize(t)
            r.size = L.LLVMABISizeOfType(self.td, t)
        elif k == 9:
            r.k = 'func'
        else:
            r.k = 'other%d' % k
        return r

    def func(self, name):
        """function object with body parsed; None if unknown"""
        name = self.aliases.get(name, name)
        fn = self.funcs.get(name)
        if fn is None:
            return None
        if fn.defined and fn.blocks is None:
            self._body(fn)
        return fn

    def const(self, v):
        L = self.L
        k = L.LLVMGetValueKind(v)
        ty = self.ty(L.LLVMTypeOf(v))
        if k == 18:  # constant int
            if ty.bits == 1:
                return Val('int', ty, bool(L.LLVMConstIntGetZExtValue(v)))
            if ty.bits > 64:
                return Val('unsup', ty, 'i%d' % ty.bits)
            return Val('int', ty, L.LLVMConstIntGetSExtValue(v))
        if k == 19:
            lo = C.c_int()
            return Val('fp', ty, L.LLVMConstRealGetDouble(v, C.byref(lo)))
        if k == 20:
            return Val('null', ty)
        if k in (14, 25):
            return Val('undef', ty)
        if k in (5,):
            return Val('func', ty, self._name(v))
        if k in (8,):
            return Val('global', ty, self._name(v))
        if k == 6:
            return Val('func', ty, self.aliases.get(self._name(v), self._name(v)))
        if k == 15:
            return Val('zero', ty)
        if k in (11, 12, 13, 16, 17):  # aggregates / data arrays
            n = ty.n if ty.k in ('array', 'vector') else len(ty.elems)
            return Val('agg', ty, None, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            i = Val('cexpr', ty, op, [self.const(L.LLVMGetOperand(v, j)) for j in range(L.LLVMGetNumOperands(v))])
            if op == 'gep':
                i.ops.append(self.ty(L.LLVMGetGEPSourceElementType(v)))
            return i
        return Val('unsup', ty, k)

    def _body(self, fn):
        L = self.L
        ids = {}
        blocks = []
        fn.params = []
        for i in range(fn.nparams):
            p = L.LLVMGetParam(fn.ptr, i)
            ids[p] = len(ids)
            fn.params.append((ids[p], self.ty(L.LLVMTypeOf(p)), self._name(p)))
        bkey = {}
        b = L.LLVMGetFirstBasicBlock(fn.ptr)
        raw = []
        while b:
            blk = Block()
            blk.idx = len(blocks)
            blk.name = self._name(L.LLVMBasicBlockAsValue(b))
            bkey[L.LLVMBasicBlockAsValue(b)] = blk.idx
            bkey[b] = blk.idx
            i = L.LLVMGetFirstInstruction(b)
            l = []
            while i:
                ids[i] = len(ids)
                l.append(i)
                i = L.LLVMGetNextInstruction(i)
            raw.append(l)
            blocks.append(blk)
            b = L.LLVMGetNextBasicBlock(b)

        def opnd(v):
            if v in ids:
                return Val('local', self.ty(L.LLVMTypeOf(v)), ids[v])
            if v in bkey:
                return Val('block', None, bkey[v])
            kk = L.LLVMGetValueKind(v)
            if kk in (22, 23):  # metadata / asm
                return Val('meta', None, None)
            return self.const(v)
        for blk, l in zip(blocks, raw):
            blk.ins = []
            for p in l:
                x = Ins()
                x.id = ids[p]
                x.op = OPC.get(L.LLVMGetInstructionOpcode(p), '?')
                x.ty = self.ty(L.LLVMTypeOf(p))
                x.line = L.LLVMGetDebugLocLine(p)
                n = C.c_uint()
                fp = L.LLVMGetDebugLocFilename(p, C.byref(n))
                x.file = C.string_at(fp, n.value).decode() if fp else ""
                x.name = self._name(p)
                x.x = None
                o = x.op
                nops = L.LLVMGetNumOperands(p)
                if o in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(p)
                    x.ops = [opnd(L.LLVMGetOperand(p, j)) for j in range(na)]
                    cal = opnd(L.LLVMGetCalledValue(p))
                    x.x = [cal]
                    if o == 'invoke':
                        x.x += [bkey[L.LLVMGetNormalDest(p)], bkey[L.LLVMGetUnwindDest(p)]]
                elif o == 'phi':
                    x.ops = []
                    x.x = {}
                    for j in range(L.LLVMCountIncoming(p)):
                        x.x[bkey[L.LLVMGetIncomingBlock(p, j)]] = opnd(L.LLVMGetIncomingValue(p, j))
                elif o == 'br':
                    if L.LLVMIsConditional(p):
                        x.ops = [opnd(L.LLVMGetCondition(p))]
                    else:
                        x.ops = []
                    x.x = [bkey[L.LLVMGetSuccessor(p, j)] for j in range(L.LLVMGetNumSuccessors(p))]
                elif o == 'switch':
                    x.ops = [opnd(L.LLVMGetOperand(p, 0))]
                    x.x = [bkey[L.LLVMGetOperand(p, 1)]]
                    cases = []
                    for j in range(2, nops, 2):
                        cases.append((opnd(L.LLVMGetOperand(p, j)).v, bkey[L.LLVMGetOperand(p, j + 1)]))
                    x.x.append(cases)
                else:
                    x.ops = [opnd(L.LLVMGetOperand(p, j)) for j in range(nops)]
                    if o == 'icmp':
                        x.x = ICMP[L.LLVMGetICmpPredicate(p)]
                    elif o == 'fcmp':
                        x.x = FCMP[L.LLVMGetFCmpPredicate(p)]
                    elif o == 'alloca':
                        x.x = self.ty(L.LLVMGetAllocatedType(p))
                    elif o == 'gep':
                        x.x = self.ty(L.LLVMGetGEPSourceElementType(p))
                    elif o == 'atomicrmw':
                        x.x = {0: 'xchg', 1: 'add', 2: 'sub'}.get(L.LLVMGetAtomicRMWBinOp(p))
                    elif o in ('extractvalue', 'insertvalue'):
                        k = L.LLVMGetNumIndices(p)
                        a = L.LLVMGetIndices(p)
                        x.x = [a[j] for j in range(k)]
                    elif o == 'landingpad':
                        x.x = (bool(L.LLVMIsCleanup(p)), L.LLVMGetNumClauses(p))
                blk.ins.append(x)
            t = blk.ins[-1]
            if t.op == 'br':
                blk.succ = list(t.x)
            elif t.op == 'switch':
                blk.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                blk.succ = [t.x[1], t.x[2]]
            else:
                blk.succ = []
        fn.blocks = blocks
        self._loops(fn)

    def _loops(self, fn):
        """natural loops: fn.loops = {header: set(blocks)}; fn.inloop[b] = innermost header or None"""
        n = len(fn.blocks)
        preds = [[] for _ in range(n)]
        for b in fn.blocks:
            for s in b.succ:
                preds[s].append(b.idx)
        # reverse postorder
        seen, order = set(), []
        st = [(0, iter(fn.blocks[0].succ))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        dom = {b: None for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b] if p in dom and dom[p] is not None]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in rpo:
            for s in fn.blocks[b].succ:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        q = w.pop()
                        if q not in body:
                            body.add(q)
                            w += [p for p in preds[q] if p in dom]
        fn.loops = loops
        fn.inloop = {}
        for b in range(n):
            best = None
            for h, body in loops.items():
                if b in body and (best is None or len(body) < len(loops[best])):
                    best = h
            fn.inloop[b] = best
        fn.preds = preds

    def ginit(self, name):
        """(initialiser Val or None, isconst, type)"""
        g = self.globals.get(name)
        if g is None:
            return None, False, None
        r = self._gptr.get(name)
        if r is None:
            L = self.L
            i = L.LLVMGetInitializer(g)
            r = (self.const(i) if i else None, bool(L.LLVMIsGlobalConstant(g)), self.ty(L.LLVMGlobalGetValueType(g)))
            self._gptr[name] = r
        return r
