"""Assumed contracts of what is outside /repo: libstdc++ containers, libm, the C++ runtime,
and the vc:: specification intrinsics used by the contract drivers."""
import re
from fractions import Fraction
import z3
from terms import *
from engine import (Unsupported, Fork, ForkCond, Ptr, NULL, FnPtr, PtrInt, VecVal, Bits, ModelVal, Outcome, PathDead,
                    flatten, tag_of, iadd, isub, imul, cmpi, HEAP, Reg)

TABLE = {}
PREFIX = []


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def ok(st, v=None):
    return [Outcome(st, v)]


def throw(st, ti, p=NULL):
    return [Outcome(st, None, (ti, p))]


class Ctx:
    __slots__ = ("e", "st", "name", "dem", "a", "ins", "fn", "targs", "sn")


def model(e, st, name, dem, args, ins, fn):
    sn, targs = e.short(name)
    f = TABLE.get(name) or TABLE.get(sn)
    if f is None:
        for p, g in PREFIX:
            if sn.startswith(p) or name.startswith(p):
                f = g
                break
    if f is None:
        return None
    if e.opts.get("strings") == "real":
        # libstdc++'s own string code runs, on characters
        if sn.startswith("std::__cxx11::basic_string::") or sn.startswith("std::allocator::") or \
                (sn.startswith("std::operator") and 'basic_string' in dem and 'stream' not in dem):
            return None
    if sn.startswith(("std::vector::", "std::_Vector_base::")):
        t = class_args(dem, "std::vector") or class_args(dem, "std::_Vector_base") or ""
        if t.startswith("std::shared_ptr<") or (e.opts.get("libvec") and t.split(",")[0] == e.opts["libvec"]):
            return None          # owning elements: libstdc++'s own code runs
    c = Ctx()
    c.e, c.st, c.name, c.dem, c.a, c.ins, c.fn, c.targs, c.sn = e, st, name, dem, args, ins, fn, targs, sn
    return f(c)


def params(dem):
    """top-level parameter type strings of a demangled signature"""
    d = 0
    i = len(dem) - 1
    while i >= 0 and dem[i] != ')':
        i -= 1
    j = i
    while j >= 0:
        if dem[j] == ')':
            d += 1
        elif dem[j] == '(':
            d -= 1
            if d == 0:
                break
        j -= 1
    s = dem[j + 1:i]
    out, cur, d = [], "", 0
    for c in s:
        if c in '<({':
            d += 1
        elif c in '>)}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


# ---------------------------------------------------------------- LLVM intrinsics
def m_memcpy(c):
    c.e.memcpy(c.st, c.a[0], c.a[1], c.a[2])
    return ok(c.st, c.a[0])


def m_memset(c):
    e, st = c.e, c.st
    n = simp(c.a[2])
    v = simp(c.a[1])
    if isz(n) or isz(v) or v != 0 and n > 4096:
        raise Unsupported("memset")
    if n == 0:
        return ok(st, c.a[0])
    p, r = e.norm(st, c.a[0])
    if v != 0:
        for i in range(n):
            e.storetag(st, p.at(i), 'i8', v)
        return ok(st, p)
    if r.kind != 'flat':
        raise Unsupported("memset on container data")
    w = st.wreg(p.rid)
    for o in [o for o in w.ov if p.off <= o < p.off + n]:
        del w.ov[o]
    w.ranges = w.ranges + ((p.off, p.off + n, 'zero', 0),)
    return ok(st, p)


PREFIX += [("llvm.memcpy", m_memcpy), ("llvm.memmove", m_memcpy), ("llvm.memset", m_memset)]
PREFIX += [("llvm.is.constant", lambda c: ok(c.st, False))]
TABLE["memcpy"] = TABLE["memmove"] = m_memcpy
TABLE["memset"] = m_memset


def byte_at(c, p):
    """a character of known value"""
    p, r = c.e.norm(c.st, p)
    c.e.check_access(c.st, p, r, 1)
    v = c.e.loadtag(c.st, p, r, 'i8')
    if isz(v):
        v = simp(v)
    if not isinstance(v, int):
        raise Unsupported("character of unknown value")
    return v & 255


@reg("strlen")
def m_strlen(c):
    n = 0
    while byte_at(c, c.a[0].at(n)):
        n += 1
        if n > 100000:
            raise Unsupported("strlen")
    return ok(c.st, n)


@reg("strcmp")
def m_strcmp(c):
    i = 0
    while True:
        a, b = byte_at(c, c.a[0].at(i)), byte_at(c, c.a[1].at(i))
        if a != b:
            return ok(c.st, -1 if a < b else 1)
        if a == 0:
            return ok(c.st, 0)
        i += 1


@reg("memchr")
def m_memchr(c):
    n, v = simp(c.a[2]), simp(c.a[1])
    if isz(n) or isz(v):
        raise Unsupported("memchr")
    for i in range(n):
        if byte_at(c, c.a[0].at(i)) == v & 255:
            return ok(c.st, c.a[0].at(i))
    return ok(c.st, NULL)


@reg("memcmp", "bcmp")
def m_memcmp(c):
    e, st = c.e, c.st
    n = simp(c.a[2])
    if isz(n):
        raise Unsupported("memcmp of symbolic size")
    if n == 0:
        return ok(st, 0)
    p, rp = e.norm(st, c.a[0])
    q, rq = e.norm(st, c.a[1])
    if e.opts.get("strings") == "real" and rp.kind == 'flat' and rq.kind == 'flat':
        for i in range(n):
            a, b = byte_at(c, p.at(i)), byte_at(c, q.at(i))
            if a != b:
                return ok(st, -1 if a < b else 1)
        return ok(st, 0)
    offs = {}
    for r, x in ((rp, p), (rq, q)):
        if r.kind != 'flat':
            raise Unsupported("memcmp on container data")
        for o, (v, t) in r.ov.items():
            if x.off <= o < x.off + n:
                offs[o - x.off] = t
    import engine
    if sum(engine.tagsize(t) for t in offs.values()) != n:
        raise Unsupported("memcmp with unknown layout")
    eq = []
    for o, t in offs.items():
        u = e.loadtag(st, p.at(o), rp, t)
        v = e.loadtag(st, q.at(o), rq, t)
        if t[0] != 'i':
            raise Unsupported("memcmp of non-integers")
        eq.append(cmpi('eq', u, v) if t != 'i1' else zbool(u) == zbool(v))
    return ok(st, ite(And(*eq), 0, 1))


def m_nop0(c):
    return ok(c.st, c.a[0] if c.a else None)


def m_void(c):
    return ok(c.st, None)


PREFIX += [("llvm.stackrestore", m_void), ("llvm.stacksave", lambda c: ok(c.st, NULL)), ("llvm.assume", m_void),
           ("llvm.type.test", lambda c: ok(c.st, True)), ("llvm.public.type.test", lambda c: ok(c.st, True)),
           ("llvm.expect", m_nop0), ("llvm.launder", m_nop0)]


@reg("llvm.eh.typeid.for")
def m_typeid(c):
    return ok(c.st, c.e.tyid(c.a[0].rid[1:]))


TABLE["llvm.eh.typeid.for.p0"] = m_typeid


def m_umulov(c):
    return ok(c.st, (imul(c.a[0], c.a[1]), False))


PREFIX += [("llvm.umul.with.overflow", m_umulov)]


# ---------------------------------------------------------------- runtime
@reg("__assert_fail")
def m_assert_fail_opt(c):
    if c.e.opts.get('abort'):       # the driver's contract covers only calls that return
        raise PathDead()
    return m_assert(c)


def m_assert(c):
    e, st = c.e, c.st
    e.oblige(st, "assertion in the code holds", False, 'assert', e.curwhere())
    raise PathDead()


@reg("abort", "exit", "std::terminate", "__clang_call_terminate", "std::__throw_bad_alloc", "llvm.trap")
def m_abort(c):
    c.e.oblige(c.st, "abnormal termination unreachable", False, 'assert', c.e.curwhere())
    raise PathDead()


@reg("__cxa_allocate_exception")
def m_allocexc(c):
    return ok(c.st, Ptr(c.e.new_region(c.st, 'flat', 'exc', ('undef',), 0, None)))


@reg("__cxa_throw")
def m_throw(c):
    return throw(c.st, c.a[1].rid[1:], c.a[0])


def m_thrower(ti):
    return lambda c: throw(c.st, ti)


for _n, _t in (("std::__throw_out_of_range", "_ZTISt12out_of_range"), ("std::__throw_out_of_range_fmt", "_ZTISt12out_of_range"),
               ("std::__throw_length_error", "_ZTISt12length_error"), ("std::__throw_logic_error", "_ZTISt11logic_error"),
               ("std::__throw_invalid_argument", "_ZTISt16invalid_argument"), ("__cxa_throw_bad_array_new_length", "_ZTISt9bad_alloc"),
               ("__cxa_bad_cast", "_ZTISt8bad_cast"), ("std::__throw_runtime_error", "_ZTISt13runtime_error")):
    TABLE[_n] = m_thrower(_t)


@reg("__cxa_begin_catch")
def m_begincatch(c):
    return ok(c.st, c.a[0])


TABLE["__cxa_get_exception_ptr"] = m_begincatch
for _n in ("__cxa_end_catch", "__cxa_free_exception", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit"):
    TABLE[_n] = m_void


@reg("__cxa_rethrow")
def m_rethrow(c):
    return throw(c.st, 'any', NULL)


@reg("__cxa_guard_acquire")
def m_guard(c):
    return ok(c.st, 1)


@reg("operator new", "operator new[]", "_Znwm", "_Znam")
def m_new(c):
    n = simp(c.a[0])
    return ok(c.st, Ptr(c.e.new_region(c.st, 'flat', 'new', ('undef',), 0, n if conc(n) else None)))


def m_delete(c):
    e, st = c.e, c.st
    p = c.a[0]
    if not isinstance(p, Ptr) or p.rid is None:
        return ok(st)
    r = st.mem.get(p.rid)
    if r is None or r.kind != 'flat' or r.ndim:
        return ok(st)
    if r.freed:
        e.oblige(st, "memory is released once", False, 'memory', e.curwhere())
        raise PathDead()
    if isz(p.off) or p.off != 0 or r.name.split('#')[0] != 'new':
        e.oblige(st, "released memory was allocated", False, 'memory', e.curwhere())
        raise PathDead()
    st.wreg(p.rid).freed = True
    return ok(st)


for _n in ("operator delete", "operator delete[]", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
    TABLE[_n] = m_delete
PREFIX += [("std::exception::", m_void), ("std::logic_error::", m_void), ("std::runtime_error::", m_void), ("std::out_of_range::", m_void),
           ("std::invalid_argument::", m_void), ("std::bad_alloc", m_void), ("std::length_error::", m_void)]

# shared_ptr: libstdc++'s own code runs, with plain (single-threaded) counters
def m_exch_add(c):
    e, st = c.e, c.st
    p, d = c.a[0], c.a[1]
    q, r = e.norm(st, p)
    v = e.loadtag(st, q, r, 'i32')
    e.storetag(st, q, 'i32', iadd(v, d))
    return ok(st, v)


for _n in ("__gnu_cxx::__exchange_and_add_dispatch", "__gnu_cxx::__exchange_and_add", "__gnu_cxx::__exchange_and_add_single",
           "__gnu_cxx::__atomic_add_dispatch", "__gnu_cxx::__atomic_add", "__gnu_cxx::__atomic_add_single"):
    TABLE[_n] = m_exch_add


@reg("__gthread_active_p", "__gnu_cxx::__is_single_threaded", "std::__is_single_threaded")
def m_gthread(c):
    return ok(c.st, c.ins.ty.bits == 1 and c.sn.endswith("single_threaded") if c.ins.ty.k == 'int' else False)


@reg("std::_Sp_counted_base::_M_add_ref_lock_nothrow")
def m_lock(c):
    e, st = c.e, c.st
    q, r = e.norm(st, c.a[0].at(8))
    v = simp(e.loadtag(st, q, r, 'i32'))
    if isz(v):
        raise Unsupported("symbolic use count")
    if v == 0:
        return ok(st, False)
    e.storetag(st, q, 'i32', v + 1)
    return ok(st, True)


@reg("std::_Sp_counted_base::_M_get_use_count")
def m_usecount(c):
    e, st = c.e, c.st
    q, r = e.norm(st, c.a[0].at(8))
    return ok(st, e.loadtag(st, q, r, 'i32'))


@reg("std::_Sp_counted_base::_M_add_ref_lock")
def m_lock_throw(c):
    e, st = c.e, c.st
    q, r = e.norm(st, c.a[0].at(8))
    v = simp(e.loadtag(st, q, r, 'i32'))
    if isz(v):
        raise Unsupported("symbolic use count")
    if v == 0:
        return throw(st, "_ZTISt12bad_weak_ptr")
    e.storetag(st, q, 'i32', v + 1)
    return ok(st)


@reg("std::_Sp_counted_base::_M_release")
def m_release(c):
    e, st = c.e, c.st
    q, r = e.norm(st, c.a[0].at(8))
    v = simp(e.loadtag(st, q, r, 'i32'))
    if isz(v):
        raise Unsupported("symbolic use count")
    e.storetag(st, q, 'i32', v - 1)
    if v != 1:
        return ok(st)
    outs = vcall(e, st, c.a[0], 2, [c.a[0]], c.ins)       # _M_dispose
    res = []
    for o in outs:
        q, r = e.norm(o.st, c.a[0].at(12))
        w = simp(e.loadtag(o.st, q, r, 'i32'))
        e.storetag(o.st, q, 'i32', w - 1)
        res.append(Outcome(o.st, None, o.exc))
    return res


@reg("std::_Sp_counted_base::_M_weak_release")
def m_weak_release(c):
    e, st = c.e, c.st
    q, r = e.norm(st, c.a[0].at(12))
    v = simp(e.loadtag(st, q, r, 'i32'))
    if isz(v):
        raise Unsupported("symbolic weak count")
    e.storetag(st, q, 'i32', v - 1)
    return ok(st)


TABLE["std::__throw_bad_weak_ptr"] = m_thrower("_ZTISt12bad_weak_ptr")
PREFIX += [("std::bad_weak_ptr::", m_void), ("std::bad_cast::", m_void), ("std::bad_alloc::", m_void)]


# ---------------------------------------------------------------- run-time types
def vptr(e, st, p):
    q, r = e.norm(st, p)
    v = e.loadtag(st, q, r, 'p')
    if not isinstance(v, Ptr) or not isinstance(v.rid, str) or not v.rid.startswith('@'):
        raise Unsupported("object of unknown dynamic type")
    return v


def vcall(e, st, p, slot, args, ins):
    v = vptr(e, st, p)
    q, r = e.norm(st, v.at(8 * slot))
    f = e.loadtag(st, q, r, 'p')
    if not isinstance(f, FnPtr):
        raise Unsupported("virtual call of unknown function")
    return e.call(st, f.name, args, ins)


def subobjects(e, st, p, ti, seen):
    """[(pointer, type_info)] of the object of type ti at p and all its bases"""
    if (p.key() if hasattr(p, 'key') else p, ti) in seen:
        return
    seen[(p.key(), ti)] = p
    i, _, _ = e.m.ginit(ti)
    if i is None or i.k != 'agg':
        raise Unsupported("type_info of " + ti)
    n = len(i.ops)
    if n == 3:
        subobjects(e, st, p, i.ops[2].v, seen)
    elif n > 4:
        for k in range(4, n, 2):
            fl = i.ops[k + 1].v
            off = fl >> 8
            if fl & 1:
                v = vptr(e, st, p)
                q, r = e.norm(st, v.at(off))
                off = e.loadtag(st, q, r, 'i64')
            subobjects(e, st, p.at(off), i.ops[k].v, seen)


def dyninfo(e, st, p):
    """(complete object, type_info global of its dynamic type)"""
    v = vptr(e, st, p)
    q, r = e.norm(st, v.at(-8))
    ti = e.loadtag(st, q, r, 'p')
    q, r = e.norm(st, v.at(-16))
    top = e.loadtag(st, q, r, 'i64')
    return p.at(top), ti.rid[1:]


@reg("__dynamic_cast")
def m_dyncast(c):
    e, st, p = c.e, c.st, c.a[0]
    if isinstance(p, Ptr) and p.rid is None:
        return ok(st, NULL)
    obj, ti = dyninfo(e, st, p)
    dst = c.a[2].rid[1:]
    seen = {}
    subobjects(e, st, obj, ti, seen)
    hits = [q for (k, t), q in seen.items() if t == dst]
    return ok(st, hits[0] if len(hits) == 1 else NULL)


@reg("std::type_info::operator==")
def m_tieq(c):
    return ok(c.st, c.a[0] == c.a[1])


@reg("std::type_info::operator!=")
def m_tine(c):
    return ok(c.st, not (c.a[0] == c.a[1]))


# ---------------------------------------------------------------- libm
def real_args(c):
    return c.a


def fact_once(st, t):
    for x, _ in st.pc:
        if x is t or x.eq(t):
            return
    st.add(t)


@reg("llvm.ctlz.i64", "llvm.ctlz.i32")
def m_ctlz(c):
    x, n = c.a[0], 64 if c.name.endswith('64') else 32
    if not conc(x):
        raise Unsupported("leading zeros of a symbolic number")
    return ok(c.st, n - (x % (1 << n)).bit_length())


@reg("sqrt", "std::sqrt", "llvm.sqrt.f64")
def m_sqrt(c):
    e, st, x = c.e, c.st, c.a[0]
    if e.mode != 'real':
        return ok(st, z3.fpSqrt(z3.RNE(), x))
    if conc(x) and x >= 0:
        from math import isqrt
        a, b = isqrt(x.numerator if isinstance(x, Fraction) else x), isqrt(Fraction(x).denominator)
        if Fraction(a * a, b * b) == x:
            return ok(st, Fraction(a, b))
    f = e.uf('sqrt_', REAL, REAL)
    t = z3.simplify(e.dom.z(x), som=True)
    y = f(t)
    st.add(z3.Implies(t >= 0, z3.And(y >= 0, y * y == t)))
    return ok(st, y)


@reg("cabs", "hypot", "std::hypot")
def m_cabs(c):
    """sqrt(x^2 + y^2), null exactly when both are"""
    e, st = c.e, c.st
    if e.mode != 'real':
        raise Unsupported("modulus in fp mode")
    x, y = c.a[0], c.a[1]
    if conc(x) and conc(y) and 0 in (x, y):
        return ok(st, abs(x + y))
    x, y = z3.simplify(e.dom.z(x)), z3.simplify(e.dom.z(y))
    r = e.uf('cabs_', REAL, REAL, REAL)(x, y)
    fact_once(st, z3.And(r >= 0, r * r == x * x + y * y, (r == 0) == z3.And(x == 0, y == 0)))
    return ok(st, r)


@reg("sin", "cos", "std::sin", "std::cos", "llvm.sin.f64", "llvm.cos.f64")
def m_sincos(c):
    e, st, x = c.e, c.st, c.a[0]
    if e.mode != 'real':
        raise Unsupported("trigonometry in fp mode")
    issin = 'sin' in c.sn
    return ok(st, sincos(e, st, x, issin))


def sincos(e, st, x, issin):
    x = lit(z3.simplify(x)) if isz(x) else x
    if conc(x):
        # the doubles nearest to multiples of pi/2 stand for them
        import math
        q = round(float(x) / (math.pi / 2))
        if abs(q) <= 64 and abs(float(x) - q * (math.pi / 2)) < 1e-13:
            return Fraction((0, 1, 0, -1)[(q if issin else q + 1) % 4])
    elif z3.is_app_of(x, z3.Z3_OP_ITE):
        return ite(x.arg(0), sincos(e, st, x.arg(1), issin), sincos(e, st, x.arg(2), issin))
    s, k = e.uf('sin_', REAL, REAL), e.uf('cos_', REAL, REAL)
    x = e.dom.z(x)
    # the sine is odd, the cosine even
    y = z3.simplify(x, som=True)
    neg = z3.is_mul(y) and z3.is_rational_value(y.arg(0)) and lit(y.arg(0)) < 0
    if neg:
        x = z3.simplify(-y, som=True)
    elif z3.is_mul(y):
        x = y
    fact_once(st, s(x) * s(x) + k(x) * k(x) == 1)
    return (-s(x) if neg else s(x)) if issin else k(x)


@reg("fabs", "std::fabs", "std::abs", "abs", "llvm.fabs.f64", "llvm.abs.i32", "llvm.abs.i64", "labs")
def m_abs(c):
    e, x = c.e, c.a[0]
    if isinstance(x, Ptr):
        return None              # of a complex number: the library's own code runs
    if c.ins.ty.k == 'int':
        if conc(x):
            return ok(c.st, abs(x))
        return ok(c.st, z3.If(x >= 0, x, -x))
    return ok(c.st, e.dom.fabs(x))


@reg("floor", "std::floor", "llvm.floor.f64")
def m_floor(c):
    if c.e.mode != 'real':
        return ok(c.st, c.e.dom.floor(c.a[0]))
    return ok(c.st, c.e.dom.from_int(int_floor(c.e, c.st, c.a[0])))


def int_floor(e, st, x):
    """greatest integer not above x (an Int term constrained by its defining inequality)"""
    import math
    if conc(x):
        return math.floor(x)
    x = lit(z3.simplify(x))
    if conc(x):
        return math.floor(x)
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return ite(x.arg(0), int_floor(e, st, lit(x.arg(1))), int_floor(e, st, lit(x.arg(2))))
    if z3.is_app_of(x, z3.Z3_OP_UMINUS) or z3.is_mul(x) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and lit(x.arg(0)) == -1:
        y = x.arg(0) if x.num_args() == 1 else x.arg(1)
        if z3.is_app_of(y, z3.Z3_OP_TO_REAL):
            return -y.arg(0)
    if z3.is_add(x):
        # integral summands move out
        ints, rest = [], []
        for t in x.children():
            l = lit(t)
            if conc(l) and l.denominator == 1:
                ints.append(z3.IntVal(int(l)))
            elif z3.is_app_of(t, z3.Z3_OP_TO_REAL):
                ints.append(t.arg(0))
            elif z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and lit(t.arg(0)) == -1 and z3.is_app_of(t.arg(1), z3.Z3_OP_TO_REAL):
                ints.append(-t.arg(1).arg(0))
            else:
                rest.append(t)
        if ints:
            if not rest:
                return lit(z3.simplify(z3.Sum(*ints)))
            return iadd(int_floor(e, st, lit(z3.simplify(z3.Sum(*rest)))), lit(z3.simplify(z3.Sum(*ints))))
    f = e.uf('floor', REAL, INT)(x)
    fact_once(st, z3.And(z3.ToReal(f) <= x, x < z3.ToReal(f) + 1))
    return f


@reg("ceil", "std::ceil", "llvm.ceil.f64")
def m_ceil(c):
    if c.e.mode != 'real':
        return ok(c.st, c.e.dom.ceil(c.a[0]))
    f = int_floor(c.e, c.st, c.e.dom.neg(c.a[0]))
    return ok(c.st, c.e.dom.from_int(-f))


@reg("round", "std::round", "llvm.round.f64")
def m_round(c):
    e, x = c.e, c.a[0]
    if e.mode != 'real':
        return ok(c.st, z3.fpRoundToIntegral(z3.RNA(), x))
    h = Fraction(1, 2)
    if conc(x):
        import math
        return ok(c.st, Fraction(math.floor(x + h)) if x >= 0 else -Fraction(math.floor(-x + h)))
    return ok(c.st, z3.If(x >= 0, z3.ToReal(zint(int_floor(e, c.st, x + z3.RealVal(h)))), -z3.ToReal(zint(int_floor(e, c.st, -x + z3.RealVal(h))))))


@reg("trunc", "std::trunc", "llvm.trunc.f64")
def m_trunc(c):
    e, x = c.e, c.a[0]
    return ok(c.st, e.dom.from_int(e.to_int(c.st, x)))


@reg("pow", "std::pow", "llvm.pow.f64")
def m_pow(c):
    e, st, x = c.e, c.st, c.a[0]
    y = c.a[1] if len(c.a) > 1 else None
    if y is not None and not isinstance(y, (Fraction,)) and conc(y):
        y = Fraction(y)
    if y is not None and isz(y) and z3.is_int(y):
        y = z3.ToReal(y)
    if e.mode == 'real' and isinstance(y, Fraction) and y.denominator == 1 and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)):
            r = e.dom.bin('fmul', r, x)
        return ok(st, r)
    if e.mode == 'real' and isinstance(y, Fraction) and y == Fraction(1, 2):
        c.a = [x]
        return m_sqrt(c)
    f = e.uf('pow_', REAL, REAL, REAL)
    return ok(st, f(e.dom.z(x), e.dom.z(y)))


def m_uf(c):
    e, st = c.e, c.st
    if e.mode != 'real':
        raise Unsupported(c.sn + " in fp mode")
    if 'complex' in c.dem:
        return None              # of a complex number: the library's own code runs
    n = c.sn.split("::")[-1]
    if n.startswith('llvm.'):
        n = n.split('.')[1]
    f = e.uf(n + '_', *([REAL] * (len(c.a) + 1)))
    a = [z3.simplify(e.dom.z(x)) for x in c.a]
    y = f(*a)
    if n == 'exp':
        if conc(lit(a[0])) and lit(a[0]) == 0:
            return ok(st, Fraction(1))
        fact_once(st, z3.And(y > 0, z3.Implies(a[0] == 0, y == 1), z3.Implies(a[0] < 0, y < 1), z3.Implies(a[0] > 0, y > 1)))
    if n in ('log', 'log10'):
        fact_once(st, z3.And(z3.Implies(a[0] == 1, y == 0), z3.Implies(a[0] > 1, y > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), y < 0)))
    if n == 'acos' and conc(lit(a[0])) and lit(a[0]) in (-1, 0, 1):
        import math
        return ok(st, Fraction(math.acos(float(lit(a[0])))))
    if n == 'acos':
        # principal value: cos(acos(x)) = x on [-1,1]
        k, s = e.uf('cos_', REAL, REAL), e.uf('sin_', REAL, REAL)
        x = a[0]
        fact_once(st, z3.Implies(z3.And(x >= -1, x <= 1), z3.And(k(y) == x, s(y) >= 0, s(y) * s(y) + k(y) * k(y) == 1, y >= 0)))
    if n == 'atan2':
        k, s = e.uf('cos_', REAL, REAL), e.uf('sin_', REAL, REAL)
        r = e.uf('hypot_', REAL, REAL, REAL)(a[0], a[1])
        fact_once(st, z3.And(r >= 0, r * r == a[0] * a[0] + a[1] * a[1], r * s(y) == a[0], r * k(y) == a[1],
                             s(y) * s(y) + k(y) * k(y) == 1))
    return ok(st, y)


@reg("cexp")
def m_cexp(c):
    # e^(x + iy) = e^x (cos y + i sin y)
    e, st = c.e, c.st
    def one(f, v):
        d = Ctx()
        d.e, d.st, d.name, d.dem, d.a, d.ins, d.fn, d.targs, d.sn = e, st, f, f, [v], c.ins, c.fn, c.targs, f
        return TABLE[f](d)[0].ret
    m, k, s = one("exp", c.a[0]), one("cos", c.a[1]), one("sin", c.a[1])
    return ok(st, (e.dom.bin('fmul', m, k), e.dom.bin('fmul', m, s)))


for _n in ("exp", "log", "acos", "asin", "atan", "atan2", "tan", "log10", "fmod", "sinh", "cosh", "tanh"):
    TABLE[_n] = TABLE["std::" + _n] = TABLE["llvm.%s.f64" % _n] = m_uf


@reg("fmin", "fmax", "std::fmin", "std::fmax", "llvm.minnum.f64", "llvm.maxnum.f64")
def m_fminmax(c):
    a, b = c.a
    lt = c.e.dom.cmp('olt', a, b)
    mx = 'max' in c.sn
    return ok(c.st, ite(simp(lt), b if mx else a, a if mx else b))


@reg("std::isnan", "__isnan", "isnan", "std::isinf")
def m_isnan(c):
    if c.e.mode == 'real':
        v = False
    else:
        v = z3.fpIsNaN(c.a[0]) if 'nan' in c.sn else z3.fpIsInf(c.a[0])
    return ok(c.st, v if c.ins.ty.bits == 1 else b2i(v))


def m_fpclass(c):
    if c.e.mode == 'real':
        return ok(c.st, False)
    raise Unsupported("fpclass")


PREFIX += [("llvm.is.fpclass", m_fpclass)]


def tagbytes(tag):
    return 4 if tag == 'i32' else 8


@reg("std::max", "std::min")
def m_minmax(c):
    """std::min/max on scalars: a fresh temporary holds the selected value"""
    e, st = c.e, c.st
    if len(c.a) != 2 or not c.targs:
        return None
    t = c.targs[-1]
    tag = {'double': 'd', 'int': 'i32', 'unsigned long': 'i64', 'unsigned int': 'i32', 'long': 'i64'}.get(t)
    if tag is None:
        return None
    p, r = e.norm(st, c.a[0])
    q, s = e.norm(st, c.a[1])
    e.check_access(st, p, r, tagbytes(tag))
    e.check_access(st, q, s, tagbytes(tag))
    a = e.loadtag(st, p, st.mem[p.rid], tag)
    b = e.loadtag(st, q, st.mem[q.rid], tag)
    x, y = (a, b) if c.sn == 'std::max' else (b, a)
    if tag == 'd':
        lt = e.dom.cmp('olt', x, y)
    else:
        lt = cmpi('ult' if t.startswith('unsigned') else 'slt', x, y, 64 if tag == 'i64' else 32)
    # max(a,b) = a<b ? b : a ; min(a,b) = b<a ? b : a
    lt = simp(lt)
    if conc(lt):
        return ok(st, q if lt else p)
    rid = e.new_region(st, 'flat', 'minmax', ('undef',), 0, 8)
    st.mem[rid].ov[0] = (ite(lt, b, a), tag)
    return ok(st, Ptr(rid))


# ---------------------------------------------------------------- strings: uninterpreted identities
def str_lit(e, st, p):
    """identity of a C string"""
    if isinstance(p, Ptr) and p.rid and p.rid.startswith('@') and p.off == 0:
        i, isc, _ = e.m.ginit(p.rid[1:])
        if i is not None and isc:
            if i.k == 'zero':
                return 0
            s = "".join(chr(o.v & 255) for o in i.ops)[:-1]
            return str_code(e, s)
    if isinstance(p, Ptr) and p.rid and p.rid.startswith('cstr'):
        return st.mem[p.rid].x
    raise Unsupported("C string of unknown content")


def str_code(e, s):
    if s == "":
        return 0
    d = e.__dict__.setdefault('strs', {})
    if s not in d:
        d[s] = len(d) + 1
    return d[s]


def str_get(e, st, p):
    p, r = e.norm(st, p)
    if r.kind == 'cvec' or r.ndim:
        v = e.loadtag(st, p, r, 'str')
        return v
    v, t = e.leaf_read(st, p.rid, p.off, 'str')
    return v


def str_put(e, st, p, v):
    p, r = e.norm(st, p)
    e.storetag(st, p, 'str', v)


@reg("std::__cxx11::basic_string::basic_string")
def m_str_ctor(c):
    e, st = c.e, c.st
    ps = params(c.dem)
    if not ps or ps == ['std::allocator<char> const&']:
        v = 0
    elif ps[0].startswith('std::__cxx11::basic_string') or ps[0].startswith('std::string'):
        v = str_get(e, st, c.a[1])
        if len(ps) > 1 and 'allocator' not in ps[1]:
            raise Unsupported("substring construction")
        if ps[0].endswith('&&'):
            str_put(e, st, c.a[1], 0)
    elif ps[0] == 'char const*' and (len(ps) == 1 or 'allocator' in ps[1]):
        v = str_lit(e, st, c.a[1])
    else:
        raise Unsupported("string constructor " + str(ps))
    str_put(e, st, c.a[0], v)
    return ok(st)


@reg("std::__cxx11::basic_string::operator=", "std::__cxx11::basic_string::assign")
def m_str_assign(c):
    e, st = c.e, c.st
    ps = params(c.dem)
    v = str_lit(e, st, c.a[1]) if ps[0].startswith('char const*') else str_get(e, st, c.a[1])
    str_put(e, st, c.a[0], v)
    return ok(st, c.a[0])


@reg("std::__cxx11::basic_string::~basic_string")
def m_str_dtor(c):
    return ok(c.st)


def str_cat(e, a, b):
    if conc(a) and a == 0:
        return b
    if conc(b) and b == 0:
        return a
    return e.uf('strcat', INT, INT, INT)(zint(a), zint(b))


def str_any(c, j):
    e, st = c.e, c.st
    ps = params(c.dem)
    if 'char const*' in ps[j]:
        return str_lit(e, st, c.a[j])
    return str_get(e, st, c.a[j])


@reg("std::operator+")
def m_str_plus(c):
    e, st = c.e, c.st
    if 'basic_string' not in c.dem:
        return None
    ps = params(c.dem)
    if len(c.a) != 3:
        raise Unsupported("string +")
    r = []
    for p, a in zip(ps, c.a[1:]):
        if p.startswith('char const*'):
            r.append(str_lit(e, st, a))
        elif p == 'char':
            r.append(str_code(e, chr(a)) if conc(a) else zint(a) + 1000)
        else:
            r.append(str_get(e, st, a))
    str_put(e, st, c.a[0], str_cat(e, *r))
    return ok(st)


@reg("std::__cxx11::basic_string::operator+=", "std::__cxx11::basic_string::append")
def m_str_append(c):
    ps = params(c.dem)
    if len(ps) != 1 or not (is_str(ps[0]) or ps[0].startswith('char const*')):
        raise Unsupported("string append")
    v = str_get(c.e, c.st, c.a[1]) if is_str(ps[0]) else str_lit(c.e, c.st, c.a[1])
    str_put(c.e, c.st, c.a[0], str_cat(c.e, str_get(c.e, c.st, c.a[0]), v))
    return ok(c.st, c.a[0])


@reg("std::operator==", "std::operator!=")
def m_str_eq(c):
    e, st = c.e, c.st
    ps = params(c.dem)
    if len(ps) == 2 and any(is_str(p) for p in ps):
        v = [str_lit(e, st, a) if 'char const*' in p else str_get(e, st, a) for p, a in zip(ps, c.a)]
        r = cmpi('eq', v[0], v[1])
        return ok(st, r if c.sn.endswith('==') else Not(r))
    if ps and ps[0].startswith('std::vector'):
        return vec_eq(c)
    return None


def is_str(p):
    return p.startswith(('std::__cxx11::basic_string<', 'std::string'))


@reg("std::operator@lt")
def m_str_lt(c):
    ps = params(c.dem)
    if not any(is_str(p) for p in ps):
        return None
    v = [str_lit(c.e, c.st, a) if 'char const*' in p else str_get(c.e, c.st, a) for p, a in zip(ps, c.a)]
    return ok(c.st, str_less(c, *v))


def str_less(c, a, b):
    """order of two string identities: the characters decide between literals; any total order between unknown strings (ranks, injective on what is compared)"""
    if conc(a) and conc(b):
        t = {v: k for k, v in c.e.__dict__.get('strs', {}).items()}
        t[0] = ""
        return 1 if t[a] < t[b] else 0
    rank = c.e.uf('strrank', INT, REAL)
    ra, rb = rank(zint(a)), rank(zint(b))
    c.st.add((ra == rb) == (zint(a) == zint(b)), 'f')
    return ra < rb


@reg("std::__cxx11::basic_string::empty")
def m_str_empty(c):
    return ok(c.st, cmpi('eq', str_get(c.e, c.st, c.a[0]), 0))


@reg("std::__cxx11::basic_string::compare")
def m_str_compare(c):
    e, st = c.e, c.st
    ps = params(c.dem)
    if len(ps) != 1:
        raise Unsupported("string compare")
    b = str_lit(e, st, c.a[1]) if 'char const*' in ps[0] else str_get(e, st, c.a[1])
    return ok(st, ite(cmpi('eq', str_get(e, st, c.a[0]), b), 0, 1))


@reg("std::__cxx11::basic_string::c_str", "std::__cxx11::basic_string::data")
def m_str_cstr(c):
    e, st = c.e, c.st
    rid = e.new_region(st, 'flat', 'cstr', ('undef',))
    st.mem[rid].x = str_get(e, st, c.a[0])
    return ok(st, Ptr(rid))


def m_str_unsup(c):
    raise Unsupported("string operation " + c.sn)


PREFIX += [("std::__cxx11::basic_string::", m_str_unsup)]
PREFIX += [("std::allocator::", m_void), ("__gnu_cxx::new_allocator::~", m_void), ("std::__new_allocator::~", m_void)]


# iostream is output only; dropped
def m_stream(c):
    return ok(c.st, c.a[0] if c.a else None)


for _n in ("std::operator@shl", "std::basic_ostream::operator@shl", "std::ostream::operator@shl", "std::endl", "std::ostream::flush",
           "std::ostream::_M_insert"):
    TABLE[_n] = m_stream
PREFIX += [("std::ios_base::Init::", m_void)]
for _k in ("stringstream", "ostringstream"):
    for _n in ("basic_" + _k, "~basic_" + _k):
        TABLE["std::__cxx11::basic_%s::%s" % (_k, _n)] = m_void


@reg("std::__cxx11::basic_stringstream::str", "std::__cxx11::basic_ostringstream::str")
def m_ss_str(c):
    """text written to a stream: unknown"""
    if len(c.a) != 2 or params(c.dem):
        raise Unsupported("stringstream::str")
    v = z3.Int("text!%d" % next(c.e.cnt))
    c.st.add(v >= 0)
    str_put(c.e, c.st, c.a[0], v)
    return ok(c.st)


# ---------------------------------------------------------------- std::vector
def class_args(dem, cls):
    """template arguments of the class in  ret cls<args>::method<...>(...)"""
    d = 0
    i = 0
    while i < len(dem):
        ch = dem[i]
        if d == 0 and dem.startswith(cls + '<', i) and (i == 0 or dem[i - 1] in ' *&'):
            j = i + len(cls)
            k, n = j, 0
            while k < len(dem):
                if dem[k] in '<(':
                    n += 1
                elif dem[k] in '>)':
                    n -= 1
                    if n == 0:
                        break
                k += 1
            if dem.startswith('::', k + 1):
                return dem[j + 1:k]
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        i += 1
    return None


def vt(c):
    """(elem (size, Ty)) of the vector class whose method this is"""
    t = class_args(c.dem, "std::vector") or c.targs[0]
    # first template argument
    d = 0
    for i, ch in enumerate(t):
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        elif ch == ',' and d == 0:
            t = t[:i]
            break
    return t.strip(), c.e.elem(t.strip())


def scalar_ty(el):
    return el[1] is None or el[1].k in ('int', 'double', 'float', 'ptr')


def layout(el, targ=None):
    if el[1] is not None:
        return flatten(el[1])
    if targ is not None:
        m = {'double': 'd', 'float': 'd', 'int': 'i32', 'unsigned int': 'i32', 'unsigned long': 'i64', 'long': 'i64', 'char': 'i8', 'bool': 'i8'}
        if targ in m:
            return [(0, m[targ])]
        if targ.endswith('*') or targ.endswith('* const'):
            return [(0, 'p')]
    raise Unsupported("layout of vector element")


def dptr(vv, i):
    return Ptr(vv.rid, vv.idx + (i,), 0)


def vsym(e, st, vv):
    return st.mem[vv.rid].kind == 'svec'


def default_value(e, st, targ, el):
    """leaves [(off, (val, tag))] of a value-initialised element"""
    if scalar_ty(el):
        return [(o, (e.zero(t), t)) for o, t in layout(el, targ)]
    if targ.startswith('std::vector<'):
        inner = targ[len('std::vector<'):]
        # first argument
        d = 0
        for i, ch in enumerate(inner):
            if ch in '<(':
                d += 1
            elif ch in '>)':
                d -= 1
            elif ch == ',' and d == 0:
                inner = inner[:i]
                break
        return [(0, (e.vec_new(st, 'v', e.elem(inner.strip())), 'vec'))]
    last = re.sub(r'<.*', '', targ).split('::')[-1]
    f = None
    for n, fn in e.m.funcs.items():
        if fn.dem == "%s::%s()" % (targ, last) and fn.defined:
            f = n
            if 'C2' in n or 'C1' in n:
                break
    if f is None:
        if 'basic_string' in targ:
            return [(0, (0, 'str'))]
        return None
    rid = e.new_region(st, 'flat', 'dflt', ('undef',), 0, el[0])
    outs = e.call(st, f, [Ptr(rid)])
    if len(outs) != 1 or outs[0].exc or outs[0].st is not st:
        if len(outs) == 1 and not outs[0].exc:
            st.mem = outs[0].st.mem
            st.pc = outs[0].st.pc
            st.owned = set()
        else:
            raise Unsupported("default construction forks")
    return sorted(st.mem[rid].ov.items())


def elem_leaves(e, st, p, targ, el):
    """leaves of the element stored at p"""
    p, r = e.norm(st, p)
    out = []
    if scalar_ty(el):
        o, t = layout(el, targ)[0]
        e.check_access(st, p, r, el[0])
        v = e.loadtag(st, p, st.mem[p.rid], t)
        return [(0, (v, t))]
    tmp = e.new_region(st, 'flat', 'tmpel', ('undef',), 0, el[0])
    st.mem[tmp].root = None
    e.memcpy(st, Ptr(tmp), p, el[0], deep=True)
    r = st.mem[tmp]
    if r.ranges:
        for o, t in flatten(el[1]):
            if o not in r.ov:
                try:
                    e.leaf_read(st, tmp, o, t)
                except Unsupported:
                    pass
        r = st.mem[tmp]
    return sorted(r.ov.items())


def put_elem(e, st, vv, i, leaves):
    """writes an element at index i"""
    r = st.wreg(vv.rid)
    if r.kind == 'cvec' and conc(i):
        for k in [k for k in r.ov if k[0] == i]:
            del r.ov[k]
        for o, v in leaves:
            r.ov[(i, o)] = v
        return
    if r.kind == 'cvec':
        e.to_svec(st, vv.rid)
    for o, (v, t) in leaves:
        if isinstance(v, (VecVal, ModelVal)):
            raise Unsupported("container inside symbolic vector")
        e_store_s(e, st, vv.rid, o, t, i, v)


def e_store_s(e, st, rid, o, t, i, v):
    e.leaf_read(st, rid, o, t)
    w = st.wreg(rid)
    leaf, lt = w.ov[o]
    if lt == 'p':
        v = e.ptrcode(st, v)
    if isinstance(v, FnPtr) or isinstance(v, Ptr):
        raise Unsupported("pointer into symbolic vector")
    w.ov[o] = (e.nstore(leaf, (i,), v), lt)


def fill(e, st, vv, n, leaves):
    """content: n copies"""
    r = st.wreg(vv.rid)
    r.len = n
    r.ov = {}
    r.ranges = ()
    if conc(n) and n <= 64:
        r.kind = 'cvec'
        for i in range(n):
            for o, v in leaves:
                r.ov[(i, o)] = e.deepcopy(st, v)
        return
    r.kind = 'svec'
    for o, (v, t) in leaves:
        if isinstance(v, (VecVal, ModelVal)):
            raise Unsupported("vector of symbolic length of containers")
        if t == 'p' and isinstance(v, Ptr) and v.rid and v.rid.startswith('@'):
            continue     # vtable pointer: constant per type, read lazily
        s = e.sort('i64' if t in ('p', 'str') else t)
        r.ov[o] = (z3.K(INT, tosort(e.ptrcode(st, v) if t == 'p' else v, s)), t)


def split_iters(e, st, a, b):
    a, ra = e.norm(st, a)
    b, rb = e.norm(st, b)
    return a, b, ra


def vec_assign_range(c, vv, a, b, targ, el):
    """content of vv becomes [a, b)"""
    e, st = c.e, c.st
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise Unsupported("range construction from non-pointer iterators")
    if a.rid is None and b.rid is None:
        w = st.wreg(vv.rid)
        w.len, w.ov, w.kind = 0, {}, 'cvec'
        return
    if a.rid != b.rid:
        raise Unsupported("range over different objects")
    a, b, ra = split_iters(e, st, a, b)
    if ra.kind in ('svec',) and a.rid != HEAP:
        ln = st.mem[a.rid].len
        if conc(a.idx[-1]) and a.idx[-1] == 0 and same(b.idx[-1], ln) and len(a.idx) == 1:
            x = e.vec_clone(st, VecVal(a.rid))
            w = st.wreg(vv.rid)
            src = st.mem[x.rid]
            w.kind, w.ov, w.root, w.ranges, w.len = src.kind, dict(src.ov), src.root, src.ranges, src.len
            return
        n = isub(b.idx[-1], a.idx[-1])
        slice_to(e, st, vv, a, n, layout(el, targ))
        return
    n = simp(e.ptrdiff(st, b, a))
    if isz(n):
        q = e.divexact(n, el[0])
        n = e.concretize(st, q if q is not None else zint(n) / el[0], "range length") * el[0]
    n //= el[0]
    w = st.wreg(vv.rid)
    w.ov, w.len, w.kind, w.ranges = {}, n, 'cvec', ()
    for i in range(n):
        src = e.gep(st, a, _TyOf(el), [i]) if el[1] is not None else a.at(i * el[0]) if ra.kind == 'flat' else Ptr(a.rid, (iadd(a.idx[-1], i),), a.off)
        put_elem(e, st, vv, i, elem_leaves(e, st, src, targ, el))


def _TyOf(el):
    return el[1]


def slice_to(e, st, vv, a, n, lay):
    """vv := n elements starting at symbolic position a"""
    cols = []
    for o, t in lay:
        src, lt = e.leaf_read(st, a.rid, o, t)
        cols.append((o, src, lt))
    w = st.wreg(vv.rid)
    w.kind, w.ov, w.ranges, w.len = 'svec', {}, (), n
    k = z3.Int("k!%d" % next(e.cnt))
    for o, src, lt in cols:
        arr = z3.Const("slice!%d" % next(e.cnt), src.sort())
        st.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(n)), z3.Select(arr, k) == z3.Select(src, k + zint(a.idx[-1]))),
                         patterns=[z3.Select(arr, k)]))
        w.ov[o] = (arr, lt)


@reg("std::vector::vector")
def v_ctor(c):
    e, st = c.e, c.st
    targ, el = vt(c)
    ps = [p for p in params(c.dem)]
    while ps and 'allocator<' in ps[-1] and not ps[-1].startswith('std::vector') and 'initializer_list' not in ps[-1]:
        ps.pop()
    this = c.a[0]
    if not ps:
        vv = e.vec_new(st, 'v', el)
    elif ps[0].startswith('std::vector<'):
        src = e.vec_at(st, c.a[1], el)
        if ps[0].endswith('&&'):
            vv = src
            e.vec_put(st, c.a[1], e.vec_new(st, 'v', el))
        else:
            vv = e.vec_clone(st, src)
    elif ps[0].startswith('std::initializer_list'):
        vv = e.vec_new(st, 'v', el)
        b = c.a[1]
        n = simp(c.a[2])
        init_list(c, vv, b, n, targ, el)
    elif ps[0] == 'unsigned long' and len(ps) == 1:
        vv = e.vec_new(st, 'v', el)
        lv = default_value(e, st, targ, el)
        if lv is None:
            raise Unsupported("default value of " + targ)
        n = c.a[1]
        check_len(e, st, n)
        fill(e, st, vv, n, lv)
    elif ps[0] == 'unsigned long' and len(ps) == 2:
        vv = e.vec_new(st, 'v', el)
        n = c.a[1]
        check_len(e, st, n)
        fill(e, st, vv, n, elem_leaves(e, st, c.a[2], targ, el))
    elif len(ps) == 2:
        vv = e.vec_new(st, 'v', el)
        vec_assign_range(c, vv, c.a[1], c.a[2], targ, el)
    else:
        raise Unsupported("vector constructor " + str(ps))
    e.vec_put(st, this, vv)
    return ok(st)


def check_len(e, st, n):
    if isz(n):
        e.oblige(st, "container size is not negative", n >= 0, 'memory', e.curwhere())
    elif n < 0:
        e.oblige(st, "container size is not negative", False, 'memory', e.curwhere())
        raise PathDead()


def init_list(c, vv, b, n, targ, el):
    e, st = c.e, c.st
    if isz(n):
        raise Unsupported("initializer list of symbolic size")
    w = st.wreg(vv.rid)
    w.len = n
    for i in range(n):
        src = e.gep(st, b, el[1], [i]) if el[1] is not None else b.at(i * el[0])
        put_elem(e, st, vv, i, elem_leaves(e, st, src, targ, el))


@reg("std::vector::~vector", "std::_Vector_base::~_Vector_base")
def v_dtor(c):
    return ok(c.st)


def V(c):
    targ, el = vt(c)
    return c.e.vec_at(c.st, c.a[0], el), targ, el


@reg("std::vector::size")
def v_size(c):
    vv, _, _ = V(c)
    return ok(c.st, c.st.mem[vv.rid].len)


@reg("std::vector::capacity")
def v_cap(c):
    vv, _, _ = V(c)
    return ok(c.st, c.st.mem[vv.rid].len)


@reg("std::vector::max_size")
def v_maxsize(c):
    return ok(c.st, (1 << 60))


@reg("std::vector::empty")
def v_empty(c):
    vv, _, _ = V(c)
    return ok(c.st, cmpi('eq', c.st.mem[vv.rid].len, 0))


@reg("std::vector::operator[]")
def v_at(c):
    vv, targ, el = V(c)
    if targ == 'bool':           # one element per bool; the mask of the reference is unused
        if c.dem.endswith('const'):
            return ok(c.st, i2b(elem_leaves(c.e, c.st, dptr(vv, c.a[1]), targ, el)[0][1][0]))
        return ok(c.st, (dptr(vv, c.a[1]), 1))
    return ok(c.st, dptr(vv, c.a[1]))


def bitref(c, a):
    e, st = c.e, c.st
    p, r = e.norm(st, a)
    q = e.loadtag(st, p, st.mem[p.rid], 'p')
    q, r = e.norm(st, q)
    return q


@reg("std::_Bit_reference::operator bool")
def br_get(c):
    e, st = c.e, c.st
    q = bitref(c, c.a[0])
    e.check_access(st, q, st.mem[q.rid], 1)
    return ok(st, i2b(e.loadtag(st, q, st.mem[q.rid], 'i8')))


@reg("std::_Bit_reference::operator=")
def br_set(c):
    e, st = c.e, c.st
    q = bitref(c, c.a[0])
    v = c.a[1]
    if isinstance(v, Ptr):
        w = bitref(c, v)
        e.check_access(st, w, st.mem[w.rid], 1)
        v = e.loadtag(st, w, st.mem[w.rid], 'i8')
    else:
        v = b2i(v)
    e.check_access(st, q, st.mem[q.rid], 1)
    e.storetag(st, q, 'i8', v)
    return ok(st, c.a[0])


@reg("std::vector::at")
def v_at_checked(c):
    e, st = c.e, c.st
    vv, _, _ = V(c)
    i, n = c.a[1], st.mem[vv.rid].len
    inb = And(cmpi('sge', i, 0), cmpi('slt', i, n))
    if e.decide(st, inb):
        return ok(st, dptr(vv, i))
    return throw(st, "_ZTISt12out_of_range")


@reg("std::vector::front", "std::vector::begin", "std::vector::cbegin", "std::vector::data")
def v_begin(c):
    vv, _, _ = V(c)
    return ok(c.st, dptr(vv, 0))


@reg("std::vector::end", "std::vector::cend")
def v_end(c):
    vv, _, _ = V(c)
    return ok(c.st, dptr(vv, c.st.mem[vv.rid].len))


@reg("std::vector::back")
def v_back(c):
    vv, _, _ = V(c)
    return ok(c.st, dptr(vv, isub(c.st.mem[vv.rid].len, 1)))


@reg("std::vector::reserve", "std::vector::shrink_to_fit")
def v_reserve(c):
    return ok(c.st)


@reg("std::vector::clear")
def v_clear(c):
    e, st = c.e, c.st
    vv, _, el = V(c)
    e.vec_put(st, c.a[0], e.vec_new(st, 'v', el))
    return ok(st)


@reg("std::vector::push_back")
def v_push(c):
    e, st = c.e, c.st
    vv, targ, el = V(c)
    lv = [(0, (b2i(c.a[1]), 'i8'))] if targ == 'bool' else elem_leaves(e, st, c.a[1], targ, el)
    n = st.mem[vv.rid].len
    st.wreg(vv.rid).len = iadd(n, 1)
    put_elem(e, st, vv, n, lv)
    return ok(st)


@reg("std::vector::emplace_back")
def v_emplace(c):
    e, st = c.e, c.st
    vv, targ, el = V(c)
    if len(c.a) == 2 and scalar_ty(el):
        ps = params(c.dem)
        lv = elem_leaves(e, st, c.a[1], targ, el)
    elif len(c.a) == 2 and targ.split('<')[0] in params(c.dem)[0]:
        lv = elem_leaves(e, st, c.a[1], targ, el)
    else:
        raise Unsupported("emplace_back")
    n = st.mem[vv.rid].len
    st.wreg(vv.rid).len = iadd(n, 1)
    put_elem(e, st, vv, n, lv)
    return ok(st, dptr(vv, n))


@reg("std::vector::pop_back")
def v_pop(c):
    e, st = c.e, c.st
    vv, _, _ = V(c)
    n = st.mem[vv.rid].len
    e.oblige(st, "pop_back of a non-empty vector", cmpi('sgt', n, 0), 'memory', e.curwhere())
    w = st.wreg(vv.rid)
    w.len = isub(n, 1)
    if w.kind == 'cvec':
        for k in [k for k in w.ov if k[0] >= w.len]:
            del w.ov[k]
    return ok(st)


@reg("std::vector::resize")
def v_resize(c):
    e, st = c.e, c.st
    vv, targ, el = V(c)
    n = c.a[1]
    old = st.mem[vv.rid].len
    check_len(e, st, n)
    if len(c.a) > 2:
        lv = elem_leaves(e, st, c.a[2], targ, el)
    else:
        lv = default_value(e, st, targ, el)
    if conc(n) and conc(old) and st.mem[vv.rid].kind == 'cvec':
        w = st.wreg(vv.rid)
        w.len = n
        for k in [k for k in w.ov if k[0] >= n]:
            del w.ov[k]
        for i in range(old, n):
            put_elem(e, st, vv, i, [(o, e.deepcopy(st, v)) for o, v in lv])
        return ok(st)
    if conc(old) and old == 0:
        fill(e, st, vv, n, lv)
        return ok(st)
    e.to_svec(st, vv.rid, [(o, v[1]) for o, v in lv if v[1] not in ('vec', 'str', 'map')])
    k = z3.Int("k!%d" % next(e.cnt))
    for o, (v, t) in lv:
        if isinstance(v, Ptr) and v.rid is not None:
            continue
        arr, lt = e.leaf_read(st, vv.rid, o, t)
        new = z3.Const("resized!%d" % next(e.cnt), arr.sort())
        val = tosort(e.ptrcode(st, v) if t == 'p' else v, arr.sort().range())
        st.add(z3.ForAll([k], z3.And(z3.Implies(k < zint(old), z3.Select(new, k) == z3.Select(arr, k)),
                                     z3.Implies(k >= zint(old), z3.Select(new, k) == val)), patterns=[z3.Select(new, k)]))
        st.wreg(vv.rid).ov[o] = (new, lt)
    st.wreg(vv.rid).len = n
    return ok(st)


@reg("std::vector::operator=")
def v_assign_op(c):
    e, st = c.e, c.st
    targ, el = vt(c)
    ps = params(c.dem)
    if ps[0].startswith('std::initializer_list'):
        vv = e.vec_new(st, 'v', el)
        init_list(c, vv, c.a[1], simp(c.a[2]), targ, el)
    else:
        if isinstance(c.a[1], Ptr) and c.a[0] == c.a[1]:
            return ok(st, c.a[0])
        src = e.vec_at(st, c.a[1], el)
        if ps[0].endswith('&&'):
            vv = src
            e.vec_put(st, c.a[1], e.vec_new(st, 'v', el))
        else:
            vv = e.vec_clone(st, src)
    e.vec_put(st, c.a[0], vv)
    return ok(st, c.a[0])


@reg("std::vector::assign")
def v_assign(c):
    e, st = c.e, c.st
    targ, el = vt(c)
    ps = params(c.dem)
    vv = e.vec_new(st, 'v', el)
    if ps[0] == 'unsigned long':
        fill(e, st, vv, c.a[1], elem_leaves(e, st, c.a[2], targ, el))
    elif len(c.a) == 3 and not ps[0].startswith('std::initializer'):
        vec_assign_range(c, vv, c.a[1], c.a[2], targ, el)
    else:
        init_list(c, vv, c.a[1], simp(c.a[2]), targ, el)
    e.vec_put(st, c.a[0], vv)
    return ok(st)


@reg("std::vector::swap")
def v_swap(c):
    e, st = c.e, c.st
    a, b = e.vec_at(st, c.a[0]), e.vec_at(st, c.a[1])
    e.vec_put(st, c.a[0], b)
    e.vec_put(st, c.a[1], a)
    return ok(st)


@reg("std::vector::insert")
def v_insert(c):
    e, st = c.e, c.st
    vv, targ, el = V(c)
    ps = params(c.dem)
    pos, _ = e.norm(st, c.a[1])
    i = pos.idx[-1]
    if len(ps) == 2 and not ps[1].startswith('std::initializer'):
        new = [elem_leaves(e, st, c.a[2], targ, el)]
    elif len(ps) == 3 and ps[1] != 'unsigned long':
        a, b, ra = c.a[2], c.a[3], None
        if a.rid is None or a == b:
            return ok(st, pos)
        tmp = e.vec_new(st, 'ins', el)
        vec_assign_range(c, tmp, a, b, targ, el)
        rt = st.mem[tmp.rid]
        if rt.kind == 'svec':
            n = st.mem[vv.rid].len
            if not same(simp(zint(i)), simp(zint(n))):
                raise Unsupported("insert of a symbolic range in the middle")
            if conc(n) and n == 0:
                w = st.wreg(vv.rid)
                w.kind, w.ov, w.root, w.ranges, w.len = rt.kind, dict(rt.ov), rt.root, rt.ranges, rt.len
                return ok(st, dptr(vv, 0))
            append_sym(e, st, vv, tmp, layout(el, targ))
            return ok(st, dptr(vv, n))
        new = []
        for j in range(rt.len):
            new.append(sorted((o, v) for (jj, o), v in rt.ov.items() if jj == j))
    else:
        raise Unsupported("vector insert")
    n = st.mem[vv.rid].len
    r = st.mem[vv.rid]
    if r.kind == 'cvec':
        i = e.concretize(st, i, "insert position")
        w = st.wreg(vv.rid)
        m = len(new)
        w.ov = {((k + m if k >= i else k), o): v for (k, o), v in w.ov.items()}
        w.len = n + m
        for j, lv in enumerate(new):
            put_elem(e, st, vv, i + j, lv)
        return ok(st, dptr(vv, i))
    if len(new) != 1:
        for lv in new:
            pass
    m = len(new)
    atend = same(simp(zint(i)), simp(zint(n)))
    if atend:
        for j, lv in enumerate(new):
            put_elem(e, st, vv, iadd(n, j), lv)
        st.wreg(vv.rid).len = iadd(n, m)
        return ok(st, dptr(vv, i))
    k = z3.Int("k!%d" % next(e.cnt))
    for o, t in layout(el, targ):
        arr, lt = e.leaf_read(st, vv.rid, o, t)
        na = z3.Const("inserted!%d" % next(e.cnt), arr.sort())
        st.add(z3.ForAll([k], z3.And(z3.Implies(k < zint(i), z3.Select(na, k) == z3.Select(arr, k)),
                                     z3.Implies(k >= zint(i) + m, z3.Select(na, k) == z3.Select(arr, k - m))), patterns=[z3.Select(na, k)]))
        w = st.wreg(vv.rid)
        w.ov[o] = (na, lt)
    st.wreg(vv.rid).len = iadd(n, m)
    for j, lv in enumerate(new):
        for o, (v, t) in lv:
            arr, lt = st.mem[vv.rid].ov[o]
            st.add(z3.Select(arr, zint(iadd(i, j))) == tosort(e.ptrcode(st, v) if lt == 'p' else v, arr.sort().range()))
    return ok(st, dptr(vv, i))


def append_sym(e, st, vv, tmp, lay):
    n = st.mem[vv.rid].len
    m = st.mem[tmp.rid].len
    e.to_svec(st, vv.rid, lay)
    k = z3.Int("k!%d" % next(e.cnt))
    for o, t in lay:
        a, lt = e.leaf_read(st, vv.rid, o, t)
        b, _ = e.leaf_read(st, tmp.rid, o, t)
        na = z3.Const("appended!%d" % next(e.cnt), a.sort())
        st.add(z3.ForAll([k], z3.And(z3.Implies(k < zint(n), z3.Select(na, k) == z3.Select(a, k)),
                                     z3.Implies(k >= zint(n), z3.Select(na, k) == z3.Select(b, k - zint(n)))), patterns=[z3.Select(na, k)]))
        st.wreg(vv.rid).ov[o] = (na, lt)
    st.wreg(vv.rid).len = iadd(n, m)


@reg("std::vector::erase")
def v_erase(c):
    e, st = c.e, c.st
    vv, targ, el = V(c)
    ps = params(c.dem)
    a, r = e.norm(st, c.a[1])
    i = a.idx[-1]
    n = st.mem[vv.rid].len
    if len(c.a) == 3:
        b, _ = e.norm(st, c.a[2])
        m = isub(b.idx[-1], i)
    else:
        m = 1
    e.oblige(st, "erased range lies inside the vector", And(cmpi('sge', i, 0), cmpi('sge', m, 0), cmpi('sle', iadd(i, m), n)), 'memory', e.curwhere())
    if r.kind == 'cvec':
        i = e.concretize(st, i, "erase position")
        m = e.concretize(st, m, "erase count")
        w = st.wreg(vv.rid)
        w.ov = {((k - m if k >= i + m else k), o): v for (k, o), v in w.ov.items() if k < i or k >= i + m}
        w.len = n - m
        return ok(st, dptr(vv, i))
    nn = isub(n, m)
    if not same(simp(zint(iadd(i, m))), simp(zint(n))):
        k = z3.Int("k!%d" % next(e.cnt))
        for o, t in layout(el, targ):
            arr, lt = e.leaf_read(st, vv.rid, o, t)
            na = z3.Const("erased!%d" % next(e.cnt), arr.sort())
            st.add(z3.ForAll([k], z3.And(z3.Implies(k < zint(i), z3.Select(na, k) == z3.Select(arr, k)),
                                         z3.Implies(k >= zint(i), z3.Select(na, k) == z3.Select(arr, k + zint(m)))), patterns=[z3.Select(na, k)]))
            st.wreg(vv.rid).ov[o] = (na, lt)
    st.wreg(vv.rid).len = nn
    return ok(st, dptr(vv, i))


def vec_eq(c):
    e, st = c.e, c.st
    targ = params(c.dem)[0]
    a, b = e.vec_at(st, c.a[0]), e.vec_at(st, c.a[1])
    ra, rb = st.mem[a.rid], st.mem[b.rid]
    inner = re.match(r'std::vector<(double|int|unsigned long|unsigned int)[ ,]', targ)
    if not inner:
        if conc(ra.len) and conc(rb.len):
            return None         # run the library's own code
        raise Unsupported("vector comparison")
    t = {'double': 'd', 'int': 'i32', 'unsigned long': 'i64', 'unsigned int': 'i32'}[inner.group(1)]
    if conc(ra.len) and conc(rb.len):
        eq = [ra.len == rb.len]
        if eq[0]:
            for i in range(ra.len):
                x = e.loadtag(st, dptr(a, i), st.mem[a.rid], t)
                y = e.loadtag(st, dptr(b, i), st.mem[b.rid], t)
                eq.append(simp(e.dom.cmp('oeq', x, y) if t == 'd' else cmpi('eq', x, y)))
        r = And(*eq)
    else:
        e.to_svec(st, a.rid, [(0, t)])
        e.to_svec(st, b.rid, [(0, t)])
        x, _ = e.leaf_read(st, a.rid, 0, t)
        y, _ = e.leaf_read(st, b.rid, 0, t)
        k = z3.Int("k!%d" % next(e.cnt))
        r = z3.And(zint(ra.len) == zint(rb.len), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(ra.len)), z3.Select(x, k) == z3.Select(y, k))))
    return ok(st, r if '==' in c.sn else Not(r))


def v_unsup(c):
    raise Unsupported("vector operation " + c.sn + str(params(c.dem)))


PREFIX += [("std::vector::rbegin", lambda c: None), ("std::vector::rend", lambda c: None), ("std::vector::crbegin", lambda c: None),
           ("std::vector::crend", lambda c: None),
           ("std::vector::", v_unsup), ("std::_Vector_base::", v_unsup)]


# ---------------------------------------------------------------- algorithms
@reg("std::sort")
def m_sort(c):
    e, st = c.e, c.st
    a, b = c.a[0], c.a[1]
    a, ra = e.norm(st, a)
    b, rb = e.norm(st, b)
    if a.rid is None or a == b:
        return ok(st)
    if len(c.a) > 2:
        if ra.kind == 'cvec':
            return None     # run the library's own code
        raise Unsupported("sort with comparator")
    if ra.kind == 'cvec':
        i, j = e.concretize(st, a.idx[0]), e.concretize(st, b.idx[0])
        vals = []
        lt = lambda x, y: e.dom.cmp('olt', x[0], y[0]) if x[1] == 'd' else cmpi('slt', x[0], y[0])
        for k in range(i, j):
            lv = [v for (kk, o), v in st.mem[a.rid].ov.items() if kk == k]
            if len(lv) != 1 or lv[0][1] not in ('d', 'i32', 'i64'):
                return None     # run the library's own code
            vals.append(lv[0])
        # sorting network by exchange
        n = len(vals)
        for p in range(n):
            for q in range(n - 1 - p):
                x, y = vals[q], vals[q + 1]
                cnd = simp(lt(y, x))
                vals[q], vals[q + 1] = (ite(cnd, y[0], x[0]), x[1]), (ite(cnd, x[0], y[0]), x[1])
        w = st.wreg(a.rid)
        for k in range(n):
            w.ov[(i + k, 0)] = vals[k]
        return ok(st)
    if ra.kind == 'svec' and len([1 for _ in ra.ov]) <= 1:
        t = ra.ov[0][1] if 0 in ra.ov else ('d' if ra.ety is None or ra.ety.k == 'double' else tag_of(ra.ety))
        arr, lt_ = e.leaf_read(st, a.rid, 0, t)
        lo, hi = zint(a.idx[-1]), zint(b.idx[-1])
        na = z3.Const("sorted!%d" % next(e.cnt), arr.sort())
        n = next(e.cnt)
        P, Q = z3.Function("perm!%d" % n, INT, INT), z3.Function("permi!%d" % n, INT, INT)
        k, m = z3.Int("k!%d" % n), z3.Int("m!%d" % n)
        inr = lambda x: z3.And(x >= lo, x < hi)
        st.add(z3.ForAll([k, m], z3.Implies(z3.And(lo <= k, k < m, m < hi), na[k] <= na[m]), patterns=[z3.MultiPattern(na[k], na[m])]))
        st.add(z3.ForAll([k], z3.Implies(inr(k), z3.And(na[k] == arr[P(k)], inr(P(k)), Q(P(k)) == k)), patterns=[na[k]]))
        st.add(z3.ForAll([k], z3.Implies(inr(k), z3.And(arr[k] == na[Q(k)], inr(Q(k)), P(Q(k)) == k)), patterns=[arr[k]]))
        st.add(z3.ForAll([k], z3.Implies(z3.Not(inr(k)), na[k] == arr[k]), patterns=[na[k]]))
        st.wreg(a.rid).ov[0] = (na, lt_)
        return ok(st)
    raise Unsupported("sort")


@reg("std::reverse")
def m_reverse(c):
    e, st = c.e, c.st
    a, b = c.a[0], c.a[1]
    if a.rid is None or a == b:
        return ok(st)
    a, ra = e.norm(st, a)
    b, rb = e.norm(st, b)
    if a.rid != b.rid or ra.kind not in ('cvec', 'svec') or a.rid == HEAP:
        return None
    if ra.kind == 'cvec':
        i, j = e.concretize(st, a.idx[0]), e.concretize(st, b.idx[0])
        w = st.wreg(a.rid)
        w.ov = {((i + j - 1 - k if i <= k < j else k), o): v for (k, o), v in w.ov.items()}
        return ok(st)
    lo, hi = zint(a.idx[-1]), zint(b.idx[-1])
    lay = [(o, x[1]) for o, x in ra.ov.items()]
    for o, t in lay:
        arr, lt_ = e.leaf_read(st, a.rid, o, t)
        n = next(e.cnt)
        na = z3.Const("reversed!%d" % n, arr.sort())
        k = z3.Int("k!%d" % n)
        st.add(z3.ForAll([k], z3.If(z3.And(lo <= k, k < hi), na[k] == arr[lo + hi - 1 - k], na[k] == arr[k]), patterns=[na[k]]))
        st.add(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), na[lo + hi - 1 - k] == arr[k]), patterns=[arr[k]]))
        st.wreg(a.rid).ov[o] = (na, lt_)
    return ok(st)


@reg("std::find")
def m_find(c):
    e, st = c.e, c.st
    a, ra = e.norm(st, c.a[0])
    b, rb = e.norm(st, c.a[1])
    if a.rid != b.rid or ra.kind not in ('cvec', 'svec'):
        return None
    el = (ra.stride, ra.ety)
    lv = [t for t in ([ra.ety] if ra.ety is not None else [])]
    tag = tag_of(ra.ety) if ra.ety is not None and ra.ety.k in ('int', 'double', 'ptr') else None
    if tag is None:
        tag = {8: 'd', 4: 'i32'}.get(ra.stride) if 'double' in c.dem else 'i32' if 'int' in c.dem else None
    if tag is None:
        raise Unsupported("find")
    p, r = e.norm(st, c.a[2])
    val = e.loadtag(st, p, r, tag)
    eq = lambda x: simp(e.dom.cmp('oeq', x, val) if tag == 'd' else cmpi('eq', x, val))
    if ra.kind == 'cvec':
        i, j = e.concretize(st, a.idx[0]), e.concretize(st, b.idx[0])
        res = j
        for k in range(j - 1, i - 1, -1):
            res = ite(eq(e.loadtag(st, Ptr(a.rid, (k,), 0), st.mem[a.rid], tag)), k, res)
        return ok(st, Ptr(a.rid, (res,), 0))
    arr, _ = e.leaf_read(st, a.rid, 0, tag)
    n = next(e.cnt)
    r, k = z3.Int("found!%d" % n), z3.Int("k!%d" % n)
    lo, hi = zint(a.idx[-1]), zint(b.idx[-1])
    st.add(z3.And(r >= lo, r <= hi, z3.Implies(r < hi, zbool(eq(arr[r])))))
    st.add(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < r), z3.Not(zbool(eq(arr[k])))), patterns=[arr[k]]))
    return ok(st, Ptr(a.rid, (r,), 0))


# ---------------------------------------------------------------- specification intrinsics (vc.h)
def cname(e, p):
    i, _, _ = e.m.ginit(p.rid[1:])
    if i.k == 'zero':
        return ""
    return "".join(chr(o.v & 255) for o in i.ops)[:-1]


@reg("__vc_real")
def vc_real(c):
    e, st = c.e, c.st
    v = e.dom.fresh("%s!%d" % (cname(e, c.a[0]), next(e.cnt)))
    if e.mode != 'real':
        st.add(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
    elif e.opts.get('inf'):
        st.add(z3.And(v < e.dom.INFP, -e.dom.INFP < v, e.dom.INFP > 10 ** 300))
    st.nd.append(('real', v))
    return ok(st, v)


@reg("__vc_int")
def vc_int(c):
    e, st = c.e, c.st
    v = z3.Int("%s!%d" % (cname(e, c.a[0]), next(e.cnt)))
    st.add(z3.And(v >= zint(c.a[1]), v <= zint(c.a[2])))
    st.nd.append(('int', v))
    return ok(st, v)


@reg("__vc_concrete")
def vc_concrete(c):
    """one path per value"""
    return ok(c.st, c.e.concretize(c.st, c.a[0], "choice", 64))


@reg("__vc_bool")
def vc_bool(c):
    e, st = c.e, c.st
    v = z3.Bool("%s!%d" % (cname(e, c.a[0]), next(e.cnt)))
    st.nd.append(('bool', v))
    return ok(st, v)


@reg("vc::fill_vec")
def vc_fillvec(c):
    """a vector of arbitrary length and content"""
    e, st = c.e, c.st
    targ = c.targs[-1]
    el = e.elem(targ)
    nm = cname(e, c.a[1])
    rid = "%s#%d" % (nm, next(e.cnt))
    r = Reg('svec', rid, ('sym', rid), 1)
    r.stride, r.ety = el
    r.len = z3.Int(rid + ".len")
    st.mem[rid] = r
    st.add(z3.And(r.len >= 0, r.len <= (1 << 31)))
    lay = [(o, t) for o, t in layout(el, targ)]
    vec_typed = []
    for o, t in lay:
        if t == 'p':
            continue
        leaf, lt = e.leaf_read(st, rid, o, t)
        vec_typed.append((o, leaf, t))
        if t in ('i32',):
            k = z3.Int("k!%d" % next(e.cnt))
            st.add(z3.ForAll([k], z3.And(leaf[k] >= -(1 << 31), leaf[k] < (1 << 31)), patterns=[leaf[k]]))
    st.nd.append(('vec', r.len, tuple(vec_typed)))
    e.vec_put(st, c.a[0], VecVal(rid))
    return ok(st)


@reg("__vc_assume")
def vc_assume(c):
    e, st = c.e, c.st
    v = simp(i2b(c.a[0]))
    if v is False or not e.feasible(st.pc, v):
        raise PathDead()
    st.add(v)
    return ok(st)


@reg("__vc_assert")
def vc_assert(c):
    e, st = c.e, c.st
    e.oblige(st, cname(e, c.a[0]), i2b(c.a[1]), 'ensures', e.curwhere())
    return ok(st)


@reg("__vc_requires")
def vc_requires(c):
    """precondition of a stubbed callee: must hold at the call site"""
    e, st = c.e, c.st
    e.oblige(st, "precondition at call site: " + cname(e, c.a[0]), i2b(c.a[1]), 'requires', e.curwhere())
    return ok(st)


def quant(c, isall):
    e, st = c.e, c.st
    lo, hi = simp(c.a[0]), simp(c.a[1])
    fn = e.m.func(c.name)
    # the bounded evaluation body: calls f(vc::bound())
    def body(k):
        s2 = st.fork()
        n = len(s2.pc)
        s2.add(And(cmpi('sge', k, lo), cmpi('slt', k, hi)), 'b')
        e.bvstack.append(k)
        e.spec += 1
        try:
            outs = e.inline(s2, c.name, c.a)
        finally:
            e.spec -= 1
            e.bvstack.pop()
        # disjunction over paths
        r = None
        facts = []
        for o in outs:
            if o.exc is not None:
                raise Unsupported("specification throws")
            bs, fs = e.branch_cond(o.st, n + (1 if len(s2.pc) and False else 0))
            # drop the range condition (first entries)
            v = i2b(o.ret)
            r = v if r is None else ite(bs if bs is not True else True, v, r)
            facts += fs
        # leaves touched lazily keep their identity through the root names
        return r, facts
    if conc(lo) and conc(hi) and hi - lo <= 24:
        parts = []
        for k in range(lo, hi):
            r, facts = body(k)
            for f in facts:
                st.add(f)
            parts.append(simp(r))
        return ok(st, And(*parts) if isall else Or(*parts))
    k = z3.Int("q!%d" % next(e.cnt))
    r, facts = body(k)
    if r is None:
        return ok(st, True if isall else False)
    rng = z3.And(k >= zint(lo), k < zint(hi))
    kid = k.get_id()
    for f in facts:
        if not mentions(f, k):
            st.add(f)
        else:
            st.add(z3.ForAll([k], z3.Implies(rng, f)))
    if isall:
        return ok(st, z3.ForAll([k], z3.Implies(rng, zbool(r))))
    return ok(st, z3.Exists([k], z3.And(rng, zbool(r))))


def mentions(t, k):
    if not isz(t):
        return False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        todo.extend(x.children())
    return False


TABLE["vc::forall_"] = lambda c: quant(c, True)
TABLE["vc::exists_"] = lambda c: quant(c, False)


@reg("__vc_bound")
def vc_bound(c):
    return ok(c.st, c.e.bvstack[-1])


def vc_inv(c):
    """registers a candidate loop invariant schema (closure) for the loops that follow"""
    e, st = c.e, c.st
    p = c.a[0]
    st.inv = st.inv + ((c.name, p),)
    return ok(st)


PREFIX += [("vc::inv_", vc_inv)]


@reg("__vc_metaint")
def vc_metaint(c):
    return ok(c.st, c.e.meta['int'][c.a[0]])


@reg("__vc_metavec")
def vc_metavec(c):
    return ok(c.st, c.e.meta['vec'][c.a[0]])


@reg("__vc_metareal")
def vc_metareal(c):
    return ok(c.st, c.e.meta['real'][c.a[0]])


@reg("__vc_clear_inv")
def vc_clearinv(c):
    c.st.inv = ()
    return ok(c.st)


@reg("__vc_str")
def vc_str(c):
    """arbitrary string"""
    e, st = c.e, c.st
    v = z3.Int("%s!%d" % (cname(e, c.a[1]), next(e.cnt)))
    st.add(v >= 0)
    st.nd.append(('str', v))
    str_put(e, st, c.a[0], v)
    return ok(st)
