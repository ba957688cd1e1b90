"""Term layer: Python ints/bools/Fractions where concrete, z3 terms otherwise."""
from fractions import Fraction
import math
import z3

Z = z3
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F64 = z3.Float64()
RNE = z3.RNE()


def isz(x):
    return isinstance(x, z3.ExprRef)


def zint(x):
    if isz(x):
        return x
    return z3.IntVal(int(x))


def zbool(x):
    return x if isz(x) else z3.BoolVal(bool(x))


def conc(x):
    return not isz(x)


def simp(x):
    """z3 simplification, folding literals back to Python values"""
    if not isz(x):
        return x
    x = z3.simplify(x)
    return lit(x)


def lit(x):
    if not isz(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x


def And(*xs):
    out = []
    for x in xs:
        if isz(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isz(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if not isz(x):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if not isz(a):
        return b if a else True
    if not isz(b):
        return True if b else Not(a)
    return z3.Implies(a, b)


def wrap(v, bits):
    if bits <= 1:
        return v
    m = 1 << bits
    v &= m - 1
    return v - m if v >= m >> 1 else v


def b2i(b):
    if not isz(b):
        return 1 if b else 0
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def i2b(v):
    if not isz(v):
        return bool(v & 1) if not isinstance(v, bool) else v
    if v.sort() == BOOL:
        return v
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = lit(v.arg(1)), lit(v.arg(2))
        if a == 1 and not isz(a) and not isz(b) and b == 0:
            return v.arg(0)
        if a == 0 and not isz(a) and not isz(b) and b == 1:
            return Not(v.arg(0))
        return ite(v.arg(0), i2b(v.arg(1)), i2b(v.arg(2)))
    if z3.is_int_value(v):
        return bool(v.as_long() & 1)
    return v != 0


def ite(c, a, b):
    if not isz(c):
        return a if c else b
    if a is b:
        return a
    if not isz(a) and not isz(b) and type(a) == type(b) and a == b:
        return a
    if isz(a) and isz(b):
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isz(a):
        return z3.If(c, a, tosort(b, a.sort()))
    if isz(b):
        return z3.If(c, tosort(a, b.sort()), b)
    if isinstance(a, bool):
        if a and not b:
            return c
        return Not(c)
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return z3.If(c, z3.RealVal(a), z3.RealVal(b))
    return z3.If(c, z3.IntVal(a), z3.IntVal(b))


def tosort(v, s):
    if isz(v):
        if v.sort() == s:
            return v
        if s == INT and v.sort() == BOOL:
            return b2i(v)
        if s == BOOL and v.sort() == INT:
            return i2b(v)
        raise TypeError("sort mismatch %s vs %s" % (v.sort(), s))
    if s == INT:
        return z3.IntVal(int(v))
    if s == REAL:
        return z3.RealVal(v)
    if s == BOOL:
        return z3.BoolVal(bool(v))
    if s == F64:
        return v
    raise TypeError("cannot give %r sort %s" % (v, s))


def same(a, b):
    """syntactic equality"""
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    return type(a) == type(b) and a == b


def abs_arg(t):
    """u if t is the term |u|"""
    if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_ge(t.arg(0)) and t.arg(0).arg(0).eq(t.arg(1)) and lit(t.arg(0).arg(1)) == 0 \
            and (t.arg(2).eq(-t.arg(1))):
        return t.arg(1)
    return None


class RealDom:
    """doubles as mathematical reals"""
    name = "real"
    sort = REAL
    INFP = z3.Real("DBL_INF")

    def const(self, f):
        if f != f:
            return z3.Real("DBL_NAN")
        if f in (math.inf, -math.inf):
            return self.INFP if f > 0 else -self.INFP
        return Fraction(f)

    def z(self, x):
        return x if isz(x) else z3.RealVal(x)

    def bin(self, op, a, b):
        if conc(a) and conc(b):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv' and b != 0:
                return a / b
        if op == 'fadd':
            if conc(a) and a == 0:
                return b
            if conc(b) and b == 0:
                return a
            return self.z(a) + self.z(b)
        if op == 'fsub':
            if conc(b) and b == 0:
                return a
            return self.z(a) - self.z(b)
        if op == 'fmul':
            for p, q in ((a, b), (b, a)):
                if conc(p):
                    if p == 0:
                        return Fraction(0)
                    if p == 1:
                        return q
            if isz(a) and isz(b) and a.eq(b):
                t = abs_arg(a)
                if t is not None:
                    return t * t
            return self.z(a) * self.z(b)
        if op == 'fdiv':
            if conc(b) and b == 1:
                return a
            if conc(b) and b != 0:
                return self.z(a) * z3.RealVal(1 / Fraction(b))
            return self.z(a) / self.z(b)
        return None

    def infsign(self, a):
        if not isz(a):
            return 0
        return 1 if a.eq(self.INFP) else -1 if a.eq(-self.INFP) or a.eq(z3.simplify(-self.INFP)) else 0

    def neg(self, a):
        return -a

    def cmp(self, p, a, b):
        if p in ('ord', 'true'):
            return True
        if p in ('uno', 'false'):
            return False
        p = p[1:]
        if conc(a) and conc(b):
            return {'eq': a == b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'ne': a != b}[p]
        if isz(a) and isz(b) and a.eq(b):
            return p in ('eq', 'ge', 'le')
        ia, ib = self.infsign(a), self.infsign(b)
        if (ia or conc(a)) and (ib or conc(b)) and ia != ib:
            return {'eq': False, 'gt': ia > ib, 'ge': ia > ib, 'lt': ia < ib, 'le': ia < ib, 'ne': True}[p]
        a, b = self.z(a), self.z(b)
        return {'eq': lambda: a == b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b,
                'le': lambda: a <= b, 'ne': lambda: a != b}[p]()

    def from_int(self, i):
        if conc(i):
            return Fraction(i)
        return z3.ToReal(i)

    def to_int(self, a):
        if conc(a):
            return int(a)   # truncation toward zero
        return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))

    def fresh(self, n):
        return z3.Real(n)

    def floor(self, a):
        if conc(a):
            return Fraction(math.floor(a))
        return z3.ToReal(z3.ToInt(a))

    def ceil(self, a):
        if conc(a):
            return Fraction(math.ceil(a))
        return -z3.ToReal(z3.ToInt(-a))

    def fabs(self, a):
        if conc(a):
            return abs(a)
        return z3.If(a >= 0, a, -a)


class FpDom:
    """doubles as IEEE-754 binary64"""
    name = "fp"
    sort = F64

    def const(self, f):
        return z3.FPVal(f, F64)

    def z(self, x):
        return x

    def bin(self, op, a, b):
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if r is None:
            return None
        return z3.simplify(r(RNE, a, b))

    def neg(self, a):
        return z3.simplify(z3.fpNeg(a))

    def cmp(self, p, a, b):
        if p == 'true':
            return True
        if p == 'false':
            return False
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == 'ord':
            return lit(z3.simplify(z3.Not(nan)))
        if p == 'uno':
            return lit(z3.simplify(nan))
        u, q = p[0], p[1:]
        f = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if q == 'ne':
            r = z3.Not(z3.fpEQ(a, b))
            if u == 'o':
                r = z3.And(r, z3.Not(nan))
        else:
            r = f[q](a, b)
            if u == 'u':
                r = z3.Or(r, nan)
        return lit(z3.simplify(r))

    def from_int(self, i):
        if conc(i):
            return z3.FPVal(float(i), F64)
        return z3.fpToFP(RNE, z3.ToReal(i), F64)

    def to_int(self, a):
        r = z3.simplify(z3.fpToReal(a))
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

    def fresh(self, n):
        return z3.FP(n, F64)

    def floor(self, a):
        return z3.fpRoundToIntegral(z3.RTN(), a)

    def ceil(self, a):
        return z3.fpRoundToIntegral(z3.RTP(), a)

    def fabs(self, a):
        return z3.fpAbs(a)
