// Cartesian vectors: component-wise arithmetic, products, norm, comparison, axis/plane queries, permutation
// VC-SOURCES: core/math/util/Real.cpp
#include "vc.h"
#include "math/vector/Cartesian.h"
using namespace SEMBA;
using namespace SEMBA::Math;
static CVecR3 rv(const char* n) { double x = vc::real(n), y = vc::real(n), z = vc::real(n); return CVecR3(x, y, z); }
static CVecR2 rv2(const char* n) { CVecR2 r; r(0) = vc::real(n); r(1) = vc::real(n); return r; }
static CVecI3 iv(const char* n) { long x = vc::integer(n, -1000000, 1000000), y = vc::integer(n, -1000000, 1000000), z = vc::integer(n, -1000000, 1000000); return CVecI3((int)x, (int)y, (int)z); }
static double ab(double x) { return x < 0 ? -x : x; }

VC_DRIVER(arithmetic, "Cartesian::operator+,-,*,/ with vectors and scalars") {
    CVecR3 a = rv("a"), b = rv("b");
    double s = vc::real("s");
    CVecR3 sum = a + b, dif = a - b, prod = a * b, ss = a + s, sd = a - s, sm = a * s;
    for (int i = 0; i < 3; i++) {
        ENSURES("sum is component-wise", sum(i) == a(i) + b(i));
        ENSURES("difference is component-wise", dif(i) == a(i) - b(i));
        ENSURES("product is component-wise", prod(i) == a(i) * b(i));
        ENSURES("scalar sum is component-wise", ss(i) == a(i) + s);
        ENSURES("scalar difference is component-wise", sd(i) == a(i) - s);
        ENSURES("scaling is component-wise", sm(i) == a(i) * s);
    }
    REQUIRES(s != 0);
    CVecR3 q = a / s;
    for (int i = 0; i < 3; i++) ENSURES("quotient is component-wise", vc::eq(q(i) * s, a(i)));
}
VC_DRIVER(arithmeticKeepsOperands, "Cartesian::operator+,-,*,/,^") {
    CVecR3 a = rv("a"), b = rv("b"), a0 = a, b0 = b;
    double s = vc::real("s");
    REQUIRES(s != 0);
    (void)(a + b); (void)(a - b); (void)(a * b); (void)(a * s); (void)(a + s); (void)(a - s); (void)(a / s); (void)(a ^ b); (void)a.dot(b); (void)a.norm();
    for (int i = 0; i < 3; i++) ENSURES("operands are unchanged", a(i) == a0(i) && b(i) == b0(i));
}
VC_DRIVER(compound, "Cartesian::operator+=,-=,*=,/=, unary -") {
    CVecR3 a = rv("a"), b = rv("b"), r;
    double s = vc::real("s");
    r = a; r += b; for (int i = 0; i < 3; i++) ENSURES("+= vector", r(i) == a(i) + b(i));
    r = a; r -= b; for (int i = 0; i < 3; i++) ENSURES("-= vector", r(i) == a(i) - b(i));
    r = a; r *= b; for (int i = 0; i < 3; i++) ENSURES("*= vector", r(i) == a(i) * b(i));
    r = a; r += s; for (int i = 0; i < 3; i++) ENSURES("+= scalar", r(i) == a(i) + s);
    r = a; r -= s; for (int i = 0; i < 3; i++) ENSURES("-= scalar", r(i) == a(i) - s);
    r = a; r *= s; for (int i = 0; i < 3; i++) ENSURES("*= scalar", r(i) == a(i) * s);
    r = a; -r;     for (int i = 0; i < 3; i++) ENSURES("negation negates every component", r(i) == -a(i));
    REQUIRES(s != 0);
    r = a; r /= s; for (int i = 0; i < 3; i++) ENSURES("/= scalar", vc::eq(r(i) * s, a(i)));
    r = s; for (int i = 0; i < 3; i++) ENSURES("= scalar fills", r(i) == s);
}
VC_DRIVER(construction, "Cartesian constructors, conversion and assignment between component types") {
    CVecR3 a = rv("a"), b = rv("b");
    CVecR3 z, f(vc::real("f")), d(a, b);
    double arr[3] = {a(0), a(1), a(2)};
    CVecR3 fromArr(arr);
    CVecI3 n = iv("n");
    CVecR3 fromInt(n), asg;
    asg = n;
    for (int i = 0; i < 3; i++) {
        ENSURES("default is zero", z(i) == 0);
        ENSURES("fill", f(i) == f(0));
        ENSURES("segment is end minus begin", d(i) == b(i) - a(i));
        ENSURES("from array", fromArr(i) == a(i));
        ENSURES("integer components convert exactly", fromInt(i) == (double)n(i) && asg(i) == (double)n(i));
        ENSURES("both accessors agree", a(i) == a[i]);
    }
}
VC_DRIVER(crossProduct, "Cartesian::operator^") {
    CVecR3 a = rv("a"), b = rv("b");
    CVecR3 c = a ^ b, d = b ^ a;
    ENSURES("right-handed x", vc::eq(c(0), a(1) * b(2) - a(2) * b(1)));
    ENSURES("right-handed y", vc::eq(c(1), a(2) * b(0) - a(0) * b(2)));
    ENSURES("right-handed z", vc::eq(c(2), a(0) * b(1) - a(1) * b(0)));
    for (int i = 0; i < 3; i++) ENSURES("anticommutative", vc::eq(c(i), -d(i)));
    REQUIRES(ab(a(0)) + ab(a(1)) + ab(a(2)) < 20 && ab(b(0)) + ab(b(1)) + ab(b(2)) < 20);
    ENSURES("orthogonal to the first operand", vc::eq(c.dot(a), 0));
    ENSURES("orthogonal to the second operand", vc::eq(c.dot(b), 0));
    ENSURES("lagrange identity", vc::eq(c.dot(c), a.dot(a) * b.dot(b) - a.dot(b) * a.dot(b)));
}
VC_DRIVER(dotProduct, "Cartesian::dot") {
    CVecR3 a = rv("a"), b = rv("b");
    ENSURES("sum of products", vc::eq(a.dot(b), a(0) * b(0) + a(1) * b(1) + a(2) * b(2)));
    ENSURES("commutative", vc::eq(a.dot(b), b.dot(a)));
    CVecR2 u = rv2("u"), v = rv2("v");
    ENSURES("two components", vc::eq(u.dot(v), u(0) * v(0) + u(1) * v(1)));
}
VC_DRIVER(normLength, "Cartesian::norm") {
    CVecR3 a = rv("a");
    double n = a.norm();
    ENSURES("never negative", n >= 0);
    ENSURES("squared norm is the dot product with itself", vc::eq(n * n, a.dot(a)));
    ENSURES("zero only for the zero vector", IMPLIES(n == 0, ab(a(0)) < 1e-150 && ab(a(1)) < 1e-150 && ab(a(2)) < 1e-150));
}
VC_DRIVER(normalization, "Cartesian::normalize") {
    CVecR3 a = rv("a");
    REQUIRES(a.norm() > 1e-6);
    CVecR3 u = a;
    u.normalize();
    ENSURES("unit length", vc::eq(u.dot(u), 1));
    for (int i = 0; i < 3; i++) ENSURES("direction is preserved", vc::eq(u(i) * a.norm(), a(i)));
}
VC_DRIVER(integerComparison, "Cartesian<int>::operator==,!=,<") {
    CVecI3 a = iv("a"), b = iv("b");
    bool same = a(0) == b(0) && a(1) == b(1) && a(2) == b(2);
    ENSURES("integer vectors are equal iff every component is", (a == b) == same);
    ENSURES("!= negates ==", (a != b) == !same);
    CVecI3 sum = a + b, dif = a - b;
    for (int i = 0; i < 3; i++) ENSURES("integer arithmetic is component-wise", sum(i) == a(i) + b(i) && dif(i) == a(i) - b(i));
    ENSURES("integer dot product", IMPLIES(ab(a(0)) < 1000 && ab(b(0)) < 1000 && ab(a(1)) < 1000 && ab(b(1)) < 1000 && ab(a(2)) < 1000 && ab(b(2)) < 1000,
                                           a.dot(b) == a(0) * b(0) + a(1) * b(1) + a(2) * b(2)));
}
VC_DRIVER(realComparison, "Cartesian<Real>::operator==,!=") {
    CVecR3 a = rv("a"), b = rv("b");
    ENSURES("reflexive", a == a);
    ENSURES("symmetric", (a == b) == (b == a));
    ENSURES("!= negates ==", (a != b) == !(a == b));
    ENSURES("vectors that clearly differ in one component are different", IMPLIES(ab(a(0) - b(0)) > 1e-6 || ab(a(1) - b(1)) > 1e-6 || ab(a(2) - b(2)) > 1e-6, a != b));
}
VC_DRIVER(permutation, "Cartesian::cyclicPermutation") {
    CVecR3 a = rv("a");
    CVecR3 p = a;
    long n = vc::integer("n", 0, 7);
    p.cyclicPermutation((size_t)n);
    for (int i = 0; i < 3; i++) ENSURES("component i moves to (i+n) mod 3", p((i + n) % 3) == a(i));
    CVecR3 q = a;
    q.cyclicPermutation(1); q.cyclicPermutation(1); q.cyclicPermutation(1);
    for (int i = 0; i < 3; i++) ENSURES("three single steps are the identity", q(i) == a(i));
}
VC_DRIVER(maximum, "Cartesian::getMax, setWithMinimalComponents, setAsBinary") {
    CVecR3 a = rv("a"), b = rv("b");
    double m = a.getMax();
    ENSURES("the maximum bounds every component", m >= a(0) && m >= a(1) && m >= a(2));
    ENSURES("the maximum is a component", m == a(0) || m == a(1) || m == a(2));
    CVecR3 c = a;
    c.setWithMinimalComponents(b);
    for (int i = 0; i < 3; i++) ENSURES("minimum of both", c(i) == (a(i) < b(i) ? a(i) : b(i)));
    long k = vc::integer("k", 0, 7);
    CVecI3 bin;
    bin.setAsBinary((size_t)k);
    ENSURES("binary digits, most significant first", bin(0) * 4 + bin(1) * 2 + bin(2) == k);
    for (int i = 0; i < 3; i++) ENSURES("digits are 0 or 1", bin(i) == 0 || bin(i) == 1);
}
VC_DRIVER(axisQueries, "Cartesian::isInCartesianAxis, getCartesianAxis") {
    long d = vc::integer("d", 0, 2);
    double x = vc::real("x");
    REQUIRES(ab(x) > 1e-6);
    CVecR3 a;
    a((size_t)d) = x;
    ENSURES("a vector along an axis is recognised", a.isInCartesianAxis());
    ENSURES("and its axis reported", a.isInCartesianAxis() && (long)a.getCartesianAxis() == d);
    CVecR3 b = rv("b");
    double n2 = b.dot(b);
    REQUIRES(n2 > 1e-6);
    REQUIRES(b(0) * b(0) < 0.9 * n2 && b(1) * b(1) < 0.9 * n2 && b(2) * b(2) < 0.9 * n2);
    ENSURES("an oblique vector is not in an axis", !b.isInCartesianAxis());
    ENSURES("asking for its axis is refused", THROWS(b.getCartesianAxis()));
}
VC_DRIVER(planeQueries, "Cartesian::isContainedInPlane, isCoplanar") {
    CVecR3 a = rv("a"), b = rv("b");
    for (int i = 0; i < 3; i++) REQUIRES(a(i) == 0 || ab(a(i)) > 1e-6);
    ENSURES("xy plane", a.isContainedInPlane(Constants::xy) == (a(2) == 0));
    ENSURES("yz plane", a.isContainedInPlane(Constants::yz) == (a(0) == 0));
    ENSURES("zx plane", a.isContainedInPlane(Constants::zx) == (a(1) == 0));
    ENSURES("some plane", a.isContainedInPlane() == (a(0) == 0 || a(1) == 0 || a(2) == 0));
    ENSURES("coplanar when the difference lies in a plane", IMPLIES(a(0) == b(0) || a(1) == b(1) || a(2) == b(2), a.isCoplanar(b)));
    CVecR3 d = a - b;
    for (int i = 0; i < 3; i++) REQUIRES(ab(d(i)) > 1e-6);
    ENSURES("not coplanar otherwise", !a.isCoplanar(b));
}
VC_DRIVER(ordering, "operator<,<=,>,>= on Cartesian") {
    CVecI3 a = iv("a"), b = iv("b");
    bool lt = a(0) < b(0) || (a(0) == b(0) && (a(1) < b(1) || (a(1) == b(1) && a(2) < b(2))));
    bool gt = b(0) < a(0) || (a(0) == b(0) && (b(1) < a(1) || (a(1) == b(1) && b(2) < a(2))));
    ENSURES("lexicographic order", (a < b) == lt);
    ENSURES("> mirrors <", (a > b) == gt);
    ENSURES("<= excludes >", (a <= b) == !gt);
    ENSURES(">= excludes <", (a >= b) == !lt);
    CVecR3 r = rv("r"), s = rv("s");
    ENSURES("real order is asymmetric", !((r < s) && (s < r)));
    ENSURES("real > mirrors <", (r > s) == (s < r));
    REQUIRES(r(0) < s(0) - 1 && ab(r(0)) < 1e6 && ab(s(0)) < 1e6);
    ENSURES("the first component decides", r < s && !(s < r));
}
VC_DRIVER(mixedArithmetic, "operator+(Cartesian<Int>,Cartesian<Real>), operator/(Cartesian<Int>,Real), abs, setPlusInfty") {
    CVecI3 n = iv("n");
    CVecR3 a = rv("a");
    double s = vc::real("s");
    REQUIRES(s != 0);
    CVecR3 m = n + a;
    CVecR3 q = n / s;
    CVecR3 b = a;
    b.abs();
    for (int i = 0; i < 3; i++) {
        ENSURES("integer plus real", m(i) == n(i) + a(i));
        ENSURES("integer over real", vc::eq(q(i) * s, n(i)));
        ENSURES("magnitudes", b(i) == ab(a(i)));
    }
}
