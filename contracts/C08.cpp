// Polynomials and simplices: values, products and derivatives; nodes, sides, Lagrange polynomials and weights
// VC-SOURCES: core/math/util/Real.cpp core/math/simplex/Simplex.cpp
#include "vc.h"
#include "math/function/Polynomial.h"
#include "math/simplex/Line.h"
#include "math/simplex/Triangle.h"
#include "math/simplex/Tetrahedron.h"
using namespace SEMBA;
using namespace SEMBA::Math;
typedef Function::Polynomial<Real> Pol;
typedef Vector::Cartesian<Real, 1> V1;
typedef Vector::Cartesian<Real, 2> V2;
typedef Vector::Cartesian<Real, 3> V3;
typedef Vector::Cartesian<Real, 4> V4;
typedef std::vector<Int> Pow;
static double coef(const char* n) { return VC_PROVING ? vc::real(n) : (double)vc::integer(n, -3, 3); }
static double power(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }
static V2 at2(double x, double y) { V2 r; r(0) = x; r(1) = y; return r; }
// three monomials of any coefficients, with any of the powers up to two
struct One {
    double c[3];
    int e[3];
    Pol p;
    One(int most, int fixed = 0) : p(1) {
        static const int some[4][3] = {{0, 2, 1}, {1, 1, 0}, {2, 2, 2}, {0, 1, 1}};
        long how = fixed == 2 && VC_PROVING ? vc::choice("how", 0, 3) : 0;
        for (int i = 0; i < 3; i++) {
            c[i] = coef("c");
            e[i] = fixed == 1 || (fixed == 2 && VC_PROVING) ? some[how][i] : (int)(VC_PROVING ? vc::choice("e", 0, most) : vc::integer("e", 0, most));
            p.addMonomial(c[i], e[i]);
        }
    }
    double at(double x) const { double r = 0; for (int i = 0; i < 3; i++) r += c[i] * power(x, e[i]); return r; }
    double slope(double x) const { double r = 0; for (int i = 0; i < 3; i++) if (e[i] > 0) r += c[i] * e[i] * power(x, e[i] - 1); return r; }
};
VC_DRIVER_BOUNDED(values, "Polynomial: addMonomial, monomialValue, monomialPower, maxPower, eval, operator(), derive, operator/=", "three monomials of powers 0 to 2") {
    One a(2);
    double x = coef("x"), q = coef("q");
    ENSURES("monomials as added", a.p.numberOfVariables() == 1 && a.p.numberOfMonomials() == 3);
    int most = 0;
    for (int i = 0; i < 3; i++) {
        ENSURES("each monomial as added", a.p.monomialValue(i) == a.c[i] && a.p.monomialPower(i, 0) == a.e[i]);
        most = a.e[i] > most ? a.e[i] : most;
    }
    ENSURES("highest power", a.p.maxPower() == most);
    ENSURES("value: sum of its monomials", vc::eq(a.p(x), a.at(x)) && vc::eq(a.p.eval(V1(x)), a.at(x)));
    Pol d = a.p;
    d.derive(0);
    ENSURES("derivative: sum of the derivatives of its monomials", vc::eq(d(x), a.slope(x)) && vc::eq(a.p(x), a.at(x)));
    for (size_t i = 0; i < d.numberOfMonomials(); i++) ENSURES("no monomials without value", d.monomialValue(i) != 0);
    REQUIRES(q != 0);
    d = a.p;
    d /= q;
    ENSURES("divided", vc::eq(d(x) * q, a.at(x)) && d.numberOfMonomials() == 3);
}
VC_DRIVER_BOUNDED(zeros, "Polynomial: removeZeros, operator==, copy, clone, operator=", "four monomials") {
    Pol p(1), q(1);
    double c[4];
    for (int i = 0; i < 4; i++) {
        c[i] = vc::boolean("zero") ? 0.0 : coef("c");
        p.addMonomial(c[i], i);
        if (c[i] != 0) q.addMonomial(c[i], i);
    }
    Pol r = p, s(1);
    s = p;
    Function::Function<Real, Real>* t = p.clone();
    ENSURES("copies are equal", r == p && s == p && *t == p && p == p);
    delete t;
    bool same = q.numberOfMonomials() == 4;
    r.removeZeros();
    ENSURES("the other monomials stay, in order", r == q && q == r && s == p && (p == q) == same);
    ENSURES("as many as are not zero", r.numberOfMonomials() == q.numberOfMonomials() && p.numberOfMonomials() == 4);
    s.addMonomial(1.0, 4);
    ENSURES("one more monomial", !(s == p) && p.numberOfMonomials() == 4);
    double x = coef("x");
    ENSURES("same values", vc::eq(r(x), p(x)));
}
VC_OPT(product, "unroll=1000,steps=9000000")
VC_DRIVER_BOUNDED(product, "Polynomial: operator*, operator*=", "two polynomials of three monomials of powers 0 to 2") {
    One a(2, 2), b(2, 1);
    double x = coef("x");
    Pol r = a.p * b.p, s = a.p;
    ENSURES("product", vc::eq(r(x), a.at(x) * b.at(x)));
    s *= b.p;
    ENSURES("same product", s == r && a.p.numberOfMonomials() == 3 && vc::eq(b.p(x), b.at(x)));
}
VC_OPT(external, "unroll=1000,steps=9000000")
VC_DRIVER_BOUNDED(external, "Polynomial: operator^, operator^=, eval in two and three variables, derive", "two polynomials of three monomials of powers 0 to 2") {
    One a(2, 2), b(2, 1);
    double x = coef("x"), y = coef("y");
    Pol r = a.p ^ b.p, s = a.p;
    ENSURES("each polynomial in its variable", r.numberOfVariables() == 2 && vc::eq(r.eval(at2(x, y)), a.at(x) * b.at(y)));
    s ^= b.p;
    ENSURES("same", s == r);
}
VC_OPT(partial, "unroll=1000,steps=9000000")
VC_DRIVER_BOUNDED(partial, "Polynomial: derive by one variable of several", "two polynomials of two and three monomials") {
    Pol p(1), q(1);
    double c[2], x = coef("x"), y = coef("y");
    static const double w[3] = {2, -1, 3};
    for (int i = 0; i < 2; i++) {
        c[i] = coef("c");
        REQUIRES(c[i] != 0);
        p.addMonomial(c[i], 2 * i);
    }
    for (int i = 0; i < 3; i++) q.addMonomial(w[i], i);
    Pol d = p ^ q, e = d;
    d.derive(0);
    e.derive(1);
    ENSURES("partial derivatives", vc::eq(d.eval(at2(x, y)), 2 * c[1] * x * (2 - y + 3 * y * y)) && vc::eq(e.eval(at2(x, y)), (c[0] + c[1] * x * x) * (6 * y - 1)));
}
VC_DRIVER_BOUNDED(variables, "Polynomial: eval and derive in three and four variables", "two monomials") {
    Pol p(3), q(4);
    double c[4], x[4];
    for (int i = 0; i < 4; i++) { c[i] = coef("c"); x[i] = coef("x"); }
    static const int E[4][4] = {{2, 0, 1, 0}, {1, 3, 0, 0}, {0, 1, 2, 3}, {1, 0, 0, 2}};
    p.addMonomial(c[0], Pow(E[0], E[0] + 3));
    p.addMonomial(c[1], Pow(E[1], E[1] + 3));
    q.addMonomial(c[2], Pow(E[2], E[2] + 4));
    q.addMonomial(c[3], Pow(E[3], E[3] + 4));
    ENSURES("value in three variables", vc::eq(p.eval(V3(x[0], x[1], x[2])), c[0] * x[0] * x[0] * x[2] + c[1] * x[0] * power(x[1], 3)));
    V4 z;
    for (int i = 0; i < 4; i++) z(i) = x[i];
    ENSURES("value in four variables", vc::eq(q.eval(z), c[2] * x[1] * x[2] * x[2] * power(x[3], 3) + c[3] * x[0] * x[3] * x[3]));
    p.derive(0);
    q.derive(3);
    ENSURES("derivatives", vc::eq(p.eval(V3(x[0], x[1], x[2])), 2 * c[0] * x[0] * x[2] + c[1] * power(x[1], 3)) && vc::eq(q.eval(z), 3 * c[2] * x[1] * x[2] * x[2] * x[3] * x[3] + 2 * c[3] * x[0] * x[3]));
}
template<class S> struct Face;
template<size_t N> struct Face<Simplex::Line<N>> { static const int* of(size_t f) { static const int r[2][1] = {{0}, {1}}; return r[f]; } static size_t corners() { return 1; } static size_t index(size_t, size_t) { return N; } };
template<size_t N> struct Face<Simplex::Triangle<N>> { static const int* of(size_t f) { static const int r[3][2] = {{0, 1}, {1, 2}, {2, 0}}; return r[f]; } static size_t corners() { return 2; } static size_t index(size_t k, size_t j) { return j == 0 ? N - k : k; } };
template<size_t N> struct Face<Simplex::Tetrahedron<N>> {
    static const int* of(size_t f) { static const int r[4][3] = {{0, 1, 2}, {1, 0, 3}, {2, 3, 0}, {3, 2, 1}}; return r[f]; }
    static size_t corners() { return 3; }
    // nodes of the face are listed by distance to its first corner, from its second to its third corner
    static size_t index(size_t k, size_t j) {
        size_t row = 0;
        while (k > row) k -= ++row;
        return j == 0 ? N - row : j == 1 ? row - k : k;
    }
};
// the nodes of a simplex of order n: all combinations of indices of sum n
template<class S> void nodes(const S& s, size_t n) {
    size_t count = 1;
    for (size_t i = 1; i < S::nsc; i++) count = count * (n + i) / i;
    ENSURES("number of nodes", S::np == count);
    for (size_t i = 0; i < S::np; i++) {
        size_t sum = 0;
        for (size_t j = 0; j < S::nsc; j++) sum += s.nodeIndex(i, j);
        ENSURES("indices add up to the order", sum == n);
        for (size_t k = 0; k < i; k++) {
            bool same = true;
            for (size_t j = 0; j < S::nsc; j++) same = same && s.nodeIndex(i, j) == s.nodeIndex(k, j);
            ENSURES("nodes are different", !same);
        }
    }
    for (size_t v = 0; v < S::nsc; v++) ENSURES("vertices", s.nodeIndex(s.vertex(v), v) == n);
    for (size_t f = 0; f < S::faces; f++) for (size_t k = 0; k < S::nfp; k++) {
        ENSURES("side nodes are nodes", s.sideNode(f, k) < S::np);
        size_t sum = 0;
        for (size_t j = 0; j < Face<S>::corners(); j++) {
            size_t w = s.nodeIndex(s.sideNode(f, k), Face<S>::of(f)[j]);
            ENSURES("side nodes in order between the corners of the side", w == Face<S>::index(k, j));
            sum += w;
        }
        ENSURES("nodes of a side are on it", sum == n);
    }
}
template<size_t D> static Real valueAt(const Pol& p, const Vector::Cartesian<Real, D>& x) { return p.eval(x); }
// polynomials: one at their node, zero at the others; their derivatives; weights integrate all polynomials of the order exactly
template<class S> void polynomials(const S& s, size_t n) {
    typedef Vector::Cartesian<Real, S::nsc> V;
    std::vector<V> x(S::np);
    for (size_t i = 0; i < S::np; i++) for (size_t j = 0; j < S::nsc; j++) x[i](j) = s.nodeIndex(i, j) / (Real)n;
    for (size_t i = 0; i < S::np; i++) for (size_t k = 0; k < S::np; k++) ENSURES("one at their node, zero at the others", vc::eq(s.getLagr(i).eval(x[k]), i == k ? 1.0 : 0.0));
}
template<class S> void derivatives(const S& s, size_t n) {
    typedef Vector::Cartesian<Real, S::nsc> V;
    V y, z;
    for (size_t j = 0; j < S::nsc; j++) { y(j) = (j + 1) / 8.0; z(j) = 0.5 - j / 4.0; }
    for (size_t i = 0; i < S::np; i++) for (size_t j = 0; j < S::nsc; j++) for (int w = 0; w < 2; w++) {
        const Pol& p = s.getLagr(i);
        const V& at = w ? z : y;
        double r = 0;
        for (size_t m = 0; m < p.numberOfMonomials(); m++) {
            double t = p.monomialValue(m) * p.monomialPower(m, j);
            for (size_t k = 0; k < S::nsc; k++) if (t != 0) t *= power(at(k), p.monomialPower(m, k) - (k == j));
            r += t;
        }
        ENSURES("derivatives by each coordinate", vc::eq(s.getDLagr(i, j).eval(at), r));
    }
}
static double fact(size_t n) { return n < 2 ? 1 : n * fact(n - 1); }
template<class S> void weights(const S& s, size_t n) {
    std::vector<Real> w = s.getWeights();
    ENSURES("one weight for each node", w.size() == S::np);
    size_t e[4] = {0, 0, 0, 0};
    while (true) {
        size_t sum = e[0] + e[1] + e[2] + e[3];
        if (sum <= n) {
            double r = 0, q = fact(S::dimension) / fact(sum + S::dimension);
            for (size_t j = 0; j < S::nsc; j++) q *= fact(e[j]);
            for (size_t i = 0; i < S::np; i++) {
                double t = w[i];
                for (size_t j = 0; j < S::nsc; j++) t *= power(s.nodeIndex(i, j) / (double)n, (int)e[j]);
                r += t;
            }
            ENSURES("weights integrate polynomials up to the order", vc::eq(r, q));
        }
        size_t j = 0;
        while (j < S::nsc && ++e[j] > n) e[j++] = 0;
        if (j == S::nsc) break;
    }
}
// for any point of the simplex the polynomials add up to one
template<class S> void unityAt(const S& s) {
    Vector::Cartesian<Real, S::nsc> x;
    double rest = 1, r = 0;
    for (size_t j = 0; j + 1 < S::nsc; j++) rest -= x(j) = VC_PROVING ? vc::real("x") : vc::real_in("x", -1, 1);
    x(S::nsc - 1) = rest;
    for (size_t i = 0; i < S::np; i++) r += s.getLagr(i).eval(x);
    ENSURES("polynomials add up to one at any point", vc::eq(r, 1.0));
}
template<class S> void all(const S& s, size_t n) { nodes(s, n); polynomials(s, n); derivatives(s, n); weights(s, n); }
VC_DRIVER_BOUNDED(lines, "Line<N>: nodes, vertices, sides, getLagr, getDLagr, getWeights", "orders 1 to 4") {
    all(Simplex::Line<1>(), 1);
    all(Simplex::Line<2>(), 2);
    all(Simplex::Line<3>(), 3);
    all(Simplex::Line<4>(), 4);
}
VC_DRIVER_BOUNDED(triangles, "Triangle<N>: nodes, vertices, sides, getLagr, getDLagr, getWeights", "orders 1 to 2") { all(Simplex::Triangle<1>(), 1); all(Simplex::Triangle<2>(), 2); }
VC_OPT(triangle3, "unroll=1000,steps=9000000")
VC_DRIVER_BOUNDED(triangle3, "Triangle<N>: nodes, vertices, sides, getLagr, getDLagr, getWeights", "order 3") { all(Simplex::Triangle<3>(), 3); }
VC_DRIVER_BOUNDED(tetrahedron1, "Tetrahedron<N>: nodes, vertices, sides, getLagr, getDLagr, getWeights", "order 1") { all(Simplex::Tetrahedron<1>(), 1); }
VC_OPT(tetrahedron2, "unroll=1000,steps=9000000")
VC_DRIVER_BOUNDED(tetrahedron2, "Tetrahedron<N>: nodes, vertices, sides, getLagr, getDLagr, getWeights", "order 2") { all(Simplex::Tetrahedron<2>(), 2); }
VC_DRIVER_BOUNDED(unityLines, "Line<N>: partition of unity", "orders 1 to 3; any point") { unityAt(Simplex::Line<1>()); unityAt(Simplex::Line<2>()); unityAt(Simplex::Line<3>()); }
VC_OPT(unityTriangles, "unroll=1000,steps=9000000")
VC_DRIVER_BOUNDED(unityTriangles, "Triangle<N>: partition of unity", "orders 1 to 3; any point") { unityAt(Simplex::Triangle<1>()); unityAt(Simplex::Triangle<2>()); unityAt(Simplex::Triangle<3>()); }
VC_OPT(unityTetrahedra, "unroll=1000,steps=9000000")
VC_DRIVER_BOUNDED(unityTetrahedra, "Tetrahedron<N>: partition of unity", "orders 1 to 2; any point") { unityAt(Simplex::Tetrahedron<1>()); unityAt(Simplex::Tetrahedron<2>()); }
VC_NATIVE(orders, "Triangle<4>, Triangle<5>, Tetrahedron<3>, Tetrahedron<4>", "executed; order 4 and 5 triangles, order 3 and 4 tetrahedra") {
    all(Simplex::Triangle<4>(), 4);
    all(Simplex::Triangle<5>(), 5);
    all(Simplex::Tetrahedron<3>(), 3);
    all(Simplex::Tetrahedron<4>(), 4);
    unityAt(Simplex::Triangle<4>());
    unityAt(Simplex::Tetrahedron<3>());
}
