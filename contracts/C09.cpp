// Fractional lattice positions (CVecI3Fractional): cell index + fraction of the cell
// VC-SOURCES: core/math/util/Real.cpp core/math/vector/CVecI3Fractional.cpp
#include "vc.h"
#include "math/vector/CVecI3Fractional.h"
#include "math/util/Real.h"
using namespace SEMBA;
using namespace SEMBA::Math;
static const double TOL = 1e-10;
static double ab(double x) { return x < 0 ? -x : x; }
struct F { long c[3]; double l[3]; CVecI3Frac v() const { return CVecI3Frac(CVecI3((int)c[0], (int)c[1], (int)c[2]), CVecR3(l[0], l[1], l[2])); } };
// a fraction in [0,1]; never in the gap where "zero" and "greater than the tolerance" could disagree
static double frac() {
#if VC_PROVING
    double x = vc::real("x");
#else
    double x = vc::boolean("zero") ? 0.0 : vc::real_in("x", 0, 1);
#endif
    REQUIRES(x == 0 || (x > 2e-10 && x <= 1));
    return x;
}
static F any() {
    F f;
    for (int d = 0; d < 3; d++) {
        f.c[d] = vc::integer("cell", -1000000, 1000000);
        f.l[d] = frac();
    }
    return f;
}
#if VC_PROVING
// discharged by contract C01 equalDefinition
VC_STUB(equal, "SEMBA::Math::Util::equal(double, double, double, double)") bool stub_equal(double a, double b, double rel, double tol) {
    PRE("default reference", rel == 0 && tol == TOL);
    bool za = ab(a) <= Util::epsilon, zb = ab(b) <= Util::epsilon;
    bool r = vc::boolean("equal");
    REQUIRES(IMPLIES(za && zb, r) && IMPLIES(za != zb, !r) && IMPLIES(!za && !zb && a + b != 0, r == (ab(a - b) <= tol * ab(a + b))));
    return r;
}
#endif
static bool same(const CVecI3Frac& v, const F& f) {
    return v(0) == f.c[0] && v(1) == f.c[1] && v(2) == f.c[2] && v.len_(0) == f.l[0] && v.len_(1) == f.l[1] && v.len_(2) == f.l[2];
}
static int ranks(const F& f) { return (f.l[0] > TOL) + (f.l[1] > TOL) + (f.l[2] > TOL); }
VC_DRIVER(rangeAndDirection, "CVecI3Fractional::getRangeBase, getDirBase") {
    F f;
    for (int d = 0; d < 3; d++) { f.c[d] = 0; f.l[d] = vc::real_in("x", 0, 1); REQUIRES(f.l[d] != TOL); }
    CVecI3Frac v = f.v();
    int r = ranks(f);
    ENSURES("the range is the number of axes with a fraction", (int)v.getRangeBase() == r);
    int dir = (int)v.getDirBase();
    if (r == 0 || r == 3) ENSURES("a node and a cell have no direction", dir == dirNode);
    for (int d = 0; d < 3; d++) {
        if (r == 1) ENSURES("an edge has the direction of its axis", (dir == d + 1) == (f.l[d] > TOL));
        if (r == 2) ENSURES("a face has the direction of its normal", (dir == d + 1) == (f.l[d] <= TOL));
    }
    ENSURES("the position is not changed", same(v, f));
}
VC_DRIVER(positions, "CVecI3Fractional::getScalePos, operator=") {
    F f = any();
    CVecI3Frac v = f.v();
    CVecR3 p = v.getScalePos();
    long o[3];
    for (int d = 0; d < 3; d++) o[d] = vc::integer("origin", -1000000, 1000000);
    CVecR3 q = v.getScalePos(CVecI3((int)o[0], (int)o[1], (int)o[2]));
    for (int d = 0; d < 3; d++) {
        ENSURES("position is cell plus fraction", vc::eq(p(d), (double)f.c[d] + f.l[d]));
        ENSURES("position relative to an origin", vc::eq(q(d), (double)(f.c[d] - o[d]) + f.l[d]));
    }
    CVecI3Frac u;
    u = v;
    ENSURES("assignment copies cell and fraction", same(u, f));
    CVecI3Frac t(v);
    ENSURES("copy has the same cell and fraction", same(t, f));
}
VC_DRIVER(equality, "CVecI3Fractional::operator==") {
    F f = any(), g = any();
    if (vc::boolean("same cell")) for (int d = 0; d < 3; d++) g.c[d] = f.c[d];
    if (vc::boolean("same fraction")) for (int d = 0; d < 3; d++) g.l[d] = f.l[d];
    bool eq = f.c[0] == g.c[0] && f.c[1] == g.c[1] && f.c[2] == g.c[2] && f.l[0] == g.l[0] && f.l[1] == g.l[1] && f.l[2] == g.l[2];
    ENSURES("equal iff cell and fraction are equal", (f.v() == g.v()) == eq);
}
VC_DRIVER(means, "CVecI3Fractional::meanRelativePoint, getRelativePosNearestNode") {
    F f = any(), g = any();
    CVecI3Frac v = f.v();
    CVecR3 m = v.meanRelativePoint(g.v()), n = v.getRelativePosNearestNode();
    for (int d = 0; d < 3; d++) {
        ENSURES("mean fraction", vc::eq(m(d), (f.l[d] + g.l[d]) / 2));
        ENSURES("nearest node is 0 or 1", n(d) == 0 || n(d) == 1);
        ENSURES("no other node is nearer", ab(n(d) - f.l[d]) <= ab(1 - n(d) - f.l[d]));
    }
    ENSURES("the position is not changed", same(v, f));
}
VC_DRIVER(reduceCoords, "CVecI3Fractional::reduceCoords") {
    F f;
    for (int d = 0; d < 3; d++) { f.c[d] = vc::integer("cell", -1000000, 1000000); f.l[d] = vc::boolean("one") ? 1.0 : vc::real_in("x", 0, 1.5); }
    CVecI3Frac v = f.v();
    CVecI3Frac& r = v.reduceCoords();
    ENSURES("returns itself", &r == &v);
    for (int d = 0; d < 3; d++) {
        bool up = f.l[d] >= 1 - TOL, down = f.l[d] < TOL;
        ENSURES("a full fraction moves to the next cell", IMPLIES(up, v(d) == f.c[d] + 1 && v.len_(d) == 0));
        ENSURES("a negligible fraction becomes zero", IMPLIES(!up && down, v(d) == f.c[d] && v.len_(d) == 0));
        ENSURES("any other fraction is kept", IMPLIES(!up && !down, v(d) == f.c[d] && v.len_(d) == f.l[d]));
    }
}
// expected effect of one reduction step
static F reduced(const F& f) {
    F r = f;
    int m = -1;
    double best = 1e20;
    for (int d = 0; d < 3; d++) {
        double k = f.l[d] > 0.5 ? 1 - f.l[d] : f.l[d];
        if (f.l[d] != 0 && k < best) { best = k; m = d; }
    }
    if (m >= 0) {
        r.l[m] = f.l[m] > 0.5 ? 1 : 0;
        for (int d = 0; d < 3; d++) {
            if (r.l[d] >= 1 - TOL) { r.l[d] = 0; r.c[d]++; }
            else if (r.l[d] < TOL) r.l[d] = 0;
        }
    }
    return r;
}
VC_DRIVER(reduceTopology, "CVecI3Fractional::reduceTopology") {
    F f = any();
    for (int d = 0; d < 3; d++) REQUIRES(f.l[d] < 1 - 2e-10);
    CVecI3Frac v = f.v();
    v.reduceTopology();
    F e = reduced(f);
    ENSURES("the fraction nearest to a node is moved onto that node", same(v, e));
    int r = ranks(f);
    ENSURES("the range drops by one", (int)v.getRangeBase() == (r > 0 ? r - 1 : 0));
}
static void toRange(int range) {
    F f = any();
    for (int d = 0; d < 3; d++) REQUIRES(f.l[d] < 1 - 2e-10);
    CVecI3Frac v = f.v();
    CVecI3Frac& r = v.reduceTopology(range);
    ENSURES("returns itself", &r == &v);
    F e = f;
    for (int k = 0; k < 3; k++) if (ranks(e) > range) e = reduced(e);
    ENSURES("reduced one fraction at a time until the range is reached", same(v, e));
    ENSURES("range not above the requested one", (int)v.getRangeBase() <= range);
}
VC_DRIVER(reduceTo0, "CVecI3Fractional::reduceTopology(range)") { toRange(0); }
VC_DRIVER(reduceTo1, "CVecI3Fractional::reduceTopology(range)") { toRange(1); }
VC_DRIVER(reduceTo2, "CVecI3Fractional::reduceTopology(range)") { toRange(2); }
VC_OPT(join, "stubs=equal")
VC_OPT(move, "stubs=equal")
VC_DRIVER(join, "CVecI3Fractional::join") {
    F f = any(), g = any();
    CVecI3Frac v = f.v(), w = g.v();
    v.join(w);
    for (int d = 0; d < 3; d++) {
        ENSURES("both positions have the same fraction", v.len_(d) == w.len_(d));
        ENSURES("zero where either had none, else the second's", w.len_(d) == (f.l[d] == 0 ? 0 : g.l[d]));
        ENSURES("cells unchanged", v(d) == f.c[d] && w(d) == g.c[d]);
    }
}
VC_DRIVER(move, "CVecI3Fractional::move") {
    F f = any(), g = any();
    CVecI3Frac v = f.v(), w = g.v();
    bool force = vc::boolean("force"), can = vc::boolean("can");
    CVecI3Frac& r = v.move(w, force, can);
    bool ok = true;
    for (int d = 0; d < 3; d++) ok = ok && (f.l[d] == 0 || g.l[d] != 0);
    ENSURES("can be moved iff every fractional axis is fractional there too", can == ok);
    ENSURES("returns the moved position", &r == &w);
    ENSURES("the source is not changed", same(v, f));
    for (int d = 0; d < 3; d++) {
        ENSURES("the cell is not changed", w(d) == g.c[d]);
        if (!ok && !force) ENSURES("left as it was when it cannot be moved", w.len_(d) == g.l[d]);
        else ENSURES("takes the fraction, projected on the axes it has", w.len_(d) == (g.l[d] == 0 ? 0 : f.l[d]));
    }
}
