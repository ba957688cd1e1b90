// Chopped boxes: the pieces tile the box and follow the grid or the step
// VC-SOURCES: core/math/util/Real.cpp
#include "vc.h"
#include "geometry/Box.h"
#include "geometry/Grid.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
template<class B> size_t inside(const std::vector<B>& r, const CVecR3& q, bool interior) {
    size_t k = 0;
    for (size_t i = 0; i < r.size(); i++) {
        bool in = true;
        for (int d = 0; d < 3; d++) {
            double a = r[i].getMin()(d), b = r[i].getMax()(d);
            in = in && (interior && a != b ? a < q(d) && q(d) < b : a <= q(d) && q(d) <= b);
        }
        if (in) k++;
    }
    return k;
}
static long range(const char* n, long lo, long hi) { return VC_PROVING ? vc::choice(n, lo, hi) : vc::integer(n, lo, hi); }

VC_DRIVER_BOUNDED(grid, "Box::chop(grid)", "one axis of any grid of three positions and any box, the other axes concrete") {
    long e = vc::choice("axis", 0, 2);
    double g[3], lo, hi, q = VC_PROVING ? vc::real("q") : vc::integer("q", -12, 12) / 4.0;
    for (int i = 0; i < 3; i++) g[i] = VC_PROVING ? vc::real("g") : vc::integer("g", -12, 12) / 4.0;
    lo = VC_PROVING ? vc::real("lo") : vc::integer("lo", -12, 12) / 4.0;
    hi = VC_PROVING ? vc::real("hi") : vc::integer("hi", -12, 12) / 4.0;
    // what differs, does so by more than the grid's tolerance of a hundredth of a step
    double w = 0.02 * (g[2] - g[0]);
    REQUIRES(w > 1e-6 && g[0] + w < g[1] && g[1] + w < g[2] && lo <= hi);
    for (int i = 0; i < 3; i++) REQUIRES((lo == g[i] || std::fabs(lo - g[i]) > w) && (hi == g[i] || std::fabs(hi - g[i]) > w));
    std::vector<Real> p[3];
    CVecR3 a(1.0, 2.0, 3.0), b(2.0, 2.0, 5.0), x(1.5, 2.0, 3.5);
    for (int d = 0; d < 3; d++) {
        if (d == e) for (int i = 0; i < 3; i++) p[d].push_back(g[i]);
        else for (int i = 0; i < 5; i++) p[d].push_back(i);
    }
    a(e) = lo;
    b(e) = hi;
    x(e) = q;
    BoxR3 box(a, b);
    std::vector<BoxR3> r = box.chop(Grid3(p));
    size_t n = 1;
    for (int i = 0; i < 3; i++) if (lo < g[i] && g[i] < hi) n++;
    for (int d = 0; d < 3; d++) if (d != e && d == 2) n *= 2;
    ENSURES("one piece per cell it reaches into", r.size() == n);
    for (size_t i = 0; i < r.size(); i++) {
        ENSURES("pieces lie within the box", r[i] <= box);
        for (int d = 0; d < 3; d++) ENSURES("pieces are as flat as the box", (r[i].getMin()(d) < r[i].getMax()(d)) == (a(d) < b(d)));
        for (int k = 0; k < 3; k++) ENSURES("no piece crosses the grid", !(r[i].getMin()(e) < g[k] && g[k] < r[i].getMax()(e)));
    }
    if (lo <= q && q <= hi) ENSURES("the pieces cover the box", inside(r, x, false) >= 1);
    ENSURES("the pieces do not overlap", inside(r, x, true) <= 1);
}
VC_DRIVER_BOUNDED(cells, "Box::chop()", "integer boxes of up to two cells per axis") {
    CVecI3 a, n;
    for (int d = 0; d < 3; d++) { a(d) = (int)range("a", VC_PROVING ? -1 : -9, VC_PROVING ? 0 : 9); n(d) = (int)range("n", 0, VC_PROVING ? 2 : 4); }
    BoxI3 box(a, a + n);
    std::vector<BoxI3> r = box.chop();
    int m[3];
    for (int d = 0; d < 3; d++) m[d] = n(d) ? n(d) : 1;
    ENSURES("as many pieces as cells", r.size() == (size_t)m[0] * m[1] * m[2]);
    size_t s = 0;
    for (int i = 0; i < m[0]; i++) for (int j = 0; j < m[1]; j++) for (int k = 0; k < m[2]; k++, s++) {
        CVecI3 lo(a(0) + i, a(1) + j, a(2) + k);
        for (int d = 0; d < 3; d++) ENSURES("each piece is one cell, in order", r[s].getMin()(d) == lo(d) && r[s].getMax()(d) == lo(d) + (n(d) ? 1 : 0));
    }
}
template<class T> void steps(double u) {
    long e = vc::choice("axis", 0, 2);
    long lo = range("lo", VC_PROVING ? -1 : -9, VC_PROVING ? 1 : 9), n = range("n", 0, VC_PROVING ? 3 : 7), s = range("s", 0, VC_PROVING ? 4 : 9);
    Vector::Cartesian<T, 3> a(T(0), T(0), T(0)), b(T(0), T(0), T(0)), t(T(1), T(1), T(1));
    for (int d = 0; d < 3; d++) t(d) = (T)u;
    a(e) = T(lo * u);
    b(e) = T((lo + n) * u);
    b((e + 1) % 3) = T(2 * u);
    t(e) = T(s * u);
    Box<T, 3> box(a, b);
    std::vector<Box<T, 3>> r = box.chop(t);
    for (size_t i = 0; i < r.size(); i++) {
        ENSURES("pieces lie within the box", r[i] <= box);
        ENSURES("pieces are not longer than the step", s == 0 || r[i].getMax()(e) - r[i].getMin()(e) <= s * u);
        ENSURES("pieces are as flat as the box", (r[i].getMin()(e) < r[i].getMax()(e)) == (n > 0) && r[i].getMax()((e + 1) % 3) == r[i].getMin()((e + 1) % 3) + T(u));
    }
    for (long i = 0; i < (n ? n : 1); i++) for (long j = 0; j < 2; j++) {
        CVecR3 x(0.0, 0.0, 0.0);
        x(e) = (lo + (n ? i + 0.5 : 0)) * u;
        x((e + 1) % 3) = (j + 0.5) * u;
        ENSURES("every cell of the box is in one piece", inside(r, x, true) == 1);
    }
}
VC_DRIVER_BOUNDED(steps, "Box::chop(step)", "integer boxes from -1 to 3 and steps up to 4 along one axis, two cells along another") { steps<Int>(1); }
VC_DRIVER_BOUNDED(rsteps, "Box::chop(step)", "real boxes from -0.5 to 1.5 and steps up to 2 along one axis, multiples of a half") { steps<Real>(0.5); }
