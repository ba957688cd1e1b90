// Grid queries: extent, regularity, steps, cells and nodes inside a range
// VC-SOURCES: core/math/util/Real.cpp core/math/vector/CVecI3Fractional.cpp
// VC-STUBS: getStep
#include "vc.h"
#include "geometry/Grid.h"
using namespace SEMBA;
using namespace SEMBA::Math;
using namespace SEMBA::Geometry;
typedef std::vector<Real> VR;
struct Pos { VR p[3]; };
static Pos axes(size_t n) {
    Pos r;
    for (int d = 0; d < 3; d++) r.p[d] = vc::increasing("p", n);
    return r;
}
static double ab(double x) { return x < 0 ? -x : x; }
#if VC_PROVING
// discharged by contract C06 stepsOfAxis
VC_STUB(getStep, "SEMBA::Geometry::Grid<3ul>::getStep(unsigned long) const") VR stub_getStep(const Grid3* g, size_t dir) {
    PRE("axis exists", dir < 3);
    VR p = g->getPos(dir), r = vc::vec<double>("steps");
    REQUIRES(r.size() == (p.size() == 0 ? 0 : p.size() - 1));
    REQUIRES(FORALL(k, 0, r.size(), { return r[k] == p[k + 1] - p[k]; }));
    return r;
}
#endif
VC_OPT(minimumStep, "inf=1")
VC_DRIVER(extent, "Grid::getFullDomainBoundingBox, getNumCells, isInto") {
    Pos q = axes(1);
    Grid3 g(q.p);
    BoxR3 b = g.getFullDomainBoundingBox();
    CVecI3 n = g.getNumCells();
    double x[3];
    bool in = true;
    for (int d = 0; d < 3; d++) {
        ENSURES("the domain spans from the first to the last position", b.getMin()(d) == q.p[d][0] && b.getMax()(d) == q.p[d].back());
        ENSURES("one cell fewer than positions", n(d) == (long)q.p[d].size() - 1);
        x[d] = vc::real("x");
        bool ind = q.p[d][0] <= x[d] && x[d] <= q.p[d].back();
        ENSURES("a coordinate is inside its axis iff between the ends", g.isInto(d, x[d]) == ind);
        in = in && ind;
    }
    ENSURES("a position is inside iff every coordinate is", g.isInto(CVecR3(x[0], x[1], x[2])) == in);
}
VC_DRIVER(minimumStep, "Grid::getMinimumSpaceStep") {
    Pos q = axes(2);
    Grid3 g(q.p);
    for (int d = 0; d < 3; d++) REQUIRES(FORALL(k, 0, q.p[d].size(), { return -1e299 < q.p[d][k] && q.p[d][k] < 1e299; }));
    double anchor = vc::real("anchor");
#if VC_PROVING
    VC_INVIR(i, m, { return FORALL(k, 0, i, { return m <= q.p[0][k + 1] - q.p[0][k]; }); });
    VC_INVIR(i, m, { return FORALL(k, 0, i, { return m <= q.p[1][k + 1] - q.p[1][k]; }); });
    VC_INVIR(i, m, { return FORALL(k, 0, i, { return m <= q.p[2][k + 1] - q.p[2][k]; }); });
    VC_INVR(m, { return FORALL(k, 0, q.p[0].size() - 1, { return m <= q.p[0][k + 1] - q.p[0][k]; }); });
    VC_INVR(m, { return FORALL(k, 0, q.p[1].size() - 1, { return m <= q.p[1][k + 1] - q.p[1][k]; }); });
    VC_INVIR(i, m, { return (i == 0 && m > 9e299) || EXISTS(k, 0, q.p[0].size() - 1, { return m == q.p[0][k + 1] - q.p[0][k]; }) ||
                            EXISTS(k, 0, q.p[1].size() - 1, { return m == q.p[1][k + 1] - q.p[1][k]; }) ||
                            EXISTS(k, 0, q.p[2].size() - 1, { return m == q.p[2][k + 1] - q.p[2][k]; }); });
    VC_INVR(m, { return EXISTS(k, 0, q.p[0].size() - 1, { return m == q.p[0][k + 1] - q.p[0][k]; }) ||
                        EXISTS(k, 0, q.p[1].size() - 1, { return m == q.p[1][k + 1] - q.p[1][k]; }) ||
                        EXISTS(k, 0, q.p[2].size() - 1, { return m == q.p[2][k + 1] - q.p[2][k]; }); });
#endif
    double m = g.getMinimumSpaceStep();
    bool attained = false;
    for (int d = 0; d < 3; d++) {
        const VR& p = q.p[d];
        ENSURES("no step is smaller", FORALL(k, 0, p.size() - 1, { return m <= p[k + 1] - p[k]; }));
        attained = attained || EXISTS(k, 0, p.size() - 1, { return m == p[k + 1] - p[k]; });
    }
    ENSURES("some step has that size", attained);
}
static void regularAxis(int d, bool cart) {
    Pos q = axes(2);
    Grid3 g(q.p);
    double h = cart ? q.p[0][1] - q.p[0][0] : q.p[d][1] - q.p[d][0];
    const VR& p = q.p[d];
    REQUIRES(FORALL(k, 1, p.size(), { return p[k] - p[k - 1] > 1e-9; }));
    VC_INV(i, { return FORALL(k, 0, i, { return ab(p[k + 1] - p[k] - h) <= 0.01 * h; }); });
    VC_INV(i, { return FORALL(k, 1, i, { return ab(p[k + 1] - p[k] - h) <= 0.01 * h; }); });
    // certainly regular / certainly not: all steps within 0.99% of the first, or some beyond 1.01%
    bool same = FORALL(k, 1, p.size(), { return ab(p[k] - p[k - 1] - h) <= 0.0099 * h; });
    bool differs = EXISTS(k, 1, p.size(), { return ab(p[k] - p[k - 1] - h) > 0.0101 * h; });
    bool r = g.isRegular(d);
    if (same) ENSURES("an axis of equal steps is regular", r);
    if (differs) ENSURES("an axis with a different step is not regular", !r);
}
VC_DRIVER(regularX, "Grid::isRegular(axis)") { regularAxis(0, false); }
VC_DRIVER(regularY, "Grid::isRegular(axis)") { regularAxis(1, false); }
VC_DRIVER(regularZ, "Grid::isRegular(axis)") { regularAxis(2, false); }
#if VC_PROVING
// three values drawn once: what isRegular(axis) answers
static bool answers[3];
VC_STUB(isRegularAxis, "SEMBA::Geometry::Grid<3ul>::isRegular(unsigned long) const") bool stub_isRegularAxis(const Grid3* g, size_t dir) {
    PRE("axis exists", dir < 3);
    return answers[dir];
}
VC_OPT(regularGrid, "stubs=isRegularAxis")
VC_DRIVER(regularGrid, "Grid::isRegular()") {
    Pos q = axes(2);
    Grid3 g(q.p);
    for (int d = 0; d < 3; d++) answers[d] = vc::boolean("axis regular");
    ENSURES("a grid is regular iff every axis is", g.isRegular() == (answers[0] && answers[1] && answers[2]));
}
#endif
static void cartesian(int d) {
    Pos q = axes(2);
    Grid3 g(q.p);
    double h = q.p[0][1] - q.p[0][0];
    for (int a = 0; a < 3; a++) REQUIRES(FORALL(k, 1, q.p[a].size(), { return q.p[a][k] - q.p[a][k - 1] > 1e-9; }));
    VC_INVI3(i, a, { return FORALL(k, 0, i, { return ab(q.p[a][k + 1] - q.p[a][k] - h) <= 0.01 * h; }); });
    bool c = g.isCartesian();
    if (d < 3) {
        bool differs = EXISTS(k, 1, q.p[d].size(), { return ab(q.p[d][k] - q.p[d][k - 1] - h) > 0.0101 * h; });
        if (differs) ENSURES("a step different from the first x step is not cartesian", !c);
    } else {
        bool same = true;
        for (int a = 0; a < 3; a++) same = same && FORALL(k, 1, q.p[a].size(), { return ab(q.p[a][k] - q.p[a][k - 1] - h) <= 0.0099 * h; });
        if (same) ENSURES("equal steps on all axes make it cartesian", c);
    }
}
VC_DRIVER(cartesianX, "Grid::isCartesian") { cartesian(0); }
VC_DRIVER(cartesianY, "Grid::isCartesian") { cartesian(1); }
VC_DRIVER(cartesianZ, "Grid::isCartesian") { cartesian(2); }
VC_DRIVER(cartesianAll, "Grid::isCartesian") { cartesian(3); }
VC_NATIVE(regularNative, "Grid::isRegular(axis), isRegular, isCartesian", "grids of 2..7 positions per axis, equal steps but for at most one") {
    VR p[3];
    double h0 = 0;
    bool reg[3], cart = true;
    for (int d = 0; d < 3; d++) {
        double h = d == 0 || vc::boolean("other step") ? vc::real_in("h", 0.5, 3) : h0;
        if (d == 0) h0 = h;
        long n = vc::integer("n", 2, 7), odd = vc::integer("odd", 0, 7);
        double f = vc::real_in("f", 1.1, 2);
        p[d].push_back(vc::real_in("o", -5, 5));
        reg[d] = true;
        for (long k = 1; k < n; k++) {
            double s = k == odd ? h * f : h;
            p[d].push_back(p[d].back() + s);
            if (k == odd && n > 2) reg[d] = false;
        }
        for (long k = 1; k < n; k++) {
            double e = ab(p[d][k] - p[d][k - 1] - (p[0][1] - p[0][0])) / (p[0][1] - p[0][0]);
            REQUIRES(e < 0.005 || e > 0.02);
            if (e > 0.02) cart = false;
        }
    }
    Grid3 g(p);
    for (int d = 0; d < 3; d++) ENSURES("axis regular iff no step differs", g.isRegular(d) == reg[d]);
    ENSURES("grid regular iff all axes are", g.isRegular() == (reg[0] && reg[1] && reg[2]));
    ENSURES("cartesian iff every step equals the first", g.isCartesian() == cart);
}
static void range(int a) {
    Pos q = axes(2);
    const VR& p = q.p[a];
    Grid3 g(q.p);
    double lo = vc::real("lo"), hi = vc::real("hi");
    REQUIRES(lo <= hi);
    long n = (long)p.size();
    VC_INVIV(Real, i, v, { return v.size() <= (size_t)i && FORALL(k, 0, v.size(), { return EXISTS(j, 0, i, { return v[k] == p[j]; }); }); });
    VC_INVIV(Real, i, v, { return FORALL(k, 0, v.size(), { return FORALL(j, 0, k, { return v[j] < v[k]; }); }); });
    VC_INVIV(Real, i, v, { return FORALL(k, 0, v.size(), { return v[k] < p[i]; }) || i >= n; });
    VC_INVIV(Real, i, v, { return FORALL(k, 0, v.size(), { return (lo <= v[k] && v[k] <= hi) || EXISTS(j, 0, p.size(), {
        double h = j + 1 < n ? p[j + 1] - p[j] : p[j] - p[j - 1];
        return v[k] == p[j] && (ab(v[k] - lo) <= 0.01 * h + 1e-9 || ab(v[k] - hi) <= 0.01 * h + 1e-9); }); }); });
    VR r = g.getPosInRange(a, lo, hi);
    ENSURES("every result is a position of the axis", FORALL(k, 0, r.size(), { return EXISTS(j, 0, p.size(), { return r[k] == p[j]; }); }));
    ENSURES("in increasing order, without repetition", FORALL(k, 0, r.size(), { return FORALL(j, 0, k, { return r[j] < r[k]; }); }));
    ENSURES("nothing further from the range than the tolerance", FORALL(k, 0, r.size(), { return (lo <= r[k] && r[k] <= hi) || EXISTS(j, 0, p.size(), {
        double h = j + 1 < n ? p[j + 1] - p[j] : p[j] - p[j - 1];
        return r[k] == p[j] && (ab(r[k] - lo) <= 0.01 * h + 1e-9 || ab(r[k] - hi) <= 0.01 * h + 1e-9); }); }));
}
VC_DRIVER(positionsInRange, "Grid::getPosInRange") { range(1); }
static void rangeComplete(int a) {
    VR q[3];
    for (int d = 0; d < 3; d++) for (int k = 0; k < (d == a ? 3 : 2); k++) {
        q[d].push_back(vc::real("p"));
        if (k) REQUIRES(q[d][k - 1] < q[d][k]);
    }
    Grid3 g(q);
    double lo = vc::real("lo"), hi = vc::real("hi");
    REQUIRES(lo <= hi);
    VR r = g.getPosInRange(a, lo, hi);
    for (size_t k = 0; k < q[a].size(); k++) {
        bool found = false;
        for (size_t j = 0; j < r.size(); j++) found = found || r[j] == q[a][k];
        if (lo <= q[a][k] && q[a][k] <= hi) ENSURES("every position in the range is returned", found);
    }
}
VC_DRIVER_BOUNDED(allInRangeX, "Grid::getPosInRange", "an axis of three positions, every value") { rangeComplete(0); }
VC_DRIVER_BOUNDED(allInRangeZ, "Grid::getPosInRange", "an axis of three positions, every value") { rangeComplete(2); }
VC_NATIVE(allInRange, "Grid::getPosInRange", "grids of 2..7 positions per axis") {
    Pos q = axes(2);
    Grid3 g(q.p);
    int a = (int)vc::integer("axis", 0, 2);
    double lo = vc::real("lo"), hi = vc::real("hi");
    REQUIRES(lo <= hi);
    VR r = g.getPosInRange(a, lo, hi), w;
    for (size_t k = 0; k < q.p[a].size(); k++) if (lo <= q.p[a][k] && q.p[a][k] <= hi) {
        bool found = false;
        for (size_t j = 0; j < r.size(); j++) found = found || r[j] == q.p[a][k];
        ENSURES("every position in the range is returned", found);
    }
}
static long find(const VR& v, double x) { for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return (long)i; return -1; }
VC_NATIVE(centersOfCells, "Grid::getCenterOfCellsInside", "grids of 2..7 positions per axis") {
    Pos q = axes(2);
    Grid3 g(q.p);
    // a range between positions, to stay clear of the tolerance
    long lo[3], hi[3];
    double a[3], b[3];
    size_t want = 1;
    for (int d = 0; d < 3; d++) {
        const VR& p = q.p[d];
        long n = (long)p.size();
        lo[d] = vc::integer("lo", 0, n - 1);
        hi[d] = vc::integer("hi", 0, n - 1);
        REQUIRES(lo[d] <= hi[d]);
        a[d] = lo[d] == 0 || vc::boolean("exact") ? p[lo[d]] : (p[lo[d] - 1] + p[lo[d]]) / 2;
        b[d] = hi[d] == n - 1 || vc::boolean("exact") ? p[hi[d]] : (p[hi[d]] + p[hi[d] + 1]) / 2;
        want *= hi[d] - lo[d];
        for (long k = 1; k < n; k++) for (long j = 1; j < n; j++) REQUIRES(p[k] - p[k - 1] <= 20 * (p[j] - p[j - 1]));
    }
    std::vector<CVecR3> c = g.getCenterOfCellsInside(BoxR3(CVecR3(a[0], a[1], a[2]), CVecR3(b[0], b[1], b[2])));
    ENSURES("one centre per cell inside the box", c.size() == want);
    size_t i = 0;
    for (long x = lo[0]; x < hi[0]; x++) for (long y = lo[1]; y < hi[1]; y++) for (long z = lo[2]; z < hi[2]; z++) {
        ENSURES("cells in order, z fastest", i < c.size() && c[i](0) == (q.p[0][x] + q.p[0][x + 1]) / 2 && c[i](1) == (q.p[1][y] + q.p[1][y + 1]) / 2 && c[i](2) == (q.p[2][z] + q.p[2][z + 1]) / 2);
        i++;
    }
}
VC_NATIVE(allNodes, "Grid::getPos()", "grids of 0..6 positions per axis") {
    Pos q = axes(0);
    Grid3 g(q.p);
    std::vector<CVecR3> c = g.getPos();
    ENSURES("one position per node", c.size() == q.p[0].size() * q.p[1].size() * q.p[2].size());
    size_t i = 0;
    for (size_t x = 0; x < q.p[0].size(); x++) for (size_t y = 0; y < q.p[1].size(); y++) for (size_t z = 0; z < q.p[2].size(); z++, i++)
        ENSURES("nodes in order, z fastest", c[i](0) == q.p[0][x] && c[i](1) == q.p[1][y] && c[i](2) == q.p[2][z]);
}
