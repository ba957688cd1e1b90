// Grid cell location: node, cell and fractional position of a coordinate
// VC-SOURCES: core/math/util/Real.cpp core/math/vector/CVecI3Fractional.cpp
// VC-STUBS: getStep
#include "vc.h"
#include "geometry/Grid.h"
using namespace SEMBA;
using namespace SEMBA::Math;
using namespace SEMBA::Geometry;
typedef std::vector<Real> VR;
struct Pos { VR p[3]; };
static Pos axes(long a) {
    Pos r;
    for (int d = 0; d < 3; d++) r.p[d] = vc::increasing("p", 2);
    return r;
}
static double ab(double x) { return x < 0 ? -x : x; }
// a coordinate somewhere about the grid
static double about(const VR& p) {
#if VC_PROVING
    return vc::real("x");
#else
    long k = vc::integer("k", 0, (long)p.size() - 1);
    double h = k + 1 < (long)p.size() ? p[k + 1] - p[k] : p[k] - p[k - 1];
    long w = vc::integer("w", 0, 9);
    static const double t[] = {0, 0.5, 0.25, 0.9, 0.02, -0.02, 1.5, -0.5, 0.005, -0.005};
    return p[k] + t[w] * h;
#endif
}

#if VC_PROVING
// contract of Grid::getStep(axis), used at its call sites; discharged by driver stepsOfAxis
VC_STUB(getStep, "SEMBA::Geometry::Grid<3ul>::getStep(unsigned long) const") VR stub_getStep(const Grid3* g, size_t dir) {
    PRE("axis exists", dir < 3);
    VR p = g->getPos(dir), r = vc::vec<double>("steps");
    REQUIRES(r.size() == (p.size() == 0 ? 0 : p.size() - 1));
    REQUIRES(FORALL(k, 0, r.size(), { return r[k] == p[k + 1] - p[k]; }));
    return r;
}
#endif
VC_DRIVER(stepsOfAxis, "Grid::getStep(axis), getStep(axis, cell); SEMBA::Geometry::Grid<3ul>::getStep(unsigned long) const") {
    Pos q;
    for (int d = 0; d < 3; d++) q.p[d] = vc::vec<double>("p");
    long a = vc::integer("axis", 0, 2);
    VC_INVIV3(Real, i, v, d, { return FORALL(k, 0, i, { return v[k] == q.p[d][k + 1] - q.p[d][k]; }); });
    Grid3 g(q.p);
    VR s = g.getStep(a);
    size_t n = q.p[a].size();
    ENSURES("one step per cell", s.size() == (n == 0 ? 0 : n - 1));
    ENSURES("steps are the differences of consecutive positions", FORALL(k, 0, s.size(), { return s[k] == q.p[a][k + 1] - q.p[a][k]; }));
    long i = vc::integer("i", 0, 1000000);
    REQUIRES(i + 1 < (long)n);
    ENSURES("step of one cell", g.getStep(a, (int)i) == q.p[a][i + 1] - q.p[a][i]);
}
static void locate(int a, bool approx) {
    Pos q = axes(0);
    const VR& p = q.p[a];
    Grid3 g(q.p);
    double x = about(p);
    long i = vc::integer("i", 0, VC_PROVING ? 1000000 : 6);
    REQUIRES(i + 1 < (long)p.size());
    double h = p[i + 1] - p[i];
    // further from the cell's ends than the tolerance of any node up to it
    REQUIRES(x > p[i] + 0.011 * h && x < p[i + 1] - 0.011 * h);
    REQUIRES(FORALL(k, 1, i + 1, { return x > p[k] + 0.011 * (p[k] - p[k - 1]); }));
    VC_INV(j, { return FORALL(k, 0, j, { return p[k] < x; }); });
    bool err = true;
    std::pair<Int, Real> r = g.getCellPair(a, x, approx, Grid3::tolerance, &err);
    ENSURES("the coordinate is on the grid", !err);
    double f = (x - p[i]) / h;
    if (!approx || f < 0.4999) {
        ENSURES("the cell contains the coordinate", r.first == i);
        ENSURES("the fraction is the position in the cell", vc::eq(r.second, f));
    } else if (f > 0.5) {
        ENSURES("the nearest node is the upper one", r.first == i + 1);
        ENSURES("the fraction is measured from the nearest node", vc::eq(r.second, f - 1));
    }
}
VC_DRIVER(insideCell, "Grid::getCellPair without rounding, coordinate in the interior of a cell") { locate(1, false); }
VC_DRIVER(nearestNode, "Grid::getCellPair with rounding, coordinate in the interior of a cell") { locate(2, true); }
VC_DRIVER(onNode, "Grid::getCellPair, coordinate on a node") {
    Pos q = axes(0);
    const VR& p = q.p[0];
    Grid3 g(q.p);
    long i = vc::integer("i", 0, VC_PROVING ? 1000000 : 6);
    REQUIRES(i < (long)p.size());
    double x = p[i];
    REQUIRES(FORALL(k, 1, p.size(), { return p[k] - p[k - 1] > 1e-9; }));
    REQUIRES(FORALL(k, 0, i, { return x > p[k] + 0.011 * (p[k + 1] - p[k]); }) && FORALL(k, 1, i, { return x > p[k] + 0.011 * (p[k] - p[k - 1]); }));
    VC_INV(j, { return FORALL(k, 0, j, { return p[k] < x; }); });
    bool err = true, approx = vc::boolean("approx");
    std::pair<Int, Real> r = g.getCellPair(0, x, approx, Grid3::tolerance, &err);
    ENSURES("a node is on the grid", !err);
    ENSURES("the cell is the node's index", r.first == i);
    ENSURES("the fraction is zero", r.second == 0.0);
}
// the tolerance of a node is a hundredth of the cell below it (of the first cell, for the first node), wherever the node is
VC_DRIVER(nearNode, "Grid::getCellPair, coordinate within tolerance of a node") {
    Pos q = axes(0);
    const VR& p = q.p[0];
    Grid3 g(q.p);
    long i = vc::integer("i", 0, VC_PROVING ? 1000000 : 6);
    REQUIRES(i < (long)p.size());
    double h = i > 0 ? p[i] - p[i - 1] : p[1] - p[0], x = VC_PROVING ? vc::real("x") : p[i] + vc::integer("off", -9, 9) * 0.001 * h;
    REQUIRES(ab(x - p[i]) < 0.0099 * h);
    REQUIRES(FORALL(k, 0, i, { return x > p[k] + 0.011 * (p[k + 1] - p[k]); }) && FORALL(k, 1, i, { return x > p[k] + 0.011 * (p[k] - p[k - 1]); }));
    VC_INV(j, { return (long)j <= i && FORALL(k, 0, j, { return p[k] < x; }); });
    bool err = true, approx = vc::boolean("approx");
    std::pair<Int, Real> r = g.getCellPair(0, x, approx, Grid3::tolerance, &err);
    ENSURES("coordinates within tolerance of a node are on the grid", !err);
    ENSURES("they are at the node", r.first == i && r.second == 0.0);
}
VC_DRIVER(outside, "Grid::getCellPair, coordinate off the grid") {
    Pos q = axes(0);
    const VR& p = q.p[0];
    Grid3 g(q.p);
    double x = about(p);
    size_t n = p.size();
    bool lo = x < p[0] - 0.011 * (p[1] - p[0]), hi = FORALL(k, 1, n, { return x > p[k] + 0.011 * (p[k] - p[k - 1]); }) && x > p[0] + 0.011 * (p[1] - p[0]);
    REQUIRES(lo || hi);
    VC_INV(j, { return FORALL(k, 0, j, { return p[k] < x; }); });
    bool err = false, approx = vc::boolean("approx");
    std::pair<Int, Real> r = g.getCellPair(0, x, approx, Grid3::tolerance, &err);
    ENSURES("off the grid", err);
    ENSURES("the outermost cell is reported", r.first == (lo ? 0 : (long)n - 1));
    ENSURES("the fraction measures the distance in outermost cells", lo ? vc::eq(r.second, (x - p[0]) / (p[1] - p[0])) : vc::eq(r.second, (x - p[n - 1]) / (p[n - 1] - p[n - 2])));
}
// whatever the coordinate: the reported cell and fraction locate it to within the tolerance
VC_DRIVER(consistent, "Grid::getCellPair, any coordinate") {
    Pos q = axes(0);
    const VR& p = q.p[0];
    Grid3 g(q.p);
    double x = about(p);
    size_t n = p.size();
    VC_INV(j, { return FORALL(k, 0, j, { return p[k] < x; }); });
    bool err = false;
    std::pair<Int, Real> r = g.getCellPair(0, x, false, Grid3::tolerance, &err);
    ENSURES("the cell index is a node of the grid", 0 <= r.first && r.first < (long)n);
    if (!err) {
        ENSURES("the fraction lies in the cell", 0 <= r.second && vc::le(r.second, 1.0));
        double h = r.first > 0 ? p[r.first] - p[r.first - 1] : p[1] - p[0];
        if (r.second == 0) ENSURES("snapped coordinates are within tolerance of the node", vc::le(ab(x - p[r.first]), 0.01 * h));
        else ENSURES("cell and fraction reconstruct the coordinate", vc::eq(p[r.first] + r.second * (p[r.first + 1] - p[r.first]), x));
    } else {
        ENSURES("only coordinates beyond an end are off the grid", x < p[0] || x > p[n - 1]);
    }
}

// --- the functions built on the one-axis location, against any behaviour of it
static Int ghostCell[3];
static Real ghostFrac[3], ghostX[3], ghostTol[3];
static bool ghostErr[3], ghostApprox[3];
#if VC_PROVING
VC_STUB(getCellPair, "SEMBA::Geometry::Grid<3ul>::getCellPair(unsigned long, double, bool, double, bool*) const") std::pair<Int, Real> stub_getCellPair(const Grid3* g, size_t dir, Real x, bool approx, Real tol, bool* err) {
    PRE("axis exists", dir < 3);
    Int c = (Int)vc::integer("cell", 0, 1000000);
    Real f = vc::real("frac");
    bool e = vc::boolean("err");
    ghostCell[dir] = c; ghostFrac[dir] = f; ghostErr[dir] = e; ghostX[dir] = x; ghostTol[dir] = tol; ghostApprox[dir] = approx;
    if (err != nullptr) *err = e;
    return std::make_pair(c, f);
}
#else
static void ghosts(const Grid3& g, const CVecR3& x, bool approx, Real tol) {
    for (int d = 0; d < 3; d++) {
        std::pair<Int, Real> r = g.getCellPair(d, x(d), approx, tol, &ghostErr[d]);
        ghostCell[d] = r.first; ghostFrac[d] = r.second; ghostX[d] = x(d); ghostTol[d] = tol; ghostApprox[d] = approx;
    }
}
#endif
VC_OPT(threeAxes, "stubs=getCellPair")
VC_DRIVER(threeAxes, "Grid::getCellPair(position), getCell(axis), getCell(position), isCell, getBoxIContaining") {
    Pos q = axes(0);
    Grid3 g(q.p);
    double x[3];
    for (int d = 0; d < 3; d++) x[d] = about(q.p[d]);
    CVecR3 v(x[0], x[1], x[2]);
    bool approx = vc::boolean("approx"), err = true;
#if !VC_PROVING
    ghosts(g, v, approx, 0.02);
#endif
    std::pair<CVecI3, CVecR3> r = g.getCellPair(v, approx, 0.02, &err);
    for (int d = 0; d < 3; d++) {
        ENSURES("each axis is located on its own", r.first(d) == ghostCell[d] && r.second(d) == ghostFrac[d]);
        ENSURES("the axis coordinate, rounding and tolerance are passed on", ghostX[d] == x[d] && ghostApprox[d] == approx && ghostTol[d] == 0.02);
    }
    ENSURES("off the grid iff some axis is", err == (ghostErr[0] || ghostErr[1] || ghostErr[2]));
    CVecI3 c = g.getCell(v, approx, 0.02, &err);
    for (int d = 0; d < 3; d++) ENSURES("the cell of a position is the one located", c(d) == ghostCell[d]);
    ENSURES("getCell reports off-grid positions", err == (ghostErr[0] || ghostErr[1] || ghostErr[2]));
    Int c1 = g.getCell(1, x[1], approx, 0.02, &err);
    ENSURES("the cell of one axis is the one located", c1 == ghostCell[1] && err == ghostErr[1]);
#if !VC_PROVING
    ghosts(g, v, true, 0.02);
#endif
    bool isC = g.isCell(v, 0.02);
    ENSURES("a position is a node iff no axis has a fraction", (!isC || (ab(ghostFrac[0]) < 1e-9 && ab(ghostFrac[1]) < 1e-9 && ab(ghostFrac[2]) < 1e-9)) && (isC || ghostFrac[0] != 0 || ghostFrac[1] != 0 || ghostFrac[2] != 0));
    ENSURES("with the requested tolerance", ghostTol[0] == 0.02);
#if !VC_PROVING
    ghosts(g, v, false, Grid3::tolerance);
#endif
    BoxI3 b = g.getBoxIContaining(v);
    ENSURES("the containing cell is found without rounding", !ghostApprox[0] && !ghostApprox[1] && !ghostApprox[2]);
    for (int d = 0; d < 3; d++) ENSURES("the containing cell box is one cell wide", b.getMin()(d) == ghostCell[d] && b.getMax()(d) == ghostCell[d] + 1);
}
VC_DRIVER(boxContaining, "Grid::getBoxRContaining, getBoundingBox") {
    Pos q = axes(0);
    Grid3 g(q.p);
    long i[3], j[3];
    for (int d = 0; d < 3; d++) {
        i[d] = vc::integer("i", 0, VC_PROVING ? 1000000 : 6);
        j[d] = vc::integer("j", 0, VC_PROVING ? 1000000 : 6);
        REQUIRES(i[d] < (long)q.p[d].size() && j[d] < (long)q.p[d].size());
    }
    BoxR3 b = g.getBoundingBox(BoxI3(CVecI3((int)i[0], (int)i[1], (int)i[2]), CVecI3((int)j[0], (int)j[1], (int)j[2])));
    for (int d = 0; d < 3; d++) {
        long lo = i[d] < j[d] ? i[d] : j[d], hi = i[d] < j[d] ? j[d] : i[d];
        ENSURES("corners of the box are the positions of its node indices", b.getMin()(d) == q.p[d][lo] && b.getMax()(d) == q.p[d][hi]);
    }
}
VC_DRIVER(naturalCell, "Grid::getNaturalCell") {
    Pos q = axes(0);
    const VR& p = q.p[2];
    Grid3 g(q.p);
    double x = about(p);
    size_t n = p.size();
    VC_INV(j, { return FORALL(k, 0, j, { return p[k] <= x; }); });
    VC_INV(j, { return j < (long)p.size(); });
    long i = -7;
    Real f = 5;
    bool in = g.getNaturalCell(Constants::z, x, i, f);
    ENSURES("inside iff between the first position and the last", in == (p[0] <= x && x < p[n - 1]));
    if (in) {
        ENSURES("a cell of the grid", 0 <= i && i + 1 < (long)n);
        ENSURES("the cell contains the coordinate", p[i] <= x && x < p[i + 1]);
        ENSURES("the fraction is the position in the cell", vc::eq(f, (x - p[i]) / (p[i + 1] - p[i])));
    } else {
        ENSURES("below: first cell, above: number of cells", i == (x < p[0] ? 0 : (long)n - 1));
        ENSURES("no fraction off the grid", f == -1.0);
    }
}
static void fractional(int only) {
    Pos q = axes(0);
    double x[3] = {0, 0, 0};
    bool in = true;
    for (int d = 0; d < 3; d++) {
        if (only >= 0 && d != only) { q.p[d] = VR(); continue; }
        x[d] = about(q.p[d]);
        const VR& p = q.p[d];
        // either clearly inside, clearly outside or exactly at an end (the ends are compared with a relative tolerance)
        double span = ab(p[0]) + ab(p.back()) + 1;
        REQUIRES(x[d] == p[0] || x[d] == p.back() || x[d] < p[0] - 1e-6 * span || x[d] > p.back() + 1e-6 * span || (p[0] < x[d] && x[d] < p.back()));
        in = in && p[0] <= x[d] && x[d] <= p.back();
    }
    Grid3 g(q.p);
    VC_INVI3(j, d, { return FORALL(k, 0, j, { return q.p[d][k] <= x[d]; }); });
    VC_INVI3(j, d, { return j < (long)q.p[d].size(); });
    bool into = false;
    CVecI3Fractional r = g.getCVecI3Fractional(CVecR3(x[0], x[1], x[2]), into);
    ENSURES("inside iff within the ends of every axis", into == in);
    if (in) for (int d = 0; d < 3; d++) if (only < 0 || d == only) {
        const VR& p = q.p[d];
        long i = r(d), n = (long)p.size();
        ENSURES("the cell is a node of the grid", 0 <= i && i < n);
        ENSURES("the cell contains the coordinate", p[i] <= x[d] && (i == n - 1 ? x[d] == p[i] : x[d] < p[i + 1]));
        ENSURES("the fraction is the position in the cell", i == n - 1 ? r.len_(d) == 0 : vc::eq(r.len_(d), (x[d] - p[i]) / (p[i + 1] - p[i])));
    }
}
VC_DRIVER(fractionalCellX, "Grid::getCVecI3Fractional, axis x") { fractional(0); }
VC_DRIVER(fractionalCellY, "Grid::getCVecI3Fractional, axis y") { fractional(1); }
VC_DRIVER(fractionalCellZ, "Grid::getCVecI3Fractional, axis z") { fractional(2); }
VC_NATIVE(fractionalCell, "Grid::getCVecI3Fractional, three axes at once", "grids of 2..7 positions per axis") { fractional(-1); }
