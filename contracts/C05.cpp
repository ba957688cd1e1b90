// Grids: construction covers the box with ordered positions; copies and edits keep existing positions
// VC-SOURCES: core/math/util/Real.cpp core/math/vector/CVecI3Fractional.cpp
#include "vc.h"
#include "geometry/Grid.h"
using namespace SEMBA;
using namespace SEMBA::Math;
using namespace SEMBA::Geometry;
typedef std::vector<Real> VR;
static CVecR3 rv(const char* n) { double x = vc::real(n), y = vc::real(n), z = vc::real(n); return CVecR3(x, y, z); }
// one symbolic axis, two short ones: every function under contract treats axes independently
struct Pos { VR p[3]; };
static Pos positions(const char* n) {
    Pos r;
    for (int d = 0; d < 3; d++) r.p[d] = vc::vec<double>(n);
    return r;
}

VC_DRIVER(fromBoxAndDims, "Grid::Grid(box, cells)") {
    CVecR3 a = rv("a"), b = rv("b");
    int n[3];
    for (int d = 0; d < 3; d++) { REQUIRES(a(d) < b(d)); n[d] = (int)vc::integer("n", 1, 400); }
    VC_INVIV3(Real, i, v, d, { return FORALL(k, 0, i, { return v[k] == a(d) + k * ((b(d) - a(d)) / n[d]); }); });
    Grid3 g(BoxR3(a, b), CVecI3(n[0], n[1], n[2]));
    for (int d = 0; d < 3; d++) {
        VR p = g.getPos(d);
        ENSURES("requested number of cells", p.size() == (size_t)n[d] + 1);
        ENSURES("positions are evenly spaced from the lower corner", FORALL(k, 0, n[d] + 1, { return vc::eq(p[k], a(d) + k * ((b(d) - a(d)) / n[d])); }));
    }
}

VC_DRIVER(fromBoxAndStep, "Grid::Grid(box, step)") {
    CVecR3 a = rv("a"), b = rv("b"), h = rv("h");
    for (int d = 0; d < 3; d++) REQUIRES(a(d) <= b(d) && h(d) > 1e-9);
    if (!VC_PROVING) for (int d = 0; d < 3; d++) REQUIRES((b(d) - a(d)) / h(d) < 5000);
    VC_INVIV3(Real, i, v, d, { return FORALL(k, 0, i, { return v[k] == a(d) + k * h(d); }); });
    Grid3 g(BoxR3(a, b), h);
    for (int d = 0; d < 3; d++) {
        VR p = g.getPos(d);
        ENSURES("starts at the lower corner", p.size() >= 1 && p[0] == a(d));
        ENSURES("every step is the requested one", FORALL(k, 0, p.size(), { return vc::eq(p[k], a(d) + k * h(d)); }));
        ENSURES("the grid covers the box", vc::le(b(d), p.back()));
        ENSURES("no superfluous cell", p.size() == 1 || vc::le(p[p.size() - 2], b(d)));
    }
}
VC_DRIVER(fromPositions, "Grid::Grid(positions), copy, operator=, getPos, getPos(ijk), getNumCells, getOrigin, getOffset") {
    Pos q = positions("p");
    for (int d = 0; d < 3; d++) REQUIRES(q.p[d].size() >= 2);
    Grid3 g(q.p), c(g), e;
    e = g;
    e = e;
    CVecI3 n = g.getNumCells();
    for (int d = 0; d < 3; d++) {
        VR p = g.getPos(d);
        ENSURES("positions are the given ones", p.size() == q.p[d].size() && FORALL(k, 0, p.size(), { return p[k] == q.p[d][k]; }));
        VR r = c.getPos(d), s = e.getPos(d);
        ENSURES("a copy has the same positions", r.size() == p.size() && FORALL(k, 0, p.size(), { return r[k] == p[k]; }));
        ENSURES("an assigned grid has the same positions", s.size() == p.size() && FORALL(k, 0, p.size(), { return s[k] == p[k]; }));
        ENSURES("cells are the intervals", (size_t)n(d) + 1 == p.size());
        ENSURES("origin is the first position", g.getOrigin()(d) == p[0]);
        ENSURES("offset is zero", g.getOffset()(d) == 0);
    }
    long i = vc::integer("i", 0, 1000), j = vc::integer("j", 0, 1000), k = vc::integer("k", 0, 1000);
    REQUIRES(i <= n(0) && j <= n(1) && k <= n(2));
    CVecR3 x = g.getPos(CVecI3((int)i, (int)j, (int)k));
    ENSURES("the node of a cell index combines the three axes", x(0) == q.p[0][i] && x(1) == q.p[1][j] && x(2) == q.p[2][k]);
    ENSURES("single position", g.getPos(0, (int)i) == q.p[0][i] && g.getPos(1, (int)j) == q.p[1][j] && g.getPos(2, (int)k) == q.p[2][k]);
}
VC_DRIVER(setPositions, "Grid::setPos") {
    Pos q = positions("p");
    Pos o = positions("o");
    Grid3 g(o.p);
    bool empty = q.p[0].empty() || q.p[1].empty() || q.p[2].empty();
    bool threw = THROWS(g.setPos(q.p));
    ENSURES("an axis without positions is rejected", threw == empty);
    if (!threw) {
        for (int d = 0; d < 3; d++) {
            VR p = g.getPos(d);
            ENSURES("at least one cell", p.size() == (q.p[d].size() == 1 ? 2 : q.p[d].size()));
            ENSURES("positions are the given ones", FORALL(k, 0, q.p[d].size(), { return p[k] == q.p[d][k]; }));
            ENSURES("a single position becomes an empty cell", q.p[d].size() != 1 || p[1] == q.p[d][0]);
        }
    }
}
VC_DRIVER(emptyGrid, "Grid::Grid(), getOrigin, hasZeroSize") {
    Grid3 g;
    ENSURES("no origin", THROWS(g.getOrigin()));
    ENSURES("zero size", g.hasZeroSize());
    Pos q = positions("p");
    Grid3 h(q.p);
    ENSURES("zero size iff no axis has a cell", h.hasZeroSize() == (q.p[0].size() <= 1 && q.p[1].size() <= 1 && q.p[2].size() <= 1));
}
VC_DRIVER(appendSteps, "Grid::setAdditionalSteps(upper)") {
    Pos q = positions("p");
    long a = vc::integer("axis", 0, 2);
    VR s = vc::vec<double>("s");
    REQUIRES(s.size() >= 1 && q.p[a].size() >= 1);
    Grid3 g(q.p);
    VC_INVIV(Real, i, v, { return v[0] == q.p[a].back() + s[0]; });
    VC_INVIV(Real, i, v, { return FORALL(k, 1, i, { return v[k] == v[k - 1] + s[k]; }); });
    g.setAdditionalSteps(Constants::CartesianAxis(a), Constants::U, s);
    VR p = g.getPos(a);
    size_t n = q.p[a].size();
    ENSURES("one position per step", p.size() == n + s.size());
    ENSURES("existing positions are kept", FORALL(k, 0, n, { return p[k] == q.p[a][k]; }));
    ENSURES("the new steps follow in order", FORALL(k, 0, s.size(), { return p[n + k] == p[n + k - 1] + s[k]; }));
    for (int d = 0; d < 3; d++) if (d != a) {
        VR r = g.getPos(d);
        ENSURES("other axes are untouched", r.size() == q.p[d].size() && FORALL(k, 0, r.size(), { return r[k] == q.p[d][k]; }));
    }
}
VC_DRIVER(prependSteps, "Grid::setAdditionalSteps(lower)") {
    Pos q = positions("p");
    long a = vc::integer("axis", 0, 2);
    VR s = vc::vec<double>("s");
    REQUIRES(s.size() >= 1 && q.p[a].size() >= 1);
    Grid3 g(q.p);
    VC_INVIV(Real, i, v, { return v[0] == q.p[a].front() - s[0]; });
    VC_INVIV(Real, i, v, { return FORALL(k, 1, i, { return v[k] == v[k - 1] - s[k]; }); });
    g.setAdditionalSteps(Constants::CartesianAxis(a), Constants::L, s);
    VR p = g.getPos(a);
    size_t n = q.p[a].size(), m = s.size();
    ENSURES("one position per step", p.size() == n + m);
    ENSURES("existing positions are kept", FORALL(k, 0, n, { return p[m + k] == q.p[a][k]; }));
    ENSURES("the new steps go outwards in order", FORALL(k, 0, m, { return p[k] == p[k + 1] - s[m - 1 - k]; }));
    for (int d = 0; d < 3; d++) if (d != a) {
        VR r = g.getPos(d);
        ENSURES("other axes are untouched", r.size() == q.p[d].size() && FORALL(k, 0, r.size(), { return r[k] == q.p[d][k]; }));
    }
}
VC_DRIVER(scaling, "Grid::applyScalingFactor") {
    Pos q = positions("p");
    double f = vc::real("f");
    Grid3 g(q.p);
    VC_INVIV3(Real, i, v, d, { return FORALL(k, 0, i, { return v[k] == q.p[d][k] * f; }); });
    VC_INVIV3(Real, i, v, d, { return FORALL(k, i, q.p[d].size(), { return v[k] == q.p[d][k]; }); });
    g.applyScalingFactor(f);
    for (int d = 0; d < 3; d++) {
        VR p = g.getPos(d);
        ENSURES("every position is multiplied", p.size() == q.p[d].size() && FORALL(k, 0, p.size(), { return p[k] == q.p[d][k] * f; }));
    }
}

VC_DRIVER(flatAxis, "Grid::Grid(box, step) with a zero step") {
    CVecR3 a = rv("a");
    double y1 = vc::real("y1");
    Grid3 g(BoxR3(a, CVecR3(a(0), y1, a(2))), CVecR3(0.0));
    for (int d = 0; d < 3; d++) {
        VR p = g.getPos(d);
        ENSURES("one empty cell at the lower corner", p.size() == 2 && p[0] == (d == 1 && y1 < a(1) ? y1 : a(d)) && p[1] == p[0]);
    }
}
// enlarging one side of one axis
static void enlarge(bool upper, bool grow) {
    Pos q = positions("p");
    long a = vc::integer("axis", 0, 2);
    for (int d = 0; d < 3; d++) REQUIRES(q.p[d].size() >= 2);
    VR& o = q.p[a];
    size_t n = o.size();
    double edge = upper ? o[n - 1] - o[n - 2] : o[1] - o[0];
    double pad = vc::real("pad"), siz = vc::real("siz");
    REQUIRES(edge > 1e-3 && siz >= 0 && siz <= pad && pad > 0);
    if (!VC_PROVING) REQUIRES(pad / edge < 1000 && edge < 1e3);
    // the two growth laws of the function: constant size, or graded towards the requested size
    REQUIRES(grow ? siz > 1.001 * edge : siz <= edge);
    Grid3 g(q.p);
    VC_INVIV(Real, i, v, { return v[0] == o.back() + edge; });
    VC_INVIV(Real, i, v, { return v[0] == o.front() - edge; });
    VC_INVIV(Real, i, v, { return FORALL(k, 1, i, { return v[k] == v[k - 1] + edge; }); });
    VC_INVIV(Real, i, v, { return FORALL(k, 1, i, { return v[k] == v[k - 1] - edge; }); });
    VC_INVIVW(Real, i, v, w, { return FORALL(k, 1, i, { return v[k] == v[k - 1] + w[k]; }); });
    VC_INVIVW(Real, i, v, w, { return FORALL(k, 1, i, { return v[k] == v[k - 1] - w[k]; }); });
    VC_INVIVW(Real, i, v, w, { return v[0] == o.back() + w[0]; });
    VC_INVIVW(Real, i, v, w, { return v[0] == o.front() - w[0]; });
    g.enlargeBound(Constants::CartesianAxis(a), upper ? Constants::U : Constants::L, pad, siz);
    VR p = g.getPos(a);
    ENSURES("the grid does not shrink", p.size() >= n);
    size_t m = p.size() - n, off = upper ? 0 : m;
    ENSURES("existing positions are kept", FORALL(k, 0, n, { return p[off + k] == o[k]; }));
    if (!grow) {
        double f = pad / edge;
        ENSURES("new cells have the size of the boundary cell", upper ? FORALL(k, 0, m, { return vc::eq(p[n + k], p[n + k - 1] + edge); })
                                                                      : FORALL(k, 0, m, { return vc::eq(p[k], p[k + 1] - edge); }));
        ENSURES("as many cells as the padding needs", vc::le(f, (double)m + 0.01) && vc::lt((double)m, f + 1));
    } else {
        ENSURES("the outermost cell has the requested size", vc::eq(upper ? p[n + m - 1] - p[n + m - 2] : p[1] - p[0], siz));
    }
    for (int d = 0; d < 3; d++) if (d != a) {
        VR r = g.getPos(d);
        ENSURES("other axes are untouched", r.size() == q.p[d].size() && FORALL(k, 0, r.size(), { return r[k] == q.p[d][k]; }));
    }
}
VC_DRIVER(enlargeUpper, "Grid::enlargeBound(upper), constant size") { enlarge(true, false); }
VC_DRIVER(enlargeLower, "Grid::enlargeBound(lower), constant size") { enlarge(false, false); }
VC_DRIVER(enlargeUpperGraded, "Grid::enlargeBound(upper), graded") { enlarge(true, true); }
VC_DRIVER(enlargeLowerGraded, "Grid::enlargeBound(lower), graded") { enlarge(false, true); }
VC_DRIVER(enlargeIgnored, "Grid::enlargeBound, nothing to do") {
    Pos q = positions("p");
    long a = vc::integer("axis", 0, 2), b = vc::integer("bound", 0, 1);
    for (int d = 0; d < 3; d++) REQUIRES(q.p[d].size() >= 2);
    double pad = vc::real("pad"), siz = vc::real("siz");
    REQUIRES((siz > pad && pad >= 0) || (pad == 0 && siz == 0));
    Grid3 g(q.p);
    g.enlargeBound(Constants::CartesianAxis(a), Constants::CartesianBound(b), pad, siz);
    for (int d = 0; d < 3; d++) {
        VR r = g.getPos(d);
        ENSURES("the grid is unchanged", r.size() == q.p[d].size() && FORALL(k, 0, r.size(), { return r[k] == q.p[d][k]; }));
    }
}
