// Boxes: corners are kept in order, growth is the smallest enclosing box, order relations, intersection, faces
// VC-SOURCES: core/math/util/Real.cpp core/math/vector/CVecI3Fractional.cpp
#include "vc.h"
#include "geometry/Box.h"
#include "geometry/Grid.h"
using namespace SEMBA;
using namespace SEMBA::Math;
using namespace SEMBA::Geometry;
static CVecR3 rv(const char* n) { double x = vc::real(n), y = vc::real(n), z = vc::real(n); return CVecR3(x, y, z); }
static CVecI3 iv(const char* n) { long x = vc::integer(n, -100000, 100000), y = vc::integer(n, -100000, 100000), z = vc::integer(n, -100000, 100000); return CVecI3((int)x, (int)y, (int)z); }
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a < b ? b : a; }
static double ab(double x) { return x < 0 ? -x : x; }
static BoxR3 rbox(const char* n) { CVecR3 a = rv(n), b = rv(n); return BoxR3(a, b); }
static bool inside(const CVecR3& p, const BoxR3& b) {
    bool r = true;
    for (int d = 0; d < 3; d++) r = r && b.getMin()(d) <= p(d) && p(d) <= b.getMax()(d);
    return r;
}
VC_OPT(defaults, "inf=1")
VC_OPT(growFromNothing, "inf=1")

VC_DRIVER(normalForm, "Box::Box, Box::set, getMin, getMax, getLength, getBound") {
    CVecR3 a = rv("a"), b = rv("b");
    BoxR3 x(a, b), y(b, a), z(std::make_pair(a, b)), w;
    w.set(std::make_pair(b, a));
    CVecI3 m = iv("m"), n = iv("n");
    BoxI3 k(m, n);
    for (int d = 0; d < 3; d++) {
        ENSURES("minimum corner", x.getMin()(d) == mn(a(d), b(d)));
        ENSURES("maximum corner", x.getMax()(d) == mx(a(d), b(d)));
        ENSURES("corner order does not matter", y.getMin()(d) == x.getMin()(d) && y.getMax()(d) == x.getMax()(d));
        ENSURES("all constructors agree", z.getMin()(d) == x.getMin()(d) && z.getMax()(d) == x.getMax()(d) && w.getMin()(d) == x.getMin()(d) && w.getMax()(d) == x.getMax()(d));
        ENSURES("length is the extent", x.getLength()(d) == mx(a(d), b(d)) - mn(a(d), b(d)));
        ENSURES("bounds", x.getBound(Constants::L)(d) == x.getMin()(d) && x.getBound(Constants::U)(d) == x.getMax()(d));
        ENSURES("integer boxes are ordered too", k.getMin()(d) == (m(d) < n(d) ? m(d) : n(d)) && k.getMax()(d) == (m(d) < n(d) ? n(d) : m(d)));
    }
}
VC_DRIVER(copies, "Box copy, assignment, conversion") {
    BoxR3 x = rbox("x"), y(x), z = rbox("z");
    z = x;
    z = z;
    CVecI3 m = iv("m"), n = iv("n");
    BoxI3 k(m, n);
    BoxR3 c(k), g;
    g = k;
    for (int d = 0; d < 3; d++) {
        ENSURES("copy and assignment keep both corners", y.getMin()(d) == x.getMin()(d) && y.getMax()(d) == x.getMax()(d) && z.getMin()(d) == x.getMin()(d) && z.getMax()(d) == x.getMax()(d));
        ENSURES("conversion keeps both corners", c.getMin()(d) == k.getMin()(d) && c.getMax()(d) == k.getMax()(d) && g.getMin()(d) == k.getMin()(d) && g.getMax()(d) == k.getMax()(d));
    }
}
VC_DRIVER(growByPoint, "Box::operator<<(point)") {
    BoxR3 x = rbox("x"), y = x;
    CVecR3 p = rv("p");
    y << p;
    for (int d = 0; d < 3; d++) {
        ENSURES("smallest box containing the old box and the point", y.getMin()(d) == mn(x.getMin()(d), p(d)) && y.getMax()(d) == mx(x.getMax()(d), p(d)));
    }
    ENSURES("the point is inside", y.isInnerPoint(p));
}
VC_DRIVER(growByBox, "Box::operator<<(box), operator+=") {
    BoxR3 x = rbox("x"), y = rbox("y"), u = x, v = x;
    u << y;
    v += y;
    for (int d = 0; d < 3; d++) {
        ENSURES("smallest box containing both (<<)", u.getMin()(d) == mn(x.getMin()(d), y.getMin()(d)) && u.getMax()(d) == mx(x.getMax()(d), y.getMax()(d)));
        ENSURES("smallest box containing both (+=)", v.getMin()(d) == mn(x.getMin()(d), y.getMin()(d)) && v.getMax()(d) == mx(x.getMax()(d), y.getMax()(d)));
    }
    ENSURES("the union contains both", x <= u && y <= u);
}
VC_DRIVER(growFromNothing, "Box::Box(), operator<<, setInfinity") {
    CVecR3 p = rv("p"), q = rv("q");
    BoxR3 x;
    x << p;
    for (int d = 0; d < 3; d++) ENSURES("a default box grows to exactly the first point", x.getMin()(d) == p(d) && x.getMax()(d) == p(d));
    x << q;
    for (int d = 0; d < 3; d++) ENSURES("then to the second", x.getMin()(d) == mn(p(d), q(d)) && x.getMax()(d) == mx(p(d), q(d)));
    BoxR3 inf;
    inf.setInfinity();
    ENSURES("the infinite box contains every point", inf.isInnerPoint(p));
    BoxR3 none;
    ENSURES("the default box contains no point", !none.isInnerPoint(p));
}
VC_DRIVER(orderRelations, "Box::operator>,<,<=,==") {
    BoxR3 x = rbox("x"), y = rbox("y");
    bool strict = true, sub = true;
    for (int d = 0; d < 3; d++) {
        strict = strict && x.getMin()(d) < y.getMin()(d) && y.getMax()(d) < x.getMax()(d);
        sub = sub && y.getMin()(d) <= x.getMin()(d) && x.getMax()(d) <= y.getMax()(d);
    }
    ENSURES("greater means strictly surrounding", (x > y) == strict);
    ENSURES("lower mirrors greater", (y < x) == strict);
    ENSURES("<= means contained", (x <= y) == sub);
    ENSURES("a box equals itself", x == x);
}
VC_DRIVER(equality, "Box::operator==") {
    CVecI3 a = iv("a"), b = iv("b"), c = iv("c"), e = iv("e");
    BoxI3 x(a, b), y(c, e);
    bool same = true;
    for (int d = 0; d < 3; d++) same = same && x.getMin()(d) == y.getMin()(d) && x.getMax()(d) == y.getMax()(d);
    ENSURES("equal iff both corners are", (x == y) == same);
}
VC_DRIVER(membership, "Box::isInnerPoint") {
    BoxR3 x = rbox("x");
    CVecR3 p = rv("p");
    ENSURES("a point is inside iff every component lies between the corners", x.isInnerPoint(p) == inside(p, x));
}
VC_DRIVER(intersection, "Box::isIntersected, intersect") {
    BoxR3 x = rbox("x"), y = rbox("y");
    bool meet = true;
    for (int d = 0; d < 3; d++) meet = meet && mx(x.getMin()(d), y.getMin()(d)) <= mn(x.getMax()(d), y.getMax()(d));
    ENSURES("boxes intersect iff they share a point", x.isIntersected(y) == meet);
    ENSURES("symmetric", x.isIntersected(y) == y.isIntersected(x));
    BoxR3 z = x.intersect(y);
    for (int d = 0; d < 3; d++) ENSURES("intersection corners", z.getMin()(d) == mx(x.getMin()(d), y.getMin()(d)) && z.getMax()(d) == mn(x.getMax()(d), y.getMax()(d)));
    CVecR3 p = rv("p");
    ENSURES("a point is in the intersection iff it is in both", inside(p, z) == (inside(p, x) && inside(p, y)));
}
// extent per axis: either degenerate or clearly larger than the comparison tolerance
static bool clear(const BoxR3& b, int d) {
    double lo = b.getMin()(d), hi = b.getMax()(d);
    return lo == hi || (hi - lo > 1e-6 && hi - lo > 1e-6 * (ab(lo) + ab(hi)));
}
VC_DRIVER(dimensionality, "Box::isPoint,isLine,isSurface,isVolume,getDirection,getNormal") {
    BoxR3 x = rbox("x");
    for (int d = 0; d < 3; d++) REQUIRES(clear(x, d));
    int n = 0;
    for (int d = 0; d < 3; d++) n += x.getMin()(d) != x.getMax()(d);
    ENSURES("point iff no extent", x.isPoint() == (n == 0));
    ENSURES("line iff one extent", x.isLine() == (n == 1));
    ENSURES("surface iff two extents", x.isSurface() == (n == 2));
    ENSURES("volume iff three extents", x.isVolume() == (n == 3));
    if (n == 1) ENSURES("direction is the axis of the extent", x.getMin()(x.getDirection()) != x.getMax()(x.getDirection()));
    else ENSURES("only a line has a direction", THROWS(x.getDirection()));
    if (n == 2) ENSURES("normal is the axis without extent", x.getMin()(x.getNormal()) == x.getMax()(x.getNormal()));
    else ENSURES("only a surface has a normal", THROWS(x.getNormal()));
}
static bool isCorner(const CVecR3& p, const BoxR3& b) {
    bool r = true;
    for (int d = 0; d < 3; d++) r = r && (p(d) == b.getMin()(d) || p(d) == b.getMax()(d));
    return r;
}
VC_DRIVER(corners, "Box::getPos") {
    BoxR3 x = rbox("x");
    for (int d = 0; d < 3; d++) REQUIRES(clear(x, d));
    int n = 0;
    for (int d = 0; d < 3; d++) n += x.getMin()(d) != x.getMax()(d);
    std::vector<CVecR3> p = x.getPos();
    ENSURES("1, 2, 4 or 8 corners", p.size() == (size_t)(1 << n));
    for (size_t i = 0; i < p.size(); i++) {
        ENSURES("every position is a corner", isCorner(p[i], x));
        for (size_t j = 0; j < i; j++) ENSURES("corners are distinct", p[i](0) != p[j](0) || p[i](1) != p[j](1) || p[i](2) != p[j](2));
        // consecutive positions of a face share an edge
        if (n == 2) {
            const CVecR3& q = p[(i + 1) % 4];
            int diff = (p[i](0) != q(0)) + (p[i](1) != q(1)) + (p[i](2) != q(2));
            ENSURES("corners of a face go around it", diff == 1);
        }
    }
    ENSURES("the first corner is the minimum", p[0](0) == x.getMin()(0) && p[0](1) == x.getMin()(1) && p[0](2) == x.getMin()(2));
}
VC_DRIVER(faces, "Box::getPosOfBound, getBoundAsBox") {
    BoxR3 x = rbox("x");
    for (int d = 0; d < 3; d++) REQUIRES(clear(x, d) && x.getMin()(d) < x.getMax()(d));
    long a = vc::integer("axis", 0, 2), b = vc::integer("bound", 0, 1);
    BoxR3 f = x.getBoundAsBox(Constants::CartesianAxis(a), Constants::CartesianBound(b));
    std::vector<CVecR3> p = x.getPosOfBound(Constants::CartesianAxis(a), Constants::CartesianBound(b));
    ENSURES("four positions", p.size() == 4);
    for (size_t i = 0; i < 4; i++) {
        ENSURES("positions are corners of the box", isCorner(p[i], x));
        const CVecR3& q = p[(i + 1) % 4];
        ENSURES("positions go around the face", (p[i](0) != q(0)) + (p[i](1) != q(1)) + (p[i](2) != q(2)) == 1);
        ENSURES("positions lie on the requested side", p[i](a) == (b == 0 ? x.getMin()(a) : x.getMax()(a)));
    }
    for (int d = 0; d < 3; d++) {
        if (d == a) ENSURES("the face lies on the requested side", f.getMin()(d) == f.getMax()(d) && f.getMin()(d) == (b == 0 ? x.getMin()(d) : x.getMax()(d)));
        else ENSURES("the face spans the other axes", f.getMin()(d) == x.getMin()(d) && f.getMax()(d) == x.getMax()(d));
    }
}
VC_DRIVER(scaling, "Box::scale") {
    BoxR3 x = rbox("x"), y = x;
    double f = vc::real("f");
    y.scale(f);
    for (int d = 0; d < 3; d++) ENSURES("corners are multiplied", y.getMin()(d) == x.getMin()(d) * f && y.getMax()(d) == x.getMax()(d) * f);
    CVecI3 m = iv("m"), n = iv("n");
    BoxI3 k(m, n), k0 = k;
    k.scale(f);
    for (int d = 0; d < 3; d++) ENSURES("integer boxes are not scaled", k.getMin()(d) == k0.getMin()(d) && k.getMax()(d) == k0.getMax()(d));
}
