// Elements: coordinates, vertices, sides and faces; bounds, areas, volumes, normals; copies, equality, layer and material
// VC-SOURCES: core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/Triangle6.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/geometry/element/Tetrahedron10.cpp core/geometry/element/Polygon.cpp core/geometry/element/Polyhedron.cpp core/geometry/element/LineConformal.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
// VC-STRINGS: real
#include "vc.h"
#include "geometry/layer/Layer.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Polyhedron.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef Element::Model Model;
struct Mat : public Element::Model { Mat(size_t i) { setId(MatId(i)); } };
template<class T> struct Any;
template<> struct Any<Real> { static Real get() { return VC_PROVING ? vc::real("p") : (double)vc::integer("p", -3, 3); } };
template<> struct Any<Int> { static Int get() { return (Int)vc::integer("p", -100, 100); } };
// coordinates at any positions, numbered from 1
template<class T, int N> struct Pts {
    typedef Coordinate::Coordinate<T, 3> C;
    std::vector<C> c;
    const C* v[N];
    Pts(bool anywhere = true) {
        c.reserve(N);
        for (int i = 0; i < N; i++) {
            Vector::Cartesian<T, 3> x;
            for (int d = 0; d < 3; d++) x(d) = anywhere ? Any<T>::get() : T(i * (d + 1));
            c.push_back(C(CoordId(i + 1), x));
        }
        for (int i = 0; i < N; i++) v[i] = &c[i];
    }
};
struct Ctx_ {
    Layer::Layer l, m;
    Mat a, b;
    Ctx_() : a(4), b(7) { l.setId(LayerId(3)); m.setId(LayerId(8)); }
};
// sides: number of the coordinate of each side; sv of them are vertices, listed in vs
struct Topo { size_t np, nv, nf; std::vector<size_t> vertex; std::vector<std::vector<size_t>> side, sideVertex; };
typedef std::vector<size_t> L;
template<class E, class C> void topology(const E& e, const C* const* v, const Topo& t) {
    ENSURES("number of coordinates, vertices and faces", e.numberOfCoordinates() == t.np && e.numberOfVertices() == t.nv && e.numberOfFaces() == t.nf);
    for (size_t i = 0; i < t.np; i++) ENSURES("coordinates in the given order", e.getV(i) == v[i] && e.isCoordinate(v[i]));
    for (size_t i = 0; i < t.nv; i++) ENSURES("vertices", e.getVertex(i) == v[t.vertex[i]]);
    for (size_t f = 0; f < t.nf; f++) {
        ENSURES("length of the sides", e.numberOfSideCoordinates(f) == t.side[f].size() && e.numberOfSideVertices(f) == t.sideVertex[f].size());
        for (size_t i = 0; i < t.side[f].size(); i++) ENSURES("coordinates of each side", e.getSideV(f, i) == v[t.side[f][i]]);
        for (size_t i = 0; i < t.sideVertex[f].size(); i++) ENSURES("vertices of each side", e.getSideVertex(f, i) == v[t.sideVertex[f][i]]);
    }
    auto all = e.getCoordinates();
    auto ver = e.getVertices();
    ENSURES("all coordinates and vertices", all.size() == t.np && ver.size() == t.nv);
    for (size_t i = 0; i < t.np; i++) ENSURES("listed coordinates", all[i] == v[i]);
    for (size_t i = 0; i < t.nv; i++) ENSURES("listed vertices", ver[i] == v[t.vertex[i]]);
    for (size_t f = 0; f < t.nf; f++) {
        auto s = e.getSideCoordinates(f);
        auto w = e.getSideVertices(f);
        ENSURES("listed sides", s.size() == t.side[f].size() && w.size() == t.sideVertex[f].size());
        for (size_t i = 0; i < s.size(); i++) ENSURES("listed side coordinates", s[i] == v[t.side[f][i]]);
        for (size_t i = 0; i < w.size(); i++) ENSURES("listed side vertices", w[i] == v[t.sideVertex[f][i]]);
    }
}
template<class E, class C> void bound(const E& e, const C* const* v, size_t np) {
    auto b = e.getBound();
    for (size_t d = 0; d < 3; d++) {
        auto lo = v[0]->pos()(d), hi = lo;
        for (size_t i = 1; i < np; i++) { auto x = v[i]->pos()(d); lo = x < lo ? x : lo; hi = hi < x ? x : hi; }
        ENSURES("bound by the outermost coordinates", b.getMin()(d) == lo && b.getMax()(d) == hi);
    }
}
// copies, equality, changed vertices, layer and material
template<class E, class C> void data(E& e, const C* const* v, size_t np, const Ctx_& k) {
    ENSURES("identifier, layer and material", e.getId() == ElemId(5) && e.getLayer() == &k.l && e.getModel() == &k.a && e.getLayerId() == LayerId(3) && e.getMatId() == MatId(4));
    E c(e);
    E* o = e.clone();
    ENSURES("copies are equal", c == e && *o == e && !(c != e) && o->getId() == ElemId(5) && c.getLayerId() == LayerId(3) && o->getMatId() == MatId(4));
    for (size_t i = 0; i < np; i++) ENSURES("copies have the same coordinates", c.getV(i) == v[i] && o->getV(i) == v[i]);
    o->setId(ElemId(6));
    ENSURES("other identifier", !(*o == e) && *o != e && e.getId() == ElemId(5));
    o->setId(ElemId(5));
    o->setLayer(&k.m);
    ENSURES("other layer", !(*o == e) && o->getLayerId() == LayerId(8) && e.getLayerId() == LayerId(3));
    o->setLayer(nullptr);
    ENSURES("no layer", !(*o == e) && o->getLayerId() == LayerId(0));
    o->setLayer(&k.l);
    o->setModel(&k.b);
    ENSURES("other material", !(*o == e) && o->getMatId() == MatId(7) && e.getMatId() == MatId(4));
    o->setModel(nullptr);
    ENSURES("no material", !(*o == e) && o->getMatId() == MatId(0));
    o->setModel(&k.a);
    ENSURES("equal again", *o == e);
    delete o;
}
template<class E, class C> void replaced(E& e, const C* const* v, size_t np, const C* w) {
    for (size_t i = 0; i < np; i++) {
        E c(e);
        c.setV(i, w);
        for (size_t j = 0; j < np; j++) ENSURES("one coordinate replaced", c.getV(j) == (i == j ? w : v[j]) && e.getV(j) == v[j]);
        ENSURES("with another coordinate they differ", !(c == e));
    }
}
static Topo node() { return Topo{1, 1, 1, {0}, {{0}}, {{0}}}; }
static Topo line() { return Topo{2, 2, 2, {0, 1}, {{0}, {1}}, {{0}, {1}}}; }
static Topo quad() { std::vector<L> s{{0, 1}, {1, 2}, {2, 3}, {3, 0}}; return Topo{4, 4, 4, {0, 1, 2, 3}, s, s}; }
static Topo tri3() { std::vector<L> s{{0, 1}, {1, 2}, {2, 0}}; return Topo{3, 3, 3, {0, 1, 2}, s, s}; }
static Topo hex8() { std::vector<L> s{{0, 1, 2, 3}, {0, 3, 7, 4}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {4, 7, 6, 5}}; return Topo{8, 8, 6, {0, 1, 2, 3, 4, 5, 6, 7}, s, s}; }
// every side vertex of a quadratic element is one of its vertices
static Topo tri6() { return Topo{6, 3, 3, {0, 3, 5}, {{0, 1, 3}, {3, 4, 5}, {5, 2, 0}}, {{0, 3}, {3, 5}, {5, 0}}}; }

static Topo tet4() { std::vector<L> s{{0, 1, 2}, {1, 0, 3}, {2, 3, 0}, {3, 2, 1}}; return Topo{4, 4, 4, {0, 1, 2, 3}, s, s}; }
static Topo tet10() {
    return Topo{10, 4, 4, {0, 4, 7, 9}, {{0, 1, 2, 4, 5, 7}, {4, 1, 6, 0, 3, 9}, {7, 8, 2, 9, 3, 0}, {9, 8, 6, 7, 5, 4}}, {{0, 4, 7}, {4, 0, 9}, {7, 9, 0}, {9, 7, 4}}};
}
VC_DRIVER(nodes, "Node: construction, coordinates, copy, clone, operator==, setV") {
    Ctx_ k;
    Pts<Real, 2> p(false);
    Pts<Int, 2> q(false);
    Element::Node<Real> e(ElemId(5), p.v, &k.l, &k.a);
    Element::Node<Int> f(ElemId(5), q.v, &k.l, &k.a);
    topology(e, p.v, node());
    topology(f, q.v, node());
    data(e, p.v, 1, k);
    data(f, q.v, 1, k);
    replaced(e, p.v, 1, p.v[1]);
    replaced(f, q.v, 1, q.v[1]);
    const Elem &x = e, &y = f;
    ENSURES("elements of different types are different", !(x == y) && x != y);
}
VC_DRIVER(lines, "Line2, Polyline: construction, coordinates, ends, copy, clone, operator==, setV") {
    Ctx_ k;
    Pts<Real, 3> p(false);
    Pts<Int, 3> q(false);
    Element::Line2<Real> e(ElemId(5), p.v, &k.l, &k.a), s(p.v), t(ElemId(5), {{p.v[0], p.v[1]}}, &k.l, &k.a);
    Element::Line2<Int> f(ElemId(5), q.v, &k.l, &k.a);
    topology(e, p.v, line());
    topology(f, q.v, line());
    data(e, p.v, 2, k);
    data(f, q.v, 2, k);
    replaced(e, p.v, 2, p.v[2]);
    ENSURES("same line from an array", t == e);
    ENSURES("unnumbered line", s.getV(0) == p.v[0] && s.getV(1) == p.v[1] && s.getId() == ElemId(0) && s.getLayerId() == LayerId(0) && s.getMatId() == MatId(0));
    std::vector<const CoordR3*> w(p.v, p.v + 3);
    Element::Polyline<Real> l(ElemId(5), w, &k.l, &k.a);
    ENSURES("polyline", l.numberOfCoordinates() == 3 && l.numberOfVertices() == 2 && l.numberOfFaces() == 2 && l.getV(1) == p.v[1] && l.getVertex(0) == p.v[0] && l.getVertex(1) == p.v[2] &&
            l.getSideV(0, 0) == p.v[0] && l.getSideV(1, 0) == p.v[2] && l.getSideVertex(0, 0) == p.v[0] && l.getSideVertex(1, 0) == p.v[2]);
    data(l, p.v, 3, k);
}
VC_DRIVER(conformal, "LineConformal: construction, setV") {
    Ctx_ k;
    double l = vc::real("l"), nx = vc::real("nx"), ny = vc::real("ny"), nz = vc::real("nz");
    CoordConf a(CoordId(1), CVecI3(1, 2, 3), Constants::x, l), b(CoordId(2), CVecI3(2, 2, 3), Constants::y, l);
    CoordI3 c(CoordId(3), CVecI3(1, 2, 3));
    const CoordI3 *v[2] = {&a, &b}, *w[2] = {&a, &c};
    bool thrown = false, t2 = false, t3 = false;
    CVecR3 n(nx, ny, nz);
    LinConf e(ElemId(5), v, n, &k.l, &k.a), f(v, n, &k.l, &k.a);
    ENSURES("coordinates, normal, layer and material", e.getV(0) == &a && e.getV(1) == &b && e.getNorm()(0) == nx && e.getNorm()(1) == ny && e.getNorm()(2) == nz && e.getId() == ElemId(5) && e.getLayer() == &k.l && e.getModel() == &k.a);
    ENSURES("unnumbered", f.getV(0) == &a && f.getV(1) == &b && f.getNorm()(1) == ny && f.getId() == ElemId(0) && f.getLayer() == &k.l && f.getModel() == &k.a);
    LinConf g(e);
    ENSURES("copy", g == e && g.getNorm()(0) == nx && g.getNorm()(1) == ny && g.getNorm()(2) == nz && g.getV(1) == &b);
    try { LinConf x(ElemId(5), w, n, &k.l, &k.a); } catch (const Element::Error::Coord::NotConf& x) { thrown = x.getCoordId() == CoordId(3); }
    try { LinConf x(w, n); } catch (const Element::Error::Coord::NotConf& x) { t2 = x.getCoordId() == CoordId(3); }
    try { g.setV(0, &c); } catch (const Element::Error::Coord::NotConf& x) { t3 = true; }
    ENSURES("other coordinates are rejected", thrown && t2 && t3);
}
VC_DRIVER(quads, "Quadrilateral4: construction, coordinates, sides, copy, clone, operator==, setV") {
    Ctx_ k;
    Pts<Real, 5> p(false);
    Element::Quadrilateral4<Real> e(ElemId(5), p.v, &k.l, &k.a), t(ElemId(5), {{p.v[0], p.v[1], p.v[2], p.v[3]}}, &k.l, &k.a);
    topology(e, p.v, quad());
    data(e, p.v, 4, k);
    replaced(e, p.v, 4, p.v[4]);
    ENSURES("same quadrilateral from an array", t == e);
}
VC_DRIVER(iquads, "Quadrilateral4 (integer): construction, coordinates, sides, copy, clone, operator==, setV") {
    Ctx_ k;
    Pts<Int, 5> p(false);
    Element::Quadrilateral4<Int> e(ElemId(5), p.v, &k.l, &k.a);
    topology(e, p.v, quad());
    data(e, p.v, 4, k);
    replaced(e, p.v, 4, p.v[4]);
}
static double cross(const CVecR3& a, const CVecR3& b, const CVecR3& c, int d) { int i = (d + 1) % 3, j = (d + 2) % 3; return (b(i) - a(i)) * (c(j) - a(j)) - (b(j) - a(j)) * (c(i) - a(i)); }
static double norm2(const CVecR3& a, const CVecR3& b, const CVecR3& c) { double r = 0; for (int d = 0; d < 3; d++) r += cross(a, b, c, d) * cross(a, b, c, d); return r; }
VC_DRIVER(triangles, "Triangle3: construction, coordinates, sides, copy, clone, operator==, setV, linearize") {
    Ctx_ k;
    Pts<Real, 4> p(false);
    Tri3 e(ElemId(5), p.v, &k.l, &k.a);
    topology(e, p.v, tri3());
    data(e, p.v, 3, k);
    replaced(e, p.v, 3, p.v[3]);
    Tri3* l = e.linearize();
    ENSURES("linear already", *l == e && l != &e && !e.isQuadratic() && !e.isCurved());
    delete l;
}
VC_DRIVER(triangle6, "Triangle6: construction, coordinates, sides, copy, clone, operator==, setV, linearize") {
    Ctx_ k;
    Pts<Real, 7> p(false);
    Tri6 e(ElemId(5), p.v, &k.l, &k.a);
    topology(e, p.v, tri6());
    data(e, p.v, 6, k);
    replaced(e, p.v, 6, p.v[6]);
    Tri3* l = e.linearize();
    ENSURES("linear triangle with the same vertices", l->getV(0) == p.v[0] && l->getV(1) == p.v[3] && l->getV(2) == p.v[5] && l->getId() == ElemId(5) && l->getLayer() == &k.l && l->getModel() == &k.a && e.isQuadratic());
    delete l;
}
VC_DRIVER(curved, "Triangle6::isCurved") {
    Pts<Real, 6> p(false);
    for (int i = 0; i < 6; i++) p.c[i].pos() = CVecR3(0.0, 0.0, 0.0);
    p.c[3].pos() = CVecR3(2.0, 0.0, 0.0);
    p.c[5].pos() = CVecR3(0.0, 4.0, 0.0);
    p.c[1].pos() = CVecR3(1.0, 0.0, 0.0);
    p.c[4].pos() = CVecR3(1.0, 2.0, 0.0);
    p.c[2].pos() = CVecR3(0.0, 2.0, 0.0);
    Tri6 e(ElemId(5), p.v);
    ENSURES("straight when the nodes are in the middle of the sides", !e.isCurved());
    long s = vc::choice("side", 0, 2), d = vc::choice("axis", 0, 2);
    double x = VC_PROVING ? vc::real("x") : (double)vc::integer("x", 1, 4);
    REQUIRES(std::fabs(x) > 0.001);
    p.c[s == 0 ? 1 : s == 1 ? 4 : 2].pos()(d) += x;
    ENSURES("curved when one of them is elsewhere", e.isCurved());
}
VC_DRIVER(normals, "Surface::getNormal, Triangle3::getArea") {
    Pts<Real, 3> p;
    const CVecR3 &a = p.v[0]->pos(), &b = p.v[1]->pos(), &c = p.v[2]->pos();
    Tri3 e(ElemId(5), p.v);
    double r = e.getArea(), w = norm2(a, b, c);
    ENSURES("half the length of the product of two sides", r >= 0 && vc::eq(4 * r * r, w));
    REQUIRES(w > 0.01);
    CVecR3 n = e.getNormal();
    double s = std::sqrt(w);
    for (int d = 0; d < 3; d++) ENSURES("unit normal by the right hand rule", vc::eq(n(d) * s, cross(a, b, c, d)));
}
VC_DRIVER(planes, "Surface::isContainedInPlane") {
    Pts<Real, 3> p;
    Tri3 e(ElemId(5), p.v);
    bool in = true;
    long d = vc::choice("axis", 0, 2);
    for (int i = 1; i < 3; i++) {
        double w = p.v[i]->pos()(d) - p.v[0]->pos()(d);
        REQUIRES(w == 0 || std::fabs(w) > 1e-3);
        if (w != 0) in = false;
    }
    ENSURES("in a coordinate plane iff all vertices have the same position across it", e.isContainedInPlane(d == 0 ? Constants::yz : d == 1 ? Constants::zx : Constants::xy) == in);
    ENSURES("in some coordinate plane", IMPLIES(in, e.isContainedInPlane()));
}
VC_DRIVER(rectangles, "Surface::isRectangular") {
    Pts<Real, 4> p(false);
    double x = Any<Real>::get(), y = Any<Real>::get(), u = Any<Real>::get(), w = Any<Real>::get();
    p.c[0].pos() = CVecR3(0.0, 0.0, 1.0);
    p.c[1].pos() = CVecR3(x, 0.0, 1.0);
    p.c[2].pos() = CVecR3(x + u, y, 1.0);
    p.c[3].pos() = CVecR3(w, y, 1.0);
    REQUIRES(x > 0.5 && y > 0.5 && (u == 0 || std::fabs(u) > 0.01) && (w == 0 || std::fabs(w) > 0.01));
    REQUIRES(std::fabs(x) < 1000 && y < 1000 && std::fabs(u) < 1000 && std::fabs(w) < 1000 && x + u > w);
    Element::Quadrilateral4<Real> e(ElemId(5), p.v);
    ENSURES("rectangular iff all corners are right", e.isRectangular() == (u == 0 && w == 0));
    Tri3 t(ElemId(6), p.v);
    ENSURES("triangles are not", !t.isRectangular());
}
VC_DRIVER(tetrahedra, "Tetrahedron4: construction, coordinates, faces, copy, clone, operator==, setV") {
    Ctx_ k;
    Pts<Real, 5> p(false);
    for (int i = 0; i < 5; i++) p.c[i].pos() = CVecR3(i, i * i, i * i * i);
    Tet4 e(ElemId(5), p.v, &k.l, &k.a);
    topology(e, p.v, tet4());
    data(e, p.v, 4, k);
    replaced(e, p.v, 4, p.v[4]);
    for (int i = 0; i < 4; i++) ENSURES("flat faces", !e.isCurvedFace(i));
    ENSURES("linear", !e.isQuadratic());
}
VC_DRIVER(volumes, "Tetrahedron4::getVolume, getAreaOfFace") {
    Pts<Real, 4> p;
    CVecR3 x[4];
    for (int i = 0; i < 4; i++) { x[i] = p.v[i]->pos(); p.c[i].pos() = CVecR3(i, i * i, i * i * i); }
    Tet4 e(ElemId(5), p.v);
    for (int i = 0; i < 4; i++) p.c[i].pos() = x[i];
    double det = 0;
    for (int d = 0; d < 3; d++) det += cross(x[0], x[1], x[2], d) * (x[3](d) - x[0](d));
    ENSURES("a sixth of the product of the edges", vc::eq(std::fabs(e.getVolume()) * 6, std::fabs(det)));
    static const int f[4][3] = {{0, 1, 2}, {1, 0, 3}, {2, 3, 0}, {3, 2, 1}};
    for (int i = 0; i < 4; i++) {
        double a = e.getAreaOfFace(i);
        ENSURES("half the length of the product of two sides", a >= 0 && vc::eq(4 * a * a, norm2(x[f[i][0]], x[f[i][1]], x[f[i][2]])));
    }
}
// which side of the face without vertex k a point is, relative to that vertex
static double sideOf(CVecR3 x[4], int k, const CVecR3& q) {
    const CVecR3 &a = x[(k + 1) % 4], &b = x[(k + 2) % 4], &c = x[(k + 3) % 4];
    double s = 0, t = 0;
    for (int d = 0; d < 3; d++) {
        s += cross(a, b, c, d) * (x[k](d) - a(d));
        t += cross(a, b, c, d) * (q(d) - a(d));
    }
    return s > 0 ? t : -t;
}
VC_DRIVER_BOUNDED(inside, "Tetrahedron4::isInnerPoint", "six tetrahedra of either orientation; every point") {
    static const double at[3][4][3] = {{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{1, -2, 3}, {4, 2, 3}, {-1, 0, 5}, {2, 2, 9}}, {{0, 0, 0}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2}}};
    long which = vc::choice("which", 0, 2), how = vc::choice("how", 0, 1);
    Pts<Real, 4> p(false);
    CVecR3 x[4];
    for (int i = 0; i < 4; i++) {
        int j = how && i < 2 ? 1 - i : i;
        x[i] = p.c[i].pos() = CVecR3(at[which][j][0], at[which][j][1], at[which][j][2]);
    }
    Tet4 e(ElemId(5), p.v);
    CVecR3 q(vc::real_in("x", -4, 8), vc::real_in("y", -4, 8), vc::real_in("z", -4, 12));
    // by the weights of the vertices: positive for points inside
    if (!VC_PROVING && vc::boolean("near")) {
        double w[4], sum = 0;
        for (int i = 0; i < 4; i++) sum += w[i] = vc::real_in("w", -0.2, 1);
        q = CVecR3();
        if (sum > 0.1) for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) q(d) += w[i] / sum * x[i](d);
    }
    bool in = true, out = false;
    for (int k = 0; k < 4; k++) {
        double s = sideOf(x, k, q);
        in = in && s > 1e-9;
        out = out || s < -1e-9;
    }
    bool r = e.isInnerPoint(q);
    ENSURES("points inside all faces are inside", IMPLIES(in, r));
    ENSURES("points outside a face are outside", IMPLIES(out, !r));
}
VC_DRIVER(bounds, "Element::getBound: nodes, lines, polylines, triangles, quadrilaterals") {
    Pts<Real, 4> p;
    Element::Node<Real> n(ElemId(1), p.v);
    bound(n, p.v, 1);
    Element::Line2<Real> l(ElemId(1), p.v);
    bound(l, p.v, 2);
    std::vector<const CoordR3*> w(p.v, p.v + 3);
    Element::Polyline<Real> y(ElemId(5), w);
    bound(y, p.v, 3);
    Tri3 t(ElemId(1), p.v);
    bound(t, p.v, 3);
    Element::Quadrilateral4<Real> q(ElemId(1), p.v);
    bound(q, p.v, 4);
}
VC_OPT(bounds, "inf=1")
VC_DRIVER(ibounds, "Element::getBound: integer nodes, lines and quadrilaterals") {
    Pts<Int, 4> p;
    Element::Node<Int> n(ElemId(1), p.v);
    bound(n, p.v, 1);
    Element::Line2<Int> l(ElemId(1), p.v);
    bound(l, p.v, 2);
    Element::Quadrilateral4<Int> q(ElemId(1), p.v);
    bound(q, p.v, 4);
}
VC_DRIVER(flat, "Tetrahedron4: null volume") {
    Ctx_ k;
    Pts<Real, 4> p;
    long d = vc::choice("axis", 0, 2);
    for (int i = 1; i < 4; i++) p.c[i].pos()(d) = p.c[0].pos()(d);
    bool thrown = false;
    try { Tet4 e(ElemId(5), p.v); } catch (const Element::Error::NullVolume&) { thrown = true; }
    ENSURES("tetrahedra in a coordinate plane are rejected", thrown);
}
VC_DRIVER(quadratic, "Tetrahedron10: construction, coordinates, faces, copy, clone, setV, linearize, getTri6Face") {
    Ctx_ k;
    Pts<Real, 11> p(false);
    for (int i = 0; i < 10; i++) p.c[i].pos() = CVecR3(i, i * i, i * i * i);
    Tet10 e(ElemId(5), p.v, &k.l, &k.a);
    Topo t = tet10();
    topology(e, p.v, t);
    data(e, p.v, 10, k);
    replaced(e, p.v, 10, p.v[10]);
    Tet4* l = e.linearize();
    ENSURES("linear tetrahedron with the same vertices", l->getV(0) == p.v[0] && l->getV(1) == p.v[4] && l->getV(2) == p.v[7] && l->getV(3) == p.v[9] && l->getId() == ElemId(5) && l->getLayer() == &k.l && l->getModel() == &k.a && e.isQuadratic());
    delete l;
    for (int f = 0; f < 4; f++) {
        Tri6 s = e.getTri6Face(f);
        for (int i = 0; i < 6; i++) ENSURES("faces as quadratic triangles", s.getV(i) == p.v[t.side[f][i]]);
    }
}
VC_OPT(quadratic, "unroll=400")
VC_DRIVER(hexahedra, "Hexahedron8: construction, coordinates, faces, bound, copy, clone, operator==, setV") {
    Ctx_ k;
    Pts<Real, 9> p(false);
    Element::Hexahedron8<Real> e(ElemId(5), p.v, &k.l, &k.a);
    topology(e, p.v, hex8());
    data(e, p.v, 8, k);
    replaced(e, p.v, 8, p.v[8]);
}
VC_DRIVER(hexbound, "Hexahedron8::getBound") {
    Pts<Int, 8> p;
    Element::Hexahedron8<Int> e(ElemId(5), p.v, nullptr);
    bound(e, p.v, 8);
}
VC_DRIVER(facebound, "Hexahedron8::getBoundOfFace") {
    Pts<Int, 8> p;
    Element::Hexahedron8<Int> e(ElemId(5), p.v, nullptr);
    Topo t = hex8();
    long f = vc::choice("face", 0, 5);
    {
        BoxI3 b = e.getBoundOfFace(f);
        for (int d = 0; d < 3; d++) {
            long lo = p.v[t.side[f][0]]->pos()(d), hi = lo;
            for (int i = 1; i < 4; i++) { long x = p.v[t.side[f][i]]->pos()(d); lo = x < lo ? x : lo; hi = hi < x ? x : hi; }
            ENSURES("bound of each face by its coordinates", b.getMin()(d) == lo && b.getMax()(d) == hi);
        }
    }
}
VC_DRIVER(hexareas, "Hexahedron8::getAreaOfFace, isRegular, getSideNormal") {
    Pts<Real, 8> p(false);
    double a[3], l[3];
    for (int d = 0; d < 3; d++) { a[d] = Any<Real>::get(); l[d] = VC_PROVING ? vc::real("l") : (double)vc::integer("l", 1, 5); REQUIRES(0.01 < l[d] && l[d] < 1000); }
    static const int c[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (int i = 0; i < 8; i++) p.c[i].pos() = CVecR3(a[0] + c[i][0] * l[0], a[1] + c[i][1] * l[1], a[2] + c[i][2] * l[2]);
    Element::Hexahedron8<Real> e(ElemId(5), p.v, nullptr);
    ENSURES("regular when aligned with the axes", e.isRegular());
    Topo t = hex8();
    for (int f = 0; f < 6; f++) {
        int n = -1;
        for (int d = 0; d < 3; d++) if (c[t.side[f][0]][d] == c[t.side[f][1]][d] && c[t.side[f][0]][d] == c[t.side[f][2]][d]) n = d;
        ENSURES("area of each face", vc::eq(e.getAreaOfFace(f), l[(n + 1) % 3] * l[(n + 2) % 3]));
    }
}
VC_DRIVER(trapezia, "Hexahedron8::getAreaOfFace") {
    Pts<Real, 8> p(false);
    // flat faces whose corners are anywhere around a convex quadrilateral
    double a = Any<Real>::get(), b = Any<Real>::get(), c = Any<Real>::get(), d = Any<Real>::get(), e = Any<Real>::get();
    REQUIRES(a > 0 && c > 0 && e > 0 && a * c > 0);
    REQUIRES(b * e - c * d >= 0);
    Topo t = hex8();
    long f = vc::choice("face", 0, 5);
    p.c[t.side[f][0]].pos() = CVecR3(1.0, 2.0, 0.0);
    p.c[t.side[f][1]].pos() = CVecR3(1.0 + a, 2.0, 0.0);
    p.c[t.side[f][2]].pos() = CVecR3(1.0 + b, 2.0 + c, 0.0);
    p.c[t.side[f][3]].pos() = CVecR3(1.0 + d, 2.0 + e, 0.0);
    Element::Hexahedron8<Real> h(ElemId(5), p.v, nullptr);
    ENSURES("area of a flat convex face", vc::eq(h.getAreaOfFace(f) * 2, a * c + b * e - c * d));
}
VC_DRIVER(sidebound, "Volume::getBoundOfFace, isFaceContainedInPlane: quadratic and linear tetrahedra") {
    Pts<Real, 10> p(false);
    for (int i = 0; i < 10; i++) p.c[i].pos() = CVecR3(i, i * i, i * i * i);
    Tet10 e(ElemId(5), p.v);
    Tet4 q(ElemId(6), p.v);
    Topo t = tet10(), u = tet4();
    long d = vc::choice("axis", 0, 2);
    for (int i = 0; i < 10; i++) p.c[i].pos()(d) = Any<Real>::get();
    for (int f = 0; f < 4; f++) {
        double lo = p.v[t.side[f][0]]->pos()(d), hi = lo;
        for (int i = 1; i < 6; i++) { double x = p.v[t.side[f][i]]->pos()(d); lo = x < lo ? x : lo; hi = hi < x ? x : hi; }
        BoxR3 b = e.getBoundOfFace(f);
        ENSURES("bound of each curved face by its coordinates", b.getMin()(d) == lo && b.getMax()(d) == hi);
        lo = p.v[u.side[f][0]]->pos()(d), hi = lo;
        for (int i = 1; i < 3; i++) { double x = p.v[u.side[f][i]]->pos()(d); lo = x < lo ? x : lo; hi = hi < x ? x : hi; }
        BoxR3 c = q.getBoundOfFace(f);
        ENSURES("bound of each flat face by its coordinates", c.getMin()(d) == lo && c.getMax()(d) == hi);
    }
}
VC_OPT(sidebound, "inf=1,unroll=400,steps=9000000")
VC_DRIVER(irregular, "Hexahedron8::isRegular") {
    Pts<Real, 8> p(false);
    double l = VC_PROVING ? vc::real("l") : (double)vc::integer("l", 1, 5);
    REQUIRES(0.01 < l && l < 1000);
    static const int c[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (int i = 0; i < 8; i++) p.c[i].pos() = CVecR3(c[i][0] * 2.0, c[i][1] * 3.0, c[i][2] * 5.0);
    Element::Hexahedron8<Real> e(ElemId(5), p.v, nullptr);
    long i = vc::choice("moved", 0, 7), d = vc::choice("axis", 0, 2);
    p.c[i].pos()(d) += c[i][d] == 1 ? l : -l;
    ENSURES("not regular when a vertex is moved", !e.isRegular());
}
VC_DRIVER(facenumber, "Volume::getFaceNumber") {
    Pts<Real, 9> p(false);
    for (int i = 0; i < 9; i++) p.c[i].pos() = CVecR3(i, i * i, i * i * i);
    Tet4 e(ElemId(5), p.v);
    Element::Hexahedron8<Real> h(ElemId(6), p.v, nullptr);
    Topo t = tet4(), x = hex8();
    long f = vc::choice("face", 0, 3), g = vc::choice("hface", 0, 5), r = vc::choice("turn", 0, 3);
    const CoordR3 *v[3], *w[4], *o[3], *q[4];
    for (int i = 0; i < 3; i++) o[i] = v[i] = p.v[t.side[f][(i + r) % 3]];
    for (int i = 0; i < 4; i++) q[i] = w[i] = p.v[x.side[g][(i + r) % 4]];
    o[r % 3] = p.v[8];
    q[r] = p.v[8];
    Tri3 a(ElemId(1), v), b(ElemId(2), o);
    Element::Quadrilateral4<Real> c(ElemId(3), w), d(ElemId(4), q);
    ENSURES("number of the face with those vertices, in whatever order", e.getFaceNumber(&a) == (size_t)f && h.getFaceNumber(&c) == (size_t)g);
    bool t1 = false, t2 = false;
    try { e.getFaceNumber(&b); } catch (const Element::Error::SurfNotFound&) { t1 = true; }
    try { h.getFaceNumber(&d); } catch (const Element::Error::SurfNotFound&) { t2 = true; }
    ENSURES("surfaces that are not a face are reported", t1 && t2);
}
VC_DRIVER_BOUNDED(order, "Element::getMinV, getMaxV", "lines between two different points of a grid of 3x3x3") {
    Pts<Int, 2> p(false);
    int x[6];
    for (int i = 0; i < 6; i++) x[i] = (int)vc::choice("x", -1, 1);
    for (int i = 0; i < 2; i++) p.c[i].pos() = CVecI3(x[3 * i], x[3 * i + 1], x[3 * i + 2]);
    const CVecI3 &a = p.v[0]->pos(), &b = p.v[1]->pos();
    REQUIRES(!(a == b));
    Element::Line2<Int> e(ElemId(5), p.v);
    bool lo = a(0) < b(0) || (a(0) == b(0) && (a(1) < b(1) || (a(1) == b(1) && a(2) < b(2))));
    ENSURES("lexicographically lowest and highest vertex", e.getMinV() == p.v[lo ? 0 : 1] && e.getMaxV() == p.v[lo ? 1 : 0]);
}
VC_DRIVER(same, "Element::areSameCoords, ascendingIdOrder") {
    Pts<Int, 2> p(false);
    long i = vc::integer("i", 1, 3), j = vc::integer("j", 1, 3), k = vc::integer("k", 1, 3), l = vc::integer("l", 1, 3);
    p.c[0].setId(CoordId(i));
    p.c[1].setId(CoordId(j));
    CoordI3 u(CoordId(k), CVecI3(0, 0, 0)), w(CoordId(l), CVecI3(0, 0, 0));
    std::vector<const CoordI3*> x{p.v[0], p.v[1]}, y{&u, &w}, z{&u};
    ENSURES("same coordinates in whatever order", Elem::areSameCoords(x, y) == ((i == k && j == l) || (i == l && j == k)) && !Elem::areSameCoords(x, z) && !Elem::areSameCoords(z, x));
}
VC_DRIVER_BOUNDED(polygons, "Polygon, Polyhedron: construction, coordinates, sides, copy, closedness", "five and six vertices, two faces") {
    Ctx_ k;
    Pts<Real, 7> p(false);
    long n = vc::choice("n", 5, 6);
    std::vector<const CoordR3*> v(p.v, p.v + n), w;
    for (long i = n; i-- > 0;) w.push_back(p.v[i]);
    std::vector<L> s;
    L vs;
    for (long i = 0; i < n; i++) { s.push_back(L{(size_t)i, (size_t)((i + 1) % n)}); vs.push_back(i); }
    Element::Polygon e(ElemId(5), v, &k.l, &k.a), o(ElemId(6), w);
    topology(e, p.v, Topo{(size_t)n, (size_t)n, (size_t)n, vs, s, s});
    bound(e, p.v, n);
    data(e, p.v, n, k);
    replaced(e, p.v, n, p.v[6]);
    w[vc::choice("other", 0, 4)] = p.v[6];
    Element::Polygon q(ElemId(7), w);
    std::vector<const Element::Polygon*> closed{&e, &o}, open{&e, &q}, one{&e};
    Element::Polyhedron h(ElemId(8), closed, &k.l, &k.a), c(h);
    ENSURES("faces and vertices", h.numberOfFaces() == 2 && h.numberOfVertices() == (size_t)n && h.numberOfCoordinates() == (size_t)n && h.getFace(0) == &e && h.getFace(1) == &o && h.getId() == ElemId(8) && h.getLayer() == &k.l && h.getModel() == &k.a);
    for (long i = 0; i < n; i++) ENSURES("each vertex once", h.getV(i) == p.v[i] && h.getVertex(i) == p.v[i] && h.getSideV(0, i) == p.v[i] && h.getSideVertex(1, i) == p.v[n - 1 - i]);
    ENSURES("length of the sides", h.numberOfSideVertices(0) == (size_t)n && h.numberOfSideCoordinates(1) == (size_t)n && h.getSideCoordinates(1).size() == (size_t)n);
    ENSURES("copies are equal", c == h && c.getFace(1) == &o);
    bool thrown = false;
    try { Element::Polyhedron x(ElemId(8), open); } catch (const Element::Error::NotClosed&) { thrown = true; }
    ENSURES("faces that leave a gap are rejected", thrown);
}
