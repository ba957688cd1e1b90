// Elements on a grid: structured elements, conversion to and from grid cells, elements made from boxes
// VC-SOURCES: core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/LineConformal.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
#include "vc.h"
#include <algorithm>
#include "geometry/layer/Layer.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Hexahedron8.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
struct Mat : public Element::Model { Mat(size_t i) { setId(MatId(i)); } };
static const double G[3][4] = {{0.0, 1.0, 3.0, 4.0}, {-2.0, -1.0, 0.0, 4.0}, {5.0, 6.0, 7.0, 9.0}};
static Grid3 grid() {
    std::vector<Real> p[3];
    for (int d = 0; d < 3; d++) p[d].assign(G[d], G[d] + 4);
    return Grid3(p);
}
static long range(const char* n, long lo, long hi) { return VC_PROVING ? vc::choice(n, lo, hi) : vc::integer(n, lo, hi); }
static CVecR3 node(const CVecI3& c) { return CVecR3(G[0][c(0)], G[1][c(1)], G[2][c(2)]); }
static bool is(const CVecR3& a, const CVecR3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
static bool is(const CVecI3& a, const CVecI3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
// corners of the box of some cells, in the order of elements: a point, a segment, a rectangle or a hexahedron
static std::vector<CVecI3> corners(const CVecI3& a, const CVecI3& n) {
    std::vector<CVecI3> r;
    std::vector<int> ax;
    for (int d = 0; d < 3; d++) if (n(d)) ax.push_back(d);
    if (ax.size() == 2 && ax[0] == 0 && ax[1] == 2) std::swap(ax[0], ax[1]);
    static const int W[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (int i = 0; i < (1 << ax.size()); i++) {
        CVecI3 p = a;
        for (size_t k = 0; k < ax.size(); k++) if (W[i][k]) p(ax[k]) += n(ax[k]);
        r.push_back(p);
    }
    return r;
}
static const size_t NP[4] = {1, 2, 4, 8};
static ElemR* makeR(int kind, const CoordR3** v, const Layer::Layer* l, const Element::Model* m) {
    switch (kind) {
    case 0: return new NodR(ElemId(5), v, l, m);
    case 1: return new LinR2(ElemId(5), v, l, m);
    case 2: return new QuaR4(ElemId(5), v, l, m);
    default: return new HexR8(ElemId(5), v, l, m);
    }
}
static ElemI* makeI(int kind, const CoordI3** v, const Layer::Layer* l, const Element::Model* m) {
    switch (kind) {
    case 0: return new NodI(ElemId(5), v, l, m);
    case 1: return new LinI2(ElemId(5), v, l, m);
    case 2: return new QuaI4(ElemId(5), v, l, m);
    default: return new HexI8(ElemId(5), v, l, m);
    }
}
static bool sameKind(int kind, const Elem* e) {
    switch (kind) {
    case 0: return e->is<NodI>() || e->is<NodR>();
    case 1: return e->is<LinI2>() || e->is<LinR2>();
    case 2: return e->is<QuaI4>() || e->is<QuaR4>();
    default: return e->is<HexI8>() || e->is<HexR8>();
    }
}
// the result of the conversion to grid cells: 0 none, 1 an element, 2 coordinate not found, 3 coordinate elsewhere
template<class E, class G> static int convert(const E* e, const G& cg, const Grid3& g, ElemI*& r, CoordId& id) {
    r = nullptr;
    try {
        r = e->toStructured(cg, g);
    } catch (const Element::Error::Coord::NotFound& x) {
        id = x.getCoordId();
        return 2;
    } catch (const Element::Error::Coord::NotCoincident& x) {
        id = x.getCoordId();
        return 3;
    }
    return r ? 1 : 0;
}
template<class E, class G> static int convertBack(const E* e, const G& cg, const Grid3& g, ElemR*& r, CoordId& id) {
    r = nullptr;
    try {
        r = e->toUnstructured(cg, g);
    } catch (const Element::Error::Coord::NotFound& x) {
        id = x.getCoordId();
        return 2;
    } catch (const Element::Error::Coord::NotCoincident& x) {
        id = x.getCoordId();
        return 3;
    }
    return r ? 1 : 0;
}
// an element at the corners of some cells, with one corner possibly displaced, missing or elsewhere in the group
static void onGrid(int kind, bool displaced) {
    CVecI3 a, n;
    long skip = kind == 1 || kind == 2 ? range("axis", 0, 2) : 0;
    for (int d = 0; d < 3; d++) {
        bool thick = kind == 3 || (kind == 1 && d == skip) || (kind == 2 && d != skip);
        a(d) = (int)(VC_PROVING ? (d == 0 ? 1 : 0) : vc::integer("a", 0, 1));
        n(d) = thick ? (int)(VC_PROVING ? 1 + (d == 1) : vc::integer("n", 1, 2)) : 0;
    }
    std::vector<CVecI3> c = corners(a, n);
    size_t np = NP[kind];
    Layer::Layer l;
    l.setId(LayerId(3));
    Mat m(4);
    Grid3 g = grid();
    std::vector<CoordR3> pts;
    std::vector<const CoordR3*> v;
    // the verifier displaces or removes the first and the last-but-one corner of hexahedra, rectangles normal to an axis by any corner
    long who = VC_PROVING && kind == 3 ? 6 * range("who", 0, 1) : VC_PROVING && kind == 2 && displaced ? 2 * range("who", 0, 1) + (skip == 1) : range("who", 0, (long)np - 1);
    long dd = displaced ? range("dir", 0, 2) : 0, what = displaced ? range("by", !VC_PROVING || kind < 2 ? 0 : kind == 2 ? 3 : 2, VC_PROVING && kind == 3 ? 3 : 5) : 0;
    static const double by[] = {0.0, 0.25, -0.25, 1.0, 100.0, 0.0};
    for (size_t i = 0; i < np; i++) {
        CVecR3 x = node(c[i]);
        if ((long)i == who) x(dd) += by[what];
        if (what == 5) x(dd) += 0.004;   // all of it, within the tolerance of the grid
        pts.push_back(CoordR3(CoordId(11 + i), x));
    }
    for (size_t i = 0; i < np; i++) v.push_back(&pts[i]);
    ElemR* e = makeR(kind, &v[0], &l, &m);
    // the cells it should have
    CoordI3Group cg;
    long fate = displaced ? 0 : range("fate", 0, 2);
    for (size_t i = 0; i < np; i++) {
        if ((long)i == who && fate == 1) continue;
        CVecI3 p = c[i];
        if ((long)i == who && fate == 2) p(range("off", 0, 2)) += 1;
        cg.add(new CoordI3(CoordId(11 + i), p));
    }
    cg.add(new CoordI3(CoordId(40), CVecI3(0, 0, 0)));
    ElemI* r;
    CoordId id;
    int out = convert(e, cg, g, r, id);
    if (displaced) {
        // by chance it may still be the same kind of element, displaced as a whole or in its plane
        if (what == 0 || what == 5) ENSURES("on the grid, up to its tolerance", e->isStructured(g) && out == 1);
        else if (kind >= 2 || what == 1 || what == 2 || what == 4) ENSURES("elements off the grid or out of shape have no counterpart", !e->isStructured(g) && out == 0);
        else ENSURES("structured iff converted, or its cells are others", e->isStructured(g) ? out == 3 && id == CoordId(11 + who) : out == 0);
    } else {
        ENSURES("elements at the corners of cells are structured", e->isStructured(g));
        ENSURES("missing coordinates are reported", (out == 2) == (fate == 1) && (out != 2 || id == CoordId(11 + who)));
        ENSURES("coordinates elsewhere are reported", (out == 3) == (fate == 2) && (out != 3 || id == CoordId(11 + who)));
    }
    if (out == 1) {
        ENSURES("same kind, number, layer and material", sameKind(kind, r) && r->is<ElemI>() && r->getId() == ElemId(5) && r->getLayer() == &l && r->getModel() == &m && r->numberOfCoordinates() == np);
        for (size_t i = 0; i < np; i++) ENSURES("coordinates of the group, with the same numbers in the same order", r->getV(i) == cg.getId(CoordId(11 + i)) && is(r->getV(i)->pos(), c[i]));
        ENSURES("cells are already structured", r->toStructured(cg, g) == nullptr);
        // and back
        CoordR3Group back;
        for (size_t i = 0; i < np; i++) back.add(new CoordR3(CoordId(11 + i), node(c[i])));
        ElemR* u;
        ENSURES("back to positions", convertBack(r, back, g, u, id) == 1);
        if (u) {
            ENSURES("same kind, number, layer and material again", sameKind(kind, u) && u->is<ElemR>() && u->getId() == ElemId(5) && u->getLayer() == &l && u->getModel() == &m);
            for (size_t i = 0; i < np; i++) ENSURES("same coordinates again", u->getV(i) == back.getId(CoordId(11 + i)));
            ENSURES("positions are already unstructured", u->toUnstructured(back, g) == nullptr);
            delete u;
        }
        delete r;
    }
    for (size_t i = 0; i < np; i++) ENSURES("the element itself is not changed", e->getV(i) == v[i] && e->getLayer() == &l && e->getModel() == &m);
    delete e;
}
VC_DRIVER_BOUNDED(nodesOn, "Node: isStructured, toStructured, toUnstructured", "one grid and node; missing or displaced coordinates") { onGrid(0, false); }
VC_DRIVER_BOUNDED(nodesOff, "Node: isStructured, toStructured off the grid", "one grid and node, displaced along any axis") { onGrid(0, true); }
VC_DRIVER_BOUNDED(linesOn, "Line2: isStructured, toStructured, toUnstructured", "one grid, lines along any axis; any coordinate missing or elsewhere") { onGrid(1, false); }
VC_DRIVER_BOUNDED(linesOff, "Line2: isStructured, toStructured off the grid", "one grid, lines along any axis, either end displaced along any axis") { onGrid(1, true); }
VC_DRIVER_BOUNDED(quadsOn, "Quadrilateral4: isStructured, toStructured, toUnstructured", "one grid, rectangles normal to any axis; any coordinate missing or elsewhere") { onGrid(2, false); }
VC_DRIVER_BOUNDED(quadsOff, "Quadrilateral4: isStructured, toStructured off the grid", "one grid, rectangles normal to any axis, any corner displaced along any axis") { onGrid(2, true); }
VC_DRIVER_BOUNDED(hexesOn, "Hexahedron8: isStructured, toStructured, toUnstructured", "one grid and box; any coordinate missing or elsewhere") { onGrid(3, false); }
VC_DRIVER_BOUNDED(hexesOff, "Hexahedron8: isStructured, toStructured off the grid", "one grid and box, any corner displaced along any axis") { onGrid(3, true); }
// from cells to positions, with conformal and relative coordinates among them
VC_DRIVER_BOUNDED(cells, "Line2<Int>, LineConformal: toUnstructured", "one grid; plain, conformal and relative ends") {
    Grid3 g = grid();
    Layer::Layer l;
    Mat m(4);
    long kind = range("kind", 0, 2), fate = range("fate", 0, 3), dir = range("dir", 0, 2);
    double len = VC_PROVING ? vc::real("length") : vc::integer("length", 0, 7) / 8.0;
    REQUIRES(0.01 < len && len < 0.9);
    CVecI3 p(0, 0, 0), q(2, 0, 0);
    CoordI3 a(CoordId(11), p), b(CoordId(12), q);
    CoordConf ca(CoordId(11), p, Constants::CartesianAxis(dir), len), cb(CoordId(12), q, Constants::x, 0.0);
    CVecR3 rel(0.0, 0.0, 0.0);
    rel(dir) = len;
    CoordRel ra(CoordId(11), p, rel);
    const CoordI3* v[2] = {kind == 1 ? (const CoordI3*)&ca : kind == 2 ? (const CoordI3*)&ra : &a, kind == 1 ? (const CoordI3*)&cb : &b};
    ElemI* e = kind == 1 ? (ElemI*)new LinConf(ElemId(5), v, CVecR3(0.0, 0.0, 1.0), &l, &m) : new LinI2(ElemId(5), v, &l, &m);
    CVecR3 x = node(p), y = node(q);
    if (kind != 0) x(dir) += len * (G[dir][1] - G[dir][0]);
    CoordR3Group cg;
    if (fate != 1) cg.add(new CoordR3(CoordId(11), fate == 2 ? CVecR3(x(0), x(1) + 0.5, x(2)) : x));
    cg.add(new CoordR3(CoordId(12), fate == 3 ? CVecR3(y(0), y(1), y(2) - 0.5) : y));
    ElemR* u;
    CoordId id;
    int out = convertBack(e, cg, g, u, id);
    ENSURES("coordinates missing or elsewhere are reported", out == (fate == 0 ? 1 : fate == 1 ? 2 : 3) && (fate == 0 || id == CoordId(fate == 3 ? 12 : 11)));
    if (u) {
        ENSURES("a line at the positions", u->is<LinR2>() && u->getV(0) == cg.getId(CoordId(11)) && u->getV(1) == cg.getId(CoordId(12)) && u->getId() == ElemId(5) && u->getLayer() == &l && u->getModel() == &m);
        delete u;
    }
    delete e;
}
// elements no grid can hold
VC_DRIVER_BOUNDED(others, "Triangle3, Line2: toStructured of elements that are no boxes", "one grid; triangles and oblique lines at its nodes") {
    Grid3 g = grid();
    CVecI3 c[3] = {CVecI3(0, 0, 0), CVecI3(2, 1, 0), CVecI3(2, 0, 0)};
    long s = range("shape", 0, 2);
    std::vector<CoordR3> pts;
    CoordI3Group cg;
    for (int i = 0; i < 3; i++) {
        pts.push_back(CoordR3(CoordId(11 + i), node(c[i])));
        cg.add(new CoordI3(CoordId(11 + i), c[i]));
    }
    const CoordR3* v[4] = {&pts[0], &pts[1], &pts[2], &pts[0]};
    ElemR* e = s == 0 ? (ElemR*)new Tri3(ElemId(1), v) : s == 1 ? (ElemR*)new LinR2(ElemId(1), v) : (ElemR*)new QuaR4(ElemId(1), v);
    ElemI* r;
    CoordId id;
    ENSURES("no counterpart on the grid", convert(e, cg, g, r, id) == 0 && !e->isStructured(g));
    delete e;
}
template<class T> struct At;
template<> struct At<Real> { static CVecR3 get(const CVecI3& c) { return CVecR3(c(0) * 0.5, c(1) * 2.0, c(2) - 0.25); } };
template<> struct At<Int> { static CVecI3 get(const CVecI3& c) { return c; } };
// elements made from boxes
template<class T> static void boxes() {
    typedef Coordinate::Coordinate<T, 3> C;
    CVecI3 a, n;
    int dim = 0;
    for (int d = 0; d < 3; d++) {
        a(d) = VC_PROVING ? d - 1 : (int)vc::integer("a", -2, 2);
        n(d) = (int)range("n", 0, VC_PROVING ? 1 : 2);
        if (n(d)) dim++;
    }
    std::vector<CVecI3> c = corners(a, n);
    long kind = range("kind", 0, 3), have = range("have", 0, 2);
    Coordinate::Group<C> cg;
    // some of them are there already, among others
    cg.add(new C(CoordId(7), At<T>::get(CVecI3(9, 9, 9))));
    if (have >= 1) cg.add(new C(CoordId(20), At<T>::get(c.back())));
    if (have >= 2 && c.size() > 1) cg.add(new C(CoordId(9), At<T>::get(c[0])));
    size_t before = cg.size();
    Box<T, 3> box(At<T>::get(a), At<T>::get(a + n));
    Layer::Layer l;
    Mat m(4);
    Element::Element<T>* e = nullptr;
    int error = -1;
    try {
        if (kind == 0) e = new Element::Node<T>(cg, ElemId(5), box, &l, &m);
        else if (kind == 1) e = new Element::Line2<T>(cg, ElemId(5), box, &l, &m);
        else if (kind == 2) e = new Element::Quadrilateral4<T>(cg, ElemId(5), box, &l, &m);
        else e = new Element::Hexahedron8<T>(cg, ElemId(5), box, &l, &m);
    } catch (const Geometry::Error::Box::NotPoint&) { error = 0;
    } catch (const Geometry::Error::Box::NotLine&) { error = 1;
    } catch (const Geometry::Error::Box::NotSurface&) { error = 2;
    } catch (const Geometry::Error::Box::NotVolume&) { error = 3; }
    if (kind != dim) {
        ENSURES("boxes of another shape are refused, with no coordinate added", e == nullptr && error == kind && cg.size() == before);
        return;
    }
    ENSURES("made", e != nullptr && error == -1 && e->getId() == ElemId(5) && e->getLayer() == &l && e->getModel() == &m && e->numberOfCoordinates() == c.size());
    for (size_t i = 0; i < c.size(); i++) {
        const C* v = e->getV(i);
        ENSURES("at the corners of the box", v->pos() == At<T>::get(c[i]));
        ENSURES("coordinates of the group", cg.existId(v->getId()) && cg.getId(v->getId()) == v);
        if (have >= 1 && i + 1 == c.size()) ENSURES("coordinates already there are reused", v->getId() == CoordId(20));
        else if (have >= 2 && i == 0) ENSURES("coordinates already there are reused", v->getId() == CoordId(9));
        else ENSURES("others are new", v->getId() > CoordId(have >= 1 ? 20 : 7));
    }
    ENSURES("no other coordinate is added", cg.size() == before + c.size() - (have == 0 ? 0 : have == 1 || c.size() == 1 ? 1 : 2));
    delete e;
}
VC_DRIVER_BOUNDED(boxesR, "Node, Line2, Quadrilateral4, Hexahedron8 from a Box<Real>", "boxes of every shape at one place, groups that have some of their corners") { boxes<Real>(); }
VC_DRIVER_BOUNDED(boxesI, "Node, Line2, Quadrilateral4, Hexahedron8 from a Box<Int>", "boxes of every shape at one place, groups that have some of their corners") { boxes<Int>(); }
