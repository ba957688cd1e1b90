// Meshes: copies own their coordinates, elements and layers; conversion between structured and unstructured meshes; extent and scaling
// VC-SOURCES: core/geometry/mesh/Mesh.cpp core/geometry/mesh/Structured.cpp core/geometry/mesh/Unstructured.cpp core/geometry/mesh/Geometric.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
// VC-STRINGS: real
#include "vc.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Line2.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef Layer::Layer Lay;
struct Mat : public Element::Model {
    Mat(size_t i) { setId(MatId(i)); }
    SEMBA_CLASS_DEFINE_CLONE(Mat);
    void printInfo() const {}
};
typedef SEMBA::Group::Identifiable<Element::Model, MatId> Mats;
template<class T> struct Cell;
template<> struct Cell<Real> { static CVecR3 at(int x, int y, int z) { return CVecR3(x, y - 2.0, z + 5.0); } };
template<> struct Cell<Int> { static CVecI3 at(int x, int y, int z) { return CVecI3(x, y, z); } };
static Grid3 grid() {
    std::vector<Real> p[3];
    for (int i = 0; i < 4; i++) { p[0].push_back(i); p[1].push_back(i - 2.0); p[2].push_back(i + 5.0); }
    return Grid3(p);
}
static size_t id(const char* n, size_t lo, size_t hi) { return (size_t)(VC_PROVING ? (long)hi : vc::integer(n, (long)lo, (long)hi)); }
// four coordinates, two layers and three elements with any layers and materials
template<class T> struct Parts {
    typedef Coordinate::Coordinate<T, 3> C;
    Coordinate::Group<C> cg;
    Layer::Group<Lay> lg;
    Element::Group<Element::Element<T>> eg;
    Mat a, b;
    size_t el[3], em[3], ci, li, ei;
    Parts() : a(4), b(7) {
        ci = id("ci", 1, 20); li = id("li", 1, 9); ei = id("ei", 1, 30);
        for (int i = 0; i < 4; i++) cg.add(new C(CoordId(ci + 3 - i), Cell<T>::at(i & 1, i / 2, 1)));
        lg.add(new Lay(LayerId(li + 1), "b"));
        lg.add(new Lay(LayerId(li), "a"));
        const C* v[4] = {cg(0), cg(1), cg(3), cg(2)};
        // the proof has one element with both, one with neither and one with one of them
        for (int k = 0; k < 3; k++) {
            el[k] = VC_PROVING ? (size_t)(k == 1 ? 0 : k == 0 ? 2 : 1) : (size_t)vc::integer("layer", 0, 2);
            em[k] = VC_PROVING ? (size_t)(k == 1 ? 0 : k == 0 ? 1 : 2) : (size_t)vc::integer("material", 0, 2);
        }
        eg.add(new Element::Quadrilateral4<T>(ElemId(ei + 2), v, lay(0), mat(0)));
        eg.add(new Element::Line2<T>(ElemId(ei + 5), v + 1, lay(1), mat(1)));
        eg.add(new Element::Node<T>(ElemId(ei), v + 3, lay(2), mat(2)));
    }
    const Lay* lay(int k) const { return el[k] == 0 ? nullptr : lg(el[k] - 1); }
    const Element::Model* mat(int k) const { return em[k] == 0 ? nullptr : em[k] == 1 ? &a : &b; }
    LayerId layId(int k) const { return LayerId(el[k] == 0 ? 0 : el[k] == 1 ? li + 1 : li); }
    MatId matId(int k) const { return MatId(em[k] == 0 ? 0 : em[k] == 1 ? 4 : 7); }
};
static const int VERT[3][4] = {{0, 1, 3, 2}, {1, 3, 0, 0}, {2, 0, 0, 0}};
template<class E> static bool kind(int k, const E* e) { return e->numberOfCoordinates() == (k == 0 ? 4u : k == 1 ? 2u : 1u) && e->numberOfVertices() == e->numberOfCoordinates() && e->numberOfFaces() == (k == 0 ? 4u : k == 1 ? 2u : 1u); }
// whatever its origin, the mesh m is one of the parts p, and refers only to its own coordinates and layers
template<class M, class P, class X> static void isMesh(const M& m, const P& p, X at) {
    ENSURES("same numbers of coordinates, elements and layers", m.coords().size() == 4 && m.elems().size() == 3 && m.layers().size() == 2);
    for (int i = 0; i < 4; i++) ENSURES("same coordinates, of its own", m.coords()(i)->getId() == CoordId(p.ci + 3 - i) && m.coords()(i)->pos() == at(i) && m.coords().getId(CoordId(p.ci + 3 - i)) == m.coords()(i) && (const void*)m.coords()(i) != (const void*)p.cg(i));
    for (int i = 0; i < 2; i++) ENSURES("same layers, of its own", *m.layers()(i) == *p.lg(i) && m.layers()(i) != p.lg(i) && m.layers().getId(LayerId(p.li + 1 - i)) == m.layers()(i));
    for (int k = 0; k < 3; k++) {
        const auto* e = m.elems()(k);
        ENSURES("same elements, of its own", kind(k, e) && e->getId() == p.eg(k)->getId() && (const void*)e != (const void*)p.eg(k) && m.elems().getId(e->getId()) == e);
        for (size_t i = 0; i < e->numberOfCoordinates(); i++) ENSURES("elements refer to the mesh's own coordinates", e->getV(i) == m.coords()(VERT[k][i]));
        ENSURES("elements refer to the mesh's own layers", e->getLayerId() == p.layId(k) && e->getLayer() == (p.el[k] == 0 ? nullptr : m.layers()(p.el[k] - 1)));
        ENSURES("elements keep their material", e->getModel() == p.mat(k) && e->getMatId() == p.matId(k));
    }
}
template<class T> struct AtCell { Vector::Cartesian<T, 3> operator()(int i) const { return Cell<T>::at(i & 1, i / 2, 1); } };
static bool sameGrid(const Grid3& a, const Grid3& b) {
    for (int d = 0; d < 3; d++) if (a.getPos(d) != b.getPos(d)) return false;
    return true;
}
// changes everything in a mesh
template<class M> static void spoil(M& m) {
    for (size_t i = 0; i < m.coords().size(); i++) m.coords()(i)->pos()(0) += 7;
    for (size_t k = 0; k < m.elems().size(); k++) { m.elems()(k)->setModel(nullptr); m.elems()(k)->setLayer(nullptr); m.elems()(k)->setV(0, m.coords()(3)); }
    m.layers().clear();
    m.coords().remove(0);
}
template<class P> static void spoilParts(P& p) {
    for (size_t i = 0; i < p.cg.size(); i++) p.cg(i)->pos()(0) += 7;
    for (size_t k = 0; k < p.eg.size(); k++) { p.eg(k)->setModel(nullptr); p.eg(k)->setLayer(nullptr); p.eg(k)->setV(0, p.cg(3)); }
}
VC_DRIVER_BOUNDED(unstructuredMade, "Unstructured: construction", "four coordinates, three elements and two layers") {
    Parts<Real> p;
    Mesh::Unstructured m(p.cg, p.eg, p.lg);
    isMesh(m, p, AtCell<Real>());
    spoilParts(p);
    isMesh(m, p, AtCell<Real>());
}
VC_DRIVER_BOUNDED(unstructuredCopied, "Unstructured: copy, clone, destruction", "four coordinates, three elements and two layers") {
    Parts<Real> p;
    Mesh::Unstructured* m = new Mesh::Unstructured(p.cg, p.eg, p.lg);
    bool how = vc::boolean("clone");
    Mesh::Unstructured* c = how ? m->cloneTo<Mesh::Unstructured>() : new Mesh::Unstructured(*m);
    isMesh(*c, p, AtCell<Real>());
    spoil(*m);
    delete m;
    isMesh(*c, p, AtCell<Real>());
    delete c;
}
VC_DRIVER_BOUNDED(unstructuredAssigned, "Unstructured: operator=", "four coordinates, three elements and two layers") {
    Parts<Real> p;
    Mesh::Unstructured* m = new Mesh::Unstructured(p.cg, p.eg, p.lg);
    Mesh::Unstructured c;
    if (vc::boolean("full")) {
        c.coords().add(new CoordR3(CoordId(50), CVecR3(1.0, 1.0, 1.0)));
        const CoordR3* v[1] = {c.coords()(0)};
        c.layers().add(new Lay(LayerId(3), "c"));
        c.elems().add(new NodR(ElemId(2), v, c.layers()(0)));
    }
    c = *m;
    isMesh(c, p, AtCell<Real>());
    spoil(*m);
    delete m;
    isMesh(c, p, AtCell<Real>());
    c = *&c;
    isMesh(c, p, AtCell<Real>());
}
VC_DRIVER_BOUNDED(structuredMade, "Structured: construction", "four coordinates, three elements and two layers") {
    Parts<Int> p;
    Grid3 g = grid();
    Mesh::Structured m(g, p.cg, p.eg, p.lg);
    isMesh(m, p, AtCell<Int>());
    ENSURES("same grid", sameGrid(m.grid(), g));
    spoilParts(p);
    isMesh(m, p, AtCell<Int>());
}
static BoundTerminations3 ends(const Mat* a, const Mat* b) {
    BoundTerminations3 r;
    r.setBound(0, 1, a);
    r.setBound(2, 0, b);
    return r;
}
static bool sameEnds(const BoundTerminations3& r, const Mat* a, const Mat* b) {
    for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) if (r(d, p) != (d == 0 && p == 1 ? a : d == 2 && p == 0 ? b : nullptr)) return false;
    return true;
}
VC_DRIVER_BOUNDED(structuredCopied, "Structured: copy, clone, destruction", "four coordinates, three elements and two layers") {
    Parts<Int> p;
    Mats bs;
    bs.add(new Mat(1));
    bs.add(new Mat(2));
    const Mat *a = bs(0)->castTo<Mat>(), *b = bs(1)->castTo<Mat>();
    Grid3 g = grid();
    Mesh::Structured* m = new Mesh::Structured(g, p.cg, p.eg, p.lg, ends(a, b));
    bool how = vc::boolean("clone");
    Mesh::Structured* c = how ? m->cloneTo<Mesh::Structured>() : new Mesh::Structured(*m);
    isMesh(*c, p, AtCell<Int>());
    spoil(*m);
    m->applyScalingFactor(3.0);
    m->bounds().setBound(0, 1, b);
    delete m;
    isMesh(*c, p, AtCell<Int>());
    ENSURES("same grid and terminations", sameGrid(c->grid(), g) && sameEnds(c->bounds(), a, b));
    delete c;
}
VC_DRIVER_BOUNDED(structuredAssigned, "Structured: operator=", "four coordinates, three elements and two layers") {
    Parts<Int> p;
    Mats bs;
    bs.add(new Mat(1));
    bs.add(new Mat(2));
    const Mat *a = bs(0)->castTo<Mat>(), *b = bs(1)->castTo<Mat>();
    Grid3 g = grid(), h = grid();
    h.applyScalingFactor(2.0);
    Mesh::Structured* m = new Mesh::Structured(g, p.cg, p.eg, p.lg, ends(a, b));
    Mesh::Structured c(h);
    if (vc::boolean("full")) {
        c.coords().add(new CoordI3(CoordId(50), CVecI3(1, 1, 1)));
        const CoordI3* v[1] = {c.coords()(0)};
        c.layers().add(new Lay(LayerId(3), "c"));
        c.elems().add(new NodI(ElemId(2), v, c.layers()(0)));
        c.bounds().setBound(1, 1, a);
    }
    c = *m;
    isMesh(c, p, AtCell<Int>());
    spoil(*m);
    m->applyScalingFactor(3.0);
    delete m;
    isMesh(c, p, AtCell<Int>());
    ENSURES("same grid and terminations", sameGrid(c.grid(), g) && sameEnds(c.bounds(), a, b));
}
VC_DRIVER_BOUNDED(terminations, "BoundTerminations: construction, setBound, setBounds, copy, operator=", "two materials") {
    Mats bs;
    bs.add(new Mat(1));
    bs.add(new Mat(2));
    const Mat *a = bs(0)->castTo<Mat>(), *b = bs(1)->castTo<Mat>();
    std::array<std::array<const Bound*, 2>, 3> w;
    for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) w[d][p] = nullptr;
    w[0][1] = a;
    w[2][0] = b;
    BoundTerminations3 r(w), none, s = ends(b, a), t(s);
    ENSURES("as given", sameEnds(r, a, b) && sameEnds(none, nullptr, nullptr) && sameEnds(s, b, a) && sameEnds(t, b, a));
    t.setBound(1, 0, a);
    ENSURES("one end set", t(1, 0) == a && t(0, 1) == b && t(2, 0) == a && sameEnds(s, b, a));
    t.setBounds(w);
    ENSURES("all ends set", sameEnds(t, a, b));
    t = s;
    s.setBound(0, 1, nullptr);
    ENSURES("assigned", sameEnds(t, b, a) && sameEnds(s, nullptr, a));
    bs.clear();
    ENSURES("terminations live as long as a mesh has them", sameEnds(t, b, a) && b->getId() == MatId(2));
    t.setBound(0, 1, nullptr);
    ENSURES("one end taken away", sameEnds(t, nullptr, a));
    s = r = none;
    t.setBound(2, 0, nullptr);
    ENSURES("the last end of all taken away", sameEnds(t, nullptr, nullptr));
}
VC_DRIVER_BOUNDED(toStructured, "Unstructured::getMeshStructured, Geometric::getMeshStructured", "four coordinates, three elements and two layers") {
    Parts<Real> p;
    Grid3 g = grid();
    Mesh::Geometric* m = new Mesh::Geometric(g, p.cg, p.eg, p.lg);
    // an element with no counterpart
    const CoordR3* v[3] = {m->coords()(0), m->coords()(1), m->coords()(2)};
    m->elems().add(new Tri3(ElemId(90), v));
    Mesh::Structured* s = vc::boolean("own") ? m->getMeshStructured() : static_cast<Mesh::Unstructured*>(m)->getMeshStructured(g);
    ENSURES("the mesh itself is not changed", m->elems().size() == 4 && m->coords().size() == 4 && m->elems()(0)->getV(0) == m->coords()(0) && m->elems()(0)->getLayer() == (p.el[0] == 0 ? nullptr : m->layers()(p.el[0] - 1)));
    isMesh(*s, p, AtCell<Int>());
    ENSURES("on the grid", sameGrid(s->grid(), g));
    spoil(*m);
    delete m;
    isMesh(*s, p, AtCell<Int>());
    delete s;
}
VC_DRIVER_BOUNDED(toUnstructured, "Structured::getMeshUnstructured", "four coordinates, three elements and two layers") {
    Parts<Int> p;
    Grid3 g = grid();
    Mesh::Structured* m = new Mesh::Structured(g, p.cg, p.eg, p.lg);
    Mesh::Unstructured* s = m->getMeshUnstructured();
    isMesh(*s, p, AtCell<Real>());
    ENSURES("the mesh itself is not changed", m->elems()(0)->getV(0) == m->coords()(0) && m->elems()(0)->getLayer() == (p.el[0] == 0 ? nullptr : m->layers()(p.el[0] - 1)));
    spoil(*m);
    delete m;
    isMesh(*s, p, AtCell<Real>());
    delete s;
}
VC_DRIVER_BOUNDED(geometric, "Geometric: construction, copy, clone, operator=, applyScalingFactor", "four coordinates, three elements and two layers") {
    Parts<Real> p;
    Grid3 g = grid();
    Mesh::Geometric* m = new Mesh::Geometric(g, p.cg, p.eg, p.lg);
    long how = vc::choice("how", 0, 2);
    Mesh::Geometric* c = how == 0 ? m->cloneTo<Mesh::Geometric>() : how == 1 ? new Mesh::Geometric(*m) : new Mesh::Geometric;
    if (how == 2) *c = *m;
    m->applyScalingFactor(2.0);
    for (int i = 0; i < 4; i++) ENSURES("coordinates are scaled", m->coords()(i)->pos() == Cell<Real>::at(i & 1, i / 2, 1) * 2.0);
    for (int d = 0; d < 3; d++) for (int i = 0; i < 4; i++) ENSURES("the grid is scaled", m->grid().getPos(d)[i] == 2.0 * g.getPos(d)[i]);
    ENSURES("scaled coordinates are found", m->coords().getPos(Cell<Real>::at(1, 1, 1) * 2.0) == m->coords()(3));
    delete m;
    isMesh(*c, p, AtCell<Real>());
    ENSURES("same grid", sameGrid(c->grid(), g));
    delete c;
}
VC_DRIVER_BOUNDED(extent, "Unstructured::getBoundingBox, Structured::getBoundingBox, getMinimumSpaceStep, applyScalingFactor", "four coordinates, three elements and two layers") {
    Parts<Real> p;
    Parts<Int> q;
    Grid3 g = grid();
    Mesh::Unstructured u(p.cg, p.eg, p.lg);
    Mesh::Structured s(g, q.cg, q.eg, q.lg);
    ENSURES("extent of the elements", u.getBoundingBox() == BoxR3(Cell<Real>::at(0, 0, 1), Cell<Real>::at(1, 1, 1)));
    ENSURES("extent of the grid", s.getBoundingBox() == BoxR3(Cell<Real>::at(0, 0, 0), Cell<Real>::at(3, 3, 3)) && s.getMinimumSpaceStep() == 1.0);
    u.coords()(3)->pos()(2) = 9.0;
    ENSURES("extent of the elements follows their coordinates", u.getBoundingBox() == BoxR3(Cell<Real>::at(0, 0, 1), CVecR3(1.0, -1.0, 9.0)));
    s.applyScalingFactor(0.5);
    ENSURES("scaled extent, same cells", s.getBoundingBox() == BoxR3(CVecR3(0.0, -1.0, 2.5), CVecR3(1.5, 0.5, 4.0)) && s.getMinimumSpaceStep() == 0.5);
    isMesh(s, q, AtCell<Int>());
    BoxR3 all = Mesh::Unstructured().getBoundingBox();
    bool everywhere = true;
    for (int d = 0; d < 3; d++) everywhere = everywhere && all.getMin()(d) < -1.0e300 && all.getMax()(d) > 1.0e300;
    ENSURES("an empty mesh is everywhere", everywhere);
}
// after a change of materials or of elements, the mesh and groups of its elements are made to agree again
VC_DRIVER_BOUNDED(reassigned, "Unstructured::reassignPointers, reassign; Structured::reassignPointers, reassign", "four coordinates, three elements and two layers") {
    Parts<Real> p;
    Parts<Int> q;
    Mesh::Unstructured u(p.cg, p.eg, p.lg), w(u);
    Mesh::Structured s(grid(), q.cg, q.eg, q.lg), t(s);
    Mats ms;
    ms.add(new Mat(7));
    ms.add(new Mat(4));
    w.reassignPointers(ms);
    t.reassignPointers(ms);
    for (int k = 0; k < 3; k++) {
        ENSURES("materials of the given group", w.elems()(k)->getModel() == (p.em[k] == 0 ? nullptr : ms(p.em[k] == 1 ? 1 : 0)) && t.elems()(k)->getModel() == (q.em[k] == 0 ? nullptr : ms(q.em[k] == 1 ? 1 : 0)));
        ENSURES("other meshes keep theirs", u.elems()(k)->getModel() == p.mat(k) && s.elems()(k)->getModel() == q.mat(k));
    }
    w.reassignPointers();
    ENSURES("without materials they are kept", w.elems()(0)->getModel() == (p.em[0] == 0 ? nullptr : ms(p.em[0] == 1 ? 1 : 0)) && w.elems()(0)->getV(1) == w.coords()(1));
    Element::Group<const Elem> some, cells;
    some.add(u.elems()(2));
    some.add(u.elems()(0));
    cells.add(s.elems()(1));
    w.reassign(some);
    t.reassign(cells);
    ENSURES("the mesh's own elements of the same numbers, in order", some.size() == 2 && some(0) == w.elems()(2) && some(1) == w.elems()(0) && cells.size() == 1 && cells(0) == t.elems()(1));
    ENSURES("the other mesh is not changed", u.elems().size() == 3 && s.elems().size() == 3 && u.elems()(2)->getV(0) == u.coords()(2));
}
