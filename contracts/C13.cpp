// Groups of elements: chosen by material, layer, coordinate and extent; extents, closest vertices; changes to all or some; reassigned pointers
// VC-SOURCES: core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/Triangle6.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
#include "vc.h"
#include "geometry/layer/Group.h"
#include "geometry/coordinate/Group.h"
#include "geometry/element/Group.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef Layer::Layer Lay;
struct Mat : public Element::Model {
    Mat(size_t i) { setId(MatId(i)); }
    SEMBA_CLASS_DEFINE_CLONE(Mat);
    void printInfo() const {}
};
static Lay* layer(size_t i) { Lay* r = new Lay; r->setId(LayerId(i)); return r; }
typedef SEMBA::Group::Identifiable<Element::Model, MatId> Mats;
typedef std::vector<int> L;
static size_t num(const char* n, long lo, long hi) { return (size_t)vc::integer(n, lo, hi); }
static double pos(const char* n) { return VC_PROVING ? vc::real_in(n, -1e9, 1e9) : (double)vc::integer(n, -3, 3); }
// three elements: the first with the first material and layer, the second with the second, the third with neither or the second layer
struct Three {
    Coordinate::Group<CoordR3> cg;
    Mat a, b;
    Lay l, m;
    ElemRGroup g;
    const ElemR* e[3];
    size_t mat[3], lay[3];
    Three() : a(num("a", 1, VC_PROVING ? 1000 : 3)), b(num("b", 1, VC_PROVING ? 1000 : 3)) {
        l.setId(LayerId(num("l", 1, VC_PROVING ? 1000 : 3)));
        m.setId(LayerId(num("m", 1, VC_PROVING ? 1000 : 3)));
        for (int i = 0; i < 4; i++) cg.add(new CoordR3(CoordId(20 - i), CVecR3(i & 1, i / 2, i)));
        const CoordR3* v[4] = {cg(0), cg(1), cg(3), cg(2)};
        bool second = vc::boolean("second");
        g.add(new QuaR4(ElemId(9), v, &l, &a));
        g.add(new LinR2(ElemId(4), v + 1, &m, &b));
        g.add(new NodR(ElemId(6), v + 3, second ? &m : nullptr, nullptr));
        for (int k = 0; k < 3; k++) e[k] = g(k);
        mat[0] = a.getId().toInt(); mat[1] = b.getId().toInt(); mat[2] = 0;
        lay[0] = l.getId().toInt(); lay[1] = m.getId().toInt(); lay[2] = second ? lay[1] : 0;
    }
    void kept() const {
        ENSURES("the group is not changed", g.size() == 3);
        for (int k = 0; k < 3; k++) ENSURES("elements are not changed", g(k) == e[k] && e[k]->getMatId() == MatId(mat[k]) && e[k]->getLayerId() == LayerId(lay[k]));
    }
    template<class G> void chosen(const G& r, bool x, bool y, bool z) const {
        const bool c[3] = {x, y, z};
        size_t n = 0;
        for (int k = 0; k < 3; k++) if (c[k]) {
            ENSURES("every such element, in order, the same objects", n < r.size() && r(n) == e[k] && r.getId(e[k]->getId()) == e[k]);
            n++;
        }
        ENSURES("and no other", r.size() == n);
    }
};
VC_DRIVER_BOUNDED(byMaterial, "Group::getMatId(one), removeMatId(one)", "three elements") {
    Three t;
    const ElemRGroup& h = t.g;
    size_t q = num("q", 0, 1000);
    if (!VC_PROVING) q %= 5;
    bool x = q == t.mat[0], y = q == t.mat[1], z = q == 0;
    t.chosen(h.getMatId(MatId(q)), x, y, z);
    t.chosen(t.g.getMatId(MatId(q)), x, y, z);
    t.kept();
    ElemRGroup r = t.g;
    r.removeMatId(MatId(q));
    t.chosen(r, !x, !y, !z);
    t.kept();
}
VC_DRIVER_BOUNDED(byMaterials, "Group::getMatId(several), removeMatId(several)", "three elements") {
    Three t;
    const ElemRGroup& h = t.g;
    size_t q = num("q", 0, 1000), s = num("s", 0, 1000);
    if (!VC_PROVING) q %= 5, s %= 5;
    std::vector<MatId> w, none;
    w.push_back(MatId(q));
    w.push_back(MatId(s));
    bool x = q == t.mat[0] || s == t.mat[0], y = q == t.mat[1] || s == t.mat[1], z = q == 0 || s == 0;
    if (vc::boolean("const")) t.chosen(h.getMatId(w), x, y, z);
    else t.chosen(t.g.getMatId(w), x, y, z);
    t.chosen(h.getMatId(none), false, false, false);
    ElemRGroup r = t.g;
    r.removeMatId(w);
    t.chosen(r, !x, !y, !z);
    t.kept();
}
VC_DRIVER_BOUNDED(byLayer, "Group::getLayerId(one, several)", "three elements") {
    Three t;
    const ElemRGroup& h = t.g;
    size_t q = num("q", 0, 1000), s = num("s", 0, 1000);
    if (!VC_PROVING) q %= 5, s %= 5;
    std::vector<LayerId> w, none;
    w.push_back(LayerId(q));
    w.push_back(LayerId(s));
    bool x = q == t.lay[0], y = q == t.lay[1], z = q == t.lay[2];
    t.chosen(h.getLayerId(LayerId(q)), x, y, z);
    t.chosen(t.g.getLayerId(LayerId(q)), x, y, z);
    x = x || s == t.lay[0], y = y || s == t.lay[1], z = z || s == t.lay[2];
    if (vc::boolean("const")) t.chosen(h.getLayerId(w), x, y, z);
    else t.chosen(t.g.getLayerId(w), x, y, z);
    t.chosen(h.getLayerId(none), false, false, false);
    t.kept();
}
VC_DRIVER_BOUNDED(byBoth, "Group::getMatLayerId", "three elements") {
    Three t;
    const ElemRGroup& h = t.g;
    size_t q = num("q", 0, 1000), s = num("s", 0, 1000);
    if (!VC_PROVING) q %= 5, s %= 5;
    bool c[3];
    for (int k = 0; k < 3; k++) c[k] = q == t.mat[k] && s == t.lay[k];
    t.chosen(h.getMatLayerId(MatId(q), LayerId(s)), c[0], c[1], c[2]);
    t.chosen(t.g.getMatLayerId(MatId(q), LayerId(s)), c[0], c[1], c[2]);
    t.kept();
}
VC_DRIVER_BOUNDED(byCoordinate, "Group::getCoordId", "three elements, one with a coordinate twice") {
    Three t;
    const CoordR3* v[4] = {t.cg(0), t.cg(1), t.cg(0), t.cg(2)};
    bool twice = vc::boolean("twice");
    if (twice) t.g.add(new Element::Polyline<Real>(ElemId(30), std::vector<const CoordR3*>(v, v + 4)));
    size_t q = num("q", 15, 22);
    bool c[4] = {q >= 17 && q <= 20, q == 19 || q == 17, q == 18, twice && q >= 18 && q <= 20};
    Element::Group<const ElemR> r = t.g.getCoordId(CoordId(q));
    size_t n = 0;
    for (int k = 0; k < (twice ? 4 : 3); k++) if (c[k]) {
        ENSURES("every element with that coordinate, in order", n < r.size() && r(n) == t.g(k));
        n++;
    }
    ENSURES("and no other", r.size() == n);
}
VC_DRIVER_BOUNDED(separated, "Group::separateByLayers", "three elements") {
    Three t;
    std::map<LayerId, std::vector<const ElemR*> > r = t.g.separateByLayers();
    size_t total = 0;
    for (auto i = r.begin(); i != r.end(); ++i) {
        ENSURES("no layer without elements", !i->second.empty());
        total += i->second.size();
    }
    ENSURES("each element once", total == 3);
    for (int k = 0; k < 3; k++) {
        size_t before = 0;
        for (int j = 0; j < k; j++) before += t.lay[j] == t.lay[k];
        auto i = r.find(LayerId(t.lay[k]));
        ENSURES("each element under its layer, in order", i != r.end() && i->second.size() > before && i->second[before] == t.e[k]);
    }
    t.kept();
}
VC_DRIVER_BOUNDED(changed, "Group::setModel, setLayer", "three elements") {
    Three t;
    Mat n(77);
    Lay k;
    k.setId(LayerId(88));
    bool none = vc::boolean("none");
    long who = vc::choice("who", 0, 4);
    const Mat* nm = none ? nullptr : &n;
    const Lay* nl = none ? nullptr : &k;
    ElemId id(who == 1 ? 9 : who == 2 ? 4 : who == 3 ? 6 : 5);
    int err = 0;
    if (who == 0) {
        t.g.setModel(nm);
        t.g.setLayer(nl);
    } else {
        try { t.g.setModel(id, nm); } catch (const std::exception&) { err++; }
        try { t.g.setLayer(id, nl); } catch (const std::exception&) { err++; }
    }
    ENSURES("absent elements are reported", err == (who == 4 ? 2 : 0));
    for (int i = 0; i < 3; i++) {
        bool ch = who == 0 || who == i + 1;
        ENSURES("exactly the chosen elements change", t.g(i) == t.e[i] && t.e[i]->getMatId() == MatId(!ch ? t.mat[i] : none ? 0 : 77) && t.e[i]->getLayerId() == LayerId(!ch ? t.lay[i] : none ? 0 : 88));
    }
}
VC_DRIVER_BOUNDED(reassigned, "Group::reassignPointers(coordinates, layers, materials)", "three elements; one of the numbers may be missing in the new group") {
    Three t;
    REQUIRES(t.mat[0] != t.mat[1] && t.lay[0] != t.lay[1]);
    Coordinate::Group<CoordR3> cg;
    Layer::Group<Lay> lg;
    Mats mg;
    long missing = vc::choice("missing", 0, 3);
    for (int i = 3; i >= 0; i--) if (missing != 1 || i != 2) cg.add(new CoordR3(CoordId(20 - i), CVecR3(7.0, i, 8.0)));
    for (int k = 1; k >= 0; k--) {
        if (missing != 2 || k != 1) lg.add(layer(t.lay[k]));
        if (missing != 3 || k != 1) mg.add(new Mat(t.mat[k]));
    }
    int err = 0;
    try { t.g.reassignPointers(cg); } catch (const std::exception&) { err |= 1; }
    try { t.g.reassignPointers(lg); } catch (const std::exception&) { err |= 2; }
    try { t.g.reassignPointers(mg); } catch (const std::exception&) { err |= 4; }
    ENSURES("missing numbers are reported", err == (missing == 0 ? 0 : (1 << missing) / 2));
    static const int V[3][4] = {{20, 19, 17, 18}, {19, 17}, {18}};
    for (int k = 0; k < 3; k++) {
        if (missing != 1) for (int j = 0; j < (k == 0 ? 4 : k == 1 ? 2 : 1); j++) ENSURES("coordinates of the given group with the same numbers", t.e[k]->getV(j) == cg.getId(CoordId(V[k][j])) && t.cg.getId(CoordId(V[k][j])) != t.e[k]->getV(j));
        if (missing != 2) ENSURES("layers of the given group with the same numbers; none stays none", t.e[k]->getLayer() == (t.lay[k] ? lg.getId(LayerId(t.lay[k])) : nullptr));
        if (missing != 3) ENSURES("materials of the given group with the same numbers; none stays none", t.e[k]->getModel() == (t.mat[k] ? mg.getId(MatId(t.mat[k])) : nullptr));
        ENSURES("numbers are kept", t.g(k) == t.e[k] && t.e[k]->getLayerId() == LayerId(t.lay[k]) && t.e[k]->getMatId() == MatId(t.mat[k]));
    }
}
static CVecR3 at(double x, long axis) { CVecR3 r(1.0, 2.0, 3.0); r(axis) = x; return r; }
VC_OPT(inside, "inf=1")
VC_DRIVER_BOUNDED(inside, "Group::getInsideBound", "two elements whose limits on one axis are any") {
    long d = vc::choice("axis", 0, 2);
    double x = pos("x"), y = pos("y"), z = pos("z"), lo = pos("lo"), hi = pos("hi");
    REQUIRES(lo <= hi);
    CoordR3 p(CoordId(1), at(x, d)), q(CoordId(2), at(y, d)), r(CoordId(3), at(z, d));
    const CoordR3* v[3] = {&p, &q, &r};
    ElemRGroup g;
    g.add(new LinR2(ElemId(3), v));
    g.add(new NodR(ElemId(2), v + 2));
    CVecR3 a = at(lo, d), b = at(hi, d);
    long other = vc::choice("other", 0, 3);
    for (int i = 0; i < 3; i++) if (i != d) { a(i) -= other == 1 ? 1.0 : 0.0; b(i) += other == 2 ? 1.0 : 0.0; }
    if (other == 3) { a((d + 1) % 3) += 0.25; b((d + 1) % 3) += 0.5; }
    Element::Group<const ElemR> in = g.getInsideBound(BoxR3(a, b));
    bool first = other != 3 && lo <= x && x <= hi && lo <= y && y <= hi, second = other != 3 && lo <= z && z <= hi;
    ENSURES("exactly the elements within the bound", in.size() == (size_t)(first ? 1 : 0) + (second ? 1 : 0) && (!first || in(0) == g(0)) && (!second || in(first ? 1 : 0) == g(1)));
    ENSURES("the group is not changed", g.size() == 2);
}
static double lower(double a, double b) { return a < b ? a : b; }
static double upper(double a, double b) { return a < b ? b : a; }
VC_OPT(extent, "inf=1")
VC_DRIVER_BOUNDED(extent, "Group::getBound: real and integer elements", "a line, a node and a line of cells of any position; empty groups") {
    Element::Group<Elem> g;
    CVecR3 x[3];
    CVecI3 n[2];
    for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) x[i](d) = d == 1 ? pos("x") : i * (d + 1) - 2.0;
    for (int i = 0; i < 2; i++) for (int d = 0; d < 3; d++) n[i](d) = (int)(d == 1 ? vc::integer("n", -5, 5) : 1 + i * (d ? -7 : 4));
    CoordR3 p(CoordId(1), x[0]), q(CoordId(2), x[1]), r(CoordId(3), x[2]);
    CoordI3 c(CoordId(4), n[0]), e(CoordId(5), n[1]);
    const CoordR3* v[3] = {&p, &q, &r};
    const CoordI3* w[2] = {&c, &e};
    long what = vc::choice("what", 1, 7);
    CVecR3 lo(1e300), hi(-1e300);
    for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) {
        if ((what & 1 && i < 2) || (what & 2 && i == 2)) lo(d) = lower(lo(d), x[i](d)), hi(d) = upper(hi(d), x[i](d));
        if (what & 4 && i < 2) lo(d) = lower(lo(d), n[i](d)), hi(d) = upper(hi(d), n[i](d));
    }
    if (what & 1) g.add(new LinR2(ElemId(3), v));
    if (what & 4) g.add(new LinI2(ElemId(8), w));
    if (what & 2) g.add(new NodR(ElemId(2), v + 2));
    BoxR3 b = g.getBound();
    for (int d = 0; d < 3; d++) ENSURES("bound by the outermost coordinates of all elements", b.getMin()(d) == lo(d) && b.getMax()(d) == hi(d));
}
VC_OPT(facesExtent, "inf=1")
VC_DRIVER_BOUNDED(facesExtent, "Group::getBound(faces), getBound of an empty group", "two faces of a tetrahedron") {
    CVecR3 x[4];
    for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) x[i](d) = d == 1 ? pos("x") : i == 0 ? 1 - d : (i + d) % 3;
    CoordR3 p(CoordId(1), CVecR3(0, 0, 0)), q(CoordId(2), CVecR3(1, 0, 0)), r(CoordId(3), CVecR3(0, 1, 0)), s(CoordId(4), CVecR3(0, 0, 1));
    const CoordR3* v[4] = {&p, &q, &r, &s};
    Tet4 t(ElemId(1), v);
    p.pos() = x[0]; q.pos() = x[1]; r.pos() = x[2]; s.pos() = x[3];
    VolRGroup g;
    long f = vc::choice("f", 0, 3), h = vc::choice("h", 0, 3);
    std::vector<Element::Face> w;
    w.push_back(Element::Face(&t, f));
    w.push_back(Element::Face(&t, h));
    static const int F[4][3] = {{0, 1, 2}, {1, 0, 3}, {2, 3, 0}, {3, 2, 1}};
    CVecR3 lo(1e300), hi(-1e300);
    for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) {
        double y = x[F[k ? h : f][i]](d);
        lo(d) = lower(lo(d), y), hi(d) = upper(hi(d), y);
    }
    BoxR3 b = g.getBound(w), all = g.getBound(), none = g.getBound(std::vector<Element::Face>());
    for (int d = 0; d < 3; d++) {
        ENSURES("bound by the outermost coordinates of the faces", b.getMin()(d) == lo(d) && b.getMax()(d) == hi(d));
        ENSURES("nothing is everywhere", all.getMin()(d) < -1e300 && all.getMax()(d) > 1e300 && none.getMin()(d) < -1e300 && none.getMax()(d) > 1e300);
    }
}
VC_OPT(closest, "inf=1")
VC_DRIVER_BOUNDED(closest, "Group::getClosestVertex", "a line and a node at any positions") {
    long d = vc::choice("axis", 0, 2);
    double x[3], z = pos("z");
    for (int i = 0; i < 3; i++) x[i] = pos("x");
    CoordR3 p(CoordId(1), at(x[0], d)), q(CoordId(2), at(x[1], d)), r(CoordId(3), at(x[2], d));
    CoordI3 c(CoordId(4), CVecI3(1, 2, 3));
    const CoordR3* v[3] = {&p, &q, &r};
    const CoordI3* w[1] = {&c};
    Element::Group<Elem> g;
    ENSURES("none in an empty group", g.getClosestVertex(at(z, d)) == nullptr);
    g.add(new NodI(ElemId(8), w));
    ENSURES("cells have no position", g.getClosestVertex(at(z, d)) == nullptr);
    g.add(new LinR2(ElemId(3), v));
    g.add(new NodR(ElemId(2), v + 2));
    const CoordR3* s = g.getClosestVertex(at(z, d));
    ENSURES("one of the coordinates", s == v[0] || s == v[1] || s == v[2]);
    for (int i = 0; i < 3; i++) ENSURES("no other is closer", std::fabs(s->pos()(d) - z) <= std::fabs(x[i] - z));
}
// elements are found by the numbers of their vertices in any order; the first of those with the same vertices
VC_DRIVER_BOUNDED(byVertices, "Group::getIndexByVertexId", "three elements of one to four vertices with any numbers") {
    size_t n[4];
    for (int i = 0; i < 4; i++) n[i] = num("n", 1, VC_PROVING ? 3 : 4);
    std::vector<CoordR3> c;
    std::vector<const CoordR3*> v;
    for (int i = 0; i < 4; i++) c.push_back(CoordR3(CoordId(n[i]), CVecR3(i, i * i, 1)));
    for (int i = 0; i < 4; i++) v.push_back(&c[i]);
    Element::Group<ElemR> g;
    g.add(new LinR2(ElemId(9), &v[0]));
    g.add(new LinR2(ElemId(2), &v[2]));
    g.add(new NodR(ElemId(5), &v[1]));
    Element::IndexByVertexId m = g.getIndexByVertexId();
    bool same = (n[0] == n[2] && n[1] == n[3]) || (n[0] == n[3] && n[1] == n[2]);
    ENSURES("one entry for each set of vertices", m.size() == (size_t)(same ? 2 : 3));
    std::vector<CoordId> a, b, d(1, CoordId(n[1])), x;
    a.push_back(CoordId(n[1])); a.push_back(CoordId(n[0]));
    b.push_back(CoordId(n[2])); b.push_back(CoordId(n[3]));
    x.push_back(CoordId(8)); x.push_back(CoordId(n[0]));
    ENSURES("found by the numbers of its vertices, in any order", m.count(a) == 1 && m.find(a)->second == g(0) && m.count(b) == 1 && m.find(b)->second == g(same ? 0 : 1) && m.count(d) == 1 && m.find(d)->second == g(2));
    ENSURES("no element has other vertices", m.count(x) == 0 && m.count(std::vector<CoordId>()) == 0);
}
VC_DRIVER_BOUNDED(linear, "Group::isLinear", "up to two triangles") {
    std::vector<CoordR3> c;
    std::vector<const CoordR3*> v;
    for (int i = 0; i < 6; i++) c.push_back(CoordR3(CoordId(i + 1), CVecR3(i, i * i, i * i * i)));
    for (int i = 0; i < 6; i++) v.push_back(&c[i]);
    ElemRGroup g;
    ENSURES("empty", g.isLinear());
    g.add(new Tri3(ElemId(1), &v[0]));
    ENSURES("linear", g.isLinear());
    g.add(new Tri6(ElemId(2), &v[0]));
    ENSURES("one is quadratic", !g.isLinear());
    g.add(new NodR(ElemId(3), &v[0]));
    ENSURES("some are quadratic", !g.isLinear());
    g.remove(1);
    ENSURES("all linear again", g.isLinear());
}
