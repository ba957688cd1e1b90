// Ports: coaxial and rectangular waveguide weights, dimensions and normals
// VC-SOURCES: core/source/Source.cpp core/source/port/Port.cpp core/source/port/TEM.cpp core/source/port/TEMCoaxial.cpp core/source/port/Waveguide.cpp core/source/port/WaveguideRectangular.cpp core/source/magnitude/Magnitude.cpp core/source/magnitude/Numerical.cpp core/filesystem/Project.cpp core/math/util/Real.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
#include "vc.h"
#include "geometry/coordinate/Group.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Triangle3.h"
#include "source/port/TEMCoaxial.h"
#include "source/port/WaveguideRectangular.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef Source::Magnitude::Magnitude Mag;
typedef Source::Port::TEM TEM;
typedef Source::Port::TEMCoaxial Coax;
typedef Source::Port::Waveguide WG;
typedef Source::Port::WaveguideRectangular Rect;
struct Ramp : public Function::Function<Real, Real> {
    double a, b;
    Ramp(double a_, double b_) : a(a_), b(b_) {}
    SEMBA_MATH_FUNCTION_DEFINE_CLONE(Ramp);
    Real operator()(const Real& t) const { return a * t + b; }
    bool operator==(const Math::Function::Base& rhs) const { return ((const Ramp&)rhs).a == a && ((const Ramp&)rhs).b == b; }
};
static double val(const char* n) { return VC_PROVING ? vc::real_in(n, -1e3, 1e3) : 0.5 * vc::integer(n, -6, 6); }
static CVecR3 vec3(const char* n) { double x = val(n), y = val(n), z = val(n); return CVecR3(x, y, z); }
static bool same(const CVecR3& a, const CVecR3& b) { return vc::eq(a(0), b(0)) && vc::eq(a(1), b(1)) && vc::eq(a(2), b(2)); }
// a rectangle parallel to the xy plane, from (x,y) to (x+w,y+h)
struct Sheet {
    Coordinate::Group<CoordR3> cg;
    Element::Group<Surf> g;
    const Elem* e;
    Sheet(double x, double y, double w, double h, double z, long id) {
        cg.add(new CoordR3(CoordId(1), CVecR3(x, y, z)));
        cg.add(new CoordR3(CoordId(2), CVecR3(x + w, y, z)));
        cg.add(new CoordR3(CoordId(3), CVecR3(x + w, y + h, z)));
        cg.add(new CoordR3(CoordId(4), CVecR3(x, y + h, z)));
        const CoordR3* v[4] = {cg(0), cg(1), cg(2), cg(3)};
        QuaR4* q = new QuaR4(ElemId(id), v);
        e = q;
        g.add(q);
    }
};
static Mag* ramp(double a, double b) { return new Mag(new Ramp(a, b)); }
static bool is(const Source::Base& s, const Elem* e) { Element::Group<const Elem> g = s.elems(); return g.size() == 1 && g(0) == e; }
// ---------------------------------------------------------------- coaxial
VC_DRIVER(coaxial, "TEMCoaxial::TEMCoaxial, TEMCoaxial::getWeight, TEMCoaxial::getOrigin, TEM::getExcitationMode, TEMCoaxial::clone") {
    Element::Group<const Surf> none;
    CVecR3 o = vec3("origin"), p = vec3("position");
    double in = vc::real_in("inner", 0.5, 4.0), out = vc::real_in("outer", 5.0, 9.0);
    if (!VC_PROVING) p(2) = o(2);
    double dx = p(0) - o(0), dy = p(1) - o(1), dz = p(2) - o(2), r2 = dx * dx + dy * dy;
    REQUIRES(dz == 0.0 && r2 != 0.0);
    Coax v(nullptr, none, TEM::voltage, o, in, out), i(nullptr, none, TEM::current, o, in, out);
    ENSURES("origin", v.getOrigin() == o && i.getOrigin() == o);
    ENSURES("mode", v.getExcitationMode() == TEM::voltage && i.getExcitationMode() == TEM::current);
    ENSURES("name", v.getName() == "Coaxial_TEM_port");
    CVecR3 e = v.getWeight(p), h = i.getWeight(p);
    double l = std::log(out / in);
    ENSURES("electric weights point outwards and drop with the distance", vc::eq(e(0) * (r2 * l), dx) && vc::eq(e(1) * (r2 * l), dy) && e(2) == 0.0);
    double c = 2.0 * Constants::pi * r2;
    ENSURES("magnetic weights turn around the origin and drop with the distance", vc::eq(h(0) * c, -dy) && vc::eq(h(1) * c, dx) && h(2) == 0.0);
    Coax k(v);
    Coax* q = i.clone();
    ENSURES("copies have the same weights", same(k.getWeight(p), e) && k.getOrigin() == o && k.getExcitationMode() == TEM::voltage);
    ENSURES("clones have the same weights", same(q->getWeight(p), h) && q->getOrigin() == o && q->getExcitationMode() == TEM::current);
    delete q;
}
VC_DRIVER(coaxialSet, "TEMCoaxial::set, TEMCoaxial::getWeight, TEMCoaxial::getOrigin") {
    double x = val("x"), y = val("y"), z = val("z"), w = vc::real_in("width", 1.0, 20.0), h = vc::real_in("height", 1.0, 20.0), a = val("a"), b = val("b"), t = val("t");
    Sheet m(x, y, w, h, z, 7);
    Element::Group<const Surf> none;
    Coax p(ramp(a, b), none, TEM::voltage, CVecR3(0, 0, 0), 1.0, 3.0);
    p.set(m.g);
    ENSURES("the port takes the elements", is(p, m.e));
    CVecR3 c(x + w / 2, y + h / 2, z);
    ENSURES("the origin is the centre of the elements", same(p.getOrigin(), c));
    CVecR3 q = p.getWeight(c + CVecR3(2, 0, 0));
    ENSURES("the ratio of the radii is kept", vc::eq(q(0) * (2.0 * std::log(3.0)), 1.0) && q(1) == 0.0 && q(2) == 0.0);
    ENSURES("the magnitude is kept", p.getMagnitude()->evaluate(t) == a * t + b);
    Coax k(p);
    ENSURES("copies have the same elements and origin", is(k, m.e) && same(k.getOrigin(), c) && k.getMagnitude()->evaluate(t) == a * t + b && k.getMagnitude() != p.getMagnitude());
}
// three coordinates of a triangle
struct Slant {
    Coordinate::Group<CoordR3> cg;
    Element::Group<Surf> g;
    Slant(const CVecR3& a, const CVecR3& b, const CVecR3& c) {
        cg.add(new CoordR3(CoordId(1), a));
        cg.add(new CoordR3(CoordId(2), b));
        cg.add(new CoordR3(CoordId(3), c));
        const CoordR3* v[3] = {cg(0), cg(1), cg(2)};
        g.add(new Tri3(ElemId(1), v));
    }
};
VC_DRIVER(plane, "TEMCoaxial::set, WaveguideRectangular::WaveguideRectangular, Waveguide::Waveguide") {
    double x = val("x"), y = val("y"), z = val("z"), w = vc::real_in("width", 1.0, 20.0), h = vc::real_in("height", 1.0, 20.0), u = vc::choice("tilted", 0, 1) ? 1.0 + vc::real_in("rise", 0.0, 5.0) : 0.0;
    CVecR3 o(x, y, z);
    // a triangle in the xy plane or out of it
    Slant m(o, o + CVecR3(w, 0, 0), o + CVecR3(0, h, u));
    Element::Group<const Surf> none;
    Coax p(nullptr, none, TEM::current, CVecR3(1, 2, 3), 1.0, 3.0);
    bool bad = false;
    try { p.set(m.g); } catch (const std::logic_error&) { bad = true; }
    ENSURES("coaxial ports lie in a plane of constant z", bad == (u != 0.0));
    if (bad) ENSURES("refused elements change nothing", p.getOrigin() == CVecR3(1, 2, 3) && p.size() == 0);
    bad = false;
    size_t i = (size_t)vc::choice("i", 0, 1), j = (size_t)vc::choice("j", 0, 1);
    try {
        Rect r(nullptr, m.g, WG::TE, std::make_pair(i, j));
    } catch (const std::logic_error&) { bad = true; }
    ENSURES("waveguides lie in a plane of constant z and have a mode", bad == (u != 0.0 || (i == 0 && j == 0)));
}
VC_DRIVER(upright, "Waveguide::Waveguide, TEMCoaxial::set") {
    double x = val("x"), y = val("y"), z = val("z"), w = vc::real_in("width", 1.0, 20.0), h = vc::real_in("height", 1.0, 20.0);
    CVecR3 o(x, y, z);
    bool alongX = vc::boolean("along x");
    Slant m(o, o + (alongX ? CVecR3(w, 0, 0) : CVecR3(0, w, 0)), o + CVecR3(0, 0, h));
    Element::Group<const Surf> none;
    Coax p(nullptr, none, TEM::voltage, CVecR3(1, 2, 3), 1.0, 3.0);
    bool bad = false;
    try { p.set(m.g); } catch (const std::logic_error&) { bad = true; }
    ENSURES("upright coaxial ports are refused", bad && p.getOrigin() == CVecR3(1, 2, 3));
    bad = false;
    try { Rect r(nullptr, m.g, WG::TM, std::make_pair((size_t)1, (size_t)1)); } catch (const std::logic_error&) { bad = true; }
    ENSURES("upright waveguides are refused", bad);
}
// ---------------------------------------------------------------- rectangular
VC_DRIVER_BOUNDED(rectangular, "WaveguideRectangular::WaveguideRectangular, WaveguideRectangular::getWeight, WaveguideRectangular::getWidth, WaveguideRectangular::getHeight, WaveguideRectangular::getOrigin, Waveguide::getMode, Waveguide::getExcitationMode, WaveguideRectangular::clone", "modes up to 2,2; rectangles of any position and size") {
    double x = val("x"), y = val("y"), z = val("z"), w = vc::real_in("width", 1.0, 20.0), h = vc::real_in("height", 1.0, 20.0), px = val("px"), py = val("py");
    size_t i = (size_t)vc::choice("i", 0, 2), j = (size_t)vc::choice("j", 0, 2);
    REQUIRES(i + j > 0);
    bool te = vc::choice("TE", 0, 1);
    Sheet s(x, y, w, h, z, 7);
    Rect r(nullptr, s.g, te ? WG::TE : WG::TM, std::make_pair(i, j));
    ENSURES("mode", r.getMode() == std::make_pair(i, j) && r.getExcitationMode() == (te ? WG::TE : WG::TM));
    ENSURES("name", r.getName() == "Rectangular_waveguide_port");
    ENSURES("width", vc::eq(r.getWidth(), w));
    ENSURES("height", vc::eq(r.getHeight(), h));
    ENSURES("origin", same(r.getOrigin(), CVecR3(x, y, z)));
    CVecR3 e = r.getWeight(CVecR3(px, py, z));
    double m = Constants::pi * i / w, n = Constants::pi * j / h, top = m < n ? n : m;
    double u = std::cos(m * (px - x)) * std::sin(n * (py - y)), v = std::sin(m * (px - x)) * std::cos(n * (py - y));
    ENSURES("weights across the height", vc::eq(e(0) * top, te ? -n * u : -m * u));
    ENSURES("weights across the width", vc::eq(e(1) * top, te ? m * v : -n * v));
    ENSURES("no longitudinal weight", e(2) == 0.0);
    Rect c(r);
    Rect* k = r.clone();
    ENSURES("copies", same(c.getWeight(CVecR3(px, py, z)), e) && c.getMode() == r.getMode() && c.getExcitationMode() == r.getExcitationMode() && vc::eq(c.getWidth(), w) && vc::eq(c.getHeight(), h) && is(c, s.e));
    ENSURES("clones", same(k->getWeight(CVecR3(px, py, z)), e) && k->getMode() == r.getMode() && k->getExcitationMode() == r.getExcitationMode() && same(k->getOrigin(), r.getOrigin()) && is(*k, s.e));
    delete k;
}
VC_DRIVER_BOUNDED(walls, "WaveguideRectangular::getWeight", "modes up to 2,2; rectangles of any size") {
    double w = vc::real_in("width", 1.0, 20.0), h = vc::real_in("height", 1.0, 20.0), x = val("x"), y = val("y"), q = val("q");
    size_t i = (size_t)vc::choice("i", 0, 2), j = (size_t)vc::choice("j", 0, 2);
    REQUIRES(i + j > 0);
    Sheet s(x, y, w, h, 0.0, 7);
    Rect r(nullptr, s.g, vc::choice("TE", 0, 1) ? WG::TE : WG::TM, std::make_pair(i, j));
    ENSURES("no weight along the lower wall", vc::eq(r.getWeight(CVecR3(x + q, y, 0))(0), 0.0));
    ENSURES("no weight along the left wall", vc::eq(r.getWeight(CVecR3(x, y + q, 0))(1), 0.0));
}
VC_DRIVER_BOUNDED(farWalls, "WaveguideRectangular::getWeight", "modes up to 2,2; two rectangles")
{
    bool wide = vc::choice("wide", 0, 1);
    double w = wide ? 3.5 : 1.0, h = wide ? 0.5 : 1.5, x = val("x"), y = val("y"), q = val("q");
    size_t i = (size_t)vc::choice("i", 0, 2), j = (size_t)vc::choice("j", 0, 2);
    REQUIRES(i + j > 0);
    Sheet s(x, y, w, h, 0.0, 7);
    Rect r(nullptr, s.g, vc::choice("TE", 0, 1) ? WG::TE : WG::TM, std::make_pair(i, j));
    ENSURES("no weight along the upper wall", vc::eq(r.getWeight(CVecR3(x + q, y + h, 0))(0), 0.0));
    ENSURES("no weight along the right wall", vc::eq(r.getWeight(CVecR3(x + w, y + q, 0))(1), 0.0));
}
VC_DRIVER(rectangularSet, "WaveguideRectangular::set, Waveguide::Waveguide(const Waveguide&), Port::Port(const Port&)") {
    double x = val("x"), y = val("y"), z = val("z"), w = vc::real_in("width", 1.0, 20.0), h = vc::real_in("height", 1.0, 20.0), a = val("a"), b = val("b"), t = val("t");
    Sheet s(0.0, 0.0, 1.0, 2.0, 3.0, 6), m(x, y, w, h, z, 7);
    Rect r(ramp(a, b), s.g, WG::TE, std::make_pair((size_t)1, (size_t)0));
    Rect c(r);
    r.set(m.g);
    ENSURES("the port takes the elements", is(r, m.e));
    ENSURES("and their dimensions", vc::eq(r.getWidth(), w) && vc::eq(r.getHeight(), h) && same(r.getOrigin(), CVecR3(x, y, z)));
    ENSURES("copies keep theirs", is(c, s.e) && c.getWidth() == 1.0 && c.getHeight() == 2.0);
    ENSURES("mode and magnitude are kept", r.getMode() == c.getMode() && r.getMagnitude()->evaluate(t) == a * t + b && c.getMagnitude()->evaluate(t) == a * t + b && c.getMagnitude() != r.getMagnitude());
    c = r;
    ENSURES("assigned ports", is(c, m.e) && vc::eq(c.getWidth(), w) && c.getMagnitude()->evaluate(t) == a * t + b && c.getMagnitude() != r.getMagnitude());
    bool bad = false;
    try { Element::Group<const Surf> none; Rect e(nullptr, none, WG::TE, std::make_pair((size_t)1, (size_t)0)); } catch (const std::logic_error&) { bad = true; }
    ENSURES("ports without elements are refused", bad);
}
// ---------------------------------------------------------------- normals
VC_DRIVER(normal, "Port::getNormal") {
    double x = val("x"), y = val("y"), z = val("z"), w = vc::real_in("width", 1.0, 20.0), h = vc::real_in("height", 1.0, 20.0);
    Sheet s(x, y, w, h, z, 7);
    Rect r(nullptr, s.g, WG::TE, std::make_pair((size_t)1, (size_t)0));
    ENSURES("of a port of positions", same(r.getNormal(), CVecR3(0, 0, 1)));
    Element::Group<const Surf> none;
    Coax e(nullptr, none, TEM::voltage, CVecR3(0, 0, 0), 1.0, 3.0);
    ENSURES("of no elements", e.getNormal() == CVecR3());
    long i = vc::integer("i", -1000, 1000), j = vc::integer("j", -1000, 1000), k = vc::integer("k", -1000, 1000), l = vc::integer("l", 1, 20);
    Coordinate::Group<CoordI3> cg;
    CVecI3 p(i, j, k);
    cg.add(new CoordI3(CoordId(1), p));
    cg.add(new CoordI3(CoordId(2), p + CVecI3(l, 0, 0)));
    cg.add(new CoordI3(CoordId(3), p + CVecI3(l, l, 0)));
    cg.add(new CoordI3(CoordId(4), p + CVecI3(0, l, 0)));
    const CoordI3* v[4] = {cg(0), cg(3), cg(2), cg(1)};
    Element::Group<const Surf> g(new QuaI4(ElemId(1), v));
    Coax c(nullptr, g, TEM::voltage, CVecR3(0, 0, 0), 1.0, 3.0);
    CVecR3 n = c.getNormal();
    ENSURES("of a port of cells", n(0) == 0.0 && n(1) == 0.0 && n(2) < 0.0);
}
VC_OPT(coaxialSet, "inf=1")
VC_OPT(plane, "inf=1")
VC_OPT(upright, "inf=1")
VC_OPT(rectangular, "inf=1")
VC_OPT(walls, "inf=1")
VC_OPT(rectangularSet, "inf=1")
VC_OPT(normal, "inf=1")
VC_OPT(farWalls, "inf=1")
