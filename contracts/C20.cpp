// Plane waves, dipoles, generators, sources on lines
// VC-SOURCES: core/source/Source.cpp core/source/PlaneWave.cpp core/source/Dipole.cpp core/source/Generator.cpp core/source/OnLine.cpp core/source/magnitude/Magnitude.cpp core/source/magnitude/Numerical.cpp core/filesystem/Project.cpp core/math/function/Gaussian.cpp core/math/util/Real.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
#include "vc.h"
#include "math/function/Gaussian.h"
#include "math/function/LinearInterpolation.h"
#include "geometry/coordinate/Group.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Node.h"
#include "geometry/element/Tetrahedron4.h"
#include "source/PlaneWave.h"
#include "source/Dipole.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/Group.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef Source::Magnitude::Magnitude Mag;
typedef Source::PlaneWave PW;
typedef std::pair<double, double> P;
// a linear function of time
struct Ramp : public Function::Function<Real, Real> {
    double a, b;
    Ramp(double a_, double b_) : a(a_), b(b_) {}
    SEMBA_MATH_FUNCTION_DEFINE_CLONE(Ramp);
    Real operator()(const Real& t) const { return a * t + b; }
    bool operator==(const Math::Function::Base& rhs) const { return ((const Ramp&)rhs).a == a && ((const Ramp&)rhs).b == b; }
};
static double val(const char* n) { return VC_PROVING ? vc::real_in(n, -1e3, 1e3) : 0.5 * vc::integer(n, -6, 6); }
static CVecR3 vec3(const char* n) { double x = val(n), y = val(n), z = val(n); return CVecR3(x, y, z); }
static double dot(const CVecR3& a, const CVecR3& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
static CVecR3 cross(const CVecR3& a, const CVecR3& b) { return CVecR3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
static bool same(const CVecR3& a, const CVecR3& b) { return vc::eq(a(0), b(0)) && vc::eq(a(1), b(1)) && vc::eq(a(2), b(2)); }
static bool null(const CVecR3& a) { return a(0) == 0.0 && a(1) == 0.0 && a(2) == 0.0; }
struct Model {
    Coordinate::Group<CoordR3> cg;
    Element::Group<Vol> vols;
    Element::Group<const Nod> nods;
    Element::Group<const Lin> lins;
    const Elem *vol, *nod, *lin, *other;
    Model() {
        for (int i = 0; i < 4; i++) cg.add(new CoordR3(CoordId(i + 1), CVecR3(i == 1, i == 2, i == 3)));
        const CoordR3* v[4] = {cg(0), cg(1), cg(2), cg(3)};
        Tet4* t = new Tet4(ElemId(1), v);
        Tet4* u = new Tet4(ElemId(4), v);
        NodR* n = new NodR(ElemId(2), v);
        LinR2* l = new LinR2(ElemId(3), v);
        vols.add(t);
        nods.add(n);
        lins.add(l);
        others.add(u);
        vol = t; nod = n; lin = l; other = u;
    }
    Element::Group<Vol> others;
};
// the magnitude of a source is a ramp
static Mag* ramp(double a, double b) { return new Mag(new Ramp(a, b)); }
static bool is(const Source::Base& s, const Elem* e) { Element::Group<const Elem> g = s.elems(); return g.size() == 1 && g(0) == e; }
// ---------------------------------------------------------------- plane waves
VC_DRIVER(planewave, "PlaneWave::PlaneWave(vectors), PlaneWave::init_, PlaneWave::getDirection, PlaneWave::getPolarization, PlaneWave::getElectricField, PlaneWave::getElectromagneticField, PlaneWave::PlaneWave(const PlaneWave&), PlaneWave::clone") {
    Model m;
    CVecR3 d = vec3("direction"), p = vec3("polarization");
    double a = val("a"), b = val("b"), t = val("t");
    bool zeroPol = false, zeroDir = false, notPerp = false;
    try {
        PW w(ramp(a, b), m.vols, d, p);
        ENSURES("direction", w.getDirection() == d);
        ENSURES("polarization", w.getPolarization() == p);
        ENSURES("not randomic", !w.isRandomic());
        ENSURES("name", w.getName() == "PlaneWave");
        ENSURES("elements", is(w, m.vol));
        ENSURES("magnitude", w.getMagnitude()->evaluate(t) == a * t + b);
        CVecR3 e = p * (a * t + b);
        ENSURES("electric field", same(w.getElectricField(t), e));
        std::pair<CVecR3, CVecR3> em = w.getElectromagneticField(t);
        ENSURES("both fields: electric", same(em.first, e));
        ENSURES("both fields: magnetic", same(em.second, cross(d, e) * Constants::VACUUM_ADMITANCE));
        PW* c = new PW(w);
        PW* k = w.clone();
        ENSURES("copies", c->getDirection() == d && c->getPolarization() == p && !c->isRandomic() && is(*c, m.vol) && same(c->getElectricField(t), e));
        ENSURES("clones", k->getDirection() == d && k->getPolarization() == p && !k->isRandomic() && is(*k, m.vol) && same(k->getElectricField(t), e));
        ENSURES("copies have a magnitude of their own", c->getMagnitude() != w.getMagnitude() && k->getMagnitude() != w.getMagnitude());
        delete c;
        delete k;
        ENSURES("releasing copies leaves the original", w.getMagnitude()->evaluate(t) == a * t + b);
    }
    catch (const Source::Error::PlaneWave::ZeroPolarization&) { zeroPol = true; }
    catch (const Source::Error::PlaneWave::ZeroMagnitude&) { zeroDir = true; }
    catch (const Source::Error::PlaneWave::NotPerpendicular&) { notPerp = true; }
    ENSURES("null polarizations are reported", zeroPol == null(p));
    ENSURES("null directions are reported", zeroDir == (null(d) && !null(p)));
    if (dot(d, p) == 0.0) ENSURES("perpendicular vectors are accepted", !notPerp);
    if (dot(d, p) > 0.001 || dot(d, p) < -0.001) ENSURES("others are reported", notPerp);
}
// theta is the angle from z, phi the angle of the projection on the xy plane from x
static CVecR3 perpendicular(const CVecR3& v) { return v(0) == 0.0 && v(1) == 0.0 ? CVecR3(1, 0, 0) : CVecR3(-v(1), v(0), 0); }
VC_DRIVER(directionAngles, "PlaneWave::getTheta, PlaneWave::getPhi, PlaneWave::cartesianToPolar") {
    Element::Group<Vol> none;
    CVecR3 v = vec3("direction");
    REQUIRES(!null(v));
    PW w(nullptr, none, v, perpendicular(v));
    double n = std::sqrt(dot(v, v)), r = std::sqrt(v(0) * v(0) + v(1) * v(1)), th = w.getTheta(), ph = w.getPhi();
    ENSURES("angle from z", vc::eq(n * std::cos(th), v(2)) && vc::le(0.0, std::sin(th)));
    ENSURES("angle from x", vc::eq(r * std::cos(ph), v(0)) && vc::eq(r * std::sin(ph), v(1)));
}
VC_DRIVER(polarizationAngles, "PlaneWave::getAlpha, PlaneWave::getBeta, PlaneWave::cartesianToPolar") {
    Element::Group<Vol> none;
    CVecR3 v = vec3("polarization");
    REQUIRES(!null(v));
    PW w(nullptr, none, perpendicular(v), v);
    double n = std::sqrt(dot(v, v)), r = std::sqrt(v(0) * v(0) + v(1) * v(1)), th = w.getAlpha(), ph = w.getBeta();
    ENSURES("angle from z", vc::eq(n * std::cos(th), v(2)) && vc::le(0.0, std::sin(th)));
    ENSURES("angle from x", vc::eq(r * std::cos(ph), v(0)) && vc::eq(r * std::sin(ph), v(1)));
}
VC_DRIVER(fromAngles, "PlaneWave::PlaneWave(angles), PlaneWave::polarToCartesian") {
    Model m;
    double th = vc::real("theta"), ph = vc::real("phi"), al = vc::real("alpha"), be = vc::real("beta"), a = val("a"), b = val("b"), t = val("t");
    if (!VC_PROVING && vc::boolean("perpendicular")) { al = th + Constants::pi_2; be = ph; }
    CVecR3 d(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th));
    CVecR3 p(std::sin(al) * std::cos(be), std::sin(al) * std::sin(be), std::cos(al));
    bool notPerp = false;
    try {
        PW w(ramp(a, b), m.vols, P(th, ph), P(al, be));
        ENSURES("direction", same(w.getDirection(), d));
        ENSURES("polarization", same(w.getPolarization(), p));
        ENSURES("elements", is(w, m.vol));
        ENSURES("not randomic", !w.isRandomic());
        ENSURES("electric field", same(w.getElectricField(t), p * (a * t + b)));
    } catch (const Source::Error::PlaneWave::NotPerpendicular&) { notPerp = true; }
    if (dot(d, p) == 0.0) ENSURES("perpendicular vectors are accepted", !notPerp);
    if (dot(d, p) > 0.001 || dot(d, p) < -0.001) ENSURES("others are reported", notPerp);
}
VC_DRIVER(randomic, "PlaneWave::PlaneWave(random), PlaneWave::isRandomic, PlaneWave::getNumberOfRandomPlanewaves, PlaneWave::getRelativeVariationOfRandomDelay, PlaneWave::operator=") {
    Model m;
    long n = vc::integer("number", 0, 1000);
    double v = val("variation"), a = val("a"), b = val("b"), t = val("t");
    PW* w = new PW(ramp(a, b), m.vols, (Int)n, v);
    ENSURES("randomic", w->isRandomic());
    ENSURES("number of waves", w->getNumberOfRandomPlanewaves() == n);
    ENSURES("variation of the delay", w->getRelativeVariationOfRandomDelay() == v);
    ENSURES("elements", is(*w, m.vol));
    PW c(*w), s(ramp(b, a), m.others, CVecR3(1, 0, 0), CVecR3(0, 0, 1)), none;
    ENSURES("default", !none.isRandomic() && none.getNumberOfRandomPlanewaves() == 0 && none.getRelativeVariationOfRandomDelay() == 0.0 && none.getMagnitude() == nullptr && none.size() == 0);
    s = *w;
    none = s;
    delete w;
    const PW* r[3] = {&c, &s, &none};
    for (int i = 0; i < 3; i++) {
        ENSURES("copied and assigned waves are the same", r[i]->isRandomic() && r[i]->getNumberOfRandomPlanewaves() == n && r[i]->getRelativeVariationOfRandomDelay() == v);
        ENSURES("with their own magnitude", r[i]->getMagnitude()->evaluate(t) == a * t + b && r[i]->getMagnitude() != r[(i + 1) % 3]->getMagnitude());
        ENSURES("and the same elements", is(*r[i], m.vol));
    }
    PW* self = &s;
    s = *self;
    ENSURES("assignment to itself changes nothing", s.isRandomic() && s.getNumberOfRandomPlanewaves() == n && s.getMagnitude()->evaluate(t) == a * t + b && is(s, m.vol));
    PW nothing;
    c = nothing;
    ENSURES("assigned from none", c.getMagnitude() == nullptr && !c.isRandomic() && c.size() == 0);
}
// ---------------------------------------------------------------- other sources
typedef Source::Dipole Dip;
struct Peek : public Dip {
    static double len(const Dip& d) { return d.*(&Peek::length_); }
    static CVecR3 ori(const Dip& d) { return d.*(&Peek::orientation_); }
    static CVecR3 pos(const Dip& d) { return d.*(&Peek::position_); }
};
VC_DRIVER(dipole, "Dipole::Dipole, Dipole::Dipole(const Dipole&), Dipole::clone, Source::set, Source::add") {
    Model m;
    double l = val("length"), a = val("a"), b = val("b"), t = val("t");
    CVecR3 o = vec3("orientation"), p = vec3("position");
    Source::Dipole* d = new Source::Dipole(ramp(a, b), m.vols, l, o, p);
    ENSURES("length, orientation and position", Peek::len(*d) == l && Peek::ori(*d) == o && Peek::pos(*d) == p);
    ENSURES("name", d->getName() == "Dipole");
    ENSURES("elements", is(*d, m.vol));
    Source::Dipole c(*d);
    Source::Dipole* k = d->clone();
    delete d;
    ENSURES("copies", Peek::len(c) == l && Peek::ori(c) == o && Peek::pos(c) == p && is(c, m.vol) && c.getMagnitude()->evaluate(t) == a * t + b);
    ENSURES("clones", Peek::len(*k) == l && Peek::ori(*k) == o && Peek::pos(*k) == p && is(*k, m.vol) && k->getMagnitude()->evaluate(t) == a * t + b);
    Element::Group<const Elem> g(m.other);
    c.set(g);
    ENSURES("set replaces the elements", is(c, m.other) && Peek::len(c) == l && is(*k, m.vol));
    k->add(g);
    Element::Group<const Elem> both = k->elems();
    ENSURES("add keeps the elements", both.size() == 2 && both(0) == m.vol && both(1) == m.other && is(c, m.other));
    delete k;
}
VC_DRIVER(generators, "Generator::Generator, Generator::Generator(const Generator&), Generator::getType, Generator::clone, OnLine::OnLine, OnLine::OnLine(const OnLine&), OnLine::getType, OnLine::getHardness, OnLine::clone") {
    Model m;
    double a = val("a"), b = val("b"), t = val("t");
    bool v = vc::boolean("voltage"), h = vc::boolean("hard"), e = vc::boolean("electric");
    Source::Generator::Type ty = v ? Source::Generator::voltage : Source::Generator::current;
    Source::Generator* g = new Source::Generator(ramp(a, b), m.nods, ty, h ? Source::Generator::hard : Source::Generator::soft);
    Source::Generator c(*g), d;
    Source::Generator* k = g->clone();
    ENSURES("type of a generator", g->getType() == ty && g->getName() == "Generator" && is(*g, m.nod));
    ENSURES("default", d.getMagnitude() == nullptr && d.size() == 0 && d.getType() == Source::Generator::current);
    d = *g;
    delete g;
    ENSURES("copies of generators", c.getType() == ty && is(c, m.nod) && c.getMagnitude()->evaluate(t) == a * t + b);
    ENSURES("clones of generators", k->getType() == ty && is(*k, m.nod) && k->getMagnitude()->evaluate(t) == a * t + b);
    ENSURES("assigned generators", d.getType() == ty && is(d, m.nod) && d.getMagnitude()->evaluate(t) == a * t + b);
    delete k;
    Source::OnLine::Type oty = e ? Source::OnLine::electric : Source::OnLine::magnetic;
    Source::OnLine::Hardness oh = h ? Source::OnLine::hard : Source::OnLine::soft;
    Source::OnLine* o = new Source::OnLine(ramp(b, a), m.lins, oty, oh);
    ENSURES("type and hardness of a source on lines", o->getType() == oty && o->getHardness() == oh && o->getName() == "OnLine" && is(*o, m.lin));
    Source::OnLine p(*o);
    Source::OnLine* q = o->clone();
    delete o;
    ENSURES("copies of sources on lines", p.getType() == oty && p.getHardness() == oh && is(p, m.lin) && p.getMagnitude()->evaluate(t) == b * t + a);
    ENSURES("clones of sources on lines", q->getType() == oty && q->getHardness() == oh && is(*q, m.lin) && q->getMagnitude()->evaluate(t) == b * t + a);
    p = *q;
    delete q;
    ENSURES("assigned sources on lines", p.getType() == oty && p.getHardness() == oh && is(p, m.lin) && p.getMagnitude()->evaluate(t) == b * t + a);
    ENSURES("the magnitude is not numerical", !p.magnitudeIs<Source::Magnitude::Numerical>() && p.getMagnitudeFilename() == "");
}
VC_DRIVER(groups, "Source::Group::Group, Source::Group::clone, Source::Group::add") {
    Model m;
    double a = val("a"), b = val("b"), t = val("t");
    SourceGroup g;
    g.add(new Source::Generator(ramp(a, b), m.nods, Source::Generator::voltage, Source::Generator::soft));
    g.add(new PW(ramp(b, a), m.vols, CVecR3(1, 0, 0), CVecR3(0, 0, 1)));
    SourceGroup* c = new SourceGroup(g.cloneElems());
    ENSURES("clones have as many sources", c->size() == 2);
    ENSURES("of their own", (*c)(0) != g(0) && (*c)(1) != g(1));
    g.clear();
    ENSURES("of the same kinds", (*c)(0)->is<Source::Generator>() && (*c)(1)->is<PW>());
    ENSURES("with the same magnitudes", (*c)(0)->getMagnitude()->evaluate(t) == a * t + b && (*c)(1)->getMagnitude()->evaluate(t) == b * t + a);
    ENSURES("and elements", is(*(*c)(0), m.nod) && is(*(*c)(1), m.vol));
    ENSURES("chosen by kind", c->getOf<PW>().size() == 1 && c->getOf<Source::Dipole>().size() == 0);
    delete c;
}
#if !VC_PROVING
#include <cstdio>
#include <fstream>
#include <unistd.h>
#endif
VC_NATIVE(numerical, "Source::Base::convertToNumerical, Source::Base::exportToFile, Source::Base::getMagnitudeFilename", "ramps sampled up to ten times") {
#if !VC_PROVING
    typedef Source::Magnitude::Numerical Num;
    double a = val("a"), b = val("b");
    long n = vc::integer("samples", 1, 10);
    char name[] = "/tmp/vcsrcXXXXXX";
    int fd = mkstemp(name);
    REQUIRES(fd >= 0);
    close(fd);
    Model m;
    PW w(ramp(a, b), m.vols, CVecR3(1, 0, 0), CVecR3(0, 0, 1));
    FileSystem::Project file{std::string(name)};
    Num* e = w.exportToFile(file, 0.25, 0.25 * n);
    bool ok = true;
    for (long i = 0; i < n; i++) ok = ok && std::fabs(e->Magnitude::evaluate(0.25 * i) - (a * 0.25 * i + b)) < 1e-6;
    ENSURES("exported magnitudes take the values sampled", ok && e->getFilename() == name);
    ENSURES("the source is not changed", !w.magnitudeIs<Num>() && w.getMagnitudeFilename() == "" && w.getMagnitude()->evaluate(2.0) == a * 2.0 + b);
    w.convertToNumerical(file, 0.25, 0.25 * n);
    ENSURES("converted sources are numerical", w.magnitudeIs<Num>() && w.getMagnitudeFilename() == name && *w.getMagnitude() == *e);
    w.convertToNumerical(FileSystem::Project(std::string("other")), 0.5, 1.0);
    ENSURES("once", w.getMagnitudeFilename() == name && *w.getMagnitude() == *e);
    Num* f = w.exportToFile(FileSystem::Project(std::string("other")), 0.5, 1.0);
    ENSURES("numerical magnitudes are exported as they are", *f == *e && f != w.getMagnitude());
    PW c(w);
    ENSURES("copies are numerical", c.magnitudeIs<Num>() && c.getMagnitudeFilename() == name);
    delete e;
    delete f;
    std::remove(name);
#endif
}
