// Physical models: identity, data, validation, derived quantities and copies
// VC-SOURCES: core/physicalModel/PhysicalModel.cpp core/physicalModel/bound/Bound.cpp core/physicalModel/bound/Mur1.cpp core/physicalModel/bound/Mur2.cpp core/physicalModel/bound/PEC.cpp core/physicalModel/bound/PMC.cpp core/physicalModel/bound/PML.cpp core/physicalModel/bound/Periodic.cpp core/physicalModel/bound/SMA.cpp core/physicalModel/gap/Gap.cpp core/physicalModel/multiport/Dispersive.cpp core/physicalModel/multiport/Multiport.cpp core/physicalModel/multiport/Predefined.cpp core/physicalModel/multiport/RLC.cpp core/physicalModel/predefined/PEC.cpp core/physicalModel/predefined/PMC.cpp core/physicalModel/predefined/Predefined.cpp core/physicalModel/predefined/SMA.cpp core/physicalModel/surface/Multilayer.cpp core/physicalModel/surface/SIBC.cpp core/physicalModel/surface/SIBCFile.cpp core/physicalModel/surface/Surface.cpp core/physicalModel/volume/Anisotropic.cpp core/physicalModel/volume/AnisotropicCrystal.cpp core/physicalModel/volume/AnisotropicFerrite.cpp core/physicalModel/volume/Classic.cpp core/physicalModel/volume/Dispersive.cpp core/physicalModel/volume/PML.cpp core/physicalModel/volume/Volume.cpp core/physicalModel/wire/Extremes.cpp core/physicalModel/wire/Wire.cpp core/math/axis/Local.cpp core/math/util/Real.cpp core/filesystem/Project.cpp
#include "vc.h"
#include <complex>
#include <iostream>
#include <limits>
#include <sstream>
#ifndef VC_PROVE
#include <cstdio>
#include <unistd.h>
#endif
#include "physicalModel/Group.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/Mur2.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/wire/Extremes.h"
using namespace SEMBA;
using namespace SEMBA::Math;
namespace PM = SEMBA::PhysicalModel;
typedef PM::PhysicalModel Model;
typedef PM::Id Id;
typedef PM::Multiport::Multiport MP;
static const double eps0 = 8.8541878176203899e-12, mu0 = 1.2566370614359173e-6;
static Id anyId(const char* n) { return Id(vc::integer(n, 1, 1000000)); }
static double val(const char* n) { return VC_PROVING ? vc::real_in(n, -1e6, 1e6) : 0.5 * vc::integer(n, -6, 20); }
// near enough to tell one constant from another
static bool near(double a, double b) { return (a <= b * 1.00001 && a >= b * 0.99999) || (a >= b * 1.00001 && a <= b * 0.99999); }
static bool same(const Model& m, const Id& id, const std::string& name) { return m.getId() == id && m.getName() == name; }

// ---------------------------------------------------------------- identity
template<class T> static void boundary(const char* name) {
    Id id = anyId("id"), id2 = anyId("id2");
    std::string other = vc::str("other");
    T a(id), b(a);
    Model* c = static_cast<const Model&>(a).template cloneTo<Model>();
    ENSURES("boundaries have the number given and the name of their kind", same(a, id, name));
    ENSURES("copies of boundaries have the same number and name", same(b, id, name));
    ENSURES("clones of boundaries have the same kind, number and name", c->is<T>() && same(*c, id, name));
    c->setName(other);
    c->setId(id2);
    ENSURES("a clone is renamed and renumbered on its own", same(*c, id2, other) && same(a, id, name));
    delete c;
}
VC_DRIVER(boundaries, "Bound::PEC, Bound::PMC, Bound::PML, Bound::SMA, Bound::Mur1, Bound::Mur2, Bound::Periodic") {
    boundary<PM::Bound::PEC>("PEC");
    boundary<PM::Bound::PMC>("PMC");
    boundary<PM::Bound::PML>("PML");
    boundary<PM::Bound::SMA>("SMA");
    boundary<PM::Bound::Mur1>("Mur1");
    boundary<PM::Bound::Mur2>("Mur2");
    boundary<PM::Bound::Periodic>("Periodic");
}
template<class T> static void predefined(const char* kind) {
    Id id = anyId("id");
    std::string name = vc::str("name");
    T d(id), a(id, name), b(a);
    Model* c = static_cast<const Model&>(a).template cloneTo<Model>();
    ENSURES("predefined models have the name of their kind when none is given", same(d, id, kind));
    ENSURES("predefined models have the number and name given", same(a, id, name));
    ENSURES("copies of predefined models have the same number and name", same(b, id, name));
    ENSURES("clones of predefined models have the same kind, number and name", c->is<T>() && same(*c, id, name));
    delete c;
}
VC_DRIVER(predefinedModels, "Predefined::PEC, Predefined::PMC, Predefined::SMA, clone") {
    predefined<PM::Predefined::PEC>("PEC");
    predefined<PM::Predefined::PMC>("PMC");
    predefined<PM::Predefined::SMA>("SMA");
}
VC_DRIVER(gap, "Gap::Gap, Gap::getWidth, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    double w = val("width");
    PM::Gap::Gap a(id, name, w), b(a);
    PM::Gap::Gap* c = a.clone();
    ENSURES("gaps keep number, name and width", same(a, id, name) && a.getWidth() == w);
    ENSURES("copies of gaps are equal", same(b, id, name) && b.getWidth() == w);
    ENSURES("clones of gaps are equal", same(*c, id, name) && c->getWidth() == w);
    delete c;
}
// ---------------------------------------------------------------- multiports
static MP::Type anyType() {
    static const MP::Type t[] = {MP::shortCircuit, MP::openCircuit, MP::matched, MP::sRLC, MP::sRLpC, MP::sRCpL, MP::sRpLC, MP::sLCpR, MP::sLpRC, MP::sCpLR, MP::pRLC};
    return t[vc::choice("type", 0, 10)];
}
VC_DRIVER(multiports, "Multiport::Predefined, Multiport::RLC, Multiport::Dispersive, Multiport::getType, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name"), file = vc::str("file");
    double r = val("r"), l = val("l"), c = val("c");
    MP::Type t = anyType();
    PM::Multiport::Predefined p(id, name, t), p2(p);
    PM::Multiport::RLC q(id, name, t, r, l, c), q2(q);
    PM::Multiport::Dispersive d(id, name, file), d2(d);
    MP *p3 = static_cast<const Model&>(p).cloneTo<MP>(), *q3 = static_cast<const Model&>(q).cloneTo<MP>(), *d3 = static_cast<const Model&>(d).cloneTo<MP>();
    ENSURES("predefined multiports keep number, name and type", same(p, id, name) && p.getType() == t);
    ENSURES("copies of predefined multiports are equal", same(p2, id, name) && p2.getType() == t && same(*p3, id, name) && p3->getType() == t && p3->is<PM::Multiport::Predefined>());
    ENSURES("RLC multiports keep number, name and type", same(q, id, name) && q.getType() == t);
    ENSURES("RLC multiports keep resistance, inductance and capacitance", q.getR() == r && q.getL() == l && q.getC() == c);
    ENSURES("copies of RLC multiports are equal", same(q2, id, name) && q2.getType() == t && q2.getR() == r && q2.getL() == l && q2.getC() == c);
    PM::Multiport::RLC* q4 = q3->castTo<PM::Multiport::RLC>();
    ENSURES("clones of RLC multiports are equal", same(*q4, id, name) && q4->getType() == t && q4->getR() == r && q4->getL() == l && q4->getC() == c);
    ENSURES("dispersive multiports keep number, name, file and type", same(d, id, name) && d.getFilename() == file && d.getType() == MP::dispersive);
    ENSURES("copies of dispersive multiports are equal", same(d2, id, name) && d2.getFilename() == file && d2.getType() == MP::dispersive);
    PM::Multiport::Dispersive* d4 = d3->castTo<PM::Multiport::Dispersive>();
    ENSURES("clones of dispersive multiports are equal", same(*d4, id, name) && d4->getFilename() == file && d4->getType() == MP::dispersive);
    delete p3;
    delete q3;
    delete d3;
}
// ---------------------------------------------------------------- wires
struct WireData { double radius, r, l, c, pr, pl, pc; bool sp, disp; std::string file; };
static bool same(const PM::Wire::Wire& w, const WireData& d) {
    return w.getRadius() == d.radius && w.isSeriesParallel() == d.sp && w.isDispersive() == d.disp && w.getSeriesResistance() == d.r && w.getSeriesInductance() == d.l && w.getSeriesCapacitance() == d.c &&
           w.getParallelResistance() == d.pr && w.getParallelInductance() == d.pl && w.getParallelCapacitance() == d.pc && w.getFilename() == d.file;
}
static WireData anyWire(long kind) {
    WireData d = {0, 0, 0, 0, 0, 0, 0, kind == 1, kind == 2, std::string()};
    d.radius = val("radius");
    if (kind < 2) { d.r = val("r"); d.l = val("l"); }
    if (kind == 1) { d.c = val("c"); d.pr = val("pr"); d.pl = val("pl"); d.pc = val("pc"); }
    if (kind == 2) d.file = vc::str("file");
    return d;
}
static PM::Wire::Wire* make(long kind, const Id& id, const std::string& name, const WireData& d) {
    if (kind == 0) return new PM::Wire::Wire(id, name, d.radius, d.r, d.l);
    if (kind == 1) return new PM::Wire::Wire(id, name, d.radius, d.r, d.l, d.c, d.pr, d.pl, d.pc);
    return new PM::Wire::Wire(id, name, d.radius, d.file);
}
VC_DRIVER(wires, "Wire::Wire, accessors, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    long kind = vc::choice("kind", 0, 2);
    WireData d = anyWire(kind);
    PM::Wire::Wire* w = make(kind, id, name, d);
    ENSURES("wires keep number and name", same(*w, id, name));
    ENSURES("wires keep their parameters", same(*w, d));
    PM::Wire::Wire b(*w), *c = w->clone();
    ENSURES("copies of wires are equal", same(b, id, name) && same(b, d));
    ENSURES("clones of wires are equal", same(*c, id, name) && same(*c, d));
    delete w;
    ENSURES("copies outlive the wire", same(b, d) && same(*c, d));
    delete c;
}
static MP* port(long kind, const char* n) {
    if (kind == 1) return new PM::Multiport::RLC(Id(41), "rlc", MP::sRLC, val(n), val(n), val(n));
    if (kind == 2) return new PM::Multiport::Predefined(Id(42), "short", MP::shortCircuit);
    return nullptr;
}
// the same multiport, held apart
static bool copyOf(const MP* a, const MP* b) {
    if (a == nullptr || b == nullptr) return a == b;
    if (a == b || !(a->getId() == b->getId()) || a->getName() != b->getName() || a->getType() != b->getType()) return false;
    const PM::Multiport::RLC *x = dynamic_cast<const PM::Multiport::RLC*>(a), *y = dynamic_cast<const PM::Multiport::RLC*>(b);
    if (x == nullptr || y == nullptr) return x == nullptr && y == nullptr;
    return x->getR() == y->getR() && x->getL() == y->getL() && x->getC() == y->getC();
}
static bool has(const PM::Wire::Extremes& e, const MP* l, const MP* r) { return copyOf(e.getExtreme(0), l) && copyOf(e.getExtreme(1), r); }
VC_DRIVER(wireEnds, "Extremes::Extremes, getExtreme, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    WireData d = anyWire(0);
    PM::Wire::Wire* w = make(0, id, "wire", d);
    MP *l = port(vc::choice("left", 0, 2), "l"), *r = port(vc::choice("right", 0, 2), "r");
    PM::Wire::Extremes* e = new PM::Wire::Extremes(name, *w, l, r);
    delete w;
    ENSURES("the wire with ends has the number and parameters of the wire and the name given", same(*e, id, name) && same(*e, d));
    ENSURES("each end has its own copy of the multiport given", has(*e, l, r));
    PM::Wire::Extremes b(*e), *c = e->clone();
    ENSURES("copies have the same data", same(b, id, name) && same(b, d) && same(*c, id, name) && same(*c, d));
    ENSURES("copies have ends of their own", has(b, e->getExtreme(0), e->getExtreme(1)) && has(*c, e->getExtreme(0), e->getExtreme(1)));
    delete e;
    ENSURES("copies outlive the wire", has(b, l, r) && has(*c, l, r));
    delete c;
    delete l;
    delete r;
}
VC_DRIVER(wireEndsChanged, "Extremes::setExtreme, swapExtremes, operator=") {
    WireData d = anyWire(0);
    PM::Wire::Wire *w = make(0, Id(3), "wire", d), *w2 = make(0, Id(4), "other", anyWire(0));
    MP *l = port(vc::choice("left", 0, 2), "l"), *r = port(vc::choice("right", 0, 2), "r"), *n = port(vc::choice("new", 0, 2), "n");
    PM::Wire::Extremes e("ends", *w, l, r), f("other ends", *w2, n, nullptr);
    e.swapExtremes();
    ENSURES("ends are swapped", has(e, r, l) && same(e, d));
    e.swapExtremes();
    ENSURES("ends are swapped back", has(e, l, r));
    f = e;
    ENSURES("an assigned wire has the same data", same(f, Id(3), "ends") && same(f, d));
    ENSURES("an assigned wire has ends of its own", has(f, l, r) && has(f, e.getExtreme(0), e.getExtreme(1)));
    long i = vc::choice("end", 0, 1);
    f.setExtreme(i, n);
    ENSURES("the end set is changed and the other is not", has(f, i == 0 ? n : l, i == 0 ? r : n));
    ENSURES("the wire it was copied from is not changed", has(e, l, r));
    f.setExtreme(i, f.getExtreme(i));
    ENSURES("setting an end to what it is changes nothing", has(f, i == 0 ? n : l, i == 0 ? r : n));
    PM::Wire::Extremes& g = e;
    e = g;
    ENSURES("self assignment changes nothing", has(e, l, r) && same(e, d));
    delete l;
    delete r;
    delete n;
    delete w;
    delete w2;
}
// ---------------------------------------------------------------- surfaces
typedef PM::Surface::Multilayer Multi;
VC_DRIVER(layer, "Multilayer::Layer") {
    double t = val("thickness"), e = val("eps"), m = val("mu"), s = val("sigma");
    bool threw = false;
    try {
        Multi::Layer a(t, e, m, s);
        ENSURES("layers keep what they are given", a.getThickness() == t && a.getRelPermittivity() == e && a.getRelPermeability() == m && a.getElecCond() == s);
        ENSURES("absolute permittivity and permeability of a layer", near(a.getPermittivity(), e * eps0) && near(a.getPermeability(), m * mu0));
    } catch (std::logic_error&) {
        threw = true;
    }
    ENSURES("layers with null permittivity or permeability are rejected", threw == (e == 0.0 || m == 0.0));
}
VC_DRIVER(multilayer, "Multilayer::Multilayer, getThickness, getPermittivity, getPermeability, getElecCond, getMagnCond, hasFittingOptions, getFittingOptions, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    double t[2], e[2], m[2], s[2];
    std::vector<Multi::Layer> ls;
    for (int i = 0; i < 2; i++) {
        t[i] = val("thickness"); e[i] = val("eps"); m[i] = val("mu"); s[i] = val("sigma");
        REQUIRES(e[i] != 0.0 && m[i] != 0.0);
        ls.push_back(Multi::Layer(t[i], e[i], m[i], s[i]));
    }
    double f0 = val("fmin"), f1 = val("fmax");
    long poles = vc::integer("poles", 0, 50), nopt = vc::choice("options", 0, 2);
    std::vector<Multi::FittingOptions> op;
    for (long k = 0; k < nopt; k++) op.push_back(Multi::FittingOptions(std::pair<Real, Real>(f0, f1), (size_t)poles));
    Multi* a = nullptr;
    bool threw = false;
    try { a = new Multi(id, name, ls, op); } catch (std::runtime_error&) { threw = true; }
    ENSURES("more than one set of fitting options is rejected", threw == (nopt > 1));
    if (threw) return;
    Multi* b = a->clone();
    delete a;
    ENSURES("multilayers keep number, name and number of layers", same(*b, id, name) && b->getNumberOfLayers() == 2);
    for (int i = 0; i < 2; i++) {
        ENSURES("multilayers keep their layers in order", b->getThickness(i) == t[i] && b->getElecCond(i) == s[i] && b->getLayer(i).getRelPermittivity() == e[i] && b->getLayer(i).getRelPermeability() == m[i]);
        ENSURES("absolute permittivity and permeability of each layer", near(b->getPermittivity(i), e[i] * eps0) && near(b->getPermeability(i), m[i] * mu0));
        ENSURES("layers have no magnetic conductivity", b->getMagnCond(i) == 0.0);
    }
    ENSURES("fitting options are optional", b->hasFittingOptions() == (nopt == 1));
    bool none = false;
    try {
        Multi::FittingOptions o = b->getFittingOptions();
        ENSURES("fitting options are kept", o.getMinMaxFreq().first == f0 && o.getMinMaxFreq().second == f1 && (long)o.getNumberOfPoles() == poles);
    } catch (std::runtime_error&) {
        none = true;
    }
    ENSURES("fitting options that were not given are an error", none == (nopt == 0));
    delete b;
}
typedef std::complex<Real> C;
static C cplx(const char* n) { double a = val(n), b = val(n); return C(a, b); }
static MatC22 mat(const char* n) {
    MatC22 m;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m(i, j) = cplx(n);
    return m;
}
static bool same(const MatC22& a, const MatC22& b) {
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (!(a(i, j) == b(i, j))) return false;
    return true;
}
VC_DRIVER(sibc, "SIBC::SIBC, getZInfinity, getZLinear, getPoleZ, getNumberOfPoles, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    MatC22 inf = mat("inf"), lin = mat("lin"), z[2];
    C p[2];
    std::vector<PM::Surface::SIBC::PoleResidue> v;
    for (int i = 0; i < 2; i++) {
        p[i] = cplx("pole");
        z[i] = mat("residue");
        v.push_back(PM::Surface::SIBC::PoleResidue(p[i], z[i]));
    }
    PM::Surface::SIBC a(id, name, inf, lin, v), *b = a.clone(), none(id, name, inf, lin, std::vector<PM::Surface::SIBC::PoleResidue>());
    ENSURES("impedance boundaries keep number and name", same(*b, id, name));
    ENSURES("impedance boundaries keep both impedances", same(b->getZInfinity(), inf) && same(b->getZLinear(), lin));
    ENSURES("impedance boundaries keep the number of poles", b->getNumberOfPoles() == 2 && none.getNumberOfPoles() == 0);
    for (int i = 0; i < 2; i++) ENSURES("impedance boundaries keep each pole with its residue", b->getPoleZ()[i].first == p[i] && same(b->getPoleZ()[i].second, z[i]));
    delete b;
}
VC_NATIVE(sibcFile, "SIBCFile::SIBCFile, getFile, clone", "eight file names") {
    static const char* names[] = {"a.mibc", "folder/b.c.mibc", "a.mibcx", "a.txt", "mibc", "/tmp/x.y/z.mibc", "a.mibc.bak", "A.MIBC"};
    static const bool good[] = {true, true, false, false, false, true, false, false};
    long i = vc::integer("name", 0, 7);
    std::streambuf* out = std::cout.rdbuf();
    std::ostringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    PM::Surface::SIBCFile* a = nullptr;
    bool threw = false;
    try { a = new PM::Surface::SIBCFile(Id(5), "surface", FileSystem::Project(names[i])); } catch (std::logic_error&) { threw = true; }
    std::cout.rdbuf(out);
    ENSURES("only files of impedances are taken", threw == !good[i]);
    if (threw) return;
    PM::Surface::SIBCFile* b = a->clone();
    delete a;
    ENSURES("the file is kept", same(*b, Id(5), "surface") && b->getFile() == std::string(names[i]));
    delete b;
}
// ---------------------------------------------------------------- volumes
typedef PM::Volume::Classic Classic;
VC_DRIVER(classic, "Classic::Classic, accessors, isVacuum, clone") {
    Id id = anyId("id");
    std::string name = "material";
    double e = val("eps"), m = val("mu"), s = val("sigma"), z = val("sigmaM");
    REQUIRES(e >= 1.0 && m >= 1.0 && s >= 0.0 && z >= 0.0);
    Classic a(id, name, e, m, s, z), b(a), *c = a.clone(), v(id, name);
    ENSURES("materials keep number and name", same(a, id, name));
    ENSURES("materials keep what they are given", a.getRelativePermittivity() == e && a.getRelativePermeability() == m && a.getElectricConductivity() == s && a.getMagneticConductivity() == z);
    ENSURES("absolute permittivity and permeability of a material", near(a.getPermittivity(), e * eps0) && near(a.getPermeability(), m * mu0));
    ENSURES("only the vacuum is the vacuum", a.isVacuum() == (e == 1.0 && m == 1.0 && s == 0.0 && z == 0.0));
    ENSURES("copies of materials are equal", same(b, id, name) && b.getRelativePermittivity() == e && b.getRelativePermeability() == m && b.getElectricConductivity() == s && b.getMagneticConductivity() == z);
    ENSURES("clones of materials are equal", same(*c, id, name) && c->getRelativePermittivity() == e && c->getRelativePermeability() == m && c->getElectricConductivity() == s && c->getMagneticConductivity() == z);
    ENSURES("materials are the vacuum by default", v.isVacuum());
    double i = a.getImpedance(), y = a.getAdmitance();
    ENSURES("the impedance is positive and its square is the ratio of permeability to permittivity", i > 0.0 && vc::eq(i * i * a.getPermittivity() / a.getPermeability(), 1.0));
    ENSURES("the admittance is the inverse of the impedance", vc::eq(i * y, 1.0));
    delete c;
}
VC_OPT(classicLimits, "inf=1")
VC_DRIVER(classicLimits, "Classic::getImpedance, getAdmitance") {
    std::streambuf* out = nullptr;
#ifndef VC_PROVE
    std::ostringstream sink;
    out = std::cerr.rdbuf(sink.rdbuf());
#endif
    double m = vc::real_in("mu", 1.0, 100.0), neg = vc::real_in("neg", -5.0, 0.0);
    Classic a(Id(1), "no permittivity", neg, m), b(Id(2), "no permeability", m, neg);
#ifndef VC_PROVE
    std::cerr.rdbuf(out);
#endif
    ENSURES("infinite impedance without permittivity", a.getImpedance() == std::numeric_limits<Real>::infinity());
    ENSURES("infinite admittance without permeability", b.getAdmitance() == std::numeric_limits<Real>::infinity());
}
typedef PM::Volume::Dispersive Disp;
VC_DRIVER(dispersive, "Volume::Dispersive::Dispersive, getPole, getResidue, getElectricConductivity, isClassic, isSimplyConductive, isDispersive, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    double s = VC_PROVING ? vc::real_in("sigma", 0.0, 1e3) : (double)vc::integer("sigma", 0, 3);
    long n = vc::choice("poles", 0, 2);
    C p[2], r[2];
    std::vector<PM::Volume::PoleResidue> v;
    for (long i = 0; i < n; i++) {
        p[i] = cplx("pole");
        r[i] = cplx("residue");
        REQUIRES(p[i].real() != 0.0 || p[i].imag() != 0.0);
        v.push_back(PM::Volume::PoleResidue(p[i], r[i]));
    }
    Disp a(id, name, 1.0, 1.0, s, 0.0, v);
    Disp* b = a.clone();
    long k = s != 0.0 ? 1 : 0;
    ENSURES("dispersive materials keep number and name", same(*b, id, name));
    ENSURES("each pole is kept, besides that of the conductivity", (long)b->getPoleNumber() == n + k);
    for (long i = 0; i < n; i++) ENSURES("each pole is kept with its residue, in order", b->getPole(i + k) == p[i] && b->getResidue(i + k) == r[i]);
    ENSURES("materials with poles are dispersive", b->isDispersive() == (n + k > 0));
    ENSURES("materials with at most a conductivity are classic", b->isClassic() == (n == 0) && b->isSimplyConductive() == (n == 0));
    // natively a warning is printed
    if (VC_PROVING || n + k <= 1) ENSURES("the conductivity given is kept", vc::eq(b->getElectricConductivity(), s));
    delete b;
}
VC_DRIVER(dispersiveMagnetic, "Volume::Dispersive::Dispersive") {
    double z = val("sigmaM"), s = VC_PROVING ? vc::real_in("sigma", 0.0, 1e3) : (double)vc::integer("sigma", 0, 3);
    bool threw = false;
    try { Disp a(Id(1), "x", 1.0, 1.0, s, z); } catch (std::logic_error&) { threw = true; }
    ENSURES("magnetic conductivity is rejected", threw == (z != 0.0));
}
VC_NATIVE(dispersiveFile, "Volume::Dispersive::Dispersive(file), getFile, isClassic, clone", "a file that exists and one that does not") {
#ifndef VC_PROVE
    char f[] = "/tmp/vcC21XXXXXX";
    int fd = mkstemp(f);
    std::string name(f), no = name + ".none";
    Disp a(Id(3), "file", FileSystem::Project(name)), *b = a.clone();
    ENSURES("the file is kept", a.getFile() == name && b->getFile() == name && same(*b, Id(3), "file"));
    ENSURES("materials in files are not classic", !b->isClassic() && !b->isSimplyConductive());
    ENSURES("materials in files have no poles yet", b->getPoleNumber() == 0 && b->getElectricConductivity() == 0.0);
    delete b;
    bool threw = false;
    try { Disp c(Id(3), "file", FileSystem::Project(no)); } catch (std::ios_base::failure&) { threw = true; }
    ENSURES("a file that can not be opened is rejected", threw);
    close(fd);
    unlink(f);
#endif
}
static CVecR3 angles() { double a = val("phi"), b = val("theta"), c = val("psi"); return CVecR3(a, b, c); }
// M = T D T'
static bool rotated(const MatR33& m, const MatR33& t, const double d[3][3]) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        double x = 0;
        for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) if (d[k][l] != 0.0 || VC_PROVING) x += t(i, k) * d[k][l] * t(j, l);
        if (!vc::eq(m(i, j), x)) return false;
    }
    return true;
}
static bool null(const MatR33& m) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (m(i, j) != 0.0) return false;
    return true;
}
VC_DRIVER(crystal, "AnisotropicCrystal::AnisotropicCrystal, getRelPermittivityMatR, getRelPermeabilityMatR, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    Axis::Local ax(angles());
    double e0 = val("e0"), e1 = val("e1"), e2 = val("e2"), m = val("mu");
    PM::Volume::AnisotropicCrystal a(id, name, ax, CVecR3(e0, e1, e2), m), *b = a.clone();
    ENSURES("crystals keep number and name", same(*b, id, name));
    ENSURES("crystals keep principal permittivities and permeability", b->getPrincipalAxesRelativePermittivity() == CVecR3(e0, e1, e2) && b->getRelativePermeability() == m);
    ENSURES("crystals keep their axes", b->getLocalAxe().getEulerAngles() == ax.getEulerAngles() && b->getLocalAxe().getOrigin() == ax.getOrigin());
    MatR33 t = ax.getTransformationMatrix();
    const double d[3][3] = {{e0, 0, 0}, {0, e1, 0}, {0, 0, e2}}, q[3][3] = {{m, 0, 0}, {0, m, 0}, {0, 0, m}};
    ENSURES("the permittivity is that of the principal axes, rotated", rotated(b->getRelPermittivityMatR(), t, d));
    ENSURES("the permeability is that of the crystal, rotated", rotated(b->getRelPermeabilityMatR(), t, q));
    ENSURES("crystals do not conduct", null(b->getElectricConductivityMat()) && null(b->getMagneticConductivityMat()));
    delete b;
}
VC_DRIVER(ferrite, "AnisotropicFerrite::AnisotropicFerrite, getRelPermittivityMatR, getRelPermeabilityMatR, getRelPermeabilityMatI, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    Axis::Local ax(angles());
    double k = val("kappa"), m = val("mu"), e = val("eps");
    PM::Volume::AnisotropicFerrite a(id, name, ax, k, m, e), *b = a.clone();
    ENSURES("ferrites keep number and name", same(*b, id, name));
    ENSURES("ferrites keep their axes", b->getLocalAxe().getEulerAngles() == ax.getEulerAngles() && b->getLocalAxe().getOrigin() == ax.getOrigin());
    MatR33 t = ax.getTransformationMatrix(), p = b->getRelPermittivityMatR();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ENSURES("the permittivity of a ferrite is the same in every direction", p(i, j) == (i == j ? e : 0.0));
    const double d[3][3] = {{m, 0, 0}, {0, m, 0}, {0, 0, 1.0}}, q[3][3] = {{0, k, 0}, {-k, 0, 0}, {0, 0, 0}};
    ENSURES("the real part of the permeability is that of the ferrite, rotated", rotated(b->getRelPermeabilityMatR(), t, d));
    ENSURES("the imaginary part of the permeability is that of the ferrite, rotated", rotated(b->getRelPermeabilityMatI(), t, q));
    ENSURES("ferrites do not conduct", null(b->getElectricConductivityMat()) && null(b->getMagneticConductivityMat()));
    delete b;
}
VC_DRIVER(pml, "Volume::PML::PML, getOrientation, getGlobalZAxis, clone") {
    Id id = anyId("id");
    std::string name = vc::str("name");
    double x = val("x"), y = val("y"), z = val("z");
    Axis::Local ax(angles(), CVecR3(x, y, z));
    PM::Volume::PML a(id, name, ax), *b = a.clone();
    ENSURES("absorbing layers keep number, name and orientation", same(*b, id, name) && b->getOrientation().getEulerAngles() == ax.getEulerAngles() && b->getOrientation().getOrigin() == ax.getOrigin());
    CVecR3 g = b->getGlobalZAxis();
    MatR33 t = ax.getTransformationMatrix();
    ENSURES("the global z axis is the rotated z axis, wherever the origin is", vc::eq(g(0), t(0, 2)) && vc::eq(g(1), t(1, 2)) && vc::eq(g(2), t(2, 2)));
    delete b;
}
// ---------------------------------------------------------------- groups
VC_DRIVER_BOUNDED(group, "PhysicalModel::Group, getId, clone", "three models") {
    long a = vc::integer("a", 1, 50), b = vc::integer("b", 1, 50), c = vc::integer("c", 1, 50);
    REQUIRES(a != b && b != c && a != c);
    std::string name = vc::str("name");
    double w = val("width");
    PMGroup g;
    g.add(new PM::Predefined::PEC(Id(a), name));
    g.add(new PM::Gap::Gap(Id(b), "gap", w));
    g.add(new PM::Predefined::PMC(Id(c)));
    PMGroup* k = g.clone();
    ENSURES("models are found by number", g.getId(Id(a)) == g(0) && g.getId(Id(b)) == g(1) && g.getId(Id(c)) == g(2));
    ENSURES("clones have models of their own, found by number", k->size() == 3 && k->getId(Id(a)) == (*k)(0) && k->getId(Id(b)) == (*k)(1) && k->getId(Id(c)) == (*k)(2) && (*k)(0) != g(0) && (*k)(1) != g(1) && (*k)(2) != g(2));
    g.clear();
    ENSURES("clones outlive the group", same(*(*k)(0), Id(a), name) && (*k)(1)->castTo<PM::Gap::Gap>()->getWidth() == w && same(*(*k)(2), Id(c), "PMC"));
    ENSURES("models are selected by kind", k->getOf<PM::Gap::Gap>().size() == 1 && k->getOf<PM::Predefined::Predefined>().size() == 2);
    delete k;
}
