// Output requests, solver information and whole simulations: data, validation and self-contained copies
// VC-SOURCES: core/Data.cpp core/outputRequest/OutputRequest.cpp core/outputRequest/Domain.cpp core/outputRequest/BulkCurrent.cpp core/outputRequest/FarField.cpp core/physicalModel/PhysicalModel.cpp core/physicalModel/gap/Gap.cpp core/physicalModel/predefined/Predefined.cpp core/physicalModel/predefined/PEC.cpp core/source/Source.cpp core/source/Generator.cpp core/source/magnitude/Magnitude.cpp core/source/magnitude/Numerical.cpp core/filesystem/Project.cpp core/geometry/mesh/Mesh.cpp core/geometry/mesh/Structured.cpp core/geometry/mesh/Unstructured.cpp core/geometry/mesh/Geometric.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
// VC-STRINGS: real
#include "vc.h"
#include "Data.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Node.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/mesh/Geometric.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/predefined/PEC.h"
#include "source/Generator.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef OutputRequest::Base Base;
typedef OutputRequest::Domain Domain;
typedef OutputRequest::OutputRequest<Elem> Req;
typedef OutputRequest::BulkCurrent Bulk;
typedef OutputRequest::FarField Far;
typedef Element::Group<const Elem> Elems;
typedef Source::Magnitude::Magnitude Mag;
struct Ramp : public Function::Function<Real, Real> {
    double a, b;
    Ramp(double a_, double b_) : a(a_), b(b_) {}
    SEMBA_MATH_FUNCTION_DEFINE_CLONE(Ramp);
    Real operator()(const Real& t) const { return a * t + b; }
    bool operator==(const Math::Function::Base& rhs) const { return ((const Ramp&)rhs).a == a && ((const Ramp&)rhs).b == b; }
};
// models that count how many there are
static long alive = 0;
struct Counted : public virtual PhysicalModel::PhysicalModel {
    double w;
    Counted(size_t i, double w_) : Identifiable<MatId>(MatId(i)), PhysicalModel("counted"), w(w_) { alive++; }
    Counted(const Counted& r) : Identifiable<MatId>(r), PhysicalModel(r), w(r.w) { alive++; }
    ~Counted() { alive--; }
    SEMBA_CLASS_DEFINE_CLONE(Counted);
};
static double val(const char* n) { return VC_PROVING ? vc::real_in(n, -1e6, 1e6) : 0.5 * vc::integer(n, -6, 20); }
static Domain domain(const char* n) {
    bool t = vc::boolean(n), f = vc::boolean(n), l = vc::boolean(n);
    double a = val(n), b = val(n), c = val(n), d = val(n), e = val(n), g = val(n);
    return Domain(t, a, b, c, f, d, e, g, l, false, "");
}
static bool is(const Base& r, Base::Type t, const std::string& name, const Domain& d) { return r.getType() == t && r.getName() == name && r.domain() == d; }
static bool is(const Elems& g, const Elem* a, const Elem* b) {
    return b == nullptr ? g.size() == 1 && g(0) == a : g.size() == 2 && g(0) == a && g(1) == b;
}
// two nodes and a tetrahedron, with or without material
struct Things {
    CoordR3 c0, c1, c2, c3;
    PhysicalModel::Gap::Gap model;
    Element::Group<Elem> nodes;
    Element::Group<Vol> vols;
    Elem *a, *b;
    Vol* v;
    Things(bool ma = false, bool mb = false) : c0(CoordId(1), CVecR3(0, 0, 0)), c1(CoordId(2), CVecR3(1, 0, 0)), c2(CoordId(3), CVecR3(0, 1, 0)), c3(CoordId(4), CVecR3(0, 0, 1)), model(MatId(5), "gap", 0.5) {
        const CoordR3 *va[1] = {&c0}, *vb[1] = {&c1}, *vt[4] = {&c0, &c1, &c2, &c3};
        a = new NodR(ElemId(11), va, nullptr, ma ? &model : nullptr);
        b = new NodR(ElemId(12), vb, nullptr, mb ? &model : nullptr);
        v = new Tet4(ElemId(13), vt);
        nodes.add(a);
        nodes.add(b);
        vols.add(v);
    }
};
// ---------------------------------------------------------------- output requests
static Base::Type anyType() {
    static const Base::Type t[] = {Base::electric, Base::magnetic, Base::electricFieldNormals, Base::magneticFieldNormals, Base::surfaceCurrentDensity, Base::bulkCurrentElectric, Base::bulkCurrentMagnetic, Base::current, Base::voltage, Base::electricFarField};
    return t[vc::choice("type", 0, 9)];
}
VC_OPT(request, "strings=model")
VC_DRIVER(request, "OutputRequest::OutputRequest, getName, getType, domain, elems, clone") {
    Things m;
    std::string name = vc::str("name");
    Domain d = domain("domain");
    Base::Type t = anyType();
    Req* r = new Req(d, t, name, m.nodes);
    ENSURES("requests keep type, name and domain", is(*r, t, name, d));
    ENSURES("requests keep their elements in order", is(r->elems(), m.a, m.b) && r->size() == 2);
    Req c(*r);
    Base* k = static_cast<const Class::Cloneable*>(r)->cloneTo<Base>();
    delete r;
    ENSURES("copies of requests are equal", is(c, t, name, d) && is(c.elems(), m.a, m.b));
    ENSURES("clones of requests are equal", is(*k, t, name, d) && is(k->elems(), m.a, m.b) && k->is<Req>());
    delete k;
    ENSURES("elements are not released with the requests", m.a->getId() == ElemId(11) && m.b->getId() == ElemId(12));
}
VC_OPT(requestChanged, "strings=model")
VC_DRIVER(requestChanged, "OutputRequest::setName, OutputRequest::set, OutputRequest::add, OutputRequest::domain") {
    Things m;
    std::string name = vc::str("name"), other = vc::str("other");
    Domain d = domain("domain"), e = domain("other");
    Element::Group<const Elem> one(m.nodes(0)), two(m.nodes(1));
    Req r(d, Base::electric, name, m.nodes), c(r);
    r.setName(other);
    ENSURES("only the name is changed", is(r, Base::electric, other, d) && is(r.elems(), m.a, m.b));
    r.domain() = e;
    ENSURES("only the domain is changed", is(r, Base::electric, other, e));
    r.set(two);
    ENSURES("elements are set in place of those that were there", is(r.elems(), m.b, nullptr) && is(r, Base::electric, other, e));
    r.add(one);
    ENSURES("elements are added after those that were there", is(r.elems(), m.b, m.a) && is(r, Base::electric, other, e));
    ENSURES("a copy is not changed", is(c, Base::electric, name, d) && is(c.elems(), m.a, m.b));
}
VC_OPT(bulkMaterial, "strings=model")
VC_DRIVER(bulkMaterial, "OutputRequest::OutputRequest: bulk currents need elements without material") {
    bool ma = vc::boolean("first"), mb = vc::boolean("second");
    Things m(ma, mb);
    Base::Type t = anyType();
    bool threw = false;
    try { Req r(Domain(), t, "x", m.nodes); } catch (OutputRequest::Error::Material&) { threw = true; }
    ENSURES("bulk currents through elements with material are refused, and nothing else", threw == ((t == Base::bulkCurrentElectric || t == Base::bulkCurrentMagnetic) && (ma || mb)));
}
VC_OPT(bulk, "strings=model")
VC_DRIVER(bulk, "BulkCurrent::BulkCurrent, getDir, getSkip, clone") {
    Things m;
    std::string name = vc::str("name");
    Domain d = domain("domain");
    Constants::CartesianAxis dir = (Constants::CartesianAxis)vc::integer("direction", 0, 2);
    UInt skip = (UInt)vc::integer("skip", 0, 1000);
    Element::Group<const Elem> g(m.nodes);
    Bulk* r = new Bulk(d, name, g, dir, skip);
    Bulk c(*r);
    Base* k = static_cast<const Class::Cloneable*>(r)->cloneTo<Base>();
    ENSURES("bulk currents keep name, domain, elements, direction and skip", is(*r, Base::bulkCurrentElectric, name, d) && is(r->elems(), m.a, m.b) && r->getDir() == dir && r->getSkip() == skip);
    delete r;
    ENSURES("copies of bulk currents are equal", is(c, Base::bulkCurrentElectric, name, d) && is(c.elems(), m.a, m.b) && c.getDir() == dir && c.getSkip() == skip);
    Bulk* b = k->castTo<Bulk>();
    ENSURES("clones of bulk currents are equal", is(*b, Base::bulkCurrentElectric, name, d) && is(b->elems(), m.a, m.b) && b->getDir() == dir && b->getSkip() == skip);
    delete k;
}
struct Angles { double t0, t1, dt, p0, p1, dp; };
static bool is(const Far& f, const Angles& a) { return f.getInitialTheta() == a.t0 && f.getFinalTheta() == a.t1 && f.getStepTheta() == a.dt && f.getInitialPhi() == a.p0 && f.getFinalPhi() == a.p1 && f.getStepPhi() == a.dp; }
VC_OPT(far, "strings=model")
VC_DRIVER(far, "FarField::FarField, getInitialTheta, getFinalTheta, getStepTheta, getInitialPhi, getFinalPhi, getStepPhi, clone") {
    Things m;
    std::string name = vc::str("name");
    Domain d = domain("domain");
    Angles a;
    a.t0 = val("t0"); a.t1 = val("t1"); a.dt = val("dt"); a.p0 = val("p0"); a.p1 = val("p1"); a.dp = val("dp");
    Far* r = new Far(d, name, m.vols, a.t0, a.t1, a.dt, a.p0, a.p1, a.dp);
    Far c(*r);
    Base* k = static_cast<const Class::Cloneable*>(r)->cloneTo<Base>();
    ENSURES("far fields keep name, domain, box and angles", is(*r, Base::electricFarField, name, d) && is(r->elems(), m.v, nullptr) && is(*r, a));
    delete r;
    ENSURES("copies of far fields are equal", is(c, Base::electricFarField, name, d) && is(c.elems(), m.v, nullptr) && is(c, a));
    Far* f = k->castTo<Far>();
    ENSURES("clones of far fields are equal", is(*f, Base::electricFarField, name, d) && is(f->elems(), m.v, nullptr) && is(*f, a));
    delete k;
}
VC_OPT(requests, "strings=model")
VC_DRIVER(requests, "OutputRequest::Group clone, add") {
    Things m;
    std::string name = vc::str("name");
    Domain d = domain("domain");
    OutputRequest::Group<> g;
    g.add(new Req(d, Base::voltage, name, m.nodes));
    g.add(new Far(d, "far", m.vols, 0, 1, 2, 3, 4, 5));
    OutputRequest::Group<>* k = g.clone();
    ENSURES("clones have requests of their own", k->size() == 2 && (*k)(0) != g(0) && (*k)(1) != g(1));
    g.clear();
    ENSURES("clones outlive the group, in the same order", is(*(*k)(0), Base::voltage, name, d) && is((*k)(0)->elems(), m.a, m.b) && is(*(*k)(1), Base::electricFarField, "far", d) && (*k)(1)->is<Far>());
    delete k;
}
// ---------------------------------------------------------------- simulations
// a simulation: two nodes and a line, the second node and the line with a model
struct Made {
    double w, a, b, x;
    std::string name;
    bool structured, models, sources, requests;
};
static Made any() {
    Made m;
    m.w = val("width"); m.a = val("a"); m.b = val("b"); m.x = VC_PROVING ? vc::real_in("x", 2.0, 1e6) : (double)vc::integer("x", 2, 9);
    m.name = VC_PROVING ? std::string("request") : vc::str("name");
    m.structured = false;
    m.models = vc::boolean("models");
    m.sources = vc::boolean("sources");
    m.requests = vc::boolean("requests");
    return m;
}
static void fill(Data& d, const Made& m) {
    d.physicalModels = m.models ? new PMGroup() : nullptr;
    const Element::Model* model = nullptr;
    if (m.models) {
        d.physicalModels->add(new Counted(8, m.w));
        d.physicalModels->add(new PhysicalModel::Predefined::PEC(MatId(3)));
        model = (*d.physicalModels)(0);
    }
    Coordinate::Group<CoordR3> cg;
    cg.add(new CoordR3(CoordId(1), CVecR3(0, 0, 0)));
    cg.add(new CoordR3(CoordId(2), CVecR3(m.x, 0, 0)));
    Layer::Group<Layer::Layer> lg;
    lg.add(new Layer::Layer(LayerId(1), "layer"));
    Element::Group<ElemR> eg;
    const CoordR3* v[2] = {cg(0), cg(1)};
    eg.add(new NodR(ElemId(1), v, lg(0), nullptr));
    eg.add(new NodR(ElemId(2), v + 1, nullptr, model));
    eg.add(new LinR2(ElemId(4), v, lg(0), model));
    Mesh::Unstructured* mesh = new Mesh::Unstructured(cg, eg, lg);
    d.mesh = mesh;
    if (m.sources) {
        d.sources = new Source::Group<>();
        Element::Group<Nod> n;
        n.add(mesh->elems()(1)->castTo<Nod>());
        d.sources->add(new Source::Generator(new Mag(new Ramp(m.a, m.b)), n, Source::Generator::voltage, Source::Generator::hard));
    }
    if (m.requests) {
        d.outputRequests = new OutputRequest::Group<>();
        Element::Group<Elem> n;
        n.add(mesh->elems()(2));
        n.add(mesh->elems()(0));
        d.outputRequests->add(new Req(Domain(), Base::current, m.name, n));
    }
}
// d is the simulation m, and refers only to its own parts
static void isData(const Data& d, const Made& m) {
    ENSURES("a simulation has the parts it was given", d.mesh != nullptr && (d.physicalModels != nullptr) == m.models && (d.sources != nullptr) == m.sources && (d.outputRequests != nullptr) == m.requests);
    if (d.mesh == nullptr || (d.physicalModels == nullptr) == m.models || (d.sources == nullptr) == m.sources || (d.outputRequests == nullptr) == m.requests) return;
    const Element::Model* model = nullptr;
    if (m.models) {
        ENSURES("the same models", d.physicalModels->size() == 2 && (*d.physicalModels)(0)->is<Counted>() && (*d.physicalModels)(0)->castTo<Counted>()->w == m.w && (*d.physicalModels)(0)->getId() == MatId(8) && (*d.physicalModels)(1)->is<PhysicalModel::Predefined::PEC>());
        model = (*d.physicalModels)(0);
    }
    const Mesh::Unstructured* mesh = d.mesh->castTo<Mesh::Unstructured>();
    const Element::Group<const ElemR>& e = mesh->elems();
    ENSURES("the same mesh", mesh->coords().size() == 2 && e.size() == 3 && mesh->layers().size() == 1 && mesh->coords()(1)->pos() == CVecR3(m.x, 0, 0));
    if (e.size() != 3) return;
    ENSURES("elements refer to the simulation's own models", e(0)->getModel() == nullptr && e(1)->getModel() == model && e(2)->getModel() == model);
    ENSURES("elements refer to the simulation's own coordinates and layers", e(1)->getV(0) == mesh->coords()(1) && e(2)->getV(0) == mesh->coords()(0) && e(2)->getV(1) == mesh->coords()(1) && e(0)->getLayer() == mesh->layers()(0) && e(1)->getLayer() == nullptr);
    if (m.sources) {
        const Source::Base* s = (*d.sources)(0);
        ENSURES("the same sources, with a magnitude", d.sources->size() == 1 && s->is<Source::Generator>() && s->castTo<Source::Generator>()->getType() == Source::Generator::voltage && s->getMagnitude()->evaluate(2.0) == m.a * 2.0 + m.b);
        ENSURES("sources refer to the simulation's own elements", is(s->elems(), e(1), nullptr));
    }
    if (m.requests) {
        const Base* r = (*d.outputRequests)(0);
        ENSURES("the same requests", d.outputRequests->size() == 1 && r->getType() == Base::current && r->getName() == m.name);
        ENSURES("requests refer to the simulation's own elements", is(r->elems(), e(2), e(0)));
    }
}
VC_DRIVER_BOUNDED(empty, "Data::Data, Data::operator=", "simulations with no part") {
    Data d, e(d), f;
    f = d;
    ENSURES("a new simulation is empty", d.mesh == nullptr && d.physicalModels == nullptr && d.sources == nullptr && d.outputRequests == nullptr && d.solver == nullptr);
    ENSURES("a copy of an empty simulation is empty", e.mesh == nullptr && e.physicalModels == nullptr && e.sources == nullptr && e.outputRequests == nullptr && e.solver == nullptr);
    ENSURES("an empty simulation is assigned", f.mesh == nullptr && f.physicalModels == nullptr && f.sources == nullptr && f.outputRequests == nullptr && f.solver == nullptr);
}
VC_OPT(copied, "steps=9000000")
VC_DRIVER_BOUNDED(copied, "Data::Data(const Data&), Data::clone, Data::~Data", "three elements, two models, a source and a request") {
    alive = 0;
    Made m = any();
    Data* d = new Data();
    fill(*d, m);
    isData(*d, m);
    Data* c = vc::boolean("clone") ? d->clone() : new Data(*d);
    isData(*c, m);
    ENSURES("the copy has models of its own", alive == (m.models ? 2 : 0));
    isData(*d, m);
    delete d;
    ENSURES("a simulation releases its models", alive == (m.models ? 1 : 0));
    isData(*c, m);
    delete c;
    ENSURES("everything is released in the end", alive == 0);
}
VC_OPT(assigned, "steps=9000000")
VC_DRIVER_BOUNDED(assigned, "Data::operator=, Data::~Data", "three elements, two models, a source and a request") {
    alive = 0;
    Made m = any(), n = m;
    n.models = n.sources = n.requests = true;
    n.x = 1.5;
    Data* d = new Data();
    fill(*d, m);
    Data* c = new Data();
    if (vc::boolean("full")) fill(*c, n);
    const Data* r = &(*c = *d);
    ENSURES("the assigned simulation is returned", r == c);
    isData(*c, m);
    ENSURES("what the assigned simulation had is released", alive == (m.models ? 2 : 0));
    isData(*d, m);
    delete d;
    isData(*c, m);
    *c = *r;
    isData(*c, m);
    delete c;
    ENSURES("everything is released in the end", alive == 0);
}
VC_NATIVE(solver, "Solver::Info, Data::Data(const Data&), Data::operator=", "settings of two values") {
    std::string name = vc::str("name");
    long k = vc::integer("option", -5, 5);
    double x = val("factor");
    Solver::Settings s;
    s.setObject();
    s("steps").setInt((int)k);
    s("factor").setReal(x);
    Data d;
    d.solver = new Solver::Info(name, s);
    Data c(d), e;
    e = d;
    s("steps").setInt((int)k + 1);
    d.solver->setName("changed");
    d.solver->setSettings(s);
    const Data* t[2] = {&c, &e};
    for (int i = 0; i < 2; i++) {
        ENSURES("the copy has a solver of its own", t[i]->solver != nullptr && t[i]->solver != d.solver && t[i]->solver->getName() == name);
        ENSURES("the copy has the same settings", t[i]->solver->getSettings()("steps").getInt() == (int)k && t[i]->solver->getSettings()("factor").getReal() == x);
    }
    ENSURES("only the solver changed is changed", d.solver->getName() == "changed" && d.solver->getSettings()("steps").getInt() == (int)k + 1);
    e = c;
    ENSURES("a simulation assigned again", e.solver->getName() == name && e.solver != c.solver);
}
