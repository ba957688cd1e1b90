// Project files in JSON: what is read is what was written
// VC-SOURCES: parser/json/Parser.cpp core/parser/Parser.cpp core/util/ProgressBar.cpp core/Data.cpp core/outputRequest/OutputRequest.cpp core/outputRequest/Domain.cpp core/outputRequest/BulkCurrent.cpp core/outputRequest/FarField.cpp core/physicalModel/PhysicalModel.cpp core/physicalModel/bound/Bound.cpp core/physicalModel/bound/PEC.cpp core/physicalModel/bound/PMC.cpp core/physicalModel/bound/PML.cpp core/physicalModel/bound/Periodic.cpp core/physicalModel/bound/Mur1.cpp core/physicalModel/bound/Mur2.cpp core/physicalModel/gap/Gap.cpp core/physicalModel/multiport/Multiport.cpp core/physicalModel/multiport/Predefined.cpp core/physicalModel/multiport/RLC.cpp core/physicalModel/multiport/Dispersive.cpp core/physicalModel/predefined/Predefined.cpp core/physicalModel/predefined/PEC.cpp core/physicalModel/predefined/PMC.cpp core/physicalModel/predefined/SMA.cpp core/physicalModel/surface/Surface.cpp core/physicalModel/surface/Multilayer.cpp core/physicalModel/surface/SIBC.cpp core/physicalModel/surface/SIBCFile.cpp core/physicalModel/volume/Volume.cpp core/physicalModel/volume/Classic.cpp core/physicalModel/volume/Dispersive.cpp core/physicalModel/volume/PML.cpp core/physicalModel/volume/Anisotropic.cpp core/physicalModel/volume/AnisotropicCrystal.cpp core/physicalModel/volume/AnisotropicFerrite.cpp core/physicalModel/wire/Wire.cpp core/source/Source.cpp core/source/PlaneWave.cpp core/source/Generator.cpp core/source/OnLine.cpp core/source/port/Port.cpp core/source/port/TEM.cpp core/source/port/TEMCoaxial.cpp core/source/port/Waveguide.cpp core/source/port/WaveguideRectangular.cpp core/source/magnitude/Magnitude.cpp core/source/magnitude/Numerical.cpp core/math/function/Gaussian.cpp core/math/function/BandLimited.cpp core/math/axis/Local.cpp core/filesystem/Project.cpp core/geometry/mesh/Mesh.cpp core/geometry/mesh/Structured.cpp core/geometry/mesh/Unstructured.cpp core/geometry/mesh/Geometric.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
// VC-NATIVEFLAGS: -DOPENSEMBA_VERSION="0.14"
// VC-ONLY: native
#include "vc.h"
#include "parser/json/Parser.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Node.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Triangle3.h"
#include "math/function/BandLimited.h"
#include "math/function/Gaussian.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/wire/Wire.h"
#include "source/port/TEMCoaxial.h"
#include "source/port/WaveguideRectangular.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef std::string Str;
namespace Model = SEMBA::PhysicalModel;

namespace {
struct Quiet {
    std::ostringstream out;
    std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(out.rdbuf())) {}
    ~Quiet() {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};
Str show(long k) { return std::to_string(k); }
Str num(double x) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
double value(const char* n) { return vc::choice("form", 0, 2) == 0 ? 0.1 * vc::integer(n, -40, 40) : 0.5 * vc::integer(n, -12, 20); }
double positive(const char* n) { return 0.25 * vc::integer(n, 1, 20); }
Str blank() { return Str((size_t)vc::choice("blanks", 0, 3), ' '); }
Str gap() { return " " + blank(); }
Str quoted(const Str& s) { return "\"" + s + "\""; }
Str three(const CVecR3& v) { return num(v(0)) + gap() + num(v(1)) + gap() + num(v(2)); }
Str vec(const CVecR3& v) { return quoted(blank() + "{" + blank() + three(v) + blank() + "}" + blank()); }
// boxes are written from the largest corner to the smallest one
Str box(const CVecR3& lo, const CVecR3& hi) { return quoted(blank() + "{" + blank() + three(hi) + gap() + three(lo) + blank() + "}" + blank()); }
// the members of an object, in any order
struct Obj {
    std::vector<std::pair<Str, Str>> m;
    Obj& operator()(const Str& k, const Str& v) {
        m.insert(m.begin() + vc::integer("place", 0, (long)m.size()), std::make_pair(k, v));
        return *this;
    }
    Obj& set(const Str& k, const Str& v) {
        for (auto& x : m)
            if (x.first == k) x.second = v;
        return *this;
    }
    Obj& erase(const Str& k) {
        for (size_t i = 0; i < m.size(); i++)
            if (m[i].first == k) m.erase(m.begin() + i);
        return *this;
    }
    Str str() const {
        Str r = "{";
        for (size_t i = 0; i < m.size(); i++) r += (i ? "," : "") + gap() + quoted(m[i].first) + ":" + gap() + m[i].second;
        return r + "}";
    }
};
struct Arr {
    std::vector<Str> v;
    Arr& operator()(const Str& s) {
        v.push_back(s);
        return *this;
    }
    Str str() const {
        Str r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? ",\n" : "") + blank() + v[i];
        return r + "]";
    }
};
Data read(const Str& s) {
    Quiet q;
    std::istringstream in(s);
    return SEMBA::Parser::JSON::Parser().read(in);
}
bool refused(const Str& s) {
    try {
        read(s);
        return false;
    } catch (...) {
        return true;
    }
}
bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }
bool near(const CVecR3& a, const CVecR3& b) { return near(a(0), b(0)) && near(a(1), b(1)) && near(a(2), b(2)); }

// a file of eight coordinates, the corners of a box, with an element of each kind
struct File {
    Obj o;
    double scale;
    std::map<long, CVecR3> coords;
    std::vector<long> cid, mid, lid;
    std::vector<Str> layers;
    struct El {
        char kind;
        long id, mat, layer;
        std::vector<long> v;
    };
    std::vector<El> elems;
    CVecR3 lo, hi;
    long base, conns;
    Arr sources, requests, connectors;
    File(bool scaled = true) : scale(1), base(vc::integer("first", 1, 5)), conns(0) {
        scale = scaled ? (const double[]){1.0, 0.001, 2.0, 0.5}[vc::choice("scale", 0, 3)] : 1.0;
        o("_version", quoted("0.14"));
        o("solverOptions", Obj()("solver", quoted("some"))("geometryScalingFactor", num(scale)).str());
        Arr m, l, c;
        for (long i = 0; i < 3; i++) {
            mid.push_back(1 + i * base);
            m(Obj()("materialId", show(mid[i]))("name", quoted("m" + show(i)))("materialType", quoted("PEC")).str());
            lid.push_back(2 + i * base);
            layers.push_back("layer_" + show(vc::integer("layer", 0, 99)));
            l(Obj()("id", show(lid[i]))("name", quoted(layers[i])).str());
        }
        o("materials", m.str())("layers", l.str());
        lo = CVecR3(value("x"), value("y"), 0.25 * vc::integer("z", -8, 8));
        hi = lo + CVecR3(positive("dx"), positive("dy"), positive("dz"));
        for (long i = 0; i < 8; i++) {
            cid.push_back(base + (i * 5) % 8);
            coords[cid[i]] = corner(i);
        }
        for (size_t k = 8; k > 1; k--) std::swap(cid[k - 1], cid[(size_t)vc::integer("order", 0, (long)k - 1)]);
        for (long i : cid) c(quoted(gap() + show(i) + gap() + three(coords[i]) + blank()));
        cid.clear();
        for (long i = 0; i < 8; i++) cid.push_back(base + (i * 5) % 8);
        o("coordinates", c.str());
        Obj e;
        long id = base;
        const char* names[] = {"hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"};
        const char kinds[] = "htq3l";
        const std::vector<long> v[] = {{0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 3, 4}, {0, 1, 2, 3}, {0, 1, 2}, {0, 1}};
        for (int k = 0; k < 5; k++) {
            Arr a;
            for (long n = k == 2 || k == 4 ? vc::integer("elements", 1, 2) : vc::integer("elements", 0, 2); n > 0; n--) {
                El x;
                x.kind = kinds[k];
                x.id = id;
                id += vc::integer("step", 1, 3);
                long i = vc::integer("material", 0, 3), j = vc::integer("layer", 0, 3);
                x.mat = i ? mid[i - 1] : 0;
                x.layer = j ? lid[j - 1] : 0;
                Str s = blank() + show(x.id) + gap() + show(x.mat) + gap() + show(x.layer);
                for (long p : v[k]) {
                    x.v.push_back(cid[p]);
                    s += gap() + show(cid[p]);
                }
                a(quoted(s + blank()));
                elems.push_back(x);
            }
            e(names[k], a.str());
        }
        o("elements", e.str());
        o("grids", "[" + Obj()("gridType", quoted("gridCondition"))("type", quoted("Number_of_cells"))("layerBox", box(lo, hi))("numberOfCells", quoted("{2 3 4}")).str() + "]");
        o("sources", "[]")("outputRequests", "[]")("connectorOnPoint", "[]");
    }
    // the corners of the box, around each of its two faces
    CVecR3 corner(long i) const {
        CVecR3 r = lo;
        if (i % 4 == 1 || i % 4 == 2) r(0) = hi(0);
        if (i % 4 >= 2) r(1) = hi(1);
        if (i >= 4) r(2) = hi(2);
        return r;
    }
    long of(char kind) const {
        for (const El& x : elems)
            if (x.kind == kind) return x.id;
        return 0;
    }
    Str str() {
        o.set("sources", sources.str()).set("outputRequests", requests.str()).set("connectorOnPoint", connectors.str());
        return blank() + o.str() + blank();
    }
};
const Mesh::Geometric& mesh(const Data& d) { return *d.mesh->castTo<Mesh::Geometric>(); }
bool kind(const Elem* e, char k) {
    return k == 'h' ? e->is<HexR8>() : k == 't' ? e->is<Tet4>() : k == 'q' ? e->is<QuaR4>() : k == '3' ? e->is<Tri3>() : e->is<LinR2>();
}
// an element with these corners, somewhere in the mesh
bool covers(const Elem* e, const Data& d, const CVecR3& lo, const CVecR3& hi, double scale) {
    const ElemR* r = e->castTo<ElemR>();
    BoxR3 b = r->getBound();
    if (!near(b.getMin(), lo * scale) || !near(b.getMax(), hi * scale)) return false;
    if (!mesh(d).elems().existId(e->getId()) || mesh(d).elems().getId(e->getId()) != e) return false;
    for (size_t i = 0; i < r->numberOfCoordinates(); i++)
        if (mesh(d).coords().getId(r->getV(i)->getId()) != r->getV(i)) return false;
    return true;
}
bool node(const Elem* e, const Data& d, const File& f, long c) {
    return e->is<NodR>() && e->castTo<NodR>()->getV(0) == mesh(d).coords().getId(CoordId(c)) && mesh(d).elems().getId(e->getId()) == e;
}
}

VC_NATIVE(settings, "Parser::readSolver, Parser::readSolverSettings", "trees of up to three levels with up to four members each") {
    std::vector<std::function<bool(const Solver::Settings&)>> tests;
    std::function<Str(int, std::vector<Str>)> tree = [&](int level, std::vector<Str> path) {
        Obj o;
        long n = vc::integer("members", 0, 4);
        for (long i = 0; i < n; i++) {
            Str name = (vc::boolean("letter") ? "a" : "long name ") + show(i);
            std::vector<Str> p = path;
            p.push_back(name);
            auto at = [p](const Solver::Settings& s) {
                const Solver::Settings* r = &s;
                for (const Str& k : p) r = &(*r)(k);
                return *r;
            };
            switch (vc::integer("kind", 0, level ? 4 : 3)) {
            case 0: {
                bool v = vc::boolean("flag");
                o(name, v ? "true" : "false");
                tests.push_back([=](const Solver::Settings& s) { return at(s).getBool() == v && at(s).getInt() == (v ? 1 : 0); });
                break;
            }
            case 1: {
                int v = (int)vc::integer("number", -3000, 3000);
                o(name, show(v));
                tests.push_back([=](const Solver::Settings& s) { return at(s).getInt() == v && at(s).getReal() == v; });
                break;
            }
            case 2: {
                double v = value("real") * (const double[]){1, 1e-9, 1.0 / 3, 1e22}[vc::choice("size", 0, 3)];
                o(name, num(v));
                tests.push_back([=](const Solver::Settings& s) { return std::abs(at(s).getReal() - v) <= 1e-14 * std::abs(v); });
                break;
            }
            case 3: {
                Str v = "text of " + show(vc::integer("text", 0, 50)) + blank();
                o(name, quoted(v));
                tests.push_back([=](const Solver::Settings& s) { return at(s).getString() == v; });
                break;
            }
            default:
                o(name, tree(level - 1, p));
                tests.push_back([=](const Solver::Settings& s) { return at(s).isObject(); });
            }
        }
        tests.push_back([=](const Solver::Settings& s) {
            const Solver::Settings* r = &s;
            for (const Str& k : path) r = &(*r)(k);
            return (long)r->size() == n + (path.empty() ? 1 : 0);
        });
        if (path.empty()) o("solver", quoted("some solver"));
        return o.str();
    };
    Str s = Obj()("_version", quoted("0.14"))("solverOptions", tree(2, {})).str();
    Data d = read(s);
    ENSURES("the solver has its name", d.solver && d.solver->getName() == "some solver");
    for (auto& t : tests) ENSURES("the settings are those of the file", t(d.solver->getSettings()));
    ENSURES("without geometry there are neither mesh, sources nor requests", d.mesh == nullptr && d.sources && d.sources->empty() && d.outputRequests && d.outputRequests->empty());
    Data n = read("{\"_version\": \"0.14\"}");
    ENSURES("without settings there is no solver", n.solver == nullptr && n.mesh == nullptr);
}

VC_NATIVE(materials, "Parser::readPhysicalModels, Parser::readPhysicalModel, Parser::readMultilayerSurface, Parser::strToLocalAxes", "up to six materials of every kind but those read from files") {
    std::vector<std::function<bool(const Model::PhysicalModel*)>> tests;
    std::vector<long> ids;
    Arr a;
    long n = vc::integer("materials", 0, 6);
    for (long i = 0; i < n; i++) {
        long id = 1 + 3 * i + vc::integer("id", 0, 2);
        ids.push_back(id);
        Str name = "material " + show(vc::integer("name", 0, 99));
        Obj o;
        o("materialId", show(id))("name", quoted(name));
        std::function<bool(const Model::PhysicalModel*)> t;
        double p[6];
        for (double& x : p) x = positive("parameter");
        CVecR3 euler(value("axis"), value("axis"), value("axis")), origin(value("origin"), value("origin"), value("origin"));
        Str axes = quoted(blank() + "{" + blank() + three(euler) + blank() + "}" + blank() + "{" + blank() + three(origin) + blank() + "}" + blank());
        auto same = [=](const Axis::Local& l) { return near(l.getEulerAngles(), euler) && near(l.getOrigin(), origin); };
        switch (vc::integer("kind", 0, 14)) {
        case 0: o("materialType", quoted("PEC")); t = [](const Model::PhysicalModel* m) { return m->is<Model::Predefined::PEC>(); }; break;
        case 1: o("materialType", quoted("PMC")); t = [](const Model::PhysicalModel* m) { return m->is<Model::Predefined::PMC>(); }; break;
        case 2: o("materialType", quoted("SMA")); t = [](const Model::PhysicalModel* m) { return m->is<Model::Predefined::SMA>(); }; break;
        case 3:
            o("materialType", quoted("PML"))("localAxes", axes);
            t = [=](const Model::PhysicalModel* m) { return m->is<Model::Volume::PML>() && same(m->castTo<Model::Volume::PML>()->getOrientation()); };
            break;
        case 4:
            o("materialType", quoted("Classic"))("permittivity", num(p[0]))("permeability", num(p[1]))("electricConductivity", num(p[2]))("magneticConductivity", num(p[3]));
            t = [=](const Model::PhysicalModel* m) {
                const Model::Volume::Classic* c = m->castTo<Model::Volume::Classic>();
                return near(c->getRelativePermittivity(), p[0]) && near(c->getRelativePermeability(), p[1]) && near(c->getElectricConductivity(), p[2]) && near(c->getMagneticConductivity(), p[3]);
            };
            break;
        case 5:
            o("materialType", quoted("Wire"))("wireType", quoted("Standard"))("radius", num(p[0]))("resistance", num(p[1]))("inductance", num(p[2]));
            t = [=](const Model::PhysicalModel* m) {
                const Model::Wire::Wire* w = m->castTo<Model::Wire::Wire>();
                return !w->isSeriesParallel() && !w->isDispersive() && w->getRadius() == p[0] && w->getSeriesResistance() == p[1] && w->getSeriesInductance() == p[2];
            };
            break;
        case 6:
            o("materialType", quoted("Wire"))("wireType", quoted("SeriesParallel"))("radius", num(p[0]))("resistance", num(p[1]))("inductance", num(p[2]))("capacitance", num(p[3]))("parallelResistance", num(p[4]))("parallelInductance", num(p[5]))("parallelCapacitance", num(p[0] + 1));
            t = [=](const Model::PhysicalModel* m) {
                const Model::Wire::Wire* w = m->castTo<Model::Wire::Wire>();
                return w->isSeriesParallel() && w->getRadius() == p[0] && w->getSeriesResistance() == p[1] && w->getSeriesInductance() == p[2] && w->getSeriesCapacitance() == p[3] && w->getParallelResistance() == p[4] && w->getParallelInductance() == p[5] && w->getParallelCapacitance() == p[0] + 1;
            };
            break;
        case 7:
            o("materialType", quoted("Wire"))("wireType", quoted("Dispersive"))("radius", num(p[0]))("filename", quoted("file " + name));
            t = [=](const Model::PhysicalModel* m) {
                const Model::Wire::Wire* w = m->castTo<Model::Wire::Wire>();
                return w->isDispersive() && w->getRadius() == p[0] && w->getFilename() == "file " + name;
            };
            break;
        case 8:
            o("materialType", quoted("Anisotropic"))("anisotropicModel", quoted("Crystal"))("localAxes", axes)("relativePermittiviy", vec(CVecR3(p[0], p[1], p[2])))("relativePermittivityPrincipalAxes", vec(CVecR3(p[0], p[1], p[2])))("crystalRelativePermeability", num(p[3]));
            t = [=](const Model::PhysicalModel* m) {
                const Model::Volume::AnisotropicCrystal* c = m->castTo<Model::Volume::AnisotropicCrystal>();
                return near(c->getPrincipalAxesRelativePermittivity(), CVecR3(p[0], p[1], p[2])) && near(c->getRelativePermeability(), p[3]) && same(c->getLocalAxe());
            };
            break;
        case 9:
            o("materialType", quoted("Anisotropic"))("anisotropicModel", quoted("Ferrite"))("localAxes", axes)("kappa", num(p[0]))("ferriteRelativePermeability", num(p[1]))("ferriteRelativePermittivity", num(p[2]));
            t = [=](const Model::PhysicalModel* m) {
                const Model::Volume::AnisotropicFerrite* c = m->castTo<Model::Volume::AnisotropicFerrite>();
                Model::Volume::AnisotropicFerrite w(MatId(1), "", Axis::Local(euler, origin), p[0], p[1], p[2]);
                for (size_t r = 0; r < 3; r++)
                    for (size_t k = 0; k < 3; k++)
                        if (!near(c->getRelPermeabilityMatR()(r, k), w.getRelPermeabilityMatR()(r, k)) || !near(c->getRelPermeabilityMatI()(r, k), w.getRelPermeabilityMatI()(r, k)) || !near(c->getRelPermittivityMatR()(r, k), w.getRelPermittivityMatR()(r, k))) return false;
                return same(c->getLocalAxe());
            };
            break;
        case 10: {
            Arr l;
            long k = vc::integer("layers", 1, 3);
            bool fit = vc::boolean("fit");
            for (long j = 0; j < k; j++) l(Obj()("thickness", num(p[0] + j))("permittivity", num(p[1] + j))("permeability", num(p[2] + j))("elecCond", num(p[3] + j)).str());
            o("materialType", quoted("SIBC"))("surfaceType", quoted("Layers"))("layers", l.str())("useSembaVectorFitting", fit ? "true" : "false")("freqMin", num(p[4]))("freqMax", num(p[4] + p[5]))("numberOfPoles", "7");
            t = [=](const Model::PhysicalModel* m) {
                const Model::Surface::Multilayer* c = m->castTo<Model::Surface::Multilayer>();
                if ((long)c->getNumberOfLayers() != k || c->hasFittingOptions() != fit) return false;
                for (long j = 0; j < k; j++) {
                    Model::Surface::Multilayer::Layer y = c->getLayer((size_t)j);
                    if (y.getThickness() != p[0] + j || y.getRelPermittivity() != p[1] + j || y.getRelPermeability() != p[2] + j || y.getElecCond() != p[3] + j) return false;
                }
                return !fit || (c->getFittingOptions().getMinMaxFreq() == std::make_pair(p[4], p[4] + p[5]) && c->getFittingOptions().getNumberOfPoles() == 7);
            };
            break;
        }
        case 11:
            o("materialType", quoted("Thin_gap"))("width", num(p[0]));
            t = [=](const Model::PhysicalModel* m) { return m->castTo<Model::Gap::Gap>()->getWidth() == p[0]; };
            break;
        case 12: {
            bool s = vc::boolean("short");
            o("materialType", quoted("Connector"))("connectorType", quoted(s ? "Conn_short" : "Conn_open"));
            t = [=](const Model::PhysicalModel* m) { return m->is<Model::Multiport::Predefined>() && m->castTo<Model::Multiport::Multiport>()->getType() == (s ? Model::Multiport::Multiport::shortCircuit : Model::Multiport::Multiport::openCircuit); };
            break;
        }
        case 13: {
            o("materialType", quoted("Connector"))("connectorType", quoted("Conn_dispersive"))("filename", quoted("file " + name));
            t = [=](const Model::PhysicalModel* m) { return m->castTo<Model::Multiport::Dispersive>()->getFilename() == "file " + name; };
            break;
        }
        default: {
            typedef Model::Multiport::Multiport M;
            long k = vc::choice("connector", 0, 2);
            o("materialType", quoted("Connector"))("connectorType", quoted((const char*[]){"Conn_sRLC", "Conn_pRLC", "Conn_sLpRC"}[k]))("resistance", num(p[0]))("inductance", num(p[1]))("capacitance", num(p[2]));
            t = [=](const Model::PhysicalModel* m) {
                const Model::Multiport::RLC* c = m->castTo<Model::Multiport::RLC>();
                return c->getType() == (const M::Type[]){M::sRLC, M::pRLC, M::sLpRC}[k] && c->getR() == p[0] && c->getL() == p[1] && c->getC() == p[2];
            };
        }
        }
        tests.push_back([=](const Model::PhysicalModel* m) { return m->getId() == MatId((size_t)id) && m->getName() == name && t(m); });
        a(o.str());
    }
    Data d = read(Obj()("_version", quoted("0.14"))("materials", a.str()).str());
    ENSURES("there are as many materials as in the file", d.physicalModels && (long)d.physicalModels->size() == n);
    for (long i = 0; i < n; i++) ENSURES("every material has its number, name, kind and parameters", d.physicalModels->existId(MatId((size_t)ids[i])) && tests[i](d.physicalModels->getId(MatId((size_t)ids[i]))));
}

VC_NATIVE(geometry, "Parser::readGeometricMesh, Parser::readLayers, Parser::readCoordinates, Parser::readElements, readElemStrAs, Parser::postReadOperations", "eight coordinates and up to ten elements of every kind, three layers, three materials and four scales") {
    File f;
    Data d = read(f.str());
    ENSURES("there is a mesh", d.mesh && d.mesh->is<Mesh::Geometric>());
    const Mesh::Geometric& m = mesh(d);
    ENSURES("there are as many coordinates, elements, layers and materials as in the file", m.coords().size() == 8 && m.elems().size() == f.elems.size() && m.layers().size() == 3 && d.physicalModels->size() == 3);
    for (auto& c : f.coords) ENSURES("coordinates are where the file says, scaled", near(m.coords().getId(CoordId((size_t)c.first))->pos(), c.second * f.scale));
    for (size_t i = 0; i < 3; i++) ENSURES("layers have their number and name", m.layers().getId(LayerId((size_t)f.lid[i]))->getName() == f.layers[i]);
    for (const File::El& x : f.elems) {
        const ElemR* e = m.elems().getId(ElemId((size_t)x.id));
        ENSURES("elements are of their kind", kind(e, x.kind) && e->numberOfCoordinates() == x.v.size());
        for (size_t i = 0; i < x.v.size(); i++) ENSURES("elements join their coordinates in order", e->getV(i) == m.coords().getId(CoordId((size_t)x.v[i])));
        ENSURES("elements are of their layer", x.layer ? e->getLayer() == m.layers().getId(LayerId((size_t)x.layer)) : e->getLayer() == nullptr);
        ENSURES("elements are of their material", x.mat ? e->getModel() && e->getModel()->getId() == MatId((size_t)x.mat) : e->getModel() == nullptr);
        if (x.mat) ENSURES("materials of elements are those of the simulation", e->getModel() == d.physicalModels->getId(MatId((size_t)x.mat)));
    }
    long cells[] = {2, 3, 4};
    for (int a = 0; a < 3; a++) {
        const std::vector<Real>& p = m.grid().getPos(a);
        ENSURES("the grid has the number of cells of the file", (long)p.size() == cells[a] + 1);
        for (long i = 0; i <= cells[a]; i++) ENSURES("the grid is scaled", near(p[i], f.scale * (f.lo(a) + (f.hi(a) - f.lo(a)) * i / cells[a])));
    }
}

VC_NATIVE(grids, "Parser::readGrids, Parser::strToBox, Parser::strToCVecI3, Parser::strToCVecR3", "grids by number of cells, by step fitted to the box or not, with padding, of GiD and from a file") {
    File f;
    CVecR3 lo = f.lo, len = f.hi - f.lo;
    Obj g;
    // what the grid has to be, along each axis
    std::vector<double> want[3];
    long kind = vc::integer("grid", 0, 6), n[3];
    for (int a = 0; a < 3; a++) n[a] = vc::integer("cells", 1, 5);
    Str cells = quoted(blank() + "{" + blank() + show(n[0]) + gap() + show(n[1]) + gap() + show(n[2]) + blank() + "}");
    auto even = [&]() {
        for (int a = 0; a < 3; a++)
            for (long i = 0; i <= n[a]; i++) want[a].push_back(lo(a) + len(a) * i / n[a]);
    };
    Str file;
    if (kind == 0) {
        g("gridType", quoted("gridCondition"))("type", quoted("Number_of_cells"))("layerBox", box(f.lo, f.hi))("numberOfCells", cells);
        even();
    } else if (kind == 1) {
        // a step that is close to a fraction of the box
        CVecR3 step;
        for (int a = 0; a < 3; a++) step(a) = len(a) / (n[a] + 0.1 * vc::integer("off", -4, 4));
        g("gridType", quoted("gridCondition"))("type", quoted("Step_size"))("layerBox", box(f.lo, f.hi))("stepSize", vec(step))("fitSizeToBox", "true");
        even();
    } else if (kind == 2) {
        CVecR3 step;
        for (int a = 0; a < 3; a++) step(a) = len(a) / n[a];
        g("gridType", quoted("gridCondition"))("type", quoted("Step_size"))("layerBox", box(f.lo, f.hi))("stepSize", vec(step))("fitSizeToBox", "false");
        even();
    } else if (kind == 3) {
        // cells of the size of those of the box are added on each side
        long m[2][3];
        bool number = vc::boolean("number");
        CVecR3 pad[2], size;
        even();
        for (int a = 0; a < 3; a++) {
            size(a) = len(a) / n[a];
            for (int b = 0; b < 2; b++) {
                m[b][a] = vc::integer("added", 0, 3);
                pad[b](a) = number ? (double)m[b][a] : m[b][a] * size(a);
                for (long i = 1; i <= m[b][a]; i++) {
                    if (b) want[a].push_back(lo(a) + len(a) + size(a) * i);
                    else want[a].insert(want[a].begin(), lo(a) - size(a) * i);
                }
            }
        }
        g("gridType", quoted("gridCondition"))("type", quoted("Number_of_cells"))("layerBox", box(f.lo, f.hi))("numberOfCells", cells)("boundaryPaddingType", quoted(number ? "by_number_of_cells" : "by_distance"))("lowerPadding", vec(pad[0]))("upperPadding", vec(pad[1]))("lowerPaddingMeshSize", vec(size))("upperPaddingMeshSize", vec(size));
    } else if (kind == 6) {
        // cells of other sizes on each side: those of the grid enlarged by that much
        bool number = vc::boolean("number");
        CVecR3 given[2], pad[2], size[2];
        CVecI3 cs;
        for (int a = 0; a < 3; a++) {
            cs(a) = n[a];
            for (int b = 0; b < 2; b++) {
                long m = vc::integer("added", 0, 4);
                size[b](a) = len(a) / n[a] * (1 + 0.5 * vc::integer("larger", 0, 4));
                pad[b](a) = m * size[b](a);
                given[b](a) = number ? (double)m : pad[b](a);
            }
        }
        Grid3 r(BoxR3(f.lo, f.hi), cs);
        r.enlarge(std::make_pair(pad[0], pad[1]), std::make_pair(size[0], size[1]));
        for (int a = 0; a < 3; a++) want[a] = r.getPos(a);
        g("gridType", quoted("gridCondition"))("type", quoted("Number_of_cells"))("layerBox", box(f.lo, f.hi))("numberOfCells", cells)("boundaryPaddingType", quoted(number ? "by_number_of_cells" : "by_distance"))("lowerPadding", vec(given[0]))("upperPadding", vec(given[1]))("lowerPaddingMeshSize", vec(size[0]))("upperPaddingMeshSize", vec(size[1]));
    } else {
        Arr p[3];
        for (int a = 0; a < 3; a++) {
            double x = value("start");
            for (long i = 0; i <= n[a]; i++) {
                want[a].push_back(x);
                p[a](num(x));
                x += positive("step");
            }
        }
        if (kind == 4) {
            g("gridType", quoted("nativeGiD"))("corner", vec(CVecR3(0.0)))("boxSize", vec(CVecR3(1.0)))("nGridPoints", quoted("{2 2 2}"))("xCoordinates", p[0].str())("yCoordinates", p[1].str())("zCoordinates", p[2].str());
        } else {
            char name[] = "/tmp/vcgridXXXXXX";
            int h = mkstemp(name);
            if (h < 0) std::abort();
            close(h);
            file = name;
            std::ofstream(name) << "\"xs\": " << p[0].str() << ",\n\"zs\": " << p[2].str() << ", \"ys\": " << p[1].str();
            g("gridType", quoted("positionsFromFile"))("filename", quoted(file));
        }
    }
    f.o.set("grids", "[" + g.str() + "]");
    Data d;
    bool threw = false;
    try { d = read(f.str()); } catch (...) { threw = true; }
    if (!file.empty()) unlink(file.c_str());
    ENSURES("there is a mesh with that grid", !threw && d.mesh != nullptr);
    for (int a = 0; a < 3; a++) {
        const std::vector<Real>& p = mesh(d).grid().getPos(a);
        ENSURES("the grid has the cells asked for", p.size() == want[a].size());
        for (size_t i = 0; i < p.size(); i++) ENSURES("the grid is where it was asked for", near(p[i], f.scale * want[a][i]));
    }
}

namespace {
struct Scratch {
    char name[32];
    Scratch() {
        strcpy(name, "/tmp/vcmagnXXXXXX");
        int h = mkstemp(name);
        if (h < 0) std::abort();
        close(h);
        std::ofstream(name) << "0.0 1.0\n1.0 3.0\n2.0 0.0\n";
    }
    ~Scratch() { unlink(name); }
};
// a magnitude, and the function it is
struct Magn {
    Str text;
    std::function<bool(const Source::Magnitude::Magnitude*)> is;
};
Magn magnitude(const Str& file) {
    Magn r;
    double a = 0.5 * vc::integer("frequency", 1, 20), b = a + 0.5 * vc::integer("frequency", 1, 20);
    auto same = [](const Source::Magnitude::Magnitude* m, const Function::Function<Real, Real>& w) {
        for (double t : {0.0, 0.1, 0.37, 1.2, 2.5})
            if (!near(m->evaluate(t), w(t))) return false;
        return true;
    };
    switch (vc::integer("magnitude", 0, 2)) {
    case 0:
        r.text = Obj()("type", quoted("Gaussian"))("frequencyMaximum", num(a)).str();
        r.is = [=](const Source::Magnitude::Magnitude* m) { return same(m, Function::Gaussian::buildFromMaximumFrequency(a)); };
        break;
    case 1:
        r.text = Obj()("type", quoted("Band_limited"))("frequencyMinimum", num(a))("frequencyMaximum", num(b)).str();
        r.is = [=](const Source::Magnitude::Magnitude* m) { return same(m, Function::BandLimited(a, b)); };
        break;
    default:
        r.text = Obj()("type", quoted("File"))("filename", quoted(file)).str();
        r.is = [=](const Source::Magnitude::Magnitude* m) { return m->is<Source::Magnitude::Numerical>() && static_cast<const Str&>(*m->castTo<Source::Magnitude::Numerical>()) == file; };
    }
    return r;
}
bool close(const CVecR3& a, const CVecR3& b) { return std::abs(a(0) - b(0)) < 1e-9 && std::abs(a(1) - b(1)) < 1e-9 && std::abs(a(2) - b(2)) < 1e-9; }
}

VC_NATIVE(sources, "Parser::readSources, Parser::readPlanewave, Parser::readGenerator, Parser::readSourceOnLine, Parser::readPortWaveguide, Parser::readPortTEM, Parser::readMagnitude, Parser::boxToElemGroup, Parser::readCoordIdAsNodes", "up to four sources of every kind and magnitude") {
    File f;
    Scratch file;
    std::vector<std::function<bool(const Source::Base*, const Data&)>> tests;
    long n = vc::integer("sources", 0, 4);
    for (long k = 0; k < n; k++) {
        Magn m = magnitude(file.name);
        Obj o;
        o("magnitude", m.text);
        std::function<bool(const Source::Base*, const Data&)> t;
        CVecR3 lo = CVecR3(value("x"), value("y"), value("z")), hi = lo + CVecR3(positive("dx"), positive("dy"), positive("dz"));
        if (vc::boolean("whole")) lo = f.lo, hi = f.hi;
        double p[4];
        for (double& x : p) x = positive("parameter");
        double sc = f.scale;
        switch (vc::integer("kind", 0, 6)) {
        case 0: {
            long a = vc::choice("axis", 0, 2);
            CVecR3 dir(0.0), pol(0.0);
            dir(a) = vc::boolean("back") ? -p[0] : p[0];
            pol((a + 1) % 3) = p[1];
            pol((a + 2) % 3) = -p[2];
            o("sourceType", quoted("planewave"))("definitionMode", quoted("by_vectors"))("layerBox", box(lo, hi))("directionVector", vec(dir))("polarizationVector", vec(pol));
            t = [=](const Source::Base* b, const Data& d) {
                const Source::PlaneWave* w = b->castTo<Source::PlaneWave>();
                return !w->isRandomic() && close(w->getDirection() / w->getDirection().norm(), dir / dir.norm()) && close(w->getPolarization() / w->getPolarization().norm(), pol / pol.norm()) && w->size() == 1 && w->elems()(0)->is<HexR8>() && covers(w->elems()(0), d, lo, hi, sc);
            };
            break;
        }
        case 1: {
            // any direction, and a polarization along its change with the polar or the azimuthal angle, in degrees
            static const double deg = acos(-1.0) / 180;
            double theta = vc::integer("theta", 1, 179), phi = vc::integer("phi", 0, 359);
            bool polar = vc::boolean("polar");
            double alpha = polar ? theta + 90 : 90, beta = polar ? phi : phi + 90;
            o("sourceType", quoted("planewave"))("definitionMode", quoted("by_angles"))("layerBox", box(lo, hi))("directionTheta", num(theta))("directionPhi", num(phi))("polarizationAlpha", num(alpha))("polarizationBeta", num(beta));
            CVecR3 dir(sin(theta * deg) * cos(phi * deg), sin(theta * deg) * sin(phi * deg), cos(theta * deg)), pol(sin(alpha * deg) * cos(beta * deg), sin(alpha * deg) * sin(beta * deg), cos(alpha * deg));
            t = [=](const Source::Base* b, const Data& d) {
                const Source::PlaneWave* w = b->castTo<Source::PlaneWave>();
                return !w->isRandomic() && close(w->getDirection(), dir) && close(w->getPolarization(), pol) && w->size() == 1 && covers(w->elems()(0), d, lo, hi, sc);
            };
            break;
        }
        case 2: {
            long many = vc::integer("many", 1, 9);
            o("sourceType", quoted("planewave"))("definitionMode", quoted("randomized_multisource"))("layerBox", box(lo, hi))("numberOfRandomPlanewaves", show(many))("relativeVariationOfRandomDelay", num(p[0]));
            t = [=](const Source::Base* b, const Data& d) {
                const Source::PlaneWave* w = b->castTo<Source::PlaneWave>();
                return w->isRandomic() && w->getNumberOfRandomPlanewaves() == many && w->getRelativeVariationOfRandomDelay() == p[0] && w->size() == 1 && covers(w->elems()(0), d, lo, hi, sc);
            };
            break;
        }
        case 3: {
            bool v = vc::boolean("voltage");
            long i = f.cid[(size_t)vc::integer("coordinate", 0, 7)], j = f.cid[(size_t)vc::integer("coordinate", 0, 7)];
            bool two = vc::boolean("two") && i != j;
            o("sourceType", quoted("generator"))("type", quoted(blank() + (v ? "voltage" : "current") + blank()))("coordIds", "[" + show(i) + (two ? "," + show(j) : "") + "]")("hardness", quoted("soft"));
            t = [=](const Source::Base* b, const Data& d) {
                const Source::Generator* w = b->castTo<Source::Generator>();
                return w->getType() == (v ? Source::Generator::voltage : Source::Generator::current) && w->size() == (two ? 2 : 1) && node(w->elems()(0), d, f, i) && (!two || node(w->elems()(1), d, f, j));
            };
            break;
        }
        case 4: {
            bool e = vc::boolean("electric"), h = vc::boolean("hard");
            long id = f.of('l');
            o("sourceType", quoted("sourceOnLine"))("type", quoted(e ? "electricField" : "magneticField"))("hardness", quoted(h ? "hard" : "soft"))("elemIds", "[" + show(id) + "]");
            t = [=](const Source::Base* b, const Data& d) {
                const Source::OnLine* w = b->castTo<Source::OnLine>();
                return w->getType() == (e ? Source::OnLine::electric : Source::OnLine::magnetic) && w->getHardness() == (h ? Source::OnLine::hard : Source::OnLine::soft) && w->size() == 1 && w->elems()(0) == mesh(d).elems().getId(ElemId((size_t)id));
            };
            break;
        }
        case 5: {
            bool e = vc::boolean("TE");
            long id = f.of('q'), a = vc::integer("mode", 1, 3), c = vc::integer("mode", 0, 3);
            CVecR3 l = f.lo, g = f.hi;
            o("sourceType", quoted("waveguidePort"))("shape", quoted("Rectangular"))("excitationMode", quoted(e ? "TE" : "TM"))("firstMode", show(a))("secondMode", show(c))("elemIds", "[" + show(id) + "]");
            t = [=](const Source::Base* b, const Data& d) {
                const Source::Port::WaveguideRectangular* w = b->castTo<Source::Port::WaveguideRectangular>();
                return w->getExcitationMode() == (e ? Source::Port::Waveguide::TE : Source::Port::Waveguide::TM) && w->getMode() == std::make_pair((size_t)a, (size_t)c) && w->size() == 1 && w->elems()(0) == mesh(d).elems().getId(ElemId((size_t)id)) && near(w->getOrigin(), l * sc) && near(w->getWidth(), (g(0) - l(0)) * sc) && near(w->getHeight(), (g(1) - l(1)) * sc);
            };
            break;
        }
        default: {
            // a port around the centre of its element
            bool v = vc::boolean("voltage");
            long id = f.of('q');
            CVecR3 o0((f.lo(0) + f.hi(0)) / 2, (f.lo(1) + f.hi(1)) / 2, f.lo(2));
            double out = p[0] + p[1];
            o("sourceType", quoted("temPort"))("excitationMode", quoted(v ? "Voltage" : "Current"))("origin", vec(o0))("innerRadius", num(p[0]))("outerRadius", num(out))("elemIds", "[" + show(id) + "]");
            t = [=](const Source::Base* b, const Data& d) {
                const Source::Port::TEMCoaxial* w = b->castTo<Source::Port::TEMCoaxial>();
                CVecR3 at = o0 * sc;
                at(0) += 2.0 * sc;
                double weight = v ? 1.0 / (2.0 * sc * log(out / p[0])) : 1.0 / (2 * acos(-1.0) * 2.0 * sc);
                CVecR3 g = w->getWeight(at);
                return w->getExcitationMode() == (v ? Source::Port::TEM::voltage : Source::Port::TEM::current) && near(w->getOrigin(), o0 * sc) && std::abs(g(v ? 0 : 1) - weight) < 1e-6 * weight && w->size() == 1 && w->elems()(0) == mesh(d).elems().getId(ElemId((size_t)id));
            };
        }
        }
        tests.push_back([=](const Source::Base* b, const Data& d) { return m.is(b->getMagnitude()) && t(b, d); });
        f.sources(o.str());
    }
    Data d = read(f.str());
    ENSURES("there are as many sources as in the file", d.mesh && d.sources && (long)d.sources->size() == n);
    for (long k = 0; k < n; k++) ENSURES("every source has its kind, parameters, magnitude and elements, in order", tests[(size_t)k]((*d.sources)((size_t)k), d));
    for (auto& c : f.coords) ENSURES("sources leave the coordinates of the file", near(mesh(d).coords().getId(CoordId((size_t)c.first))->pos(), c.second * f.scale));
    for (const File::El& x : f.elems) ENSURES("sources leave the elements of the file", kind(mesh(d).elems().getId(ElemId((size_t)x.id)), x.kind));
}

VC_NATIVE(requests, "Parser::readOutputRequests, Parser::readOutputRequest, Parser::readDomain, Parser::strToOutputType, Parser::strToCartesianAxis", "up to four output requests of every kind and domain, and up to three connectors on points") {
    File f;
    typedef OutputRequest::Base Base;
    std::vector<std::function<bool(const Base*, const Data&)>> tests;
    long n = vc::integer("requests", 0, 4), conns = vc::integer("connectors", 0, 3);
    std::vector<std::pair<long, bool>> c;
    for (long k = 0; k < conns; k++) {
        c.push_back(std::make_pair(f.cid[(size_t)vc::integer("coordinate", 0, 7)], vc::boolean("short")));
        f.connectors(Obj()("materialType", quoted("Connector"))("connectorType", quoted(c.back().second ? "Conn_short" : "Conn_open"))("coordIds", show(c.back().first)).str());
    }
    for (long k = 0; k < n; k++) {
        Str name = "request " + show(vc::integer("name", 0, 99));
        bool time = vc::boolean("time"), freq = vc::boolean("frequency"), lg = vc::boolean("log"), tr = vc::boolean("transfer");
        double p[6];
        for (double& x : p) x = value("parameter");
        Obj dom, o;
        if (time) dom("initialTime", num(p[0]))("finalTime", num(p[1]))("samplingPeriod", num(p[2]));
        if (freq) {
            dom("initialFrequency", num(p[3]))("finalFrequency", num(p[4]))("frequencyStep", num(p[5]))("logFrequencySweep", lg ? "true" : "false");
            if (tr) dom("transferFunctionFile", quoted("file"));
        }
        o("name", quoted(name))("domain", dom.str());
        static const char* types[] = {"electricField", "magneticField", "electricFieldNormals", "magneticFieldNormals", "current", "surfaceCurrentDensity", "bulkCurrentElectric", "bulkCurrentMagnetic"};
        static const Base::Type kinds[] = {Base::electric, Base::magnetic, Base::electricFieldNormals, Base::magneticFieldNormals, Base::current, Base::surfaceCurrentDensity, Base::bulkCurrentElectric, Base::bulkCurrentMagnetic};
        long i = vc::choice("type", 0, 7), where = vc::choice("where", 0, 4);
        bool bulk = i >= 6, far = where == 4;
        // bulk currents are asked for where there is no material
        if (bulk && where != 3) where = 0;
        if (far) where = 3, bulk = false;
        CVecR3 lo = f.lo, hi = f.hi;
        if (vc::boolean("elsewhere")) lo = CVecR3(value("x"), value("y"), value("z")), hi = lo + CVecR3(positive("dx"), positive("dy"), positive("dz"));
        int flat = far ? 0 : (int)vc::integer("flat", 0, 3);
        for (int a = 0; a < flat; a++) hi(a) = lo(a);
        double sc = f.scale, ang[6];
        long dir = vc::choice("direction", 0, 2), skip = vc::integer("skip", 1, 9);
        for (double& x : ang) x = vc::integer("angle", -180, 360);
        long id = where == 0 ? f.cid[(size_t)vc::integer("coordinate", 0, 7)] : where == 1 ? f.of('l') : f.of('q');
        o("type", quoted(far ? "farField" : Str(types[i]) + blank()));
        if (far) {
            o("gidOutputType", quoted("Far_field"))("box", box(lo, hi));
            const char* names[] = {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"};
            for (int a = 0; a < 6; a++) o(names[a], num(ang[a]));
        } else if (where == 3) {
            o("gidOutputType", quoted("OutRq_on_layer"))("box", box(lo, hi));
        } else {
            o("gidOutputType", quoted((const char*[]){"OutRq_on_point", "OutRq_on_line", "OutRq_on_surface"}[where]))("elemIds", "[" + show(id) + "]");
        }
        if (bulk) o("direction", quoted(Str(1, "xyz"[dir])))("skip", show(skip));
        OutputRequest::Domain want(time, time ? p[0] : 0, time ? p[1] : 0, time ? p[2] : 0, freq, freq ? p[3] : 0, freq ? p[4] : 0, freq ? p[5] : 0, freq && lg, freq && tr, freq && tr ? "file" : "");
        tests.push_back([=](const Base* b, const Data& d) {
            if (b->getName() != name || !(b->domain() == want) || b->elems().size() != 1) return false;
            const Elem* e = b->elems()(0);
            if (where == 3 && !covers(e, d, lo, hi, sc)) return false;
            if (where == 3 && !(flat == 0 ? e->is<HexR8>() : flat == 1 ? e->is<QuaR4>() : flat == 2 ? e->is<LinR2>() : e->is<NodR>())) return false;
            if (where == 0 && !node(e, d, f, id)) return false;
            if ((where == 1 || where == 2) && e != mesh(d).elems().getId(ElemId((size_t)id))) return false;
            if (far) {
                const OutputRequest::FarField* w = b->castTo<OutputRequest::FarField>();
                double deg = acos(-1.0) / 180;
                return near(w->getInitialTheta(), ang[0] * deg) && near(w->getFinalTheta(), ang[1] * deg) && near(w->getStepTheta(), ang[2] * deg) && near(w->getInitialPhi(), ang[3] * deg) && near(w->getFinalPhi(), ang[4] * deg) && near(w->getStepPhi(), ang[5] * deg);
            }
            if (bulk) {
                const OutputRequest::BulkCurrent* w = b->castTo<OutputRequest::BulkCurrent>();
                return (long)w->getDir() == dir && (long)w->getSkip() == skip;
            }
            return b->getType() == kinds[i];
        });
        f.requests(o.str());
    }
    Data d = read(f.str());
    ENSURES("there are as many output requests as in the file", d.mesh && d.outputRequests && (long)d.outputRequests->size() == n);
    for (long k = 0; k < n; k++) ENSURES("every request has its name, type, domain, elements and parameters, in order", tests[(size_t)k]((*d.outputRequests)((size_t)k), d));
    ENSURES("every connector is a material of its own", (long)d.physicalModels->size() == 3 + conns);
    std::map<size_t, bool> used;
    for (size_t k = 0; k < mesh(d).elems().size(); k++) {
        const ElemR* e = mesh(d).elems()(k);
        if (!e->is<NodR>() || !e->getModel()) continue;
        for (long j = 0; j < conns; j++) {
            bool s = e->getModel()->castTo<Model::Multiport::Multiport>()->getType() == Model::Multiport::Multiport::shortCircuit;
            if (!used[(size_t)j] && e->getV(0)->getId() == CoordId((size_t)c[(size_t)j].first) && s == c[(size_t)j].second && d.physicalModels->getId(e->getModel()->getId()) == e->getModel()) {
                used[(size_t)j] = true;
                break;
            }
        }
    }
    ENSURES("every connector is on a node of its coordinate", (long)used.size() == conns);
    for (long j = 0; j < conns; j++) ENSURES("every connector is on a node of its coordinate", used[(size_t)j]);
}

VC_NATIVE(refused, "Parser::read, Parser::checkVersionCompatibility, Parser::strToMaterialType, Parser::strToMultiportType, Parser::strToGeneratorType, Parser::strToNodalType", "files with one error, and files cut at any place") {
    File f;
    long q = f.of('q'), l = f.of('l');
    auto gen = [&]() { return Obj()("sourceType", quoted("generator"))("magnitude", Obj()("type", quoted("Gaussian"))("frequencyMaximum", "1.0").str())("type", quoted("voltage"))("coordIds", "[" + show(f.cid[0]) + "]"); };
    auto onLine = [&]() { return Obj()("sourceType", quoted("sourceOnLine"))("magnitude", Obj()("type", quoted("Gaussian"))("frequencyMaximum", "1.0").str())("type", quoted("electricField"))("hardness", quoted("soft"))("elemIds", "[" + show(l) + "]"); };
    auto wave = [&]() { return Obj()("sourceType", quoted("planewave"))("magnitude", Obj()("type", quoted("Gaussian"))("frequencyMaximum", "1.0").str())("definitionMode", quoted("by_vectors"))("layerBox", box(f.lo, f.hi))("directionVector", vec(CVecR3(1, 0, 0)))("polarizationVector", vec(CVecR3(0, 0, 1))); };
    auto port = [&]() { return Obj()("sourceType", quoted("waveguidePort"))("magnitude", Obj()("type", quoted("Gaussian"))("frequencyMaximum", "1.0").str())("shape", quoted("Rectangular"))("excitationMode", quoted("TE"))("firstMode", "1")("secondMode", "0")("elemIds", "[" + show(q) + "]"); };
    auto out = [&]() { return Obj()("name", quoted("r"))("type", quoted("electricField"))("gidOutputType", quoted("OutRq_on_surface"))("domain", "{}")("elemIds", "[" + show(q) + "]"); };
    Str good = File(f).str();
    switch (vc::integer("error", 0, 22)) {
    case 0: {
        size_t last = good.rfind('}');
        ENSURES("a file that was cut is refused", refused(good.substr(0, (size_t)vc::integer("cut", 0, (long)last))));
        return;
    }
    case 1:
        ENSURES("another version is refused", refused(File(f).o.set("_version", quoted(vc::boolean("newer") ? "0.15" : "0.1")).str()) && refused(File(f).o.erase("_version").str()));
        return;
    case 2:
        ENSURES("a mesh is not left without its scale", refused(File(f).o.set("solverOptions", Obj()("solver", quoted("some")).str()).str()));
        return;
    case 3:
        ENSURES("a solver has a name", refused(File(f).o.set("solverOptions", Obj()("geometryScalingFactor", "1.0").str()).str()));
        return;
    case 4:
        ENSURES("unknown kinds of material are refused", refused(File(f).o.set("materials", "[" + Obj()("materialId", "1")("name", quoted("m"))("materialType", quoted("Unknown")).str() + "]").str()));
        return;
    case 5:
        ENSURES("materials of the same number are refused", refused(File(f).o.set("materials", "[" + Obj()("materialId", "1")("name", quoted("m"))("materialType", quoted("PEC")).str() + "," + Obj()("materialId", "1")("name", quoted("n"))("materialType", quoted("PMC")).str() + "]").str()));
        return;
    case 6:
        ENSURES("materials without a parameter are refused", refused(File(f).o.set("materials", "[" + Obj()("materialId", "1")("name", quoted("m"))("materialType", quoted("Classic"))("permittivity", "1.0")("permeability", "1.0")("electricConductivity", "0.0").str() + "]").str()));
        return;
    case 7: f.sources(gen().set("sourceType", quoted("unknown")).str()); break;
    case 8: f.sources(gen().set("type", quoted("unknown")).str()); break;
    case 9: f.sources(gen().set("coordIds", "[9999]").str()); break;
    case 10: f.sources(gen().set("magnitude", Obj()("type", quoted("unknown")).str()).str()); break;
    case 11: f.sources(onLine().set("type", quoted("unknown")).str()); break;
    case 12: f.sources(onLine().set("hardness", quoted("unknown")).str()); break;
    case 13: f.sources(onLine().set("elemIds", "[9999]").str()); break;
    case 14: f.sources(wave().set("definitionMode", quoted("unknown")).str()); break;
    case 15: {
        CVecR3 hi = f.hi;
        int a = (int)vc::choice("axis", 0, 2);
        hi(a) = f.lo(a);
        f.sources(wave().set("layerBox", box(f.lo, hi)).str());
        break;
    }
    case 16: f.sources(wave().set("polarizationVector", vec(CVecR3(1, 0, 1))).str()); break;
    case 17: f.sources(port().set("shape", quoted("unknown")).str()); break;
    case 18: f.sources(port().set("excitationMode", quoted("unknown")).str()); break;
    case 19: f.requests(out().set("type", quoted("unknown")).str()); break;
    case 20: f.requests(out().set("gidOutputType", quoted("unknown")).str()); break;
    case 21: f.requests(out().set("elemIds", "[9999]").str()); break;
    default: f.requests(out().set("type", quoted("bulkCurrentElectric"))("direction", quoted("w"))("skip", "1").str());
    }
    ENSURES("what is wrong in a source or a request is refused", refused(f.str()));
    File g(false);
    g.sources(wave().set("layerBox", box(g.lo, g.hi)).str());
    ENSURES("what is right is accepted", !refused(g.str()));
    // without a part of the geometry, or with a part that is wrong, there is none
    const char* parts[] = {"grids", "layers", "coordinates", "elements"};
    Data d = read(File(g).o.erase(parts[vc::choice("part", 0, 3)]).set("sources", "[]").str());
    ENSURES("incomplete geometry is no geometry", d.mesh == nullptr && d.sources && d.sources->empty());
    Obj none = File(g).o;
    bool used = false;
    for (const File::El& x : g.elems) used = used || x.mat;
    Data e = read(none.erase("materials").set("sources", "[]").str());
    ENSURES("elements of a material that is missing are no geometry", (e.mesh == nullptr) == used);
}
