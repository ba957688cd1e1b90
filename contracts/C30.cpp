// Files for visualisation (VTK): they show what there is
// VC-SOURCES: exporter/vtk/Exporter.cpp core/exporter/Exporter.cpp core/util/ProgressBar.cpp core/Data.cpp core/outputRequest/OutputRequest.cpp core/outputRequest/Domain.cpp core/outputRequest/BulkCurrent.cpp core/outputRequest/FarField.cpp core/physicalModel/PhysicalModel.cpp core/physicalModel/bound/Bound.cpp core/physicalModel/bound/PEC.cpp core/physicalModel/bound/PMC.cpp core/physicalModel/bound/PML.cpp core/physicalModel/bound/Periodic.cpp core/physicalModel/bound/Mur1.cpp core/physicalModel/bound/Mur2.cpp core/physicalModel/gap/Gap.cpp core/physicalModel/multiport/Multiport.cpp core/physicalModel/multiport/Predefined.cpp core/physicalModel/multiport/RLC.cpp core/physicalModel/multiport/Dispersive.cpp core/physicalModel/predefined/Predefined.cpp core/physicalModel/predefined/PEC.cpp core/physicalModel/predefined/PMC.cpp core/physicalModel/predefined/SMA.cpp core/physicalModel/surface/Surface.cpp core/physicalModel/surface/Multilayer.cpp core/physicalModel/surface/SIBC.cpp core/physicalModel/surface/SIBCFile.cpp core/physicalModel/volume/Volume.cpp core/physicalModel/volume/Classic.cpp core/physicalModel/volume/Dispersive.cpp core/physicalModel/volume/PML.cpp core/physicalModel/volume/Anisotropic.cpp core/physicalModel/volume/AnisotropicCrystal.cpp core/physicalModel/volume/AnisotropicFerrite.cpp core/physicalModel/wire/Wire.cpp core/source/Source.cpp core/source/PlaneWave.cpp core/source/Generator.cpp core/source/OnLine.cpp core/source/port/Port.cpp core/source/port/TEM.cpp core/source/port/TEMCoaxial.cpp core/source/port/Waveguide.cpp core/source/port/WaveguideRectangular.cpp core/source/magnitude/Magnitude.cpp core/source/magnitude/Numerical.cpp core/math/function/Gaussian.cpp core/math/function/BandLimited.cpp core/math/axis/Local.cpp core/filesystem/Project.cpp core/geometry/mesh/Mesh.cpp core/geometry/mesh/Structured.cpp core/geometry/mesh/Unstructured.cpp core/geometry/mesh/Geometric.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp core/geometry/element/Triangle6.cpp
// VC-ONLY: native
#include "vc.h"
#include "exporter/vtk/Exporter.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Node.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "math/function/Gaussian.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/predefined/PEC.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <ftw.h>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef std::string Str;

namespace {
// a folder of its own, removed afterwards
struct Scratch {
    Str dir;
    Scratch() {
        char name[] = "/tmp/vcvtkXXXXXX";
        if (!mkdtemp(name)) std::abort();
        dir = name;
    }
    ~Scratch() {
        nftw(dir.c_str(), [](const char* n, const struct stat*, int, struct FTW*) { return remove(n); }, 8, FTW_DEPTH | FTW_PHYS);
    }
};
Str show(long k) { return std::to_string(k); }
Str slurp(const Str& f) {
    std::ifstream in(f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
// the value of an attribute within some text
Str attribute(const Str& s, const Str& name) {
    Str::size_type a = s.find(" " + name + "=\"");
    if (a == Str::npos) return "";
    a += name.size() + 3;
    return s.substr(a, s.find('"', a) - a);
}
// the numbers of an array
std::vector<double> numbers(const Str& s, const Str& mark) {
    std::vector<double> r;
    Str::size_type a = s.find(mark);
    if (a == Str::npos) return r;
    a = s.find('>', a) + 1;
    std::istringstream in(s.substr(a, s.find('<', a) - a));
    double x;
    while (in >> x) r.push_back(x);
    return r;
}
// a cell: its kind and the places of its vertices
struct Cell {
    int kind;
    std::vector<double> at;
    bool operator<(const Cell& r) const { return kind != r.kind ? kind < r.kind : at < r.at; }
    bool operator==(const Cell& r) const { return kind == r.kind && at == r.at; }
};
typedef std::vector<Cell> Cells;
struct Part {
    Str name;
    Cells cells;
    bool corners; // the order of the vertices is not given
    bool operator<(const Part& r) const { return name != r.name ? name < r.name : cells < r.cells; }
};
bool readCells(const Str& file, Cells& r) {
    Str s = slurp(file);
    std::vector<double> p = numbers(s, "NumberOfComponents=\"3\""), c = numbers(s, "Name=\"connectivity\""), o = numbers(s, "Name=\"offsets\""), t = numbers(s, "Name=\"types\"");
    Str head = s.substr(s.find("<UnstructuredGrid"));
    if (p.size() % 3 || p.size() / 3 != (size_t)atol(attribute(head, "NumberOfPoints").c_str()) || o.size() != t.size() || t.size() != (size_t)atol(attribute(head, "NumberOfCells").c_str())) return false;
    if (s.find("</VTKFile>") == Str::npos || o.empty() || (size_t)o.back() != c.size()) return false;
    size_t k = 0;
    for (size_t i = 0; i < t.size(); i++) {
        Cell x;
        x.kind = (int)t[i];
        for (; k < o[i]; k++) {
            if (c[k] < 0 || 3 * c[k] + 2 >= p.size()) return false;
            x.at.insert(x.at.end(), p.begin() + 3 * (long)c[k], p.begin() + 3 * (long)c[k] + 3);
        }
        r.push_back(x);
    }
    return true;
}
// the vertices of a cell in order of their places
Cell sorted(const Cell& c) {
    std::vector<std::vector<double> > v;
    for (size_t i = 0; i < c.at.size(); i += 3) v.push_back(std::vector<double>(c.at.begin() + i, c.at.begin() + i + 3));
    std::sort(v.begin(), v.end());
    Cell r;
    r.kind = c.kind;
    for (auto& x : v) r.at.insert(r.at.end(), x.begin(), x.end());
    return r;
}
Cells canonical(const Cells& cs, bool corners) {
    Cells r = cs;
    if (corners)
        for (Cell& c : r) c = sorted(c);
    std::sort(r.begin(), r.end());
    return r;
}
Str valid(Str s) {
    for (char& c : s)
        if (Str("/&<>\"").find(c) != Str::npos) c = '_';
    return s;
}
// the files of a project have just these parts
bool shows(const Str& project, std::vector<Part> want) {
    Str s = slurp(project + ".pvd");
    if (s.find("</VTKFile>") == Str::npos) return false;
    std::set<Str> files;
    size_t n = 0;
    Str::size_type at = 0;
    for (; (at = s.find("<DataSet", at)) != Str::npos; at++) {
        Str head = s.substr(at, s.find("/>", at) - at), group = attribute(head, "group"), file = attribute(head, "file");
        if (attribute(head, "part") != show((long)n++)) return false;
        if (!files.insert(file).second) return false;
        Cells cs;
        if (!readCells(project.substr(0, project.rfind('/') + 1) + file, cs)) return false;
        bool found = false;
        for (size_t i = 0; !found && i < want.size(); i++)
            if (group.compare(0, valid(want[i].name).size(), valid(want[i].name)) == 0 && canonical(cs, want[i].corners) == canonical(want[i].cells, want[i].corners)) {
                want.erase(want.begin() + (long)i);
                found = true;
            }
        if (!found) {

            return false;
        }
    }
    return want.empty();
}

struct El {
    int kind, mat, layer; // of VTK; -1 when there is none
    std::vector<CVecR3> at;
    const Elem* e;
    Cell cell() const {
        Cell c;
        c.kind = kind;
        for (const CVecR3& v : at)
            for (int a = 0; a < 3; a++) c.at.push_back(v(a));
        return c;
    }
};
// a simulation, with what there is in it kept apart
struct Case {
    std::unique_ptr<Data> d;
    std::vector<El> elems;
    std::vector<Str> mats, lays;
    std::vector<Part> want;
    std::vector<double> pos[3];
    bool structured;
    Case() : d(new Data), structured(vc::boolean("structured")) {
        const char* names[] = {"iron", "iron", "a/b", "a_b", "x&\"y\"", "<z>"};
        d->physicalModels = new SEMBA::PhysicalModel::Group<>();
        for (long i = 0, n = vc::integer("materials", 0, 3); i < n; i++) {
            mats.push_back(names[vc::integer("name", 0, 5)]);
            d->physicalModels->add(new SEMBA::PhysicalModel::Predefined::PEC(SEMBA::PhysicalModel::Id(i + 1), mats.back()));
        }
        Layer::Group<> lg;
        for (long i = 0, n = vc::integer("layers", 1, 3); i < n; i++) {
            lays.push_back(names[vc::integer("layer", 0, 5)]);
            lg.add(new Layer::Layer(LayerId(3 * i + 1), lays.back()));
        }
        long n = vc::integer("elements", 0, 8);
        for (long i = 0; i < n; i++) {
            El e;
            e.mat = (int)vc::integer("material", -1, (long)mats.size() - 1);
            e.layer = (int)vc::integer("layer", -1, (long)lays.size() - 1);
            e.e = nullptr;
            elems.push_back(e);
        }
        if (structured) cells(lg);
        else solids(lg);
        // what is written
        Str pre = structured ? "str_" : "";
        for (size_t l = 0; l < lays.size(); l++)
            for (size_t m = 0; m < std::max<size_t>(mats.size(), 1); m++) {
                Part p;
                p.corners = false;
                p.name = pre + (mats.empty() ? "" : mats[m] + "@") + lays[l];
                for (const El& e : elems)
                    if (e.layer == (int)l && (mats.empty() || e.mat == (int)m)) p.cells.push_back(e.cell());
                if (!p.cells.empty()) want.push_back(p);
            }
        if (vc::boolean("sources")) {
            d->sources = new Source::Group<>();
            for (long i = vc::integer("sources", 0, 3); i > 0; i--) source(pre);
        }
        if (vc::boolean("requests")) {
            d->outputRequests = new OutputRequest::Group<>();
            for (long i = vc::integer("requests", 0, 3); i > 0; i--) {
                Part p;
                p.corners = false;
                Element::Group<Elem> g;
                for (const El& e : elems)
                    if (vc::boolean("asked")) {
                        g.add(const_cast<Elem*>(e.e));
                        p.cells.push_back(e.cell());
                    }
                Str name = names[vc::integer("request", 0, 5)];
                p.name = pre + "OutRq_" + name;
                d->outputRequests->add(new OutRqElem(OutputRequest::Domain(), OutputRequest::Base::electric, name, g));
                if (!p.cells.empty()) want.push_back(p);
            }
        }
    }
    template<class G> void source(const Str& pre, int kind, bool line) {
        Part p;
        p.corners = false;
        Element::Group<G> g;
        for (const El& e : elems)
            if (e.kind == kind && vc::boolean("excited")) {
                g.add(const_cast<G*>(e.e->castTo<G>()));
                p.cells.push_back(e.cell());
            }
        p.name = pre + "EMSource_";
        Source::Magnitude::Magnitude* m = new Source::Magnitude::Magnitude(new Function::Gaussian(1.0, 2.0, 3.0));
        add(m, g);
        if (!p.cells.empty()) want.push_back(p);
    }
    void add(Source::Magnitude::Magnitude* m, const Element::Group<Nod>& g) { d->sources->add(new Source::Generator(m, g, Source::Generator::voltage, Source::Generator::soft)); }
    void add(Source::Magnitude::Magnitude* m, const Element::Group<Lin>& g) { d->sources->add(new Source::OnLine(m, g, Source::OnLine::electric, Source::OnLine::soft)); }
    void source(const Str& pre) {
        if (vc::boolean("line")) source<Lin>(pre, 3, true);
        else source<Nod>(pre, 1, false);
    }
    const Layer::Layer* layer(const Layer::Group<>& lg, const El& e) const { return e.layer < 0 ? nullptr : lg((size_t)e.layer); }
    const SEMBA::PhysicalModel::PhysicalModel* mat(const El& e) const { return e.mat < 0 ? nullptr : (*d->physicalModels)((size_t)e.mat); }
    void solids(const Layer::Group<>& lg) {
        Coordinate::Group<CoordR3> cg;
        long n = 12;
        std::vector<CVecR3> at;
        for (long i = 0; i < n; i++) {
            at.push_back(CVecR3(0.25 * vc::integer("x", -40, 40), 0.5 * vc::integer("y", -9, 9), 12.5 * i));
            cg.add(new CoordR3(CoordId(5 * i + 2), at.back()));
        }
        Element::Group<ElemR> eg;
        long id = 0;
        for (El& e : elems) {
            const int kinds[] = {1, 3, 5, 9, 10, 12, 22};
            const size_t vertices[] = {1, 2, 3, 4, 4, 8, 6};
            long k = vc::integer("kind", 0, 6);
            e.kind = kinds[k];
            std::vector<size_t> v;
            const CoordR3* c[8];
            size_t first = (size_t)vc::integer("first", 0, 11), step = (size_t[]){1, 5, 7, 11}[vc::integer("step", 0, 3)];
            for (size_t i = 0; i < vertices[k]; i++) {
                size_t j = (first + i * step) % 12;
                c[i] = cg(j);
                if (k != 6 || i == 0 || i == 3 || i == 5) e.at.push_back(at[j]);
            }
            if (k == 6) e.kind = 5; // shown by its corners
            ElemId eid(id += vc::integer("gap", 1, 3));
            const Layer::Layer* l = layer(lg, e);
            const SEMBA::PhysicalModel::PhysicalModel* m = mat(e);
            ElemR* r = k == 0 ? (ElemR*)new NodR(eid, c, l, m) : k == 1 ? (ElemR*)new LinR2(eid, c, l, m) : k == 2 ? (ElemR*)new Tri3(eid, c, l, m) : k == 3 ? (ElemR*)new QuaR4(eid, c, l, m) : k == 4 ? (ElemR*)new Tet4(eid, c, l, m) : k == 5 ? (ElemR*)new HexR8(eid, c, l, m) : (ElemR*)new Tri6(eid, c, l, m);
            eg.add(r);
        }
        Mesh::Geometric* g = new Mesh::Geometric(Grid3(), cg, eg, lg);
        d->mesh = g;
        for (size_t i = 0; i < elems.size(); i++) elems[i].e = g->elems()(i);
        g->reassignPointers(*d->physicalModels);
    }
    void cells(const Layer::Group<>& lg) {
        for (int a = 0; a < 3; a++) {
            double x = 0.25 * vc::integer("start", -9, 9);
            for (long n = vc::integer("lines", 2, 4); n > 0; n--) {
                pos[a].push_back(x);
                x += 0.25 * vc::integer("size", 1, 9);
            }
        }
        Grid3 grid(pos);
        Coordinate::Group<CoordI3> cg;
        Element::Group<ElemI> eg;
        long id = 0, cid = 0;
        for (El& e : elems) {
            long dims = vc::integer("dimensions", 0, 3), dir = vc::integer("direction", 0, 2);
            CVecI3 lo, hi;
            for (int a = 0; a < 3; a++) {
                bool wide = dims == 3 || (dims == 1 && a == dir) || (dims == 2 && a != dir);
                lo(a) = (int)vc::integer("cell", 0, (long)pos[a].size() - (wide ? 2 : 1));
                hi(a) = lo(a) + (wide ? 1 : 0);
            }
            // around the first face, then around the second one
            std::vector<CVecI3> v;
            int a = dims == 1 ? (int)dir : dims == 2 ? (int)(dir + 1) % 3 : 0, b = dims == 2 ? (int)(dir + 2) % 3 : 1;
            for (int i = 0; i < (1 << dims); i++) {
                CVecI3 x = lo;
                if (i % 4 == 1 || i % 4 == 2) x(a) = hi(a);
                if (i % 4 >= 2) x(b) = hi(b);
                if (i >= 4) x(2) = hi(2);
                v.push_back(x);
            }
            const CoordI3* c[8];
            for (size_t i = 0; i < v.size(); i++) {
                CoordI3* p = new CoordI3(CoordId(++cid), v[i]);
                cg.add(p);
                c[i] = p;
                e.at.push_back(CVecR3(pos[0][v[i](0)], pos[1][v[i](1)], pos[2][v[i](2)]));
            }
            e.kind = (int[]){1, 3, 9, 12}[dims];
            ElemId eid(id += vc::integer("gap", 1, 3));
            const Layer::Layer* l = layer(lg, e);
            const SEMBA::PhysicalModel::PhysicalModel* m = mat(e);
            ElemI* r = dims == 0 ? (ElemI*)new NodI(eid, c, l, m) : dims == 1 ? (ElemI*)new LinI2(eid, c, l, m) : dims == 2 ? (ElemI*)new QuaI4(eid, c, l, m) : (ElemI*)new HexI8(eid, c, l, m);
            eg.add(r);
        }
        Mesh::Structured* g = new Mesh::Structured(grid, cg, eg, lg);
        d->mesh = g;
        for (size_t i = 0; i < elems.size(); i++) elems[i].e = g->elems()(i);
        g->reassignPointers(*d->physicalModels);
        // the six sides of the grid
        for (size_t a = 0; a < 3; a++)
            for (size_t s = 0; s < 2; s++) {
                long k = vc::choice("side", 0, 2);
                if (k == 0) continue;
                if (k == 1) g->bounds().setBound(a, s, new SEMBA::PhysicalModel::Bound::PEC(SEMBA::PhysicalModel::Id(0)));
                else g->bounds().setBound(a, s, new SEMBA::PhysicalModel::Bound::PMC(SEMBA::PhysicalModel::Id(0)));
                Part p;
                p.name = Str(k == 1 ? "PEC" : "PMC") + "@Boundary";
                p.corners = true;
                Cell c;
                c.kind = 9;
                for (int i = 0; i < 4; i++) {
                    double x[3];
                    x[a] = s ? pos[a].back() : pos[a].front();
                    x[(a + 1) % 3] = i & 1 ? pos[(a + 1) % 3].back() : pos[(a + 1) % 3].front();
                    x[(a + 2) % 3] = i & 2 ? pos[(a + 2) % 3].back() : pos[(a + 2) % 3].front();
                    c.at.insert(c.at.end(), x, x + 3);
                }
                p.cells.push_back(c);
                want.push_back(p);
            }
        // the lines of the grid on its three lower sides
        Part p;
        p.name = "Grid";
        p.corners = true;
        for (int a = 0; a < 3; a++)
            for (int b = 0; b < 3; b++)
                if (a != b)
                    for (double x : pos[b]) {
                        Cell c;
                        c.kind = 3;
                        for (int i = 0; i < 2; i++) {
                            double y[3];
                            y[a] = i ? pos[a].back() : pos[a].front();
                            y[b] = x;
                            y[3 - a - b] = pos[3 - a - b].front();
                            c.at.insert(c.at.end(), y, y + 3);
                        }
                        p.cells.push_back(c);
                    }
        want.push_back(p);
    }
    // the simulation is as it was
    bool kept() const {
        for (size_t i = 0; i < elems.size(); i++) {
            const Elem* e = structured ? (const Elem*)d->mesh->castTo<Mesh::Structured>()->elems()(i) : (const Elem*)d->mesh->castTo<Mesh::Unstructured>()->elems()(i);
            if (e != elems[i].e) return false;
        }
        return true;
    }
};
}

VC_NATIVE(parts, "VTK::Exporter::Exporter, VTK::Exporter::writeMesh_, VTK::Exporter::writeFile_, VTK::Exporter::getPoints_, VTK::Exporter::writePoints_, VTK::Exporter::writeCells_, Exporter::getGridElems, Exporter::getBoundary, Exporter::getBoundaryName", "60 random simulations of up to eight elements of every kind, with materials, layers, sources and requests of equal and odd names; exported twice") {
    for (long t = 0; t < 60; t++) {
        Scratch s;
        Case c;
        Str name = s.dir + "/" + (const char*[]){"case", "case.dat", "a case"}[vc::integer("project", 0, 2)];
        {
            SEMBA::Exporter::VTK::Exporter e(c.d.get(), name);
        }
        ENSURES("the files show what there is", shows(name, c.want));
        ENSURES("the simulation is as it was", c.kept());
        {
            SEMBA::Exporter::VTK::Exporter e(c.d.get(), name);
        }
        ENSURES("exporting again gives the same", shows(name, c.want) && c.kept());
    }
}
