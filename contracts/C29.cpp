// Files of triangles (STL): each solid, facet and vertex is read as it is written
// VC-SOURCES: parser/stl/Parser.cpp core/parser/Parser.cpp core/util/ProgressBar.cpp core/Data.cpp core/outputRequest/OutputRequest.cpp core/outputRequest/Domain.cpp core/outputRequest/BulkCurrent.cpp core/outputRequest/FarField.cpp core/physicalModel/PhysicalModel.cpp core/physicalModel/bound/Bound.cpp core/physicalModel/bound/PEC.cpp core/physicalModel/bound/PMC.cpp core/physicalModel/bound/PML.cpp core/physicalModel/bound/Periodic.cpp core/physicalModel/bound/Mur1.cpp core/physicalModel/bound/Mur2.cpp core/physicalModel/gap/Gap.cpp core/physicalModel/multiport/Multiport.cpp core/physicalModel/multiport/Predefined.cpp core/physicalModel/multiport/RLC.cpp core/physicalModel/multiport/Dispersive.cpp core/physicalModel/predefined/Predefined.cpp core/physicalModel/predefined/PEC.cpp core/physicalModel/predefined/PMC.cpp core/physicalModel/predefined/SMA.cpp core/physicalModel/surface/Surface.cpp core/physicalModel/surface/Multilayer.cpp core/physicalModel/surface/SIBC.cpp core/physicalModel/surface/SIBCFile.cpp core/physicalModel/volume/Volume.cpp core/physicalModel/volume/Classic.cpp core/physicalModel/volume/Dispersive.cpp core/physicalModel/volume/PML.cpp core/physicalModel/volume/Anisotropic.cpp core/physicalModel/volume/AnisotropicCrystal.cpp core/physicalModel/volume/AnisotropicFerrite.cpp core/physicalModel/wire/Wire.cpp core/source/Source.cpp core/source/PlaneWave.cpp core/source/Generator.cpp core/source/OnLine.cpp core/source/port/Port.cpp core/source/port/TEM.cpp core/source/port/TEMCoaxial.cpp core/source/port/Waveguide.cpp core/source/port/WaveguideRectangular.cpp core/source/magnitude/Magnitude.cpp core/source/magnitude/Numerical.cpp core/math/function/Gaussian.cpp core/math/function/BandLimited.cpp core/math/axis/Local.cpp core/filesystem/Project.cpp core/geometry/mesh/Mesh.cpp core/geometry/mesh/Structured.cpp core/geometry/mesh/Unstructured.cpp core/geometry/mesh/Geometric.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
// VC-ONLY: native
#include "vc.h"
#include "parser/stl/Parser.h"
#include <cmath>
#include <iostream>
#include <sstream>
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef std::string Str;

namespace {
struct Quiet {
    std::ostringstream out;
    std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(out.rdbuf())) {}
    ~Quiet() {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};
Str show(long k) { return std::to_string(k); }
Data read(const Str& s) {
    Quiet q;
    std::istringstream in(s);
    return SEMBA::Parser::STL::Parser().read(in);
}
bool refused(const Str& s) {
    try {
        read(s);
        return false;
    } catch (const std::exception&) {
        return true;
    }
}
Str blank() { return Str((size_t)vc::choice("blanks", 0, 3), vc::boolean("tab") ? '\t' : ' '); }
struct Number {
    double x;
    Str s;
};
Number number() {
    Number r;
    char b[40];
    r.x = 0.1 * vc::integer("n", -60, 60);
    if (r.x == 0) r.x = 0; // no negative zero
    long how = vc::choice("form", 0, 2);
    snprintf(b, sizeof b, how == 0 ? "%.17g" : how == 1 ? "%.6e" : "%.3E", r.x);
    r.s = b;
    r.x = atof(b);
    return r;
}
struct Facet {
    CVecR3 v[3];
    Str s[3];
    Facet(const std::vector<std::pair<CVecR3, Str> >& known) {
        for (int i = 0; i < 3; i++) {
            if (!known.empty() && vc::boolean("shared")) {
                const std::pair<CVecR3, Str>& k = known[vc::integer("which", 0, (long)known.size() - 1)];
                v[i] = k.first;
                s[i] = k.second;
                continue;
            }
            for (int a = 0; a < 3; a++) {
                Number n = number();
                v[i](a) = n.x;
                s[i] += blank() + " " + n.s;
            }
        }
    }
    Str vertex(int i) const { return blank() + "vertex" + s[i] + blank(); }
};
struct Solid {
    Str name;
    std::vector<Facet> facets;
};
// a file, kept apart from the code
struct File {
    std::vector<Solid> solids;
    Str text, nl;
    File() {
        nl = vc::boolean("crlf") ? "\r\n" : "\n";
        std::vector<std::pair<CVecR3, Str> > known;
        const char* names[] = {"", "vertex", "solid", "facet", "endloop", "outer", "part_1", "B2"};
        for (long n = vc::integer("solids", 0, 3); n > 0; n--) {
            Solid s;
            s.name = names[vc::integer("name", 0, 7)];
            for (long k = vc::integer("facets", 0, 4); k > 0; k--) {
                Facet f(known);
                s.facets.push_back(f);
                for (int i = 0; i < 3; i++) known.push_back(std::make_pair(f.v[i], f.s[i]));
            }
            solids.push_back(s);
        }
        for (size_t i = 0; i < solids.size(); i++) {
            const Solid& s = solids[i];
            text += blank() + "solid" + (s.name.empty() ? "" : " " + s.name) + blank() + nl;
            for (const Facet& f : s.facets) {
                text += blank() + "facet normal 0 0 1" + nl + blank() + "outer loop" + blank() + nl;
                for (int k = 0; k < 3; k++) text += f.vertex(k) + nl;
                text += blank() + "endloop" + nl + blank() + "endfacet" + nl;
            }
            text += blank() + "endsolid" + (s.name.empty() || vc::boolean("unnamed") ? "" : " " + s.name) + (i + 1 < solids.size() || vc::boolean("end") ? nl : "");
        }
        for (long n = vc::choice("empty lines", 0, 2); n > 0; n--) text += nl;
    }
};
}

VC_NATIVE(files, "Parser::read", "400 random files of up to three solids of up to four facets") {
    for (long t = 0; t < 400; t++) {
        File f;
        Data d = read(f.text);
        ENSURES("there is a mesh, a material, and nothing else", d.mesh != nullptr && d.mesh->is<Mesh::Geometric>() && d.physicalModels != nullptr && d.physicalModels->size() == 1 && d.solver == nullptr && d.sources != nullptr && d.sources->empty() && d.outputRequests != nullptr && d.outputRequests->empty());
        const Mesh::Geometric& m = *d.mesh->castTo<Mesh::Geometric>();
        const SEMBA::PhysicalModel::PhysicalModel* pec = (*d.physicalModels)(0);
        ENSURES("the material is a perfect conductor", pec->is<SEMBA::PhysicalModel::Predefined::PEC>());
        ENSURES("each solid is a layer", m.layers().size() == f.solids.size());
        size_t n = 0;
        for (size_t i = 0; i < f.solids.size(); i++) {
            ENSURES("layers have the names of the solids", m.layers()(i)->getName() == f.solids[i].name);
            for (size_t j = 0; j < i; j++) ENSURES("layers have different numbers", m.layers()(i)->getId() != m.layers()(j)->getId());
            n += f.solids[i].facets.size();
        }
        ENSURES("each facet is an element", m.elems().size() == n && m.elems().sizeOf<Tri3>() == n);
        n = 0;
        for (size_t i = 0; i < f.solids.size(); i++)
            for (const Facet& x : f.solids[i].facets) {
                const ElemR* e = m.elems()(n++);
                ENSURES("triangles are in the layer of their solid", e->getLayer() == m.layers()(i));
                ENSURES("triangles are made of the material", e->getModel() == pec);
                for (size_t j = 0; j + 1 < n; j++) ENSURES("triangles have different numbers", e->getId() != m.elems()(j)->getId());
                for (size_t k = 0; k < 3; k++) {
                    const CoordR3* c = e->getV(k);
                    ENSURES("vertices are where they were written", c->pos() == x.v[k]);
                    ENSURES("vertices are coordinates of the mesh", m.coords().existId(c->getId()) && m.coords().getId(c->getId()) == c);
                }
            }
        for (size_t i = 0; i < m.coords().size(); i++) {
            bool found = false;
            for (const Solid& s : f.solids)
                for (const Facet& x : s.facets)
                    for (int k = 0; k < 3; k++) found = found || m.coords()(i)->pos() == x.v[k];
            ENSURES("there are no other coordinates", found);
        }
    }
}

VC_NATIVE(cut, "Parser::read", "400 random files with a facet of a wrong number of vertices, of words, or cut within a facet") {
    for (long t = 0; t < 400; t++) {
        File f;
        Str::size_type from = f.text.find("outer loop");
        if (from == Str::npos) continue;
        // one of the facets
        for (long skip = vc::integer("facet", 0, 3); skip > 0; skip--) {
            Str::size_type next = f.text.find("outer loop", from + 1);
            // a layer cannot be called so
            if (next != Str::npos) from = next;
        }
        Str::size_type to = f.text.find("endloop", from), line = f.text.find("vertex", from), end = f.text.find(f.nl, line);
        Str s = f.text;
        switch (vc::integer("how", 0, 4)) {
        case 0: s = s.substr(0, line); break;
        case 1: s = s.substr(0, end) + f.nl; break;
        case 2: s.erase(line, end - line); break;
        case 3: s.insert(to, "vertex 1 2 3" + f.nl); break;
        default: s.replace(line, end - line, "vertex 1 two 3");
        }
        ENSURES("a facet that is not a triangle is refused", refused(s));
    }
    ENSURES("a file without solids is empty", read("").mesh != nullptr && read("nothing\n").mesh->castTo<Mesh::Geometric>()->elems().empty());
}
