// Graphs of a mesh: which elements share vertices, faces and surfaces
// VC-SOURCES: core/geometry/graph/Connectivities.cpp core/physicalModel/PhysicalModel.cpp core/geometry/layer/Layer.cpp core/geometry/element/Element.cpp core/geometry/element/Triangle.cpp core/geometry/element/Triangle3.cpp core/geometry/element/Tetrahedron.cpp core/geometry/element/Tetrahedron4.cpp core/math/util/Real.cpp core/math/simplex/Simplex.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
// VC-ONLY: native
#include "vc.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Node.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Triangle3.h"
#include "geometry/graph/Connectivities.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef SEMBA::Geometry::Graph::Connectivities Conn;
typedef SEMBA::Geometry::Graph::Face Face;
typedef SEMBA::Geometry::Graph::Vertices<ElemR, CoordR3> Verts;
typedef std::set<size_t> Set; // of the numbers of coordinates
const Face NONE((const VolR*)nullptr, 0);

namespace {
CVecR3 cross(const CVecR3& a, const CVecR3& b) { return CVecR3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
double dot(const CVecR3& a, const CVecR3& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
struct Mesh {
    std::vector<CVecR3> pos;
    std::vector<std::unique_ptr<CoordR3> > coords;
    std::vector<std::vector<size_t> > verts; // of each element
    std::vector<std::unique_ptr<ElemR> > own;
    Element::Group<const ElemR> elems;
    std::vector<const ElemR*> all;
    std::vector<size_t> ids; // of the elements to come
    size_t vols;
    Set set(const Face& f) const {
        Set r;
        for (size_t i = 0; i < f.first->numberOfSideCoordinates(f.second); i++) r.insert(f.first->getSideV(f.second, i)->getId().toInt());
        return r;
    }
    template<class V> static Set ids_(const V& v) { Set r; for (auto& x : v) r.insert(x->getId().toInt()); return r; }
    template<class E> void add(const std::vector<size_t>& v) {
        const CoordR3* c[8];
        for (size_t i = 0; i < v.size(); i++) c[i] = coords[v[i]].get();
        size_t i = ids.empty() ? own.size() + 1 : ids[own.size()];
        own.push_back(std::unique_ptr<ElemR>(new E(ElemId(i), c, nullptr, nullptr)));
        verts.push_back(v);
    }
};
// the faces of cells, and of tetrahedra, seen from outside
const size_t HEXF[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {2, 3, 7, 6}, {0, 4, 7, 3}, {1, 2, 6, 5}};
const size_t TETF[4][3] = {{0, 1, 2}, {0, 1, 3}, {1, 2, 3}, {0, 2, 3}};

std::unique_ptr<Mesh> mesh() {
    std::unique_ptr<Mesh> m(new Mesh);
    long n[3];
    for (int a = 0; a < 3; a++) n[a] = vc::integer("cells", 1, a == 2 ? 2 : 3);
    bool tets = vc::boolean("tetrahedra"), left = vc::boolean("left-handed");
    // a grid, sheared and turned
    CVecR3 u[3];
    long shape = vc::integer("shape", 0, 3);
    for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) u[a](b) = (a == b ? 1.0 : 0.0) + (shape == 1 ? 0.125 * vc::integer("shear", -2, 2) : shape == 2 ? 0.1 * vc::integer("shear", -3, 3) / 1.7 : 0);
    double scale = shape == 3 ? 1e-3 : 1;
    size_t k = 0, total = (size_t)((n[0] + 1) * (n[1] + 1) * (n[2] + 1)), stride = (size_t)vc::integer("stride", 1, 3);
    bool down = vc::boolean("downwards");
    for (long z = 0; z <= n[2]; z++)
        for (long y = 0; y <= n[1]; y++)
            for (long x = 0; x <= n[0]; x++, k++) {
                m->pos.push_back((u[0] * (double)x + u[1] * (double)y + u[2] * (double)z) * scale);
                m->coords.push_back(std::unique_ptr<CoordR3>(new CoordR3(CoordId(1 + stride * (down ? total - k : k)), m->pos.back())));
            }
    // numbers of elements in any order
    for (size_t i = 1; i <= 400; i++) m->ids.push_back(3 * i);
    for (size_t i = 0; i < 60; i++) std::swap(m->ids[i], m->ids[(size_t)vc::integer("number", 0, 60)]);
    auto at = [&](long x, long y, long z) { return (size_t)((z * (n[1] + 1) + y) * (n[0] + 1) + x); };
    // the volumes
    for (long z = 0; z < n[2]; z++)
        for (long y = 0; y < n[1]; y++)
            for (long x = 0; x < n[0]; x++) {
                size_t v[8] = {at(x, y, z), at(x + 1, y, z), at(x + 1, y + 1, z), at(x, y + 1, z), at(x, y, z + 1), at(x + 1, y, z + 1), at(x + 1, y + 1, z + 1), at(x, y + 1, z + 1)};
                if (!tets) {
                    if (vc::integer("there", 0, 3)) m->add<HexR8>(std::vector<size_t>(v, v + 8));
                    continue;
                }
                // along the ways from one corner to the opposite one
                const size_t ways[6][2] = {{1, 2}, {1, 5}, {3, 2}, {3, 7}, {4, 5}, {4, 7}};
                for (auto& w : ways) {
                    if (!vc::integer("there", 0, 5)) continue;
                    size_t t[4] = {v[0], v[w[0]], v[w[1]], v[6]};
                    CVecR3 a = m->pos[t[1]] - m->pos[t[0]], b = m->pos[t[2]] - m->pos[t[0]], c = m->pos[t[3]] - m->pos[t[0]];
                    if ((dot(cross(a, b), c) < 0) != left) std::swap(t[1], t[2]);
                    m->add<Tet4>(std::vector<size_t>(t, t + 4));
                }
            }
    m->vols = m->own.size();
    // surfaces on some of the faces, lines and nodes
    std::set<Set> done;
    for (size_t e = 0; e < m->vols; e++) {
        std::vector<size_t> v = m->verts[e];
        for (size_t f = 0; f < (tets ? 4u : 6u); f++) {
            std::vector<size_t> s;
            for (size_t i = 0; i < (tets ? 3u : 4u); i++) s.push_back(v[tets ? TETF[f][i] : HEXF[f][i]]);
            if (vc::integer("covered", 0, 2) || !done.insert(Set(s.begin(), s.end())).second) continue;
            std::rotate(s.begin(), s.begin() + vc::integer("turned", 0, (long)s.size() - 1), s.end());
            if (vc::boolean("reversed")) std::reverse(s.begin(), s.end());
            if (tets) m->add<Tri3>(s);
            else m->add<QuaR4>(s);
        }
    }
    // surfaces which belong to no volume
    for (long i = vc::integer("loose", 0, 2); i > 0; i--) {
        std::vector<size_t> s;
        for (size_t j = 0; j < 3; j++) s.push_back((size_t)vc::integer("corner", 0, (long)total - 1));
        bool twice = s[0] == s[1] || s[1] == s[2] || s[0] == s[2];
        CVecR3 w = cross(m->pos[s[1]] - m->pos[s[0]], m->pos[s[2]] - m->pos[s[0]]);
        bool within = false;
        for (size_t e = 0; e < m->vols; e++) {
            size_t c = 0;
            for (size_t x : s) c += (size_t)std::count(m->verts[e].begin(), m->verts[e].end(), x);
            within = within || (tets && c == 3);
        }
        if (!twice && !within && dot(w, w) > 1e-12 * scale && done.insert(Set(s.begin(), s.end())).second) m->add<Tri3>(s);
    }
    for (long i = vc::integer("lines", 0, 2); i > 0; i--) {
        std::vector<size_t> s(1, (size_t)vc::integer("end", 0, (long)total - 2));
        s.push_back(s[0] + 1);
        m->add<LinR2>(s);
    }
    for (long i = vc::integer("nodes", 0, 2); i > 0; i--) m->add<NodR>(std::vector<size_t>(1, (size_t)vc::integer("node", 0, (long)total - 1)));
    for (auto& e : m->own) m->all.push_back(e.get());
    for (auto& e : m->own) m->elems.add(e.release());
    m->own.clear();
    return m;
}
Set vertices(const ElemR* e) {
    Set r;
    for (size_t i = 0; i < e->numberOfCoordinates(); i++) r.insert(e->getV(i)->getId().toInt());
    return r;
}
bool faces(const Mesh& m, const Conn& c, bool surfaces) {
    if (c.size() != m.all.size()) return false;
    // who is at a face, and which surface
    std::map<Set, std::vector<Face> > at;
    std::map<Set, size_t> surf;
    for (size_t e = 0; e < m.vols; e++)
        for (size_t f = 0; f < m.all[e]->numberOfFaces(); f++) {
            Face x(m.all[e]->castTo<VolR>(), f);
            at[m.set(x)].push_back(x);
        }
    for (size_t e = m.vols; e < m.all.size(); e++)
        if (m.all[e]->is<SurfR>()) surf[vertices(m.all[e])] = e;
    for (auto& x : at)
        for (size_t i = 0; i < x.second.size(); i++) {
            Face f = x.second[i], other = x.second.size() == 2 ? x.second[1 - i] : NONE;
            if (c.getNeighFace(f) != other || c.isDomainBoundary(f) != (other == NONE)) return false;
            auto s = surf.find(x.first);
            if (c.getNeighSurf(f) != (s == surf.end() ? nullptr : m.all[s->second]->castTo<SurfR>())) return false;
        }
    if (!surfaces) return true;
    if (!c.isDomainBoundary(NONE) || !c.existsReciprocity()) return false;
    for (auto& s : surf) {
        const SurfR* e = m.all[s.second]->castTo<SurfR>();
        std::vector<Face> f = at.count(s.first) ? at[s.first] : std::vector<Face>();
        Face inner = NONE, outer = NONE;
        if (f.size() == 1) inner = f[0];
        if (f.size() == 2) {
            CVecR3 w = cross(e->getV(1)->pos() - e->getV(0)->pos(), e->getV(2)->pos() - e->getV(0)->pos());
            bool first = dot(w, f[0].first->getSideNormal(f[0].second)) > 0;
            if (first == (dot(w, f[1].first->getSideNormal(f[1].second)) > 0)) return false;
            inner = first ? f[0] : f[1];
            outer = first ? f[1] : f[0];
        }
        if (c.getInnerFace(e) != inner || c.getOuterFace(e) != outer || c.isDomainBoundary(e) != (f.size() < 2)) return false;
    }
    return true;
}
template<class G> bool sameGraph(const Mesh& m, const G& g) {
    if (g.numElems() != m.all.size()) return false;
    std::set<size_t> used;
    for (const ElemR* e : m.all)
        for (size_t x : vertices(e)) used.insert(x);
    if (g.numBounds() != used.size()) return false;
    std::set<const void*> mine;
    for (size_t i = 0; i < g.numElems(); i++) mine.insert(g.elem(i));
    for (size_t i = 0; i < g.numBounds(); i++) mine.insert(g.bound(i));
    for (size_t i = 0; i < g.numElems(); i++) {
        auto* x = g.elem(i);
        if (x->elem() != m.all[i] || x->numBounds() != m.all[i]->numberOfCoordinates()) return false;
        std::set<const void*> near, seen;
        Set v = vertices(m.all[i]);
        for (const ElemR* e : m.all) {
            Set w = vertices(e);
            if (e != m.all[i] && std::find_first_of(v.begin(), v.end(), w.begin(), w.end()) != v.end()) near.insert(e);
        }
        for (size_t n = 0; n < x->numNeighbors(); n++)
            if (!mine.count(x->getNeighbor(n)) || !seen.insert(x->getNeighbor(n)->elem()).second) return false;
        if (seen != near) return false;
        for (size_t b = 0; b < x->numBounds(); b++) {
            if (x->getBound(b)->elem() != m.all[i]->getV(b) || !mine.count(x->getBound(b)) || x->getBounds()[b] != x->getBound(b)) return false;
            std::set<const void*> sharing;
            for (size_t n = 0; n < x->numBoundNeighbors(b); n++) {
                if (!mine.count(x->getBoundNeighbor(b, n)) || !vertices(x->getBoundNeighbor(b, n)->elem()).count(m.all[i]->getV(b)->getId().toInt())) return false;
                sharing.insert(x->getBoundNeighbor(b, n)->elem());
            }
            for (const ElemR* e : m.all)
                if ((e != m.all[i] && vertices(e).count(m.all[i]->getV(b)->getId().toInt())) != (sharing.count(e) != 0)) return false;
        }
    }
    // each vertex has the elements around it
    for (size_t i = 0; i < g.numBounds(); i++) {
        std::set<const void*> around, has;
        for (const ElemR* e : m.all)
            if (vertices(e).count(g.bound(i)->elem()->getId().toInt())) around.insert(e);
        for (size_t j = 0; j < g.bound(i)->numBounds(); j++) {
            if (!mine.count(g.bound(i)->getBound(j))) return false;
            has.insert(g.bound(i)->getBound(j)->elem());
        }
        if (has != around || has.size() != g.bound(i)->numBounds()) return false;
    }
    return true;
}
// the parts of the mesh are its connected components
bool components(const Mesh& m, Verts& g) {
    std::vector<std::vector<const ElemR*> > c = g.getConnectedComponents();
    std::map<const ElemR*, size_t> part;
    for (size_t i = 0; i < c.size(); i++) {
        if (c[i].empty()) return false;
        for (const ElemR* e : c[i])
            if (!part.insert(std::make_pair(e, i)).second) return false;
    }
    if (part.size() != m.all.size()) return false;
    // by filling
    std::vector<size_t> fill(m.all.size());
    for (size_t i = 0; i < fill.size(); i++) fill[i] = i;
    for (bool again = true; again;) {
        again = false;
        for (size_t i = 0; i < fill.size(); i++)
            for (size_t j = 0; j < fill.size(); j++) {
                Set v = vertices(m.all[i]), w = vertices(m.all[j]);
                if (fill[j] < fill[i] && std::find_first_of(v.begin(), v.end(), w.begin(), w.end()) != v.end()) { fill[i] = fill[j]; again = true; }
            }
    }
    for (size_t i = 0; i < fill.size(); i++)
        for (size_t j = 0; j < fill.size(); j++)
            if ((fill[i] == fill[j]) != (part[m.all[i]] == part[m.all[j]])) return false;
    return true;
}
}

VC_NATIVE(neighbours, "Connectivities::Connectivities, Connectivities::operator=, Connectivities::getNeighFace, Connectivities::getNeighSurf, Connectivities::getInnerFace, Connectivities::getOuterFace, Connectivities::isDomainBoundary, Connectivities::existsReciprocity, Connectivities::size", "random meshes of up to 18 cells or 108 tetrahedra, with surfaces, lines and nodes") {
    for (long t = 0; t < 8; t++) {
        std::unique_ptr<Mesh> m = mesh();
        std::unique_ptr<Conn> c(new Conn(m->elems));
        ENSURES("neighbours are those which share a face", faces(*m, *c, true));
        Conn copy(*c), other, empty;
        other = *c;
        other = other;
        c.reset();
        ENSURES("a copy has the same neighbours", faces(*m, copy, true) && faces(*m, other, true));
        copy = empty;
        ENSURES("a graph can be emptied", copy.size() == 0 && faces(*m, other, true));
        // a tetrahedron that overlaps others is noticed
        if (m->vols && m->all[0]->is<Tet4>()) {
            std::vector<size_t> v = m->verts[0];
            const CoordR3* x[4];
            for (size_t i = 0; i < 4; i++) x[i] = m->coords[v[i]].get();
            size_t neighbours = 0;
            for (size_t f = 0; f < 4; f++) neighbours += !other.isDomainBoundary(Face(m->all[0]->castTo<VolR>(), f));
            m->elems.add(new Tet4(ElemId(5000), x));
            if (neighbours == 4) ENSURES("overlapping volumes are not reciprocal", !Conn(m->elems).existsReciprocity());
        }
    }
}
VC_NATIVE(vertices, "Graph::Graph, Graph::operator=, Graph::getConnectedComponents, Graph::Element::constructNeighbors, Graph::Vertices::init", "random meshes of up to 18 cells or 108 tetrahedra, with surfaces, lines and nodes") {
    for (long t = 0; t < 5; t++) {
        std::unique_ptr<Mesh> m = mesh();
        std::unique_ptr<Verts> g(new Verts);
        g->init(m->elems);
        ENSURES("the graph has the elements around each vertex", sameGraph(*m, *g));
        ENSURES("components are connected and apart", components(*m, *g) && components(*m, *g));
        Verts copy(*g), other;
        other = *g;
        other = other;
        g.reset();
        ENSURES("a copy is the same graph of its own", sameGraph(*m, copy) && sameGraph(*m, other) && components(*m, copy) && components(*m, other));
    }
}
