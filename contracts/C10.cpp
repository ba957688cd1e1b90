// Groups of identified objects: contents, lookup by identifier, numbering, removal, filtering by type, sharing and cloning
// VC-SOURCES: core/math/util/Real.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
#include "vc.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/coordinate/Relative.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef CoordId Id;
typedef SEMBA::Group::Group<Coord> Plain;
typedef SEMBA::Group::Identifiable<Coord, Id> G;
typedef std::vector<size_t> Where;
// an object of one of the types: 0 real coordinate, 1 integer coordinate, 2 conformal, 3 relative (2 and 3 are integer coordinates too)
static Coord* mk(long id, long kind = 0) {
    switch (kind) {
    case 1: return new CoordI3(Id(id), CVecI3(1, 2, 3));
    case 2: return new CoordConf(Id(id), CVecI3(1, 2, 3), Constants::y, 0.5);
    case 3: return new CoordRel(Id(id), CVecI3(1, 2, 3), CVecR3(0.25, 0.5, 0.75));
    default: return new CoordR3(Id(id), CVecR3(1.0, 2.0, 3.0));
    }
}
static long someId(const char* n) { return vc::integer(n, 1, VC_PROVING ? 1000000 : 6); }
static long counted(const Plain& g, const Coord* c) {
    long n = 0;
    for (size_t i = 0; i < g.size(); i++) if (g(i) == c) n++;
    return n;
}

VC_DRIVER(identification, "Class::Identification") {
    long a = vc::integer("a", 0, 1000000), b = vc::integer("b", 0, 1000000);
    Id x(a), y(b), z(x), w, none;
    w = y;
    w = w;
    ENSURES("holds its number", x.toInt() == (size_t)a && y.toInt() == (size_t)b && none.toInt() == 0);
    ENSURES("copies are equal", z == x && w == y && z.toInt() == (size_t)a && w.toInt() == (size_t)b);
    ENSURES("compared as numbers", (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b));
    ENSURES("sum", (x + y).toInt() == (size_t)(a + b));
    z += y;
    ENSURES("added in place", z.toInt() == (size_t)(a + b));
    Id o = w++;
    ENSURES("post-increment returns the previous", o.toInt() == (size_t)b && w.toInt() == (size_t)(b + 1));
    Id& p = ++w;
    ENSURES("pre-increment returns the next", &p == &w && w.toInt() == (size_t)(b + 2));
    ENSURES("operands unchanged", x.toInt() == (size_t)a && y.toInt() == (size_t)b);
}
VC_DRIVER(identifiable, "Class::Identifiable") {
    long a = vc::integer("a", 0, 1000000), b = vc::integer("b", 0, 1000000);
    CoordR3 x(Id(a), CVecR3(1.0, 2.0, 3.0)), y(x), n(CVecR3(1.0, 2.0, 3.0));
    ENSURES("no identifier by default", n.getId().toInt() == 0);
    ENSURES("keeps its identifier, and so does a copy", x.getId().toInt() == (size_t)a && y.getId().toInt() == (size_t)a);
    y.setId(Id(b));
    ENSURES("a copy is renumbered alone", x.getId().toInt() == (size_t)a && y.getId().toInt() == (size_t)b);
}
VC_DRIVER_BOUNDED(plain, "Group::add, get, operator(), size, empty, set, clear, copy, move, operator=", "up to three objects") {
    long n = vc::choice("n", 0, 3);
    Plain g, e;
    Coord* c[4];
    for (long i = 0; i < 4; i++) c[i] = mk(i + 1, i);
    ENSURES("empty at first", g.size() == 0 && g.empty());
    bool batch = vc::boolean("batch");
    if (batch) {
        std::vector<Coord*> all;
        for (long i = 0; i < n; i++) all.push_back(c[i]);
        Plain r = g.add(all);
        ENSURES("gives back what was added", r.size() == (size_t)n && FORALL(i, 0, n, { return r(i) == c[i]; }));
    } else {
        for (long i = 0; i < n; i++) {
            Plain r = g.add(c[i]);
            ENSURES("gives back the added object", r.size() == 1 && r(0) == c[i]);
        }
    }
    ENSURES("as many as were added", g.size() == (size_t)n && g.empty() == (n == 0));
    for (long i = 0; i < n; i++) ENSURES("the added objects in order", g(i) == c[i] && g.get(i) == c[i]);
    Plain f(g), spare(c[3]);
    e.add(c[3]);
    e = g;
    e = e;
    ENSURES("copies hold the same objects", f.size() == g.size() && e.size() == g.size() && FORALL(i, 0, n, { return f(i) == c[i] && e(i) == c[i] && g(i) == c[i]; }));
    if (n > 0) {
        f.set(n - 1, c[3]);
        ENSURES("one object is replaced", f.size() == (size_t)n && f(n - 1) == c[3] && FORALL(i, 0, n - 1, { return f(i) == c[i]; }));
        ENSURES("in that group only", FORALL(i, 0, n, { return g(i) == c[i] && e(i) == c[i]; }));
        g.clear();
        ENSURES("emptied", g.empty() && g.size() == 0 && e.size() == (size_t)n);
        ENSURES("objects outlive a group that leaves them to another", e(0)->getId().toInt() == 1);
        Plain m(std::move(e));
        ENSURES("moved", m.size() == (size_t)n && FORALL(i, 0, n, { return m(i) == c[i]; }));
        g = std::move(m);
        ENSURES("moved by assignment", g.size() == (size_t)n && FORALL(i, 0, n, { return g(i) == c[i]; }));
        Plain both(f);
        both.add(g);
        ENSURES("appended group", both.size() == (size_t)(2 * n) && FORALL(i, 0, n, { return both(n + i) == c[i] && both(i) == (i == n - 1 ? c[3] : c[i]) && g(i) == c[i]; }));
    }
}
VC_DRIVER_BOUNDED(chosen, "Group::get(positions), remove", "three objects, up to two positions in any order, repeated or not") {
    Plain g;
    Coord* c[3];
    for (long i = 0; i < 3; i++) { c[i] = mk(i + 1, i); g.add(c[i]); }
    Plain keep(g);
    const Plain& k = keep;
    long n = vc::choice("n", 0, 2);
    Where w;
    for (long i = 0; i < n; i++) w.push_back(vc::choice("w", 0, 2));
    bool in[3] = {false, false, false};
    for (long i = 0; i < n; i++) in[w[i]] = true;
    Plain s = keep.get(w);
    SEMBA::Group::Group<const Coord> t = k.get(w);
    g.remove(w);
    size_t a = 0, b = 0;
    for (long i = 0; i < 3; i++) {
        if (in[i]) { ENSURES("chosen objects, each once, in the order of the group", a < s.size() && a < t.size() && s(a) == c[i] && t(a) == c[i]); a++; }
        else { ENSURES("the others are kept in order", b < g.size() && g(b) == c[i]); b++; }
        ENSURES("the group itself is not changed by choosing", keep(i) == c[i]);
    }
    ENSURES("no other is chosen", s.size() == a && t.size() == a && keep.size() == 3);
    ENSURES("no other is kept", g.size() == b);
    long x = vc::choice("x", 0, 2);
    keep.remove((size_t)x);
    ENSURES("one removed", keep.size() == 2 && keep(0) == c[x == 0 ? 1 : 0] && keep(1) == c[x == 2 ? 1 : 2]);
}
VC_DRIVER_BOUNDED(types, "Group::getOf, getOfOnly, sizeOf, emptyOf, Class::is, castTo", "three objects of any of four types") {
    Plain g;
    Coord* c[3];
    long k[3];
    for (long i = 0; i < 3; i++) { k[i] = vc::choice("k", 0, 3); c[i] = mk(i + 1, k[i]); g.add(c[i]); }
    const Plain& h = g;
    auto r = g.getOf<CoordR3>();
    auto x = g.getOf<CoordI3>();
    auto o = g.getOfOnly<CoordI3>();
    auto f = h.getOf<CoordConf>();
    auto q = h.getOfOnly<CoordI3>();
    size_t nr = 0, nx = 0, no = 0, nf = 0;
    for (long i = 0; i < 3; i++) {
        ENSURES("type test", c[i]->is<CoordR3>() == (k[i] == 0) && c[i]->is<CoordI3>() == (k[i] != 0) && c[i]->is<CoordConf>() == (k[i] == 2) && c[i]->is<CoordRel>() == (k[i] == 3) && c[i]->is<Coord>());
        if (k[i] == 0) { ENSURES("objects of a type in order", nr < r.size() && r(nr) == c[i]->castTo<CoordR3>()); nr++; }
        else { ENSURES("objects of a type and of those derived from it in order", nx < x.size() && x(nx) == c[i]->castTo<CoordI3>()); nx++; }
        if (k[i] == 1) { ENSURES("objects of exactly a type in order", no < o.size() && o(no) == c[i]->castTo<CoordI3>() && no < q.size() && q(no) == c[i]->castTo<CoordI3>()); no++; }
        if (k[i] == 2) { ENSURES("read only objects of a type in order", nf < f.size() && f(nf) == c[i]->castTo<CoordConf>()); nf++; }
    }
    ENSURES("no other objects", r.size() == nr && x.size() == nx && o.size() == no && q.size() == no && f.size() == nf);
    ENSURES("counted by type", g.sizeOf<CoordR3>() == nr && g.sizeOf<CoordI3>() == nx && g.sizeOf<CoordConf>() == nf && g.sizeOf<Coord>() == 3);
    ENSURES("none of a type", g.emptyOf<CoordR3>() == (nr == 0) && g.emptyOf<CoordI3>() == (nx == 0) && g.emptyOf<CoordConf>() == (nf == 0));
    SEMBA::Group::Group<CoordI3> y(g);
    ENSURES("conversion keeps the objects of the type", y.size() == nx && FORALL(i, 0, nx, { return y(i) == x(i); }));
}
VC_DRIVER_BOUNDED(lookup, "Identifiable::add, getId, existId, getIds", "three objects") {
    long a = someId("a"), b = someId("b"), c = someId("c"), q = someId("q");
    REQUIRES(a != b && b != c && a != c);
    G g;
    Coord *x = mk(a), *y = mk(b, 1), *z = mk(c, 2);
    g.add(x);
    g.add(y);
    g.add(z);
    const G& h = g;
    ENSURES("the added objects in order", g.size() == 3 && g(0) == x && g(1) == y && g(2) == z);
    ENSURES("found by identifier", g.getId(Id(a)) == x && g.getId(Id(b)) == y && h.getId(Id(c)) == z && h.getId(Id(a)) == x);
    bool has = q == a || q == b || q == c;
    ENSURES("exactly the present identifiers exist", g.existId(Id(q)) == has);
    bool thrown = false;
    const Coord* f = nullptr;
    try { f = g.getId(Id(q)); } catch (const SEMBA::Group::Error::Id::NotExists<Id>& e) { thrown = true; ENSURES("the error tells the identifier", e.getId() == Id(q)); }
    ENSURES("an absent identifier is an error", thrown == !has);
    ENSURES("the object with that identifier", !has || f->getId() == Id(q));
    bool cthrown = false;
    try { f = h.getId(Id(q)); } catch (const SEMBA::Group::Error::Id::NotExists<Id>&) { cthrown = true; }
    ENSURES("an absent identifier is an error in a read only group", cthrown == !has);
    std::vector<Id> ids = g.getIds();
    ENSURES("identifiers in order", ids.size() == 3 && ids[0] == Id(a) && ids[1] == Id(b) && ids[2] == Id(c));
    std::vector<Id> two;
    two.push_back(Id(q));
    two.push_back(Id(b));
    G s = g.getId(two);
    ENSURES("objects with any of the identifiers", s.size() == (size_t)(has && q != b ? 2 : 1) && s.existId(Id(b)) && s.existId(Id(q)) == has && s.getId(Id(b)) == y);
}
VC_DRIVER_BOUNDED(rejected, "Identifiable::add, postprocess_", "two objects") {
    long a = vc::integer("a", 0, 5), b = vc::integer("b", 0, 5);
    G g;
    Coord *x = mk(a), *y = mk(b);
    bool zero = false, dup = false;
    try {
        g.add(x);
        g.add(y);
    } catch (const SEMBA::Group::Error::Id::Zero<Id>&) { zero = true; }
    catch (const SEMBA::Group::Error::Id::Duplicated<Id>& e) { dup = true; ENSURES("the error tells the identifier", e.getId() == Id(a)); }
    ENSURES("objects without identifier are rejected", zero == (a == 0 || b == 0));
    ENSURES("repeated identifiers are rejected", dup == (a != 0 && a == b));
    bool z2 = false, d2 = false;
    std::vector<Coord*> v;
    v.push_back(mk(a));
    v.push_back(mk(b));
    try { G k(v); } catch (const SEMBA::Group::Error::Id::Zero<Id>&) { z2 = true; }
    catch (const SEMBA::Group::Error::Id::Duplicated<Id>&) { d2 = true; }
    ENSURES("at construction too", z2 == zero && d2 == dup);
}
VC_DRIVER_BOUNDED(numbering, "Identifiable::addId", "up to two numbered objects and up to two new ones") {
    long a = someId("a"), b = someId("b");
    REQUIRES(a != b);
    long n = vc::choice("n", 0, 2);
    G g;
    if (n > 0) g.add(mk(a));
    if (n > 1) g.add(mk(b));
    long top = n == 0 ? 0 : n == 1 || a > b ? a : b;
    Coord *x = mk(someId("x")), *y = mk(0, 1);
    if (vc::boolean("batch")) {
        std::vector<Coord*> v;
        v.push_back(x);
        v.push_back(y);
        Plain r = g.addId(v);
        ENSURES("gives back the new objects", r.size() == 2 && r(0) == x && r(1) == y);
    } else {
        g.addId(x);
        g.addId(y);
    }
    ENSURES("appended", g.size() == (size_t)(n + 2) && g(n) == x && g(n + 1) == y);
    ENSURES("numbered after all the present identifiers", x->getId().toInt() == (size_t)(top + 1) && y->getId().toInt() == (size_t)(top + 2));
    ENSURES("found by identifier", g.getId(x->getId()) == x && g.getId(y->getId()) == y);
    ENSURES("the others keep their identifiers", (n < 1 || g.getId(Id(a)) == g(0)) && (n < 2 || g.getId(Id(b)) == g(1)));
}
static void removed(bool several) {
    long a = someId("a"), b = someId("b"), c = someId("c");
    REQUIRES(a != b && b != c && a != c);
    long id[3] = {a, b, c};
    Coord* o[3];
    G g;
    for (long i = 0; i < 3; i++) { o[i] = mk(id[i], i); g.add(o[i]); }
    Plain all(g);
    bool out[3] = {false, false, false};
    long x = vc::choice("x", 0, 2), y = several ? vc::choice("y", 0, 2) : x, how = vc::choice("how", 0, 1) + (several ? 2 : 0);
    out[x] = true;
    if (how == 0) g.remove((size_t)x);
    if (how == 1) g.removeId(Id(id[x]));
    if (how == 2) { Where w; w.push_back(x); w.push_back(y); out[y] = true; g.remove(w); }
    if (how == 3) { std::vector<Id> w; w.push_back(Id(id[x])); w.push_back(Id(id[y])); out[y] = true; g.removeId(w); }
    size_t k = 0;
    for (long i = 0; i < 3; i++) {
        ENSURES("removed objects are not found, the others are", g.existId(Id(id[i])) == !out[i]);
        if (out[i]) continue;
        ENSURES("the others are kept in order", k < g.size() && g(k) == o[i]);
        ENSURES("and found by their identifiers", g.getId(Id(id[i])) == o[i]);
        k++;
    }
    ENSURES("nothing else is kept", g.size() == k);
    ENSURES("other groups keep the objects", all.size() == 3 && all(x) == o[x] && o[x]->getId() == Id(id[x]));
    g.add(o[x]);
    ENSURES("a removed object can be added again", g.size() == k + 1 && g.getId(Id(id[x])) == o[x] && counted(g, o[x]) == 1);
    Coord* e = mk(0);
    g.addId(e);
    ENSURES("new identifiers follow those present", g.getId(e->getId()) == e && counted(g, e) == 1 && FORALL(i, 0, k + 1, { return g(i)->getId() < e->getId(); }));
}
VC_DRIVER_BOUNDED(removal, "Identifiable::remove(position), removeId(id)", "three objects, one of them removed") { removed(false); }
VC_DRIVER_BOUNDED(removals, "Identifiable::remove(positions), removeId(ids)", "three objects, up to two of them removed") { removed(true); }
VC_DRIVER_BOUNDED(assigned, "Identifiable::operator=, copy, move, clear", "up to two objects on each side") {
    long a = someId("a"), b = someId("b"), c = someId("c");
    REQUIRES(a != b);
    G g, h;
    Coord *x = mk(a), *y = mk(b), *z = mk(c);
    g.add(x);
    g.add(y);
    h.add(z);
    Plain p(h);
    bool moved = vc::boolean("moved");
    if (moved) { G t(g); h = std::move(t); } else h = g;
    ENSURES("the same objects", h.size() == 2 && h(0) == x && h(1) == y && g.size() == 2 && g(0) == x && g(1) == y);
    ENSURES("found by their identifiers", h.getId(Id(a)) == x && h.getId(Id(b)) == y && g.getId(Id(a)) == x);
    ENSURES("those replaced are gone", h.existId(Id(c)) == (c == a || c == b));
    G k(g);
    h.removeId(Id(a));
    ENSURES("changing the copy leaves the source alone", g.size() == 2 && g.getId(Id(a)) == x && k.getId(Id(a)) == x && !h.existId(Id(a)));
    g.clear();
    ENSURES("cleared", g.size() == 0 && g.empty() && !g.existId(Id(a)) && !g.existId(Id(b)) && k.size() == 2);
    Coord* n = mk(0);
    g.addId(n);
    ENSURES("numbering restarts", n->getId().toInt() == 1 && g.getId(Id(1)) == n);
}
VC_DRIVER_BOUNDED(cloned, "Cloneable::cloneElems, clone", "up to two objects") {
    double x = vc::real("x"), y = vc::real("y");
    long a = someId("a"), b = someId("b"), n = vc::choice("n", 0, 2);
    REQUIRES(a != b);
    CoordR3Group g;
    CoordR3 *p = new CoordR3(Id(a), CVecR3(x, y, 1.0)), *q = new CoordR3(Id(b), CVecR3(y, 2.0, x));
    Plain keep;
    keep.add(p);
    keep.add(q);
    if (n > 0) g.add(p);
    if (n > 1) g.add(q);
    CoordR3Group* c = g.clone();
    ENSURES("as many objects", c->size() == g.size() && c->size() == (size_t)n);
    for (long i = 0; i < n; i++) {
        ENSURES("equal to the original", (*c)(i)->getId() == g(i)->getId() && (*c)(i)->pos()(0) == g(i)->pos()(0) && (*c)(i)->pos()(1) == g(i)->pos()(1) && (*c)(i)->pos()(2) == g(i)->pos()(2));
        ENSURES("found by identifier", c->getId(g(i)->getId()) == (*c)(i));
        ENSURES("other objects", (*c)(i) != g(i));
    }
    if (n > 0) {
        (*c)(0)->pos()(0) = y + 1;
        ENSURES("changing a clone leaves the original alone", p->pos()(0) == x && g(0) == p);
    }
    delete c;
    ENSURES("the original outlives the clone", g.size() == (size_t)n && (n < 1 || (g(0) == p && p->pos()(1) == y)));
}
