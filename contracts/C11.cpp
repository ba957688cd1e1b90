// Coordinate groups: positions are found, added once or repeatedly, numbered, removed and scaled; conversion of coordinates to and from grid cells
// VC-SOURCES: core/math/util/Real.cpp core/geometry/coordinate/Coordinate.cpp core/geometry/coordinate/Conformal.cpp core/geometry/coordinate/Relative.cpp
#include "vc.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/coordinate/Relative.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
using namespace SEMBA::Math;
typedef CoordId Id;
typedef std::vector<size_t> Where;
// positions that differ along one axis
static CVecR3 at(double x, long axis) { CVecR3 r(1.0, 2.0, 3.0); r(axis) = x; return r; }
static CVecI3 ati(long x, long axis) { CVecI3 r(1, 2, 3); r(axis) = (int)x; return r; }
static bool is(const CVecR3& a, const CVecR3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
static bool is(const CVecI3& a, const CVecI3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
static double pos(const char* n) { return VC_PROVING ? vc::real(n) : (double)vc::integer(n, 0, 3); }
static long ipos(const char* n) { return vc::integer(n, VC_PROVING ? -1000000 : 0, VC_PROVING ? 1000000 : 3); }
// equal or clearly different
static bool clear(double a, double b) { return a == b || std::fabs(a - b) > 1e-6 * (std::fabs(a) + std::fabs(b)) + 1e-6; }

VC_DRIVER_BOUNDED(real, "Coordinate::Group::add, getPos, addPos(real)", "three positions") {
    double x = pos("x"), y = pos("y"), q = pos("q");
    long d = 0;
    REQUIRES(clear(x, y) && clear(x, q) && clear(y, q));
    CoordR3Group g;
    const CoordR3Group& h = g;
    CoordR3 *a = new CoordR3(Id(7), at(x, d)), *b = new CoordR3(Id(3), at(y, d));
    g.add(a);
    ENSURES("found where it is, and nowhere else", h.getPos(at(q, d)) == (q == x ? a : nullptr));
    g.add(b);
    const CoordR3* f = h.getPos(at(q, d));
    ENSURES("found iff there is one", (f != nullptr) == (q == x || q == y));
    ENSURES("one at that position", !f || (f == a && q == x) || (f == b && q == y));
    ENSURES("cells are other positions", h.getPos(CVecI3(1, 2, 3)) == nullptr);
    bool over = vc::boolean("overlap");
    const CoordR3* n = g.addPos(at(q, d), over);
    ENSURES("a new coordinate only where there was none, unless it may overlap", g.size() == (size_t)(f && !over ? 2 : 3));
    ENSURES("the coordinate at the position", n != nullptr && is(n->pos(), at(q, d)) && (f && !over ? n == f : n != a && n != b && g(2) == n));
    ENSURES("new coordinates are numbered after the others", (f && !over) || n->getId() == Id(8));
    ENSURES("found by number and position", g.getId(n->getId()) == n && h.getPos(at(q, d)) != nullptr && is(h.getPos(at(q, d))->pos(), at(q, d)));
    ENSURES("the others are kept", g(0) == a && g(1) == b && a->getId() == Id(7) && b->getId() == Id(3) && is(a->pos(), at(x, d)) && is(b->pos(), at(y, d)));
}
VC_DRIVER_BOUNDED(integer, "Coordinate::Group::add, getPos, getAllInPos, addPos(integer)", "three positions") {
    long x = ipos("x"), y = ipos("y"), q = ipos("q"), d = 0;
    CoordI3Group g;
    const CoordI3Group& h = g;
    CoordI3 *a = new CoordI3(Id(7), ati(x, d)), *b = new CoordRel(Id(3), ati(y, d), CVecR3(0.25));
    g.add(a);
    ENSURES("found where it is, and nowhere else", h.getPos(ati(q, d)) == (q == x ? a : nullptr));
    g.add(b);
    const CoordI3* f = h.getPos(ati(q, d));
    ENSURES("found iff there is one", (f != nullptr) == (q == x || q == y));
    ENSURES("one at that position", !f || (f == a && q == x) || (f == b && q == y));
    SEMBA::Group::Group<const CoordI3> all = h.getAllInPos(ati(q, d));
    size_t k = (q == x ? 1 : 0) + (q == y ? 1 : 0);
    ENSURES("every coordinate at the position, and no other", all.size() == k && (k != 1 || all(0) == (q == x ? a : b)) && (k != 2 || (all(0) == a && all(1) == b) || (all(0) == b && all(1) == a)));
    bool over = vc::boolean("overlap");
    const CoordI3* n = g.addPos(ati(q, d), over);
    ENSURES("a new coordinate only where there was none, unless it may overlap", g.size() == (size_t)(f && !over ? 2 : 3));
    ENSURES("the coordinate at the position", n != nullptr && is(n->pos(), ati(q, d)) && (f && !over ? n == f : n != a && n != b && g(2) == n));
    ENSURES("new coordinates are numbered after the others", (f && !over) || n->getId() == Id(8));
    ENSURES("found by number and position", g.getId(n->getId()) == n && h.getAllInPos(ati(q, d)).size() == (f && !over ? k : k + 1));
    ENSURES("the others are kept", g(0) == a && g(1) == b && a->getId() == Id(7) && b->getId() == Id(3) && is(a->pos(), ati(x, d)) && is(b->pos(), ati(y, d)));
}
VC_DRIVER_BOUNDED(several, "Coordinate::Group::addPos(vector), Group(vector)", "two positions added to one") {
    double x = pos("x"), y = pos("y"), q = pos("q");
    REQUIRES(clear(x, y) && clear(x, q) && clear(y, q));
    std::vector<CVecR3> p;
    p.push_back(at(x, 0));
    p.push_back(at(y, 0));
    CoordR3Group fresh(p), g(new CoordR3(Id(5), at(q, 0)));
    ENSURES("one coordinate per position, numbered from one", fresh.size() == 2 && is(fresh(0)->pos(), at(x, 0)) && is(fresh(1)->pos(), at(y, 0)) && fresh(0)->getId() == Id(1) && fresh(1)->getId() == Id(2));
    ENSURES("found by position", fresh.getPos(at(y, 0)) != nullptr && is(fresh.getPos(at(y, 0))->pos(), at(y, 0)) && (fresh.getPos(at(q, 0)) != nullptr) == (q == x || q == y));
    SEMBA::Group::Group<CoordR3> added = g.addPos(p);
    size_t k = 0;
    if (x != q) { ENSURES("new positions are added and given back", k < added.size() && is(added(k)->pos(), at(x, 0)) && g(1 + k) == added(k) && added(k)->getId() == Id(6 + k)); k++; }
    if (y != q) { ENSURES("new positions are added and given back", k < added.size() && is(added(k)->pos(), at(y, 0)) && g(1 + k) == added(k) && added(k)->getId() == Id(6 + k)); k++; }
    ENSURES("positions already there are not", added.size() == k && g.size() == k + 1 && g(0)->getId() == Id(5));
    ENSURES("all found", g.getPos(at(x, 0)) != nullptr && g.getPos(at(y, 0)) != nullptr && g.getPos(at(q, 0)) != nullptr);
    std::vector<CVecI3> w;
    w.push_back(CVecI3(1, 2, 3));
    w.push_back(CVecI3(4, 5, 6));
    w.push_back(CVecI3(1, 2, 3));
    CoordI3Group i(w);
    ENSURES("cells", i.size() == 3 && is(i(0)->pos(), w[0]) && is(i(1)->pos(), w[1]) && is(i(2)->pos(), w[2]) && i(0)->getId() == Id(1) && i(2)->getId() == Id(3));
    ENSURES("overlapping cells", i.getAllInPos(w[0]).size() == 2 && i.getAllInPos(w[1]).size() == 1 && i.getAllInPos(CVecI3(1, 2, 4)).size() == 0);
}
VC_DRIVER_BOUNDED(axes, "Coordinate::Group::getPos, addPos", "one coordinate, positions that differ along any axis") {
    double x = pos("x"), q = pos("q");
    long i = ipos("i"), j = ipos("j"), d = vc::choice("axis", 0, 2);
    REQUIRES(clear(x, q));
    CoordR3Group g(new CoordR3(Id(1), at(x, d)));
    CoordI3Group h(new CoordI3(Id(1), ati(i, d)));
    ENSURES("found where it is, and nowhere else", (g.getPos(at(q, d)) == g(0)) == (q == x) && (h.getPos(ati(j, d)) == h(0)) == (i == j) && (h.getAllInPos(ati(j, d)).size() == 1) == (i == j));
    const CoordR3* r = g.addPos(at(q, d));
    const CoordI3* s = h.addPos(ati(j, d));
    ENSURES("added iff there was none", g.size() == (size_t)(q == x ? 1 : 2) && h.size() == (size_t)(i == j ? 1 : 2) && is(r->pos(), at(q, d)) && is(s->pos(), ati(j, d)));
}
VC_DRIVER_BOUNDED(removed, "Coordinate::Group::remove", "three coordinates") {
    double x = pos("x"), y = pos("y"), z = pos("z");
    REQUIRES(clear(x, y) && clear(x, z) && clear(y, z));
    double p[3] = {x, y, z};
    CoordR3* c[3];
    CoordR3Group g;
    for (long i = 0; i < 3; i++) { c[i] = new CoordR3(Id(3 - i), at(p[i], 1)); g.add(c[i]); }
    long r = vc::choice("r", 0, 2);
    if (r == 1) { Where w; w.push_back(r); g.remove(w); } else g.remove((size_t)r);
    long a = r == 0 ? 1 : 0, b = r == 2 ? 1 : 2;
    ENSURES("the others remain", g.size() == 2 && g(0) == c[a] && g(1) == c[b]);
    const CoordR3 *f = g.getPos(at(p[a], 1)), *h = g.getPos(at(p[b], 1)), *n = g.getPos(at(p[r], 1));
    ENSURES("the removed one is not found any more", !g.existId(Id(3 - r)) && (n != nullptr) == (p[r] == p[a] || p[r] == p[b]) && (!n || n == c[a] || n == c[b]));
    ENSURES("the others are found, even at the position of the removed one", (f == c[a] || (f == c[b] && p[a] == p[b])) && (h == c[b] || (h == c[a] && p[a] == p[b])));
}
VC_DRIVER_BOUNDED(assigned, "Coordinate::Group::operator=, Group(Group), clear", "two coordinates") {
    double x = pos("x"), y = pos("y"), z = pos("z");
    REQUIRES(clear(x, y) && clear(x, z) && clear(y, z));
    CoordR3Group g;
    CoordR3 *a = new CoordR3(Id(2), at(x, 1)), *b = new CoordR3(Id(1), at(y, 1));
    g.add(a);
    g.add(b);
    CoordR3Group k(g), e(new CoordR3(Id(9), at(z, 1)));
    if (vc::boolean("moved")) { CoordR3Group t(g); e = std::move(t); } else e = g;
    const CoordR3* f = e.getPos(at(z, 1));
    ENSURES("positions replaced by assignment", e.size() == 2 && (f != nullptr) == (z == x || z == y) && (!f || f == a || f == b) && !e.existId(Id(9)));
    ENSURES("copies find the same coordinates", k.size() == 2 && (k.getPos(at(x, 1)) == a || x == y) && (e.getPos(at(y, 1)) == b || x == y));
    g.remove((size_t)0);
    ENSURES("removal from one group does not change the others", g.size() == 1 && (g.getPos(at(x, 1)) != nullptr) == (x == y) && (k.getPos(at(x, 1)) == a || x == y) && e.getId(Id(2)) == a);
    g.clear();
    ENSURES("nothing is found in an empty group", g.size() == 0 && g.getPos(at(x, 1)) == nullptr && g.getPos(at(y, 1)) == nullptr && e.getPos(at(x, 1)) != nullptr);
}
VC_DRIVER_BOUNDED(iremoved, "Coordinate::Group::remove(integer)", "three coordinates") {
    long p[3];
    CoordI3* c[3];
    CoordI3Group g;
    for (long i = 0; i < 3; i++) { p[i] = ipos("p"); c[i] = new CoordI3(Id(3 - i), ati(p[i], 1)); g.add(c[i]); }
    long r = vc::choice("r", 0, 2);
    if (r == 1) { Where w; w.push_back(r); g.remove(w); } else g.remove((size_t)r);
    long a = r == 0 ? 1 : 0, b = r == 2 ? 1 : 2;
    ENSURES("the others remain", g.size() == 2 && g(0) == c[a] && g(1) == c[b]);
    const CoordI3 *f = g.getPos(ati(p[a], 1)), *h = g.getPos(ati(p[b], 1)), *n = g.getPos(ati(p[r], 1));
    ENSURES("the removed one is not found any more", !g.existId(Id(3 - r)) && (n != nullptr) == (p[r] == p[a] || p[r] == p[b]) && (!n || n == c[a] || n == c[b]));
    ENSURES("the others are found, even at the position of the removed one", (f == c[a] || (f == c[b] && p[a] == p[b])) && (h == c[b] || (h == c[a] && p[a] == p[b])));
}
VC_DRIVER_BOUNDED(iassigned, "Coordinate::Group::operator=, Group(Group), clear (integer)", "two coordinates") {
    long x = ipos("x"), y = ipos("y"), z = ipos("z");
    CoordI3Group g;
    CoordI3 *a = new CoordI3(Id(2), ati(x, 1)), *b = new CoordI3(Id(1), ati(y, 1));
    g.add(a);
    g.add(b);
    CoordI3Group k(g), e(new CoordI3(Id(9), ati(z, 1)));
    if (vc::boolean("moved")) { CoordI3Group t(g); e = std::move(t); } else e = g;
    const CoordI3* f = e.getPos(ati(z, 1));
    ENSURES("positions replaced by assignment", e.size() == 2 && (f != nullptr) == (z == x || z == y) && (!f || f == a || f == b) && !e.existId(Id(9)));
    ENSURES("copies find the same coordinates", k.size() == 2 && (k.getPos(ati(x, 1)) == a || x == y) && (e.getPos(ati(y, 1)) == b || x == y));
    g.remove((size_t)0);
    ENSURES("removal from one group does not change the others", g.size() == 1 && (g.getPos(ati(x, 1)) != nullptr) == (x == y) && (k.getPos(ati(x, 1)) == a || x == y) && e.getId(Id(2)) == a);
    g.clear();
    ENSURES("nothing is found in an empty group", g.size() == 0 && g.getPos(ati(x, 1)) == nullptr && g.getPos(ati(y, 1)) == nullptr && e.getPos(ati(x, 1)) != nullptr);
    const CoordI3* n = g.addPos(ati(z, 1));
    ENSURES("emptied groups start again", g.size() == 1 && n == g(0) && n->getId() == Id(1) && g.getPos(ati(z, 1)) == n);
}
VC_DRIVER_BOUNDED(mixed, "Coordinate::Group of both kinds: add, getPos, addPos, remove, applyScalingFactor, clear", "two real and one integer coordinates") {
    double x = pos("x"), y = pos("y"), f = VC_PROVING ? vc::real("f") : (double)vc::integer("f", -3, 3);
    long i = ipos("i"), j = ipos("j");
    REQUIRES(clear(x, y) && clear(x * f, y * f) && clear(f, 2 * f) && clear(x, x * f) && clear(y, y * f));
    Coordinate::Group<> g;
    CoordR3 *a = new CoordR3(Id(1), at(x, 1)), *b = new CoordR3(Id(3), at(y, 1));
    CoordI3* c = new CoordI3(Id(2), ati(i, 1));
    g.add(a);
    g.add(c);
    g.add(b);
    ENSURES("each kind is found among its own", g.getPos(ati(i, 1)) == c && (g.getPos(ati(j, 1)) == c) == (i == j) && (g.getPos(at(x, 1)) == a || x == y) && (g.getPos(at(y, 1)) == b || x == y));
    g.applyScalingFactor(f);
    ENSURES("real coordinates are multiplied", vc::eq(a->pos()(1), x * f) && vc::eq(b->pos()(1), y * f) && g.getPos(a->pos()) != nullptr && g.getPos(b->pos()) != nullptr);
    ENSURES("cells are not", is(c->pos(), ati(i, 1)) && g.getPos(ati(i, 1)) == c);
    Where w;
    w.push_back(1);
    w.push_back(0);
    g.remove(w);
    ENSURES("both kinds are removed", g.size() == 1 && g.getPos(ati(i, 1)) == nullptr && g.getPos(b->pos()) == b && !g.existId(Id(2)));
    g.clear();
    ENSURES("nothing is left", g.size() == 0 && g.getPos(ati(i, 1)) == nullptr && g.getPos(at(y * f, 1)) == nullptr);
}
VC_DRIVER_BOUNDED(scaled, "Coordinate::Group::applyScalingFactor", "two coordinates, any factor") {
    double x = pos("x"), y = pos("y"), f = VC_PROVING ? vc::real("f") : (double)vc::integer("f", -3, 3);
    REQUIRES(clear(x, y) && clear(x * f, y * f) && clear(f, 2 * f));
    CoordR3Group g;
    CoordR3 *a = new CoordR3(Id(1), CVecR3(x, y, 1.0)), *b = new CoordR3(Id(2), CVecR3(y, x, 2.0));
    g.add(a);
    g.add(b);
    g.applyScalingFactor(f);
    ENSURES("every coordinate is multiplied", vc::eq(a->pos()(0), x * f) && vc::eq(a->pos()(1), y * f) && vc::eq(a->pos()(2), f) && vc::eq(b->pos()(0), y * f) && vc::eq(b->pos()(1), x * f) && vc::eq(b->pos()(2), 2 * f));
    ENSURES("same coordinates", g.size() == 2 && g(0) == a && g(1) == b && a->getId() == Id(1) && b->getId() == Id(2));
    ENSURES("found at their new positions", g.getPos(a->pos()) != nullptr && g.getPos(b->pos()) != nullptr);
}
VC_DRIVER(equality, "Coordinate::operator==, Conformal::operator==, Relative::operator==, copies, operator=") {
    long i = vc::integer("i", 0, 3), j = vc::integer("j", 0, 3), x = vc::integer("x", -5, 5), y = vc::integer("y", -5, 5);
    double l = vc::real_in("l", 0, 1), m = vc::real_in("m", 0, 1);
    Constants::CartesianAxis p = (Constants::CartesianAxis)vc::choice("p", 0, 2), q = (Constants::CartesianAxis)vc::choice("q", 0, 2);
    REQUIRES(clear(l, m));
    CoordI3 a(Id(i), CVecI3(x, 1, 2)), b(Id(j), CVecI3(y, 1, 2)), aa(a);
    CoordConf c(Id(i), CVecI3(x, 1, 2), p, l), d(Id(j), CVecI3(y, 1, 2), q, m), cc(c);
    CoordRel e(Id(i), CVecI3(x, 1, 2), CVecR3(l, 0.25, 0.5)), f(Id(j), CVecI3(y, 1, 2), CVecR3(m, 0.25, 0.5)), ee(e);
    CoordR3 r(Id(i), CVecR3(1.0, 1.0, 2.0));
    bool same = i == j && x == y;
    ENSURES("cells are equal iff number and position are", (a == b) == same && (a != b) == !same && a == aa && !(a != aa));
    ENSURES("conformal coordinates are equal iff direction and length are too", (c == d) == (same && p == q && l == m) && (c != d) == !(same && p == q && l == m) && c == cc);
    ENSURES("relative coordinates are equal iff the displacement is too", (e == f) == (same && l == m) && (e != f) == !(same && l == m) && e == ee);
    const Coord &ba = a, &bc = c, &be = e, &br = r;
    ENSURES("coordinates of different types are different", !(ba == bc) && !(bc == ba) && !(bc == be) && !(ba == br) && !(br == ba) && ba != be && be != ba);
    b = a;
    d = c;
    f = e;
    ENSURES("assigned coordinates are equal", b == a && d == c && f == e && b.getId() == Id(i) && d.getLength() == l && d.getDir() == p && f.rel()(0) == l && is(f.pos(), CVecI3(x, 1, 2)));
}
