// Settings: trees of named members, lists and values
// VC-SOURCES: core/argument/Argument.cpp
#include "vc.h"
#include "argument/Object.h"
#include <climits>
#include <cstring>
#include <limits>
using namespace SEMBA;
using Argument::Object;
typedef Object::Type Type;

static bool text(const Object& o, const std::string& s) { return o.isString() && o.getString() == s; }
static Object text(const std::string& s) {
    Object o;
    o.setString(s);
    return o;
}
// three members with different names
static void three(Object& o, const std::string* n, const std::string* v) {
    for (size_t i = 0; i < 3; i++) o.addMember(n[i], text(v[i]));
}
static void names(std::string* n) {
    n[0] = vc::str("a");
    n[1] = vc::str("b");
    n[2] = vc::str("c");
    REQUIRES(!(n[0] == n[1]) && !(n[0] == n[2]) && !(n[1] == n[2]));
}
static void values(std::string* v) {
    v[0] = vc::str("u");
    v[1] = vc::str("v");
    v[2] = vc::str("w");
}

VC_OPT(members, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(members, "Object::operator()(name), Object::addMember, Object::existsName, Object::getName, Object::size", "up to three members; their names (equal or not) and values are arbitrary strings") {
    std::string a = vc::str("a"), b = vc::str("b"), c = vc::str("c"), u = vc::str("u"), v = vc::str("v"), w = vc::str("w");
    Object o;
    o(a).setString(u);
    ENSURES("a member that is set is read back", text(o(a), u) && o.existsName(a) && o.size() == 1 && o.getName(0) == a);
    o.addMember(b, text(v));
    ENSURES("a member that is added is read back", text(o(b), v) && text(o(a), a == b ? v : u));
    Object& r = o.addMember(c, Object());
    r(c).setString(w);
    const Object& k = o;
    size_t n = 1 + (b == a ? 0 : 1) + (c == a || c == b ? 0 : 1);
    ENSURES("a tree has one member per name", k.size() == n && k.isObject() && &r == &o);
    ENSURES("each name has its last value", text(k(c), w) && text(k(b), b == c ? w : v) && text(k(a), a == c ? w : a == b ? v : u));
    ENSURES("names are listed in the order they came", k.getName(0) == a && IMPLIES(!(a == b), k.getName(1) == b) && IMPLIES(n == 3, k.getName(2) == c));
    for (size_t i = 0; i < n; i++) ENSURES("the i-th member is the one with the i-th name", &k(i) == &k(k.getName(i)));
    std::string d = vc::str("d");
    bool known = d == a || d == b || d == c;
    ENSURES("only the names that were given exist", k.existsName(d) == known);
    if (!known) ENSURES("a name that was not given has no value", THROWS(k(d)));
    ENSURES("no member after the last", THROWS(k(n)));
    ENSURES("no name after the last", THROWS(k.getName(n)));
}

VC_OPT(erase, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(erase, "Object::eraseMember", "three members with arbitrary different names and values") {
    std::string n[3], v[3], e = vc::str("e");
    names(n);
    values(v);
    Object o;
    three(o, n, v);
    long i = vc::choice("i", 0, 2);
    size_t x = (i + 1) % 3, y = (i + 2) % 3;
    o.eraseMember(n[i]);
    const Object& k = o;
    ENSURES("an erased member is gone", !k.existsName(n[i]) && k.size() == 2);
    ENSURES("the other members stay", k.existsName(n[x]) && k.existsName(n[y]) && text(k(n[x]), v[x]) && text(k(n[y]), v[y]));
    ENSURES("the names stay with their members", k.getName(0) == n[i == 0 ? 1 : 0] && k.getName(1) == n[i == 2 ? 1 : 2] && &k(n[x]) != &k(n[y]));
    o.addMember(n[i], text(e));
    ENSURES("an erased name can be given again", text(k(n[i]), e) && k.size() == 3 && k.getName(2) == n[i] && text(k(n[x]), v[x]) && text(k(n[y]), v[y]));
    o.eraseMember(n[x]).eraseMember(n[y]);
    ENSURES("members can be erased in any order", k.size() == 1 && text(k(n[i]), e) && &k(0) == &k(n[i]));
    o.eraseMember(e);
    ENSURES("erasing a name that is not there does nothing", IMPLIES(!(e == n[i]), k.size() == 1 && text(k(n[i]), e)));
    Object s;
    s.setString(v[0]);
    s.eraseMember(e);
    ENSURES("a value has no members to erase", text(s, v[0]) && !s.existsName(e) && s.size() == 0);
}

VC_OPT(lists, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(lists, "Object::addValue, Object::eraseValue, Object::operator()(index), Object::size", "lists of up to four arbitrary values") {
    std::string v[3];
    values(v);
    Object o;
    for (size_t i = 0; i < 3; i++) o.addValue(text(v[i]));
    const Object& k = o;
    ENSURES("a list keeps the values in order", k.isArray() && k.size() == 3 && text(k(0), v[0]) && text(k(1), v[1]) && text(k(2), v[2]));
    ENSURES("nothing after the last value", THROWS(k(3)));
    ENSURES("a list has no names", !k.existsName(v[0]));
    long i = vc::choice("i", 0, 2);
    o.eraseValue(i);
    ENSURES("erasing a value leaves the others in order", k.size() == 2 && text(k(0), v[i == 0 ? 1 : 0]) && text(k(1), v[i == 2 ? 1 : 2]));
    o.addValue(k(1)).addValue(k);
    ENSURES("a value of the list can be added again", k.size() == 4 && text(k(2), v[i == 2 ? 1 : 2]) && k(3).isArray() && k(3).size() == 3 && text(k(3)(2), v[i == 2 ? 1 : 2]));
    ENSURES("adding does not change what was there", text(k(0), v[i == 0 ? 1 : 0]) && text(k(1), v[i == 2 ? 1 : 2]));
}

VC_OPT(merge, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(merge, "Object::operator+, Object::operator+=", "two trees of up to two members with arbitrary names and values, one level of nesting") {
    std::string n[3], v[3], w = vc::str("x");
    names(n);
    values(v);
    // left: {a: u, b: {a: v}}; right: {b: {p: w}, c: x} with any p
    Object l, r;
    std::string p = vc::str("p");
    l(n[0]).setString(v[0]);
    l(n[1])(n[0]).setString(v[1]);
    r(n[1])(p).setString(v[2]);
    r(n[2]).setString(w);
    const Object m = l + r;
    ENSURES("a merge has the members of both", m.isObject() && m.size() == 3 && text(m(n[0]), v[0]) && text(m(n[2]), w));
    ENSURES("members of both trees are merged in turn, the right one wins", m(n[1]).isObject() && m(n[1]).size() == (p == n[0] ? 1u : 2u) && text(m(n[1])(p), v[2]) && IMPLIES(!(p == n[0]), text(m(n[1])(n[0]), v[1])));
    ENSURES("a merge leaves its arguments alone", l.size() == 2 && text(l(n[0]), v[0]) && l(n[1]).size() == 1 && text(l(n[1])(n[0]), v[1]) && r.size() == 2 && r(n[1]).size() == 1 && text(r(n[1])(p), v[2]));
    l += r;
    ENSURES("merging in place is the same", l.size() == 3 && text(l(n[0]), v[0]) && text(l(n[2]), w) && l(n[1]).size() == m(n[1]).size() && text(l(n[1])(p), v[2]));
}

VC_OPT(mergeKinds, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(mergeKinds, "Object::operator+", "every pair of kinds of value; trees and lists of one element") {
    std::string a = vc::str("a"), u = vc::str("u"), v = vc::str("v");
    long i = vc::choice("left", 0, 3), j = vc::choice("right", 0, 3);
    Object l, r;
    if (i == 1) l(a).setString(u);
    if (i == 2) l.addValue(text(u));
    if (i == 3) l.setString(u);
    if (j == 1) r(a).setString(v);
    if (j == 2) r.addValue(text(v));
    if (j == 3) r.setString(v);
    const Object m = l + r;
    bool left = j == 0 || (i == 1 && j != 1);
    long k = left ? i : j;
    const std::string& s = left ? u : v;
    ENSURES("nothing merged with something is that thing", IMPLIES(i == 0 && j == 0, m.isNull()) && IMPLIES(k != 0, !m.isNull()));
    ENSURES("a tree wins over what is not one, else the right value wins", (k == 1) == m.isObject() && (k == 2) == m.isArray() && (k == 3) == m.isString() && m.size() == (k == 1 || k == 2 ? 1u : 0u) && IMPLIES(k == 1, text(m(a), s)) && IMPLIES(k == 2, text(m(0), s)) && IMPLIES(k == 3, text(m, s)));
}

VC_OPT(copies, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(copies, "Object::Object(const Object&), Object::operator=(const Object&)", "a tree with two members, one of them a tree, with arbitrary names and values") {
    std::string a = vc::str("a"), b = vc::str("b"), u = vc::str("u"), v = vc::str("v"), w = vc::str("w");
    REQUIRES(!(a == b));
    Object o;
    o(a).setString(u);
    o(b)(a).setString(v);
    Object c(o), d;
    d.setString(w);
    d = o;
    o(a).setString(w);
    o(b)(a).setString(w);
    o.eraseMember(b);
    const Object &k = c, &l = d;
    ENSURES("a copy keeps what was copied", k.isObject() && k.size() == 2 && text(k(a), u) && text(k(b)(a), v) && k.getName(1) == b);
    ENSURES("what was assigned keeps it too", l.isObject() && l.size() == 2 && text(l(a), u) && text(l(b)(a), v) && l.getGenericString().empty());
    c.eraseMember(a);
    ENSURES("a copy is changed on its own", k.size() == 1 && l.size() == 2 && text(o(a), w));
    d = l;
    ENSURES("assigning something to itself changes nothing", l.size() == 2 && text(l(a), u) && text(l(b)(a), v));
    d = l(b);
    ENSURES("a part can take the place of the whole", l.isObject() && l.size() == 1 && text(l(a), v) && l.getName(0) == a && IMPLIES(true, !l.existsName(b)));
    d.addMember(b, l(a));
    d.addMember(a, l);
    ENSURES("a part can be added to the whole", l.size() == 2 && text(l(b), v) && l(a).isObject() && l(a).size() == 2 && text(l(a)(a), v) && text(l(a)(b), v));
}

VC_OPT(moves, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(moves, "Object::Object(Object&&), Object::operator=(Object&&)", "a tree with two members, one of them a tree, with arbitrary names and values") {
    std::string a = vc::str("a"), b = vc::str("b"), u = vc::str("u"), v = vc::str("v"), w = vc::str("w");
    REQUIRES(!(a == b));
    Object o;
    o(a).setString(u);
    o(b)(a).setString(v);
    Object c(std::move(o)), d;
    ENSURES("a moved tree keeps its members", c.isObject() && c.size() == 2 && text(c(a), u) && text(c(b)(a), v));
    o = text(w);
    ENSURES("what was moved from can be used again", text(o, w) && o.size() == 0 && c.size() == 2);
    d = std::move(c);
    ENSURES("moving into another keeps the members", d.isObject() && d.size() == 2 && text(d(a), u) && text(d(b)(a), v));
    d = std::move(d(b));
    ENSURES("a part can be moved to take the place of the whole", d.isObject() && d.size() == 1 && text(d(a), v));
    o.addMember(b, std::move(d));
    ENSURES("a value that gets a member becomes a tree", o.isObject() && o.size() == 1 && o.getGenericString().empty() && text(o(b)(a), v));
}

VC_OPT(kinds, "libvec=SEMBA::Argument::Object,steps=9000000")
VC_DRIVER_BOUNDED(kinds, "Object::setType, Object::setObject, Object::setArray, Object::setNull, Object::setString, Object::setGenericString, Object::getString", "every pair of kinds; trees and lists of one element, values of up to two strings") {
    std::string a = vc::str("a"), u = vc::str("u"), v = vc::str("v");
    long i = vc::choice("from", 0, 3), j = vc::choice("to", 0, 4);
    Object o;
    if (i == 1) o(a).setString(u);
    if (i == 2) o.addValue(text(u));
    if (i == 3) o.setString(u);
    ENSURES("a value has one kind", o.isNull() == (i == 0) && o.isObject() == (i == 1) && o.isArray() == (i == 2) && o.isString() == (i == 3));
    std::list<std::string> g;
    g.push_back(u);
    g.push_back(v);
    Object* r = j == 0 ? &o.setNull() : j == 1 ? &o.setObject() : j == 2 ? &o.setArray() : j == 3 ? &o.setString(v) : &o.setGenericString(g);
    ENSURES("setting a kind sets it", r == &o && o.getType() == (j == 0 ? Type::Null : j == 1 ? Type::Dictionary : j == 2 ? Type::Array : Type::String));
    ENSURES("setting the kind it already has keeps the value", IMPLIES(i == j && (i == 1 || i == 2), o.size() == 1 && text(o(0), u)) && IMPLIES(i == 1 && j == 1, o.existsName(a)));
    ENSURES("setting another kind drops the value", IMPLIES(i != j, o.size() == 0 && !o.existsName(a)) && IMPLIES(j < 3, o.getGenericString().empty()));
    ENSURES("a string is given back", IMPLIES(j == 3, o.getString() == v && o.getGenericString().size() == 1 && o.getGenericString().front() == v));
    ENSURES("several strings are given back one by one", IMPLIES(j == 4, o.getGenericString().size() == 2 && o.getGenericString().front() == u && o.getGenericString().back() == v));
    if (j != 3 && j != 4) {
        ENSURES("what is not a value is not a number", THROWS(o.getReal()));
        ENSURES("what is not a value is not true or false", THROWS(o.getBool()));
        ENSURES("what is not a value is not a pair", THROWS((o.get<double, double>())));
        ENSURES("only values can be read as something", !o.isNumber() && !o.isBool() && !o.isInt());
    }
}

// what the characters of a value say, when they say a number
static double read_;
typedef std::list<std::string> Strings;
VC_STUB(read, "double SEMBA::Argument::StringParser::parse<double>(std::__cxx11::list<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > > > const&)")
double stub_read(const Strings&) { return read_; }

VC_OPT(integers, "libvec=SEMBA::Argument::Object,stubs=read")
VC_DRIVER(integers, "Object::getInt, Object::getReal") {
    Object o;
    o.setString(vc::str("text"));
    double x = read_ = vc::real("x");
    if (!VC_PROVING) o.setReal(x);
    ENSURES("a number is read", o.getReal() == x);
    double top = std::numeric_limits<int>::max();
    bool fits = -top <= x && x <= top;
    if (fits) {
        long i = o.getInt();
        ENSURES("a number is rounded down to an integer", i <= x && x < i + 1.0);
    } else {
        ENSURES("a number too large for an integer is refused", THROWS(o.getInt()));
    }
}

namespace {
// a tree of settings, kept apart from the code
struct Tree {
    char kind; // 0 nothing, 1 tree, 2 list, 3 text
    std::vector<std::pair<std::string, Tree> > members;
    std::string value;
    Tree() : kind(0) {}
    static Tree random(int depth) {
        Tree t;
        t.kind = (char)vc::integer("kind", 0, depth ? 3 : 1) ;
        if (!depth) t.kind = t.kind ? 3 : 0;
        if (t.kind == 1)
            for (const char* n : {"a", "b", "c"})
                if (vc::boolean(n)) t.members.push_back(std::make_pair(std::string(n), random(depth - 1)));
        if (t.kind == 2)
            for (long n = vc::integer("values", 0, 3); n > 0; n--) t.members.push_back(std::make_pair(std::string(), random(depth - 1)));
        if (t.kind == 3) t.value = std::to_string(vc::integer("value", 0, 99));
        return t;
    }
    const Tree* find(const std::string& n) const {
        for (const auto& m : members)
            if (m.first == n) return &m.second;
        return 0;
    }
    Object object() const {
        Object o;
        if (kind == 1) o.setObject();
        if (kind == 2) o.setArray();
        if (kind == 3) o.setString(value);
        for (const auto& m : members)
            if (kind == 1) o.addMember(m.first, m.second.object());
            else o.addValue(m.second.object());
        return o;
    }
    static Tree merged(const Tree& l, const Tree& r) {
        if (l.kind == 0) return r;
        if (r.kind == 0) return l;
        if (l.kind != 1) return r;
        if (r.kind != 1) return l;
        Tree t;
        t.kind = 1;
        for (const auto& m : l.members) t.members.push_back(std::make_pair(m.first, r.find(m.first) ? merged(m.second, *r.find(m.first)) : m.second));
        for (const auto& m : r.members)
            if (!l.find(m.first)) t.members.push_back(m);
        return t;
    }
    bool is(const Object& o) const {
        if (o.isNull() != (kind == 0) || o.isObject() != (kind == 1) || o.isArray() != (kind == 2) || o.isString() != (kind == 3)) return false;
        if (kind == 3) return o.getString() == value;
        if (o.size() != members.size()) return false;
        for (size_t i = 0; i < members.size(); i++) {
            if (kind == 1) {
                if (o.getName(i) != members[i].first || !members[i].second.is(o(members[i].first)) || o.existsName(members[i].first) != (members[i].second.kind != 0)) return false;
            }
            if (!members[i].second.is(o(i))) return false;
        }
        return true;
    }
};
}
VC_NATIVE(trees, "Object::operator+, Object::operator+=, Object::addMember, Object::addValue, Object::operator()", "500 random pairs of trees of up to three levels of trees, lists, texts and nothing") {
    for (long t = 0; t < 500; t++) {
        Tree a = Tree::random(3), b = Tree::random(3);
        Object l = a.object(), r = b.object();
        ENSURES("a tree has what was put into it", a.is(l) && b.is(r));
        Object m = l + r;
        ENSURES("a merge has the members of both, the right ones win, and trees are merged in turn", Tree::merged(a, b).is(m));
        ENSURES("a merge leaves its arguments alone", a.is(l) && b.is(r));
        l += r;
        ENSURES("merging in place is the same", Tree::merged(a, b).is(l));
    }
}

VC_NATIVE(numbers, "Object::setReal, Object::getReal, Object::setInt, Object::getInt, Object::setBool, Object::getBool, Object::is", "400 random numbers of all magnitudes") {
    for (long t = 0; t < 400; t++) {
        double x = vc::real_in("mantissa", -1, 1) * std::pow(10.0, (double)vc::integer("exponent", -300, 300));
        double y = t % 4 == 0 ? vc::integer("whole", -1000000, 1000000) : t % 4 == 1 ? 1.0 / vc::integer("divisor", 1, 1000) : x;
        Object o;
        o.setReal(y);
        ENSURES("a number that is set is read back, to the last digit", o.getReal() == y && o.isNumber() && o.isReal());
        ENSURES("copying does not change a number", Object(o).getReal() == y);
        int i = (int)vc::integer("i", -2147483647L, 2147483647L);
        Object p;
        p.setInt(i);
        ENSURES("an integer that is set is read back", p.getInt() == i && p.getReal() == i && p.isInt() && p.isNumber());
        bool b = vc::boolean("b");
        Object q;
        q.setBool(b);
        ENSURES("a truth value that is set is read back", q.getBool() == b && q.isBool());
        Object r;
        r.set(i, y, std::string("text"));
        std::tuple<int, double, std::string> d = r.get<int, double, std::string>();
        ENSURES("several values that are set are read back", std::get<0>(d) == i && std::get<1>(d) == y && std::get<2>(d) == "text");
        r.set(y, i);
        std::pair<double, int> e = r.get<double, int>();
        ENSURES("two values that are set are read back", e.first == y && e.second == i);
        std::vector<double> v;
        Strings s;
        for (long k = vc::integer("size", 1, 5); k > 0; k--) {
            v.push_back(vc::boolean("same") ? 1.0 : vc::integer("value", -20, 20));
            std::stringstream z;
            z << v.back();
            s.push_back(z.str());
        }
        Object w;
        w.setGenericString(s);
        ENSURES("a list of numbers is read back", w.get<std::vector<double>>() == v);
        ENSURES("a list is not one number", s.size() == 1 || THROWS(w.getReal()));
    }
}

VC_NATIVE(notNumbers, "Object::get, Object::is, StringParser::parse", "a table of texts") {
    const char* bad[] = {"", "x", "1x", "x1", "1 2", "--1", "1,2", "one"};
    for (const char* t : bad) {
        Object o;
        o.setString(t);
        ENSURES("a text that is not a number is not one", !o.isNumber() && !o.isInt() && o.isString() && o.getString() == t);
        ENSURES("a text that is not a number is not read as one", THROWS(o.getReal()));
        ENSURES("nor as an integer", THROWS(o.get<int>()));
    }
    const char* good[] = {"0", "-1", "+2", " 3", "4 ", "5.5", "-6e3", "7E-2", ".5"};
    double is[] = {0, -1, 2, 3, 4, 5.5, -6e3, 7e-2, .5};
    for (size_t i = 0; i < 9; i++) {
        Object o;
        o.setString(good[i]);
        ENSURES("a text that is a number is read", o.isNumber() && o.getReal() == is[i] && o.getInt() == std::floor(is[i]) && o.isInt() == (is[i] == std::floor(is[i]) && std::string(good[i]).find('e') == std::string::npos));
    }
    Object t;
    t.setBool(true);
    ENSURES("true and false are 1 and 0", t.getInt() == 1 && t.setFalse().getInt() == 0 && !t.getBool() && t.setTrue().getBool());
    Object p;
    p.setString("1 1");
    ENSURES("numbers in one text are read one by one", (p.get<int, int>() == std::make_pair(1, 1)));
}
