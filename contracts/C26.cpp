// Command lines: what the arguments of a program mean
// VC-SOURCES: core/argument/Argument.cpp core/argument/Formatter.cpp core/argument/Group.cpp core/argument/GroupBase.cpp core/argument/MultiSwitch.cpp core/argument/MutuallyExclusiveGroup.cpp core/argument/OptionBase.cpp core/argument/Parser.cpp core/argument/Switch.cpp core/argument/ValueMulti.cpp core/argument/ValueSingle.cpp
// VC-ONLY: native
#include "vc.h"
#include "argument/Parser.h"
#include <iostream>
#include <set>
#include <sstream>
using namespace SEMBA::Argument;
typedef std::vector<std::string> Args;
typedef std::pair<Object, Args> Known;

namespace Wrong = SEMBA::Argument::Error;
namespace {
// what the parser prints is kept out of the report
struct Quiet {
    std::ostringstream out;
    std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(out.rdbuf())) {}
    ~Quiet() {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};
Object parse(Parser& p, const Args& a) {
    Quiet q;
    return p.parse(a);
}
Known known(Parser& p, const Args& a) {
    Quiet q;
    return p.parseKnownArgs(a);
}
std::string show(long k) {
    std::stringstream s;
    s << k;
    return s.str();
}
template<class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[vc::integer("order", 0, (long)i - 1)]);
}
bool number(const Object& o, const std::string& n, long k) { return o.existsName(n) && o(n).isInt() && o(n).getInt() == k; }
bool flag(const Object& o, const std::string& n, bool b) { return o.existsName(n) && o(n).isBool() && o(n).getBool() == b; }
bool text(const Object& o, const std::string& n, const std::string& s) { return o.existsName(n) && o(n).getString() == s; }

// one way of writing an option on the command line
Args given(char s, const std::string& l, const std::string& shortest, const std::string* value) {
    long way = vc::integer("way", 0, 2);
    Args r;
    if (way == 0 && s != ' ') r.push_back(std::string("-") + s);
    else {
        size_t n = (size_t)vc::integer("abbreviation", (long)shortest.size(), (long)l.size());
        r.push_back("--" + l.substr(0, n));
    }
    if (value) {
        long how = vc::integer("how", 0, 2);
        if (r[0][1] == '-' && (how == 0 || *value == "--")) r[0] += "=" + *value;
        else if (how == 1 && r[0][1] != '-') r[0] += *value;
        else r.push_back(*value);
    }
    return r;
}
void add(Args& a, const Args& b) { a.insert(a.end(), b.begin(), b.end()); }

// flag -h/--help (false), number -n/--num, number --number (7), text --name, count -v/--verbose, numbers -m/--many, positions in and out ("none")
void options(Parser& p) {
    p.addOption((new Switch("Help", 'h', "help"))->defaultVal(false));
    p.addOption(new Option<int>("num", 'n', "num"));
    p.addOption(new Option<int>("number")).defaultVal({"7"});
    p.addOption(new Option<std::string>("name"));
    p.addOption((new MultiSwitch("v", 'v', "verbose"))->defaultVal(0));
    p.addOption(new MultiOption<int>("many", 'm', "many"));
    p.addPosition(new Position<std::string>("in"));
    p.addPosition(new Position<std::string>("out")).defaultVal({"none"});
}
struct Choice {
    bool help, num, number, name, many, out, early, bars;
    long n, k, v;
    std::vector<long> m;
    std::string text, in, to;
    Args args;
    Choice() {
        help = vc::boolean("help");
        num = vc::boolean("num");
        number = vc::boolean("number");
        name = vc::boolean("name");
        many = vc::boolean("many");
        out = vc::boolean("out");
        early = vc::boolean("early");
        n = vc::integer("n", 0, 99);
        k = vc::integer("k", 0, 99);
        v = vc::integer("v", 0, 3);
        for (long i = many ? vc::integer("how many", 1, 3) : 0; i > 0; i--) m.push_back(vc::integer("m", 0, 99));
        const char* texts[] = {"a=b", "=", "with blank", "-5", "p-q", "--", "it's \"so\""};
        long which = vc::integer("kind of text", 0, 9);
        text = which < 7 ? texts[which] : "text" + show(n);
        const char* ins[] = {"x=y", "in put", "../in"};
        which = vc::integer("kind of name", 0, 5);
        in = which < 3 ? ins[which] : "in" + show(k);
        to = "out" + show(n);
        std::vector<Args> o;
        std::string sn = show(n), sk = show(k);
        if (help) o.push_back(given('h', "help", "he", 0));
        if (num) o.push_back(given('n', "num", "num", &sn));
        if (number) o.push_back(given(' ', "number", "numb", &sk));
        if (name) o.push_back(given(' ', "name", "na", &text));
        for (long i = 0; i < v; i++) o.push_back(given('v', "verbose", "ve", 0));
        for (long x : m) {
            std::string sx = show(x);
            o.push_back(given('m', "many", "ma", &sx));
        }
        shuffle(o);
        std::vector<long> order;
        args.push_back("/some/where/program");
        Args where;
        where.push_back(in);
        if (out) where.push_back(to);
        if (early) add(args, where);
        size_t last = args.size();
        for (size_t i = 0; i < o.size(); i++) {
            // one-letter options can be written together
            bool flagLike = o[i].size() == 1 && o[i][0].size() == 2;
            bool before = args.size() > last && args.back().size() >= 2 && args.back()[0] == '-' && args.back()[1] != '-' && args.back().find_first_of("0123456789") == std::string::npos && args.back().find_first_of("nm") == std::string::npos;
            if (flagLike && before && vc::boolean("together")) args.back() += o[i][0].substr(1);
            else add(args, o[i]);
        }
        // values that no option takes are positions, with or without --
        if (!early) {
            bars = o.empty() || vc::boolean("bars");
            if (bars) args.push_back("--");
            add(args, where);
        }
        // the many values keep the order of the line
        m.clear();
        for (const Args& x : o)
            if (x[0].substr(0, 2) == "-m" || x[0].substr(0, 4) == "--ma") {
                std::string s = x.size() > 1 ? x[1] : x[0][1] == '-' ? x[0].substr(x[0].find('=') + 1) : x[0].substr(2);
                m.push_back(std::atol(s.c_str()));
            }
    }
    bool matches(const Object& o) const {
        if (!flag(o, "Help", help)) return false;
        if (num ? !number_(o, "num", n) : o.existsName("num")) return false;
        if (!number_(o, "number", number ? k : 7)) return false;
        if (name ? !::text(o, "name", text) : o.existsName("name")) return false;
        if (!number_(o, "v", v)) return false;
        if (many != o.existsName("many")) return false;
        if (many) {
            if (!o("many").isArray() || o("many").size() != m.size()) return false;
            for (size_t i = 0; i < m.size(); i++)
                if (o("many")(i).getInt() != m[i]) return false;
        }
        return ::text(o, "in", in) && ::text(o, "out", out ? to : "none");
    }
    static bool number_(const Object& o, const std::string& n, long k) { return ::number(o, n, k); }
};
}

#define PARSER "Parser::parse, Parser::parseKnownArgs, Parser::parse_, Group::parseOption, Group::parsePosition, Group::parsePostprocess, GroupBase::possibleOptions"

VC_NATIVE(lines, PARSER, "1500 random command lines over six options and two positions, every way of writing them") {
    for (long t = 0; t < 1500; t++) {
        Choice c;
        Parser p;
        options(p);
        Object o = parse(p, c.args);
        ENSURES("a command line means what was asked for, however it is written", c.matches(o));
        ENSURES("the program is known by its own name", p.getProg() == "program");
        Known k = known(p, c.args);
        ENSURES("reading it again gives the same", c.matches(k.first) && k.second.size() == 1 && k.second[0] == "program");
        Choice d;
        ENSURES("a line is read on its own, whatever was read before", d.matches(parse(p, d.args)));
        std::vector<const char*> a;
        for (const std::string& s : c.args) a.push_back(s.c_str());
        Quiet q;
        ENSURES("the arguments of main are read in the same way", c.matches(p.parse((int)a.size(), a.data())));
    }
}

VC_NATIVE(unknown, PARSER, "500 random command lines with options and values nobody takes") {
    for (long t = 0; t < 500; t++) {
        Choice c;
        Parser p;
        options(p);
        Args a = c.args;
        bool opt = vc::boolean("option"), extra = c.out && vc::boolean("value");
        if (!opt && !extra) continue;
        if (extra) {
            if (std::find(a.begin(), a.end(), "--") == a.end()) a.push_back("--");
            if (!c.early) a.push_back("extra");
            else a.push_back("extra");
        }
        if (opt) {
            Args::iterator at = std::find(a.begin(), a.end(), "--");
            a.insert(at, vc::boolean("long") ? "--strange" : "-z");
        }
        // positions of a line that ends with an unknown option would be its values
        if (opt && !extra && !c.early && std::find(a.begin(), a.end(), "--") == a.end()) continue;
        ENSURES("a line with something unknown is refused", THROWS(parse(p, a)));
        Known k = known(p, a);
        ENSURES("the rest of the line means the same", c.matches(k.first));
        Args want;
        want.push_back("program");
        if (opt) want.push_back(a[std::find_if(a.begin(), a.end(), [](const std::string& s) { return s == "-z" || s == "--strange"; }) - a.begin()]);
        if (extra) {
            want.push_back("--");
            want.push_back("extra");
        }
        ENSURES("what is unknown is given back", k.second == want);
    }
    Parser none;
    none.addOption(new Switch("flag"));
    ENSURES("values are refused where none is expected", THROWS(parse(none, {"p", "value"})) && THROWS(parse(none, {"p", "value", "--flag"})) && known(none, {"p", "value", "--flag"}).second == Args({"p", "--", "value"}));
}

template<class E> static bool refuses(Parser& p, const Args& a) {
    try {
        parse(p, a);
    } catch (const E& e) {
        return std::string(e.what()).size() > 0;
    } catch (...) {
    }
    return false;
}

VC_NATIVE(refused, PARSER ", ValueSingle::parse, Value::parseSingle, Value::notParsed, Switch::parse, Switch::notParsed", "a table of command lines that have to be refused") {
    Parser p;
    options(p);
    ENSURES("a missing position is an error", refuses<Wrong::Required>(p, {"p", "-h"}));
    ENSURES("a line without arguments is an error", refuses<Wrong::Empty>(p, {"p"}));
    ENSURES("an option that takes one value is given once", refuses<Wrong::Multiple>(p, {"p", "in", "-n1", "--num=2"}) && refuses<Wrong::Multiple>(p, {"p", "in", "-h", "--help"}));
    ENSURES("an abbreviation of two options is an error", refuses<Wrong::Ambiguous>(p, {"p", "in", "--nu=1"}));
    ENSURES("a whole name is no abbreviation", number(parse(p, {"p", "in", "--num=3"}), "num", 3));
    ENSURES("what is not a number is refused", THROWS(parse(p, {"p", "in", "--num=x"})) && THROWS(parse(p, {"p", "in", "-n"})) && THROWS(parse(p, {"p", "in", "--many"})));
    p.allowAbbrev(false);
    ENSURES("abbreviations can be switched off", refuses<Wrong::Unknown>(p, {"p", "in", "--numb=1"}) && number(parse(p, {"p", "in", "--number=1"}), "number", 1));
    Parser q;
    q.addOption(new Option<std::string>("mode")).required();
    q.addOption(new Option<std::string>("color")).choices({{"red"}, {"green"}})->defaultVal({"red"});
    q.addOption(new Option<int, int>("size")).choices({{"1", "*"}, {"2", "2"}});
    q.addOption((new Switch("on"))->defaultVal(true));
    ENSURES("a missing required option is an error", refuses<Wrong::Required>(q, {"p", "--on"}));
    Object o = parse(q, {"p", "--mode=x", "--color", "green", "--size", "1", "5", "--on"});
    ENSURES("a choice is accepted", text(o, "mode", "x") && text(o, "color", "green") && (o("size").get<int, int>() == std::make_pair(1, 5)));
    ENSURES("a switch that is on by default is switched off", flag(o, "on", false) && flag(parse(q, {"p", "--mode=x"}), "on", true));
    ENSURES("a default is taken", text(parse(q, {"p", "--mode=x"}), "color", "red"));
    ENSURES("what is not a choice is refused", refuses<Wrong::NotChoices>(q, {"p", "--mode=x", "--color=blue"}) && refuses<Wrong::NotChoices>(q, {"p", "--mode=x", "--size", "2", "3"}));
    ENSURES("what was refused leaves no trace", refuses<Wrong::Required>(q, {"p", "--on"}) && text(parse(q, {"p", "--mode=y"}), "mode", "y"));
}

VC_NATIVE(groups, "Group::addGroup, Group::addMutuallyExclusiveGroup, Group::parsePreprocess, Group::parseOption, Group::parsePosition, GroupBase::parsePostprocess", "300 random command lines over nested and exclusive groups") {
    for (long t = 0; t < 300; t++) {
        Parser p;
        SEMBA::Argument::Group& g = p.addGroup("solver");
        g.addOption(new Option<int>("steps", 's', "steps")).defaultVal({"10"});
        SEMBA::Argument::Group& h = g.addGroup("mesh");
        h.addOption(new Option<int>("steps", "meshsteps")).defaultVal({"20"});
        h.addPosition(new Position<std::string>("file"));
        MEGroup& e = g.addMutuallyExclusiveGroup();
        e.addOption(new Switch("fast", 'f', "fast"));
        e.addOption(new Switch("slow", "slow"));
        e.addOption(new Option<int>("rate", 'r', "rate"));
        bool must = vc::boolean("must");
        if (must) e.required();
        p.addPosition(new Position<std::string>("last"));
        bool s = vc::boolean("steps"), m = vc::boolean("mesh steps"), fast = vc::boolean("fast"), slow = vc::boolean("slow"), rate = vc::boolean("rate");
        Args a = {"p", "mesh.dat", "end"};
        std::vector<Args> o;
        if (s) o.push_back({"-s3"});
        if (m) o.push_back({"--meshsteps=4"});
        if (fast) o.push_back({"--fast"});
        if (slow) o.push_back({"--slow"});
        if (rate) o.push_back({"-r", "5"});
        shuffle(o);
        for (const Args& x : o) add(a, x);
        int n = fast + slow + rate;
        if (n > 1) {
            ENSURES("only one of the exclusive arguments is accepted", refuses<Wrong::Group::Excluded>(p, a));
            continue;
        }
        if (n == 0 && must) {
            ENSURES("one of the exclusive arguments can be required", refuses<Wrong::Group::Required>(p, a));
            continue;
        }
        Object r = parse(p, a);
        ENSURES("the arguments of a group are found under its name", r("solver").isObject() && number(r("solver"), "steps", s ? 3 : 10) && number(r("solver")("mesh"), "steps", m ? 4 : 20) && text(r("solver")("mesh"), "file", "mesh.dat") && text(r, "last", "end"));
        ENSURES("exclusive arguments are found in the group around them", r("solver").existsName("fast") == fast && r("solver").existsName("slow") == slow && r("solver").existsName("rate") == rate && IMPLIES(rate, number(r("solver"), "rate", 5)));
        ENSURES("a group has nothing else", r.size() == 2 && r("solver").size() == 2u + n && r("solver")("mesh").size() == 2);
    }
}

VC_NATIVE(positions, "Parser::parse_, Group::childPosition, Group::numChildPositions, Group::addPositionProcess, Group::parsePosition, GroupBase::parsePosition", "300 random orders of up to six positions of the parser, a group and a group within it") {
    for (long t = 0; t < 300; t++) {
        Parser p;
        SEMBA::Argument::Group& g = p.addGroup("outer");
        SEMBA::Argument::Group& h = g.addGroup("inner");
        GroupBase* where[3] = {&p, &g, &h};
        long n = vc::integer("positions", 1, 6);
        std::vector<int> at;
        for (long i = 0; i < n; i++) {
            at.push_back((int)vc::integer("group", 0, 2));
            where[at[i]]->addPosition(new Position<int>("pos" + show(i)));
        }
        ENSURES("positions are counted with those of the groups", p.numChildPositions() == (size_t)n);
        for (long i = 0; i < n; i++) ENSURES("positions are found in the order they were declared", p.childPosition(i).getName() == "pos" + show(i));
        Args a = {"p"};
        for (long i = 0; i < n; i++) a.push_back(show(10 + i));
        Object o = parse(p, a);
        for (long i = 0; i < n; i++) {
            const Object& in = at[i] == 0 ? o : at[i] == 1 ? o("outer") : o("outer")("inner");
            ENSURES("each position takes the value in its place", number(in, "pos" + show(i), 10 + i));
        }
        long bad = vc::integer("wrong", 0, n - 1);
        a[1 + bad] = "wrong";
        Quiet q;
        bool threw = false;
        try { p.parse(a); } catch (const std::exception&) { threw = true; }
        ENSURES("a wrong value is refused, naming the position it was for", threw && q.out.str().find(": Argument " + p.childPosition(bad).getArgName()) != std::string::npos && p.childPosition(bad).getArgName().find("pos" + show(bad)) != std::string::npos);
    }
}

VC_NATIVE(repeated, "GroupBase::addOption, GroupBase::addPosition, GroupBase::addOptionProcess, GroupBase::addPositionProcess", "every way of giving the same name twice, in the parser and in groups") {
    for (int where = 0; where < 3; where++)
        for (int i = 0; i < 6; i++) {
            Parser p;
            SEMBA::Argument::Group& g = p.addGroup("group");
            MEGroup& e = p.addMutuallyExclusiveGroup();
            p.addOption(new Option<int>("first", 'a', "alpha"));
            p.addPosition(new Position<std::string>("file")).defaultVal({"none"});
            GroupBase& b = where == 0 ? (GroupBase&)p : where == 1 ? (GroupBase&)g : (GroupBase&)e;
            bool error = false;
            try {
                switch (i) {
                case 0: b.addOption(new Switch("second", 'a', "beta")); break;
                case 1: b.addOption(new Switch("second", 'b', "alpha")); break;
                case 2: b.addOption(new Switch("first", 'b', "beta")); break;
                case 3: b.addPosition(new Position<int>("file")); break;
                case 4: b.addPosition(new Position<int>("first")); break;
                default: b.addOption(new Switch("file", 'b', "beta"));
                }
            } catch (const Wrong::Group::Repeated& r) {
                error = std::string(r.what()).size() > 0;
            }
            // names belong to their group; letters and long names belong to the whole line
            ENSURES("a name is given once", error == (i < 2 || where != 1));
            if (!error) continue;
            Object o = parse(p, {"p", "value", "-a1"});
            ENSURES("a refused argument leaves the others as they were", number(o, "first", 1) && text(o, "file", "value") && number(parse(p, {"p", "--alpha=2"}), "first", 2) && text(parse(p, {"p", "--alpha=2"}), "file", "none"));
            ENSURES("what was taken stays taken", THROWS(b.addOption(new Switch("third", 'a', "gamma"))) && THROWS(b.addOption(new Switch("third", 'c', "alpha"))) && THROWS(p.addOption(new Switch("first", 'c', "gamma"))) && THROWS(p.addPosition(new Position<int>("file"))));
            b.addOption(new Switch("third", 'b', "beta"));
            ENSURES("what was refused can be given another name", parse(p, {"p", "--beta"}).existsName("third") || parse(p, {"p", "-b"})("group").existsName("third"));
        }
    Parser p;
    ENSURES("an argument is needed", THROWS(p.addOption(0)) && THROWS(p.addPosition(0)));
    ENSURES("an option has a letter or a name of letters", THROWS(Switch("x")) && THROWS(Switch("x", "1")) && THROWS(Switch("x", '1')));
}

VC_NATIVE(arguments, "Argument::Argument(const Argument&), Switch::Switch(const Switch&), MultiSwitch::MultiSwitch(const MultiSwitch&), Parser::description", "copies of every kind of option; texts of the parser") {
    Switch a("on", 'o', "online");
    a.defaultVal(true)->required()->help("text");
    Switch b(a);
    MultiSwitch c("count", 'c', "count");
    c.defaultVal(3)->help("count");
    MultiSwitch d(c);
    Option<int> e("num", 'n', "num");
    e.defaultVal({"5"});
    Option<int> f(e);
    ENSURES("a copied option has the same names", b.getName() == "on" && b.getShortIdentifier() == 'o' && b.getLongIdentifier() == "online" && d.getName() == "count" && d.hasShortIdentifier() && d.getLongIdentifier() == "count" && f.getName() == "num" && f.getArgName() == e.getArgName());
    ENSURES("a copied option has the same settings", b.getRequired() && b.getHelp() == "text" && d.getHelp() == "count" && f.getDefault() == e.getDefault());
    Object o, q, r;
    b.notParsed(o);
    d.notParsed(q);
    f.notParsed(r);
    ENSURES("a copied option has the same default", o.getBool() && q.getInt() == 3 && r.getInt() == 5);
    Parser p;
    p.prog("prog").usage("usage").description("what it does").epilog("end");
    ENSURES("the parser keeps its texts", p.getProg() == "prog" && p.getUsage() == "usage" && p.getDescription() == "what it does" && p.getEpilog() == "end");
    Parser h;
    options(h);
    h.description("what it does").prog("prog");
    Quiet s;
    h.printHelp();
    std::string t = s.out.str();
    for (const char* n : {"prog", "-h", "-n", "--number", "--name", "-v", "-m", "what it does"}) ENSURES("the help names every argument", t.find(n) != std::string::npos);
}
