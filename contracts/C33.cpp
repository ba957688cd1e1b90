// Options of meshers and solvers: what is set, and only that
// VC-SOURCES: mesher/Options.cpp solver/Options.cpp core/argument/Argument.cpp core/argument/Formatter.cpp core/argument/Group.cpp core/argument/GroupBase.cpp core/argument/MultiSwitch.cpp core/argument/MutuallyExclusiveGroup.cpp core/argument/OptionBase.cpp core/argument/Parser.cpp core/argument/Switch.cpp core/argument/ValueMulti.cpp core/argument/ValueSingle.cpp core/physicalModel/PhysicalModel.cpp core/physicalModel/bound/Bound.cpp core/physicalModel/bound/PEC.cpp core/physicalModel/bound/PMC.cpp core/physicalModel/bound/PML.cpp core/physicalModel/bound/SMA.cpp core/physicalModel/bound/Periodic.cpp core/physicalModel/bound/Mur1.cpp core/physicalModel/bound/Mur2.cpp core/math/util/Real.cpp
#include "vc.h"
#include "mesher/Options.h"
#include "solver/Options.h"
#include "argument/Parser.h"
#include <iostream>
#include <sstream>
using namespace SEMBA;
using namespace SEMBA::Math;
typedef SEMBA::Mesher::Options MO;
typedef SEMBA::Solver::Options SO;
typedef SEMBA::Solver::Settings Settings;

// all that can be asked of a solver's options
struct Sol {
    bool run, force, resume;
    double period, step, cfl, flush;
    std::string more;
    bool steps; // the end is a number of steps
    double end;
    Sol() : run(true), force(false), resume(false), period(0), step(0), cfl(0.8), flush(0), steps(false), end(0) {}
    bool operator==(const SO& o) const {
        return o.isRunSimulation() == run && o.isForceRestarting() == force && o.isResumeSimulation() == resume && o.getSamplingPeriod() == period && o.getTimeStep() == step && o.getCFL() == cfl && o.getFlush() == flush && o.getAdditionalArguments() == more &&
               vc::eq(o.getFinalTime(), steps ? end * step : end) && (!steps || o.getNumberOfTimeSteps() == (size_t)end);
    }
};
static void change(long what, SO& o, Sol& s) {
    switch (what) {
    case 0: o.setRunSimulation(s.run = vc::boolean("run")); break;
    case 1: o.setForceRestarting(s.force = vc::boolean("force")); break;
    case 2: o.setResumeSimulation(s.resume = vc::boolean("resume")); break;
    case 3: o.setSamplingPeriod(s.period = vc::real("period")); break;
    case 4: o.setTimeStep(s.step = vc::real("step")); break;
    case 5: o.setCFL(s.cfl = vc::real("cfl")); break;
    case 6: o.setFlush(s.flush = vc::real("flush")); break;
    case 7: o.setAdditionalArguments(s.more = vc::str("more")); break;
    case 8: o.setFinalTime(s.end = vc::real("final")); s.steps = false; break;
    case 9: { long n = vc::integer("steps", 0, 1000000); o.setNumberOfTimeSteps((size_t)n); s.end = (double)n; s.steps = true; break; }
    }
}
VC_DRIVER(solver, "Solver::Options") {
    SO o;
    Sol s;
    ENSURES("options start with their defaults", s == o);
    // any values so far
    for (long k = 0; k < 8; k++) change(k, o, s);
    change(vc::choice("ending", 8, 9), o, s);
    ENSURES("options are those set", s == o);
    change(vc::choice("what", 0, 9), o, s);
    ENSURES("setting one leaves the others", s == o);
    Sol before = s;
    SO c(o), d;
    d = o;
    change(vc::choice("then", 0, 9), o, s);
    ENSURES("the last value counts", s == o);
    ENSURES("copies are the same, and stay", before == c && before == d);
}
VC_DRIVER(steps, "Solver::Options::getNumberOfTimeSteps, Solver::Options::getFinalTime") {
    SO o;
    ENSURES("no steps without a time step", o.getNumberOfTimeSteps() == 0);
    double t = vc::real_in("final", 0, 1000), h = vc::real_in("step", 0.01, 100);
    o.setFinalTime(t);
    ENSURES("no steps without a time step, whatever the end", o.getNumberOfTimeSteps() == 0);
    o.setTimeStep(h);
    double n = (double)o.getNumberOfTimeSteps();
    ENSURES("steps reach the final time", vc::le(t, n * h));
    ENSURES("there are no more steps than needed", n == 0 || vc::le((n - 1) * h, t));
    ENSURES("the final time is the one set", o.getFinalTime() == t);
    long k = vc::integer("steps", 0, 1000000);
    o.setNumberOfTimeSteps((size_t)k);
    ENSURES("steps are the ones set, and last their time", o.getNumberOfTimeSteps() == (size_t)k && vc::eq(o.getFinalTime(), k * h));
}

struct Mes {
    MO::Mesher mesher;
    MO::Mode mode;
    long sub;
    bool snap, vtk, msh, smb, contour, unwanted, cells, slanted;
    double forbidden, scale, threshold;
    CVecR3 step;
    std::string name;
    Mes() : mesher(MO::Mesher::DMesher), mode(MO::Mode::structured), sub(0), snap(false), vtk(false), msh(true), smb(false), contour(false), unwanted(false), cells(false), slanted(false), forbidden(1), scale(1), threshold(1), step(0.0) {}
    bool operator==(const MO& o) const {
        return o.getMesher() == mesher && o.getMode() == mode && o.getSubgridPoints() == sub && o.isSnap() == snap && o.isVtkExport() == vtk && o.isPostmshExport() == msh && o.isPostsmbExport() == smb && o.isContourRefinement() == contour && o.isUnwantedConnectionsInfo() == unwanted &&
               o.isStructuredCellsInfo() == cells && o.isSlanted() == slanted && o.getForbiddenLength() == forbidden && o.getScalingFactor() == scale && o.getSlantedThreshold() == threshold && o.getGridStep()(0) == step(0) && o.getGridStep()(1) == step(1) && o.getGridStep()(2) == step(2) && o.getOutputName() == name &&
               o.isStructured() == (mode == MO::Mode::structured) && o.isRelaxed() == (mode == MO::Mode::relaxed || mode == MO::Mode::slanted);
    }
};
static void change(long what, MO& o, Mes& s) {
    static const MO::Mesher meshers[] = {MO::Mesher::AMesher, MO::Mesher::DMesher, MO::Mesher::HMesher};
    static const MO::Mode modes[] = {MO::Mode::structured, MO::Mode::relaxed, MO::Mode::slanted, MO::Mode::conformal};
    switch (what) {
    case 0: o.setMesher(s.mesher = meshers[vc::choice("mesher", 0, 2)]); break;
    case 1: o.setMode(s.mode = modes[vc::choice("mode", 0, 3)]); break;
    case 2: o.setSubgridPoints((int)(s.sub = vc::integer("subgrid", 0, 1000))); break;
    case 3: o.setSnap(s.snap = vc::boolean("snap")); break;
    case 4: o.setVtkExport(s.vtk = vc::boolean("vtk")); break;
    case 5: o.setPostmshExport(s.msh = vc::boolean("msh")); break;
    case 6: o.setPostsmbExport(s.smb = vc::boolean("smb")); break;
    case 7: o.setContourRefinement(s.contour = vc::boolean("contour")); break;
    case 8: o.setUnwantedConnectionsInfo(s.unwanted = vc::boolean("unwanted")); break;
    case 9: o.setStructuredCellsInfo(s.cells = vc::boolean("cells")); break;
    case 10: o.setSlanted(s.slanted = vc::boolean("slanted")); break;
    case 11: o.setForbiddenLength(s.forbidden = vc::real("forbidden")); break;
    case 12: o.setScalingFactor(s.scale = vc::real("scale")); break;
    case 13: o.setSlantedThreshold(s.threshold = vc::real("threshold")); break;
    case 14: { double x = vc::real("x"), y = vc::real("y"), z = vc::real("z"); o.setGridStep(s.step = CVecR3(x, y, z)); break; }
    case 15: o.setOutputName(s.name = vc::str("name")); break;
    }
}
VC_DRIVER(mesher, "Mesher::Options") {
    MO o;
    Mes s;
    ENSURES("options start with their defaults", s == o && !o.isGridStepSet());
    for (size_t d = 0; d < 3; d++)
        for (size_t p = 0; p < 2; p++) ENSURES("there are no terminations at first", o.getBoundTermination(d, p) == nullptr);
    for (long k = 2; k < 16; k++) change(k, o, s);
    ENSURES("options are those set", s == o);
    change(vc::choice("what", 0, 15), o, s);
    ENSURES("setting one leaves the others", s == o);
}

VC_NATIVE(commandLine, "Mesher::Options::addArguments", "random subsets of the arguments, in random order") {
    MO m;
    SO o;
    Argument::Parser p;
    m.addArguments(p);
    o.addArguments(p);
    std::vector<std::vector<std::string> > parts;
    long mode = vc::integer("mode", -1, 3);
    bool vtk = vc::boolean("vtk"), step = vc::boolean("step"), length = vc::boolean("length");
    const char* modes[] = {"Structured", "Relaxed", "Slanted", "Conformal"};
    double x[3], l = 0.25 * vc::integer("forbidden", 0, 9);
    if (vtk) parts.push_back({"--vtkexport"});
    if (mode >= 0) parts.push_back({"--mode", modes[mode]});
    if (length) { std::ostringstream a; a << l; parts.push_back({"--length", a.str()}); }
    if (step) {
        parts.push_back({"--gridstep"});
        for (double& y : x) { y = 0.5 * vc::integer("size", 1, 9); std::ostringstream a; a << y; parts.back().push_back(a.str()); }
    }
    for (size_t i = 1; i < parts.size(); i++) std::swap(parts[i], parts[(size_t)vc::integer("place", 0, (long)i)]);
    if (parts.empty()) return;
    std::vector<std::string> a(1, "program");
    for (auto& v : parts) a.insert(a.end(), v.begin(), v.end());
    Argument::Object r = p.parse(a);
    ENSURES("export is asked for", (r.existsName("VTK Export") && r("VTK Export").isBool() && r("VTK Export").getBool()) == vtk);
    ENSURES("the mode is the one given", r.existsName("Mode") == (mode >= 0) && (mode < 0 || r("Mode").getString() == modes[mode]));
    ENSURES("the length is the one given", r.existsName("Forbidden length") == length && (!length || r("Forbidden length").getReal() == l));
    ENSURES("the steps are those given", r.existsName("gridstep") == step && (!step || (r("gridstep").get<Real, Real, Real>() == std::make_tuple(x[0], x[1], x[2]))));
}

// settings of a file: any of the known names, in any order
static const char* BOUNDS[] = {"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"};
static const char* SIDES[] = {"lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound"};
static void real(Settings& o, const char* n, double& x) { o(n).setReal(x = 0.125 * vc::integer(n, -80, 80)); }
static void boolean(Settings& o, const char* n, bool& x) { o(n).setBool(x = vc::boolean(n)); }
VC_NATIVE(settings, "Mesher::Options::set, Mesher::Options::toStr, Solver::Options::set, Solver::Options::toArgsStr", "50 random subsets of the known settings, in random order") {
    for (long t = 0; t < 50; t++) {
        Settings s;
        MO m;
        SO o;
        Mes w;
        Sol x;
        long side[6] = {-1, -1, -1, -1, -1, -1};
        std::vector<long> order;
        for (long k = 0; k < 31; k++)
            if (vc::boolean("given")) order.push_back(k);
        for (size_t i = 1; i < order.size(); i++) std::swap(order[i], order[(size_t)vc::integer("place", 0, (long)i)]);
        bool steps = vc::boolean("steps");
        for (long k : order) switch (k) {
            case 0: boolean(s, "contourRefinement", w.contour); break;
            case 1: boolean(s, "snap", w.snap); break;
            case 2: boolean(s, "unwantedConnectionsInfo", w.unwanted); break;
            case 3: boolean(s, "structuredCellsInfo", w.cells); break;
            case 4: boolean(s, "vtkExport", w.vtk); break;
            case 5: boolean(s, "postmshExport", w.msh); break;
            case 6: boolean(s, "postsmbExport", w.smb); break;
            case 7: boolean(s, "slantedWires", w.slanted); break;
            case 8: real(s, "slantedThreshold", w.threshold); break;
            case 9: { long v = vc::integer("mesher", 0, 2); s("mesher").setString((const char*[]){"AMesher", "DMesher", "HMesher"}[v]); w.mesher = (MO::Mesher[]){MO::Mesher::AMesher, MO::Mesher::DMesher, MO::Mesher::HMesher}[v]; break; }
            case 10: { long v = vc::integer("mode", 0, 3); s("mode").setString((const char*[]){"Structured", "Relaxed", "Slanted", "Conformal"}[v]); w.mode = (MO::Mode[]){MO::Mode::structured, MO::Mode::relaxed, MO::Mode::slanted, MO::Mode::conformal}[v]; break; }
            case 11: s("subgridPoints").setInt((int)(w.sub = vc::integer("subgridPoints", 0, 99))); break;
            case 12: real(s, "forbiddenLength", w.forbidden); break;
            case 13: real(s, "geometryScalingFactor", w.scale); break;
            case 14: case 15: case 16: case 17: case 18: case 19: s(SIDES[k - 14]).setString(BOUNDS[side[k - 14] = vc::integer("bound", 0, 5)]); break;
            case 20: boolean(s, "runSimulation", x.run); break;
            case 21: if (!steps) real(s, "finalTime", x.end); break;
            case 22: if (steps) { long n = vc::integer("numberOfTimeSteps", 0, 999); s("numberOfTimeSteps").setInt((int)n); x.end = (double)n; x.steps = true; } break;
            case 23: real(s, "timeStep", x.step); break;
            case 24: real(s, "cfl", x.cfl); break;
            case 25: real(s, "defaultSamplingPeriod", x.period); break;
            case 26: boolean(s, "forceRestarting", x.force); break;
            case 27: boolean(s, "resumeSimulation", x.resume); break;
            case 28: real(s, "flush", x.flush); break;
            case 29: s("additionalArguments").setString(x.more = vc::str("additionalArguments")); break;
            case 30: s("somethingElse").setString(vc::str("somethingElse")); break;
            }
        m.set(s);
        o.set(s);
        ENSURES("the mesher does what the settings say", w == m);
        ENSURES("the solver does what the settings say", x == o);
        for (size_t k = 0; k < 6; k++) {
            const SEMBA::PhysicalModel::Bound::Bound* b = m.getBoundTermination(k / 2, k % 2);
            ENSURES("sides end as the settings say", (b == nullptr) == (side[k] < 0) && m.getBoundTerminations()(k / 2, k % 2) == b && MO::toStr(b) == (side[k] < 0 ? std::string("Undefined") : BOUNDS[side[k]]));
        }
        MO c(m), d;
        d = m;
        m = MO();
        ENSURES("copies are the same", w == c && w == d && Mes() == m);
        for (size_t k = 0; k < 6; k++) {
            ENSURES("copies end the same", MO::toStr(c.getBoundTermination(k / 2, k % 2)) == (side[k] < 0 ? std::string("Undefined") : BOUNDS[side[k]]) && c.getBoundTermination(k / 2, k % 2) == d.getBoundTermination(k / 2, k % 2));
            c.setBoundTermination(k / 2, k % 2, nullptr);
            ENSURES("a side can be left open", c.getBoundTermination(k / 2, k % 2) == nullptr);
            for (size_t j = k + 1; j < 6; j++) ENSURES("other sides stay", c.getBoundTermination(j / 2, j % 2) == d.getBoundTermination(j / 2, j % 2));
        }
        // the arguments of a solver
        std::ostringstream a;
        if (x.cfl != 0.8) a << " -cfl " << x.cfl;
        if (x.resume && (x.steps || x.step == 0 || x.end >= 0) && x.step >= 0 && (x.steps ? x.end * x.step : x.end) >= 0) a << " -r " << (size_t)std::floor(x.step != 0 ? (x.steps ? x.end * x.step : x.end) / x.step : x.steps ? 0 : x.end);
        else if (x.resume) continue;
        if (x.force) a << " -s";
        if (x.flush != 0) a << " -flush " << x.flush;
        ENSURES("arguments say what differs from the defaults", o.toArgsStr() == a.str());
        Settings bad = s;
        const char* named[] = {"mesher", "mode", "lowerYBound", "upperZBound"};
        bad(named[vc::integer("named", 0, 3)]).setString((const char*[]){"", "pec", "Structured ", "DMesher1"}[vc::integer("word", 0, 3)]);
        ENSURES("unknown words are refused", THROWS(MO().set(bad)));
    }
}
