// Output request domains: what is requested is what is stored, copied, compared and classified
// VC-SOURCES: core/outputRequest/Domain.cpp
#include "vc.h"
#include "outputRequest/Domain.h"
using namespace SEMBA;
typedef OutputRequest::Domain Dom;
struct D { bool t; double t0, t1, dt; bool f; double f0, f1, df; bool log, tr; std::string file; Dom v() const { return Dom(t, t0, t1, dt, f, f0, f1, df, log, tr, file); } };
static D any() {
    D d;
    d.t = vc::boolean("t"); d.t0 = vc::real("t0"); d.t1 = vc::real("t1"); d.dt = vc::real("dt");
    d.f = vc::boolean("f"); d.f0 = vc::real("f0"); d.f1 = vc::real("f1"); d.df = vc::real("df");
    d.log = vc::boolean("log"); d.tr = vc::boolean("tr"); d.file = vc::str("file");
    return d;
}
static bool same(const Dom& o, const D& d) {
    return o.isTimeDomain() == d.t && o.getInitialTime() == d.t0 && o.getFinalTime() == d.t1 && o.getSamplingPeriod() == d.dt &&
           o.isFrequencyDomain() == d.f && o.getInitialFrequency() == d.f0 && o.getFinalFrequency() == d.f1 && o.getFrequencyStep() == d.df &&
           o.isLogFrequencySweep() == d.log && o.isUsingTransferFunction() == d.tr && o.getTransferFunctionFile() == (d.tr ? d.file : std::string());
}
VC_DRIVER(stored, "Domain::Domain, copy, operator=, accessors") {
    D d = any(), o = any();
    Dom a = d.v(), b(a), c = o.v(), none;
    ENSURES("what was requested is stored", same(a, d));
    const Dom* r = &(c = a);
    ENSURES("a copy requests the same", same(b, d) && same(a, d) && r == &c);
    ENSURES("an assigned domain requests the same", same(c, d));
    c = c;
    ENSURES("self assignment changes nothing", same(c, d));
    ENSURES("nothing is requested by default", !none.isTimeDomain() && !none.isFrequencyDomain() && !none.isUsingTransferFunction() && none.getTransferFunctionFile() == "" &&
            none.getDomainType() == Dom::NONE && !none.isLogFrequencySweep() && none.getInitialTime() == 0 && none.getFinalTime() == 0 && none.getSamplingPeriod() == 0 &&
            none.getInitialFrequency() == 0 && none.getFinalFrequency() == 0 && none.getFrequencyStep() == 0);
}
VC_DRIVER(changed, "Domain::setFinalTime, setSamplingPeriod") {
    D d = any(), e = d, g = d;
    Dom a = d.v(), b(a), c(a);
    e.t1 = vc::real("x");
    g.dt = vc::real("y");
    a.setFinalTime(e.t1);
    ENSURES("only the final time is changed", same(a, e));
    b.setSamplingPeriod(g.dt);
    ENSURES("only the sampling period is changed", same(b, g));
    ENSURES("copies are independent", same(c, d));
}
VC_DRIVER(type, "Domain::getDomainType") {
    D d = any();
    Dom::Type y = d.v().getDomainType();
    ENSURES("time, frequency and transfer function", (y == Dom::ALL) == (d.t && d.f && d.tr));
    ENSURES("time and frequency", (y == Dom::TIFR) == (d.t && d.f && !d.tr));
    ENSURES("time and transfer function", (y == Dom::TITR) == (d.t && !d.f && d.tr));
    ENSURES("time only", (y == Dom::TIME) == (d.t && !d.f && !d.tr));
    ENSURES("frequency and transfer function", (y == Dom::FRTR) == (!d.t && d.f && d.tr));
    ENSURES("frequency only", (y == Dom::FREQ) == (!d.t && d.f && !d.tr));
    ENSURES("transfer function only", (y == Dom::TRAN) == (!d.t && !d.f && d.tr));
    ENSURES("nothing", (y == Dom::NONE) == (!d.t && !d.f && !d.tr));
}
VC_DRIVER(equality, "Domain::operator==") {
    D d = any(), e;
    if (vc::boolean("same")) {
        e = d;
        // differ in at most one request
        long w = vc::integer("which", 0, 11);
        if (w == 1) e.t = !e.t;
        if (w == 2) e.t0 = vc::real("x");
        if (w == 3) e.t1 = vc::real("x");
        if (w == 4) e.dt = vc::real("x");
        if (w == 5) e.f = !e.f;
        if (w == 6) e.f0 = vc::real("x");
        if (w == 7) e.f1 = vc::real("x");
        if (w == 8) e.df = vc::real("x");
        if (w == 9) e.log = !e.log;
        if (w == 10) e.tr = !e.tr;
        if (w == 11) e.file = vc::str("x");
    } else e = any();
    Dom a = d.v(), b = e.v();
    bool eq = d.t == e.t && d.t0 == e.t0 && d.t1 == e.t1 && d.dt == e.dt && d.f == e.f && d.f0 == e.f0 && d.f1 == e.f1 && d.df == e.df && d.log == e.log && d.tr == e.tr &&
              (!d.tr || d.file == e.file);
    ENSURES("equal iff they request the same", (a == b) == eq && (b == a) == eq);
    ENSURES("comparison changes nothing", same(a, d) && same(b, e));
}
