// Functions of time and the magnitudes that hold them
// VC-SOURCES: core/math/util/Real.cpp core/math/function/Gaussian.cpp core/math/function/BandLimited.cpp core/source/magnitude/Magnitude.cpp core/source/magnitude/Numerical.cpp core/filesystem/Project.cpp
#include "vc.h"
#include "math/Constants.h"
#include "math/function/LinearInterpolation.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "source/magnitude/Magnitude.h"
#include "source/magnitude/Numerical.h"
using namespace SEMBA;
using namespace SEMBA::Math;
typedef Function::LinearInterpolation<Real, Real> LI;
typedef Function::Gaussian Gau;
typedef Function::BandLimited Band;
typedef Source::Magnitude::Magnitude Mag;
typedef std::pair<Real, Real> P;
typedef std::vector<P> Tab;
static double val(const char* n) { return VC_PROVING ? vc::real_in(n, -1e9, 1e9) : (double)vc::integer(n, -6, 6); }
// ---------------------------------------------------------------- Gaussian
VC_DRIVER(gaussian, "Gaussian::Gaussian, Gaussian::operator(), Gaussian::getSpread, Gaussian::getDelay, Gaussian::getFreq, Function::eval, Gaussian::clone, Gaussian::operator==") {
    double s = vc::real("spread"), d = vc::real("delay"), f = vc::real("freq"), t = vc::real("t");
    REQUIRES(s != 0.0);
    Gau g(s, d, f);
    ENSURES("spread", g.getSpread() == s);
    ENSURES("delay", g.getDelay() == d);
    ENSURES("frequency", g.getFreq() == f);
    double v = g(t);
    ENSURES("value is the envelope times the carrier", vc::eq(v, std::exp(-((t - d) * (t - d)) / (2.0 * s * s)) * std::cos(2.0 * Constants::pi * f * t)));
    ENSURES("eval is the value", vc::eq(g.eval(t), v));
    Gau* c = g.clone();
    ENSURES("clones have the same value", vc::eq((*c)(t), v));
    ENSURES("clones are equal", *c == g && g == *c);
    Gau k(g);
    ENSURES("copies are equal", k == g && k.getSpread() == s && k.getDelay() == d && k.getFreq() == f);
    delete c;
    ENSURES("the copy is not changed by releasing the clone", vc::eq(k(t), v));
    Gau z(s, d);
    ENSURES("no carrier by default", z.getFreq() == 0.0 && vc::eq(z(t), std::exp(-((t - d) * (t - d)) / (2.0 * s * s))));
    ENSURES("one at the delay", z(d) == 1.0);
    ENSURES("symmetric about the delay", vc::eq(z(d + t), z(d - t)));
    Gau n;
    ENSURES("default", n.getSpread() == 0.0 && n.getDelay() == 0.0 && n.getFreq() == 0.0);
}
VC_DRIVER(gaussianEquality, "Gaussian::operator==, BandLimited::operator==") {
    double s = val("s"), d = val("d"), f = val("f"), s2 = val("s2"), d2 = val("d2"), f2 = val("f2");
    if (!VC_PROVING) {
        if (vc::boolean("same spread")) s2 = s;
        if (vc::boolean("same delay")) d2 = d;
        if (vc::boolean("same freq")) f2 = f;
    }
    Gau a(s, d, f), b(s2, d2, f2);
    ENSURES("equal exactly when the three numbers are", (a == b) == (s == s2 && d == d2 && f == f2));
    double lo = vc::real_in("lo", 0.5, 4.0), hi = vc::real_in("hi", 5.0, 9.0), lo2 = vc::real_in("lo2", 0.5, 4.0), hi2 = vc::real_in("hi2", 5.0, 9.0);
    if (!VC_PROVING) {
        if (vc::boolean("same lo")) lo2 = lo;
        if (vc::boolean("same hi")) hi2 = hi;
    }
    Band x(lo, hi), y(lo2, hi2);
    ENSURES("bands are equal exactly when both limits are", (x == y) == (lo == lo2 && hi == hi2));
    ENSURES("functions of different kinds are different", !(a == x) && !(x == a));
    LI i;
    ENSURES("interpolated functions are different from analytical ones", !(i == a) && !(a == i) && !(i == x) && !(x == i));
}
VC_DRIVER(maximum, "Gaussian::buildFromMaximumFrequency, Gaussian::getFourier") {
    double m = vc::real("m");
    bool bad = false;
    try {
        Gau g = Gau::buildFromMaximumFrequency(m);
        ENSURES("spread", vc::eq(g.getSpread() * m, 0.2));
        ENSURES("starts six spreads before its peak", vc::eq(g.getDelay(), 6.0 * g.getSpread()));
        ENSURES("no carrier", g.getFreq() == 0.0);
    } catch (const std::logic_error&) { bad = true; }
    ENSURES("frequencies must be positive", bad == (m <= 0.0));
}
// ---------------------------------------------------------------- band limited
VC_DRIVER(band, "BandLimited::BandLimited, BandLimited::operator(), BandLimited::clone") {
    double lo = VC_PROVING ? vc::real("lo") : vc::real_in("lo", -1.0, 4.0), hi = VC_PROVING ? vc::real("hi") : vc::real_in("hi", -1.0, 9.0), t = vc::real("t");
    bool bad = false;
    try {
        Band b(lo, hi);
        double w = Constants::pi * (hi - lo), d = 20.0 / lo, s = 10.0 / hi, u = t - d;
        double v = b(t);
        if (u != 0.0)
            ENSURES("value is a modulated sinc under a Gaussian envelope", vc::eq(v * (w * u), std::sin(w * u) * (std::exp(-(u * u) / (s * s) / 2.0) * std::cos(Constants::pi * (hi + lo) * u))));
        Band* c = b.clone();
        ENSURES("clones have the same value", vc::eq((*c)(t), v));
        ENSURES("clones are equal", *c == b);
        delete c;
    } catch (const std::logic_error&) { bad = true; }
    ENSURES("limits must be positive and increasing", bad == (lo <= 0.0 || hi <= 0.0 || hi <= lo));
}
// ---------------------------------------------------------------- interpolation
static double line(double x0, double y0, double x1, double y1, double x) { return y0 + (y1 - y0) * ((x - x0) / (x1 - x0)); }
VC_DRIVER_BOUNDED(interpolated, "LinearInterpolation::LinearInterpolation(vector), LinearInterpolation::operator()", "three points, in any order") {
    double x0 = val("x0"), y0 = val("y0"), x1 = val("x1"), y1 = val("y1"), x2 = val("x2"), y2 = val("y2"), x = VC_PROVING ? vc::real_in("x", -2e9, 2e9) : val("x");
    if (!VC_PROVING && vc::boolean("half")) x += 0.5;
    REQUIRES(x0 < x1 && x1 < x2);
    static const int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    P p[3] = {P(x0, y0), P(x1, y1), P(x2, y2)};
    int o = (int)vc::choice("order", 0, 5);
    Tab t;
    for (int i = 0; i < 3; i++) t.push_back(p[order[o][i]]);
    LI f(t);
    double y = f(x);
    if (x <= x0) ENSURES("before the first", y == y0);
    else if (x2 <= x) ENSURES("after the last", y == y2);
    else if (x <= x1) ENSURES("in the first segment", vc::eq(y, line(x0, y0, x1, y1, x)));
    else ENSURES("in the second segment", vc::eq(y, line(x1, y1, x2, y2, x)));
    ENSURES("at the first point", f(x0) == y0);
    ENSURES("at the second point", f(x1) == y1);
    ENSURES("at the third point", f(x2) == y2);
    ENSURES("eval is the value", vc::eq(f.eval(x), y));
    LI* c = f.clone();
    ENSURES("clones are equal", *c == f && f == *c);
    ENSURES("clones have the same value", vc::eq((*c)(x), y));
    delete c;
}
VC_DRIVER_BOUNDED(repeated, "LinearInterpolation::LinearInterpolation(vector), LinearInterpolation::operator(), LinearInterpolation::operator==", "up to three points") {
    double x0 = val("x0"), y0 = val("y0"), x1 = val("x1"), y1 = val("y1"), x = val("x"), y2 = val("y2");
    REQUIRES(x0 < x1);
    LI e;
    bool empty = false;
    try { e(x); } catch (const std::out_of_range&) { empty = true; }
    ENSURES("nothing to interpolate", empty);
    Tab one(1, P(x0, y0));
    LI c(one);
    ENSURES("one point is a constant", c(x) == y0);
    Tab two(one);
    two.push_back(P(x1, y1));
    LI f(two);
    Tab three(two);
    three.push_back(P(x0, y2));
    LI g(three);
    ENSURES("the first of repeated points is kept", g(x0) == y0 && vc::eq(g(x), f(x)));
    ENSURES("repeated points make no difference", f == g && g == f);
    Tab swapped;
    swapped.push_back(two[1]);
    swapped.push_back(two[0]);
    ENSURES("the order of the points makes no difference", LI(swapped) == f);
    ENSURES("fewer points are different", !(c == f) && !(f == c) && !(e == c) && e == LI());
    Tab other(two);
    other[1].second = y2;
    ENSURES("equal exactly when the values are", (LI(other) == f) == (y1 == y2));
    Tab moved(1, P(x1, y0));
    ENSURES("different arguments", !(LI(moved) == c));
}
// ---------------------------------------------------------------- magnitudes
VC_DRIVER(magnitudes, "Magnitude::Magnitude, Magnitude::Magnitude(const Magnitude&), Magnitude::operator=, Magnitude::operator==, Magnitude::evaluate, Magnitude::clone, Magnitude::~Magnitude") {
    double s = VC_PROVING ? vc::real("spread") : 1.0 + vc::integer("spread", 1, 4), d = vc::real("delay"), s2 = VC_PROVING ? vc::real("spread2") : 1.0 + vc::integer("spread2", 1, 4), t = vc::real("t");
    REQUIRES(s != 0.0 && s2 != 0.0);
    Gau g(s, d), h(s2, d);
    Mag* a = new Mag(new Gau(g));
    Mag* b = new Mag(new Gau(h));
    double u = g(t), v = h(t);
    ENSURES("value is that of its function", a->evaluate(t) == u && b->evaluate(t) == v);
    ENSURES("equal exactly when the functions are", (*a == *b) == (s == s2));
    Mag* c = new Mag(*a);
    Mag* k = a->clone();
    ENSURES("copies are equal", *c == *a && *k == *a);
    delete a;
    ENSURES("copies do not depend on the original", c->evaluate(t) == u && k->evaluate(t) == u);
    *c = *b;
    ENSURES("assigned magnitudes are equal", *c == *b && c->evaluate(t) == v);
    delete b;
    ENSURES("assigned magnitudes do not depend on the original", c->evaluate(t) == v);
    Mag* self = c;
    *c = *self;
    ENSURES("assignment to itself changes nothing", c->evaluate(t) == v && !(s != s2 && *c == *k));
    Mag none, none2(none);
    ENSURES("magnitudes without function", none == none2 && !(none == *c) && !(*c == none));
    *c = none;
    ENSURES("assigned from none", *c == none && !(*c == *k));
    none = *k;
    ENSURES("none becomes some", none == *k && none.evaluate(t) == u && !(none == none2));
    delete c;
    delete k;
    ENSURES("still there", none.evaluate(t) == u);
}
#if !VC_PROVING
#include <complex>
#include <cstdio>
#include <fstream>
#include <unistd.h>
#endif
VC_NATIVE(fourier, "Gaussian::getFourier, Gaussian::operator()", "spreads from 0.5 to 4, delays within 5, frequencies up to 0.3; integral by trapezoids") {
#if !VC_PROVING
    double s = vc::real_in("spread", 0.5, 4.0), d = vc::real_in("delay", -5.0, 5.0), w = vc::real_in("freq", -0.3, 0.3);
    Gau g(s, d);
    std::complex<double> sum(0.0, 0.0), i(0.0, 1.0);
    double h = s / 50.0;
    for (int k = -600; k <= 600; k++) sum += g(d + k * h) * std::exp(-2.0 * Constants::pi * i * w * (d + k * h)) * h;
    std::complex<double> f = g.getFourier(w);
    ENSURES("modulus of the spectrum", std::fabs(std::abs(f) - std::abs(sum)) < 1e-6);
    ENSURES("the spectrum is the transform, up to the sign of its phase", std::abs(f - std::conj(sum)) < 1e-6 || std::abs(f - sum) < 1e-6);
#endif
}
VC_NATIVE(file, "LinearInterpolation::LinearInterpolation(file), LinearInterpolation::initFromFile", "files of up to five points, ended or not by a new line") {
#if !VC_PROVING
    long n = vc::integer("n", 0, 5);
    bool last = vc::boolean("new line at the end"), blank = vc::boolean("blank lines");
    char name[] = "/tmp/vcfileXXXXXX";
    int fd = mkstemp(name);
    REQUIRES(fd >= 0);
    close(fd);
    Tab t;
    {
        std::ofstream out(name);
        out.precision(17);
        for (long i = 0; i < n; i++) {
            P p(vc::real_in("x", -5.0, 5.0), vc::real_in("y", -5.0, 5.0));
            t.push_back(p);
            out << p.first << " " << p.second;
            if (i + 1 < n || last) out << "\n";
            if (blank) out << "\n";
        }
    }
    bool failed = false, equal = false;
    try {
        LI f{std::string(name)};
        equal = f == LI(t);
    } catch (const std::ios_base::failure&) { failed = true; }
    std::remove(name);
    ENSURES("files without points are reported", failed == (n == 0));
    ENSURES("the points are those of the file", failed || equal);
    bool missing = false;
    try { LI f{std::string(name)}; } catch (const std::ios_base::failure&) { missing = true; }
    ENSURES("missing files are reported", missing);
#endif
}
VC_NATIVE(numerical, "Numerical::Numerical, Numerical::operator=, Numerical::operator==, Numerical::clone", "piecewise linear magnitudes with corners at the samples, up to ten samples") {
#if !VC_PROVING
    typedef Source::Magnitude::Numerical Num;
    long n = vc::integer("samples", 1, 10);
    Tab t;
    double y = 0;
    for (long i = -1; i <= n; i++) {
        if (i < 0 || vc::boolean("corner")) y = (double)vc::integer("y", -4, 4);
        t.push_back(P(0.5 * i, y));
    }
    char name[] = "/tmp/vcnumXXXXXX";
    int fd = mkstemp(name);
    REQUIRES(fd >= 0);
    close(fd);
    LI f(t);
    Mag m(new LI(f));
    Num num(FileSystem::Project{std::string(name)}, m, 0.5, 0.5 * n);
    bool same = true;
    for (long i = 0; i < n; i++) same = same && std::fabs(num.Magnitude::evaluate(0.5 * i) - f(0.5 * i)) < 1e-6;
    ENSURES("numerical magnitudes take the values sampled", same);
    ENSURES("and know their file", num.getFilename() == name);
    Num again(FileSystem::Project{std::string(name)});
    ENSURES("reading the file gives the same magnitude", again == num && num == again);
    std::remove(name);
    Num other(FileSystem::Project(std::string("other")), num, 0.5, 5.0);
    ENSURES("numerical magnitudes are not sampled again", other == num);
    Num* c = num.clone();
    ENSURES("clones are equal", *c == num);
    Num d;
    d = *c;
    delete c;
    ENSURES("assigned magnitudes are equal and independent", d == num);
    ENSURES("numerical magnitudes differ from analytical ones", !(num == m));
    d.setFilename("another");
    ENSURES("magnitudes of different files are different", !(d == num));
#endif
}
