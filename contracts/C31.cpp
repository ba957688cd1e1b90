// Sequences of samples, their averages and transforms; spherical vectors
// VC-SOURCES: core/math/util/Real.cpp core/math/util/DTFT.cpp core/math/vector/Spherical.cpp
#include "vc.h"
#include "math/util/DTFT.h"
#include "math/util/SpaceGenerator.h"
#include "math/util/Statistic.h"
#include "math/vector/Spherical.h"
using namespace SEMBA;
using namespace SEMBA::Math;
typedef std::vector<Real> VR;

VC_DRIVER(linearSamples, "Util::linspace") {
    double a = vc::real("first"), b = vc::real("last");
    long n = vc::integer("samples", 2, 100000);
    VC_INVIV(Real, i, v, { return (long)v.size() == i && FORALL(k, 0, i, { return v[k] == a + k * ((b - a) / (n - 1)); }); });
    VR s = Util::linspace(std::pair<Real, Real>(a, b), (size_t)n);
    ENSURES("as many samples as asked for", (long)s.size() == n);
    ENSURES("samples are evenly spaced from the first end", FORALL(k, 0, n, { return vc::eq(s[k], a + k * ((b - a) / (n - 1))); }));
    ENSURES("samples end at both ends", s[0] == a && vc::eq(s[n - 1], b));
}
VC_DRIVER(fewSamples, "Util::linspace, Util::logspace") {
    double a = vc::real_in("first", -20, 20), b = vc::real_in("last", -20, 20);
    ENSURES("a single sample is the last end", Util::linspace(std::pair<Real, Real>(a, b), 1).size() == 1 && Util::linspace(std::pair<Real, Real>(a, b), 1)[0] == b);
    ENSURES("there can be no samples", Util::linspace(std::pair<Real, Real>(a, b), 0).empty() && Util::logspace<size_t>(std::pair<Real, Real>(a, b), 0).empty());
    VR l = Util::logspace<size_t>(std::pair<Real, Real>(a, b), 1);
    ENSURES("a single power is that of the last end", l.size() == 1 && vc::eq(l[0], pow(10.0, b)));
}
VC_DRIVER(powers, "Util::logspace") {
    double a = vc::real_in("first", -20, 20), b = vc::real_in("last", -20, 20);
    long n = vc::integer("samples", 2, 100000);
    VC_INVIV(Real, i, v, { return (long)v.size() == i && FORALL(k, 0, i, { return v[k] == pow(10.0, a + k * ((b - a) / (n - 1))); }); });
    VR s = Util::logspace<size_t>(std::pair<Real, Real>(a, b), (size_t)n);
    ENSURES("as many powers as asked for", (long)s.size() == n);
    ENSURES("exponents are evenly spaced from the first end", FORALL(k, 0, n, { return vc::eq(s[k], pow(10.0, a + k * ((b - a) / (n - 1)))); }));
    ENSURES("powers end at both ends", vc::eq(s[0], pow(10.0, a)) && vc::eq(s[n - 1], pow(10.0, b)));
}

// differences of a sequence add up to that of its ends
VC_DRIVER(meanOfDifferences, "Util::meanDifference, Util::mean, Util::sum") {
    VR t = vc::vec<double>("t");
    long n = (long)t.size();
    REQUIRES(n >= 1);
    VC_INVIV(Real, i, v, { return (long)v.size() == n - 1 && FORALL(k, 0, i - 1, { return v[k] == t[k + 1] - t[k]; }); });
    VC_INVIR(i, x, { return x == t[i] - t[0]; });
    double m = Util::meanDifference(t);
    if (n == 1) ENSURES("a single sample has no difference", m == 0);
    else ENSURES("the mean difference is that of the ends, shared out", vc::eq(m * (n - 1), t[n - 1] - t[0]));
}
VC_DRIVER(meanOfEqual, "Util::mean, Util::sum") {
    VR t = vc::vec<double>("t");
    long n = (long)t.size();
    double c = vc::real("c");
    REQUIRES(n >= 1 && FORALL(k, 0, n, { return t[k] == c; }));
    VC_INVIR(i, x, { return x == i * c; });
    ENSURES("equal values have their sum", vc::eq(Util::sum(t), n * c));
    ENSURES("equal values have their mean", vc::eq(Util::mean(t), c));
}
VC_DRIVER(meanWithin, "Util::mean, Util::sum") {
    VR t = vc::vec<double>("t");
    long n = (long)t.size();
    double lo = vc::real("lo"), hi = vc::real("hi");
    if (!VC_PROVING)
        for (double x : t) { lo = std::min(lo, x); hi = std::max(hi, x); }
    REQUIRES(n >= 1 && FORALL(k, 0, n, { return lo <= t[k] && t[k] <= hi; }));
    VC_INVIR(i, x, { return i * lo <= x && x <= i * hi; });
    double m = Util::mean(t);
    ENSURES("the mean is between bounds of the values", vc::le(lo, m) && vc::le(m, hi));
}
// the partial sums of terms: s[0] = 0, s[k + 1] = s[k] + term(k)
template<class F> VR partialSums(const char* name, long n, const F& term) {
#if VC_PROVING
    VR s = vc::vec<double>(name);
    REQUIRES((long)s.size() == n + 1 && s[0] == 0 && FORALL(k, 0, n, { return s[k + 1] == s[k] + term(k); }));
#else
    VR s(1, 0.0);
    for (long k = 0; k < n; k++) s.push_back(s[k] + term(k));
#endif
    return s;
}
VC_DRIVER(sums, "Util::mean, Util::sum") {
    VR t = vc::vec<double>("t");
    long n = (long)t.size();
    REQUIRES(n >= 1);
    VR s = partialSums("s", n, [&](long k) { return t[k]; });
    VC_INVIR(i, x, { return x == s[i]; });
    ENSURES("the sum is of all values", vc::eq(Util::sum(t), s[n]));
    ENSURES("the mean is the sum, shared out", vc::eq(Util::mean(t) * n, s[n]));
}

typedef std::vector<std::pair<Real, std::complex<Real> > > Samples;
#if !VC_PROVING
namespace vc { template<> struct Gen<Samples::value_type> { static Samples::value_type get(const char*) { double t = real_in("t", -20, 20), x = real_in("re", -20, 20), y = real_in("im", -20, 20); return Samples::value_type(t, std::complex<Real>(x, y)); } }; }
#endif
VC_DRIVER(transform, "Util::getDTFT") {
    Samples s = vc::vec<Samples::value_type>("s");
    long n = (long)s.size();
    double f = vc::real_in("f", -20, 20);
    REQUIRES(n >= 1);
    // each sample turned back by 2 pi f t
    auto w = [&](long k) { return 2 * Constants::pi * f * s[k].first; };
    VR re = partialSums("re", n, [&](long k) { return s[k].second.real() * cos(w(k)) + s[k].second.imag() * sin(w(k)); });
    VR im = partialSums("im", n, [&](long k) { return s[k].second.imag() * cos(w(k)) - s[k].second.real() * sin(w(k)); });
    VC_INVIR(i, x, { return x == re[i]; });
    VC_INVIR(i, x, { return x == im[i]; });
    std::complex<Real> z = Util::getDTFT(s, f);
    double l = s[n - 1].first - s[0].first;
    ENSURES("the transform is the mean of the samples turned back, times their span", vc::eq(z.real() * n, re[n] * l) && vc::eq(z.imag() * n, im[n] * l));
}

VC_DRIVER(sphericalThere, "Spherical::operator=, Spherical::convertToCartesian, Spherical::norm") {
    CVecR3 v(vc::real_in("x", -50, 50), vc::real_in("y", -50, 50), vc::real_in("z", -50, 50));
    REQUIRES(v(0) * v(0) + v(1) * v(1) + v(2) * v(2) > 1e-6);
    Vector::Spherical s;
    s = v;
    CVecR3 w = s.convertToCartesian();
    ENSURES("the radius is the length", s.norm() >= 0 && vc::eq(s.norm() * s.norm(), v(0) * v(0) + v(1) * v(1) + v(2) * v(2)) && s.norm() == s.radius);
    ENSURES("spherical coordinates are of the vector (z)", vc::eq(w(2), v(2)));
    ENSURES("spherical coordinates are of the vector (x)", vc::eq(w(0), v(0)));
    ENSURES("spherical coordinates are of the vector (y)", vc::eq(w(1), v(1)));
}
VC_DRIVER(sphericalBack, "Spherical::Spherical, Spherical::convertToCartesian, Spherical::convertSphericalVectorField") {
    double t = vc::real_in("theta", -10, 10), p = vc::real_in("phi", -10, 10);
    Vector::Spherical s(t, p), o;
    ENSURES("the first one is at the origin", o.radius == 0 && o.theta == 0 && o.phi == 0);
    ENSURES("a direction has its angles and is of unit length", s.theta == t && s.phi == p && s.norm() == 1);
    CVecR3 w = s.convertToCartesian();
    ENSURES("a direction is at its angles", vc::eq(w(0), sin(t) * cos(p)) && vc::eq(w(1), sin(t) * sin(p)) && vc::eq(w(2), cos(t)));
    double r = vc::real_in("r", -20, 20), a = vc::real_in("at", -20, 20), b = vc::real_in("ap", -20, 20);
    CVecR3 f = s.convertSphericalVectorField(r, a, b);
    ENSURES("a field has its radial component", vc::eq(f(0) * sin(t) * cos(p) + f(1) * sin(t) * sin(p) + f(2) * cos(t), r));
    ENSURES("a field has its polar component", vc::eq(f(0) * cos(t) * cos(p) + f(1) * cos(t) * sin(p) - f(2) * sin(t), a));
    ENSURES("a field has its azimuthal component", vc::eq(-f(0) * sin(p) + f(1) * cos(p), b));
}
