// Tolerant comparison of real numbers
// VC-SOURCES: core/math/util/Real.cpp
#include "vc.h"
#include "math/util/Real.h"
#include "math/Types.h"
using namespace SEMBA::Math;
using namespace SEMBA::Math::Util;

static double ab(double x) { return x < 0 ? -x : x; }

// the default comparison: numbers indistinguishable from zero are equal only to each other,
// any other pair is equal exactly when it differs by at most tolerance times |sum|
VC_DRIVER(equalDefinition, "Util::equal, Util::notEqual") {
    double a = vc::real("a"), b = vc::real("b");
    bool e = equal(a, b);
    bool za = ab(a) <= epsilon, zb = ab(b) <= epsilon;
    ENSURES("two numbers indistinguishable from zero are equal", IMPLIES(za && zb, e));
    ENSURES("zero is not equal to a number away from zero", IMPLIES(za != zb, !e));
    ENSURES("numbers away from zero are equal iff within the relative tolerance",
            IMPLIES(!za && !zb && a + b != 0, e == (ab(a - b) <= tolerance * ab(a + b))));
    ENSURES("notEqual is the negation of equal", notEqual(a, b) == !e);
}
VC_DRIVER(equalOrder, "Util::equal") {
    double a = vc::real("a"), b = vc::real("b");
    ENSURES("symmetric", equal(a, b) == equal(b, a));
    ENSURES("reflexive", equal(a, a));
    ENSURES("sign independent", equal(-a, -b) == equal(a, b));
    ENSURES("opposite numbers away from zero differ", IMPLIES(ab(a) > epsilon, !equal(a, -a)));
    ENSURES("numbers apart by more than the tolerance differ", IMPLIES(ab(a - b) > 3 * epsilon && ab(a - b) > tolerance * (ab(a) + ab(b)), !equal(a, b)));
}
VC_DRIVER(equalExplicit, "Util::equal") {
    double a = vc::real("a"), b = vc::real("b"), rel = vc::real("rel"), tol = vc::real("tol");
    REQUIRES(rel > 0 && tol >= 0);
    bool e = equal(a, b, rel, tol);
    bool za = ab(a) <= epsilon, zb = ab(b) <= epsilon;
    ENSURES("the caller's reference magnitude and tolerance are used", IMPLIES(!za && !zb, e == (ab(a - b) <= tol * rel)));
    ENSURES("zero handling does not depend on the reference magnitude", IMPLIES(za || zb, e == (za && zb)));
    ENSURES("symmetric with explicit tolerances", equal(b, a, rel, tol) == e);
    ENSURES("notEqual negates equal with the same tolerances", notEqual(a, b, rel, tol) == !e);
}
VC_DRIVER(trichotomy, "Util::lower, Util::lowerEqual, Util::greater, Util::greaterEqual") {
    double a = vc::real("a"), b = vc::real("b");
    bool l = lower(a, b), g = greater(a, b), e = equal(a, b);
    ENSURES("exactly one of lower, equal, greater", (l ? 1 : 0) + (g ? 1 : 0) + (e ? 1 : 0) == 1);
    ENSURES("lowerEqual is lower or equal", lowerEqual(a, b) == (l || e));
    ENSURES("greaterEqual is greater or equal", greaterEqual(a, b) == (g || e));
    ENSURES("lower implies strictly smaller", IMPLIES(l, a < b));
    ENSURES("greater implies strictly larger", IMPLIES(g, a > b));
    ENSURES("greater mirrors lower", g == lower(b, a));
}
VC_DRIVER(trichotomyExplicit, "Util::lower, Util::lowerEqual, Util::greater, Util::greaterEqual") {
    double a = vc::real("a"), b = vc::real("b"), rel = vc::real("rel"), tol = vc::real("tol");
    REQUIRES(rel >= 0 && tol >= 0);
    bool l = lower(a, b, rel, tol), g = greater(a, b, rel, tol), e = equal(a, b, rel, tol);
    ENSURES("exactly one of lower, equal, greater", (l ? 1 : 0) + (g ? 1 : 0) + (e ? 1 : 0) == 1);
    ENSURES("lowerEqual is lower or equal", lowerEqual(a, b, rel, tol) == (l || e));
    ENSURES("greaterEqual is greater or equal", greaterEqual(a, b, rel, tol) == (g || e));
    ENSURES("lower implies strictly smaller", IMPLIES(l, a < b));
}
VC_DRIVER(ceiling, "Util::ceil") {
    double v = vc::real("v"), rel = vc::real("rel");
    REQUIRES(ab(v) < 1e9);
    REQUIRES(rel >= 0 && rel < 1);
    double c = Util::ceil(v, rel);
    ENSURES("result is an integer", c == std::floor(c));
    ENSURES("never more than one above", c < v + 1);
    ENSURES("never below by more than the slack", c >= v - rel);
    ENSURES("exact integers are kept", IMPLIES(v == std::floor(v), c == v));
    ENSURES("a value within the slack of an integer is not pushed up", IMPLIES(v <= std::floor(v) + rel, c == std::floor(v)));
    ENSURES("a value beyond the slack is rounded up", IMPLIES(v > std::floor(v) + rel, c >= v && c < v + 1));
}
VC_DRIVER(rounding, "Util::round") {
    double v = vc::real("v");
    REQUIRES(ab(v) < 1e9);
    double r = Util::round(v);
    ENSURES("result is an integer", r == std::floor(r));
    ENSURES("nearest integer", ab(r - v) <= 0.5 + 2e-10);
    double d = v - std::floor(v);
    ENSURES("halves go up", IMPLIES(d == 0.5, r == std::floor(v) + 1));
    ENSURES("integers are kept", IMPLIES(d == 0, r == v));
}
VC_DRIVER(signum, "Util::sign") {
    double v = vc::real("v");
    ENSURES("sign has unit magnitude", Util::sign(v) == 1 || Util::sign(v) == -1);
    ENSURES("sign times value is its magnitude", Util::sign(v) * v == ab(v));
}
