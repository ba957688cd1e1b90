// Local axes: the transformation is the z-x-z Euler rotation; vectors and tensors are converted with it
// VC-SOURCES: core/math/util/Real.cpp core/math/axis/Local.cpp
#include "vc.h"
#include "math/axis/Local.h"
using namespace SEMBA;
using namespace SEMBA::Math;
struct A { double e[3], o[3]; Axis::Local v() const { return Axis::Local(CVecR3(e[0], e[1], e[2]), CVecR3(o[0], o[1], o[2])); } };
static A any() {
    A a;
    for (int d = 0; d < 3; d++) a.e[d] = VC_PROVING ? vc::real("e") : vc::real_in("e", -7, 7);
    for (int d = 0; d < 3; d++) a.o[d] = vc::real("o");
    return a;
}
struct M3 { double m[3][3]; };
static M3 product(const M3& x, const M3& y) {
    M3 r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = x.m[i][0] * y.m[0][j] + x.m[i][1] * y.m[1][j] + x.m[i][2] * y.m[2][j];
    return r;
}
static M3 aboutZ(double a) { return M3{{{std::cos(a), std::sin(a), 0}, {-std::sin(a), std::cos(a), 0}, {0, 0, 1}}}; }
static M3 aboutX(double a) { return M3{{{1, 0, 0}, {0, std::cos(a), std::sin(a)}, {0, -std::sin(a), std::cos(a)}}}; }
static M3 euler(const A& a) { return product(aboutZ(a.e[2]), product(aboutX(a.e[1]), aboutZ(a.e[0]))); }

VC_DRIVER(accessors, "Local::Local, getEulerAngles, getOrigin") {
    A a = any();
    Axis::Local l = a.v(), none, centred(CVecR3(a.e[0], a.e[1], a.e[2])), c(l);
    for (int d = 0; d < 3; d++) {
        ENSURES("keeps the angles and the origin", l.getEulerAngles()(d) == a.e[d] && l.getOrigin()(d) == a.o[d]);
        ENSURES("no rotation and no displacement by default", none.getEulerAngles()(d) == 0 && none.getOrigin()(d) == 0);
        ENSURES("no displacement when no origin is given", centred.getEulerAngles()(d) == a.e[d] && centred.getOrigin()(d) == 0);
        ENSURES("a copy is equal", c.getEulerAngles()(d) == a.e[d] && c.getOrigin()(d) == a.o[d]);
    }
    MatR33 id = none.getTransformationMatrix();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ENSURES("default axes are the global ones", vc::eq(id(i, j), i == j ? 1 : 0));
}
VC_DRIVER(rotation, "Local::getTransformationMatrix") {
    A a = any();
    Axis::Local l = a.v();
    MatR33 r = l.getTransformationMatrix();
    M3 e = euler(a);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ENSURES("rotations about z, x and z again", vc::eq(r(i, j), e.m[i][j]));
    for (int d = 0; d < 3; d++) ENSURES("the axes are not changed", l.getEulerAngles()(d) == a.e[d] && l.getOrigin()(d) == a.o[d]);
}
VC_DRIVER(rigid, "Local::getTransformationMatrix") {
    A a = any();
    MatR33 r = a.v().getTransformationMatrix();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        ENSURES("rows are orthonormal", vc::eq(r(i, 0) * r(j, 0) + r(i, 1) * r(j, 1) + r(i, 2) * r(j, 2), i == j ? 1 : 0));
        ENSURES("columns are orthonormal", vc::eq(r(0, i) * r(0, j) + r(1, i) * r(1, j) + r(2, i) * r(2, j), i == j ? 1 : 0));
    }
    ENSURES("orientation is kept", vc::eq(r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) +
                                          r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0)), 1));
}
VC_DRIVER(vectors, "Local::convertToGlobal(vector)") {
    A a = any();
    double v[3];
    for (int d = 0; d < 3; d++) v[d] = vc::real("v");
    Axis::Local l = a.v();
    CVecR3 x(v[0], v[1], v[2]), y = l.convertToGlobal(x);
    M3 e = euler(a);
    for (int i = 0; i < 3; i++) {
        ENSURES("rotated and displaced to the origin", vc::eq(y(i), e.m[i][0] * v[0] + e.m[i][1] * v[1] + e.m[i][2] * v[2] + a.o[i]));
        ENSURES("operands unchanged", x(i) == v[i] && l.getEulerAngles()(i) == a.e[i] && l.getOrigin()(i) == a.o[i]);
    }
}
VC_DRIVER(tensors, "Local::convertToGlobal(tensor)") {
    A a = any();
    M3 t;
    MatR33 x;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x(i, j) = t.m[i][j] = vc::real_in("t", -1e6, 1e6);
    Axis::Local l = a.v();
    MatR33 y = l.convertToGlobal(x);
    M3 e = euler(a), tr;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr.m[i][j] = e.m[j][i];
    M3 g = product(product(e, t), tr);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        if (VC_PROVING) ENSURES("rotation times tensor times transposed rotation", y(i, j) == g.m[i][j]);
        else ENSURES("rotation times tensor times transposed rotation", std::fabs(y(i, j) - g.m[i][j]) <= 1e-6);
        ENSURES("operands unchanged", x(i, j) == t.m[i][j]);
    }
}
