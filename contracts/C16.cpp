// Fixed-size matrices
// VC-SOURCES: core/math/util/Real.cpp
#include "vc.h"
#include "math/matrix/Static.h"
using namespace SEMBA;
using namespace SEMBA::Math;
static double ab(double x) { return x < 0 ? -x : x; }
template<size_t R, size_t C> struct M { double a[R][C]; };
template<size_t R, size_t C> static Matrix::Static<Real, R, C> any(M<R, C>& m) {
    Matrix::Static<Real, R, C> r;
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) r(i, j) = m.a[i][j] = vc::real("a");
    return r;
}
template<size_t R, size_t C> static bool same(const Matrix::Static<Real, R, C>& x, const M<R, C>& m) {
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) if (!(x(i, j) == m.a[i][j])) return false;
    return true;
}
template<size_t R, size_t C> static void shape() {
    M<R, C> m;
    Matrix::Static<Real, R, C> a = any(m);
    ENSURES("row and column counts", a.nRows() == R && a.nCols() == C && a.size() == R * C && a.isSquare() == (R == C));
    Matrix::Static<Real, R, C> b(a), c, z;
    c = a;
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) {
        ENSURES("entries by row, column and by linear index are the same", a.val(i, j) == m.a[i][j] && a.val(i * C + j) == m.a[i][j] && a.val()[i * C + j] == m.a[i][j]);
        ENSURES("copy and assignment have the same entries", b(i, j) == m.a[i][j] && c(i, j) == m.a[i][j]);
        ENSURES("a new matrix is zero", z(i, j) == 0);
    }
    b(0, C - 1) = 7;
    b.val(R - 1, 0) = 8;
    ENSURES("a copy is independent", same(a, m));
    Matrix::Static<Real, C, R> t = a.transpose();
    Matrix::Static<Real, R, C> u = t.transpose();
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++)
        ENSURES("transposing exchanges rows and columns", t(j, i) == m.a[i][j] && u(i, j) == m.a[i][j]);
    ENSURES("transposing leaves the matrix unchanged", same(a, m));
    for (size_t i = 0; i < R; i++) {
        std::vector<Real> r = a.cpRowToVector(i);
        bool ok = r.size() == C;
        for (size_t j = 0; ok && j < C; j++) ok = r[j] == m.a[i][j];
        ENSURES("a row as a vector", ok);
    }
}
VC_DRIVER(shape22, "Static::Static, operator=, val, transpose, cpRowToVector") { shape<2, 2>(); }
VC_DRIVER(shape33, "Static::Static, operator=, val, transpose, cpRowToVector") { shape<3, 3>(); }
VC_DRIVER(shape43, "Static::Static, operator=, val, transpose, cpRowToVector") { shape<4, 3>(); }
VC_DRIVER(shape44, "Static::Static, operator=, val, transpose, cpRowToVector") { shape<4, 4>(); }
VC_DRIVER(shape24, "Static::Static, operator=, val, transpose, cpRowToVector") { shape<2, 4>(); }
template<size_t R, size_t C> static void arithmetic() {
    M<R, C> m, n;
    Matrix::Static<Real, R, C> a = any(m), b = any(n);
    double s = vc::real("s");
    Matrix::Static<Real, R, C> sum = a + b, prod = a * s, p1(a), p2(a), p3(a), p4(a), p5(a);
    p1 += b;
    p2 -= b;
    p3 *= s;
    p5 += s;
    REQUIRES(s != 0);
    p4 /= s;
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) {
        double x = m.a[i][j], y = n.a[i][j];
        ENSURES("sum", vc::eq(sum(i, j), x + y) && vc::eq(p1(i, j), x + y));
        ENSURES("difference", vc::eq(p2(i, j), x - y));
        ENSURES("scaling", vc::eq(prod(i, j), x * s) && vc::eq(p3(i, j), x * s));
        ENSURES("division by a scalar", vc::eq(p4(i, j), x / s));
        ENSURES("adding a scalar to every entry", vc::eq(p5(i, j), x + s));
    }
    ENSURES("operands unchanged", same(a, m) && same(b, n));
}
VC_DRIVER(arithmetic22, "Static::operator+, +=, -=, *=, /=, *") { arithmetic<2, 2>(); }
VC_DRIVER(arithmetic33, "Static::operator+, +=, -=, *=, /=, *") { arithmetic<3, 3>(); }
VC_DRIVER(arithmetic43, "Static::operator+, +=, -=, *=, /=, *") { arithmetic<4, 3>(); }
VC_DRIVER(arithmetic44, "Static::operator+, +=, -=, *=, /=, *") { arithmetic<4, 4>(); }
template<size_t R, size_t C, size_t D> static void product() {
    M<R, C> m;
    M<C, D> n;
    Matrix::Static<Real, R, C> a = any(m);
    Matrix::Static<Real, C, D> b = any(n);
    Matrix::Static<Real, R, D> p = a * b;
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < D; j++) {
        double x = 0;
        for (size_t k = 0; k < C; k++) x += m.a[i][k] * n.a[k][j];
        ENSURES("entry of a product is row times column", vc::eq(p(i, j), x));
    }
    ENSURES("factors unchanged", same(a, m) && same(b, n));
}
VC_DRIVER(product22, "operator*(Static, Static)") { product<2, 2, 2>(); }
VC_DRIVER(product33, "operator*(Static, Static)") { product<3, 3, 3>(); }
VC_DRIVER(product433, "operator*(Static, Static)") { product<4, 3, 3>(); }
VC_DRIVER(product444, "operator*(Static, Static)") { product<4, 4, 4>(); }
VC_DRIVER(product243, "operator*(Static, Static)") { product<2, 4, 3>(); }
VC_DRIVER(matrixVector, "Static::operator*(Cartesian), setInDiagonal, assign") {
    M<3, 3> m;
    MatR33 a = any(m);
    double v[3];
    for (int i = 0; i < 3; i++) v[i] = vc::real("v");
    CVecR3 x(v[0], v[1], v[2]), y = a * x;
    for (int i = 0; i < 3; i++) ENSURES("matrix times vector", vc::eq(y(i), m.a[i][0] * v[0] + m.a[i][1] * v[1] + m.a[i][2] * v[2]));
    ENSURES("operands unchanged", same(a, m) && x(0) == v[0] && x(1) == v[1] && x(2) == v[2]);
    a.setInDiagonal(x);
    Matrix::Static<Int, 3, 3> k;
    long e[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        ENSURES("only the diagonal is set", a(i, j) == (i == j ? v[i] : m.a[i][j]));
        e[i][j] = vc::integer("e", -100000, 100000);
        k(i, j) = (Int)e[i][j];
    }
    a.assign(k);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ENSURES("entries of an integer matrix", a(i, j) == (double)e[i][j]);
}
template<size_t N> static void square() {
    M<N, N> m;
    Matrix::Static<Real, N, N> a = any(m), l(a), e(a), z(a);
    l.cpLowerTri2UpperTri();
    e.eye();
    z.zeros();
    bool sym = true;
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        ENSURES("lower triangle mirrored", l(i, j) == (j > i ? m.a[j][i] : m.a[i][j]));
        ENSURES("identity", e(i, j) == (i == j ? 1 : 0));
        ENSURES("zero", z(i, j) == 0);
        sym = sym && m.a[i][j] == m.a[j][i];
    }
    ENSURES("symmetric iff equal to its transpose", a.isSymmetric() == sym);
    ENSURES("a mirrored matrix is symmetric", l.isSymmetric());
    ENSURES("the query leaves it unchanged", same(a, m));
}
VC_DRIVER(square2, "Matrix::eye, zeros, cpLowerTri2UpperTri, isSymmetric") { square<2>(); }
VC_DRIVER(square3, "Matrix::eye, zeros, cpLowerTri2UpperTri, isSymmetric") { square<3>(); }
template<size_t R, size_t C> static void maxima() {
    M<R, C> m;
    Matrix::Static<Real, R, C> a = any(m);
    double x = a.maxVal();
    bool attained = false;
    for (size_t j = 0; j < C; j++) {
        double y = a.maxValInCol(j);
        bool in = false;
        for (size_t i = 0; i < R; i++) {
            ENSURES("no entry is larger", m.a[i][j] <= x);
            ENSURES("no entry of the column is larger", m.a[i][j] <= y);
            attained = attained || m.a[i][j] == x;
            in = in || m.a[i][j] == y;
        }
        ENSURES("the column has that entry", in);
    }
    ENSURES("some entry is that large", attained);
}
VC_DRIVER(maxima22, "Matrix::maxVal, maxValInCol") { maxima<2, 2>(); }
VC_DRIVER(maxima32, "Matrix::maxVal, maxValInCol") { maxima<3, 2>(); }
VC_DRIVER(copies, "Matrix::cpToRow, cpToCol, convertToArray, Static::copy") {
    M<3, 3> m, n;
    MatR33 a = any(m), b(a);
    std::vector<Real> v;
    for (int i = 0; i < 3; i++) v.push_back(vc::real("v"));
    long k = vc::integer("k", 0, 2);
    int K = k == 0 ? 0 : k == 1 ? 1 : 2;
    a.cpToRow(K, v);
    b.cpToCol(K, v);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        ENSURES("only that row is replaced", a(i, j) == (i == K ? v[j] : m.a[i][j]));
        ENSURES("only that column is replaced", b(i, j) == (j == K ? v[i] : m.a[i][j]));
    }
    MatR33 c = any(n);
    Real rm[9], cm[9];
    c.convertToArray(MATRICES_ROW_MAJOR, rm);
    c.convertToArray(MATRICES_COL_MAJOR, cm);
    std::vector<std::vector<Real> > vv(3, std::vector<Real>(3));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        ENSURES("row major", rm[3 * i + j] == n.a[i][j]);
        ENSURES("column major", cm[3 * j + i] == n.a[i][j]);
        vv[i][j] = n.a[i][j];
    }
    MatR33 d;
    d.copy(vv);
    ENSURES("copied from rows", same(d, n));
    std::vector<CVecR3> w = c.convertToCartesianVector();
    bool ok = w.size() == 3;
    for (int i = 0; ok && i < 3; i++) ok = w[i](0) == n.a[i][0] && w[i](1) == n.a[i][1] && w[i](2) == n.a[i][2];
    ENSURES("one Cartesian vector per row", ok);
}
template<size_t R, size_t C> static void compare() {
    M<R, C> m, n;
    Matrix::Static<Real, R, C> a = any(m), b = any(n);
    bool close = true, far = false;
    int order = 0;
    const double eps = 2.220446049250313e-14;
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) {
        close = close && ab(m.a[i][j] - n.a[i][j]) <= eps;
        far = far || ab(m.a[i][j] - n.a[i][j]) > eps;
        if (order == 0) order = m.a[i][j] < n.a[i][j] ? -1 : m.a[i][j] > n.a[i][j] ? 1 : 0;
    }
    ENSURES("equal iff every entry is, up to rounding", (a == b) == close);
    ENSURES("lexicographic order of the entries, row by row", (a < b) == (order < 0) && (b < a) == (order > 0));
}
VC_DRIVER(compare22, "Static::operator==, operator<") { compare<2, 2>(); }
VC_DRIVER(compare31, "Static::operator==, operator<") { compare<3, 1>(); }
VC_DRIVER(determinant3, "Matrix::getDeterminant3x3") {
    M<3, 3> m;
    MatR33 a = any(m);
    double d = 0;
    for (int j = 0; j < 3; j++) d += m.a[0][j] * (m.a[1][(j + 1) % 3] * m.a[2][(j + 2) % 3] - m.a[1][(j + 2) % 3] * m.a[2][(j + 1) % 3]);
    ENSURES("determinant of a 3x3 matrix", vc::eq(a.getDeterminant3x3(), d));
}
static double minor3(const M<4, 4>& m, int c) {
    int k[3], n = 0;
    for (int j = 0; j < 4; j++) if (j != c) k[n++] = j;
    double d = 0;
    for (int j = 0; j < 3; j++) d += m.a[1][k[j]] * (m.a[2][k[(j + 1) % 3]] * m.a[3][k[(j + 2) % 3]] - m.a[2][k[(j + 2) % 3]] * m.a[3][k[(j + 1) % 3]]);
    return d;
}
VC_DRIVER(determinant4, "Matrix::getDeterminant4x4") {
    M<4, 4> m;
    MatR44 a = any(m);
    double d = m.a[0][0] * minor3(m, 0) - m.a[0][1] * minor3(m, 1) + m.a[0][2] * minor3(m, 2) - m.a[0][3] * minor3(m, 3);
    ENSURES("determinant of a 4x4 matrix", vc::eq(a.getDeterminant4x4(), d));
}
// invertible: the elimination never meets a zero pivot
template<size_t N> static double det(const M<N, N>& m);
template<> double det<1>(const M<1, 1>& m) { return m.a[0][0]; }
template<> double det<2>(const M<2, 2>& m) { return m.a[0][0] * m.a[1][1] - m.a[0][1] * m.a[1][0]; }
template<> double det<3>(const M<3, 3>& m) {
    double d = 0;
    for (int j = 0; j < 3; j++) d += m.a[0][j] * (m.a[1][(j + 1) % 3] * m.a[2][(j + 2) % 3] - m.a[1][(j + 2) % 3] * m.a[2][(j + 1) % 3]);
    return d;
}
template<> double det<4>(const M<4, 4>& m) { return m.a[0][0] * minor3(m, 0) - m.a[0][1] * minor3(m, 1) + m.a[0][2] * minor3(m, 2) - m.a[0][3] * minor3(m, 3); }
#if VC_PROVING
VC_STUB(print3, "SEMBA::Math::Matrix::Static<double, 3ul, 3ul>::printInfo() const") void stub_print3(const MatR33*) {}
VC_OPT(inverse3, "stubs=print3,abort=1,split=Matrix::")
VC_DRIVER(inverse3, "Static::invert, Matrix::internal_, factorizeLU_, invertFactorized_") {
    M<3, 3> m;
    MatR33 a = any(m);
    try {
        a.invert();
    } catch (...) { return; }
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) {
        double x = 0;
        for (size_t k = 0; k < 3; k++) x += m.a[i][k] * a(k, j);
        ENSURES("the matrix times its inverse is the identity", x == (i == j ? 1 : 0));
    }
}
#endif
template<size_t N> static void inverse() {
    M<N, N> m;
    Matrix::Static<Real, N, N> a = any(m);
#if !VC_PROVING
    REQUIRES(ab(det<N>(m)) > 0.1);
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) REQUIRES(ab(m.a[i][j]) < 20);
#else
    REQUIRES(det<N>(m) != 0);
#endif
    Matrix::Static<Real, N, N> b(a);
    Matrix::Static<Real, N, N>& r = b.invert();
    ENSURES("inverts in place", &r == &b);
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        double x = 0;
        for (size_t k = 0; k < N; k++) x += m.a[i][k] * b(k, j);
#if VC_PROVING
        ENSURES("the matrix times its inverse is the identity", x == (i == j ? 1 : 0));
#else
        ENSURES("the matrix times its inverse is the identity", ab(x - (i == j ? 1 : 0)) < 1e-6);
#endif
    }
}
VC_DRIVER(inverse1, "Static::invert, Matrix::internal_, factorizeLU_, invertFactorized_") { inverse<1>(); }
VC_DRIVER(inverse2, "Static::invert, Matrix::internal_, factorizeLU_, invertFactorized_") { inverse<2>(); }
VC_NATIVE(inverse3native, "Static::invert, Matrix::internal_, factorizeLU_, invertFactorized_", "invertible 3x3 matrices of bounded entries") { inverse<3>(); }
VC_NATIVE(inverse4, "Static::invert, Matrix::internal_, factorizeLU_, invertFactorized_", "4x4 matrices of bounded entries") { inverse<4>(); }
