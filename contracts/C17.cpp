// Matrices of any size: construction, copies, arithmetic, submatrices, row sorting and search
// VC-SOURCES: core/math/util/Real.cpp
#include "vc.h"
#include "math/matrix/Dynamic.h"
#include "math/matrix/Static.h"
using namespace SEMBA;
using namespace SEMBA::Math;
typedef Matrix::Dynamic<Real> DR;
typedef Matrix::Dynamic<Int> DI;
typedef std::vector<std::vector<double> > Ref;
typedef std::vector<std::vector<int> > RefI;
static double ab(double x) { return x < 0 ? -x : x; }
static Ref some(size_t r, size_t c) {
    Ref m(r);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m[i].push_back(vc::real("a"));
    return m;
}
static DR make(const Ref& m, size_t c) {
    DR d(m.size(), c);
    for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < c; j++) d(i, j) = m[i][j];
    return d;
}
static bool same(const DR& d, const Ref& m, size_t c) {
    if (d.nRows() != m.size() || d.nCols() != c) return false;
    for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < c; j++) if (!vc::eq(d(i, j), m[i][j])) return false;
    return true;
}
static void shape(size_t r, size_t c) {
    Ref m = some(r, c);
    DR a(r, c);
    bool zero = a.nRows() == r && a.nCols() == c && a.size() == r * c;
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) zero = zero && a(i, j) == 0;
    ENSURES("a new matrix has the requested size and is zero", zero);
    a = make(m, c);
    ENSURES("assignment copies size and entries", same(a, m, c));
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++)
        ENSURES("entries by row, column, linear index and pointer are the same", a.val(i, j) == m[i][j] && a.val(i * c + j) == m[i][j] && *a.valPtr(i, j) == m[i][j]);
    DR b(a), d, e(1, 1);
    d = a;
    e = a;
    ENSURES("copies have the same size and entries", same(b, m, c) && same(d, m, c) && same(e, m, c));
    b(r - 1, 0) = 3;
    d.val(0, c - 1) = 4;
    ENSURES("copies are independent", same(a, m, c));
    a = *&a;
    ENSURES("self assignment changes nothing", same(a, m, c));
    DR t(a);
    DR& rt = t.transpose();
    bool tr = &rt == &t && t.nRows() == c && t.nCols() == r;
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) tr = tr && t(j, i) == m[i][j];
    ENSURES("transposing in place exchanges rows and columns", tr);
    DR v;
    v.copy(m);
    ENSURES("built from a list of rows", same(v, m, c));
    DR col;
    col = m[0];
    bool cok = col.nRows() == c && col.nCols() == 1;
    for (size_t j = 0; j < c; j++) cok = cok && col(j, 0) == m[0][j];
    ENSURES("a vector becomes a column", cok);
    DR none;
    ENSURES("a default matrix is empty", none.nRows() == 0 && none.nCols() == 0 && none.size() == 0);
    std::vector<Real*> rows;
    for (size_t i = 0; i < r; i++) rows.push_back(&m[i][0]);
    DR p(r, c, &rows[0]);
    ENSURES("built from an array of rows", same(p, m, c));
}
VC_DRIVER_BOUNDED(shape23, "Dynamic::Dynamic, operator=, copy, val, valPtr, transpose", "2x3 matrices, every entry") { shape(2, 3); }
VC_DRIVER_BOUNDED(shape31, "Dynamic::Dynamic, operator=, copy, val, valPtr, transpose", "3x1 matrices, every entry") { shape(3, 1); }
VC_NATIVE(shapeNative, "Dynamic::Dynamic, operator=, copy, val, valPtr, transpose", "matrices up to 5x5") { long r = vc::integer("r", 1, 5), c = vc::integer("c", 1, 5); shape(r, c); }
static void arithmetic(size_t r, size_t c) {
    Ref m = some(r, c), n = some(r, c), x(r, std::vector<double>(c));
    DR a = make(m, c), b = make(n, c);
    double s = vc::real("s");
    REQUIRES(s != 0);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) x[i][j] = m[i][j] + n[i][j];
    DR p(a);
    p += b;
    ENSURES("sum", same(a + b, x, c) && same(p, x, c));
    DR q(a), k(a);
    q *= s;
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) x[i][j] = m[i][j] * s;
    ENSURES("scaling", same(a * s, x, c) && same(q, x, c));
    k /= s;
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) x[i][j] = m[i][j] / s;
    ENSURES("division by a scalar", same(a / s, x, c) && same(k, x, c));
    DR f(a), g(a);
    f += s;
    g = s;
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
        ENSURES("adding a scalar to every entry", vc::eq(f(i, j), m[i][j] + s));
        ENSURES("filling with a value", g(i, j) == s);
    }
    ENSURES("operands unchanged", same(a, m, c) && same(b, n, c));
}
VC_DRIVER_BOUNDED(arithmetic23, "Dynamic::operator+, +=, *, *=, /, /=, =", "2x3 matrices, every entry") { arithmetic(2, 3); }
VC_NATIVE(arithmeticNative, "Dynamic::operator+, +=, *, *=, /, /=, =", "matrices up to 5x5") { long r = vc::integer("r", 1, 5), c = vc::integer("c", 1, 5); arithmetic(r, c); }
static void product(size_t r, size_t c, size_t d) {
    Ref m = some(r, c), n = some(c, d), x(r, std::vector<double>(d));
    DR a = make(m, c), b = make(n, d);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < d; j++) { x[i][j] = 0; for (size_t k = 0; k < c; k++) x[i][j] += m[i][k] * n[k][j]; }
    ENSURES("entry of a product is row times column", same(a * b, x, d));
    ENSURES("factors unchanged", same(a, m, c) && same(b, n, d));
    Ref y(r * c, std::vector<double>(c * d));
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) for (size_t k = 0; k < c; k++) for (size_t l = 0; l < d; l++) y[i * c + k][j * d + l] = m[i][j] * n[k][l];
    ENSURES("Kronecker product", same(a.kron(b), y, c * d));
}
VC_DRIVER_BOUNDED(product232, "Dynamic::operator*(Dynamic), kron", "2x3 by 3x2, every entry") { product(2, 3, 2); }
VC_DRIVER_BOUNDED(product123, "Dynamic::operator*(Dynamic), kron", "1x2 by 2x3, every entry") { product(1, 2, 3); }
VC_NATIVE(productNative, "Dynamic::operator*(Dynamic), kron", "sizes up to 4") { long r = vc::integer("r", 1, 4), c = vc::integer("c", 1, 4), d = vc::integer("d", 1, 4); product(r, c, d); }
static void mixed(size_t d) {
    Ref n = some(3, d), x(2, std::vector<double>(d));
    Matrix::Static<Real, 2, 3> a;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) a(i, j) = vc::real("s");
    DR b = make(n, d);
    for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < d; j++) { x[i][j] = 0; for (size_t k = 0; k < 3; k++) x[i][j] += a(i, k) * n[k][j]; }
    ENSURES("product of a fixed-size by a sized matrix", same(a * b, x, d));
    Matrix::Static<Real, 3, 2> c;
    if (d == 2) {
        c = b;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) ENSURES("entries taken from a sized matrix", c(i, j) == n[i][j]);
    }
}
VC_DRIVER_BOUNDED(mixed2, "operator*(Static, Dynamic), Static::operator=(Dynamic)", "2x3 by 3x2, every entry") { mixed(2); }
static void convolution(size_t r, size_t s) {
    Ref m = some(r, 1), n = some(s, 1), x(r + s - 1, std::vector<double>(1, 0.0));
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < s; j++) x[i + j][0] += m[i][0] * n[j][0];
    ENSURES("convolution of two columns", same(make(m, 1).convolute(make(n, 1)), x, 1));
}
VC_DRIVER_BOUNDED(convolution23, "Dynamic::convolute", "2 and 3 samples, every value") { convolution(2, 3); }
VC_DRIVER_BOUNDED(convolution31, "Dynamic::convolute", "3 and 1 samples, every value") { convolution(3, 1); }
VC_NATIVE(convolutionNative, "Dynamic::convolute", "up to 5 samples") { long r = vc::integer("r", 1, 5), s = vc::integer("s", 1, 5); convolution(r, s); }
static void parts(size_t r, size_t c, size_t r0, size_t r1, size_t c0, size_t c1) {
    Ref m = some(r, c), x, y(r), z;
    DR a = make(m, c);
    for (size_t i = r0; i <= r1; i++) { x.push_back(std::vector<double>()); for (size_t j = c0; j <= c1; j++) x.back().push_back(m[i][j]); }
    std::pair<size_t, size_t> rr(r0, r1), cc(c0, c1);
    ENSURES("submatrix of rows and columns, both ends included", same(a.sub(rr, cc), x, c1 - c0 + 1));
    ENSURES("copied part, last row and column excluded", same(static_cast<const DR&>(a).copy(r0, r1 + 1, c0, c1 + 1), x, c1 - c0 + 1));
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (j < c0 || j > c1) y[i].push_back(m[i][j]);
    ENSURES("columns eliminated, both ends included", same(a.eliminateColumns(c0, c1), y, c - (c1 - c0 + 1)));
    Ref row(c, std::vector<double>(r)), col(c, std::vector<double>(r));
    for (size_t k = 0; k < r * c; k++) { row[k / r][k % r] = m[k / c][k % c]; col[k / r][k % r] = m[k % r][k / r]; }
    ENSURES("reshaped taking rows, by default", same(a.reshape(c, r, 1), row, r) && same(a.reshape(c, r), row, r));
    ENSURES("reshaped taking columns", same(a.reshape(c, r, 2), col, r));
    ENSURES("the matrix is unchanged", same(a, m, c));
}
VC_DRIVER_BOUNDED(parts23, "Dynamic::sub, copy, eliminateColumns, reshape", "2x3 matrices, every entry") { parts(2, 3, 1, 1, 0, 1); }
VC_NATIVE(partsNative, "Dynamic::sub, copy, eliminateColumns, reshape", "matrices up to 5x5") {
    long r = vc::integer("r", 1, 5), c = vc::integer("c", 1, 5), r0 = vc::integer("r0", 0, 4), r1 = vc::integer("r1", 0, 4), c0 = vc::integer("c0", 0, 4), c1 = vc::integer("c1", 0, 4);
    REQUIRES(r0 <= r1 && r1 < r && c0 <= c1 && c1 < c);
    parts(r, c, r0, r1, c0, c1);
}
static RefI someInt(size_t r, size_t c) {
    RefI m(r);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m[i].push_back((int)vc::integer("a", 0, 3));
    return m;
}
static DI makeInt(const RefI& m, size_t c) {
    DI d(m.size(), c);
    for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < c; j++) d(i, j) = m[i][j];
    return d;
}
static int cmp(const DI& a, size_t i, const DI& b, size_t j, size_t c0, size_t c1) {
    for (size_t k = c0; k <= c1; k++) {
        if (a(i, k) < b(j, k)) return -1;
        if (a(i, k) > b(j, k)) return 1;
    }
    return 0;
}
static size_t count(const DI& a, const DI& b, size_t j) {
    size_t n = 0;
    for (size_t i = 0; i < a.nRows(); i++) if (cmp(a, i, b, j, 0, b.nCols() - 1) == 0) n++;
    return n;
}
static void sorting(size_t r, size_t c, size_t c0, size_t c1) {
    RefI m = someInt(r, c);
    DI a = makeInt(m, c), b(a), s(a), u(a);
    b.sortRows(c0, c1);
    ENSURES("sorting keeps the size", b.nRows() == r && b.nCols() == c);
    for (size_t i = 0; i < r; i++) {
        if (i) ENSURES("rows sorted by the given columns", cmp(b, i - 1, b, i, c0, c1) <= 0);
        ENSURES("sorting keeps every row", count(b, a, i) == count(a, a, i));
    }
    s.sortRows();
    for (size_t i = 0; i < r; i++) {
        if (i) ENSURES("rows sorted by all columns", cmp(s, i - 1, s, i, 0, c - 1) <= 0);
        ENSURES("sorting by all columns keeps every row", count(s, a, i) == count(a, a, i));
    }
    u.sortAndRemoveRepeatedRows();
    for (size_t i = 1; i < u.nRows(); i++) ENSURES("rows sorted, without repetition", cmp(u, i - 1, u, i, 0, c - 1) < 0);
    ENSURES("columns kept", u.nCols() == c);
    for (size_t i = 0; i < r; i++) ENSURES("each distinct row is kept once", count(u, a, i) == 1);
    DI w(a);
    w.sortAndRemoveRepeatedRows_omp();
    ENSURES("the threaded variant gives the same rows", w == u);
    // search in the sorted rows
    int key[2] = {(int)vc::integer("key", 0, 3), (int)vc::integer("key", 0, 3)};
    size_t found = s.findFirstOcurrenceInColumns(key, 0, c), first = r;
    for (size_t i = r; i-- > 0;) if (s(i, 0) == key[0] && (c == 1 || s(i, 1) == key[1])) first = i;
    ENSURES("the first row with that value, or the row count", found == first);
}
VC_NATIVE(sorting1, "Matrix::sortRows, Dynamic::sortAndRemoveRepeatedRows, findFirstOcurrenceInColumns", "up to 6 rows of one column") { long r = vc::integer("r", 1, 6); sorting(r, 1, 0, 0); }
VC_NATIVE(sorting2, "Matrix::sortRows, Dynamic::sortAndRemoveRepeatedRows, findFirstOcurrenceInColumns", "up to 8 rows of two columns") {
    long r = vc::integer("r", 1, 8), c0 = vc::integer("c0", 0, 1), c1 = vc::integer("c1", 0, 1);
    REQUIRES(c0 <= c1);
    sorting(r, 2, c0, c1);
}
static void sortThree(size_t r) {
    DI a(r, 1);
    for (size_t i = 0; i < r; i++) a(i, 0) = (int)vc::integer("a", -1000000, 1000000);
    DI b(a);
    b.sortRows(0, 0);
    for (size_t i = 0; i < r; i++) {
        if (i) ENSURES("sorted", b(i - 1, 0) <= b(i, 0));
        size_t n = 0, k = 0;
        for (size_t j = 0; j < r; j++) { n += a(j, 0) == a(i, 0); k += b(j, 0) == a(i, 0); }
        ENSURES("every row kept", n == k);
    }
}
VC_OPT(sortThree, "split=Rows")
VC_DRIVER_BOUNDED(sortThree, "Matrix::sortRows, QSRows_, partitionRows_, isGEQ_", "three rows of one column, every value") { sortThree(3); }
VC_OPT(sortTwo, "split=Rows")
VC_DRIVER_BOUNDED(sortTwo, "Matrix::sortRows, QSRows_, partitionRows_, isGEQ_", "two rows of one column, every value") { sortThree(2); }
static void sortPairs(size_t r, size_t c0, size_t c1) {
    DI a(r, 2);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < 2; j++) a(i, j) = (int)vc::integer("a", -1000000, 1000000);
    DI b(a);
    b.sortRows(c0, c1);
    for (size_t i = 0; i < r; i++) {
        if (i) ENSURES("sorted by the given columns", c0 == c1 ? b(i - 1, c0) <= b(i, c0) : b(i - 1, 0) < b(i, 0) || (b(i - 1, 0) == b(i, 0) && b(i - 1, 1) <= b(i, 1)));
        size_t n = 0, k = 0;
        for (size_t j = 0; j < r; j++) { n += a(j, 0) == a(i, 0) && a(j, 1) == a(i, 1); k += b(j, 0) == a(i, 0) && b(j, 1) == a(i, 1); }
        ENSURES("every row kept", n == k);
    }
}
VC_OPT(sortPairs, "split=Rows")
VC_DRIVER_BOUNDED(sortPairs, "Matrix::sortRows, QSRows_, partitionRows_, isGEQ_", "three rows of two columns, sorted by both, every value") { sortPairs(3, 0, 1); }
VC_OPT(sortSecond, "split=Rows")
VC_DRIVER_BOUNDED(sortSecond, "Matrix::sortRows, QSRows_, partitionRows_, isGEQ_", "three rows of two columns, sorted by the second, every value") { sortPairs(3, 1, 1); }
VC_OPT(unique, "split=Rows")
VC_DRIVER_BOUNDED(unique, "Dynamic::sortAndRemoveRepeatedRows, removeRepeatedSortedRows", "three rows of one column, every value") {
    DI a(3, 1);
    for (size_t i = 0; i < 3; i++) a(i, 0) = (int)vc::integer("a", -1000000, 1000000);
    DI b(a);
    b.sortAndRemoveRepeatedRows();
    for (size_t i = 1; i < b.nRows(); i++) ENSURES("sorted without repetition", b(i - 1, 0) < b(i, 0));
    for (size_t i = 0; i < 3; i++) {
        size_t n = 0;
        for (size_t j = 0; j < b.nRows(); j++) n += b(j, 0) == a(i, 0);
        ENSURES("each distinct row kept once", n == 1);
    }
}
VC_NATIVE(merging, "Dynamic::mergeSortedRows", "up to 5 and 5 sorted rows of two columns") {
    long r = vc::integer("r", 1, 5), s = vc::integer("s", 1, 5);
    RefI m = someInt(r, 2), n = someInt(s, 2);
    DI a = makeInt(m, 2), b = makeInt(n, 2), c(a);
    a.sortRows(0, 1);
    b.sortRows(0, 1);
    c = a;
    c.mergeSortedRows(b, 0, 1);
    ENSURES("all the rows of both", (long)c.nRows() == r + s && c.nCols() == 2);
    for (long i = 0; i < r + s; i++) {
        if (i) ENSURES("merged rows are sorted", cmp(c, i - 1, c, i, 0, 1) <= 0);
        ENSURES("each row as often as in both", count(c, c, i) == count(a, c, i) + count(b, c, i));
    }
}
VC_NATIVE(orders, "Dynamic::operator==, operator<", "integer and real matrices up to 3x3") {
    long r = vc::integer("r", 1, 3), c = vc::integer("c", 1, 3), q = vc::integer("q", 1, 3);
    RefI m = someInt(r, c), n = vc::boolean("same") ? m : someInt(r, c);
    DI a = makeInt(m, c), b = makeInt(n, c);
    ENSURES("integer matrices are equal iff their entries are", (a == b) == (m == n));
    ENSURES("lexicographic order by rows", (a < b) == (m < n) && (b < a) == (n < m));
    ENSURES("matrices of different size differ", q == r || !(a == DI(q, c)));
    DR x(r, c), y(r, c);
    for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) { x(i, j) = m[i][j] / 3.0; y(i, j) = n[i][j] / 3.0; }
    ENSURES("real matrices are equal iff their entries are", (x == y) == (m == n));
}
static void factor(size_t n) {
    Ref m = some(n, n);
#if !VC_PROVING
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { REQUIRES(ab(m[i][j]) < 20); if (i == j) m[i][j] += m[i][j] < 0 ? -65 : 65; }
#endif
    DR a = make(m, n), q(n, n), r(n, n);
    a.factorizeQR_(q, r);
    for (size_t i = 0; i < n; i++) REQUIRES(r(i, i) != 0);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        double p = 0, o = 0;
        for (size_t k = 0; k < n; k++) { p += q(i, k) * r(k, j); o += q(k, i) * q(k, j); }
#if !VC_PROVING
        ENSURES("Q times R is the matrix", ab(p - m[i][j]) < 1e-8);
        ENSURES("columns of Q are orthonormal", ab(o - (i == j ? 1 : 0)) < 1e-6);
#else
        ENSURES("Q times R is the matrix", p == m[i][j]);
        ENSURES("columns of Q are orthonormal", o == (i == j ? 1 : 0));
#endif
        if (i > j) ENSURES("R is upper triangular", r(i, j) == 0);
    }
    ENSURES("the matrix is unchanged", same(a, m, n));
}
VC_NATIVE(factorNative, "Matrix::factorizeQR_", "invertible matrices up to 4x4") { factor(vc::integer("n", 1, 4)); }
VC_DRIVER_BOUNDED(factor1, "Matrix::factorizeQR_", "1x1 matrices, every entry") { factor(1); }
VC_NATIVE(inverse, "Dynamic::invert", "invertible matrices up to 4x4") {
    long n = vc::integer("n", 1, 4);
    Ref m = some(n, n);
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { REQUIRES(ab(m[i][j]) < 20); if (i == j) m[i][j] += m[i][j] < 0 ? -100 : 100; }
    DR a = make(m, n), b = a.invert();
    ENSURES("the inverted matrix is a new one", same(a, m, n));
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) {
        double x = 0;
        for (long k = 0; k < n; k++) x += m[i][k] * b(k, j);
        ENSURES("the matrix times its inverse is the identity", ab(x - (i == j ? 1 : 0)) < 1e-8);
    }
}
