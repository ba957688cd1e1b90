// Contract language of /verif: preconditions, postconditions and candidate loop invariants
// written as C++ over the real functions of /repo.  The same text is
//   * compiled to LLVM IR and proved for all inputs by /verif/vc (VC_PROVE), and
//   * compiled natively to replay counterexamples / run the bounded stand-in (no VC_PROVE).
#ifndef VC_H_
#define VC_H_
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#ifdef VC_PROVE
extern "C" {
double __vc_real(const char*);
long __vc_int(const char*, long lo, long hi);
long __vc_concrete(long);
bool __vc_bool(const char*);
void __vc_assume(bool);
void __vc_assert(const char*, bool);
void __vc_requires(const char*, bool);
long __vc_bound();
long __vc_metaint(int);
void* __vc_metavec(int);
double __vc_metareal(int);
void __vc_clear_inv();
void __vc_str(std::string*, const char*);
}
#define VC_PROVING 1
#define VC_ANNOT(s) __attribute__((annotate(s), used, noinline))
#define VC_DRIVER(id, functions) \
    extern "C" VC_ANNOT("vc.driver:" functions) void vc_drv_##id()
// driver that uses only bounded shapes (never counted as proved for all inputs)
#define VC_DRIVER_BOUNDED(id, functions, bound) \
    extern "C" VC_ANNOT("vc.driver:" functions) VC_ANNOT("vc.bounded:" bound) void vc_drv_##id()
// driver executed only natively
#define VC_NATIVE(id, functions, bound) \
    extern "C" VC_ANNOT("vc.native:" functions "|" bound) void vc_nat_##id() {} \
    static inline void vc_unused_##id()
#define VC_OPT(id, s) extern "C" VC_ANNOT("vc.opt:" #id ":" s) void vc_opt_##id() {}
#define VC_STUB(id, fn) VC_ANNOT("vc.stub:" fn)
#define ENSURES(name, e) __vc_assert(name, (e))
#define REQUIRES(e) __vc_assume(e)
#define PRE(name, e) __vc_requires(name, (e))
namespace vc {
inline double real(const char* n) { return __vc_real(n); }
inline double real_in(const char* n, double lo, double hi) { double x = __vc_real(n); __vc_assume(lo <= x && x <= hi); return x; }
inline long integer(const char* n, long lo, long hi) { return __vc_int(n, lo, hi); }
// one path per value
inline long choice(const char* n, long lo, long hi) { return __vc_concrete(__vc_int(n, lo, hi)); }
inline bool boolean(const char* n) { return __vc_bool(n); }
template<class T> void fill_vec(std::vector<T>&, const char*);
template<class T> std::vector<T> vec(const char* n) { std::vector<T> v; fill_vec<T>(v, n); return v; }
inline std::string str(const char* n) { std::string s; __vc_str(&s, n); return s; }
template<class F> bool forall_(long lo, long hi, const F& f) { return f(__vc_bound()); }
template<class F> bool exists_(long lo, long hi, const F& f) { return f(__vc_bound()); }
template<class F> bool inv_0(const F& f) { return f(); }
template<class F> bool inv_i(const F& f) { return f(__vc_metaint(0)); }
template<class F> bool inv_ii(const F& f) { return f(__vc_metaint(0), __vc_metaint(1)); }
template<class F> bool inv_r(const F& f) { return f(__vc_metareal(0)); }
template<class F> bool inv_ir(const F& f) { return f(__vc_metaint(0), __vc_metareal(0)); }
template<class T, class F> bool inv_v(const F& f) { return f(*(const std::vector<T>*)__vc_metavec(0)); }
template<class T, class F> bool inv_iv(const F& f) { return f(__vc_metaint(0), *(const std::vector<T>*)__vc_metavec(0)); }
// v: a vector the loop modifies, w: any other vector of the state
template<class T, class F> bool inv_ivw(const F& f) { return f(__vc_metaint(0), *(const std::vector<T>*)__vc_metavec(0), *(const std::vector<T>*)__vc_metavec(1)); }
inline bool eq(double a, double b) { return a == b; }
inline bool le(double a, double b) { return a <= b; }
inline bool lt(double a, double b) { return a < b; }
}
// strictly increasing positions (any length >= n)
namespace vc {
inline std::vector<double> increasing(const char* name, size_t n) {
    std::vector<double> v = vec<double>(name);
    __vc_assume(v.size() >= n);
    __vc_assume(forall_(0, (long)v.size(), [&](long k) -> bool { return forall_(0, k, [&](long j) -> bool { return v[j] < v[k]; }); }));
    return v;
}
}
#define VC_CAT_(a, b) a##b
#define VC_CAT(a, b) VC_CAT_(a, b)
#define VC_INV0(body) auto VC_CAT(vcinv, __LINE__) = [&]() -> bool body; vc::inv_0(VC_CAT(vcinv, __LINE__))
#define VC_INV(i, body) auto VC_CAT(vcinv, __LINE__) = [&](long i) -> bool body; vc::inv_i(VC_CAT(vcinv, __LINE__))
#define VC_INV2(i, j, body) auto VC_CAT(vcinv, __LINE__) = [&](long i, long j) -> bool body; vc::inv_ii(VC_CAT(vcinv, __LINE__))
#define VC_INVR(x, body) auto VC_CAT(vcinv, __LINE__) = [&](double x) -> bool body; vc::inv_r(VC_CAT(vcinv, __LINE__))
#define VC_INVIR(i, x, body) auto VC_CAT(vcinv, __LINE__) = [&](long i, double x) -> bool body; vc::inv_ir(VC_CAT(vcinv, __LINE__))
#define VC_INVV(T, v, body) auto VC_CAT(vcinv, __LINE__) = [&](const std::vector<T>& v) -> bool body; vc::inv_v<T>(VC_CAT(vcinv, __LINE__))
#define VC_INVIV(T, i, v, body) auto VC_CAT(vcinv, __LINE__) = [&](long i, const std::vector<T>& v) -> bool body; vc::inv_iv<T>(VC_CAT(vcinv, __LINE__))
#define VC_INVIVW(T, i, v, w, body) auto VC_CAT(vcinv, __LINE__) = [&](long i, const std::vector<T>& v, const std::vector<T>& w) -> bool body; vc::inv_ivw<T>(VC_CAT(vcinv, __LINE__))
// the same candidate for each of the three axes d
#define VC_AXES_(L, T, i, v, d, body) \
    auto VC_CAT(vcb, L) = [&](long d, long i, const std::vector<T>& v) -> bool body; \
    auto VC_CAT(vcx, L) = [&](long i_, const std::vector<T>& v_) -> bool { return VC_CAT(vcb, L)(0, i_, v_); }; \
    auto VC_CAT(vcy, L) = [&](long i_, const std::vector<T>& v_) -> bool { return VC_CAT(vcb, L)(1, i_, v_); }; \
    auto VC_CAT(vcz, L) = [&](long i_, const std::vector<T>& v_) -> bool { return VC_CAT(vcb, L)(2, i_, v_); }; \
    vc::inv_iv<T>(VC_CAT(vcx, L)); vc::inv_iv<T>(VC_CAT(vcy, L)); vc::inv_iv<T>(VC_CAT(vcz, L))
#define VC_INVIV3(T, i, v, d, body) VC_AXES_(__LINE__, T, i, v, d, body)
#define VC_AXESI_(L, i, d, body) \
    auto VC_CAT(vcb, L) = [&](long d, long i) -> bool body; \
    auto VC_CAT(vcx, L) = [&](long i_) -> bool { return VC_CAT(vcb, L)(0, i_); }; \
    auto VC_CAT(vcy, L) = [&](long i_) -> bool { return VC_CAT(vcb, L)(1, i_); }; \
    auto VC_CAT(vcz, L) = [&](long i_) -> bool { return VC_CAT(vcb, L)(2, i_); }; \
    vc::inv_i(VC_CAT(vcx, L)); vc::inv_i(VC_CAT(vcy, L)); vc::inv_i(VC_CAT(vcz, L))
#define VC_INVI3(i, d, body) VC_AXESI_(__LINE__, i, d, body)
#define VC_CLEAR_INV() __vc_clear_inv()

#else  // ---------------------------------------------------------------- native
#define VC_PROVING 0
namespace vc {
struct Discard {};
void reg(const char* id, void (*f)(), const char* functions, const char* bound, int kind);
struct Reg { Reg(const char* id, void (*f)(), const char* fns, const char* bound, int kind) { reg(id, f, fns, bound, kind); } };
double real(const char* n);
double real_in(const char* n, double lo, double hi);
long integer(const char* n, long lo, long hi);
bool boolean(const char* n);
inline long choice(const char* n, long lo, long hi) { return integer(n, lo, hi); }
std::string str(const char* n);
size_t length(const char* n);
void check(const char* name, bool ok, const char* file, int line);
void assume(bool);
extern double tol;
inline bool eq(double a, double b) {
    if (a == b) return true;
    double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
    return std::fabs(a - b) <= tol * (m > 1.0 ? m : 1.0);
}
inline bool le(double a, double b) { return a <= b || eq(a, b); }
inline bool lt(double a, double b) { return a < b || eq(a, b); }
template<class T> struct Gen;
template<> struct Gen<double> { static double get(const char* n) { return real(n); } };
template<> struct Gen<int> { static int get(const char* n) { return (int)integer(n, -5, 12); } };
template<> struct Gen<size_t> { static size_t get(const char* n) { return (size_t)integer(n, 0, 12); } };
template<class T> std::vector<T> vec(const char* n) {
    size_t l = length(n);
    std::vector<T> v;
    for (size_t i = 0; i < l; i++) v.push_back(Gen<T>::get(n));
    return v;
}
std::vector<double> increasing(const char* n, size_t atLeast);
template<class F> bool forall_(long lo, long hi, const F& f) { for (long k = lo; k < hi; k++) if (!f(k)) return false; return true; }
template<class F> bool exists_(long lo, long hi, const F& f) { for (long k = lo; k < hi; k++) if (f(k)) return true; return false; }
}
#define VC_DRIVER(id, functions) \
    static void vc_drv_##id(); static vc::Reg vc_reg_##id(#id, vc_drv_##id, functions, "", 0); static void vc_drv_##id()
#define VC_DRIVER_BOUNDED(id, functions, bound) \
    static void vc_drv_##id(); static vc::Reg vc_reg_##id(#id, vc_drv_##id, functions, bound, 1); static void vc_drv_##id()
#define VC_NATIVE(id, functions, bound) \
    static void vc_drv_##id(); static vc::Reg vc_reg_##id(#id, vc_drv_##id, functions, bound, 2); static void vc_drv_##id()
#define VC_OPT(id, s)
#define VC_STUB(id, fn) __attribute__((unused)) static
#define ENSURES(name, e) vc::check(name, (e), __FILE__, __LINE__)
#define REQUIRES(e) vc::assume(e)
#define PRE(name, e) vc::check(name, (e), __FILE__, __LINE__)
#define VC_INV0(body)
#define VC_INV(i, body)
#define VC_INV2(i, j, body)
#define VC_INVR(x, body)
#define VC_INVIR(i, x, body)
#define VC_INVV(T, v, body)
#define VC_INVIV(T, i, v, body)
#define VC_INVIVW(T, i, v, w, body)
#define VC_INVIV3(T, i, v, d, body)
#define VC_INVI3(i, d, body)
#define VC_CLEAR_INV()
#endif

#define FORALL(k, lo, hi, body) vc::forall_((long)(lo), (long)(hi), [&](long k) -> bool body)
#define EXISTS(k, lo, hi, body) vc::exists_((long)(lo), (long)(hi), [&](long k) -> bool body)
#define IMPLIES(a, b) (!(a) || (b))
// outcome of an expression: did it throw?
#define THROWS(stmt) ([&]() -> bool { try { stmt; return false; } catch (...) { return true; } }())
#endif
