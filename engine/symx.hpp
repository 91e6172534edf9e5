// symx: a symbolic real scalar.  The templates of /repo/include/tlapack are
// instantiated with sx::SReal and std::complex<sx::SReal>; running them builds
// terms, and the engine (symx.cpp) asks an SMT solver about the terms.
#ifndef SYMX_HPP
#define SYMX_HPP
#include <cstdint>
#include <cstddef>
#include <complex>
#include <functional>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include <iosfwd>
#include <random>

#ifndef SX_MAX_EXP
#define SX_MAX_EXP 128
#endif
namespace sx {

typedef uint32_t nid;
enum : nid { ZERO = 0, ONE = 1, NANV = 2, PINF = 3, NINF = 4, POISON = 5, TAINT = 6 };  // TAINT: computed from POISON

// engine entry points ------------------------------------------------------
nid mk_int(long long v);
nid mk_dbl(double v);
nid mk_rat(long long n, long long d);
nid mk_pow2(int e);
nid e_add(nid a, nid b);
nid e_sub(nid a, nid b);
nid e_mul(nid a, nid b);
nid e_div(nid a, nid b);
nid e_neg(nid a);
nid e_abs(nid a);
nid e_sqrt(nid a, bool known_nonneg = false);
nid e_hypot(nid a, nid b);
nid e_pow(nid base, nid expo);
nid e_unary_const(int which, nid a);  // 0 log2 1 ceil 2 floor
void e_cdiv(nid ar, nid ai, nid br, nid bi, nid& qr, nid& qi);
void e_csqrt(nid ar, nid ai, nid& qr, nid& qi);
enum { LT = 1, EQ = 2, GT = 4, LE = 3, GE = 6, NE = 5 };
bool e_branch(nid a, nid b, int mask);
bool e_branch_eq2(nid ar, nid ai, nid br, nid bi);
bool e_is_nan(nid a);
bool e_is_inf(nid a);
double e_to_double(nid a);

// exponents of the machine epsilon and of the smallest normal number
inline int& eps_exp() { static int e = -23; return e; }
inline int& min_exp() { static int e = 2 - SX_MAX_EXP; return e; }
struct SReal {
    nid id;
    struct raw {};
    SReal() : id(ZERO) {}
    SReal(raw, nid i) : id(i) {}
    template <class A, std::enable_if_t<std::is_integral_v<A>, int> = 0>
    SReal(A v) : id(mk_int((long long)v)) {}
    template <class A, std::enable_if_t<std::is_floating_point_v<A>, int> = 0, int = 0>
    SReal(A v) : id(mk_dbl((double)v)) {}
    SReal(const SReal&) = default;
    SReal& operator=(const SReal&) = default;
    explicit operator double() const { return e_to_double(id); }
    explicit operator float() const { return (float)e_to_double(id); }
#ifdef SYMX_IMPLICIT_INT
    operator int() const { return (int)e_to_double(id); }
#else
    explicit operator int() const { return (int)e_to_double(id); }
#endif
    explicit operator long() const { return (long)e_to_double(id); }
    explicit operator size_t() const { return (size_t)e_to_double(id); }
    SReal& operator+=(const SReal& o) { id = e_add(id, o.id); return *this; }
    SReal& operator-=(const SReal& o) { id = e_sub(id, o.id); return *this; }
    SReal& operator*=(const SReal& o) { id = e_mul(id, o.id); return *this; }
    SReal& operator/=(const SReal& o) { id = e_div(id, o.id); return *this; }
};
inline SReal R(nid i) { return SReal(SReal::raw{}, i); }
inline SReal operator+(const SReal& a, const SReal& b) { return R(e_add(a.id, b.id)); }
inline SReal operator-(const SReal& a, const SReal& b) { return R(e_sub(a.id, b.id)); }
inline SReal operator*(const SReal& a, const SReal& b) { return R(e_mul(a.id, b.id)); }
inline SReal operator/(const SReal& a, const SReal& b) { return R(e_div(a.id, b.id)); }
inline SReal operator-(const SReal& a) { return R(e_neg(a.id)); }
inline SReal operator+(const SReal& a) { return a; }
inline bool operator<(const SReal& a, const SReal& b) { return e_branch(a.id, b.id, LT); }
inline bool operator>(const SReal& a, const SReal& b) { return e_branch(a.id, b.id, GT); }
inline bool operator<=(const SReal& a, const SReal& b) { return e_branch(a.id, b.id, LE); }
inline bool operator>=(const SReal& a, const SReal& b) { return e_branch(a.id, b.id, GE); }
inline bool operator==(const SReal& a, const SReal& b) { return e_branch(a.id, b.id, EQ); }
inline bool operator!=(const SReal& a, const SReal& b) { return !e_branch(a.id, b.id, EQ); }
#define SX_MIX(op, R_) \
    template <class A, std::enable_if_t<std::is_arithmetic_v<A>, int> = 0> R_ operator op(const SReal& a, A b) { return a op SReal(b); } \
    template <class A, std::enable_if_t<std::is_arithmetic_v<A>, int> = 0> R_ operator op(A a, const SReal& b) { return SReal(a) op b; }
SX_MIX(+, SReal) SX_MIX(-, SReal) SX_MIX(*, SReal) SX_MIX(/, SReal)
SX_MIX(<, bool) SX_MIX(>, bool) SX_MIX(<=, bool) SX_MIX(>=, bool) SX_MIX(==, bool) SX_MIX(!=, bool)
inline SReal abs(const SReal& a) { return R(e_abs(a.id)); }
inline SReal fabs(const SReal& a) { return R(e_abs(a.id)); }
inline SReal sqrt(const SReal& a) { return R(e_sqrt(a.id)); }
inline SReal hypot(const SReal& a, const SReal& b) { return R(e_hypot(a.id, b.id)); }
inline SReal fma(const SReal& a, const SReal& b, const SReal& c) { return a * b + c; }
inline SReal pow(int b, const SReal& e) { return R(e_pow(mk_int(b), e.id)); }
inline SReal pow(const SReal& b, const SReal& e) { return R(e_pow(b.id, e.id)); }
inline SReal pow(const SReal& b, int e) { return R(e_pow(b.id, mk_int(e))); }
inline SReal log2(const SReal& a) { return R(e_unary_const(0, a.id)); }
inline SReal ceil(const SReal& a) { return R(e_unary_const(1, a.id)); }
inline SReal floor(const SReal& a) { return R(e_unary_const(2, a.id)); }
inline bool isnan(const SReal& a) { return e_is_nan(a.id); }
inline bool isinf(const SReal& a) { return e_is_inf(a.id); }
inline bool isfinite(const SReal& a) { return !e_is_nan(a.id) && !e_is_inf(a.id); }
inline SReal fmax(const SReal& a, const SReal& b) { if (isnan(a)) return b; if (isnan(b)) return a; return (a < b) ? b : a; }
inline SReal fmin(const SReal& a, const SReal& b) { if (isnan(a)) return b; if (isnan(b)) return a; return (b < a) ? b : a; }
inline bool signbit(const SReal& a) { return a < SReal(0); }
inline SReal copysign(const SReal& a, const SReal& b) { return signbit(b) ? -abs(a) : abs(a); }
std::ostream& operator<<(std::ostream&, const SReal&);
std::istream& operator>>(std::istream&, SReal&);
}  // namespace sx

namespace std {
template <>
class complex<sx::SReal> {
    sx::SReal re_, im_;

  public:
    typedef sx::SReal value_type;
    complex(const sx::SReal& r = sx::SReal(), const sx::SReal& i = sx::SReal()) : re_(r), im_(i) {}
    template <class A, std::enable_if_t<std::is_arithmetic_v<A>, int> = 0>
    complex(A v) : re_(v), im_() {}
    complex(const complex&) = default;
    complex& operator=(const complex&) = default;
    complex& operator=(const sx::SReal& r) { re_ = r; im_ = sx::SReal(); return *this; }
    sx::SReal real() const { return re_; }
    sx::SReal imag() const { return im_; }
    void real(const sx::SReal& v) { re_ = v; }
    void imag(const sx::SReal& v) { im_ = v; }
    complex& operator+=(const complex& o) { re_ += o.re_; im_ += o.im_; return *this; }
    complex& operator-=(const complex& o) { re_ -= o.re_; im_ -= o.im_; return *this; }
    complex& operator*=(const complex& o)
    {
        sx::SReal r = re_ * o.re_ - im_ * o.im_;
        im_ = re_ * o.im_ + im_ * o.re_;
        re_ = r;
        return *this;
    }
    complex& operator/=(const complex& o)
    {
        sx::nid a, b;
        sx::e_cdiv(re_.id, im_.id, o.re_.id, o.im_.id, a, b);
        re_ = sx::R(a);
        im_ = sx::R(b);
        return *this;
    }
    complex& operator+=(const sx::SReal& o) { re_ += o; return *this; }
    complex& operator-=(const sx::SReal& o) { re_ -= o; return *this; }
    complex& operator*=(const sx::SReal& o) { re_ *= o; im_ *= o; return *this; }
    complex& operator/=(const sx::SReal& o) { re_ /= o; im_ /= o; return *this; }
};
}  // namespace std

namespace sx {
typedef std::complex<SReal> SComplex;
inline SComplex operator+(const SComplex& a, const SComplex& b) { SComplex r(a); r += b; return r; }
inline SComplex operator-(const SComplex& a, const SComplex& b) { SComplex r(a); r -= b; return r; }
inline SComplex operator*(const SComplex& a, const SComplex& b) { SComplex r(a); r *= b; return r; }
inline SComplex operator/(const SComplex& a, const SComplex& b) { SComplex r(a); r /= b; return r; }
inline SComplex operator-(const SComplex& a) { return SComplex(-a.real(), -a.imag()); }
inline SComplex operator+(const SComplex& a, const SReal& b) { SComplex r(a); r += b; return r; }
inline SComplex operator-(const SComplex& a, const SReal& b) { SComplex r(a); r -= b; return r; }
inline SComplex operator*(const SComplex& a, const SReal& b) { SComplex r(a); r *= b; return r; }
inline SComplex operator/(const SComplex& a, const SReal& b) { SComplex r(a); r /= b; return r; }
inline SComplex operator+(const SReal& b, const SComplex& a) { SComplex r(a); r += b; return r; }
inline SComplex operator-(const SReal& b, const SComplex& a) { return SComplex(b - a.real(), -a.imag()); }
inline SComplex operator*(const SReal& b, const SComplex& a) { SComplex r(a); r *= b; return r; }
inline SComplex operator/(const SReal& b, const SComplex& a) { return SComplex(b) / a; }
inline bool operator==(const SComplex& a, const SComplex& b) { return e_branch_eq2(a.real().id, a.imag().id, b.real().id, b.imag().id); }
inline bool operator!=(const SComplex& a, const SComplex& b) { return !(a == b); }
inline bool operator==(const SComplex& a, const SReal& b) { return e_branch_eq2(a.real().id, a.imag().id, b.id, ZERO); }
inline bool operator!=(const SComplex& a, const SReal& b) { return !(a == b); }
inline SReal abs(const SComplex& a) { return R(e_hypot(a.real().id, a.imag().id)); }
inline SReal norm(const SComplex& a) { return a.real() * a.real() + a.imag() * a.imag(); }
inline SReal real(const SComplex& a) { return a.real(); }
inline SReal imag(const SComplex& a) { return a.imag(); }
inline SComplex conj(const SComplex& a) { return SComplex(a.real(), -a.imag()); }
inline SComplex sqrt(const SComplex& a)
{
    nid r, i;
    e_csqrt(a.real().id, a.imag().id, r, i);
    return SComplex(R(r), R(i));
}
std::ostream& operator<<(std::ostream&, const SComplex&);
}  // namespace sx

namespace std {
using sx::abs;
using sx::norm;
using sx::real;
using sx::imag;
using sx::conj;
using sx::ceil;
using sx::copysign;
using sx::fabs;
using sx::floor;
using sx::fma;
using sx::fmax;
using sx::fmin;
using sx::hypot;
using sx::isfinite;
using sx::isinf;
using sx::isnan;
using sx::log2;
using sx::pow;
using sx::signbit;
using sx::sqrt;

// The same format parameters as IEEE single precision (only the exactness of
// the arithmetic differs, see DESIGN.md).
template <>
struct numeric_limits<sx::SReal> {
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false,
                          has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = true,
                          is_bounded = true, is_modulo = false, traps = false, tinyness_before = false;
    static constexpr float_denorm_style has_denorm = denorm_present;
    static constexpr float_round_style round_style = round_to_nearest;
    static constexpr int digits = 24, digits10 = 6, max_digits10 = 9, radix = 2, min_exponent = 3 - SX_MAX_EXP,
                         max_exponent = SX_MAX_EXP, min_exponent10 = -37, max_exponent10 = 38;
    static sx::SReal epsilon() noexcept { return sx::R(sx::mk_pow2(sx::eps_exp())); }
    static sx::SReal round_error() noexcept { return sx::R(sx::mk_rat(1, 2)); }
    static sx::SReal min() noexcept { return sx::R(sx::mk_pow2(sx::min_exp())); }
    static sx::SReal max() noexcept { return sx::R(sx::mk_dbl(3.40282346638528859811704183484516925e+38)); }
    static sx::SReal lowest() noexcept { return -max(); }
    static sx::SReal infinity() noexcept { return sx::R(sx::PINF); }
    static sx::SReal quiet_NaN() noexcept { return sx::R(sx::NANV); }
    static sx::SReal denorm_min() noexcept { return sx::R(sx::mk_pow2(-149)); }
};
template <>
struct numeric_limits<const sx::SReal> : numeric_limits<sx::SReal> {};
}  // namespace std

#ifndef SYMX_NO_TLAPACK
#include "tlapack/base/scalar_type_traits.hpp"
namespace tlapack {
namespace traits {
    template <>
    struct real_type_traits<sx::SReal, int> {
        using type = sx::SReal;
        constexpr static bool is_real = true;
    };
    template <>
    struct complex_type_traits<sx::SReal, int> {
        using type = std::complex<sx::SReal>;
        constexpr static bool is_complex = false;
    };
}  // namespace traits
}  // namespace tlapack
#endif

namespace sx {
// ---- harness interface ----------------------------------------------------
// Formulas (no forking; terms over SReal ids)
struct F {
    uint32_t id;
};
F f_true();
F f_false();
F f_rel(nid a, nid b, int mask);
F f_and(F a, F b);
F f_or(F a, F b);
F f_not(F a);
F f_all(const std::vector<F>& v);
F f_any(const std::vector<F>& v);
inline F eq(const SReal& a, const SReal& b) { return f_rel(a.id, b.id, EQ); }
inline F ne(const SReal& a, const SReal& b) { return f_rel(a.id, b.id, NE); }
inline F le(const SReal& a, const SReal& b) { return f_rel(a.id, b.id, LE); }
inline F lt(const SReal& a, const SReal& b) { return f_rel(a.id, b.id, LT); }
inline F ge(const SReal& a, const SReal& b) { return f_rel(a.id, b.id, GE); }
inline F gt(const SReal& a, const SReal& b) { return f_rel(a.id, b.id, GT); }
inline F eq(const SComplex& a, const SComplex& b) { return f_and(eq(a.real(), b.real()), eq(a.imag(), b.imag())); }
inline F implies(F a, F b) { return f_or(f_not(a), b); }

// fresh input variable (name unique within the case)
SReal var(const std::string& name);
template <class T> T input(const std::string& name);
template <> inline SReal input<SReal>(const std::string& n) { return var(n); }
template <> inline SComplex input<SComplex>(const std::string& n)
{
    SReal r = var(n + "r"), i = var(n + "i");
    return SComplex(r, i);
}
template <class T> T poison();
template <> inline SReal poison<SReal>() { return R(POISON); }
template <> inline SComplex poison<SComplex>() { return SComplex(R(POISON), R(POISON)); }
inline bool is_poison(const SReal& a) { return a.id == POISON; }
inline bool is_poison(const SComplex& a) { return a.real().id == POISON && a.imag().id == POISON; }
inline bool same(const SReal& a, const SReal& b) { return a.id == b.id; }
inline bool same(const SComplex& a, const SComplex& b) { return a.real().id == b.real().id && a.imag().id == b.imag().id; }
bool has_special(nid a);  // NaN, Inf or poison
inline bool has_special(const SReal& a) { return has_special(a.id); }
inline bool has_special(const SComplex& a) { return has_special(a.real().id) || has_special(a.imag().id); }

void assume(F f);
// assertion: proved for every value on the current path, or reported
void check(F f, const std::string& label);
void check_concrete(bool ok, const std::string& label);  // path-concrete fact
// collects equalities; flush() discharges them in one query
struct Batch {
    std::vector<F> fs;
    std::vector<std::string> labels;
    void eq(const SReal& a, const SReal& b, const std::string& l);
    void eq(const SComplex& a, const SComplex& b, const std::string& l);
    void add(F f, const std::string& l) { fs.push_back(f); labels.push_back(l); }
    void flush();
    ~Batch() { flush(); }
};
bool concrete_mode();
// abandon the current path (outside the claim; recorded)
[[noreturn]] void cut(const std::string& why);
[[noreturn]] void fail(const std::string& why);

struct CaseOpts {
    int max_paths = 400;
    bool strict_div = true;      // reachable division by zero is a violation
    bool poison_branch = true;   // branching on poison is a violation
    int lin_ms = 8000;
    int nra_ms = 6000;
    int feas_ms = 400;           // NRA feasibility budget (0: linear only)
    bool lemmas = true;
    double case_s = 60;          // wall budget for the case
    bool asserts_ok = false;
    int fuzz = 12;               // concrete cross-check runs
    bool param = false;          // one input variable: exact arithmetic in Q(t) with square roots adjoined
};
CaseOpts& opts();               // options of the running case
void add_case(const std::string& name, const CaseOpts& o, std::function<void()> f);
inline void add_case(const std::string& name, std::function<void()> f) { add_case(name, CaseOpts(), f); }
void covers(const std::string& function_names);  // comma separated
void bounds(const std::string& text);
void assumption(const std::string& text);
bool thorough();
int sx_main(int argc, char** argv);
void register_all();            // defined by each harness
}  // namespace sx
#endif
