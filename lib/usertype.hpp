#ifndef VF_USERTYPE_HPP
#define VF_USERTYPE_HPP
// user defined base types: Usr<double> and Usr<Gf>, which detect use of objects that were not constructed, were copied bit by bit,
// or were destroyed; Gf is exact arithmetic modulo a prime, where sin(v), exp(v), ... of one number are arbitrary but fixed numbers.
#include <cppad/base_require.hpp>
#include "report.hpp"
#include "rng.hpp"
#include <cmath>
#include <string>
namespace vf {
struct Gf {
    static constexpr uint64_t P = 2147483647u;
    uint32_t v = 0; bool bad = false;
    Gf() {}
    static Gf raw(uint64_t x, bool b = false) { Gf r; r.v = uint32_t(x % P); r.bad = b; return r; }
    static Gf nan() { return raw(0, true); }
    Gf(double d)
    {   if( !(std::fabs(d) < 1e300) ) { bad = true; return; }
        if( d == 0 ) return; int e; double m = std::frexp(std::fabs(d), &e); uint64_t k = uint64_t(std::ldexp(m, 53)); e -= 53;
        Gf r = raw(k), two = raw(2); if( e < 0 ) { two = two.inv(); e = -e; } r = r * two.pow(uint64_t(e)); if( d < 0 ) r = -r; *this = r; }
    Gf operator-() const { return raw(P - v, bad); }
    friend Gf operator+(Gf a, Gf b) { return raw(uint64_t(a.v) + b.v, a.bad || b.bad); }
    friend Gf operator-(Gf a, Gf b) { return raw(uint64_t(a.v) + P - b.v, a.bad || b.bad); }
    friend Gf operator*(Gf a, Gf b) { return raw(uint64_t(a.v) * b.v, a.bad || b.bad); }
    friend Gf operator/(Gf a, Gf b) { return a * b.inv(); }
    friend bool operator==(Gf a, Gf b) { return ! a.bad && ! b.bad && a.v == b.v; }
    friend bool operator!=(Gf a, Gf b) { return ! (a == b); }
    Gf pow(uint64_t k) const { Gf r = raw(1, bad), b = *this; for(; k; k >>= 1) { if( k & 1 ) r = r * b; b = b * b; } return r; }
    Gf inv() const { if( v == 0 ) return nan(); return pow(P - 2); }
    Gf sqrt() const { Gf r = pow((P + 1) / 4); if( ! (r * r == *this) ) return nan(); return r; }
    double d() const { return bad ? std::nan("") : double(v); }
};
enum Fn { F_ACOS, F_ACOSH, F_ASIN, F_ASINH, F_ATAN, F_ATANH, F_COS, F_COSH, F_ERF, F_ERFC, F_EXP, F_EXPM1, F_FABS, F_LOG, F_LOG1P, F_LOG10, F_SIN, F_SINH, F_SQRT, F_TAN, F_TANH, F_SIGN };
// the functions of one number
inline Gf fn(int k, Gf x)
{   if( k == F_SQRT ) return x.sqrt(); if( k == F_SIGN ) return x.v == 0 ? x : Gf(1.0); if( k == F_FABS ) return x;
    if( k == F_ERFC ) return Gf(1.0) - fn(F_ERF, x);
    return Gf::raw(mix64(x.v * 64ull + uint64_t(k)) >> 20, x.bad); }
inline Gf fn_pow(Gf x, Gf y) { return Gf::raw(mix64((uint64_t(x.v) << 31 ^ y.v) + 77) >> 20, x.bad || y.bad); }
inline Gf azm(Gf x, Gf y) { if( ! x.bad && x.v == 0 ) return x; return x * y; }
inline bool less(Gf x, Gf y) { return ! x.bad && ! y.bad && x.v < y.v; }
inline double dbl(Gf x) { return x.d(); }
inline double fn(int k, double x)
{   switch(k) { case F_ACOS: return std::acos(x); case F_ACOSH: return std::acosh(x); case F_ASIN: return std::asin(x); case F_ASINH: return std::asinh(x); case F_ATAN: return std::atan(x);
    case F_ATANH: return std::atanh(x); case F_COS: return std::cos(x); case F_COSH: return std::cosh(x); case F_ERF: return std::erf(x); case F_ERFC: return std::erfc(x); case F_EXP: return std::exp(x);
    case F_EXPM1: return std::expm1(x); case F_FABS: return std::fabs(x); case F_LOG: return std::log(x); case F_LOG1P: return std::log1p(x); case F_LOG10: return std::log10(x); case F_SIN: return std::sin(x);
    case F_SINH: return std::sinh(x); case F_SQRT: return std::sqrt(x); case F_TAN: return std::tan(x); case F_TANH: return std::tanh(x); default: return x > 0 ? 1. : (x < 0 ? -1. : 0.); } }
inline double fn_pow(double x, double y) { return std::pow(x, y); }
inline double azm(double x, double y) { return x == 0 ? 0. : x * y; }
inline bool less(double x, double y) { return x < y; }
inline double dbl(double x) { return x; }
// number of objects alive and number of uses of something that is not an object
struct Life { long live = 0, made = 0, bad = 0; const char* what = ""; };
inline Life& life() { static Life l; return l; }
template <class T> class Usr {
    T v_; const void* self_; uint32_t magic_;
    static const uint32_t M = 0x51a7e0b1u;
    void init() { self_ = this; magic_ = M; ++life().live; ++life().made; }
    void chk(const char* w) const { if( self_ != this || magic_ != M ) { ++life().bad; life().what = w; } }
public:
    Usr() : v_(T(std::nan(""))) { init(); }
    Usr(double d) : v_(d) { init(); }
    Usr(int i) : v_(double(i)) { init(); }
    Usr(size_t i) : v_(double(i)) { init(); }
    Usr(const T& t, int) : v_(t) { init(); }
    Usr(const Usr& x) : v_(x.get("copied")) { init(); }
    ~Usr() { chk("destroyed"); *const_cast<const void* volatile*>(&self_) = nullptr; *const_cast<volatile uint32_t*>(&magic_) = 0xdeaddead; --life().live; }
    T get(const char* w = "used") const { chk(w); return v_; }
    void operator=(const Usr& x) { chk("assigned to"); v_ = x.get("assigned from"); }
    void operator+=(const Usr& x) { chk("+="); v_ = v_ + x.get(); }
    void operator-=(const Usr& x) { chk("-="); v_ = v_ - x.get(); }
    void operator*=(const Usr& x) { chk("*="); v_ = v_ * x.get(); }
    void operator/=(const Usr& x) { chk("/="); v_ = v_ / x.get(); }
    Usr operator-() const { return Usr(- get(), 0); }
    Usr operator+() const { return *this; }
    Usr operator+(const Usr& x) const { return Usr(get() + x.get(), 0); }
    Usr operator-(const Usr& x) const { return Usr(get() - x.get(), 0); }
    Usr operator*(const Usr& x) const { return Usr(get() * x.get(), 0); }
    Usr operator/(const Usr& x) const { return Usr(get() / x.get(), 0); }
    bool operator==(const Usr& x) const { return get() == x.get(); }
    bool operator!=(const Usr& x) const { return get() != x.get(); }
};
typedef Usr<double> UD; typedef Usr<Gf> UG;
inline uint64_t bits_of(double d) { uint64_t k; memcpy(&k, &d, 8); return k; }
// comparisons of AD<UD> objects use these; UG only has what is documented as required
inline bool operator<(const UD& a, const UD& b) { return a.get() < b.get(); }
inline bool operator<=(const UD& a, const UD& b) { return a.get() <= b.get(); }
inline bool operator>(const UD& a, const UD& b) { return a.get() > b.get(); }
inline bool operator>=(const UD& a, const UD& b) { return a.get() >= b.get(); }
// a type that is not ordered: error when used
inline bool not_ordered() { ++life().bad; life().what = "ordered"; return false; }
inline bool operator<(const UG&, const UG&) { return not_ordered(); }
inline bool operator<=(const UG&, const UG&) { return not_ordered(); }
inline bool operator>(const UG&, const UG&) { return not_ordered(); }
inline bool operator>=(const UG&, const UG&) { return not_ordered(); }
} // namespace vf
#define VF_UNARY(U, f, k) inline U f(const U& x) { return U(vf::fn(vf::k, x.get()), 0); }
#define VF_USER_TYPE(U, T) namespace CppAD { \
    inline U CondExpOp(enum CompareOp cop, const U& l, const U& r, const U& t, const U& f) { T a = l.get(), b = r.get(); bool lt = vf::less(a, b), eq = a == b, gt = vf::less(b, a); \
        switch(cop) { case CompareLt: return lt ? t : f; case CompareLe: return lt || eq ? t : f; case CompareEq: return eq ? t : f; case CompareGe: return gt || eq ? t : f; case CompareGt: return gt ? t : f; default: return ! eq ? t : f; } } \
    CPPAD_COND_EXP_REL(U) \
    inline bool EqualOpSeq(const U& x, const U& y) { return x.get() == y.get(); } \
    inline bool IdenticalCon(const U& x) { x.get(); return true; } \
    inline bool IdenticalZero(const U& x) { return x.get() == T(0.0); } \
    inline bool IdenticalOne(const U& x) { return x.get() == T(1.0); } \
    inline bool IdenticalEqualCon(const U& x, const U& y) { return x.get() == y.get(); } \
    inline std::ostream& operator<<(std::ostream& os, const U& x) { os << vf::dbl(x.get()); return os; } \
    inline int Integer(const U& x) { return int(vf::dbl(x.get())); } \
    CPPAD_AZMUL(U) \
    inline bool GreaterThanZero(const U& x) { return vf::less(T(0.0), x.get()); } \
    inline bool GreaterThanOrZero(const U& x) { return vf::less(T(0.0), x.get()) || x.get() == T(0.0); } \
    inline bool LessThanZero(const U& x) { return vf::less(x.get(), T(0.0)); } \
    inline bool LessThanOrZero(const U& x) { return vf::less(x.get(), T(0.0)) || x.get() == T(0.0); } \
    inline bool abs_geq(const U& x, const U& y) { return std::fabs(vf::dbl(x.get())) >= std::fabs(vf::dbl(y.get())); } \
    VF_UNARY(U, acos, F_ACOS) VF_UNARY(U, acosh, F_ACOSH) VF_UNARY(U, asin, F_ASIN) VF_UNARY(U, asinh, F_ASINH) VF_UNARY(U, atan, F_ATAN) VF_UNARY(U, atanh, F_ATANH) \
    VF_UNARY(U, cos, F_COS) VF_UNARY(U, cosh, F_COSH) VF_UNARY(U, erf, F_ERF) VF_UNARY(U, erfc, F_ERFC) VF_UNARY(U, exp, F_EXP) VF_UNARY(U, expm1, F_EXPM1) VF_UNARY(U, fabs, F_FABS) VF_UNARY(U, abs, F_FABS) \
    VF_UNARY(U, log, F_LOG) VF_UNARY(U, log1p, F_LOG1P) VF_UNARY(U, log10, F_LOG10) VF_UNARY(U, sin, F_SIN) VF_UNARY(U, sinh, F_SINH) VF_UNARY(U, sqrt, F_SQRT) VF_UNARY(U, tan, F_TAN) VF_UNARY(U, tanh, F_TANH) VF_UNARY(U, sign, F_SIGN) \
    inline U pow(const U& x, const U& y) { return U(vf::fn_pow(x.get(), y.get()), 0); } \
    inline bool isnan(const U& x) { return x.get() != x.get(); } \
    CPPAD_NUMERIC_LIMITS(double, U) \
    CPPAD_TO_STRING(U) \
    inline unsigned short hash_code(const U& x) { double d = vf::dbl(x.get()); return d == d ? (unsigned short)(vf::mix64(vf::bits_of(d)) % CPPAD_HASH_TABLE_SIZE) : (unsigned short)(0); } }
VF_USER_TYPE(vf::UD, double)
VF_USER_TYPE(vf::UG, vf::Gf)
#endif
