#ifndef VF_GFSER_HPP
#define VF_GFSER_HPP
// reference for Usr<Gf>: truncated power series with exact coefficients a + b * eps, eps * eps = 0.
// A function of one number is expanded as sum_k c_k (x - x0)^k with x0 the constant term, c_k from closed forms.
#include "usertype.hpp"
#include <vector>
namespace vf {
struct Dual { Gf a, b; };
inline Dual operator+(Dual x, Dual y) { return {x.a + y.a, x.b + y.b}; }
inline Dual operator-(Dual x, Dual y) { return {x.a - y.a, x.b - y.b}; }
inline Dual operator*(Dual x, Dual y) { return {x.a * y.a, x.a * y.b + x.b * y.a}; }
inline int& ser_order() { static int k = 0; return k; }
struct Ser {
    std::vector<Dual> c;
    Ser() : c(size_t(ser_order()) + 1) {}
    Ser(double d) : Ser() { c[0].a = Gf(d); }
    static Ser con(Gf g) { Ser s; s.c[0].a = g; return s; }
    Gf x0() const { return c[0].a; }
};
inline Ser operator+(const Ser& x, const Ser& y) { Ser r; for(size_t k = 0; k < r.c.size(); ++k) r.c[k] = x.c[k] + y.c[k]; return r; }
inline Ser operator-(const Ser& x, const Ser& y) { Ser r; for(size_t k = 0; k < r.c.size(); ++k) r.c[k] = x.c[k] - y.c[k]; return r; }
inline Ser operator-(const Ser& x) { return Ser() - x; }
inline Ser operator+(const Ser& x) { return x; }
inline Ser operator*(const Ser& x, const Ser& y) { Ser r; for(size_t k = 0; k < r.c.size(); ++k) for(size_t l = 0; l <= k; ++l) r.c[k] = r.c[k] + x.c[l] * y.c[k - l]; return r; }
inline Ser& operator+=(Ser& x, const Ser& y) { return x = x + y; }
typedef std::vector<Gf> Pol; // scalar power series in u
inline size_t pol_n() { return size_t(ser_order()) + 3; } // (x - x0)^(order + 2) is zero
inline Pol pol(Gf a, Gf b = Gf(), Gf c = Gf()) { Pol r(pol_n()); r[0] = a; if( r.size() > 1 ) r[1] = b; if( r.size() > 2 ) r[2] = c; return r; }
inline Pol mul(const Pol& x, const Pol& y) { Pol r(x.size()); for(size_t i = 0; i < r.size(); ++i) for(size_t j = 0; j + i < r.size(); ++j) r[i + j] = r[i + j] + x[i] * y[j]; return r; }
inline Pol scale(Pol x, Gf s) { for(auto& z : x) z = z * s; return x; }
inline Pol sub(Pol x, const Pol& y) { for(size_t i = 0; i < x.size(); ++i) x[i] = x[i] - y[i]; return x; }
// value v * (w / w0)^e
inline Pol pol_pow(const Pol& w, Gf v, Gf e)
{   Pol u = scale(w, w[0].inv()); u[0] = Gf(); Pol r(w.size()), t = pol(Gf(1.0)); Gf b(1.0); for(size_t k = 0; k < r.size(); ++k) { for(size_t i = 0; i < r.size(); ++i) r[i] = r[i] + b * t[i]; t = mul(t, u); b = b * (e - Gf(double(k))) / Gf(double(k + 1)); } return scale(r, v); }
inline Pol pol_exp(const Pol& w, Gf v) // value v * exp(w - w0)
{   Pol u = w; u[0] = Gf(); Pol r(w.size()), t = pol(Gf(1.0)); Gf b(1.0); for(size_t k = 0; k < r.size(); ++k) { for(size_t i = 0; i < r.size(); ++i) r[i] = r[i] + b * t[i]; t = mul(t, u); b = b / Gf(double(k + 1)); } return scale(r, v); }
inline Pol integ(const Pol& g, Gf v) { Pol r(g.size()); r[0] = v; for(size_t k = 1; k < r.size(); ++k) r[k] = g[k - 1] / Gf(double(k)); return r; }
inline Pol inv(const Pol& w) { return pol_pow(w, w[0].inv(), Gf(-1.0)); }
inline Pol trig(Gf s, Gf c, double sg) // s * C(u) + c * S(u), S'' = sg * S
{   Pol r = pol(s); Gf f(1.0), sgn(1.0); for(size_t k = 1; k < r.size(); ++k) { f = f / Gf(double(k)); if( k % 2 == 0 ) sgn = sgn * Gf(sg); r[k] = (k % 2 ? c : s) * f * sgn; } return r; }
inline Ser expand(const Pol& c, const Ser& x) { Ser u = x; u.c[0].a = Gf(); Ser r; for(size_t k = c.size(); k-- > 0;) r = r * u + Ser::con(c[k]); return r; }
inline Ser fn(int k, const Ser& x)
{   Gf a = x.x0(), one(1.0), two(2.0), z0 = fn(k, a); Pol x1 = pol(a, one), xx = pol(a * a, two * a, one), c;
    switch(k)
    {   case F_EXP: c = pol_exp(x1, z0); break;
        case F_EXPM1: c = pol_exp(x1, z0 + one); c[0] = z0; break;
        case F_LOG: c = integ(inv(x1), z0); break;
        case F_LOG1P: c = integ(inv(pol(a + one, one)), z0); break;
        case F_LOG10: { Gf d = fn(F_LOG, Gf(10.0)); c = scale(integ(inv(x1), fn(F_LOG, a)), d.inv()); break; }
        case F_SIN: c = trig(z0, fn(F_COS, a), -1); break;
        case F_COS: c = trig(z0, - fn(F_SIN, a), -1); break;
        case F_SINH: c = trig(z0, fn(F_COSH, a), 1); break;
        case F_COSH: c = trig(z0, fn(F_SINH, a), 1); break;
        case F_TAN: case F_TANH: { double sg = k == F_TAN ? -1 : 1; Pol t = mul(trig(Gf(), one, sg), inv(trig(one, Gf(), sg))); // (z0 + t) / (1 - (- sg) z0 t)
            Pol num = t; num[0] = num[0] + z0; Pol den = scale(t, Gf(sg) * z0); den[0] = den[0] + one; c = mul(num, inv(den)); break; }
        case F_SQRT: c = pol_pow(x1, z0, one / two); break;
        case F_ASIN: case F_ACOS: { Pol w = sub(pol(one), xx); c = pol_pow(w, w[0].sqrt().inv(), - one / two); if( k == F_ACOS ) c = scale(c, -one); c = integ(c, z0); break; }
        case F_ASINH: { Pol w = xx; w[0] = w[0] + one; c = integ(pol_pow(w, w[0].sqrt().inv(), - one / two), z0); break; }
        case F_ACOSH: { Pol w = xx; w[0] = w[0] - one; c = integ(pol_pow(w, w[0].sqrt().inv(), - one / two), z0); break; }
        case F_ATAN: { Pol w = xx; w[0] = w[0] + one; c = integ(inv(w), z0); break; }
        case F_ATANH: c = integ(inv(sub(pol(one), xx)), z0); break;
        case F_ERF: case F_ERFC: { Pol w = scale(xx, -one); Gf f(1.0 / std::sqrt(std::atan(1.0))); if( k == F_ERFC ) f = -f; c = integ(scale(pol_exp(w, fn(F_EXP, w[0])), f), z0); break; }
        case F_FABS: return Ser::con(fn(F_SIGN, a)) * x; // every nonzero number is positive
        case F_SIGN: c = pol(z0); break;
        default: abort();
    }
    return expand(c, x); }
inline Ser operator/(const Ser& x, const Ser& y) { return x * expand(inv(pol(y.x0(), Gf(1.0))), y); }
inline Ser pow(const Ser& x, const Ser& y) { if( x.x0().v == 0 || y.x0().v == 0 ) return Ser::con(Gf::nan()); // zero is special for powers
    Ser u = fn(F_LOG, x) * y; return expand(pol_exp(pol(u.x0(), Gf(1.0)), fn_pow(x.x0(), y.x0())), u); }
inline Ser powc_(const Ser& x, double c) { return pow(x, Ser(c)); }
inline Ser azmul(const Ser& x, const Ser& y) { return x * y; }
inline Ser atan2(const Ser&, const Ser&) { abort(); }
inline double val(const Ser& x) { return x.x0().d(); }
#define VF_S(f, k) inline Ser f(const Ser& x) { return fn(k, x); }
VF_S(acos, F_ACOS) VF_S(acosh, F_ACOSH) VF_S(asin, F_ASIN) VF_S(asinh, F_ASINH) VF_S(atan, F_ATAN) VF_S(atanh, F_ATANH) VF_S(cos, F_COS) VF_S(cosh, F_COSH) VF_S(erf, F_ERF) VF_S(erfc, F_ERFC)
VF_S(exp, F_EXP) VF_S(expm1, F_EXPM1) VF_S(fabs, F_FABS) VF_S(abs, F_FABS) VF_S(log, F_LOG) VF_S(log1p, F_LOG1P) VF_S(log10, F_LOG10) VF_S(sin, F_SIN) VF_S(sinh, F_SINH) VF_S(sqrt, F_SQRT) VF_S(tan, F_TAN) VF_S(tanh, F_TANH) VF_S(sign, F_SIGN)
#undef VF_S
} // namespace vf
#endif
