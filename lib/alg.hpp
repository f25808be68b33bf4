#ifndef VF_ALG_HPP
#define VF_ALG_HPP
// Reference calculus: truncated polynomials in t (degree D) with E first order
// perturbations, in long double, with a running error bound per coefficient.
//   coefficient (k, 0)   : t^k
//   coefficient (k, 1+j) : t^k * eps_j      (eps_i * eps_j = 0)
// Elementary functions are applied by composing with the univariate Taylor
// table of the function at the constant term (Horner in the nilpotent part).
#include <vector>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <cstddef>
namespace vf {
typedef long double ld;
struct AlgCfg { int D, E; };
inline AlgCfg& algcfg() { static thread_local AlgCfg c = {0, 0}; return c; }
inline size_t alg_size() { return size_t((algcfg().D + 1) * (algcfg().E + 1)); }

template <class T> void ser_mul_add(const T* a, const T* b, T* z) // z += a * b
{   const int D = algcfg().D, E = algcfg().E, W = E + 1;
    for(int i = 0; i <= D; ++i) for(int j = 0; i + j <= D; ++j)
    {   const T *p = a + i * W, *q = b + j * W; T* r = z + (i + j) * W;
        T p0 = p[0], q0 = q[0];
        r[0] += p0 * q0;
        for(int e = 1; e <= E; ++e) r[e] += p0 * q[e] + p[e] * q0;
    }
}
typedef std::vector<ld>     VL;
typedef std::vector<double> VD;
struct Alg {
    VL v;   // coefficients
    VD e;   // error bound in units of machine epsilon, and >= |v|
    Alg() : v(alg_size(), 0.0L), e(alg_size(), 0.0) {}
    Alg(double c) : v(alg_size(), 0.0L), e(alg_size(), 0.0) { v[0] = c; e[0] = std::fabs(c); }
    Alg(int c) : Alg(double(c)) {}
    // set coefficient (k, w)
    void set(int k, int w, double c) { size_t i = size_t(k * (algcfg().E + 1) + w); v[i] = c; e[i] = std::fabs(c); }
    ld  get(int k, int w = 0) const { return v[size_t(k * (algcfg().E + 1) + w)]; }
    double err(int k, int w = 0) const { return e[size_t(k * (algcfg().E + 1) + w)]; }
    void fix() { for(size_t i = 0; i < v.size(); ++i) { double a = double(std::fabs(v[i])); if( e[i] != e[i] ) e[i] = HUGE_VAL; else if( e[i] < a ) e[i] = a; } }
};
inline Alg operator+(const Alg& a, const Alg& b)
{   Alg z; for(size_t i = 0; i < z.v.size(); ++i) { z.v[i] = a.v[i] + b.v[i]; z.e[i] = a.e[i] + b.e[i]; } return z; }
inline Alg operator-(const Alg& a, const Alg& b)
{   Alg z; for(size_t i = 0; i < z.v.size(); ++i) { z.v[i] = a.v[i] - b.v[i]; z.e[i] = a.e[i] + b.e[i]; } return z; }
inline Alg operator-(const Alg& a)
{   Alg z; for(size_t i = 0; i < z.v.size(); ++i) { z.v[i] = - a.v[i]; z.e[i] = a.e[i]; } return z; }
inline Alg operator+(const Alg& a) { return a; }
inline Alg operator*(const Alg& a, const Alg& b)
{   Alg z; size_t n = z.v.size();
    ser_mul_add(a.v.data(), b.v.data(), z.v.data());
    VD aa(n), ab(n);
    for(size_t i = 0; i < n; ++i) { aa[i] = double(std::fabs(a.v[i])); ab[i] = double(std::fabs(b.v[i])); }
    ser_mul_add(aa.data(), b.e.data(), z.e.data());
    ser_mul_add(a.e.data(), ab.data(), z.e.data());
    ser_mul_add(aa.data(), ab.data(), z.e.data());
    for(size_t i = 0; i < n; ++i) ab[i] = b.e[i] * 1e-15;
    ser_mul_add(a.e.data(), ab.data(), z.e.data()); // error times error
    return z;
}
// f[k] = k-th Taylor coefficient of the function at a.v[0], k = 0 .. K+1, K = D+1
inline int alg_K() { return algcfg().D + (algcfg().E > 0 ? 1 : 0); }
// fe[k] >= |f[k]|: magnitude of the intermediate results used for the rounding error of f[k]
inline Alg compose(const Alg& a, const VL& f, VL fe = VL())
{   if( fe.empty() ) fe = f;
    const int K = alg_K(); size_t n = a.v.size();
    VL h = a.v; h[0] = 0;
    VL z(n, 0.0L), t(n);
    z[0] = f[size_t(K)];
    for(int k = K - 1; k >= 0; --k)
    {   for(size_t i = 0; i < n; ++i) t[i] = 0;
        ser_mul_add(h.data(), z.data(), t.data());
        t[0] += f[size_t(k)];
        z.swap(t);
    }
    // error: F(|h|) + G(|h|) * (e_h + e_0)
    VD H(n), F(n, 0.0), G(n, 0.0), T(n);
    for(size_t i = 0; i < n; ++i) H[i] = double(std::fabs(h[i]));
    F[0] = double(std::fabs(fe[size_t(K)]));
    G[0] = double(std::fabs(fe[size_t(K+1)])) * (K + 1);
    for(int k = K - 1; k >= 0; --k)
    {   for(size_t i = 0; i < n; ++i) T[i] = 0;
        ser_mul_add(H.data(), F.data(), T.data()); T[0] += double(std::fabs(fe[size_t(k)])); F.swap(T);
        for(size_t i = 0; i < n; ++i) T[i] = 0;
        ser_mul_add(H.data(), G.data(), T.data()); T[0] += double(std::fabs(fe[size_t(k+1)])) * (k + 1); G.swap(T);
    }
    Alg r; r.v.swap(z);
    ser_mul_add(G.data(), a.e.data(), r.e.data());
    for(size_t i = 0; i < n; ++i) r.e[i] += F[i];
    r.fix();
    return r;
}
inline VL tab() { return VL(size_t(alg_K() + 2), 0.0L); }
// ---- Taylor tables -------------------------------------------------------
inline Alg recip(const Alg& a)
{   VL f = tab(); ld x = a.v[0], p = 1 / x; for(size_t k = 0; k < f.size(); ++k) { f[k] = p; p = - p / x; } return compose(a, f); }
inline Alg& operator+=(Alg& a, const Alg& b) { a = a + b; return a; }
inline Alg& operator-=(Alg& a, const Alg& b) { a = a - b; return a; }
inline Alg& operator*=(Alg& a, const Alg& b) { a = a * b; return a; }
inline Alg operator/(const Alg& a, const Alg& b) { return a * recip(b); }
inline Alg exp(const Alg& a)
{   VL f = tab(); ld p = expl(a.v[0]); for(size_t k = 0; k < f.size(); ++k) { f[k] = p; p /= ld(k + 1); } return compose(a, f); }
inline Alg expm1(const Alg& a)
{   VL f = tab(); ld p = expl(a.v[0]); for(size_t k = 0; k < f.size(); ++k) { f[k] = p; p /= ld(k + 1); } f[0] = expm1l(a.v[0]); return compose(a, f); }
inline void log_tail(VL& f, ld x) { ld p = 1 / x; for(size_t k = 1; k < f.size(); ++k) { f[k] = p / ld(k); p = - p / x; } }
inline Alg log(const Alg& a) { VL f = tab(); log_tail(f, a.v[0]); f[0] = logl(a.v[0]); return compose(a, f); }
inline Alg log1p(const Alg& a) { VL f = tab(); log_tail(f, 1 + a.v[0]); f[0] = log1pl(a.v[0]); return compose(a, f); }
inline Alg log10(const Alg& a)
{   VL f = tab(); log_tail(f, a.v[0]); f[0] = logl(a.v[0]); ld c = logl(10.0L); for(size_t k = 0; k < f.size(); ++k) f[k] /= c; return compose(a, f); }
inline Alg sqrt(const Alg& a)
{   VL f = tab(); ld x = a.v[0], p = sqrtl(x); for(size_t k = 0; k < f.size(); ++k) { f[k] = p; p *= (0.5L - ld(k)) / (ld(k + 1) * x); } return compose(a, f); }
inline Alg sincos_(const Alg& a, int s)
{   VL f = tab(); ld c[4] = { sinl(a.v[0]), cosl(a.v[0]), -sinl(a.v[0]), -cosl(a.v[0]) }; ld q = 1;
    for(size_t k = 0; k < f.size(); ++k) { f[k] = c[(k + size_t(s)) % 4] * q; q /= ld(k + 1); } return compose(a, f); }
inline Alg sin(const Alg& a) { return sincos_(a, 0); }
inline Alg cos(const Alg& a) { return sincos_(a, 1); }
inline Alg sinh_(const Alg& a, int s)
{   VL f = tab(); ld c[2] = { sinhl(a.v[0]), coshl(a.v[0]) }; ld q = 1;
    for(size_t k = 0; k < f.size(); ++k) { f[k] = c[(k + size_t(s)) % 2] * q; q /= ld(k + 1); } return compose(a, f); }
inline Alg sinh(const Alg& a) { return sinh_(a, 0); }
inline Alg cosh(const Alg& a) { return sinh_(a, 1); }
inline Alg tan_(const Alg& a, ld y0, ld sg)
{   VL f = tab(); f[0] = y0;
    for(size_t k = 0; k + 1 < f.size(); ++k)
    {   ld s = 0; for(size_t i = 0; i <= k; ++i) s += f[i] * f[k - i];
        f[k + 1] = ((k == 0 ? 1.0L : 0.0L) + sg * s) / ld(k + 1); }
    VL fe = f; if( sg < 0 ) for(auto& z : fe) z = fabsl(z) + 1; // 1 - y * y cancels
    return compose(a, f, fe); }
inline Alg tan(const Alg& a) { return tan_(a, tanl(a.v[0]), 1); }
inline Alg tanh(const Alg& a) { return tan_(a, tanhl(a.v[0]), -1); }
// integral of w where w = Taylor coefficients of (c0 + c1 t + c2 t^2)^p : (q w' = p q' w)
inline void powquad(VL& f, ld c0, ld c1, ld c2, ld p, ld w0)
{   size_t n = f.size(); VL w(n, 0.0L); w[0] = w0;
    for(size_t k = 0; k + 1 < n; ++k)
    {   // (k+1) c0 w_{k+1} + k c1 w_k + (k-1) c2 w_{k-1} = p ( c1 w_k + 2 c2 w_{k-1} )
        ld s = p * c1 * w[k] - ld(k) * c1 * w[k];
        if( k >= 1 ) s += 2 * p * c2 * w[k-1] - ld(k - 1) * c2 * w[k-1];
        w[k + 1] = s / (ld(k + 1) * c0);
    }
    for(size_t k = 1; k < n; ++k) f[k] = w[k-1] / ld(k);
}
inline Alg asin(const Alg& a)
{   VL f = tab(); ld x = a.v[0], c = 1 - x * x; powquad(f, c, -2 * x, -1, -0.5L, 1 / sqrtl(c)); f[0] = asinl(x); return compose(a, f); }
inline Alg acos(const Alg& a)
{   VL f = tab(); ld x = a.v[0], c = 1 - x * x; powquad(f, c, -2 * x, -1, -0.5L, -1 / sqrtl(c)); f[0] = acosl(x); return compose(a, f); }
inline Alg asinh(const Alg& a)
{   VL f = tab(); ld x = a.v[0], c = 1 + x * x; powquad(f, c, 2 * x, 1, -0.5L, 1 / sqrtl(c)); f[0] = asinhl(x); return compose(a, f); }
inline Alg acosh(const Alg& a)
{   VL f = tab(); ld x = a.v[0], c = x * x - 1; powquad(f, c, 2 * x, 1, -0.5L, 1 / sqrtl(c)); f[0] = acoshl(x); return compose(a, f); }
inline Alg atan(const Alg& a)
{   VL f = tab(); ld x = a.v[0], c = 1 + x * x; powquad(f, c, 2 * x, 1, -1, 1 / c); f[0] = atanl(x); return compose(a, f); }
inline Alg atanh(const Alg& a)
{   VL f = tab(); ld x = a.v[0], c = 1 - x * x; powquad(f, c, -2 * x, -1, -1, 1 / c); f[0] = atanhl(x); return compose(a, f); }
inline void erf_tail(VL& f, ld x, ld sg)
{   size_t n = f.size(); VL g(n, 0.0L); g[0] = sg * 2 / sqrtl(acosl(-1.0L)) * expl(-x * x);
    for(size_t k = 0; k + 1 < n; ++k) g[k + 1] = -2 * (x * g[k] + (k >= 1 ? g[k-1] : 0.0L)) / ld(k + 1);
    for(size_t k = 1; k < n; ++k) f[k] = g[k-1] / ld(k); }
inline Alg erf(const Alg& a) { VL f = tab(); erf_tail(f, a.v[0], 1); f[0] = erfl(a.v[0]); return compose(a, f); }
inline Alg erfc(const Alg& a) { VL f = tab(); erf_tail(f, a.v[0], -1); f[0] = erfcl(a.v[0]); return compose(a, f); }
inline ld sgn(ld x) { return x > 0 ? 1.0L : (x < 0 ? -1.0L : 0.0L); }
inline Alg abs(const Alg& a)
{   VL f = tab(); f[0] = fabsl(a.v[0]); f[1] = sgn(a.v[0]); return compose(a, f); }
inline Alg fabs(const Alg& a) { return abs(a); }
inline Alg sign(const Alg& a) { return Alg(double(sgn(a.v[0]))); }
// piecewise constant: value c
inline Alg constant(const Alg&, double c) { return Alg(c); }
inline Alg ipow(const Alg& a, int n)
{   if( n < 0 ) return recip(ipow(a, -n));
    Alg z(1.0); for(int i = 0; i < n; ++i) z = z * a; return z; }
// a^p with p a plain number; a.v[0] may be <= 0 only when p is an integer
inline Alg powc(const Alg& a, double p)
{   if( p == std::floor(p) && std::fabs(p) <= 64 )
    {   Alg r = ipow(a, int(p));
        if( a.v[0] != 0 )
        {   // CppAD divides by a_0: the terms of its recursion do not vanish when k > p
            VL f = tab(); ld x = fabsl(a.v[0]), w = powl(x, ld(p)); for(size_t k = 0; k < f.size(); ++k) { f[k] = w; w /= x; }
            Alg b = compose(a, f); for(size_t i = 0; i < r.e.size(); ++i) r.e[i] += b.e[i]; }
        return r; }
    VL f = tab(); ld x = a.v[0], w = powl(x, ld(p));
    for(size_t k = 0; k < f.size(); ++k) { f[k] = w; w *= (ld(p) - ld(k)) / (ld(k + 1) * x); } return compose(a, f); }
inline Alg pow(const Alg& a, const Alg& b) // a > 0
{   return exp( b * log(a) ); }
inline Alg atan2(const Alg& y, const Alg& x)
{   Alg z = fabsl(y.v[0]) <= fabsl(x.v[0]) ? atan(y / x) : - atan(x / y);
    z.v[0] = atan2l(y.v[0], x.v[0]); z.e[0] += std::fabs(double(z.v[0])) + 4; return z; }
inline Alg azmul(const Alg& a, const Alg& b)
{   bool zero = true, exact = true, fin = true; for(auto z : a.v) zero = zero && z == 0; for(auto z : a.e) exact = exact && z == 0; for(auto z : b.v) fin = fin && z - z == 0;
    return zero && (exact || ! fin) ? Alg(0.0) : a * b; } // absolute zero: b may be infinite or nan
// comparisons use the constant term
inline ld val(const Alg& a) { return a.v[0]; }

// ---- comparison of a computed number with the reference ------------------
// verdict: 0 agree, 1 differ, 2 inconclusive (bound too loose or not finite)
inline int agree(double got, ld want, double err, double fac = 2e3, double eps = 2.3e-16)
{   double tol = fac * eps * err;
    if( !(std::fabs(double(want)) <= 1e300) || !(err <= 1e300) ) return 2;
    double sc = std::fabs(double(want)); if( sc < 1 ) sc = 1;
    if( tol > 1e-3 * sc ) return 2;
    ld d = fabsl(ld(got) - want);
    if( d <= ld(tol) + 1e-26L ) return 0;
    return 1;
}
} // namespace vf
#endif
