// C27: general numeric utilities match their definitions
#include <valarray>
#include <complex>
#include <deque>
#include <climits>
#include "../lib/adhook.hpp"
#include "../lib/harness.hpp"
#include <cppad/utility/index_sort.hpp>
#include <cppad/utility/set_union.hpp>
#include <cppad/utility/to_string.hpp>
#include <cppad/utility/near_equal.hpp>
#include <cppad/utility/pow_int.hpp>
#include <cppad/utility/nan.hpp>
#include <cppad/speed/det_33.hpp>
#include <cppad/speed/det_grad_33.hpp>
#include <cppad/speed/det_by_lu.hpp>
#include <cppad/speed/det_by_minor.hpp>
#include <cppad/speed/mat_sum_sq.hpp>
#include <cppad/speed/ode_evaluate.hpp>
#include <cppad/speed/sparse_jac_fun.hpp>
#include <cppad/speed/sparse_hes_fun.hpp>
#include <cppad/speed/uniform_01.hpp>
using namespace vf;
typedef std::complex<ld> CL; typedef std::vector<double> VD; typedef CppAD::AD<float> AF; typedef std::complex<double> CD; typedef CppAD::AD<CD> AC;
template <class F> bool reports(F f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
#define BAD(key) do { rep().fail(std::string(name) + ":" + key, ctx()); return; } while(0)
static const double INF = std::numeric_limits<double>::infinity();
static bool same(double a, double b) { return a == b || (a != a && b != b); }
// an AD value as parameter, dynamic parameter or variable of a recording that is open while f runs
template <class B> struct Open { std::vector< AD<B> > x, d; bool done = false; explicit Open(std::vector<B> v) : x(v.begin(), v.end()), d(v.begin(), v.end()) { CppAD::Independent(x, 0, false, d); } ~Open() { AD<B>::abort_recording(); }
    AD<B> get(size_t i, int kind, B v) { if( kind == 0 ) return AD<B>(v); return kind == 1 ? d[i] : x[i]; } };
// ---- index_sort, set_union ------------------------------------------------------
struct Key { int a; std::string s; bool operator<(const Key& o) const { return a != o.a ? a < o.a : s < o.s; } };
template <class K, class SV, class F> void sort_case(Rng& r, const char* tn, F gen)
{   std::string nm = std::string("index_sort-") + tn; const char* name = nm.c_str(); size_t n = r.chance(.1) ? r.sbelow(3) : r.sbelow(r.chance(.2) ? 400 : 40); std::vector<K> keys(n); for(auto& k : keys) k = gen(); int shape = r.below(5); if( shape == 1 ) std::sort(keys.begin(), keys.end()); if( shape == 2 ) { std::sort(keys.begin(), keys.end()); std::reverse(keys.begin(), keys.end()); } if( shape == 3 && n ) for(auto& k : keys) k = keys[r.sbelow(std::min<size_t>(n, 3))];
    auto ctx = [&] { return fmt("n=%zu shape=%d", n, shape); }; SV ind(n); for(size_t i = 0; i < n; ++i) ind[i] = typename SV::value_type(77777 + i); std::vector<K> copy(keys);
    size_t inuse = CppAD::thread_alloc::inuse(0); CppAD::index_sort(keys, ind); if( CppAD::thread_alloc::inuse(0) != inuse ) BAD("memory"); rep().count("index_sort"); std::vector<int> seen(n, 0); uint64_t h = n;
    if( size_t(ind.size()) != n ) BAD("size"); for(size_t i = 0; i < n; ++i) { size_t k = size_t(ind[i]); if( k >= n || seen[k]++ ) BAD("not-permutation"); h = h * 31 + k; if( i && keys[k] < keys[size_t(ind[i-1])] ) BAD("not-sorted"); } for(size_t i = 0; i < n; ++i) if( keys[i] < copy[i] || copy[i] < keys[i] ) BAD("keys-changed"); rep().sig(h);
#ifndef NDEBUG
    if( r.chance(.1) ) { rep().count("misuse"); SV bad(n + 1); if( ! reports([&] { CppAD::index_sort(keys, bad); }) ) BAD("misuse-not-reported"); }
#endif
}
template <class E, class F> void union_case(Rng& r, F gen)
{   const char* name = "set_union"; std::set<E> a, b; for(int i = r.below(20); i > 0; --i) a.insert(gen()); for(int i = r.below(20); i > 0; --i) b.insert(gen()); if( r.chance(.1) ) b = a; auto ctx = [&] { return fmt("|a|=%zu |b|=%zu", a.size(), b.size()); }; std::set<E> a0(a), b0(b), u = CppAD::set_union(a, b), w(a); w.insert(b.begin(), b.end()); rep().count("set_union"); if( u != w ) BAD("value"); if( a != a0 || b != b0 ) BAD("argument-changed"); rep().sig(u.size() * 1000 + a.size() * 31 + b.size()); }
// ---- to_string ----------------------------------------------------------------------
template <class I> void to_string_int(Rng& r, const char* tn)
{   std::string nm = std::string("to_string-") + tn; const char* name = nm.c_str(); I v; switch(r.below(5)) { case 0: v = std::numeric_limits<I>::max(); break; case 1: v = std::numeric_limits<I>::min(); break; case 2: v = I(r.next() >> r.below(64)); break; case 3: v = I(r.below(200) - 100); break; default: v = I(r.next()); } std::string s = CppAD::to_string(v); auto ctx = [&] { return s; };
    std::string w; { typedef typename std::make_unsigned<I>::type U; bool neg = v < I(0); unsigned long long m = neg ? 0ull - (unsigned long long)(long long) v : (unsigned long long)(U) v; do { w.insert(w.begin(), char('0' + m % 10)); m /= 10; } while(m); if( neg ) w.insert(w.begin(), '-'); } rep().count("to_string_int"); rep().sig(hstr(s)); if( s != w ) BAD("value"); }
template <class T> T rnd_float(Rng& r)
{   typedef std::numeric_limits<T> L; switch(r.below(8)) { case 0: return r.pick(std::vector<T>{L::max(), L::lowest(), L::min(), L::epsilon(), T(0), T(1), T(-1), T(1) / 3, T(10), T(1e10), 1 + L::epsilon(), 1 - L::epsilon() / 2}); case 1: return T(r.below(2000) - 1000) / T(1 << r.below(10));
        case 2: case 3: { T m = T(1) + T(r.next()) / T(18446744073709551616.0L); int e = int(L::min_exponent + r.below(L::max_exponent - L::min_exponent - 1)); return std::ldexp(r.chance(.5) ? m : -m, e); }
        case 4: { T p = 1; for(int k = r.below(20); k > 0; --k) p *= 10; for(int k = r.below(4); k > 0; --k) p = std::nextafter(p, r.chance(.5) ? T(0) : L::max()); return r.chance(.5) ? p : 1 / p; }
        default: return T(r.uni(-10, 10)) + T(r.uni(-1, 1)) * L::epsilon(); } }
static long double parse(const std::string& s) { return strtold(s.c_str(), nullptr); }
template <class T> bool back(const std::string& s, T v) { char* e; T q; if( sizeof(T) == sizeof(float) ) q = T(strtof(s.c_str(), &e)); else if( sizeof(T) == sizeof(double) ) q = T(strtod(s.c_str(), &e)); else q = T(strtold(s.c_str(), &e)); return *e == 0 && e != s.c_str() && q == v; }
template <class T> void to_string_float(Rng& r, const char* tn)
{   std::string nm = std::string("to_string-") + tn; const char* name = nm.c_str(); T v = rnd_float<T>(r); std::string s = CppAD::to_string(v); auto ctx = [&] { return s + fmt(" for %.25Lg", (long double) v); }; rep().count("to_string_float"); rep().sig(hstr(s)); long double q = parse(s); if( ! (std::fabs(q - (long double) v) <= std::fabs((long double) v) * (long double) std::numeric_limits<T>::epsilon()) ) BAD("relative-error"); if( ! back(s, v) ) BAD("not-lossless"); if( v == T(0) && s != "0" && s != "-0" ) BAD("zero"); }
static void to_string_ad(Rng& r)
{   const char* name = "to_string-ad"; double v = rnd_float<double>(r); std::string want = CppAD::to_string(v), got; int lev = r.below(4), kind = r.below(3); auto ctx = [&] { return fmt("level %d kind %d: ", lev, kind) + got + " wanted " + want; }; rep().count("to_string_ad");
    if( lev == 0 ) { Open<double> o({v}); got = CppAD::to_string(o.get(0, kind, v)); } else if( lev == 1 ) { Open<A1> o({A1(v)}); got = CppAD::to_string(o.get(0, kind, A1(v))); }
    else if( lev == 2 ) { float f = rnd_float<float>(r); want = CppAD::to_string(f); Open<float> o({f}); got = CppAD::to_string(o.get(0, kind, f)); }
    else { Open<double> q({v}); A1 in = q.get(0, kind, v); A2 x(in); got = CppAD::to_string(x); }
    if( got != want ) BAD("differs-from-base"); }
struct Unknown { int x; };
static void not_implemented(Rng&)
{   const char* name = "not-specialised"; auto ctx = [] { return std::string(); }; (void) ctx; (void) name;
#ifndef NDEBUG
    rep().count("misuse"); Unknown u{1}; if( ! reports([&] { CppAD::to_string(u); }) ) BAD("to_string"); if( ! reports([&] { CppAD::numeric_limits<int>::epsilon(); }) || ! reports([&] { CppAD::numeric_limits<int>::min(); }) || ! reports([&] { CppAD::numeric_limits<int>::max(); }) || ! reports([&] { CppAD::numeric_limits<int>::quiet_NaN(); }) || ! reports([&] { CppAD::numeric_limits<int>::infinity(); }) ) BAD("numeric_limits");
#endif
}
// ---- nan ----------------------------------------------------------------------------
static double special(Rng& r) { switch(r.below(6)) { case 0: return NAN; case 1: return r.chance(.5) ? INF : -INF; case 2: return r.pick(VD{0., -0., 5e-324, -5e-324, 1.7e308, -1.7e308}); default: return r.uni(-3, 3); } }
template <class V, class F> void nan_vec(Rng& r, const char* tn, F get)
{   std::string nm = std::string("nan-") + tn; const char* name = nm.c_str(); size_t n = r.sbelow(8); V v(n); bool any = false; std::string t; for(size_t i = 0; i < n; ++i) { double a = r.chance(.8) ? r.uni(-1, 1) : special(r); t += fmt("%g ", a); v[i] = get(a, r); bool is = a != a; any = any || is; if( CppAD::isnan(v[i]) != is ) { auto ctx = [&] { return t; }; BAD("isnan"); } } auto ctx = [&] { return t; }; rep().count("nan"); if( any ) rep().count("nan_true"); if( CppAD::hasnan(v) != any ) BAD("hasnan"); rep().sig(hstr(t)); }
static void nan_case(Rng& r)
{   switch(r.below(8)) {
    case 0: nan_vec<std::vector<float>>(r, "float", [](double a, Rng&) { return float(a); }); break; case 1: nan_vec<CppAD::vector<double>>(r, "double", [](double a, Rng&) { return a; }); break; case 2: nan_vec<std::valarray<long double>>(r, "long-double", [](double a, Rng&) { return (long double) a; }); break;
    case 3: nan_vec<CppAD::vector<CD>>(r, "complex", [](double a, Rng& q) { return q.chance(.5) ? CD(a, 1) : CD(2, a); }); break; case 4: { Open<double> o({1., NAN}); nan_vec<std::vector<A1>>(r, "ad", [&](double a, Rng& q) { int k = q.below(3); if( k && a != a ) return q.chance(.5) ? o.get(1, k, 0) : A1(o.get(0, k, 0) * a); return k == 0 ? A1(a) : A1(o.get(0, k, 0) + (a - 1)); }); break; }
    case 5: nan_vec<CppAD::vector<AF>>(r, "ad-float", [](double a, Rng&) { return AF(float(a)); }); break; case 6: { Open<A1> o({A1(1.)}); nan_vec<std::vector<A2>>(r, "ad-ad", [&](double a, Rng& q) { return A2(o.get(0, q.below(3), A1(1.)) * a); }); break; }
    default: { const char* name = "nan-function"; auto ctx = [] { return std::string(); }; float f = CppAD::nan(0.f); double d = CppAD::nan(0.); A1 a = CppAD::nan(A1(0.)); AC c = CppAD::nan(AC(0.)); A2 b = CppAD::nan(A2(0.)); if( f == f || d == d || ! CppAD::isnan(a) || ! CppAD::isnan(b) || ! CppAD::isnan(CppAD::Value(c)) ) BAD("nan"); } } }
// ---- NearEqual ----------------------------------------------------------------------
// by its definition: 1 true, 0 false, -1 too close to call
static int near_ref(ld ad, ld ax, ld ay, ld r, ld a, ld eps)
{   ld w = std::max(a, r * (ax + ay)); if( ad == 0 ) return 1; if( std::fabs(ad - w) <= 8 * eps * (ax + ay + ad + w) ) return -1; return ad <= w; }
// inf: bit 1 (2) when the call with the arguments in this (the other) order hands near_equal_isfinite a finite first and an infinite second argument, which is a listed finding of its own
static void judge(Rng&, const char* name, bool got, bool rev, int want, const std::string& t, int inf)
{   if( inf ) { rep().count("near_equal_one_infinite"); if( (inf & 1 && got) || (inf & 2 && rev) ) { rep().fail("near_equal:second-argument-infinite", t); if( inf & 1 ) got = false; if( inf & 2 ) rev = false; } }
    auto ctx = [&] { return t + fmt(" returned %d, with arguments exchanged %d, wanted %d", got, rev, want); }; rep().count("near_equal"); if( want == -1 ) { rep().count("near_equal_tie"); if( got != rev ) BAD("not-symmetric"); return; } rep().count(want ? "near_equal_true" : "near_equal_false"); rep().sig(hstr(t)); if( got != rev ) BAD("not-symmetric"); if( got != (want == 1) ) BAD("value"); }
template <class T> void near_real(Rng& r, const char* name)
{   auto v = [&] { return T(r.chance(.15) ? (r.below(2) ? (r.below(2) ? INF : -INF) : NAN) : (r.chance(.1) ? 0. : r.uni(-3, 3) * std::pow(10., r.below(20) - 10))); }; T x = v(), y = r.chance(.4) ? v() : T(x * T(1 + r.uni(-1, 1) * std::pow(10., -r.below(12)))); if( r.chance(.1) ) y = -y; if( r.chance(.05) ) y = x; T rr = r.chance(.3) ? 0 : T(std::pow(10., -r.below(12)) * r.uni(.2, 1)), a = r.chance(.3) ? 0 : T(std::pow(10., 8 - r.below(18)) * r.uni(.2, 1)); if( r.chance(.03) ) a = T(INF);
    bool fin = std::isfinite(x) && std::isfinite(y); int want = ! fin ? 0 : near_ref(std::fabs(ld(x) - ld(y)), std::fabs(ld(x)), std::fabs(ld(y)), rr, a, std::numeric_limits<T>::epsilon()); if( ! fin ) rep().count("near_equal_special"); judge(r, name, CppAD::NearEqual(x, y, rr, a), CppAD::NearEqual(y, x, rr, a), want, fmt("x=%.20Lg y=%.20Lg r=%.20Lg a=%.20Lg", ld(x), ld(y), ld(rr), ld(a)), std::isfinite(x) && std::isinf(y) ? 1 : std::isinf(x) && std::isfinite(y) ? 2 : 0);
#ifndef NDEBUG
    if( r.chance(.05) ) { auto ctx = [] { return std::string(); }; rep().count("misuse"); if( ! reports([&] { CppAD::NearEqual(x, y, T(-1), a); }) || ! reports([&] { CppAD::NearEqual(x, y, rr, T(-1)); }) || ! reports([&] { CppAD::NearEqual(std::complex<T>(x), std::complex<T>(y), T(-1), a); }) || ! reports([&] { CppAD::NearEqual(std::complex<T>(x), y, rr, T(-1)); }) ) BAD("misuse-not-reported"); }
#endif
}
template <class T> void near_complex(Rng& r, const char* name)
{   typedef std::complex<T> C; auto v = [&] { return T(r.chance(.08) ? (r.below(2) ? (r.below(2) ? INF : -INF) : NAN) : (r.chance(.1) ? 0. : r.uni(-3, 3))); }; int mode = r.below(3); C x(v(), mode == 1 ? T(0) : v()), y = C(v(), v()); if( r.chance(.6) ) y = x * C(T(1 + r.uni(-1, 1) * std::pow(10., -r.below(10))), T(r.uni(-1, 1) * std::pow(10., -r.below(10)))); if( mode == 2 ) y = C(y.real(), 0); T rr = r.chance(.3) ? 0 : T(std::pow(10., -r.below(10)) * r.uni(.2, 1)), a = r.chance(.3) ? 0 : T(std::pow(10., -r.below(10)) * r.uni(.2, 1));
    bool fin = std::isfinite(x.real()) && std::isfinite(x.imag()) && std::isfinite(y.real()) && std::isfinite(y.imag()); int want = 0; if( fin ) { CL cx(x.real(), x.imag()), cy(y.real(), y.imag()); want = near_ref(std::abs(cx - cy), std::abs(cx), std::abs(cy), rr, a, std::numeric_limits<T>::epsilon()); } else rep().count("near_equal_special");
    bool g, h; if( mode == 1 ) { g = CppAD::NearEqual(x.real(), y, rr, a); h = CppAD::NearEqual(y, x.real(), rr, a); } else if( mode == 2 ) { g = CppAD::NearEqual(x, y.real(), rr, a); h = CppAD::NearEqual(y.real(), x, rr, a); } else { g = CppAD::NearEqual(x, y, rr, a); h = CppAD::NearEqual(y, x, rr, a); }
    auto im = [](const C& z) { return ! std::isfinite(z.real()) || std::isnan(z.imag()) ? 0 : std::isinf(z.imag()) ? 2 : 1; };
    judge(r, name, g, h, want, fmt("mode=%d x=(%.17Lg,%.17Lg) y=(%.17Lg,%.17Lg) r=%.17Lg a=%.17Lg", mode, ld(x.real()), ld(x.imag()), ld(y.real()), ld(y.imag()), ld(rr), ld(a)), (im(x) == 2 || im(y) == 2) && im(x) && im(y) ? 3 : 0); }
static void near_ad(Rng& r)
{   const char* name = "near_equal-ad"; double x = r.chance(.1) ? special(r) : r.uni(-3, 3), y = r.chance(.1) ? special(r) : x * (1 + r.uni(-1, 1) * std::pow(10., -r.below(10))), rr = r.chance(.3) ? 0 : std::pow(10., -r.below(10)), a = r.chance(.3) ? 0 : std::pow(10., -r.below(10)); bool want = CppAD::NearEqual(x, y, rr, a); Open<double> o({x, y}); int kx = r.below(3), ky = r.below(3); A1 ax = o.get(0, kx, x), ay = o.get(1, ky, y); CppAD::VecAD<double> v(2); v[0] = x; v[1] = y; if( r.chance(.3) ) { A1 i = 0.; v[i] = ax; } A1 i0 = 0., i1 = 1.; int form = r.below(8); bool got = false;
    switch(form) { case 0: got = CppAD::NearEqual(ax, ay, rr, a); break; case 1: got = CppAD::NearEqual(x, ay, rr, a); break; case 2: got = CppAD::NearEqual(ax, y, rr, a); break; case 3: got = CppAD::NearEqual(v[i0], v[i1], rr, a); break; case 4: got = CppAD::NearEqual(v[i0], ay, rr, a); break; case 5: got = CppAD::NearEqual(v[i0], y, rr, a); break; case 6: got = CppAD::NearEqual(ax, v[i1], rr, a); break; default: got = CppAD::NearEqual(x, v[i1], rr, a); }
    auto ctx = [&] { return fmt("form=%d x=%.17g y=%.17g r=%.17g a=%.17g", form, x, y, rr, a); }; rep().count("near_equal_ad"); if( got != want ) BAD("differs-from-base"); }
// ---- integer powers ------------------------------------------------------------------
static int rnd_exp(Rng& r) { switch(r.below(6)) { case 0: return r.pick(std::vector<int>{INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 0, 1, -1, 2, -2}); case 1: return r.below(2001) - 1000; default: return r.below(41) - 20; } }
template <class T> void pow_real(Rng& r, const char* name)
{   int n = rnd_exp(r); T x = r.chance(.3) ? T(r.pick(VD{0., 1., -1., 2., -2., .5, 3., INF})) : T(r.uni(-2, 2)); if( std::fabs(double(n)) > 100 && r.chance(.8) ) x = T(1 + r.uni(-1, 1) / (1 + std::fabs(double(n)))) * (r.chance(.5) ? 1 : -1); T got = CppAD::pow(x, n); auto ctx = [&] { return fmt("pow(%.20Lg, %d) = %.20Lg", ld(x), n, ld(got)); }; rep().count("pow"); if( std::fabs(ld(n)) > 1e9L ) rep().count("pow_extreme"); rep().sig(hstr(ctx()));
    ld w = powl(ld(x), ld(n)); if( x == 0 && n < 0 ) { if( ! std::isinf(got) ) BAD("zero-base"); return; } if( std::isinf(w) || std::fabs(w) > ld(std::numeric_limits<T>::max()) / 4 ) { if( ! (std::fabs(ld(got)) > ld(std::numeric_limits<T>::max()) / 16) ) BAD("overflow"); return; } if( std::fabs(w) < ld(std::numeric_limits<T>::min()) * 4 ) { if( ! (std::fabs(ld(got)) < ld(std::numeric_limits<T>::min()) * 16) ) BAD("underflow"); return; }
    ld ee = ld(std::numeric_limits<T>::epsilon()), tol = std::expm1(std::min<ld>(20, (std::fabs(ld(n)) + 4) * ee)); if( sizeof(T) == sizeof(ld) ) tol *= 2; if( ! (std::fabs(ld(got) - w) <= tol * std::fabs(w)) ) BAD("value"); if( x == std::floor(x) && n >= 0 && std::fabs(w) < 1e6L && ld(got) != std::round(w) ) BAD("not-exact"); }
static void pow_other(Rng& r)
{   const char* name = "pow-other"; int n = r.below(31) - 15; double x = r.uni(.3, 2) * (r.chance(.5) ? 1 : -1), im = r.uni(-1, 1); auto ctx = [&] { return fmt("x=%.17g im=%.17g n=%d", x, im, n); }; CL p(1); for(int k = 0; k < std::fabs(double(n)); ++k) p *= CL(x, im); if( n < 0 ) p = CL(1) / p; CD got = CppAD::pow(CD(x, im), n); rep().count("pow_complex"); if( ! (std::abs(CL(got) - p) <= 1e-13L * std::abs(p)) ) BAD("complex");
    int m = r.below(6); bool neg = r.chance(.5); int bi = r.below(9) * (neg ? -1 : 1); int wi = 1; for(int k = 0; k < m; ++k) wi *= bi; if( CppAD::pow(bi, m) != wi ) BAD("integer-type"); if( m == 0 && CppAD::pow(bi, 0) != 1 ) BAD("integer-type");
    std::vector<A1> ax(1, A1(x)), ay(1); CppAD::Independent(ax); ay[0] = CppAD::pow(ax[0], n); CppAD::ADFun<double> f(ax, ay); for(int t = 0; t < 2; ++t) { double z = r.uni(.3, 2) * (r.chance(.5) ? 1 : -1); VD y0 = f.Forward(0, VD(1, z)), y1 = f.Forward(1, VD(1, 1.)), y2 = f.Forward(2, VD(1, 0.)); ld w0 = powl(z, n), w1 = n * powl(z, n - 1), w2 = ld(n) * (n - 1) / 2 * powl(z, n - 2); rep().count("pow_ad"); auto ok = [&](double g, ld w) { return std::fabs(g - w) <= 1e-11L * std::fabs(w) + 1e-300L; }; if( ! ok(y0[0], w0) ) BAD("ad-value"); if( ! (n == 0 ? y1[0] == 0 : ok(y1[0], w1)) ) BAD("ad-first"); if( ! (n == 0 || n == 1 ? y2[0] == 0 : ok(y2[0], w2)) ) BAD("ad-second"); } }
// ---- limits, Integer, sign, ordered -------------------------------------------------------
template <class T, class S> void limits_case(const char* name)
{   typedef CppAD::numeric_limits<T> L; typedef std::numeric_limits<S> R; auto ctx = [] { return std::string(); }; auto eq = [](const T& a, S b) { return CppAD::to_string(a) == CppAD::to_string(T(b)); }; rep().count("limits"); if( ! eq(L::epsilon(), R::epsilon()) ) BAD("epsilon"); if( ! eq(L::min(), R::min()) ) BAD("min"); if( ! eq(L::max(), R::max()) ) BAD("max"); if( ! CppAD::isnan(L::quiet_NaN()) ) BAD("nan"); if( ! (L::infinity() == T(R::infinity())) ) BAD("infinity"); int d = L::digits, d10 = L::digits10, m10 = L::max_digits10; if( d != R::digits ) BAD("digits"); if( d10 != R::digits10 ) BAD("digits10"); if( m10 != R::max_digits10 ) BAD("max_digits10"); }
static void integer_case(Rng& r) {
    double z = r.chance(.2) ? r.pick(VD{0., -0., .999999999, -.999999999, 2147483647., -2147483648., 2147483646.75, -2147483647.5}) : r.uni(-1, 1) * std::pow(10., r.below(10)); if( std::fabs(z) > 2147483647.9 ) z = 5; int iz = int(std::trunc(z)); Open<double> o2({z}); Open<A1> q2({A1(z)}); const char* name = "Integer"; auto ctx = [&] { return fmt("z=%.17g", z); }; rep().count("Integer"); CppAD::VecAD<double> vec(1); vec[0] = z; A1 ind = 0.; if( CppAD::Integer(z) != iz || CppAD::Integer(CD(z, 3)) != iz || CppAD::Integer(vec[ind]) != iz ) BAD("base"); if( CppAD::Integer(std::complex<float>(float(iz % 1000), 2)) != iz % 1000 || CppAD::Integer(float(iz % 1000) + (iz >= 0 ? .25f : -.25f)) != iz % 1000 ) BAD("float"); for(int k = 0; k < 3; ++k) if( CppAD::Integer(o2.get(0, k, z)) != iz || CppAD::Integer(q2.get(0, k, A1(z))) != iz ) BAD("ad"); }
static void order_case(Rng& r)
{   integer_case(r); const char* name = "ordered"; double v = r.chance(.3) ? r.pick(VD{0., -0., 1., -1., 5e-324, -5e-324, 1e300, -1e300}) : r.uni(-3, 3), w = r.chance(.3) ? v * (r.chance(.5) ? 1 : -1) : r.uni(-3, 3); auto ctx = [&] { return fmt("v=%.17g w=%.17g", v, w); }; Open<double> o({v, w}); Open<A1> q({A1(v), A1(w)}); rep().count("ordered"); rep().sig(hstr(ctx()));
    for(int k = 0; k < 3; ++k) { A1 x = o.get(0, k, v), y = o.get(1, (k + 1) % 3, w); A2 X = q.get(0, k, A1(v)), Y = q.get(1, (k + 2) % 3, A1(w));
        if( CppAD::GreaterThanZero(x) != (v > 0) || CppAD::GreaterThanZero(X) != (v > 0) || CppAD::GreaterThanZero(v) != (v > 0) ) BAD("GreaterThanZero"); if( CppAD::GreaterThanOrZero(x) != (v >= 0) || CppAD::GreaterThanOrZero(X) != (v >= 0) || CppAD::GreaterThanOrZero(v) != (v >= 0) ) BAD("GreaterThanOrZero"); if( CppAD::LessThanZero(x) != (v < 0) || CppAD::LessThanZero(X) != (v < 0) || CppAD::LessThanZero(v) != (v < 0) ) BAD("LessThanZero"); if( CppAD::LessThanOrZero(x) != (v <= 0) || CppAD::LessThanOrZero(X) != (v <= 0) || CppAD::LessThanOrZero(v) != (v <= 0) ) BAD("LessThanOrZero");
        bool ge = std::fabs(v) >= std::fabs(w); if( CppAD::abs_geq(x, y) != ge || CppAD::abs_geq(X, Y) != ge || CppAD::abs_geq(v, w) != ge ) BAD("abs_geq"); double sg = v > 0 ? 1 : (v < 0 ? -1 : 0); if( CppAD::sign(v) != sg || val(CppAD::sign(x)) != sg || val(CppAD::sign(X)) != sg || CppAD::sign(float(v)) != float(float(v) > 0 ? 1 : (float(v) < 0 ? -1 : 0)) ) BAD("sign"); }
}
// ---- determinants and the other speed functions --------------------------------------------
static ld det_ref(std::vector<ld> A, size_t n) { ld d = 1; for(size_t p = 0; p < n; ++p) { size_t q = p; for(size_t i = p; i < n; ++i) if( std::fabs(A[i*n+p]) > std::fabs(A[q*n+p]) ) q = i; if( A[q*n+p] == 0 ) return 0; if( q != p ) { d = -d; for(size_t j = 0; j < n; ++j) std::swap(A[p*n+j], A[q*n+j]); } d *= A[p*n+p]; for(size_t i = p + 1; i < n; ++i) { ld f = A[i*n+p] / A[p*n+p]; for(size_t j = p; j < n; ++j) A[i*n+j] -= f * A[p*n+j]; } } return d; }
template <class V> void det_case(Rng& r)
{   const char* name = "det"; size_t n = 1 + r.sbelow(7); V x(n * n); std::vector<ld> A(n * n); int kind = r.below(4); for(size_t i = 0; i < n * n; ++i) x[i] = kind == 0 ? r.below(7) - 3 : (r.chance(.2) ? 0 : r.uni(-1, 1)); bool sing = kind == 1 && n > 1; if( sing ) for(size_t j = 0; j < n; ++j) x[j] = 0; ld sc = 1; for(size_t i = 0; i < n; ++i) { ld s = 0; for(size_t j = 0; j < n; ++j) { A[i*n+j] = x[i*n+j]; s += std::fabs(A[i*n+j]); } sc *= s; } auto ctx = [&] { std::string t = fmt("n=%zu ", n); for(size_t i = 0; i < n * n; ++i) t += fmt("%.17g ", x[i]); return t; };
    ld w = det_ref(A, n), tol = 1e-13L * std::max(sc, std::fabs(w)) * ld(n); rep().count("det"); rep().sig(hstr(ctx())); CppAD::det_by_minor<double> dm(n); CppAD::det_by_lu<double> dl(n); for(int rep2 = 0; rep2 < 2; ++rep2) { double a = dm(x), b = dl(x); if( ! (std::fabs(a - w) <= tol) ) BAD("by-minor"); if( ! (std::fabs(b - w) <= tol * 10) ) BAD("by-lu"); if( sing ) { rep().count("det_singular"); if( b != 0 ) BAD("singular"); } }
    if( n > 1 ) { // a minor of a larger matrix given by row and column links
        size_t k = 1 + r.sbelow(n - 1); std::vector<size_t> rows, cols; auto pickk = [&](std::vector<size_t>& q) { std::vector<size_t> p(n); for(size_t i = 0; i < n; ++i) p[i] = i; r.shuffle(p); q.assign(p.begin(), p.begin() + long(k)); std::sort(q.begin(), q.end()); }; pickk(rows); pickk(cols); std::vector<size_t> rl(n + 1, n + 7), cl(n + 1, n + 7); size_t prev = n; for(size_t i : rows) { rl[prev] = i; prev = i; } rl[prev] = n; prev = n; for(size_t i : cols) { cl[prev] = i; prev = i; } cl[prev] = n; std::vector<size_t> r0(rl), c0(cl); std::vector<double> a(n * n); for(size_t i = 0; i < n * n; ++i) a[i] = x[i]; std::vector<ld> M(k * k); for(size_t i = 0; i < k; ++i) for(size_t j = 0; j < k; ++j) M[i*k+j] = A[rows[i]*n+cols[j]]; double got = CppAD::det_of_minor(a, n, k, rl, cl); rep().count("det_minor"); ld ms = 1; for(size_t i = 0; i < k; ++i) { ld s = 0; for(size_t j = 0; j < k; ++j) s += std::fabs(M[i*k+j]); ms *= s; } if( ! (std::fabs(got - det_ref(M, k)) <= 1e-13L * ms * ld(k) + 1e-300L) ) BAD("of-minor"); if( rl != r0 || cl != c0 ) BAD("of-minor-links"); }
    if( n <= 5 && kind >= 2 ) { std::vector<A1> ax(n * n), ay(1); for(size_t i = 0; i < n * n; ++i) ax[i] = double(x[i]); CppAD::Independent(ax); CppAD::det_by_minor<A1> D(n); ay[0] = D(ax); CppAD::ADFun<double> f(ax, ay); VD z(n * n); for(size_t i = 0; i < n * n; ++i) z[i] = x[i]; f.Forward(0, z); VD g = f.Reverse(1, VD(1, 1.)); rep().count("det_grad"); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { std::vector<ld> M; for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) if( p != i && q != j ) M.push_back(A[p*n+q]); ld c = (n == 1 ? 1 : det_ref(M, n - 1)) * ((i + j) % 2 ? -1 : 1); if( ! (std::fabs(g[i*n+j] - c) <= 1e-12L * (1 + std::fabs(c)) * ld(n * n * 30)) ) BAD("gradient"); } }
    if( n == 3 ) { V d(1); d[0] = double(w); V g(9); for(size_t i = 0; i < 3; ++i) for(size_t j = 0; j < 3; ++j) { std::vector<ld> M; for(size_t p = 0; p < 3; ++p) for(size_t q = 0; q < 3; ++q) if( p != i && q != j ) M.push_back(A[p*3+q]); g[i*3+j] = double((M[0] * M[3] - M[1] * M[2]) * ((i + j) % 2 ? -1 : 1)); } rep().count("det_33"); if( ! CppAD::det_33(x, d) ) BAD("det_33-right"); if( ! CppAD::det_grad_33(x, g) ) BAD("det_grad_33-right"); d[0] += r.chance(.5) ? 1e-3 : -1e-3; g[r.sbelow(9)] += 1e-3; if( std::fabs(w) < 1e3 && CppAD::det_33(x, d) ) BAD("det_33-wrong"); if( CppAD::det_grad_33(x, g) ) BAD("det_grad_33-wrong"); }
    { V X(x), Y(n * n), Z(1); CppAD::mat_sum_sq(n, X, Y, Z); ld s = 0, sa = 0; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { ld t = 0, ta = 0; for(size_t k = 0; k < n; ++k) { t += A[i*n+k] * A[k*n+j]; ta += std::fabs(A[i*n+k] * A[k*n+j]); } s += t; sa += ta; if( ! (std::fabs(Y[i*n+j] - t) <= 1e-14L * ta + 1e-300L) ) BAD("mat_sum_sq-square"); } if( ! (std::fabs(Z[0] - s) <= 1e-14L * sa * ld(n) + 1e-300L) ) BAD("mat_sum_sq-sum"); } }
static void ode_case(Rng& r)
{   const char* name = "ode_evaluate"; size_t n = 1 + r.sbelow(8); CppAD::vector<double> x(n), f(n), J(n * n); for(size_t i = 0; i < n; ++i) x[i] = r.uni(-2, 2); auto ctx = [&] { return fmt("n=%zu", n); }; CppAD::ode_evaluate(x, 0, f); CppAD::ode_evaluate(x, 1, J); rep().count("ode_evaluate"); for(size_t i = 0; i < n; ++i) { ld w = 0, fac = 1; for(size_t k = 0; k <= i; ++k) { if( k ) fac *= ld(k); w += x[i-k] / fac; if( ! (std::fabs(J[i*n+i-k] - 1 / fac) <= 1e-14L) ) BAD("jacobian"); } for(size_t j = i + 1; j < n; ++j) if( J[i*n+j] != 0 ) BAD("jacobian"); if( ! (std::fabs(f[i] - w) <= (i <= 5 ? 1e-13L : 1e-6L)) ) BAD("value"); }
    CppAD::vector<A1> ax(n), af(n); for(size_t i = 0; i < n; ++i) ax[i] = x[i]; CppAD::Independent(ax); CppAD::ode_evaluate(ax, 0, af); CppAD::ADFun<double> F(ax, af); CppAD::vector<double> K = F.Jacobian(x); for(size_t i = 0; i < n * n; ++i) if( ! (std::fabs(K[i] - J[i]) <= 1e-6) ) BAD("ad-jacobian");
#ifndef NDEBUG
    if( r.chance(.1) ) { rep().count("misuse"); if( ! reports([&] { CppAD::ode_evaluate(x, 2, f); }) || ! reports([&] { CppAD::vector<double> q(n + 1); CppAD::ode_evaluate(x, 0, q); }) ) BAD("misuse-not-reported"); }
#endif
}
static void sparse_case(Rng& r)
{   const char* name = "sparse_fun"; size_t n = 1 + r.sbelow(7), m = 1 + r.sbelow(6); VD x(n); for(auto& z : x) z = r.uni(-1, 1); std::set<std::pair<size_t, size_t>> S; for(size_t i = 0; i < m; ++i) S.insert({i, r.sbelow(n)}); for(int k = r.below(12); k > 0; --k) S.insert({r.sbelow(m), r.sbelow(n)}); std::vector<std::pair<size_t, size_t>> P(S.begin(), S.end()); r.shuffle(P); CppAD::vector<size_t> row, col; for(auto& p : P) { row.push_back(p.first); col.push_back(p.second); } size_t K = row.size(); VD f(m), J(K); auto ctx = [&] { std::string t = fmt("m=%zu n=%zu ", m, n); for(size_t k = 0; k < row.size(); ++k) t += fmt("(%zu,%zu)", row[k], col[k]); return t; };
    CppAD::sparse_jac_fun<double>(m, n, x, row, col, 0, f); CppAD::sparse_jac_fun<double>(m, n, x, row, col, 1, J); rep().count("sparse_jac_fun"); rep().sig(hstr(ctx())); std::vector<A1> ax(x.begin(), x.end()), ay(m); CppAD::Independent(ax); CppAD::sparse_jac_fun<A1>(m, n, ax, row, col, 0, ay); CppAD::ADFun<double> F(ax, ay); VD D = F.Jacobian(x); for(size_t i = 0; i < m; ++i) { ld w = 0; for(size_t k = 0; k < K; ++k) if( row[k] == i ) w += expl(ld(x[col[k]]) * x[col[k]] / 2); if( ! (std::fabs(f[i] - w) <= 1e-13L * w) ) BAD("jac-value"); } for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) { double w = 0; for(size_t k = 0; k < K; ++k) if( row[k] == i && col[k] == j ) w = J[k]; if( ! (std::fabs(D[i*n+j] - w) <= 1e-12) ) BAD("jac-derivative"); }
    // Hessian: all the second partials at the listed entries
    S.clear(); for(int k = 1 + r.below(14); k > 0; --k) { size_t i = r.sbelow(n), j = r.sbelow(n); S.insert({i, j}); if( r.chance(.3) ) S.insert({j, i}); if( r.chance(.3) ) S.insert({i, i}); } P.assign(S.begin(), S.end()); r.shuffle(P); row.clear(); col.clear(); for(auto& p : P) { row.push_back(p.first); col.push_back(p.second); } K = row.size(); VD v(1), H(K); CppAD::sparse_hes_fun<double>(n, x, row, col, 0, v); CppAD::sparse_hes_fun<double>(n, x, row, col, 2, H); rep().count("sparse_hes_fun"); rep().sig(hstr(ctx())); std::vector<A1> bx(x.begin(), x.end()), by(1); CppAD::Independent(bx); CppAD::sparse_hes_fun<A1>(n, bx, row, col, 0, by); CppAD::ADFun<double> G(bx, by); VD E = G.Hessian(x, 0); ld w = 0; for(size_t k = 0; k < K; ++k) w += expl(ld(x[row[k]]) * x[col[k]]); if( ! (std::fabs(v[0] - w) <= 1e-13L * w) ) BAD("hes-value"); for(size_t k = 0; k < K; ++k) if( ! (std::fabs(E[row[k]*n+col[k]] - H[k]) <= 1e-11 * (1 + std::fabs(H[k]))) ) BAD("hes-derivative"); }
static void uniform_case(Rng& r)
{   const char* name = "uniform_01"; size_t n = 1 + r.sbelow(50), seed = r.sbelow(100000); auto ctx = [&] { return fmt("n=%zu seed=%zu", n, seed); }; VD a(n, 9.), b(n, 9.); CppAD::uniform_01(seed); CppAD::uniform_01(n, a); CppAD::uniform_01(seed); CppAD::uniform_01(n, b); rep().count("uniform"); if( a != b ) BAD("not-repeatable"); for(double z : a) if( ! (z >= 0 && z <= 1) ) BAD("range"); }
static void body(long, Rng& r)
{   static CppAD::ErrorHandler* eh = new CppAD::ErrorHandler(throw_handler); (void) eh;
    switch(r.below(30)) {
    case 0: sort_case<double, CppAD::vector<size_t>>(r, "double", [&] { return r.chance(.3) ? double(r.below(4)) : r.uni(-1, 1); }); break;
    case 1: sort_case<int, std::vector<int>>(r, "int", [&] { return r.below(50) - 25; }); break;
    case 2: sort_case<Key, std::valarray<size_t>>(r, "struct", [&] { return Key{r.below(3), std::string(r.sbelow(30), 'a')}; }); break;
    case 3: sort_case<size_t, std::vector<size_t>>(r, "size", [&] { return size_t(r.next()); }); break;
    case 4: union_case<int>(r, [&] { return r.below(30) - 15; }); break;
    case 5: union_case<std::string>(r, [&] { return std::string(r.sbelow(12), 'x'); }); break;
    case 6: to_string_int<short>(r, "short"); to_string_int<unsigned short>(r, "unsigned-short"); break;
    case 7: to_string_int<int>(r, "int"); to_string_int<unsigned>(r, "unsigned"); break;
    case 8: to_string_int<long>(r, "long"); to_string_int<unsigned long>(r, "unsigned-long"); break;
    case 9: to_string_int<long long>(r, "long-long"); to_string_int<unsigned long long>(r, "unsigned-long-long"); break;
    case 10: case 11: to_string_float<float>(r, "float"); to_string_float<double>(r, "double"); to_string_float<long double>(r, "long-double"); break;
    case 12: to_string_ad(r); if( r.chance(.1) ) not_implemented(r); break;
    case 13: nan_case(r); break;
    case 14: near_real<double>(r, "near_equal-double"); break; case 15: near_real<float>(r, "near_equal-float"); break; case 16: near_real<long double>(r, "near_equal-long-double"); break; case 17: near_complex<double>(r, "near_equal-complex"); break; case 18: near_complex<float>(r, "near_equal-complex-float"); break; case 19: near_ad(r); break;
    case 20: pow_real<double>(r, "pow-double"); break; case 21: pow_real<float>(r, "pow-float"); pow_real<long double>(r, "pow-long-double"); break; case 22: pow_other(r); break;
    case 23: limits_case<float, float>("limits-float"); limits_case<double, double>("limits-double"); limits_case<A1, double>("limits-ad"); limits_case<A2, double>("limits-ad-ad"); limits_case<AF, float>("limits-ad-float"); limits_case<CD, double>("limits-complex"); limits_case<AC, double>("limits-ad-complex"); break;
    case 24: case 25: order_case(r); break;
    case 26: det_case<std::vector<double>>(r); break; case 27: r.chance(.5) ? det_case<CppAD::vector<double>>(r) : ode_case(r); break; case 28: sparse_case(r); break;
    default: if( r.chance(.2) ) uniform_case(r); else det_case<CppAD::vector<double>>(r); }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
