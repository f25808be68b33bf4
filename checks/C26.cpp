// C26: ODE, quadrature and polynomial utilities meet their stated order
#include <complex>
#include <valarray>
#include "../lib/harness.hpp"
using namespace vf;
typedef std::complex<ld> CL; typedef std::vector<double> VD; typedef std::vector<CL> VC; typedef std::vector<ld> VL;
template <class F> bool reports(F f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
#define BAD(key) do { rep().fail(std::string(name) + ":" + key, ctx()); return; } while(0)
// ---- differential equations with polynomial solutions ---------------------------
// component i has weight w[i]; its right hand side only has terms of weight less than w[i] where t has weight one,
// so that the solution is a polynomial of degree w[i] and all elementary differentials above that order vanish.
struct Term { double c; int i, e0; std::vector<int> e; };
struct Sys { int n; std::vector<int> w; std::vector<Term> f; };
static Sys gen_sys(Rng& r, int wmax)
{   Sys s; s.n = 1 + r.below(6); for(int i = 0; i < s.n; ++i) s.w.push_back(r.chance(.3) ? wmax : 1 + r.below(wmax)); std::sort(s.w.begin(), s.w.end());
    for(int i = 0; i < s.n; ++i) { int k = 1 + r.below(4); for(int q = 0; q < k; ++q) { Term t; t.i = i; t.c = r.uni(-1, 1); t.e0 = 0; t.e.assign(size_t(s.n), 0); int left = s.w[size_t(i)] - 1; bool full = r.chance(.6); while(left > 0 && (full || r.chance(.7))) { std::vector<int> cand; cand.push_back(-1); for(int j = 0; j < i; ++j) if( s.w[size_t(j)] <= left && s.w[size_t(j)] < s.w[size_t(i)] ) { cand.push_back(j); cand.push_back(j); } int j = r.pick(cand); if( j < 0 ) { t.e0++; left--; } else { t.e[size_t(j)]++; left -= s.w[size_t(j)]; } } s.f.push_back(t); } }
    return s; }
// solution as polynomial in s = t - ti
static std::vector<VC> solve(const Sys& s, CL ti, const VC& xi, bool absolute)
{   std::vector<VC> X; auto mulp = [](const VC& a, const VC& b) { VC c(a.size() + b.size() - 1, 0); for(size_t i = 0; i < a.size(); ++i) for(size_t j = 0; j < b.size(); ++j) c[i+j] += a[i] * b[j]; return c; };
    for(int i = 0; i < s.n; ++i) { VC d(8, 0); for(auto& t : s.f) if( t.i == i ) { VC m(1, CL(absolute ? std::fabs(t.c) : t.c)); for(int k = 0; k < t.e0; ++k) m = mulp(m, VC{ti, CL(1)}); for(int j = 0; j < i; ++j) for(int k = 0; k < t.e[size_t(j)]; ++k) m = mulp(m, X[size_t(j)]); for(size_t k = 0; k < m.size() && k < 8; ++k) d[k] += m[k]; }
        VC x(1, xi[size_t(i)]); for(size_t k = 0; k < 7; ++k) x.push_back(d[k] / ld(k + 1)); while(x.size() > 1 && x.back() == CL(0)) x.pop_back(); X.push_back(x); }
    return X; }
static CL evalp(const VC& p, CL s) { CL r = 0; for(size_t k = p.size(); k-- > 0; ) r = r * s + p[k]; return r; }
struct Stop {};
template <class S, class V> struct Fun
{   const Sys& s; long calls = 0, nan_at = -1; size_t nan_i = 0; int which = 0; explicit Fun(const Sys& q) : s(q) {}
    template <class E> S mono(const Term& t, const S& tt, const V& x, const E& e, int e0) const { S m = S(t.c); for(int k = 0; k < e0; ++k) m *= tt; for(int j = 0; j < s.n; ++j) for(int k = 0; k < e[size_t(j)]; ++k) m *= x[size_t(j)]; return m; }
    void poison(V& f, int w) { if( w == which && calls++ == nan_at ) f[nan_i % size_t(f.size())] = S(std::numeric_limits<double>::quiet_NaN()); }
    void Ode(const S& t, const V& x, V& f) { for(int i = 0; i < s.n; ++i) f[size_t(i)] = S(0); for(auto& q : s.f) f[size_t(q.i)] += mono(q, t, x, q.e, q.e0); poison(f, 0); }
    void Ode_ind(const S& t, const V& x, V& f) { for(int i = 0; i < s.n; ++i) f[size_t(i)] = S(0); for(auto& q : s.f) if( q.e0 > 0 ) f[size_t(q.i)] += S(double(q.e0)) * mono(q, t, x, q.e, q.e0 - 1); poison(f, 1); }
    void Ode_dep(const S& t, const V& x, V& f) { for(int i = 0; i < s.n * s.n; ++i) f[size_t(i)] = S(0); for(auto& q : s.f) for(int j = 0; j < s.n; ++j) if( q.e[size_t(j)] > 0 ) { std::vector<int> e(q.e); e[size_t(j)]--; f[size_t(q.i * s.n + j)] += S(double(q.e[size_t(j)])) * mono(q, t, x, e, q.e0); } poison(f, 2); } };
template <class S, class V, class F> V step_method(bool rosen, F& f, size_t M, const S& ti, const S& tf, const V& xi, V* e)
{   if( rosen ) return e ? CppAD::Rosen34(f, M, ti, tf, xi, *e) : CppAD::Rosen34(f, M, ti, tf, xi); return e ? CppAD::Runge45(f, M, ti, tf, xi, *e) : CppAD::Runge45(f, M, ti, tf, xi); }
static std::string sys_text(const Sys& s) { std::string t = fmt("n=%d ", s.n); for(auto& q : s.f) { t += fmt("f%d+=%.17g*t^%d", q.i, q.c, q.e0); for(int j = 0; j < s.n; ++j) if( q.e[size_t(j)] ) t += fmt("*x%d^%d", j, q.e[size_t(j)]); t += "; "; } return t; }
template <class V> void ode_case(Rng& r, bool rosen)
{   const char* name = rosen ? "rosen34" : "runge45"; int order = rosen ? 4 : 5; Sys s = gen_sys(r, order); size_t n = size_t(s.n), M = size_t(1 + r.below(r.chance(.2) ? 12 : 4)); double ti = r.uni(-1, 1), tf = ti + (r.chance(.85) ? r.uni(.1, 1.5) : -r.uni(.1, 1)); V xi(n); VC cx(n), ax(n); for(size_t i = 0; i < n; ++i) { xi[i] = r.uni(-1, 1); cx[i] = xi[i]; ax[i] = std::fabs(xi[i]); }
    auto ctx = [&] { std::string t = sys_text(s) + fmt("M=%zu ti=%.17g tf=%.17g xi=", M, ti, tf); for(size_t i = 0; i < n; ++i) t += fmt("%.17g ", xi[i]); return t; };
    auto X = solve(s, ti, cx, false), A = solve(s, std::fabs(ti) + 1, ax, true); ld h = std::fabs(tf - ti); std::vector<ld> sc(n); ld smax = 1; for(size_t i = 0; i < n; ++i) smax = std::max(smax, sc[i] = 1 + evalp(A[i], h).real()); const ld tol = 2e-13L * smax * ld(M + 2);
    Fun<double, V> f(s), f2(s), f3(s); V e(n), e2(n); V xf = step_method<double, V>(rosen, f, M, ti, tf, xi, &e), x2 = step_method<double, V>(rosen, f2, 2 * M, ti, tf, xi, &e2), x3 = step_method<double, V>(rosen, f3, M, ti, tf, xi, (V*) nullptr);
    rep().count(name); rep().sig(hstr(sys_text(s)));
    for(size_t i = 0; i < n; ++i)
    {   ld want = evalp(X[i], tf - ti).real(); rep().count("ode_values"); if( ! (std::fabs(ld(xf[i]) - want) <= tol) ) BAD("not-exact"); if( ! (std::fabs(ld(x2[i]) - want) <= 2 * tol) ) BAD("not-exact-2M"); if( x3[i] != xf[i] ) BAD("with-and-without-e");
        if( ! (e[i] >= 0) ) BAD("error-negative"); if( s.w[i] < order ) { if( ! (e[i] <= tol) ) BAD("error-lower-order"); }
        else { ld fac = ld(1 << (order - 1)); if( ! (std::fabs(fac * ld(e2[i]) - ld(e[i])) <= fac * 4 * tol) ) BAD("error-order"); if( e[i] > 1e3 * tol ) rep().count("error_seen"); } }
    long per = rosen ? 3 : 6; if( f.calls != per * long(M) ) BAD("number-of-evaluations");
    { Fun<double, V> g(s); g.which = rosen ? r.below(3) : 0; long tot = g.which == 0 ? per * long(M) : long(M); g.nan_at = long(r.sbelow(size_t(tot))); g.nan_i = r.sbelow(100); V q(n); V y = step_method<double, V>(rosen, g, M, ti, tf, xi, &q); rep().count("nan"); for(size_t i = 0; i < n; ++i) if( y[i] == y[i] || q[i] == q[i] ) BAD("nan-not-returned"); }
#ifndef NDEBUG
    if( r.chance(.1) ) { rep().count("misuse"); Fun<double, V> g(s); V q(n + 1), z(n); if( ! reports([&] { step_method<double, V>(rosen, g, 0, ti, tf, xi, &z); }) || ! reports([&] { step_method<double, V>(rosen, g, 1, ti, tf, xi, &q); }) ) BAD("misuse-not-reported"); }
#endif
}
static void ode_ad_case(Rng& r)
{   bool rosen = r.chance(.4); const char* name = rosen ? "rosen34-ad" : "runge45-ad"; int order = rosen ? 4 : 5; Sys s = gen_sys(r, order); size_t n = size_t(s.n), M = size_t(1 + r.below(4)); typedef std::vector<A1> VA; VA u(n + 2); u[0] = r.uni(-1, 0); u[1] = r.uni(.3, 1); for(size_t i = 0; i < n; ++i) u[i+2] = r.uni(-1, 1);
    auto ctx = [&] { return sys_text(s) + fmt("M=%zu", M); };
    CppAD::Independent(u); VA xi(u.begin() + 2, u.end()), xf; Fun<A1, VA> f(s); { A1 ti = u[0], tf = u[1]; VA e(n); xf = step_method<A1, VA>(rosen, f, M, ti, tf, xi, r.chance(.5) ? &e : nullptr); } CppAD::ADFun<double> g(u, xf); g.check_for_nan(true); rep().count(name); if( g.size_var() ) rep().sig(hstr(sys_text(s)) + 1);
    for(int pt = 0; pt < 2; ++pt)
    {   VD x(n + 2), d(n + 2), wt(n); x[0] = r.uni(-1, 0); x[1] = r.uni(.3, 1); for(size_t i = 0; i < n; ++i) x[i+2] = r.uni(-1, 1); for(auto& z : d) z = r.uni(-1, 1); VD y = g.Forward(0, x), y1 = g.Forward(1, d); ld hs = 1e-30L; VC cx(n), ax(n); for(size_t i = 0; i < n; ++i) { cx[i] = CL(x[i+2], hs * ld(d[i+2])); ax[i] = std::fabs(x[i+2]); }
        CL ti(x[0], hs * ld(d[0])), tf(x[1], hs * ld(d[1])); auto X = solve(s, ti, cx, false); auto A = solve(s, 2, ax, true); ld sm = 1; for(size_t i = 0; i < n; ++i) sm = std::max(sm, 1 + evalp(A[i], 2).real()); ld tol = 1e-11L * sm;
        ld sum = 0; for(auto& z : wt) z = r.uni(-1, 1); for(size_t i = 0; i < n; ++i) { CL w = evalp(X[i], tf - ti); rep().count("ode_ad"); if( ! (std::fabs(ld(y[i]) - w.real()) <= tol) ) BAD("value"); if( ! (std::fabs(ld(y1[i]) - w.imag() / hs) <= tol) ) BAD("derivative"); sum += wt[i] * (w.imag() / hs); }
        VD dw = g.Reverse(1, wt); ld got = 0; for(size_t j = 0; j < n + 2; ++j) got += ld(dw[j]) * ld(d[j]); if( ! (std::fabs(got - sum) <= 4 * ld(n) * tol) ) BAD("reverse"); } }
// ---- error controller: trace monitor over an arbitrary method ------------------
struct Call { double ta, tb; VD xa, xb, eb; };
struct AnyMethod { Rng r; size_t n, m; double p_nan, p_zero, scale; int nan_mode; std::vector<Call> log; std::function<void()> limit;
    size_t order() const { return m; }
    template <class V> void step(const double& ta, const double& tb, const V& xa, V& xb, V& eb)
    {   Call c; c.ta = ta; c.tb = tb; double h = tb - ta; bool bad = r.chance(p_nan); size_t k = r.sbelow(n); for(size_t i = 0; i < n; ++i) { c.xa.push_back(xa[i]); xb[i] = xa[i] + h * r.uni(-2, 2); eb[i] = r.chance(p_zero) ? 0 : scale * std::pow(std::fabs(h), double(m)) * r.uni(.2, 2); if( bad && i == k ) { if( nan_mode ) xb[i] = NAN; else eb[i] = NAN; } c.xb.push_back(xb[i]); c.eb.push_back(eb[i]); } log.push_back(c); if( log.size() > 20000 ) throw Stop(); } };
template <class V> void control_case(Rng& r)
{   const char* name = "ode-err-control"; AnyMethod m{Rng(r.next()), 1 + r.sbelow(3), 2 + r.sbelow(5), r.chance(.4) ? r.uni(0, .5) : 0, r.chance(.3) ? r.uni() : 0, std::exp(r.uni(-8, 6)), r.below(2), {}, {}}; size_t n = m.n;
    double ti = r.uni(-2, 2), len = r.uni(.1, 3), tf = ti + len, smin = len * (r.chance(.1) ? r.uni(1, 2) : r.uni(.002, .2)), smax = r.chance(.15) ? smin : smin + len * r.uni(0, 1), scur = r.chance(.2) ? smax * 2 : (r.chance(.1) ? 0 : r.uni(smin / 2, smax)), erel = r.chance(.3) ? 0 : std::exp(r.uni(-12, 0)); V xi(n), eabs(n), ef(n), maxabs(n); for(size_t i = 0; i < n; ++i) { xi[i] = r.uni(-2, 2); eabs[i] = r.chance(.1) && erel > 0 ? 0 : std::exp(r.uni(-12, 0)); ef[i] = maxabs[i] = 99; }
    auto ctx = [&] { std::string s = fmt("n=%zu m=%zu ti=%.17g tf=%.17g smin=%.17g smax=%.17g erel=%.17g calls: ", n, m.m, ti, tf, smin, smax, erel); for(auto& c : m.log) if( s.size() < 3000 ) s += fmt("[%.10g %.10g eb0=%.4g] ", c.ta, c.tb, c.eb[0]); return s; };
    size_t nstep = 12345; bool with = r.chance(.7); V xf; try { if( with ) xf = CppAD::OdeErrControl(m, ti, tf, xi, smin, smax, scur, eabs, erel, ef, maxabs, nstep); else xf = CppAD::OdeErrControl(m, ti, tf, xi, smin, smax, scur, eabs, erel, ef); } catch(const Stop&) { BAD("does-not-finish"); }
    rep().count(name); size_t K = m.log.size(); if( K == 0 ) BAD("no-step"); if( with && nstep != K ) BAD("nstep"); rep().sig(hstr(fmt("%zu %.17g", K, m.log.back().tb)));
    bool is_nan = xf[0] != xf[0]; VD cur(n), sum(n, 0.), mx(n); for(size_t i = 0; i < n; ++i) { cur[i] = xi[i]; mx[i] = std::fabs(xi[i]); } double ta = ti; bool forced = false, ended = false; const double tiny = 1e-12 * (1 + std::fabs(ti) + len);
    for(size_t k = 0; k < K; ++k)
    {   Call& c = m.log[k]; double h = c.tb - c.ta; if( ended ) BAD("step-after-end"); if( c.ta != ta || c.xa != cur ) BAD("not-contiguous"); if( ! (c.tb > c.ta) || c.tb > tf ) BAD("step-outside"); if( h > smax + tiny ) BAD("step-above-smax"); if( h < smin - tiny && ! (len <= smin + tiny && K >= 1 && c.tb == tf && c.ta == ti) && ! (k + 2 >= K && h >= smin / 2 - tiny) ) { bool rejected_after = false; for(size_t q = k; q < K; ++q) if( m.log[q].ta < tf - 2 * smin - tiny ) rejected_after = true; if( rejected_after || h < smin / 2 - tiny ) BAD("step-below-smin"); }
        bool nan = false, clear_ok = true, clear_bad = false; for(size_t i = 0; i < n; ++i) { if( c.xb[i] != c.xb[i] || c.eb[i] != c.eb[i] ) nan = true; double a = (eabs[i] + erel * std::fabs(c.xb[i])) * h / len; if( ! (c.eb[i] <= a * (1 - 1e-9)) && c.eb[i] != 0 ) clear_ok = false; if( c.eb[i] > a * (1 + 1e-9) ) clear_bad = true; }
        bool accepted; if( k + 1 < K ) accepted = m.log[k+1].ta == c.tb; else accepted = ! is_nan && c.tb == tf;
        if( nan ) { rep().count("nan_steps"); if( accepted ) BAD("nan-accepted"); if( k + 1 == K && ! is_nan ) BAD("nan-accepted"); }
        else { if( clear_ok && ! accepted ) { if( ! (h < 10. * smin && false) ) BAD("good-step-rejected"); } if( clear_bad && accepted && h > 1.5 * smin + tiny ) BAD("bad-step-accepted"); if( clear_bad && ! accepted ) rep().count("rejected"); if( clear_bad && accepted ) forced = true; if( ! clear_ok ) forced = forced || clear_bad; if( ! accepted && h <= 1.5 * smin - tiny ) BAD("minimum-step-rejected"); }
        if( ! accepted && k + 1 < K ) { double h2 = m.log[k+1].tb - m.log[k+1].ta; if( ! (h2 < h) && ! (nan && h2 <= 1.5 * smin + tiny) ) BAD("rejected-step-not-reduced"); }
        if( accepted ) { rep().count("accepted"); ta = c.tb; cur = c.xb; for(size_t i = 0; i < n; ++i) { sum[i] += c.eb[i]; mx[i] = std::max(mx[i], std::fabs(c.xb[i])); } if( ta == tf ) ended = true; } }
    if( is_nan ) { Call& c = m.log.back(); bool nan = false; for(size_t i = 0; i < n; ++i) if( c.xb[i] != c.xb[i] || c.eb[i] != c.eb[i] ) nan = true; rep().count("nan_returned"); if( ! nan || c.tb - c.ta > 1.5 * smin + tiny ) BAD("nan-returned"); for(size_t i = 0; i < n; ++i) if( xf[i] == xf[i] || ef[i] == ef[i] ) BAD("nan-not-all"); return; }
    if( ! ended ) BAD("end-not-reached"); for(size_t i = 0; i < n; ++i) { if( xf[i] != cur[i] ) BAD("xf"); if( ! near(ef[i], sum[i], 1e-12, 0) ) BAD("ef"); if( with && maxabs[i] != mx[i] ) BAD("maxabs"); if( ! forced ) { rep().count("bound_checked"); if( ! (ef[i] <= (eabs[i] + erel * mx[i]) * (1 + 1e-8)) ) BAD("error-bound"); } else rep().count("forced_steps"); }
#ifndef NDEBUG
    if( r.chance(.1) ) { rep().count("misuse"); V q(n + 1); double s2 = smin / 2; if( ! reports([&] { CppAD::OdeErrControl(m, ti, tf, xi, smin, s2, scur, eabs, erel, ef, maxabs, nstep); }) || ! reports([&] { CppAD::OdeErrControl(m, ti, tf, xi, smin, smax, scur, q, erel, ef, maxabs, nstep); }) || ! reports([&] { CppAD::OdeErrControl(m, ti, tf, xi, smin, smax, scur, eabs, erel, ef, q, nstep); }) ) BAD("misuse-not-reported"); }
#endif
}
// ---- Gear ----------------------------------------------------------------------
// x' = B x + q(t), q a polynomial
struct Lin { size_t n; VD B; std::vector<VD> q; struct Ev { int kind; double t; VD x; }; std::vector<Ev> log; bool keep = false;
    template <class V> void Ode(const double& t, const V& x, V& f) { for(size_t i = 0; i < n; ++i) { double s = 0; for(size_t k = q[i].size(); k-- > 0; ) s = s * t + q[i][k]; for(size_t j = 0; j < n; ++j) s += B[i*n+j] * x[j]; f[i] = s; } put(0, t, x); }
    template <class V> void Ode_dep(const double& t, const V& x, V& f) { for(size_t i = 0; i < n * n; ++i) f[i] = B[i]; put(1, t, x); }
    template <class V> void put(int k, double t, const V& x) { if( ! keep ) return; Ev e; e.kind = k; e.t = t; for(size_t i = 0; i < n; ++i) e.x.push_back(x[i]); log.push_back(e); if( log.size() > 200000 ) throw Stop(); }
    VL rhs(ld t, const VL& x) const { VL f(n); for(size_t i = 0; i < n; ++i) { ld s = 0; for(size_t k = q[i].size(); k-- > 0; ) s = s * t + q[i][k]; for(size_t j = 0; j < n; ++j) s += B[i*n+j] * x[j]; f[i] = s; } return f; } };
// derivative weights at node d of the interpolation polynomial through T
static VL dweights(const VL& T, size_t d)
{   size_t m = T.size(); VL w(m); for(size_t j = 0; j < m; ++j) { if( j == d ) { w[j] = 0; for(size_t k = 0; k < m; ++k) if( k != d ) w[j] += 1 / (T[d] - T[k]); } else { ld p = 1 / (T[j] - T[d]); for(size_t k = 0; k < m; ++k) if( k != j && k != d ) p *= (T[d] - T[k]) / (T[j] - T[k]); w[j] = p; } } return w; }
static bool lsolve(VL A, VL b, size_t n, VL& x) { for(size_t p = 0; p < n; ++p) { size_t q = p; for(size_t i = p; i < n; ++i) if( std::fabs(A[i*n+p]) > std::fabs(A[q*n+p]) ) q = i; if( std::fabs(A[q*n+p]) < 1e-9L ) return false; for(size_t j = 0; j < n; ++j) std::swap(A[p*n+j], A[q*n+j]); std::swap(b[p], b[q]); for(size_t i = 0; i < n; ++i) if( i != p ) { ld f = A[i*n+p] / A[p*n+p]; for(size_t j = p; j < n; ++j) A[i*n+j] -= f * A[p*n+j]; b[i] -= f * b[p]; } } x.resize(n); for(size_t i = 0; i < n; ++i) x[i] = b[i] / A[i*n+i]; return true; }
// one Gear step by its definition: T[0..m], X[0..m-1]; result x and predictor x0
static bool gear_ref(const Lin& F, const VL& T, const std::vector<VL>& X, VL& x, VL& x0, ld& scale)
{   size_t m = T.size() - 1, n = F.n; VL a = dweights(T, m), b = dweights(T, m - 1); VL f = F.rhs(T[m-1], X[m-1]); x0.assign(n, 0); scale = 1; for(size_t i = 0; i < n; ++i) { ld s = f[i], g = std::fabs(s); for(size_t j = 0; j < m; ++j) { s -= b[j] * X[j][i]; g += std::fabs(b[j] * X[j][i]); } x0[i] = s / b[m]; scale = std::max(scale, std::fabs(g / b[m])); }
    VL A(n*n), c(n); VL q = F.rhs(T[m], VL(n, 0)); for(size_t i = 0; i < n; ++i) { for(size_t j = 0; j < n; ++j) A[i*n+j] = -F.B[i*n+j]; A[i*n+i] += a[m]; c[i] = q[i]; ld g = std::fabs(c[i]); for(size_t j = 0; j < m; ++j) { c[i] -= a[j] * X[j][i]; g += std::fabs(a[j] * X[j][i]); } scale = std::max(scale, g / std::fabs(a[m])); }
    return lsolve(A, c, n, x); }
static Lin gen_lin(Rng& r, size_t n, bool dep) { Lin F; F.n = n; F.B.assign(n*n, 0.); if( dep ) for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) F.B[i*n+j] = i == j ? -r.uni(0, r.chance(.3) ? 50 : 3) : r.uni(-.3, .3); for(size_t i = 0; i < n; ++i) { VD q(1 + r.sbelow(5)); for(auto& z : q) z = r.uni(-1, 1); F.q.push_back(q); } return F; }
template <class V> void gear_case(Rng& r)
{   const char* name = "gear"; size_t n = 1 + r.sbelow(3), m = 1 + r.sbelow(6); Lin F = gen_lin(r, n, r.chance(.7)); bool exact = r.chance(.5); std::vector<VD> P(n); // exact: the solution is P of degree <= m, so q = P' - B P
    if( exact ) { for(auto& p : P) { p.resize(m + 1); for(auto& z : p) z = r.uni(-1, 1); } for(size_t i = 0; i < n; ++i) { F.q[i].assign(m + 1, 0.); for(size_t k = 1; k <= m; ++k) F.q[i][k-1] += double(k) * P[i][k]; for(size_t j = 0; j < n; ++j) for(size_t k = 0; k <= m; ++k) F.q[i][k] -= F.B[i*n+j] * P[j][k]; } }
    size_t nt = m + 1 + r.sbelow(2); V T(nt), X(nt * n), e(n); T[0] = r.uni(-1, 1); for(size_t j = 1; j < nt; ++j) T[j] = T[j-1] + r.uni(.05, .3); VL Tl; std::vector<VL> Xl(m, VL(n)); for(size_t j = 0; j <= m; ++j) Tl.push_back(T[j]); for(size_t j = 0; j < nt; ++j) for(size_t i = 0; i < n; ++i) { ld v = 0; if( exact && j <= m ) for(size_t k = P[i].size(); k-- > 0; ) v = v * T[j] + P[i][k]; else v = r.uni(-1, 1); X[j*n+i] = j < m ? double(v) : 55; if( j < m ) Xl[j][i] = X[j*n+i]; }
    auto ctx = [&] { std::string s = fmt("n=%zu m=%zu exact=%d T=", n, m, exact); for(size_t j = 0; j <= m; ++j) s += fmt("%.17g ", T[j]); s += "B=" + vec_text(F.B); return s; };
    VL x, x0; ld sc; if( ! gear_ref(F, Tl, Xl, x, x0, sc) ) return; V X2(X); CppAD::OdeGear(F, m, n, T, X, e); rep().count("gear"); rep().sig(hstr(ctx())); ld nb = 1; for(double z : F.B) nb += std::fabs(z); ld tol = 1e-12L * sc * nb * 20;
    for(size_t i = 0; i < n; ++i) { if( ! (std::fabs(ld(X[m*n+i]) - x[i]) <= tol) ) BAD("value"); ld w = std::fabs(x[i] - x0[i]); if( ! (std::fabs(ld(e[i]) - w) <= 2 * tol) ) BAD("error-estimate"); if( exact ) { ld v = 0; for(size_t k = P[i].size(); k-- > 0; ) v = v * T[m] + P[i][k]; rep().count("gear_exact"); if( ! (std::fabs(ld(X[m*n+i]) - v) <= 100 * tol) ) BAD("not-exact"); if( ! (e[i] <= 200 * tol) ) BAD("error-lower-order"); } else if( e[i] > 1e3 * tol ) rep().count("gear_error_seen"); if( ! (e[i] >= 0) ) BAD("error-negative"); }
    for(size_t k = 0; k < nt * n; ++k) if( k / n != m && X[k] != X2[k] ) BAD("history-changed");
#ifndef NDEBUG
    if( r.chance(.1) ) { rep().count("misuse"); V T1(m), X1(m * n), T3(T); if( m > 0 ) T3[m] = T3[m-1]; if( ! reports([&] { CppAD::OdeGear(F, m, n, T1, X, e); }) || ! reports([&] { CppAD::OdeGear(F, m, n, T, X1, e); }) || ! reports([&] { CppAD::OdeGear(F, m, n, T3, X, e); }) || ! reports([&] { size_t z = 0; CppAD::OdeGear(F, z, n, T, X, e); }) ) BAD("misuse-not-reported"); }
#endif
}
template <class V> void gear_control_case(Rng& r)
{   const char* name = "gear-control"; size_t n = 1 + r.sbelow(3), M = 1 + r.sbelow(5); Lin F = gen_lin(r, n, r.chance(.6)); F.keep = true; double ti = r.uni(-1, 1), len = r.uni(.2, 2), tf = ti + len, smin = len * (r.chance(.1) ? r.uni(1, 2) : r.uni(.002, .05)), smax = r.chance(.1) ? smin : smin + len * r.uni(0, .5), sini = r.chance(.3) ? smin / 10 : r.uni(smin / 4, smax), erel = r.chance(.3) ? 0 : std::exp(r.uni(-9, 0)); if( sini > smax ) sini = smax; double sini0 = sini; V xi(n), eabs(n), ef(n), maxabs(n); for(size_t i = 0; i < n; ++i) { xi[i] = r.uni(-2, 2); eabs[i] = std::exp(r.uni(-10, 0)); ef[i] = maxabs[i] = 99; }
    auto ctx = [&] { std::string s = fmt("n=%zu M=%zu ti=%.17g tf=%.17g smin=%.17g smax=%.17g sini=%.17g erel=%.17g ", n, M, ti, tf, smin, smax, sini0, erel) + "B=" + vec_text(F.B) + " x0="; for(size_t i = 0; i < n; ++i) s += fmt("%.17g ", xi[i]); for(size_t k = 0; k < F.log.size() && s.size() < 3500; k += 5) s += fmt("[%.8g]", F.log[k].t); return s; };
    size_t nstep = 999; bool with = r.chance(.7); V xf; try { if( with ) xf = CppAD::OdeGearControl(F, M, ti, tf, xi, smin, smax, sini, eabs, erel, ef, maxabs, nstep); else { V dummy(n); xf = CppAD::OdeGearControl(F, M, ti, tf, xi, smin, smax, sini, eabs, erel, ef, dummy, nstep); } } catch(const Stop&) { BAD("does-not-finish"); } catch(const cppad_error& er) { if( ! er.known ) throw; if( er.msg.find("step size is to large") != std::string::npos ) { rep().count("step_too_large"); return; } throw; }
    if( sini != sini0 ) BAD("sini-changed"); rep().count("gear_control"); size_t K = F.log.size() / 5; if( F.log.size() % 5 || K != nstep || K == 0 ) BAD("nstep"); rep().sig(hstr(fmt("gc %zu %.17g", K, xf[0])));
    // follow the accepted points
    std::vector<ld> T(1, ti); std::vector<VL> X(1, VL(n)); VD sum(n, 0.), mx(n); for(size_t i = 0; i < n; ++i) { X[0][i] = xi[i]; mx[i] = std::fabs(xi[i]); } const double tiny = 1e-12 * (1 + std::fabs(ti) + len);
    for(size_t k = 0; k < K; ++k)
    {   auto* L = &F.log[5*k]; if( L[0].kind != 0 || L[1].kind != 1 || L[2].kind || L[3].kind || L[4].kind ) BAD("call-sequence"); double ta = L[0].t, tb = L[1].t, h = tb - ta; size_t acc = T.size() - 1, m = std::min(M, acc + 1); if( ta != double(T.back()) ) BAD("not-contiguous"); for(size_t i = 0; i < n; ++i) if( L[0].x[i] != double(X.back()[i]) ) BAD("not-contiguous"); if( ! (tb > ta) || tb > tf ) BAD("step-outside"); if( h > smax + tiny ) BAD("step-above-smax"); double lo = m < M ? std::min(sini0, smax) : smin; if( h < lo / 2 - tiny && ! (tb == tf && ta == ti) ) { if( tb != tf ) BAD("step-below-smin"); }
        VL Tr(T.end() - long(m), T.end()); Tr.push_back(tb); std::vector<VL> Xr(X.end() - long(m), X.end()); VL x, x0; ld sc; if( ! gear_ref(F, Tr, Xr, x, x0, sc) ) { rep().count("skip"); return; } ld nb = 1; for(double z : F.B) nb += std::fabs(z); ld tol = 1e-11L * sc * nb * 20;
        // the iterates seen by the function are those of this step with these previous points
        for(size_t i = 0; i < n; ++i) { if( ! (std::fabs(ld(L[1].x[i]) - x0[i]) <= tol) ) BAD("predictor"); if( ! (std::fabs(ld(L[4].x[i]) - x[i]) <= tol) ) BAD("corrector"); }
        bool accepted = k + 1 < K ? F.log[5*k+5].t == tb : true; bool clear_ok = true, clear_bad = false, vague = false; for(size_t i = 0; i < n; ++i) { ld e = std::fabs(x[i] - x0[i]), a = eabs[i] + erel * std::fabs(x[i]); ld lim = m == 1 ? a / 10 : a * h / len; if( e > lim * (1 - 1e-7L) - 4 * tol ) clear_ok = false; if( e > lim * (1 + 1e-7L) + 4 * tol ) clear_bad = true; } (void) vague; double mins = m == M ? smin : sini0;
        if( clear_ok && ! accepted ) { if( h < 10. * smax ) BAD("good-step-rejected"); } if( clear_bad && accepted && h > 1.5 * mins + tiny ) BAD("bad-step-accepted"); if( ! accepted && h <= 1.5 * mins - tiny ) BAD("minimum-step-rejected"); if( ! accepted ) { rep().count("gear_rejected"); if( ! (F.log[5*k+5+1].t - ta < h) ) BAD("rejected-step-not-reduced"); }
        if( accepted ) { VL nx(n); for(size_t i = 0; i < n; ++i) { nx[i] = k + 1 < K ? F.log[5*k+5].x[i] : xf[i]; if( ! (std::fabs(nx[i] - x[i]) <= tol) ) BAD("accepted-value"); sum[i] += double(std::fabs(x[i] - x0[i])); mx[i] = std::max(mx[i], double(std::fabs(nx[i]))); } T.push_back(tb); X.push_back(nx); rep().count("gear_accepted"); if( m == M && M > 1 ) rep().count("gear_full_order"); if( m > 1 && clear_bad ) rep().count("gear_forced"); } }
    if( double(T.back()) != tf ) BAD("end-not-reached"); for(size_t i = 0; i < n; ++i) { if( ! near(ef[i], sum[i], 1e-6, 1e-9 * (1 + mx[i]) * double(K)) ) BAD("ef"); if( with && ! near(maxabs[i], mx[i], 1e-12, 0) ) BAD("maxabs"); }
}
// ---- quadrature ----------------------------------------------------------------
struct P1 { VD c; mutable long calls = 0; mutable std::set<double>* seen = nullptr; template <class S> S operator()(const S& x) const { ++calls; S s = S(0); for(size_t k = c.size(); k-- > 0; ) s = s * x + S(c[k]); return s; }
    ld integral(ld a, ld b, ld& sc) const { ld s = 0; sc = 0; for(size_t k = 0; k < c.size(); ++k) { s += c[k] * (std::pow(b, ld(k + 1)) - std::pow(a, ld(k + 1))) / ld(k + 1); sc += std::fabs(c[k]) * (std::pow(std::fabs(b), ld(k + 1)) + std::pow(std::fabs(a), ld(k + 1))); } return s; } };
template <class S> void romberg_case(Rng& r, const char* tname)
{   std::string nm = std::string("romberg-") + tname; const char* name = nm.c_str(); bool huge = r.chance(.002); size_t n = huge ? 17 : 2 + r.sbelow(6), p = huge ? 15 + r.sbelow(3) : r.sbelow(n + 1); size_t pe = std::min(p, n - 1); int extra = r.below(3); size_t deg = huge ? 2 + r.sbelow(8) : (extra == 0 ? 2 * pe + 2 : r.sbelow(2 * pe + 2)); P1 F; F.c.resize(deg + 1); for(auto& z : F.c) z = r.uni(-1, 1); if( extra == 0 && std::fabs(F.c[deg]) < .1 ) F.c[deg] = .5; double a = r.uni(-1, 1), b = r.uni(-1, 1) + (r.chance(.7) ? 1 : -1); S e = S(77);
    auto ctx = [&] { return fmt("n=%zu p=%zu a=%.17g b=%.17g ", n, p, a, b) + vec_text(F.c); };
    ld sc, want; S A = S(a), B = S(b); want = F.integral(ld(A), ld(B), sc); S got = CppAD::RombergOne(F, A, B, n, p, e); ld tol = ld(std::numeric_limits<S>::epsilon()) * 100 * (1 + sc) * (1 + ld(deg)); rep().count("romberg"); rep().sig(hstr(ctx()));
    if( F.calls != (1L << (n - 1)) + 1 ) BAD("number-of-evaluations"); if( ! (e >= 0) ) BAD("error-negative"); if( huge ) rep().count("romberg_high_order");
    if( deg <= 2 * pe + 1 ) { rep().count("romberg_exact"); if( ! (std::fabs(ld(got) - want) <= tol) ) BAD("not-exact"); size_t pl = std::min(p, n - 2); if( deg <= 2 * pl + 1 && ! (ld(e) <= 4 * tol) ) BAD("error-lower-order"); }
    else if( ! huge ) { ld err = std::fabs(ld(got) - want); if( p + 2 <= n ) { ld q = std::pow(4.L, ld(p + 1)) - 1; if( ! (std::fabs(ld(e) - q * err) <= (q + 2) * 8 * tol) ) BAD("error-estimate"); if( err > 1e3 * tol ) rep().count("romberg_error_seen"); // step halving gives the stated order
            S e2; S g2 = CppAD::RombergOne(F, A, B, n + 1, p, e2); ld err2 = std::fabs(ld(g2) - want); if( ! (std::fabs(err - (q + 1) * err2) <= (q + 1) * 8 * tol) ) BAD("order"); } }
}
// sums of products of one dimensional polynomials
struct PM { size_t m; std::vector<std::vector<P1>> f; mutable long calls = 0; template <class V> typename V::value_type operator()(const V& x) const { ++calls; typename V::value_type s = 0; for(auto& t : f) { typename V::value_type q = 1; for(size_t i = 0; i < m; ++i) q = q * t[i](x[i]); s = s + q; } return s; } };
template <class V, class SV, size_t m> void mul_case(Rng& r, const char* tname)
{   typedef typename V::value_type S; std::string nm = fmt("romberg-mul%zu-", m) + tname; const char* name = nm.c_str(); V a(m), b(m); SV n(m), p(m); PM F; F.m = m; bool exact_e = true; for(size_t i = 0; i < m; ++i) { n[i] = 2 + r.sbelow(m > 2 ? 2 : 4); p[i] = r.sbelow(n[i] + 1); a[i] = S(r.uni(-1, 1)); b[i] = a[i] + S(r.chance(.75) ? r.uni(.2, 2) : -r.uni(.2, 2)); }
    int nt = r.range(1, 3); ld want = 0, sc = 0; for(int t = 0; t < nt; ++t) { std::vector<P1> q(m); ld w = 1, g = 1; for(size_t i = 0; i < m; ++i) { size_t pe = std::min(p[i], n[i] - 1), pl = std::min(p[i], n[i] - 2), d = r.sbelow(2 * pe + 2); if( d > 2 * pl + 1 ) exact_e = false; q[i].c.resize(d + 1); for(auto& z : q[i].c) z = r.uni(-1, 1); ld s; ld v = q[i].integral(ld(a[i]), ld(b[i]), s); w *= v; g *= s + 1; } want += w; sc += g; F.f.push_back(q); }
    auto ctx = [&] { std::string s; for(size_t i = 0; i < m; ++i) s += fmt("[n=%zu p=%zu a=%.17g b=%.17g] ", size_t(n[i]), size_t(p[i]), double(a[i]), double(b[i])); return s; };
    S e = S(88); CppAD::RombergMul<PM, SV, V, m> R; S got = R(F, a, b, n, p, e); ld tol = ld(std::numeric_limits<S>::epsilon()) * 1000 * (1 + sc); rep().count("romberg_mul"); rep().sig(hstr(ctx())); long ne = 1; for(size_t i = 0; i < m; ++i) ne *= (1L << (n[i] - 1)) + 1; if( F.calls != ne ) BAD("number-of-evaluations");
    if( ! (std::fabs(ld(got) - want) <= tol) ) BAD("not-exact"); if( exact_e ) { rep().count("romberg_mul_exact"); if( ! (ld(e) <= 10 * tol) ) BAD("error-lower-order"); } else if( ld(e) > 1e3 * tol ) rep().count("romberg_mul_error_seen"); if( ! (e >= -tol) ) BAD("error-negative"); }
static void mul_ad_case(Rng& r)
{   const char* name = "romberg-mul-ad"; std::vector<A1> u(4), y(1); std::vector<size_t> n{2 + r.sbelow(3), 2 + r.sbelow(3)}, p{r.sbelow(n[0]), r.sbelow(n[1])}; PM F; F.m = 2; F.f.resize(2); for(auto& t : F.f) { t.resize(2); for(size_t i = 0; i < 2; ++i) { t[i].c.resize(r.sbelow(2 * p[i] + 2) + 1); for(auto& z : t[i].c) z = r.uni(-1, 1); } } auto ctx = [&] { return fmt("n=%zu,%zu p=%zu,%zu", n[0], n[1], p[0], p[1]); };
    for(auto& z : u) z = r.uni(-1, 1); CppAD::Independent(u); std::vector<A1> a(u.begin(), u.begin() + 2), b(u.begin() + 2, u.end()); A1 e; CppAD::RombergMul<PM, std::vector<size_t>, std::vector<A1>, 2> R; y[0] = R(F, a, b, n, p, e); CppAD::ADFun<double> g(u, y); VD x(4); for(auto& z : x) z = r.uni(-1.5, 1.5); VD v = g.Forward(0, x), j = g.Jacobian(x); ld want = 0, sc = 1; VL d(4, 0); for(auto& t : F.f) { ld s0, s1, i0 = t[0].integral(x[0], x[2], s0), i1 = t[1].integral(x[1], x[3], s1); want += i0 * i1; sc += (1 + s0) * (1 + s1) * 10; d[0] -= t[0](ld(x[0])) * i1; d[2] += t[0](ld(x[2])) * i1; d[1] -= t[1](ld(x[1])) * i0; d[3] += t[1](ld(x[3])) * i0; }
    rep().count("romberg_mul_ad"); if( ! (std::fabs(ld(v[0]) - want) <= 1e-11L * sc) ) BAD("value"); for(size_t k = 0; k < 4; ++k) if( ! (std::fabs(ld(j[k]) - d[k]) <= 1e-10L * sc) ) BAD("derivative"); }
static void quad_ad_case(Rng& r)
{   const char* name = "romberg-ad"; size_t n = 2 + r.sbelow(3), p = r.sbelow(n), deg = r.sbelow(2 * p + 2); P1 F; F.c.resize(deg + 1); for(auto& z : F.c) z = r.uni(-1, 1); std::vector<A1> u(2), y(1); u[0] = r.uni(-1, 0); u[1] = r.uni(.1, 1); auto ctx = [&] { return fmt("n=%zu p=%zu ", n, p) + vec_text(F.c); }; CppAD::Independent(u); A1 e; y[0] = CppAD::RombergOne(F, u[0], u[1], n, p, e); CppAD::ADFun<double> g(u, y); VD x{r.uni(-1, 1), r.uni(-1, 1)}; ld sc; ld want = F.integral(x[0], x[1], sc); VD v = g.Forward(0, x), j = g.Jacobian(x); ld tol = 1e-12L * (1 + sc) * ld(deg + 1); rep().count("romberg_ad");
    if( ! (std::fabs(ld(v[0]) - want) <= tol) ) BAD("value"); if( ! (std::fabs(ld(j[0]) + ld(F(x[0]))) <= 10 * tol) || ! (std::fabs(ld(j[1]) - ld(F(x[1]))) <= 10 * tol) ) BAD("derivative"); }
// ---- polynomials ----------------------------------------------------------------
template <class S> static CL up(const S& x) { return CL(ld(x)); } template <> CL up(const std::complex<double>& x) { return CL(x.real(), x.imag()); } template <> CL up(const A1& x) { return CL(Value(CppAD::Var2Par(x))); }
template <class S> S mks(Rng& r) { return S(r.uni(-1.2, 1.2)); } template <> std::complex<double> mks(Rng& r) { return {r.uni(-1, 1), r.uni(-1, 1)}; }
template <class S, class V> void poly_case(Rng& r, const char* tname, double eps)
{   std::string nm = std::string("poly-") + tname; const char* name = nm.c_str(); size_t d = r.chance(.15) ? r.sbelow(40) : r.sbelow(8); size_t k = r.sbelow(d + 3); V a(d + 1); for(size_t i = 0; i <= d; ++i) a[i] = r.chance(.1) ? S(0) : mks<S>(r); S z = r.chance(.1) ? S(double(r.range(-1, 1))) : mks<S>(r); bool big = d > 25; CL want = 0; ld sc = 0; for(size_t i = k; i <= d; ++i) { ld f = 1; for(size_t q = i - k + 1; q <= i; ++q) f *= ld(q); CL t = f * up(a[i]); for(size_t q = 0; q < i - k; ++q) t *= up(z); want += t; sc += std::abs(t); }
    auto ctx = [&] { return fmt("d=%zu k=%zu z=%.17g", d, k, double(up(z).real())); };
    if( eps > 1e-10 && d > 12 ) return; S got = CppAD::Poly(k, a, z); rep().count("poly"); if( big && k > 20 ) rep().count("poly_high_order"); rep().sig(hstr(ctx() + tname)); if( ! (std::abs(up(got) - want) <= eps * ld(40 + 4 * d) * sc + 1e-300L) ) BAD("value"); if( k > d && up(got) != CL(0) ) BAD("above-degree"); }
static void poly_ad_case(Rng& r)
{   const char* name = "poly-ad"; size_t d = r.sbelow(8), k = r.sbelow(d + 2); std::vector<A1> u(d + 2), y(1); VD x(d + 2); for(size_t i = 0; i < d + 2; ++i) { u[i] = r.uni(-1, 1); x[i] = r.uni(-1.5, 1.5); } auto ctx = [&] { return fmt("d=%zu k=%zu x=", d, k) + vec_text(x); }; CppAD::Independent(u); std::vector<A1> a(u.begin(), u.end() - 1); y[0] = CppAD::Poly(k, a, u[d+1]); CppAD::ADFun<double> g(u, y); VD v = g.Forward(0, x), j = g.Jacobian(x); ld w = 0, dz = 0, sc = 1; for(size_t i = k; i <= d; ++i) { ld f = 1; for(size_t q = i - k + 1; q <= i; ++q) f *= ld(q); ld t = std::pow(ld(x[d+1]), ld(i - k)); w += f * x[i] * t; if( i > k ) dz += f * x[i] * ld(i - k) * std::pow(ld(x[d+1]), ld(i - k - 1)); sc += std::fabs(f * t) * 8; }
    ld tol = 1e-12L * sc; rep().count("poly_ad"); if( ! (std::fabs(ld(v[0]) - w) <= tol) ) BAD("value"); for(size_t i = 0; i <= d; ++i) { ld f = 0; if( i >= k ) { f = 1; for(size_t q = i - k + 1; q <= i; ++q) f *= ld(q); f *= std::pow(ld(x[d+1]), ld(i - k)); } if( ! (std::fabs(ld(j[i]) - f) <= tol) ) BAD("coefficient-derivative"); } if( ! (std::fabs(ld(j[d+1]) - dz) <= 10 * tol) ) BAD("derivative"); }
int main(int argc, char** argv)
{   return harness_main(argc, argv, [](long, Rng& r) {
        switch(r.below(20))
        {   case 0: case 1: ode_case<VD>(r, false); break; case 2: case 3: ode_case<CppAD::vector<double>>(r, true); break; case 4: ode_case<std::valarray<double>>(r, r.chance(.5)); break; case 5: case 6: ode_ad_case(r); break;
            case 7: case 8: case 9: control_case<VD>(r); break; case 10: gear_case<VD>(r); break; case 11: gear_case<CppAD::vector<double>>(r); break; case 12: case 13: gear_control_case<VD>(r); break;
            case 14: romberg_case<double>(r, "double"); break; case 15: romberg_case<float>(r, "float"); break;
            case 16: { int k = r.below(4); if( k == 0 ) mul_case<VD, std::vector<size_t>, 1>(r, "double"); else if( k == 1 ) mul_case<VD, std::vector<size_t>, 2>(r, "double"); else if( k == 2 ) mul_case<CppAD::vector<double>, CppAD::vector<size_t>, 3>(r, "double"); else mul_ad_case(r); break; }
            case 17: quad_ad_case(r); break; case 18: poly_ad_case(r); break;
            default: { int k = r.below(4); if( k == 0 ) poly_case<float, std::vector<float>>(r, "float", 1.2e-7); else if( k == 1 ) poly_case<double, CppAD::vector<double>>(r, "double", 2.3e-16); else if( k == 2 ) poly_case<std::complex<double>, std::vector<std::complex<double>>>(r, "complex", 2.3e-16); else poly_case<A1, std::vector<A1>>(r, "ad", 2.3e-16); break; } } }); }
