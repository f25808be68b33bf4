// C25: linear algebra utilities factor and solve correctly
#include <complex>
#include <valarray>
#include "../lib/harness.hpp"
using namespace vf;
typedef std::complex<ld> CL; typedef std::vector<CL> VC;
template <class F> bool reports(F f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
template <class T> struct Tr { static CL up(const T& x) { return CL(ld(x)); } static double eps() { return double(std::numeric_limits<T>::epsilon()); } static const bool cx = false; static T mk(double re, double) { return T(re); } };
template <class R> struct Tr< std::complex<R> > { static CL up(const std::complex<R>& x) { return CL(x.real(), x.imag()); } static double eps() { return double(std::numeric_limits<R>::epsilon()); } static const bool cx = true; static std::complex<R> mk(double re, double im) { return std::complex<R>(R(re), R(im)); } };
// reference determinant and inverse (partial pivoting in long double); false when singular to working precision
static bool reference(const VC& A, size_t n, CL& det, VC& inv)
{   VC M(A); inv.assign(n * n, 0); for(size_t i = 0; i < n; ++i) inv[i*n+i] = 1; det = 1;
    for(size_t p = 0; p < n; ++p)
    {   size_t q = p; for(size_t i = p; i < n; ++i) if( std::abs(M[i*n+p]) > std::abs(M[q*n+p]) ) q = i;
        if( std::abs(M[q*n+p]) == 0 ) { det = 0; return false; }
        if( q != p ) { det = -det; for(size_t j = 0; j < n; ++j) { std::swap(M[p*n+j], M[q*n+j]); std::swap(inv[p*n+j], inv[q*n+j]); } }
        det *= M[p*n+p]; CL d = CL(1) / M[p*n+p]; for(size_t j = 0; j < n; ++j) { M[p*n+j] *= d; inv[p*n+j] *= d; }
        for(size_t i = 0; i < n; ++i) if( i != p ) { CL c = M[i*n+p]; if( c != CL(0) ) for(size_t j = 0; j < n; ++j) { M[i*n+j] -= c * M[p*n+j]; inv[i*n+j] -= c * inv[p*n+j]; } } }
    return true; }
static ld norm(const VC& A, size_t n, size_t m) { ld r = 0; for(size_t i = 0; i < n; ++i) { ld s = 0; for(size_t j = 0; j < m; ++j) s += std::abs(A[i*m+j]); r = std::max(r, s); } return r; }
// exact rank of a small integer matrix modulo a large prime (random entries: equals the rank unless a minor is divisible by it)
static size_t rank_mod(const std::vector<int>& a, size_t n)
{   const long long P = 1000000007; std::vector<long long> m(a.begin(), a.end()); for(auto& x : m) x = ((x % P) + P) % P; size_t r = 0;
    auto pw = [&](long long b, long long e) { long long q = 1; while( e ) { if( e & 1 ) q = q * b % P; b = b * b % P; e >>= 1; } return q; };
    for(size_t c = 0; c < n && r < n; ++c) { size_t p = r; while( p < n && m[p*n+c] == 0 ) ++p; if( p == n ) continue; for(size_t j = 0; j < n; ++j) std::swap(m[p*n+j], m[r*n+j]); long long iv = pw(m[r*n+c], P - 2);
        for(size_t i = r + 1; i < n; ++i) { long long f = m[i*n+c] * iv % P; if( f ) for(size_t j = 0; j < n; ++j) m[i*n+j] = ((m[i*n+j] - f * m[r*n+j]) % P + P) % P; } ++r; }
    return r; }
enum Kind { K_RANDOM, K_SCALED, K_TIES, K_INT, K_SINGULAR, K_EXACT0, K_PERM, K_ILL, K_LAST };
struct Mat { size_t n; int kind; std::vector<double> re, im; int singular; };  // singular: 1 exact zero pivot, 0 regular, -1 rank deficient but rounding may hide it
static Mat gen_mat(Rng& r, bool cx)
{   Mat a; a.n = 1 + (r.chance(.2) ? r.sbelow(14) : r.sbelow(6)); size_t n = a.n; a.kind = r.below(K_LAST); a.re.assign(n*n, 0); a.im.assign(n*n, 0); a.singular = 0;
    auto each = [&](auto f) { for(size_t i = 0; i < n*n; ++i) { a.re[i] = f(); if( cx && ! r.chance(.1) ) { a.im[i] = f(); if( r.chance(.1) ) a.re[i] = 0; } } };
    std::vector<size_t> pr(n), pc(n); for(size_t i = 0; i < n; ++i) pr[i] = pc[i] = i; r.shuffle(pr); r.shuffle(pc);
    switch(a.kind)
    {   case K_RANDOM: each([&] { return r.uni(-1, 1); }); break;
        case K_SCALED: { std::vector<double> s(n), t(n); for(auto& z : s) z = std::exp(r.uni(-6, 6)); for(auto& z : t) z = std::exp(r.uni(-6, 6)); each([&] { return r.uni(-1, 1); }); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { a.re[i*n+j] *= s[i] * t[j]; a.im[i*n+j] *= s[i] * t[j]; } break; }
        case K_TIES: each([&] { return r.chance(.5) ? 2. : -2.; }); for(auto& z : a.re) if( r.chance(.15) ) z = r.uni(-2, 2); break;
        case K_INT: each([&] { return double(r.range(-4, 4)); }); break;
        case K_SINGULAR: { each([&] { return double(r.range(-5, 5)); }); size_t i = r.sbelow(n), j = r.sbelow(n); if( n == 1 ) { a.re[0] = a.im[0] = 0; break; } if( i == j ) j = (j + 1) % n; int k = r.range(-2, 2); bool row = r.chance(.5); for(size_t q = 0; q < n; ++q) { size_t s = row ? i*n+q : q*n+i, t = row ? j*n+q : q*n+j; a.re[t] = k * a.re[s]; a.im[t] = k * a.im[s]; } break; }
        case K_EXACT0: { each([&] { return r.uni(-1, 1); }); a.singular = 1; size_t k = r.sbelow(n); bool row = r.chance(.5); int what = n > 2 ? r.below(3) : 0;
            if( what == 0 ) for(size_t q = 0; q < n; ++q) { size_t t = row ? k*n+q : q*n+k; a.re[t] = a.im[t] = 0; if( r.chance(.2) ) a.re[t] = -0.; }
            else if( what == 1 ) { for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { a.re[i*n+j] = std::ldexp(1., int((i * 3 + 5) % 4) + int((j * 7 + 2) % 5)); a.im[i*n+j] = 0; } } // rank one, exact arithmetic
            else { size_t h = 1 + r.sbelow(n - 1); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { a.im[i*n+j] = 0; a.re[i*n+j] = i == j && i < h ? std::ldexp(r.chance(.5) ? 1. : -1., r.range(-3, 3)) : 0.; } std::vector<double> c(a.re); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) a.re[i*n+j] = c[pr[i]*n+pc[j]]; }
            break; }
        case K_PERM: for(size_t i = 0; i < n; ++i) { a.re[i*n+pr[i]] = r.chance(.5) ? 1. : -1.; if( r.chance(.3) ) a.re[i*n+pr[i]] *= std::ldexp(1., r.range(-5, 5)); if( cx && r.chance(.5) ) std::swap(a.re[i*n+pr[i]], a.im[i*n+pr[i]]); } for(size_t i = 0; i < n; ++i) if( r.chance(.2) ) a.re[r.sbelow(n*n)] += r.uni(-.01, .01); break;
        case K_ILL: for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { a.re[i*n+j] = 1. / double(i + j + 1); a.im[i*n+j] = cx ? .1 * r.uni(-1, 1) : 0; } break; }
    if( a.kind == K_INT || a.kind == K_SINGULAR ) if( ! cx ) { std::vector<int> z(a.re.begin(), a.re.end()); a.singular = rank_mod(z, n) < n ? -1 : 0; }
    if( cx && (a.kind == K_INT || a.kind == K_SINGULAR || a.kind == K_TIES) ) a.singular = -1;
    if( a.kind == K_TIES || a.kind == K_ILL || a.kind == K_PERM ) a.singular = -1; // judged by the condition number below
    return a; }
static int parity(const std::vector<size_t>& p) { int s = 1; std::vector<char> seen(p.size()); for(size_t i = 0; i < p.size(); ++i) if( ! seen[i] ) { size_t k = 0, j = i; while( ! seen[j] ) { seen[j] = 1; j = p[j]; ++k; } if( k % 2 == 0 ) s = -s; } return s; }
#define BAD(key) do { rep().fail(std::string(name) + ":" + key, ctx()); return; } while(0)
template <class T, class FV, class SV> void lu_case(Rng& r, const char* name)
{   Mat mt = gen_mat(r, Tr<T>::cx); size_t n = mt.n, m = r.sbelow(4); std::vector<T> a(n*n), b(n*m); VC A(n*n), B(n*m);
    for(size_t i = 0; i < n*n; ++i) { a[i] = Tr<T>::mk(mt.re[i], mt.im[i]); A[i] = Tr<T>::up(a[i]); } for(size_t i = 0; i < n*m; ++i) { b[i] = Tr<T>::mk(r.uni(-3, 3), r.chance(.8) ? r.uni(-3, 3) : 0); B[i] = Tr<T>::up(b[i]); }
    auto ctx = [&] { std::string s = fmt("n=%zu m=%zu kind=%d A=", n, m, mt.kind); for(size_t i = 0; i < n*n && i < 60; ++i) s += fmt("%.17Lg,%.17Lg ", A[i].real(), A[i].imag()); return s; };
    double eps = Tr<T>::eps(); CL det; VC inv; bool reg = reference(A, n, det, inv); ld nA = norm(A, n, n); ld cond = reg ? nA * norm(inv, n, n) : std::numeric_limits<ld>::infinity();
    rep().count("matrices"); rep().sig(hstr(fmt("%s %zu %zu %d %d", name, n, m, mt.kind, mt.singular)) ^ mix64(r.next()));
    FV LU(n*n); for(size_t i = 0; i < n*n; ++i) LU[i] = a[i]; SV ip(n), jp(n); for(size_t i = 0; i < n; ++i) { ip[i] = size_t(r.next()); jp[i] = size_t(r.next()); }
    int sign = CppAD::LuFactor(ip, jp, LU); std::vector<size_t> vi(n), vj(n); for(size_t i = 0; i < n; ++i) { vi[i] = ip[i]; vj[i] = jp[i]; }
    { std::set<size_t> si(vi.begin(), vi.end()), sj(vj.begin(), vj.end()); if( si.size() != n || sj.size() != n || *si.rbegin() != n - 1 || *sj.rbegin() != n - 1 ) BAD("permutation"); }
    bool well = cond * ld(n) * ld(n) * eps < 1e-3L;
    if( mt.singular == 1 ) { rep().count("exact_singular"); if( sign != 0 ) BAD("singular-not-reported"); }
    if( well ) { rep().count("regular"); if( sign == 0 ) BAD("regular-reported-singular"); }
    if( mt.singular == 0 || well || mt.singular == -1 ) rep().count("factors");
    auto at = [&](size_t i, size_t j) { return Tr<T>::up(LU[vi[i]*n + vj[j]]); };
    if( sign != 0 )
    {   if( sign != parity(vi) * parity(vj) ) BAD("sign");
        // remaining sub-matrix before every pivot
        VC S(n*n); std::vector<ld> G(n*n); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { S[i*n+j] = A[vi[i]*n+vj[j]]; G[i*n+j] = std::abs(S[i*n+j]); }
        for(size_t p = 0; p < n; ++p)
        {   ld mx = 0; for(size_t i = p; i < n; ++i) for(size_t j = p; j < n; ++j) mx = std::max(mx, std::abs(S[i*n+j])); ld gx = 0; for(auto g : G) gx = std::max(gx, g);
            if( std::abs(at(p, p)) == 0 ) BAD("zero-pivot"); if( std::abs(at(p, p)) < mx * (1 - 8 * ld(eps)) - 16 * ld(eps) * ld(n) * gx ) BAD("pivot-not-maximal");
            for(size_t i = p; i < n; ++i) { CL l = at(i, p); if( std::abs(l - S[i*n+p]) > 16 * ld(eps) * ld(n) * gx ) BAD("lower-factor"); for(size_t j = p + 1; j < n; ++j) { CL u = at(p, j); S[i*n+j] -= l * u; G[i*n+j] += std::abs(l * u); } }
            for(size_t j = p + 1; j < n; ++j) if( std::abs(S[p*n+j]) > 16 * ld(eps) * ld(n) * gx ) BAD("product"); if( p > 0 ) rep().count("pivots"); }
        // invert with these factors
        if( n > 0 ) { FV X(n*m); for(size_t i = 0; i < n*m; ++i) X[i] = b[i]; CppAD::LuInvert(ip, jp, LU, X); VC Lr(n*n), Ur(n*n); std::vector<ld> N(n*n, 0); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { ld s = 0; for(size_t k = 0; k <= std::min(i, j); ++k) s += std::abs(at(i, k)) * (k == j ? 1 : std::abs(at(k, j))); N[vi[i]*n+vj[j]] = s; }
            for(size_t k = 0; k < m; ++k) for(size_t i = 0; i < n; ++i) { CL s = 0; ld t = 0; for(size_t j = 0; j < n; ++j) { CL x = Tr<T>::up(X[j*m+k]); s += A[i*n+j] * x; t += (N[i*n+j] + std::abs(A[i*n+j])) * std::abs(x); } if( std::isfinite(t) ) { rep().count("solutions"); if( ! (std::abs(s - B[i*m+k]) <= 16 * ld(eps) * ld(n) * (t + std::abs(B[i*m+k]))) ) BAD("invert"); } } } }
    { FV fa(n*n), fb(n*m), X(n*m); for(size_t i = 0; i < n*n; ++i) fa[i] = a[i]; for(size_t i = 0; i < n*m; ++i) { fb[i] = b[i]; X[i] = Tr<T>::mk(77, 7); } T logdet = Tr<T>::mk(5, 5); int sd = CppAD::LuSolve(n, m, fa, fb, X, logdet);
      for(size_t i = 0; i < n*n; ++i) if( fa[i] != a[i] ) BAD("input-changed"); for(size_t i = 0; i < n*m; ++i) if( fb[i] != b[i] ) BAD("input-changed");
      if( (sd == 0) != (sign == 0) ) BAD("solve-singular"); if( sd != 0 && sd != 1 && sd != -1 ) BAD("signdet"); if( sd == 0 && logdet != Tr<T>::mk(0, 0) ) BAD("logdet-singular");
      if( sd != 0 && well ) { CL dl = std::exp(Tr<T>::up(logdet)) * CL(ld(sd)); ld lg = std::abs(Tr<T>::up(logdet)) + ld(n) * 8; if( ! (std::abs(dl - det) <= 32 * ld(n) * ld(eps) * (cond + lg) * std::abs(det)) ) BAD("determinant"); rep().count("determinants");
          if( ! Tr<T>::cx ) if( (det.real() > 0) != (sd > 0) ) BAD("determinant-sign");
          for(size_t k = 0; k < m; ++k) { ld nx = 0; VC x(n); for(size_t i = 0; i < n; ++i) { for(size_t j = 0; j < n; ++j) x[i] += inv[i*n+j] * B[j*m+k]; nx = std::max(nx, std::abs(x[i])); } for(size_t i = 0; i < n; ++i) if( ! (std::abs(Tr<T>::up(X[i*m+k]) - x[i]) <= 64 * ld(n) * ld(eps) * cond * nx) ) BAD("solve"); } } }
#ifndef NDEBUG
    if( r.chance(.1) )
    {   rep().count("misuse"); FV bad(n*n + 1), ok(n*n); for(size_t i = 0; i < n*n; ++i) ok[i] = bad[i] = a[i]; SV jb(n + 1); T ld_; FV x0(n*m), x1(n*m + 1);
        if( ! reports([&] { CppAD::LuFactor(ip, jp, bad); }) ) BAD("size-not-reported"); if( ! reports([&] { CppAD::LuFactor(ip, jb, ok); }) ) BAD("size-not-reported");
        if( ! reports([&] { CppAD::LuInvert(ip, jb, ok, x0); }) || ! reports([&] { CppAD::LuInvert(ip, jp, bad, x0); }) ) BAD("size-not-reported"); if( n > 1 && ! reports([&] { CppAD::LuInvert(ip, jp, ok, x1); }) ) BAD("size-not-reported");
        if( ! reports([&] { CppAD::LuSolve(n, m, bad, x0, x0, ld_); }) || ! reports([&] { CppAD::LuSolve(n, m, ok, x1, x0, ld_); }) || ! reports([&] { CppAD::LuSolve(n, m, ok, x0, x1, ld_); }) ) BAD("size-not-reported");
        if( ! Tr<T>::cx || true ) { FV q(n*n); for(size_t i = 0; i < n*n; ++i) q[i] = Tr<T>::mk(NAN, NAN); if( ! reports([&] { CppAD::LuFactor(ip, jp, q); }) ) BAD("nan-not-reported"); } }
#endif
    rep().count(name); }
// --- recorded factorisations and solutions ------------------------------------
typedef std::vector<double> VD; typedef std::vector<ld> VL;
static VL mul(const VL& a, const VL& b, size_t n, size_t m) { VL c(n*m, 0); for(size_t i = 0; i < n; ++i) for(size_t k = 0; k < n; ++k) for(size_t j = 0; j < m; ++j) c[i*m+j] += a[i*n+k] * b[k*m+j]; return c; }
static VL sub(VL a, const VL& b) { for(size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
static void ad_case(Rng& r)
{   const char* name = "ad"; size_t n = 1 + r.sbelow(5), m = r.sbelow(3); bool use_ratio = r.chance(.4); VD x(n*n + n*m); std::vector<size_t> pr(n); for(size_t i = 0; i < n; ++i) pr[i] = i; r.shuffle(pr);
    bool ints = r.chance(.2); for(auto& z : x) z = ints ? double(r.range(-3, 3)) : r.uni(-1, 1); for(size_t i = 0; i < n; ++i) x[i*n+pr[i]] += (r.chance(.5) ? 1 : -1) * (double(n) + .5);
    std::vector<A1> ax(x.begin(), x.end()); bool second_dyn = m > 0 && r.chance(.2); std::vector<A1> ad;
    auto ctx = [&] { return fmt("n=%zu m=%zu ratio=%d ", n, m, use_ratio) + vec_text(x); };
    if( second_dyn ) { ad.assign(ax.begin() + long(n*n), ax.end()); ax.resize(n*n); CppAD::Independent(ax, 0, true, ad); } else CppAD::Independent(ax);
    std::vector<A1> aa(ax.begin(), ax.begin() + long(n*n)), ab(n*m), aX(n*m), ay; if( second_dyn ) ab = ad; else for(size_t i = 0; i < n*m; ++i) ab[i] = ax[n*n+i];
    int sd; VD y0; CppAD::ADFun<double> f;
    VD lu(x.begin(), x.begin() + long(n*n)); std::vector<size_t> ip(n), jp(n), ip2(n), jp2(n); int s0 = CppAD::LuFactor(ip, jp, lu);
    if( use_ratio ) { A1 ratio = -5; sd = CppAD::LuRatio(ip2, jp2, aa, ratio); if( Value(CppAD::Var2Par(ratio)) != 1.0 ) { A1::abort_recording(); BAD("ratio-at-recording"); } bool same = sd == s0 && ip == ip2 && jp == jp2; for(size_t i = 0; i < n*n; ++i) if( Value(CppAD::Var2Par(aa[i])) != lu[i] ) same = false; if( ! same ) { A1::abort_recording(); BAD("ratio-factor"); }
        ay = aa; ay.push_back(ratio); if( m > 0 ) { aX = ab; CppAD::LuInvert(ip2, jp2, aa, aX); } }
    else { A1 logdet; sd = CppAD::LuSolve(n, m, aa, ab, aX, logdet); ay.push_back(logdet); }
    if( sd == 0 ) { A1::abort_recording(); BAD("singular"); }
    size_t off = ay.size(); for(auto& z : aX) ay.push_back(z); f.Dependent(ay); if( r.chance(.3) ) f.optimize("no_compare_op"); f.check_for_nan(false); rep().count(use_ratio ? "ratio" : "solve_recorded");
    size_t q = f.Domain();
    for(int pt = 0; pt < 3; ++pt)
    {   VD xx(x); if( pt > 0 ) for(auto& z : xx) z += r.uni(-.3, .3); if( second_dyn ) f.new_dynamic(VD(xx.begin() + long(n*n), xx.end()));
        VL A(xx.begin(), xx.begin() + long(n*n)), B(xx.begin() + long(n*n), xx.end()); VC Ac(A.begin(), A.end()), ic; CL det; if( ! reference(Ac, n, det, ic) ) continue; VL inv(n*n); for(size_t i = 0; i < n*n; ++i) inv[i] = ic[i].real();
        // first pivots may be bad at the new point: reference elimination with the recorded pivots
        VL S(n*n); ld ratio = 1, small = 1e300L; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) S[i*n+j] = A[ip[i]*n+jp[j]]; VL Q(n*n); ld sg = 1;
        for(size_t p = 0; p < n; ++p) { ld piv = S[p*n+p]; small = std::min(small, std::fabs(piv)); if( piv < 0 ) sg = -sg; for(size_t i = p; i < n; ++i) for(size_t j = p; j < n; ++j) ratio = std::max(ratio, std::fabs(S[i*n+j] / piv)); for(size_t i = p; i < n; ++i) Q[ip[i]*n+jp[p]] = S[i*n+p]; for(size_t j = p + 1; j < n; ++j) Q[ip[p]*n+jp[j]] = S[p*n+j] /= piv; for(size_t i = p + 1; i < n; ++i) for(size_t j = p + 1; j < n; ++j) S[i*n+j] -= S[i*n+p] * S[p*n+j]; }
        if( small < .2 || ratio > 20 ) { rep().count("bad_pivot"); continue; }
        VD x0(xx.begin(), xx.begin() + long(q)), x1(q), x2(q); for(auto& z : x1) z = r.uni(-1, 1); for(auto& z : x2) z = r.uni(-1, 1); VD y0 = f.Forward(0, x0), y1 = f.Forward(1, x1), y2 = f.Forward(2, x2);
        VL A1_(x1.begin(), x1.begin() + long(n*n)), A2_(x2.begin(), x2.begin() + long(n*n)), B1(n*m, 0), B2(n*m, 0); if( ! second_dyn ) { B1.assign(x1.begin() + long(n*n), x1.end()); B2.assign(x2.begin() + long(n*n), x2.end()); }
        VL X0 = mul(inv, B, n, m), X1 = mul(inv, sub(B1, mul(A1_, X0, n, m)), n, m), X2 = mul(inv, sub(sub(B2, mul(A1_, X1, n, m)), mul(A2_, X0, n, m)), n, m);
        auto ok = [&](double g, ld w, ld scale) { rep().count("ad_values"); return std::fabs(ld(g) - w) <= 1e-10L * (1 + scale); }; ld ns = 1; for(ld z : inv) ns += std::fabs(z); ns = ns * ns * ns * ld(n);
        if( use_ratio ) { for(size_t i = 0; i < n*n; ++i) if( ! ok(y0[i], Q[i], 20) ) BAD("ratio-factor-replay"); if( ! ok(y0[n*n], ratio, 20) ) BAD("ratio-replay"); if( pt > 0 && ratio > 1.0001L ) rep().count("ratio_above_one"); }
        else { VL P1 = mul(inv, A1_, n, n), P2 = mul(inv, A2_, n, n), P11 = mul(P1, P1, n, n); ld t1 = 0, t2 = 0, t11 = 0; for(size_t i = 0; i < n; ++i) { t1 += P1[i*n+i]; t2 += P2[i*n+i]; t11 += P11[i*n+i]; }
            // the sign of the pivots at this point decides if the recorded sign is still the determinant sign
            if( (det.real() > 0) == (sd > 0) ) { if( ! ok(y0[0], std::log(std::fabs(det.real())), 10) ) BAD("logdet"); if( ! ok(y1[0], t1, ns) ) BAD("logdet-order1"); if( ! ok(y2[0], t2 - t11 / 2, ns) ) BAD("logdet-order2");
              VD w(2 * f.Range(), 0.); w[0*2+1] = 1.; VD dw = f.Reverse(2, w); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { size_t k = i*n+j; /* partial of order 1 coefficient w.r.t. order 1: inv^T, w.r.t. order 0: -(inv A1 inv)^T */ VL t = mul(P1, inv, n, n); if( ! ok(dw[k*2+1], inv[j*n+i], ns) ) BAD("logdet-reverse1"); if( ! ok(dw[k*2+0], -t[j*n+i], ns) ) BAD("logdet-reverse2"); } } }
        for(size_t i = 0; i < n*m; ++i) { if( ! ok(y0[off+i], X0[i], ns) ) BAD("solution"); if( ! ok(y1[off+i], X1[i], ns) ) BAD("solution-order1"); if( ! ok(y2[off+i], X2[i], ns) ) BAD("solution-order2"); }
        if( m > 0 ) { size_t row = r.sbelow(n*m), ri = row / m, rk = row % m; VD w(f.Range(), 0.); w[off+row] = 1; f.Forward(0, x0); VD dw = f.Reverse(1, w); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( ! ok(dw[i*n+j], -inv[ri*n+i] * X0[j*m+rk], ns) ) BAD("solution-reverse"); if( ! second_dyn ) for(size_t i = 0; i < n*m; ++i) if( ! ok(dw[n*n+i], i % m == rk ? inv[ri*n+i/m] : 0, ns) ) BAD("solution-reverse"); }
        rep().sig(hstr(fmt("ad %zu %zu %d %d", n, m, use_ratio, pt)) ^ mix64(r.next())); } }
int main(int argc, char** argv)
{   return harness_main(argc, argv, [](long, Rng& r) {
        switch(r.below(8))
        {   case 0: lu_case<float, std::vector<float>, std::vector<size_t>>(r, "float"); break;
            case 1: case 2: lu_case<double, CppAD::vector<double>, CppAD::vector<size_t>>(r, "double"); break;
            case 3: lu_case<double, std::valarray<double>, std::valarray<size_t>>(r, "double_valarray"); break;
            case 4: lu_case<std::complex<double>, std::vector<std::complex<double>>, CppAD::vector<size_t>>(r, "complex"); break;
            case 5: lu_case<std::complex<float>, CppAD::vector<std::complex<float>>, std::vector<size_t>>(r, "complex_float"); break;
            default: ad_case(r); } }); }
