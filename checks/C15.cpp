// C15: derivatives evaluated with AD<Base> coefficients while recording give functions that are the higher derivatives
#include "../lib/atoms.hpp"
using namespace vf;
typedef CppAD::ADFun<double> Fun; typedef CppAD::ADFun<A1, double> AFun; typedef CppAD::ADFun<A1> NFun; typedef std::vector<A1> VA;
static Mix mix() { Mix m; m.cmp = true; m.max_n = 3; m.max_nd = 2; m.max_m = 3; m.max_ins = 15; m.atom = .15; return m; }
static Prog all_var(const Prog& p) { Prog q = p; q.n = p.n + p.nd; q.nd = 0; return q; } // node numbers stay the same
static bool has(const Prog& p, int op) { for(auto& i : p.ins) if( i.op == op ) return true; return false; }
// unrelated work at other levels, in the middle of a recording of A1
static void disturb(Rng& r, int where) // where: 0 no recording open, 1 recording of A1 open, 2 recordings of A1 and A2 open
{   if( ! r.chance(.3) ) return; rep().count("disturbance");
    if( where < 2 ) switch(r.below(3))
    {   case 0: { std::vector<A2> u(2); u[0] = A2(1.); u[1] = A2(2.); CppAD::Independent(u); std::vector<A2> v(1); v[0] = u[0] * sin(u[1]) + 3.; A2::abort_recording(); if( ! CppAD::Constant(v[0]) ) rep().fail("disturb-abort", ""); break; }
        case 1: { std::vector<A2> u(1); u[0] = A2(1.5); CppAD::Independent(u); std::vector<A2> v(1); v[0] = u[0] * u[0]; NFun f(u, v); VA x(1), w(1); x[0] = 3.; w[0] = 1.; f.Forward(0, x); VA d = f.Reverse(1, w); if( val(d[0]) != 6 || CppAD::Variable(d[0]) ) rep().fail("disturb-constant", ""); break; }
        default: { A2 a(2.), b(3.); A2 c = a * b + exp(a); if( ! CppAD::Constant(c) || std::fabs(val(c) - (6 + std::exp(2.))) > 1e-12 ) rep().fail("disturb-value", ""); } }
    if( where == 0 ) { VA x(1), y(1); x[0] = 2.; CppAD::Independent(x); y[0] = x[0] * x[0]; Fun f(x, y); if( f.Forward(0, VDb(1, 3.))[0] != 9 ) rep().fail("disturb-double", ""); }
    else { static Fun f; static bool first = true; if( first ) return; if( f.Domain() == 2 ) { VDb x(2, 2.); f.Forward(0, x); if( f.Reverse(1, VDb(1, 1.))[0] != 6 ) rep().fail("disturb-double", ""); } (void) first; }
}
// one recorded derivative function g(u), u = (coefficients of x, d)
struct Derived { Fun g; int kind = 0; int K = 0; int q = 0; VDb w; std::string text; std::vector<int> order; };
enum { TAYLOR, GRAD, REV, HESS };
struct Ref { const Prog& q; Ref(const Prog& z) : q(z) {} std::vector<Alg> operator()(const std::vector<VDb>& xc) const { return alg_run(q, xc, {}, true); } };
static VDb row(const VDb& x, const VDb& d) { VDb z = x; z.insert(z.end(), d.begin(), d.end()); return z; }
typedef CppAD::sparse_rc<std::vector<size_t>> Pat;
static void jac_pattern(Fun* f, NFun& af, const Pat& id, bool t, Pat& p) { af.for_jac_sparsity(id, false, false, t, p); }
static void jac_pattern(Fun* f, AFun&, const Pat& id, bool t, Pat& p) { f->for_jac_sparsity(id, false, false, t, p); }
static void hes_pattern(Fun* f, NFun& af, const std::vector<bool>& d, const std::vector<bool>& s, Pat& p) { af.for_hes_sparsity(d, s, false, p); }
static void hes_pattern(Fun* f, AFun&, const std::vector<bool>& d, const std::vector<bool>& s, Pat& p) { f->for_hes_sparsity(d, s, false, p); }
template <class AF> static VA eval(Fun* f, AF& af, Derived& D, const std::vector<VA>& xk, const VA& ad, Rng& r, size_t n, size_t m)
{   if( ad.size() && af.size_dyn_ind() == ad.size() ) af.new_dynamic(ad);
    VA out;
    switch(D.kind)
    {   case TAYLOR:
        if( r.chance(.5) ) { std::vector<VA> y; for(int k = 0; k <= D.K; ++k) { y.push_back(af.Forward(size_t(k), xk[size_t(k)])); } for(size_t i = 0; i < m; ++i) for(int k = 0; k <= D.K; ++k) out.push_back(y[size_t(k)][i]); D.text += " Forward(k)"; }
        else { VA x(n * size_t(D.K + 1)); for(size_t j = 0; j < n; ++j) for(int k = 0; k <= D.K; ++k) x[j * size_t(D.K + 1) + size_t(k)] = xk[size_t(k)][j]; out = af.Forward(size_t(D.K), x); D.text += " Forward(K)"; }
        break;
        case GRAD: // the Jacobian by rows
        {   VA x = xk[0]; int how = r.below(7); D.text += fmt(" jac%d", how); out.resize(m * n);
            if( how == 0 ) out = af.Jacobian(x);
            else if( how == 1 ) { for(size_t j = 0; j < n; ++j) { VA c = af.ForOne(x, j); for(size_t i = 0; i < m; ++i) out[i * n + j] = c[i]; } }
            else if( how == 2 ) { for(size_t i = 0; i < m; ++i) { VA c = af.RevOne(x, i); for(size_t j = 0; j < n; ++j) out[i * n + j] = c[j]; } }
            else if( how == 3 ) { af.Forward(0, x); for(size_t i = 0; i < m; ++i) { VA w(m); for(auto& z : w) z = 0.; w[i] = 1.; VA c = af.Reverse(1, w); for(size_t j = 0; j < n; ++j) out[i * n + j] = c[j]; } }
            else if( how == 4 ) { af.Forward(0, x); for(size_t j = 0; j < n; ++j) { VA v(n); for(auto& z : v) z = 0.; v[j] = 1.; VA c = af.Forward(1, v); for(size_t i = 0; i < m; ++i) out[i * n + j] = c[i]; } }
            else if( how == 5 ) { af.Forward(0, x); VA v(n * n); for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < n; ++l) v[j * n + l] = j == l ? 1. : 0.; VA c = af.Forward(1, n, v); for(size_t l = 0; l < n; ++l) for(size_t i = 0; i < m; ++i) out[i * n + l] = c[i * n + l]; }
            else
            {   CppAD::sparse_rc<std::vector<size_t>> id(n, n, n), pat; for(size_t j = 0; j < n; ++j) id.set(j, j, j); bool rev = r.chance(.5); jac_pattern(f, af, id, r.chance(.5), pat);
                CppAD::sparse_rcv<std::vector<size_t>, VA> sub(pat); CppAD::sparse_jac_work wk; std::string col = "cppad"; if( rev ) af.sparse_jac_rev(x, sub, pat, col, wk); else af.sparse_jac_for(size_t(r.range(1, 3)), x, sub, pat, col, wk);
                for(auto& z : out) z = 0.; for(size_t k = 0; k < sub.nnz(); ++k) out[sub.row()[k] * n + sub.col()[k]] = sub.val()[k]; }
            break; }
        case REV: // dw for reverse of order q
        {   for(int k = 0; k < D.q; ++k) af.Forward(size_t(k), xk[size_t(k)]); VA w(m * size_t(D.q)); for(size_t k = 0; k < w.size(); ++k) w[k] = D.w[k]; out = af.Reverse(size_t(D.q), w); D.text += fmt(" Reverse(%d)", D.q); break; }
        default: // Hessian of w * f
        {   VA x = xk[0], w(m); for(size_t i = 0; i < m; ++i) w[i] = D.w[i]; int how = r.below(5); D.text += fmt(" hes%d", how); out.assign(n * n, A1(0.));
            if( how == 0 ) out = af.Hessian(x, w);
            else if( how == 1 ) { af.Forward(0, x); for(size_t j = 0; j < n; ++j) { VA v(n); for(auto& z : v) z = 0.; v[j] = 1.; af.Forward(1, v); VA w2(2 * m, A1(0.)); bool sz = r.chance(.5); for(size_t i = 0; i < m; ++i) w2[2 * i + 1] = w[i]; VA c = sz ? af.Reverse(2, w) : af.Reverse(2, w2); for(size_t l = 0; l < n; ++l) out[l * n + j] = c[l * 2 + (sz ? 1 : 0)]; } }
            else if( how == 2 ) { std::vector<size_t> I(n), J(n); for(size_t i = 0; i < m; ++i) { for(size_t j = 0; j < n; ++j) { I[j] = i; J[j] = j; } VA c = af.RevTwo(x, I, J); for(size_t l = 0; l < n; ++l) for(size_t j = 0; j < n; ++j) out[l * n + j] += w[i] * c[l * n + j]; } }
            else if( how == 3 ) { std::vector<size_t> J(n * n), K(n * n); for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < n; ++l) { J[j * n + l] = j; K[j * n + l] = l; } VA c = af.ForTwo(x, J, K); for(size_t i = 0; i < m; ++i) for(size_t l = 0; l < n * n; ++l) out[l] += w[i] * c[i * n * n + l]; }
            else
            {   CppAD::sparse_rc<std::vector<size_t>> pat; std::vector<bool> sd(n, true), sr(m, true); hes_pattern(f, af, sd, sr, pat); CppAD::sparse_rcv<std::vector<size_t>, VA> sub(pat); CppAD::sparse_hes_work wk; af.sparse_hes(x, w, sub, pat, std::string(r.chance(.5) ? "cppad.symmetric" : "cppad.general"), wk);
                for(size_t k = 0; k < sub.nnz(); ++k) out[sub.row()[k] * n + sub.col()[k]] = sub.val()[k]; } } }
    return out; }
static void core(Gen& gen, Rng& r)
{   const Prog& p = gen.p; contract_relaxed() = true; size_t n = size_t(p.n), nd = size_t(p.nd), m = p.dep.size(), N = n + nd; Prog q = all_var(p); Ref ref(q); bool vec = ! p.vecs.empty(), atom = ! p.subs.empty();
    Derived D; D.kind = r.below(4); D.K = r.range(0, 3); D.q = r.range(1, 3); D.w.resize(D.kind == REV ? m * size_t(D.q) : m); for(double& z : D.w) z = r.chance(.2) ? 0 : r.uni(-1, 1);
    if( D.kind == HESS && n > 3 ) D.kind = GRAD; if( has(p, I_DISC) && vec ) D.K = std::min(D.K, 2);
    int ncoef = D.kind == TAYLOR ? D.K + 1 : D.kind == REV ? D.q : 1; // Taylor coefficients of x that are arguments of g
    bool nested = ! atom && r.chance(.5), dyn_as_var = nd && (nested || r.chance(.8)), opt_in = r.chance(.3), opt_out = r.chance(.4), x_recorded_elsewhere = r.chance(.5);
    auto ctx0 = [&]() { return D.text + " " + p.text(); }; static const char* kn[] = {"taylor", "jacobian", "reverse", "hessian"}; std::string key = std::string(nested ? "nested-" : "base2ad-") + kn[D.kind];
    // coefficients at the recording and at the other points
    size_t npt = vec ? 1 : gen.pts.size(); std::vector<std::vector<VDb>> xc; for(size_t k = 0; k < npt; ++k) { xc.push_back(taylor_in(r, gen.pts[k].x, ncoef - 1)); }
    VA au; for(int k = 0; k < ncoef; ++k) for(double z : xc[0][size_t(k)]) au.push_back(z); if( dyn_as_var ) for(double z : gen.pts[0].d) au.push_back(z);
    auto split = [&](const VA& u, std::vector<VA>& xk, VA& ad) { xk.clear(); ad.clear(); for(int k = 0; k < ncoef; ++k) xk.push_back(VA(u.begin() + long(size_t(k) * n), u.begin() + long(size_t(k + 1) * n))); if( dyn_as_var ) ad.assign(u.end() - long(nd), u.end()); else for(double z : gen.pts[0].d) ad.push_back(z); };
    std::vector<VA> xk; VA ad, out; Atoms atoms(p, r, 1 | 2 | 4 | 16); Fun f; AFun af; bool fail_opt = false;
    auto optim = [&](auto& F) { typename std::remove_reference<decltype(F)>::type keep; keep = F; try { F.optimize(r.chance(.3) ? "no_conditional_skip" : ""); rep().count("optimize"); } catch(const cppad_error& e) { if( e.msg.find("Error during check") == std::string::npos ) throw; F = keep; fail_opt = true; } };
    if( ! nested )
    {   Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms.attach(it); }; size_t pt = vec || ! x_recorded_elsewhere ? 0 : gen.pts.size() - 1; rec(p, gen.pts[pt], f); f.check_for_nan(false); if( opt_in ) optim(f);
        af = f.base2ad(); if( r.chance(.2) ) { AFun c; c = af; af = c; }
        CppAD::Independent(au); disturb(r, 1); split(au, xk, ad); out = eval(&f, af, D, xk, ad, r, n, m); disturb(r, 1); if( r.chance(.3) ) { f = Fun(); af = AFun(); } rep().count("base2ad"); }
    else
    {   CppAD::Independent(au); disturb(r, 1); split(au, xk, ad); std::vector<A2> bx, bd, by; NFun nf;
        bool dyn = nd && r.chance(.5); // the parameters are dynamic parameters of the inner recording, otherwise constants that are outer variables
        for(size_t j = 0; j < n; ++j) bx.push_back(r.chance(.5) ? A2(xk[0][j]) : A2(val(xk[0][j]))); for(size_t j = 0; j < nd; ++j) bd.push_back(A2(ad[j]));
        if( dyn ) CppAD::Independent(bx, bd); else CppAD::Independent(bx); disturb(r, 2); Interp<A2> it(p); it.start(bx, bd); it.run(by); disturb(r, 2); if( r.chance(.5) ) nf.Dependent(bx, by); else { NFun t(bx, by); nf = t; }
        nf.check_for_nan(false); if( opt_in ) optim(nf); disturb(r, 1); out = eval(&f, nf, D, xk, ad, r, n, m); if( r.chance(.3) ) nf = NFun(); rep().count("nested"); rep().count(dyn ? "inner_dynamic" : nd ? "inner_outer_variable" : "inner_plain"); }
    // values while recording
    D.g.Dependent(au, out); D.g.check_for_nan(false); disturb(r, 0); Fun g2; if( r.chance(.2) ) { g2 = D.g; } if( opt_out ) optim(D.g); rep().count(kn[D.kind]);
    Fun& g = D.g; D.text = (nested ? "nested" : "base2ad") + D.text + (opt_in ? " optimized-inner" : "") + (opt_out ? " optimized-outer" : ""); (void) fail_opt;
    for(size_t pt = 0; pt < npt; ++pt)
    {   VDb d = dyn_as_var ? gen.pts[pt].d : gen.pts[0].d, u; for(int k = 0; k < ncoef; ++k) u.insert(u.end(), xc[pt][size_t(k)].begin(), xc[pt][size_t(k)].end()); if( dyn_as_var ) u.insert(u.end(), d.begin(), d.end());
        auto ctx = [&]() { std::string s = ctx0() + " u=" + vec_text(u); return s; };
        VDb y = g.Forward(0, u); if( pt == 0 && g2.Domain() > 0 ) { VDb y2 = g2.Forward(0, u); for(size_t k = 0; k < y.size(); ++k) if( ! opt_out && y[k] != y2[k] && ! (y[k] != y[k] && y2[k] != y2[k]) ) rep().fail("copy", ctx()); }
        std::vector<VDb> c; for(int k = 0; k < ncoef; ++k) c.push_back(row(xc[pt][size_t(k)], k == 0 ? d : VDb(nd, 0.)));
        if( D.kind == TAYLOR )
        {   auto want = ref(c); size_t K1 = size_t(D.K + 1); for(size_t i = 0; i < m; ++i) for(size_t k = 0; k < K1; ++k) if( ! check(key + ":value", y[i * K1 + k], want[i], int(k), 0, ctx) ) return;
            // Jacobian of the coefficients: partial of y^(k) w.r.t. x^(l)_j is partial of y^(k-l) w.r.t. x^(0)_j
            bool rev = r.chance(.5); VDb w(m * K1); for(double& z : w) z = r.uni(-1, 1);
            if( rev ) { VDb dw = g.Reverse(1, w); for(size_t l = 0; l < K1; ++l) for(size_t j = 0; j < (l == 0 && dyn_as_var ? N : n); ++j) { Sum s; for(size_t i = 0; i < m; ++i) for(size_t k = l; k < K1; ++k) s.add(w[i * K1 + k], want[i], int(k - l), int(j) + 1); if( ! check_sum(key + ":reverse", dw[j < n ? l * n + j : K1 * n + j - n], s, ctx) ) return; } }
            else { size_t l = r.sbelow(K1), j = r.sbelow(n); VDb v(u.size(), 0.); v[l * n + j] = 1; VDb dy = g.Forward(1, v); for(size_t i = 0; i < m; ++i) for(size_t k = 0; k < K1; ++k) if( k < l ? dy[i * K1 + k] != 0 : ! check(key + ":forward1", dy[i * K1 + k], want[i], int(k - l), int(j) + 1, ctx, 1e4) ) { if( k < l ) rep().fail(key + ":causal", ctx()); return; } } }
        else if( D.kind == GRAD )
        {   int Q = r.range(1, 3); VDb full = row(xc[pt][0], d); auto path = taylor_in(r, full, Q); if( ! dyn_as_var ) for(int k = 1; k <= Q; ++k) for(size_t j = n; j < N; ++j) path[size_t(k)][j] = 0;
            auto want = ref(path); for(int k = 0; k <= Q; ++k) { VDb v(path[size_t(k)].begin(), path[size_t(k)].begin() + long(dyn_as_var ? N : n)); if( k ) y = g.Forward(size_t(k), v); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( ! check(key + fmt(":order%d", k), y[i * n + j], want[i], k, 1 + int(j), ctx, 1e4) ) return; }
            // second derivatives by reverse mode
            VDb w(m * n); for(double& z : w) z = r.chance(.3) ? 0 : r.uni(-1, 1); VDb dw = r.chance(.5) ? g.Reverse(1, w) : (g.Forward(0, u), g.Reverse(1, w));
            for(size_t l = 0; l < (dyn_as_var ? N : n); ++l) { std::vector<VDb> e(2); e[0] = full; e[1].assign(N, 0.); e[1][l] = 1; auto h = ref(e); Sum s; for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) s.add(w[i * n + j], h[i], 1, 1 + int(j)); if( ! check_sum(key + ":reverse", dw[l], s, ctx) ) return; } }
        else if( D.kind == REV )
        {   auto want = ref(c); size_t Qn = size_t(D.q); for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < Qn; ++l) { Sum s; for(size_t i = 0; i < m; ++i) for(size_t k = l; k < Qn; ++k) s.add(D.w[i * Qn + k], want[i], int(k - l), 1 + int(j)); if( ! check_sum(key + ":value", y[j * Qn + l], s, ctx) ) return; }
            // derivative with respect to the highest coefficient only enters through the Hessian
            if( Qn == 2 )
            {   VDb v(u.size(), 0.), e(N, 0.); for(size_t j = 0; j < n; ++j) v[n + j] = e[j] = r.uni(-1, 1); VDb dy = g.Forward(1, v); std::vector<VDb> t(2); t[0] = c[0]; t[1] = e; auto h = ref(t); for(size_t j = 0; j < n; ++j) { Sum s; for(size_t i = 0; i < m; ++i) s.add(D.w[i * 2 + 1], h[i], 1, 1 + int(j)); if( ! check_sum(key + ":forward1", dy[j * 2], s, ctx) ) return; } } }
        else
        {   VDb full = row(xc[pt][0], d); VDb v(N, 0.); for(size_t j = 0; j < (dyn_as_var ? N : n); ++j) v[j] = r.range(-2, 2) * .25;
            auto second = [&](const VDb& e) { std::vector<VDb> t(3); t[0] = full; t[1] = e; t[2].assign(N, 0.); return ref(t); };
            VDb vv(v.begin(), v.begin() + long(dyn_as_var ? N : n)); VDb dy = g.Forward(1, vv); auto gv = second(v); bool polar = D.text.find("hes3") != std::string::npos; std::vector<std::vector<Alg>> G; for(size_t l = 0; l < n; ++l) { VDb e(N, 0.); e[l] = 1; G.push_back(second(e)); }
            for(size_t l = 0; l < n; ++l)
            {   VDb e(N, 0.), ev = v; e[l] = 1; ev[l] += 1; auto ge = second(e), gev = second(ev);
                for(size_t j = 0; j < n; ++j)
                {   Sum s; for(size_t i = 0; i < m; ++i) { s.add(D.w[i], ge[i], 1, 1 + int(j)); if( polar ) s.e += 4 * std::fabs(D.w[i]) * (G[l][i].err(2, 0) + G[j][i].err(2, 0)); } if( ! check_sum(key + ":value", y[l * n + j], s, ctx) ) return;
                    Sum t; for(size_t i = 0; i < m; ++i) { t.add(D.w[i], gev[i], 2, 1 + int(j)); t.add(-D.w[i], ge[i], 2, 1 + int(j)); t.add(-D.w[i], gv[i], 2, 1 + int(j)); if( polar ) t.e += 1e-1 + 4 * std::fabs(D.w[i]) * (G[l][i].err(2, 0) + G[j][i].err(2, 0)); } if( ! check_sum(key + ":third", dy[l * n + j], t, ctx, polar ? 1e7 : 1e4) ) return; } } }
        rep().count("points"); }
}
// ---- three and four levels on a family of smooth functions ----
template <class S> static S smooth(const std::vector<S>& x, const std::vector<int>& code, const std::vector<S>& par)
{   using std::sin; using std::exp; using std::tanh; using std::sqrt; using std::log; using std::atan; S z = x[0]; S a = par[0];
    for(size_t k = 0; k < code.size(); ++k) { const S& b = x[size_t(code[k] / 16) % x.size()]; switch(code[k] % 12) { case 0: z = z * b; break; case 1: z = z + b * a; break; case 2: z = sin(z); break; case 3: z = exp(z * .25); break; case 4: z = tanh(z + b); break; case 5: z = z / (b * b + 1.5); break; case 6: z = sqrt(z * z + 1.); break;
        case 7: z = log(z * z + b * b + .5); break; case 8: z = atan(z - b); break; case 9: z = z - a * z; break; case 10: a = a + b * .5; break; default: z = z * z * .5; } }
    return z; }
template <class B> static std::vector<B> grad(const std::vector<B>& x, const std::vector<int>& code, const std::vector<B>& par, Rng& r)
{   typedef AD<B> S; std::vector<S> ax, ap, ay(1); for(auto& z : x) ax.push_back(S(z)); CppAD::Independent(ax); for(auto& z : par) ap.push_back(S(z)); ay[0] = smooth(ax, code, ap); CppAD::ADFun<B> f(ax, ay); if( r.chance(.3) ) f.optimize(); if( r.chance(.5) ) return f.Jacobian(x); f.Forward(0, x); return f.Reverse(1, std::vector<B>(1, B(1.))); }
static void levels(Rng& r)
{   typedef AD<A2> A3; int n = r.range(1, 3), len = r.range(1, 8); std::vector<int> code; for(int k = 0; k < len; ++k) code.push_back(r.below(160)); VDb x, par(1, r.uni(-1, 1)); for(int j = 0; j < n; ++j) x.push_back(r.uni(.2, 1.5));
    // at level 3 the gradient, at level 2 the gradient of v * gradient, at level 1 the gradient of u * that
    VDb v, u; for(int j = 0; j < n; ++j) { v.push_back(r.uni(-1, 1)); u.push_back(r.uni(-1, 1)); }
    std::vector<A1> x1; for(double z : x) x1.push_back(z); std::vector<A1> p1(1); p1[0] = par[0]; bool pv = r.chance(.5); std::vector<A1> ind = x1; if( pv ) ind.push_back(p1[0]); CppAD::Independent(ind); for(int j = 0; j < n; ++j) x1[size_t(j)] = ind[size_t(j)]; if( pv ) p1[0] = ind[size_t(n)];
    std::vector<A2> x2; for(auto& z : x1) x2.push_back(A2(z)); CppAD::Independent(x2); std::vector<A2> p2(1); p2[0] = A2(p1[0]); std::vector<A2> g2 = grad<A2>(x2, code, p2, r); std::vector<A2> y2(1); y2[0] = A2(0.); for(int j = 0; j < n; ++j) y2[0] += v[size_t(j)] * g2[size_t(j)];
    CppAD::ADFun<A1> f2(x2, y2); if( r.chance(.3) ) f2.optimize(); std::vector<A1> h = f2.Jacobian(x1); std::vector<A1> y1(1); y1[0] = 0.; for(int j = 0; j < n; ++j) y1[0] += u[size_t(j)] * h[size_t(j)]; Fun f1; f1.Dependent(ind, y1); if( r.chance(.3) ) f1.optimize();
    // value is D2 f[u, v]; gradient is D3 f[u, v, e]; by polarization of Taylor coefficients of the gradient
    for(int t = 0; t < 2; ++t)
    {   if( t ) for(auto& z : x) z = r.uni(.2, 1.5); if( t && pv ) par[0] = r.uni(-1, 1); VDb z = x; if( pv ) z.push_back(par[0]); auto ctx = [&]() { std::string s = "levels "; for(int c : code) s += fmt("%d ", c); return s + vec_text(z); };
        auto run = [&](const VDb& e) { setcfg(2, n + 1); std::vector<Alg> a, pa; for(int j = 0; j < n; ++j) { Alg q; q.set(0, 0, x[size_t(j)]); q.set(1, 0, e[size_t(j)]); q.set(0, 1 + j, 1); a.push_back(q); } Alg q; q.set(0, 0, par[0]); q.set(0, 1 + n, 1); pa.push_back(q); return smooth(a, code, pa); };
        VDb val1 = f1.Forward(0, z), g = f1.Reverse(1, VDb(1, 1.)); Alg av = run(v), au = run(u); VDb s = u; for(int j = 0; j < n; ++j) s[size_t(j)] += v[size_t(j)]; Alg as = run(s);
        Sum S; for(int j = 0; j < n; ++j) S.add(u[size_t(j)], av, 1, 1 + j); if( ! check_sum("levels:value", val1[0], S, ctx) ) return;
        for(int j = 0; j < n + (pv ? 1 : 0); ++j) { Sum T; T.add(1, as, 2, 1 + j); T.add(-1, au, 2, 1 + j); T.add(-1, av, 2, 1 + j); if( ! check_sum("levels:third", g[size_t(j)], T, ctx) ) return; } }
    rep().count("levels"); rep().sig(hstr(fmt("levels%llu", (unsigned long long) r.next())));
}
static void body(long i, Rng& r) { static Mix m = mix(); if( i % 8 == 7 ) levels(r); else prog_case(i - (i % 10000000) + (i % 10000000) * 7 / 8, r, m, core); }
int main(int argc, char** argv) { for(int k = 0; k < 3; ++k) { A1 t = .6; Hook<A1>::disc(k, t); A2 s = A2(.6); Hook<A2>::disc(k, s); } return harness_main(argc, argv, body); }
