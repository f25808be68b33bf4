// C14: atomic and checkpoint functions are transparent
#include "../lib/truth.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = false; m.atom = 1; m.max_n = 4; m.max_m = 4; m.npts = 3; m.max_ins = 18; m.sys = false; m.vec = false; return m; }
// old atomic_base user that only knows the sparsity interfaces without the argument values
struct Atom2old : AtomBase, CppAD::atomic_base<double> {
    Engine e;
    Atom2old(const Prog& q, uint64_t seed) : CppAD::atomic_base<double>("vf_atom2old"), e(q) { static const option_enum o[] = {pack_sparsity_enum, bool_sparsity_enum, set_sparsity_enum}; option(o[seed % 3]); }
    const char* kind() const override { return "atomic_two_old"; }
    void call(const vector<A1>& ax, vector<A1>& ay) override { (*this)(ax, ay); }
    bool forward(size_t p, size_t q, const vector<bool>& vx, vector<bool>& vy, const vector<double>& tx, vector<double>& ty) override
    {   if( vx.size() > 0 ) for(size_t i = 0; i < e.m; ++i) { vy[i] = false; for(size_t j = 0; j < e.n; ++j) if( vx[j] && e.dep[i][j] ) vy[i] = true; }
        vector<double> t(ty.size()); e.fwd(q, tx, t, (double*)nullptr); for(size_t i = 0; i < e.m; ++i) for(size_t k = p; k <= q; ++k) ty[i * (q + 1) + k] = t[i * (q + 1) + k]; return true; }
    bool reverse(size_t q, const vector<double>& tx, const vector<double>&, vector<double>& px, const vector<double>& py) override { e.rev(q, tx, py, px, (double*)nullptr); return true; }
    template <class P> bool fj(size_t q, const P& r, P& s) { Atom2::clr(s, q); for(size_t i = 0; i < e.m; ++i) for(size_t j = 0; j < e.n; ++j) if( e.dep[i][j] ) for(size_t k = 0; k < q; ++k) if( Atom2::get(r, q, j, k) ) Atom2::put(s, q, i, k); return true; }
    template <class P> bool rj(size_t q, const P& rt, P& st) { Atom2::clr(st, q); for(size_t i = 0; i < e.m; ++i) for(size_t j = 0; j < e.n; ++j) if( e.dep[i][j] ) for(size_t k = 0; k < q; ++k) if( Atom2::get(rt, q, i, k) ) Atom2::put(st, q, j, k); return true; }
    template <class P> bool rh(const vector<bool>&, const vector<bool>& s, vector<bool>& t, size_t q, const P& r, const P& u, P& v)
    {   for(size_t j = 0; j < e.n; ++j) { t[j] = false; for(size_t i = 0; i < e.m; ++i) if( s[i] && e.dep[i][j] ) t[j] = true; }
        Atom2::clr(v, q); for(size_t i = 0; i < e.m; ++i) for(size_t j = 0; j < e.n; ++j) if( e.dep[i][j] ) for(size_t k = 0; k < q; ++k) if( Atom2::get(u, q, i, k) ) Atom2::put(v, q, j, k);
        for(size_t i = 0; i < e.m; ++i) if( s[i] ) for(size_t j = 0; j < e.n; ++j) for(size_t l = 0; l < e.n; ++l) if( e.pair_dep(i, j, l) ) for(size_t k = 0; k < q; ++k) if( Atom2::get(r, q, l, k) ) Atom2::put(v, q, j, k);
        return true; }
    template <class P> bool fh(const vector<bool>& r, const vector<bool>& s, P& h) { Atom2::clr(h, e.n); for(size_t i = 0; i < e.m; ++i) if( s[i] ) for(size_t j = 0; j < e.n; ++j) for(size_t l = 0; l < e.n; ++l) if( r[j] && r[l] && e.pair_dep(i, j, l) ) Atom2::put(h, e.n, j, l); return true; }
#define OLD(P) \
    bool for_sparse_jac(size_t q, const P& r, P& s) override { return fj(q, r, s); } \
    bool rev_sparse_jac(size_t q, const P& r, P& s) override { return rj(q, r, s); } \
    bool rev_sparse_hes(const vector<bool>& vx, const vector<bool>& s, vector<bool>& t, size_t q, const P& r, const P& u, P& v) override { return rh(vx, s, t, q, r, u, v); }
    OLD(Atom2::SS) OLD(vector<bool>) OLD(CppAD::vectorBool)
    bool for_sparse_hes(const vector<bool>&, const vector<bool>& r, const vector<bool>& s, Atom2::SS& h, const vector<double>&) override { return fh(r, s, h); }
    bool for_sparse_hes(const vector<bool>&, const vector<bool>& r, const vector<bool>& s, vector<bool>& h, const vector<double>&) override { return fh(r, s, h); }
    bool for_sparse_hes(const vector<bool>&, const vector<bool>& r, const vector<bool>& s, CppAD::vectorBool& h, const vector<double>&) override { return fh(r, s, h); }
};
// objects that come and go between the ones in use
static std::vector<std::unique_ptr<AtomBase>> g_pool; static std::vector<std::shared_ptr<Prog>> g_keep;
static void churn(Rng& r, const std::shared_ptr<Prog>& s)
{   int k = r.below(4);
    for(int t = 0; t < k; ++t)
    {   if( g_pool.size() > 12 || (g_pool.size() && r.chance(.5)) ) { size_t z = r.sbelow(g_pool.size()); g_pool.erase(g_pool.begin() + long(z)); g_keep.erase(g_keep.begin() + long(z)); rep().count("destroyed"); }
        else if( s->subs.empty() ) { uint64_t z = r.next(); switch(r.below(6)) { case 0: g_pool.emplace_back(new Atom4(*s, z)); break; case 1: g_pool.emplace_back(new Atom3(*s, z)); break; case 2: g_pool.emplace_back(new Atom2(*s, z)); break; case 3: g_pool.emplace_back(new Chk1(*s, z)); break; case 4: g_pool.emplace_back(new Chk2(*s, z)); break; default: g_pool.emplace_back(new Atom2old(*s, z)); } g_keep.push_back(s); rep().count("created"); } } }
typedef CppAD::ADFun<double> F;
static void core(Gen& gen, Rng& r)
{   contract_relaxed() = false; const Prog& p = gen.p; size_t n = size_t(p.n), m = p.dep.size(); if( p.subs.empty() ) return; std::string hist; size_t pt = 0; auto ctx = [&]() { std::string s = p.text(); for(auto& q : p.subs) s += " {" + q->text() + "}"; return s + " [" + hist + "] " + point_text(gen.pts[pt]); };
    bool old = r.chance(.15), nested = false; for(auto& s : p.subs) nested = nested || ! s->subs.empty(); if( nested ) { old = false; contract_relaxed() = true; rep().count("nested"); }
    churn(r, p.subs[0]);
    std::unique_ptr<Atoms> atoms(new Atoms(p, r)); bool ad_ok = true, chk1 = false;
    if( old ) { for(size_t k = 0; k < atoms->a.size(); ++k) if( r.chance(.7) ) { atoms->a[k].reset(new Atom2old(*p.subs[k], r.next())); rep().count("atomic_two_old"); ad_ok = false; } }
    std::function<void(Atoms&)> look = [&](Atoms& z) { for(auto& a : z.a) { hist += a->kind(); hist += " "; if( std::string(a->kind()) == "chkpoint_one" ) chk1 = true; if( auto q = dynamic_cast<Atom4*>(a.get()) ) q->fill = true; } for(auto& q : z.inner) look(*q); }; look(*atoms);
    if( chk1 ) ad_ok = false; // no AD<Base> callbacks
    Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms->attach(it); };
    F f; std::vector<double> seen;
    {   // values while recording are those of the algorithm
        std::vector<A1> ax, ad, ay; for(double z : gen.pts[0].x) ax.push_back(z); for(double z : gen.pts[0].d) ad.push_back(z);
        if( r.chance(.2) ) { Interp<A1> it0(p); atoms->attach(it0); auto y0 = it0(ax, ad); auto w0 = alg_run(p, {gen.pts[0].x}, gen.pts[0].d, false); for(size_t i = 0; i < m; ++i) { if( ! CppAD::Constant(y0[i]) ) rep().fail("not-constant-without-recording", ctx()); if( ! check("value-without-recording", val(y0[i]), w0[i], 0, 0, ctx) ) return; } }
        CppAD::Independent(ax, size_t(0), true, ad); Interp<A1> it(p); atoms->attach(it); it.start(ax, ad); it.run(ay);
        auto w0 = alg_run(p, {gen.pts[0].x}, gen.pts[0].d, false); for(size_t i = 0; i < m; ++i) if( ! check("value-while-recording", val(ay[i]), w0[i], 0, 0, ctx) ) { A1::abort_recording(); return; }
        f.Dependent(ax, ay); }
    f.check_for_nan(false); std::unique_ptr<F> g; // a second function that uses the same objects
    if( r.chance(.3) ) { g.reset(new F); rec(p, gen.pts[1], *g); g->check_for_nan(false); rep().count("two_functions"); }
    bool opt = false, hes_done = false;
    int steps = r.range(3, 6);
    for(int t = 0; t < steps; ++t)
    {   pt = r.sbelow(gen.pts.size()); const Point& q = gen.pts[pt]; F& u = g && r.chance(.4) ? *g : f;
        if( p.nd ) { u.new_dynamic(q.d); rep().count("new_dynamic"); }
        int Q = r.range(0, 4); auto xc = taylor_in(r, q.x, Q); auto want = alg_run(p, xc, q.d, true);
        switch( r.below(8) )
        {   case 0: case 1: case 2:
            {   hist += fmt("f%d,", Q); if( r.chance(.5) ) { for(int k = 0; k <= Q; ++k) { VDb y = u.Forward(size_t(k), xc[size_t(k)]); for(size_t i = 0; i < m; ++i) if( ! check("forward", y[i], want[i], k, 0, ctx) ) return; } }
                else { int lo = r.range(0, Q); if( lo > 0 ) { VDb x(n * size_t(lo)); for(size_t j = 0; j < n; ++j) for(int k = 0; k < lo; ++k) x[j * size_t(lo) + size_t(k)] = xc[size_t(k)][j]; u.Forward(size_t(lo - 1), x); }
                    if( lo == 0 ) { VDb x(n * size_t(Q + 1)); for(size_t j = 0; j < n; ++j) for(int k = 0; k <= Q; ++k) x[j * size_t(Q + 1) + size_t(k)] = xc[size_t(k)][j]; VDb y = u.Forward(size_t(Q), x); for(size_t i = 0; i < m; ++i) for(int k = 0; k <= Q; ++k) if( ! check("forward-multi", y[i * size_t(Q + 1) + size_t(k)], want[i], k, 0, ctx) ) return; }
                    else for(int k = lo; k <= Q; ++k) { VDb y = u.Forward(size_t(k), xc[size_t(k)]); for(size_t i = 0; i < m; ++i) if( ! check("forward-group", y[i], want[i], k, 0, ctx) ) return; } }
                rep().count("forward");
                if( r.chance(.7) ) { VDb w(m); for(auto& z : w) z = r.chance(.25) ? 0 : r.uni(-1, 1); size_t o = size_t(r.range(1, Q + 1)); VDb dw = u.Reverse(o, w); rep().count("reverse"); hist += fmt("r%zu,", o);
                    for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < o; ++l) { Sum s; for(size_t a = 0; a < m; ++a) s.add(w[a], want[a], int(l), int(j) + 1); if( ! check_sum("reverse", dw[j * o + (o - 1 - (o - 1 - l))], s, ctx) ) return; } }
                break; }
            case 3:
            {   // several directions of order one and two
                size_t d = size_t(r.range(1, 4)); hist += fmt("dir%zu,", d); std::vector<std::vector<VDb>> xs(d, std::vector<VDb>{q.x}); u.Forward(0, q.x);
                int QQ = r.range(1, 3); VDb y[4]; for(int k = 1; k <= QQ; ++k) { VDb X(n * d); for(size_t l = 0; l < d; ++l) { VDb e; for(size_t j = 0; j < n; ++j) { double z = r.uni(-1, 1); X[d * j + l] = z; e.push_back(z); } xs[l].push_back(e); } y[k] = u.Forward(size_t(k), d, X); }
                rep().count("forward_dir"); for(size_t l = 0; l < d; ++l) { auto w = alg_run(p, xs[l], q.d, false); for(int k = 1; k <= QQ; ++k) for(size_t i = 0; i < m; ++i) if( ! check("forward_dir", y[k][d * i + l], w[i], k, 0, ctx) ) return; }
                break; }
            case 4: if( &u == &f && ! opt ) { static const char* o[] = {"", "no_conditional_skip", "no_compare_op", "no_cumulative_sum_op"}; std::string s = o[r.below(4)]; hist += "opt,"; contract_relaxed() = true; f.optimize(s); opt = true; rep().count("optimize"); } break;
            case 5: if( ! hes_done )
            {   hes_done = true; hist += "sp,"; bool hes = n <= 6; Truth tr(gen, r, hes); Pat J, D; for(size_t a = 0; a < m; ++a) for(size_t b = 0; b < n; ++b) { if( tr.J[a][b] ) J.insert({a, b}); if( tr.dep[a][b] ) D.insert({a, b}); }
                bool dp = r.chance(.4), ib = r.chance(.5); Src po; u.for_jac_sparsity(from_pat(n, n, eye(n)), false, dp, ib, po); contains("for_jac_sparsity", to_pat(po), dp ? D : J, ctx);
                if( hes && ! dp ) { std::vector<bool> s(m); for(size_t a = 0; a < m; ++a) s[a] = r.chance(.7); Pat H; for(size_t a = 0; a < m; ++a) if( s[a] ) for(size_t b = 0; b < n; ++b) for(size_t c = 0; c < n; ++c) if( tr.H[a][b][c] ) H.insert({b, c});
                    Src ho; u.rev_hes_sparsity(s, false, ib, ho); contains("rev_hes_sparsity", to_pat(ho), H, ctx); if( ! chk1 ) { u.for_hes_sparsity(std::vector<bool>(n, true), s, ib, ho); contains("for_hes_sparsity", to_pat(ho), H, ctx); }
                    auto h = u.RevSparseHes(n, [&]() { u.ForSparseJac(n, pat_sets(eye(n), n)); Pat so; for(size_t a = 0; a < m; ++a) if( s[a] ) so.insert({0, a}); return pat_sets(so, 1); }(), false); contains("RevSparseHes", sets_pat(h, false), H, ctx); }
                u.rev_jac_sparsity(from_pat(m, m, eye(m)), false, dp, ib, po); contains("rev_jac_sparsity", to_pat(po), dp ? D : J, ctx);
                u.subgraph_sparsity(std::vector<bool>(n, true), std::vector<bool>(m, true), false, po); contains("subgraph_sparsity", to_pat(po), D, ctx);
                rep().count("sparsity"); }
                break;
            case 6: if( ad_ok )
            {   // derivative recorded with AD coefficients
                hist += "ad,"; CppAD::ADFun<A1, double> af = u.base2ad(); af.check_for_nan(false); std::vector<A1> ax, ad; for(double z : q.x) ax.push_back(z); for(double z : q.d) ad.push_back(z); CppAD::Independent(ax, size_t(0), false, ad); if( p.nd ) af.new_dynamic(ad);
                std::vector<A1> ay = af.Forward(0, ax), aw(m), adw; VDb w(m); for(size_t i = 0; i < m; ++i) { w[i] = r.uni(-1, 1); aw[i] = w[i]; } adw = af.Reverse(1, aw); for(auto& z : adw) ay.push_back(z); F h; h.Dependent(ax, ay); h.check_for_nan(false); if( r.chance(.3) ) { contract_relaxed() = true; h.optimize(); } rep().count("base2ad");
                size_t pt2 = r.sbelow(gen.pts.size()); const Point& q2 = gen.pts[pt2]; if( p.nd ) h.new_dynamic(q2.d); VDb v = h.Forward(0, q2.x); auto w2 = alg_run(p, {q2.x}, q2.d, true);
                for(size_t i = 0; i < m; ++i) if( ! check("base2ad-value", v[i], w2[i], 0, 0, ctx) ) return;
                for(size_t j = 0; j < n; ++j) { Sum s; for(size_t a = 0; a < m; ++a) s.add(w[a], w2[a], 0, int(j) + 1); if( ! check_sum("base2ad-derivative", v[m + j], s, ctx) ) return; }
                size_t j0 = r.sbelow(n); VDb e(n, 0.0); e[j0] = 1; VDb dv = h.Forward(1, e); auto w3 = alg_run(p, {q2.x, e}, q2.d, true);
                for(size_t j = 0; j < n; ++j) { Sum s; for(size_t a = 0; a < m; ++a) s.add(w[a], w3[a], 1, int(j) + 1); if( ! check_sum("base2ad-second", dv[m + j], s, ctx, 1e5) ) return; } }
                break;
            default: churn(r, p.subs[0]); if( r.chance(.3) ) { F c; c = f; f.swap(c); hist += "copy,"; } break; } }
}
// checkpoint of a function with dynamic parameters
static void chk_dyn(Gen& gen, Rng& r)
{   if( gen.p.subs.empty() ) return; const Prog& q = *gen.p.subs[0]; if( q.n < 2 || ! q.subs.empty() ) return; size_t n = size_t(q.n) - 1, m = q.dep.size();
    std::vector<A1> ax(n), ap(1), ay; for(auto& z : ax) z = .3; ap[0] = r.uni(-1, 1); F h; CppAD::Independent(ax, size_t(0), true, ap); { Interp<A1> it(q); std::vector<A1> all = ax; all.push_back(ap[0]); it.start(all, {}); it.run(ay); } h.Dependent(ax, ay); h.check_for_nan(false);
    CppAD::chkpoint_two<double> chk(h, "vf_chk_dyn", r.chance(.5), true, true, false); double v0 = val(ap[0]);
    F f; std::vector<A1> bx(n); for(size_t j = 0; j < n; ++j) bx[j] = .25; CppAD::Independent(bx); vector<A1> cx(n), cy(m); for(size_t j = 0; j < n; ++j) cx[j] = bx[j] * .5; chk(cx, cy); std::vector<A1> by; for(size_t i = 0; i < m; ++i) by.push_back(cy[i] * 2.0 + bx[0]); f.Dependent(bx, by); f.check_for_nan(false); if( r.chance(.3) ) f.optimize();
    double pv = v0; std::string hist; std::vector<char> only(m, 1); { Src po; h.for_jac_sparsity(from_pat(n, n, eye(n)), false, true, false, po); for(size_t k = 0; k < po.nnz(); ++k) only[po.row()[k]] = 0; } // depends on no argument of the checkpoint
    for(int t = 0; t < 4; ++t)
    {   if( r.chance(.6) ) { pv = r.uni(-1, 1); chk.new_dynamic(VDb(1, pv)); rep().count("chkpoint_dynamic"); } hist += fmt("%.3g,", pv);
        VDb x(n); for(auto& z : x) z = r.uni(-2, 2); std::vector<VDb> xc = taylor_in(r, x, 2); auto ctx = [&]() { return q.text() + " chk_dyn " + hist + vec_text(x); };
        setcfg(2, int(n)); std::vector<Alg> a; for(auto& z : alg_args(xc, int(n), 0)) a.push_back(z * Alg(.5)); auto ax0 = alg_args(xc, int(n), 0); a.push_back(Alg(pv)); Interp<Alg> ia(q); auto y = ia(a, {}); for(size_t i = 0; i < m; ++i) y[i] = y[i] * Alg(2.0) + ax0[0];
        for(int k = 0; k <= 2; ++k) { VDb v = f.Forward(size_t(k), xc[size_t(k)]); for(size_t i = 0; i < m; ++i) if( ! check(only[i] ? "chkpoint-dynamic-only-result" : "chkpoint-dynamic-forward", v[i], y[i], k, 0, ctx) ) return; }
        VDb w(m, 1.0); VDb dw = f.Reverse(3, w); for(size_t j = 0; j < n; ++j) for(int l = 0; l < 3; ++l) { Sum s; for(size_t i = 0; i < m; ++i) s.add(1, y[i], l, int(j) + 1); if( ! check_sum("chkpoint-dynamic-reverse", dw[j * 3 + size_t(l)], s, ctx) ) return; } }
}
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; GenCfg g = profile(r, m); g.n_sub = r.range(1, 3); g.nest = r.chance(.25) ? .5 : 0; g.w_atom = 6; gp.reset(new Gen(r, g)); gp->make(); note_prog(*gp); Rng r0 = r; shrink_case(*gp, r0, core);
    core(*gp, r); if( i % 5 == 0 ) chk_dyn(*gp, r); }
int main(int argc, char** argv) { rep().args(argc, argv); run_cases(body); g_pool.clear(); return rep().finish(); }
