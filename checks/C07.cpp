// C07: sparsity patterns and dependency reports contain every dependency that is observed numerically
#include "../lib/truth.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; m.atom = .25; m.max_n = 6; m.max_m = 5; m.p_big = .03; m.big = 150; m.npts = 4; return m; }
static void core(Gen& gen, Rng& r, bool wide);
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; long j = i % 10000000; bool wide = j % 97 == 96;
    if( wide ) { GenCfg g = profile(r, m); g.n = r.range(60, 80); g.m = r.range(10, 70); g.n_ins = r.range(80, 200); g.w_atom = 0; gp.reset(new Gen(r, g)); gp->make(); rep().count("wide"); } else make_case(i, r, m, gp);
    note_prog(*gp); Rng r0 = r; shrink_case(*gp, r0, [&](Gen& g, Rng& q) { core(g, q, wide); }); core(*gp, r, wide);
}
static void core(Gen& gen, Rng& r, bool wide)
{   const Prog& p = gen.p; std::string txt = p.text(), opt;
    Atoms atoms(p, r); Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms.attach(it); };
    bool chk1 = false; for(auto& a : atoms.a) chk1 = chk1 || std::string(a->kind()) == "chkpoint_one"; // has no forward Hessian sparsity
    CppAD::ADFun<double> f; rec(p, gen.pts[0], f);
    contract_relaxed() = false; // the values promised to atomic functions are checked unless optimize replaced arguments
    if( r.chance(.35) ) { contract_relaxed() = true; opt = " optimized"; f.optimize(r.chance(.3) ? "no_conditional_skip" : ""); } // patterns must still hold
    bool hes = ! wide || r.chance(.2); Truth t(gen, r, hes); size_t n = t.n, mm = t.m; rep().count("nonzero", t.nz);
    auto ctx = [&]() { return txt + opt; };
    Pat J, D; for(size_t a = 0; a < mm; ++a) for(size_t b = 0; b < n; ++b) { if( t.J[a][b] ) J.insert({a, b}); if( t.dep[a][b] ) D.insert({a, b}); }
    if( r.chance(.2) ) { CppAD::ADFun<double> g; g = f; f = g; }
    for(int rep_ = 0; rep_ < 3; ++rep_)
    {   // patterns hold for every value of the dynamic parameters; in particular when some of them happen to be zero
        if( f.size_dyn_ind() > 0 && r.chance(.5) ) { std::vector<double> d(f.size_dyn_ind()); for(auto& v : d) v = r.chance(.5) ? 0 : r.uni(-2, 2); f.new_dynamic(d); rep().count("zero_dynamic"); }
        bool tr = r.chance(.5), dp = r.chance(.4), ib = r.chance(.5); const Pat& need = dp ? D : J;
        size_t l = size_t(rep_ == 0 ? n : size_t(r.range(1, 4))); Pat R = rep_ == 0 ? eye(n) : rand_pat(r, n, l, r.uni(0, .8)); Pat want = pat_mul(need, R), out;
        Src po; f.for_jac_sparsity(from_pat(tr ? l : n, tr ? n : l, tr ? transp(R) : R, &r), tr, dp, ib, po);
        if( po.nr() != (tr ? l : mm) || po.nc() != (tr ? mm : l) ) rep().fail("for_jac_sparsity-size", ctx()); else contains("for_jac_sparsity", to_pat(po, tr), want, ctx);
        if( ib ? f.size_forward_bool() == 0 && n > 0 : f.size_forward_set() == 0 ) rep().count("forward_pattern_not_kept"); 
        // Hessian using this R
        if( hes && ! dp )
        {   std::vector<bool> s(mm); for(size_t a = 0; a < mm; ++a) s[a] = r.chance(.6); Pat H; for(size_t a = 0; a < mm; ++a) if( s[a] ) for(size_t b = 0; b < n; ++b) for(size_t c = 0; c < n; ++c) if( t.H[a][b][c] ) H.insert({b, c});
            bool th = r.chance(.5); Src ho; f.rev_hes_sparsity(s, th, ib, ho); rep().count("rev_hes_sparsity");
            if( ho.nr() != (th ? l : n) || ho.nc() != (th ? n : l) ) rep().fail("rev_hes_sparsity-size", ctx()); else contains("rev_hes_sparsity", to_pat(ho, th), pat_mul(H, R), ctx);
            std::vector<bool> dom(n); for(size_t b = 0; b < n; ++b) dom[b] = rep_ == 0 || r.chance(.6); Pat HD; for(auto& e : H) if( dom[e.first] && dom[e.second] ) HD.insert(e);
            if( ! chk1 ) { f.for_hes_sparsity(dom, s, r.chance(.5), ho); rep().count("for_hes_sparsity");
            if( ho.nr() != n || ho.nc() != n ) rep().fail("for_hes_sparsity-size", ctx()); else contains("for_hes_sparsity", to_pat(ho), HD, ctx); }
            if( rep_ == 1 )
            {   rep().count("old_hessian"); // the older interfaces
                Pat so; for(size_t a = 0; a < mm; ++a) if( s[a] ) so.insert({0, a}); bool useb = r.chance(.5); Pat dd; for(size_t b = 0; b < n; ++b) if( dom[b] ) dd.insert({0, b});
                if( useb ) { f.ForSparseJac(l, pat_bool(R, n, l)); auto h = f.RevSparseHes(l, pat_bool(so, 1, mm), th); contains("RevSparseHes-bool", bool_pat(h, th ? n : l, th ? l : n, ! th), pat_mul(H, R), ctx);
                    if( chk1 ) continue; auto h2 = f.ForSparseHes(pat_bool(dd, 1, n), pat_bool(so, 1, mm)); contains("ForSparseHes-bool", bool_pat(h2, n, n, false), HD, ctx); }
                else { f.ForSparseJac(l, pat_sets(R, n)); auto h = f.RevSparseHes(l, pat_sets(so, 1), th); contains("RevSparseHes-set", sets_pat(h, ! th), pat_mul(H, R), ctx);
                    if( chk1 ) continue; auto h2 = f.ForSparseHes(pat_sets(dd, 1), pat_sets(so, 1)); contains("ForSparseHes-set", sets_pat(h2, false), HD, ctx); }
                }
        }
        // reverse
        l = size_t(rep_ == 0 ? mm : size_t(r.range(1, 4))); R = rep_ == 0 ? eye(mm) : rand_pat(r, l, mm, r.uni(0, .8)); dp = r.chance(.4); tr = r.chance(.5); const Pat& need2 = dp ? D : J; want = pat_mul(R, need2);
        f.rev_jac_sparsity(from_pat(tr ? mm : l, tr ? l : mm, tr ? transp(R) : R, &r), tr, dp, r.chance(.5), po);
        if( po.nr() != (tr ? n : l) || po.nc() != (tr ? l : n) ) rep().fail("rev_jac_sparsity-size", ctx()); else contains("rev_jac_sparsity", to_pat(po, tr), want, ctx);
        if( rep_ == 2 )
        {   if( r.chance(.5) ) { auto z = f.RevSparseJac(l, pat_bool(tr ? transp(R) : R, tr ? mm : l, tr ? l : mm), tr, dp); contains("RevSparseJac-bool", bool_pat(z, tr ? n : l, tr ? l : n, tr), want, ctx); }
            else { auto z = f.RevSparseJac(l, pat_sets(tr ? transp(R) : R, tr ? mm : l), tr, dp); contains("RevSparseJac-set", sets_pat(z, tr), want, ctx); }
            l = size_t(r.range(1, 4)); R = rand_pat(r, n, l, .5); want = pat_mul(need2, R);
            if( r.chance(.5) ) { auto z = f.ForSparseJac(l, pat_bool(tr ? transp(R) : R, tr ? l : n, tr ? n : l), tr, dp); contains("ForSparseJac-bool", bool_pat(z, tr ? l : mm, tr ? mm : l, tr), want, ctx); }
            else { auto z = f.ForSparseJac(l, pat_sets(tr ? transp(R) : R, tr ? l : n), tr, dp); contains("ForSparseJac-set", sets_pat(z, tr), want, ctx); }
            rep().count("old_jacobian"); }
        // subgraph
        std::vector<bool> sd(n), sr(mm); for(size_t b = 0; b < n; ++b) sd[b] = rep_ == 0 || r.chance(.6); for(size_t a = 0; a < mm; ++a) sr[a] = rep_ == 0 || r.chance(.6); tr = r.chance(.5);
        f.subgraph_sparsity(sd, sr, tr, po); Pat SD; for(auto& e : D) if( sr[e.first] && sd[e.second] ) SD.insert(e);
        if( po.nr() != (tr ? n : mm) || po.nc() != (tr ? mm : n) ) rep().fail("subgraph_sparsity-size", ctx()); else { Pat got = to_pat(po, tr); contains("subgraph_sparsity", got, SD, ctx);
            for(auto& e : got) if( ! sr[e.first] || ! sd[e.second] ) { rep().fail("subgraph_sparsity-not-selected", ctx()); break; } }
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
