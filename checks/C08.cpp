// C08: sparse derivative calculations equal the corresponding dense derivatives
#include "../lib/truth.hpp"
using namespace vf;
#ifdef VF_COLPACK
static const bool colpack = true;
#else
static const bool colpack = false;
#endif
static Mix mix() { Mix m; m.cmp = false; m.atom = .08; m.max_n = 9; m.max_m = 9; m.max_ins = 30; m.npts = 3; return m; }
typedef std::vector<size_t> VI; typedef CppAD::sparse_rc<VI> Src_; typedef CppAD::sparse_rcv<VI, VDb> Rcv;
struct Ref { std::vector<Alg> j0; std::vector<std::vector<Alg>> h; };   // derivatives at one point
static Ref reference(const Prog& p, const Point& q)
{   Ref R; size_t n = size_t(p.n); R.j0 = alg_run(p, {q.x}, q.d, true); R.h.resize(n);
    for(size_t j = 0; j < n; ++j) { VDb e(n, 0.0); e[j] = 1; R.h[j] = alg_run(p, {q.x, e}, q.d, true); } return R; }
static Pat sample(Rng& r, const Pat& s, double p) { Pat t; for(auto& e : s) if( r.chance(p) ) t.insert(e); return t; }
struct JW { Pat sub; Src_ rc; CppAD::sparse_jac_work w; size_t nc = 0; bool fwd; bool used = false; };
struct HW { Src_ rc; CppAD::sparse_hes_work w; size_t nc = 0; bool used = false; };
static void core(Gen& gen, Rng& r)
{   const Prog& p = gen.p; size_t n = size_t(p.n), m = p.dep.size(); std::string opt; std::string txt = p.text();
    Atoms atoms(p, r); Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms.attach(it); };
    CppAD::ADFun<double> f; rec(p, gen.pts[0], f); if( r.chance(.3) ) { try { f.optimize(); opt = " optimized"; } catch(const cppad_error& e) { if( e.msg.find("Error during check") == std::string::npos ) throw; rep().count("optimize_self_check"); return; } }
    std::vector<Ref> ref; for(auto& q : gen.pts) ref.push_back(reference(p, q));
    // sparsity patterns from the function itself, possibly with additional entries
    Pat J, H; { Src_ po; std::vector<bool> sd(n, true), sr(m, true);
        f.for_jac_sparsity(from_pat(n, n, eye(n)), false, false, r.chance(.5) ? true : false, po); J = to_pat(po);
        bool ib = r.chance(.5); f.for_jac_sparsity(from_pat(n, n, eye(n)), false, false, ib, po); f.rev_hes_sparsity(sr, false, ib, po); H = to_pat(po); for(auto e : Pat(H)) H.insert({e.second, e.first}); }
    // entries that are needed whatever the pattern says (a pattern that misses one is C07's business: then this check cannot judge)
    { for(auto& R : ref) for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( Truth::sure(R.j0[i], 0, int(j) + 1) ) J.insert({i, j});
      for(auto& R : ref) for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) if( Truth::sure(R.h[j][i], 1, int(k) + 1) ) { H.insert({j, k}); H.insert({k, j}); } }
    if( r.chance(.3) ) for(auto& e : rand_pat(r, m, n, .2)) J.insert(e); if( r.chance(.3) ) for(auto& e : rand_pat(r, n, n, .15)) { H.insert(e); H.insert({e.second, e.first}); }
    if( r.chance(.05) ) J = rand_pat(r, m, n, 1.1); if( r.chance(.05) ) H = rand_pat(r, n, n, 1.1);
    std::vector<std::unique_ptr<JW>> jw; std::vector<std::unique_ptr<HW>> hw; size_t pt = 0; std::string hist;
    auto ctx = [&]() { return txt + opt + " [" + hist + "] " + point_text(gen.pts[pt]); };
    Pat jsub_old, hsub_old; CppAD::sparse_jacobian_work ojw[2]; CppAD::sparse_hessian_work ohw; VI ojr[2], ojc[2], ohr, ohc; bool oju[2] = {false, false}, ohu = false;
    auto chkJ = [&](const char* key, size_t i, size_t j, double v) { setcfg(0, int(n)); return check(key, v, ref[pt].j0[i], 0, int(j) + 1, ctx, 1e4); };
    auto chkH = [&](const char* key, const VDb& w, size_t i, size_t j, double v) { setcfg(1, int(n)); Sum s; for(size_t k = 0; k < m; ++k) s.add(w[k], ref[pt].h[i][k], 1, int(j) + 1); return check_sum(key, v, s, ctx); };
    auto weights = [&]() { VDb w(m); for(auto& z : w) z = r.chance(.25) ? 0 : r.uni(-1, 1); return w; };
    auto dense_sets = [&](const Pat& s, size_t nr) { return pat_sets(s, nr); };
    int steps = r.range(3, 9);
    for(int t = 0; t < steps; ++t) try
    {   if( r.chance(.6) ) { pt = r.sbelow(gen.pts.size()); } const Point& q = gen.pts[pt]; if( p.nd ) f.new_dynamic(q.d);
        int op = r.below(9); hist += fmt("%d,", op); bool zero_order = true;
        switch(op)
        {   case 0: case 1: { // sparse_jac_for, sparse_jac_rev
                JW* u; if( ! jw.empty() && r.chance(.5) ) u = jw[r.sbelow(jw.size())].get(); else { jw.emplace_back(new JW); u = jw.back().get(); u->fwd = op == 0; u->sub = sample(r, J, r.pick(std::vector<double>{0, .3, .7, 1})); u->rc = from_pat(m, n, u->sub, &r); }
                Rcv sub(u->rc); Src_ pat; if( ! u->used || r.chance(.2) ) { Pat j2 = J; if( r.chance(.3) ) { std::set<size_t> ar, ac; for(auto& e : u->sub) { ar.insert(e.first); ac.insert(e.second); } double pr = r.uni(); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( (! ar.count(i) || ! ac.count(j)) && r.chance(pr) ) { if( r.chance(.5) ) j2.erase({i, j}); else j2.insert({i, j}); } rep().count("pattern_irrelevant"); } pat = from_pat(m, n, j2, &r); } if( u->used ) rep().count("work_reused");
                std::string col = colpack && r.chance(.7) ? "colpack" : "cppad"; if( u->used && r.chance(.5) ) col = "cppad"; size_t gm = size_t(r.pick(std::vector<int>{1, 1, 2, 3, int(n), int(n) + 3}));
                size_t nc = u->fwd ? f.sparse_jac_for(gm, q.x, sub, pat, col, u->w) : f.sparse_jac_rev(q.x, sub, pat, col, u->w); rep().count(u->fwd ? "sparse_jac_for" : "sparse_jac_rev"); if( gm > 1 && u->fwd ) rep().count("groups");
                for(size_t k = 0; k < u->rc.nnz(); ++k) { if( sub.row()[k] != u->rc.row()[k] || sub.col()[k] != u->rc.col()[k] ) { rep().fail("sparse_jac-order", ctx()); return; }
                    if( ! chkJ(u->fwd ? "sparse_jac_for" : "sparse_jac_rev", sub.row()[k], sub.col()[k], sub.val()[k]) ) return; }
                std::set<size_t> c, rw; for(auto& e : u->sub) { c.insert(e.second); rw.insert(e.first); } if( (nc > (colpack ? (u->fwd ? n : m) : u->fwd ? c.size() : rw.size())) || (nc == 0 && ! u->sub.empty()) ) rep().fail("sparse_jac-n_color", fmt("%zu ", nc) + ctx());
                if( u->used && nc != u->nc ) rep().fail("sparse_jac-n_color-reuse", ctx()); u->nc = nc; if( nc < (u->fwd ? c.size() : rw.size()) ) rep().count("colors_shared"); u->used = true; } break;
            case 2: { // sparse_hes
                HW* u; if( ! hw.empty() && r.chance(.5) ) u = hw[r.sbelow(hw.size())].get(); else { hw.emplace_back(new HW); u = hw.back().get(); Pat s = sample(r, H, r.pick(std::vector<double>{0, .3, .7, 1})); if( r.chance(.3) ) for(auto e : Pat(s)) if( e.first < e.second ) s.erase(e); u->rc = from_pat(n, n, s, &r); }
                Rcv sub(u->rc); VDb w = weights(); Src_ pat; if( ! u->used || r.chance(.2) )
                {   Pat h = H; std::set<size_t> ap; for(size_t k = 0; k < u->rc.nnz(); ++k) { ap.insert(u->rc.row()[k]); ap.insert(u->rc.col()[k]); }
                    if( r.chance(.3) ) { double pr = r.uni(); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( (! ap.count(i) || ! ap.count(j)) && r.chance(pr) ) { if( r.chance(.5) ) h.erase({i, j}); else h.insert({i, j}); } rep().count("pattern_irrelevant"); } // does not matter
                    pat = from_pat(n, n, h, &r); }
                std::string col = colpack && r.chance(.7) ? r.pick(std::vector<std::string>{"colpack.symmetric", "colpack.general"}) : r.pick(std::vector<std::string>{"cppad.symmetric", "cppad.general"});
                size_t nc = f.sparse_hes(q.x, w, sub, pat, col, u->w); rep().count("sparse_hes"); if( u->used ) rep().count("work_reused");
                for(size_t k = 0; k < u->rc.nnz(); ++k) if( ! chkH(("sparse_hes-" + col).c_str(), w, u->rc.row()[k], u->rc.col()[k], sub.val()[k]) ) return;
                if( u->used && nc != u->nc ) rep().fail("sparse_hes-n_sweep-reuse", ctx()); if( nc > n ) rep().fail("sparse_hes-n_sweep", ctx()); if( nc < n && u->rc.nnz() ) rep().count("colors_shared"); u->nc = nc; u->used = true; } break;
            case 3: { // subgraph_jac_rev of a subset
                Src_ rc = from_pat(m, n, r.chance(.5) ? sample(r, J, .6) : rand_pat(r, m, n, .4), &r); Rcv sub(rc); f.subgraph_jac_rev(q.x, sub); rep().count("subgraph_jac_rev");
                for(size_t k = 0; k < rc.nnz(); ++k) if( ! chkJ("subgraph_jac_rev-subset", rc.row()[k], rc.col()[k], sub.val()[k]) ) return; } break;
            case 4: { std::vector<bool> sd(n), sr(m); for(size_t j = 0; j < n; ++j) sd[j] = r.chance(.7); for(size_t i = 0; i < m; ++i) sr[i] = r.chance(.7);
                Rcv out; f.subgraph_jac_rev(sd, sr, q.x, out); rep().count("subgraph_jac_rev"); if( out.nr() != m || out.nc() != n ) { rep().fail("subgraph_jac_rev-size", ctx()); return; }
                Pat got; for(size_t k = 0; k < out.nnz(); ++k) { size_t i = out.row()[k], j = out.col()[k]; if( i >= m || j >= n || ! sr[i] || ! sd[j] || ! got.insert({i, j}).second ) { rep().fail("subgraph_jac_rev-entry", ctx()); return; } if( ! chkJ("subgraph_jac_rev", i, j, out.val()[k]) ) return; }
                for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( sr[i] && sd[j] && (setcfg(0, int(n)), true) && Truth::sure(ref[pt].j0[i], 0, int(j) + 1) && ! got.count({i, j}) ) { rep().fail("subgraph_jac_rev-missing", fmt("(%zu,%zu) ", i, j) + ctx()); return; } } break;
            case 5: { // subgraph_reverse of any order
                int Q = r.range(1, 4); auto xc = taylor_in(r, q.x, Q - 1); std::vector<bool> sd(n); for(size_t j = 0; j < n; ++j) { sd[j] = r.chance(.75); if( ! sd[j] ) for(int k = 1; k < Q; ++k) xc[size_t(k)][j] = 0; }
                for(int k = 0; k < Q; ++k) f.Forward(size_t(k), xc[size_t(k)]); f.subgraph_reverse(sd); std::vector<size_t> ells; for(size_t i = 0; i < m; ++i) if( r.chance(.6) ) ells.push_back(i); r.shuffle(ells);
                std::vector<std::vector<Alg>> want; for(int eo = 0; eo < Q; ++eo) want.push_back(alg_run(p, xc, q.d, true, eo));
                for(size_t ell : ells)
                {   int q0 = r.chance(.6) ? Q : r.range(1, Q); VI col; VDb dw; f.subgraph_reverse(size_t(q0), ell, col, dw); rep().count("subgraph_reverse"); if( dw.size() != n * size_t(q0) ) { rep().fail("subgraph_reverse-size", ctx()); return; }
                    std::set<size_t> cs; for(size_t c = 0; c < col.size(); ++c) { size_t j = col[c]; if( j >= n || ! sd[j] || (c && col[c - 1] >= j) ) { rep().fail("subgraph_reverse-col", ctx()); return; } cs.insert(j);
                        for(int k = 0; k < q0; ++k) if( ! check("subgraph_reverse", dw[j * size_t(q0) + size_t(k)], want[size_t(k)][ell], q0 - 1, int(j) + 1, ctx, 1e4) ) return; }
                    for(size_t j = 0; j < n; ++j) if( sd[j] && ! cs.count(j) ) for(int k = 0; k < q0; ++k) if( Truth::sure(want[size_t(k)][ell], q0 - 1, int(j) + 1) ) { rep().fail("subgraph_reverse-missing", fmt("y%zu x%zu ", ell, j) + ctx()); return; } }
                if( r.chance(.3) ) f.clear_subgraph(); zero_order = true; } break;
            case 6: { // SparseJacobian
                VDb jac; int form = r.below(3); rep().count("SparseJacobian"); if( form == 0 ) jac = f.SparseJacobian(q.x); else if( form == 1 ) jac = f.SparseJacobian(q.x, pat_bool(J, m, n)); else jac = f.SparseJacobian(q.x, dense_sets(J, m));
                if( jac.size() != m * n ) { rep().fail("SparseJacobian-size", ctx()); return; } for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( ! chkJ(fmt("SparseJacobian-%d", form).c_str(), i, j, jac[i * n + j]) ) return; } break;
            case 7: { int k = r.below(2); if( ! oju[k] || r.chance(.3) ) { ojw[k].clear(); if( colpack && r.chance(.7) ) ojw[k].color_method = "colpack"; ojr[k].clear(); ojc[k].clear(); Src_ rc = from_pat(m, n, sample(r, J, .6), &r); for(size_t e = 0; e < rc.nnz(); ++e) { ojr[k].push_back(rc.row()[e]); ojc[k].push_back(rc.col()[e]); } oju[k] = false; }
                VDb jac(ojr[k].size()); bool b = r.chance(.5); rep().count("SparseJacobianWork"); if( oju[k] ) rep().count("work_reused"); size_t ns = 0;
                if( b ) { auto pb = pat_bool(oju[k] ? Pat() : J, m, n); ns = k ? f.SparseJacobianForward(q.x, pb, ojr[k], ojc[k], jac, ojw[k]) : f.SparseJacobianReverse(q.x, pb, ojr[k], ojc[k], jac, ojw[k]); }
                else { auto ps = dense_sets(oju[k] ? Pat() : J, m); ns = k ? f.SparseJacobianForward(q.x, ps, ojr[k], ojc[k], jac, ojw[k]) : f.SparseJacobianReverse(q.x, ps, ojr[k], ojc[k], jac, ojw[k]); }
                (void) ns; oju[k] = true; for(size_t e = 0; e < jac.size(); ++e) if( ! chkJ(k ? "SparseJacobianForward" : "SparseJacobianReverse", ojr[k][e], ojc[k][e], jac[e]) ) return; } break;
            case 8: { VDb w = weights();
                if( r.chance(.4) ) { VDb h; int form = r.below(3); rep().count("SparseHessian"); if( form == 0 ) h = f.SparseHessian(q.x, w); else if( form == 1 ) h = f.SparseHessian(q.x, w, pat_bool(H, n, n)); else h = f.SparseHessian(q.x, w, dense_sets(H, n));
                    if( h.size() != n * n ) { rep().fail("SparseHessian-size", ctx()); return; } for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( ! chkH(fmt("SparseHessian-%d", form).c_str(), w, i, j, h[i * n + j]) ) return; break; }
                if( ! ohu || r.chance(.3) ) { ohw.clear(); ohw.color_method = colpack && r.chance(.7) ? r.pick(std::vector<std::string>{"colpack.symmetric", "colpack.general"}) : r.pick(std::vector<std::string>{"cppad.symmetric", "cppad.general"}); ohr.clear(); ohc.clear(); Src_ rc = from_pat(n, n, sample(r, H, .6), &r); for(size_t e = 0; e < rc.nnz(); ++e) { ohr.push_back(rc.row()[e]); ohc.push_back(rc.col()[e]); } ohu = false; }
                VDb h(ohr.size()); rep().count("SparseHessianWork"); if( ohu ) rep().count("work_reused");
                if( r.chance(.5) ) f.SparseHessian(q.x, w, pat_bool(ohu ? Pat() : H, n, n), ohr, ohc, h, ohw); else f.SparseHessian(q.x, w, dense_sets(ohu ? Pat() : H, n), ohr, ohc, h, ohw);
                ohu = true; for(size_t e = 0; e < h.size(); ++e) if( ! chkH("SparseHessianWork", w, ohr[e], ohc[e], h[e]) ) return; } break;
        }
        if( zero_order && r.chance(.3) )
        {   // zero order coefficients are those of x
            VDb dx(n); for(auto& z : dx) z = r.uni(-1, 1); VDb dy = f.Forward(1, dx); auto a = alg_run(p, {q.x, dx}, q.d, false); for(size_t i = 0; i < m; ++i) if( ! check("zero_order_after", dy[i], a[i], 1, 0, ctx) ) return; rep().count("zero_order_after"); }
        if( r.chance(.1) ) { CppAD::ADFun<double> g; g = f; f.swap(g); hist += "copy,"; }
        if( r.chance(.05) && opt.empty() ) { try { f.optimize(); } catch(const cppad_error& e) { if( e.msg.find("Error during check") == std::string::npos ) throw; rep().count("optimize_self_check"); return; } hist += "opt,"; opt = " "; }
        if( r.chance(.1) ) { f.capacity_order(size_t(r.below(3))); hist += "cap,"; }
    } catch(const cppad_error& e) { rep().fail("unexpected-" + err_key(e), std::string(e.what()) + " " + ctx()); return; }
}
static void body(long i, Rng& r) { static Mix m = mix(); prog_case(i, r, m, core); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
