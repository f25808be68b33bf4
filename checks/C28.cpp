// C28: the abs-normal representation reproduces the non-smooth function
#include "../lib/atoms.hpp"
using namespace vf;
static Mix mix()
{   Mix m; m.cmp = true; m.print = true; m.atom = .12; m.p_big = .02; m.big = 60; m.max_n = 4; m.max_m = 3; m.max_ins = 20; m.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW, B_AZMUL}; // atan2 is made of absolute values
    for(int u = 0; u < U_LAST_; ++u) { m.unary_ops.push_back(u); } for(int k = 0; k < 14; ++k) m.unary_ops.push_back(k % 2 ? U_ABS : U_FABS); return m; }
// evaluate with the absolute value instructions in at replaced by u; z are their arguments
template <class S> static void replaced(const Prog& p, const std::vector<size_t>& at, const std::vector<S>& x, const std::vector<S>& d, const std::vector<S>& u, std::vector<S>& y, std::vector<S>& z)
{   Interp<S> it(p); it.start(x, d); size_t k = 0; z.clear(); y.clear();
    for(size_t i = 0; i < p.ins.size(); ++i) if( k < at.size() && at[k] == i ) { z.push_back(it.at(p.ins[i].a[0])); it.node.push_back(u[k++]); } else it.exec(p.ins[i]);
    for(int a : p.dep) y.push_back(it.at(a)); }
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; if( i % 4 ) { GenCfg c = profile(r, m); c.w_unary = r.pick(std::vector<double>{4, 10, 20}); gp.reset(new Gen(r, c)); gp->make(); } else make_case(i % 10000000 / 4, r, m, gp); Gen& gen = *gp; const Prog& p = gen.p; if( p.n + p.nnode > 200 ) return;
    note_prog(gen); size_t n = size_t(p.n), md = p.dep.size(), nd = size_t(p.nd);
    Atoms atoms(p, r); bool dyn_atom = false; std::vector<size_t> at; std::vector<A1> ax, ad, ay; const Point& q0 = gen.pts[0]; std::string how;
    for(double v : q0.x) ax.push_back(v); for(double v : q0.d) ad.push_back(v); if( nd ) CppAD::Independent(ax, size_t(0), true, ad); else CppAD::Independent(ax);
    { Interp<A1> it(p); atoms.attach(it); it.on_instr = [&](size_t k) { auto& s = p.ins[k]; if( (s.op == U_ABS || s.op == U_FABS) && CppAD::Variable(it.at(s.a[0])) ) at.push_back(k); }; it.start(ax, ad); it.run(ay); for(auto& s2 : p.ins) if( s2.op == I_ATOM ) for(int u = 0; u < s2.nres; ++u) dyn_atom = dyn_atom || CppAD::Dynamic(it.at(s2.ires + u)); }
    CppAD::ADFun<double> f(ax, ay); size_t s = at.size(); f.check_for_nan(r.chance(.5));
    auto ctx = [&]() { return how + fmt("s=%zu ", s) + p.text(); };
    CppAD::ADFun<double> g, a;
    if( r.chance(.3) ) { Gen o(r, profile(r, m)); o.make(); Atoms oa(o.p, r, 1); Recorder<> rec; rec.setup = [&](Interp<A1>& it) { oa.attach(it); }; if( o.p.subs.empty() ) { rec(o.p, o.pts[0], g); a = g; if( r.chance(.5) ) { g.Forward(0, o.pts[0].x); } how += "used "; rep().count("used_objects"); } } // what the results contained before does not matter
#ifdef NDEBUG
    if( dyn_atom ) { rep().count("not_implemented"); return; } // only an error message when NDEBUG is not defined
#endif
    bool lost = false; if( r.chance(.1) ) { f.optimize(); how += "optimized "; rep().count("optimized"); lost = true; }
    try { f.abs_normal_fun(g, a); }
    catch(const cppad_error& e) { if( e.known && e.msg.find("not yet implemented for") != std::string::npos ) { rep().count("not_implemented"); return; } throw; }
    rep().count("formed"); rep().count("absolute_values", long(s));
    if( ! lost && (a.Range() != s || g.Domain() != n + s || g.Range() != md + s) ) { rep().fail("number-of-absolute-values", fmt("a has %zu results, g %zu arguments and %zu results ", a.Range(), g.Domain(), g.Range()) + ctx()); return; }
    if( lost ) s = a.Range();
    if( a.Domain() != n || f.Domain() != n || f.Range() != md || g.Domain() != n + s || g.Range() != md + s ) { rep().fail("size", ctx()); return; }
    if( g.size_dyn_ind() != nd || a.size_dyn_ind() != nd || f.size_dyn_ind() != nd ) { rep().fail("size-dynamic", ctx()); return; }
    // the form has no absolute values
    { CppAD::ADFun<double> g2, a2; g.abs_normal_fun(g2, a2); if( a2.Range() != 0 || g2.Domain() != n + s ) rep().fail("absolute-value-left", ctx()); rep().count("again"); }
    for(size_t k = 0; k < md; ++k) if( g.Parameter(k) != f.Parameter(k) ) rep().fail("parameter", ctx()); for(size_t k = 0; k < s; ++k) if( a.Parameter(k) || g.Parameter(md + k) ) rep().fail("parameter-abs", ctx());
    if( r.chance(.3) ) { a.optimize(); how += "a.optimize "; } if( r.chance(.3) ) { g.optimize(); how += "g.optimize "; } if( r.chance(.2) ) { CppAD::ADFun<double> h; h = g; g = h; }
    // structure
    auto id = [](size_t k) { CppAD::sparse_rc<std::vector<size_t>> e(k, k, k); for(size_t j = 0; j < k; ++j) e.set(j, j, j); return e; };
    bool sub = atoms.a.empty() && p.vecs.empty() && r.chance(.3);
    if( s ) { CppAD::sparse_rc<std::vector<size_t>> pat; if( sub ) { std::vector<bool> sd(n + s, true), sr(md + s, true); g.subgraph_sparsity(sd, sr, false, pat); rep().count("subgraph"); } else if( r.chance(.5) ) g.for_jac_sparsity(id(n + s), false, false, r.chance(.5), pat); else g.rev_jac_sparsity(id(md + s), false, false, r.chance(.5), pat);
        for(size_t e = 0; e < pat.nnz(); ++e) if( pat.row()[e] >= md && pat.col()[e] >= n && pat.col()[e] - n >= pat.row()[e] - md ) { rep().fail("pattern-not-strictly-lower", fmt("(%zu,%zu) ", pat.row()[e], pat.col()[e]) + ctx()); break; } rep().count("patterns");
        pat = CppAD::sparse_rc<std::vector<size_t>>(); if( sub ) { std::vector<bool> sd(n, true), sr(s, true); a.subgraph_sparsity(sd, sr, false, pat); } else if( r.chance(.5) ) a.for_jac_sparsity(id(n), false, false, true, pat); else a.rev_jac_sparsity(id(s), false, false, true, pat); if( pat.nr() != s || pat.nc() != n ) rep().fail("pattern-a", ctx()); }
    for(size_t pt = 0; pt < gen.pts.size(); ++pt)
    {   const Point& q = gen.pts[pt]; auto cp = [&]() { return ctx() + " " + point_text(q); };
        if( nd ) { f.new_dynamic(q.d); g.new_dynamic(q.d); a.new_dynamic(q.d); }
        std::ostringstream sf, sg, sa; VDb y = f.Forward(0, q.x, sf), u = a.Forward(0, q.x, sa); size_t changes = f.compare_change_number();
        VDb xu = q.x; xu.insert(xu.end(), u.begin(), u.end()); VDb yz = g.Forward(0, xu, sg);
        for(size_t k = 0; k < md; ++k) { rep().count("compared"); if( ! near(yz[k], y[k], 1e-9, 1e-9) ) { rep().fail("value", fmt("result %zu is %.17g not %.17g ", k, yz[k], y[k]) + cp()); return; } }
        for(size_t k = 0; k < s; ++k) { rep().count("compared"); if( ! near(std::fabs(yz[md + k]), u[k], 1e-9, 1e-9) ) { rep().fail("switching", fmt("absolute value %zu is %.17g and its argument %.17g ", k, u[k], yz[md + k]) + cp()); return; } }
        if( how.find("optimize") == std::string::npos ) { if( sf.str() != sg.str() ) rep().fail("print", cp()); if( g.compare_change_number() != changes ) rep().fail("compare-change", fmt("%zu not %zu ", g.compare_change_number(), changes) + cp()); rep().count("printed_same"); }
        if( lost ) continue;
        std::vector<double> yy, zz; replaced<double>(p, at, q.x, q.d, u, yy, zz);
        for(size_t k = 0; k < s; ++k) { double z = gen.v(int(pt), p.ins[at[k]].a[0]); rep().count("compared"); if( std::isfinite(z) && (! near(yz[md + k], z, 1e-6, 1e-8) || ! near(u[k], std::fabs(z), 1e-6, 1e-8)) ) { rep().fail("argument-of-absolute-value", fmt("number %zu is %.17g not %.17g ", k, yz[md + k], z) + cp()); return; } }
        // at other values of u, with derivatives
        for(int t = 0; t < 2; ++t)
        {   VDb w = xu; if( t ) for(size_t k = 0; k < s; ++k) switch( r.below(4) ) { case 0: w[n + k] = -w[n + k]; break; case 1: w[n + k] += r.uni(-.1, .1); break; case 2: if( r.chance(.3) ) w[n + k] = r.uni(0, 3); break; default: break; }
            if( ! p.vecs.empty() && t ) { bool in = true; Interp<double> it(p); it.start(q.x, q.d); size_t c = 0; for(size_t k = 0; k < p.ins.size() && in; ++k) { auto& e = p.ins[k]; if( e.op == I_LOAD || e.op == I_STORE ) { double z = it.at(e.a[0]); in = z >= 0 && z < double(p.vecs[size_t(e.sub)].size()); if( ! in ) break; } if( c < s && at[c] == k ) it.node.push_back(w[n + c++]); else it.exec(e); } if( ! in ) { rep().count("index_range"); continue; } }
            int Q = r.range(1, 2); auto xc = taylor_in(r, w, Q); setcfg(Q, int(n + s)); auto args = alg_args(xc, int(n + s), 0); std::vector<Alg> bx(args.begin(), args.begin() + long(n)), bu(args.begin() + long(n), args.end()), by, bz; replaced<Alg>(p, at, bx, alg_const(q.d), bu, by, bz); by.insert(by.end(), bz.begin(), bz.end());
            g.check_for_nan(false); VDb v = g.Forward(0, w); bool bad = false; auto cw = [&]() { return "x,u=" + vec_text(w) + cp(); };
            for(size_t k = 0; k < md + s && ! bad; ++k) bad = ! check(t ? "other-value" : "smooth-value", v[k], by[k], 0, 0, cw);
            for(int e = 1; e <= Q && ! bad; ++e) { v = g.Forward(size_t(e), xc[size_t(e)]); for(size_t k = 0; k < md + s && ! bad; ++k) bad = ! check(fmt("order%d", e), v[k], by[k], e, 0, cw); }
            if( bad ) return; rep().count(t ? "other_points" : "abs_points");
            VDb wt(md + s); for(double& z : wt) z = r.chance(.3) ? 0 : r.uni(-1, 1); VDb dw = g.Reverse(size_t(Q) + 1, wt);
            for(size_t j = 0; j < n + s && ! bad; ++j) for(int e = 0; e <= Q && ! bad; ++e) { Sum sum; for(size_t k = 0; k < md + s; ++k) if( wt[k] != 0 ) sum.add(wt[k], by[k], e, int(j) + 1); bad = ! check_sum("reverse", dw[j * size_t(Q + 1) + size_t(e)], sum, cw); }
            if( bad ) return;
            // strictly lower triangular: changing later absolute values keeps the argument
            if( s ) { size_t k = r.sbelow(s); VDb z = w; for(size_t j = k; j < s; ++j) z[n + j] += r.uni(-.05, .05); VDb v0 = g.Forward(0, w); if( p.vecs.empty() ) { VDb v1 = g.Forward(0, z); for(size_t j = 0; j <= k; ++j) { rep().count("triangular"); if( v1[md + j] != v0[md + j] && v1[md + j] == v1[md + j] ) rep().fail("depends-on-later-absolute-value", fmt("argument %zu ", j) + cw()); } } }
        }
        // derivatives of a away from the kinks
        bool kink = false; for(double z : u) kink |= ! (z > 1e-4); if( ! kink && s )
        {   setcfg(1, int(n)); VDb dx(n); for(double& z : dx) z = r.uni(-1, 1); auto args = alg_args({q.x, dx}, int(n), 0); Interp<Alg> it(p); it(args, alg_const(q.d)); VDb w(s, 0.0); size_t k = r.sbelow(s); w[k] = 1; a.check_for_nan(false); a.Forward(0, q.x); VDb da = a.Forward(1, dx); VDb dw = a.Reverse(1, w);
            for(size_t e = 0; e < s; ++e) if( ! check("a-order1", da[e], it.node[size_t(p.ins[at[e]].ires)], 1, 0, cp) ) return; for(size_t j = 0; j < n; ++j) if( ! check("a-reverse", dw[j], it.node[size_t(p.ins[at[k]].ires)], 0, int(j) + 1, cp) ) return; rep().count("a_derivatives"); }
    }
    VDb y = f.Forward(0, q0.x); (void) y;
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
