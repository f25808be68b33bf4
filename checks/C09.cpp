// C09: changing dynamic parameters is the same as re-recording with them
#include "../lib/atoms.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; m.atom = .15; m.max_n = 3; m.max_nd = 6; m.npts = 4; m.max_ins = 35; return m; }
typedef std::vector<double> R1;
static void core(Gen& gen, Rng& r)
{   const Prog& p = gen.p; size_t n = size_t(p.n), m = p.dep.size(), nd = size_t(p.nd); if( nd == 0 ) { rep().count("no_dynamic"); return; }
    Atoms atoms(p, r); Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms.attach(it); }; std::string hist; size_t pt = 0;
    auto ctx = [&]() { return p.text() + " [" + hist + "] " + point_text(gen.pts[pt]); };
    CppAD::ADFun<double> f; rec(p, gen.pts[0], f); bool opt = false; if( r.chance(.35) ) { std::string o = r.chance(.3) ? "no_compare_op" : ""; f.optimize(o); opt = true; hist += "opt,"; }
    size_t np = f.size_dyn_ind(); if( np != nd ) rep().fail("size_dyn_ind", ctx()); size_t vars = f.size_var();
    // all the results at a point, always computed with the same calls
    auto eval = [&](CppAD::ADFun<double>& g, const Point& q, int Q, const std::vector<VDb>& xc, const VDb& w)
    {   R1 res; for(int k = 0; k <= Q; ++k) { VDb y = g.Forward(size_t(k), xc[size_t(k)]); res.insert(res.end(), y.begin(), y.end()); }
        VDb dw = g.Reverse(size_t(Q) + 1, w); res.insert(res.end(), dw.begin(), dw.end()); return res; };
    struct Seen { size_t pt; R1 v; bool opt; }; std::vector<Seen> seen; int Q = r.range(0, 3); std::vector<std::vector<VDb>> xcs; VDb w(m); for(auto& z : w) z = r.uni(-1, 1);
    for(auto& q : gen.pts) xcs.push_back(taylor_in(r, q.x, Q));
    int steps = r.range(3, 7);
    for(int t = 0; t < steps; ++t)
    {   size_t old = pt; pt = r.sbelow(gen.pts.size()); (void) old; const Point& q = gen.pts[pt]; hist += fmt("%zu", pt);
        if( r.chance(.3) ) { Point z = gen.pts[r.sbelow(gen.pts.size())]; f.new_dynamic(z.d); hist += "x"; if( r.chance(.5) ) { f.Forward(0, z.x); hist += "f"; } } // a setting that is replaced
        if( r.chance(.5) ) f.new_dynamic(q.d); else { CppAD::vector<double> dv(nd); for(size_t j = 0; j < nd; ++j) dv[j] = q.d[j]; f.new_dynamic(dv); } rep().count("new_dynamic"); hist += ",";
        R1 v = eval(f, q, Q, xcs[pt], w);
        // reference calculus: parameters are constants
        auto want = alg_run(p, xcs[pt], q.d, true); size_t c = 0;
        for(int k = 0; k <= Q; ++k) for(size_t i = 0; i < m; ++i) if( ! check("forward", v[c++], want[i], k, 0, ctx) ) return;
        for(size_t j = 0; j < n; ++j) for(int l = 0; l <= Q; ++l) { Sum s; for(size_t a = 0; a < m; ++a) s.add(w[a], want[a], l, int(j) + 1); if( ! check_sum("reverse", v[c++], s, ctx) ) return; }
        // no trace of earlier settings: same calls, same bits
        for(auto& z : seen) if( z.pt == pt && z.opt == opt ) { rep().count("revisited"); for(size_t k = 0; k < v.size(); ++k) if( !( v[k] == z.v[k] || (v[k] != v[k] && z.v[k] != z.v[k]) ) ) { rep().fail("trace-of-earlier-setting", fmt("%.17g %.17g ", v[k], z.v[k]) + ctx()); return; } }
        seen.push_back({pt, v, opt});
        if( r.chance(.25) )
        {   // a fresh recording with the parameters as constants
            Prog pc = p; Point qc; qc.x = q.x; CppAD::ADFun<double> g; std::vector<A1> ax, ad, ay; for(double z : q.x) ax.push_back(z); for(double z : q.d) ad.push_back(z);
            CppAD::Independent(ax); { Interp<A1> it(p); atoms.attach(it); it.start(ax, ad); it.run(ay); } g.Dependent(ax, ay); rep().count("rerecorded");
            R1 u = eval(g, q, Q, xcs[pt], w); size_t e = 0;
            for(int k = 0; k <= Q; ++k) for(size_t i = 0; i < m; ++i, ++e) if( agree(v[e], ld(u[e]), 2 * want[i].err(k, 0), 4e3) == 1 ) { rep().fail("differs-from-recording-with-constants", fmt("%.17g %.17g ", v[e], u[e]) + ctx()); return; }
            for(size_t i = 0; i < m; ++i) if( g.Parameter(i) && opt == false && ! f.Parameter(i) && ! p.vecs.size() && ! p.subs.size() ) rep().count("parameter_with_constants"); }
        if( f.size_dyn_ind() != nd || (! opt && f.size_var() != vars) ) { rep().fail("sizes-changed", ctx()); return; }
        if( r.chance(.15) && ! opt ) { f.optimize(); opt = true; hist += "opt,"; }
        if( r.chance(.15) ) { CppAD::ADFun<double> g; g = f; Point z = gen.pts[r.sbelow(gen.pts.size())]; g.new_dynamic(z.d); hist += "copy,"; } // a copy has its own parameters
        if( r.chance(.1) ) { CppAD::ADFun<double> g(std::move(f)); f = std::move(g); hist += "move,"; } }
}
static void body(long i, Rng& r) { static Mix m = mix(); prog_case(i, r, m, core); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
