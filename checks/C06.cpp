// C06: optimization never changes what a function computes
#include "../lib/atoms.hpp"
#include <algorithm>
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; m.print = true; m.atom = .12; m.p_big = .03; m.big = 300; m.max_n = 5; return m; }
// the value graph optimizer is documented as under construction; these are the operators it implements
static Mix mixv() { Mix m; m.cmp=true; m.print=true; m.dyn = false; m.atom=.15; m.big = 100; m.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW}; return m; }
// printed text as (id, value) pairs
static std::vector<std::pair<std::string, double>> parse(const std::string& s)
{   std::vector<std::pair<std::string, double>> r; size_t k = 0; while( k < s.size() ) { size_t c = s.find(':', k), e = s.find(';', k); if( c == std::string::npos || e == std::string::npos ) { r.push_back({"?" + s.substr(k), 0}); break; } r.push_back({s.substr(k, c - k), atof(s.substr(c + 1, e - c - 1).c_str())}); k = e + 1; } return r; }
static void body(long i, Rng& r)
{   static Mix m = mix(), mv = mixv(); std::unique_ptr<Gen> gp; long j = i % 10000000; bool huge = j % 3000 == 2999, vgcase = j % 5 == 4;
    if( huge ) { GenCfg g = profile(r, m); g.n_ins = r.range(20000, 40000); g.m = 5; g.maxval = 10; g.w_atom = 0; if( g.w_vec > 0 ) g.w_vec = .3; gp.reset(new Gen(r, g)); gp->make(); rep().count("huge"); }
    else if( vgcase ) { gp.reset(new Gen(r, profile(r, mv))); gp->make(); }
    else make_case(i, r, m, gp);
    Gen& gen = *gp; const Prog& p = gen.p; if( huge ) rep().sig(mix64(uint64_t(i))); else note_prog(gen);
    std::string txt = huge ? fmt("%d operators", int(p.ins.size())) : p.text();
    Atoms atoms(p, r); Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms.attach(it); };
    CppAD::ADFun<double> f, g; rec(p, gen.pts[0], f, 0, r.chance(.9)); g = f;
    if( r.chance(.3) ) { if( p.nd ) g.new_dynamic(gen.pts[0].d); g.Forward(0, gen.pts[0].x); } // optimize then checks itself
    std::string all; bool no_cmp = false, no_print = false; bool anyvg = false;
    int times = r.chance(.3) ? r.range(2, 3) : 1;
    for(int t = 0; t < times; ++t)
    {   std::string o; bool vg = false;
        if( vgcase || t > 0 || r.chance(.8) )
        {   if( r.chance(.7) && vgcase && ! huge ) { vg = anyvg = true; o += "val_graph no_conditional_skip "; }
            else { if( vgcase || r.chance(.4) ) o += "no_conditional_skip "; if( r.chance(.2) ) o += fmt("collision_limit=%d ", r.range(1, 20)); }
            if( r.chance(.25) ) { o += "no_compare_op "; no_cmp = true; }
            if( r.chance(.25) ) { o += "no_print_for_op "; no_print = true; }
            if( r.chance(.25) ) o += "no_cumulative_sum_op "; }
        size_t before = g.size_var(); try { g.optimize(o); } catch(const cppad_error& e)
        {   if( e.msg.find("Error during check") != std::string::npos ) { rep().count("optimize_self_check_failed"); g = f; g.optimize(o); } else throw; }
        rep().count(vg ? "val_graph" : "optimize"); all += "|" + o;
        if( g.size_var() > before ) rep().fail("more-variables", all + " " + txt);
        if( r.chance(.2) ) { CppAD::ADFun<double> h; h = g; g = h; }
    }
    auto ctx0 = [&]() { return "options '" + all + "' " + txt; };
    if( g.Domain() != f.Domain() || g.Range() != f.Range() || g.size_dyn_ind() != f.size_dyn_ind() ) { rep().fail("size", ctx0()); return; }
    size_t n = size_t(p.n), mm = p.dep.size();
    for(size_t pt = 0; pt < gen.pts.size(); ++pt)
    {   const Point& q = gen.pts[pt]; auto ctx = [&]() { return ctx0() + " " + point_text(q); };
        if( p.nd ) { f.new_dynamic(q.d); g.new_dynamic(q.d); }
        int Q = huge ? 1 : r.range(1, 3); auto xc = taylor_in(r, q.x, Q); auto want = alg_run(p, xc, q.d, ! huge);
        std::ostringstream so, sg; VDb y0 = f.Forward(0, q.x, so), z0 = g.Forward(0, q.x, sg); VDb z = z0;
        size_t cf = f.compare_change_number(), cg = g.compare_change_number();
        // identical comparisons are merged, so each group of comparisons whose operands agree at every point counts at least once
        size_t least = 0; { std::set<std::vector<double>> grp; for(auto& s : p.ins) if( s.op == I_CMP ) { if( Hook<double>::rel(s.sub, gen.v(0, s.a[0]), gen.v(0, s.a[1])) == Hook<double>::rel(s.sub, gen.v(int(pt), s.a[0]), gen.v(int(pt), s.a[1])) ) continue;
            std::vector<double> a, b; for(int k = 0; k < gen.np(); ++k) { a.push_back(gen.v(k, s.a[0])); b.push_back(gen.v(k, s.a[1])); } if( b < a ) std::swap(a, b); a.insert(a.end(), b.begin(), b.end()); grp.insert(a); } least = std::min(grp.size(), cf); }
        if( ! no_cmp && (cg > cf || cg < least) ) { rep().fail("compare-change", fmt("%zu before, %zu after, at least %zu ", cf, cg, least) + ctx()); }
        rep().count("compare_changes", long(cf));
        if( no_cmp && cg != 0 ) rep().fail("compare-not-removed", ctx());
        auto pa = parse(so.str()), pb = parse(sg.str());
        if( no_print ) { if( ! pb.empty() ) rep().fail("print-not-removed", ctx()); }
        else { if( anyvg ) { std::sort(pa.begin(), pa.end()); pa.erase(std::unique(pa.begin(), pa.end()), pa.end()); std::sort(pb.begin(), pb.end()); pb.erase(std::unique(pb.begin(), pb.end()), pb.end()); } // identical prints are merged
            bool ok = pa.size() == pb.size(); if( ok ) for(size_t k = 0; k < pa.size(); ++k) if( pa[k].first != pb[k].first || ! near(pa[k].second, pb[k].second, 1e-5, 1e-8) ) ok = false; if( ! ok ) { rep().fail("print", so.str() + " / " + sg.str() + " " + ctx()); } rep().count("printed", long(pa.size())); }
        bool bad = false;
        for(size_t a = 0; a < mm && ! bad; ++a) bad = ! check("value", z0[a], want[a], 0, 0, ctx);
        for(int k = 1; k <= Q && ! bad; ++k) { z = g.Forward(size_t(k), xc[size_t(k)]); for(size_t a = 0; a < mm && ! bad; ++a) bad = ! check(fmt("order%d", k), z[a], want[a], k, 0, ctx); }
        if( bad ) return;
        if( huge ) { // reverse against the original function
            VDb w(mm); for(double& t : w) t = r.uni(-1, 1); f.Forward(0, q.x); VDb a = f.Reverse(1, w); g.Forward(0, q.x); VDb b = g.Reverse(1, w); for(size_t jj = 0; jj < n; ++jj) if( ! near(a[jj], b[jj], 1e-6, 1e-6) ) rep().fail("reverse-huge", fmt("%.17g %.17g ", a[jj], b[jj]) + ctx()); continue; }
        int qq = r.range(1, Q + 1); VDb w(mm * size_t(qq)); for(double& t : w) t = r.chance(.3) ? 0 : r.uni(-1, 1);
        VDb dw = g.Reverse(size_t(qq), w);
        for(size_t jj = 0; jj < n; ++jj) for(int l = 0; l < qq; ++l)
        {   Sum s; for(size_t a = 0; a < mm; ++a) for(int k = l; k < qq; ++k) s.add(w[a * size_t(qq) + size_t(k)], want[a], k - l, int(jj) + 1);
            if( ! check_sum("reverse", dw[jj * size_t(qq) + size_t(l)], s, ctx) ) return; }
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
