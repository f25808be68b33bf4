// C10: comparison changes are counted exactly
#include "../lib/atoms.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; m.npts = 6; m.max_ins = 30; return m; }
// algorithm with branches: the outcome of each comparison selects what is computed after it
template <class S> static std::vector<S> branches(std::vector<S> y, const std::vector<char>& cmp)
{   for(size_t k = 0; k < cmp.size(); ++k) { S& z = y[k % y.size()]; if( cmp[k] ) z = z + double(k + 1); else z = z * (1.5 + double(k)); } return y; }
static void core(Gen& gen, Rng& r)
{   const Prog& p = gen.p; size_t m = p.dep.size(); CppAD::ADFun<double> f; const Point& q0 = gen.pts[0]; std::vector<char> rc; std::string hist; const Point* cur = &q0;
    auto ctx = [&]() { return p.text() + " [" + hist + "] " + point_text(q0) + " at " + point_text(*cur); };
    auto record = [&](const Point& q, size_t abort_at, size_t& where)
    {   std::vector<A1> ax, ad, ay; for(double z : q.x) ax.push_back(z); for(double z : q.d) ad.push_back(z);
        CppAD::Independent(ax, abort_at, true, ad); Interp<A1> it(p); it.on_instr = [&](size_t k) { where = k; }; it.start(ax, ad); it.run(ay); where = size_t(-1); rc = it.cmp; ay = branches(ay, rc); f.Dependent(ax, ay); };
    size_t where; record(q0, 0, where); std::vector<char> rec_cmp = rc; std::vector<size_t> cmp_ins; for(size_t k = 0; k < p.ins.size(); ++k) if( p.ins[k].op == I_CMP ) cmp_ins.push_back(k);
    // outcomes at the recording point are those without AD
    { Interp<double> id(p); id(q0.x, q0.d); if( id.cmp != rec_cmp ) { rep().fail("outcome-while-recording", ctx()); return; } rep().count("outcomes", long(rec_cmp.size())); }
    bool opt = false; int steps = r.range(4, 9);
    for(int t = 0; t < steps; ++t)
    {   const Point& q = gen.pts[r.sbelow(gen.pts.size())]; cur = &q; if( p.nd ) f.new_dynamic(q.d);
        Interp<double> id(p); VDb y = id(q.x, q.d); std::vector<size_t> flips; std::set<std::string> dist; for(size_t k = 0; k < rec_cmp.size(); ++k) if( id.cmp[k] != rec_cmp[k] ) { flips.push_back(k); const Instr& s = p.ins[cmp_ins[k]]; dist.insert(fmt("%d %d %d", s.sub, s.a[0], s.a[1])); }
        size_t count = r.sbelow(4); if( r.chance(.3) && ! flips.empty() ) count = 1 + r.sbelow(flips.size()); hist += fmt("%zu,", count); f.compare_change_count(count);
        VDb v = f.Forward(0, q.x); rep().count("forward"); size_t num = f.compare_change_number(), op = f.compare_change_op_index();
        size_t want = count == 0 ? 0 : flips.size(); if( ! flips.empty() && count ) rep().count("with_changes");
        if( opt )
        {   // identical comparisons may have been combined
            if( num > want || (want > 0 && num == 0) ) { rep().fail("number-optimized", fmt("got %zu want %zu ", num, want) + ctx()); return; }
            if( count && num == 0 ) rep().count("zero_changes_opt"); }
        else
        {   if( num != want ) { rep().fail("number", fmt("got %zu want %zu count %zu ", num, want, count) + ctx()); return; }
            if( count > want ? op != 0 : (count && op == 0) ) { rep().fail("op_index", fmt("number %zu count %zu op %zu ", num, count, op) + ctx()); return; } }
        if( count && num == 0 )
        {   // the replay equals the algorithm
            Interp<Alg> ia(p); setcfg(0, 0); auto yy = branches(ia(alg_args({q.x}, p.n), alg_const(q.d)), id.cmp); for(size_t i = 0; i < m; ++i) if( ! check("replay-without-changes", v[i], yy[i], 0, 0, ctx) ) return; }
        // higher orders and several directions do not count again
        if( r.chance(.2) ) { VDb dx(size_t(p.n), 1.0); f.Forward(1, dx); if( f.compare_change_number() != num ) { rep().fail("number-after-first-order", ctx()); return; } }
        if( r.chance(.2) ) { VDb X(size_t(p.n) * 2); for(size_t j = 0; j < size_t(p.n); ++j) { X[2 * j] = q.x[j]; X[2 * j + 1] = .5; } f.Forward(1, X); if( f.compare_change_number() != num ) { rep().fail("number-multiple-orders", fmt("%zu %zu ", num, f.compare_change_number()) + ctx()); return; } rep().count("multi_order"); }
#ifndef NDEBUG
        if( ! opt && op != 0 && r.chance(.5) )
        {   // recording at this point with the abort index stops at that comparison
            size_t expect = cmp_ins[flips[count - 1]]; bool stopped = false; std::vector<char> save = rec_cmp; CppAD::ADFun<double> keep; keep = f;
            try { record(q, op, where); } catch(const cppad_error& e) { if( ! e.known ) throw; stopped = true; A1::abort_recording(); }
            rep().count("abort_index"); f = keep;
            if( ! stopped ) { rep().fail("abort-index-not-reached", ctx()); return; } if( where != expect ) { rep().fail("abort-index-wrong-place", fmt("stopped in instruction %zu want %zu ", where, expect) + ctx()); return; } }
        if( ! opt && op != 0 && r.chance(.2) ) { CppAD::ADFun<double> keep; keep = f; record(q, 0, where); rec_cmp = rc; f.compare_change_count(1); f.Forward(0, q.x); if( f.compare_change_number() ) { rep().fail("changes-at-recording-point", ctx()); return; } rep().count("rerecorded"); f = keep; rec_cmp.assign(rec_cmp.size(), 0); Interp<double> i0(p); i0(q0.x, q0.d); rec_cmp = i0.cmp; }
#endif
        if( ! opt && r.chance(.08) ) { f.optimize(); opt = true; hist += "opt,"; }
        if( r.chance(.1) ) { CppAD::ADFun<double> g; g = f; f.swap(g); hist += "copy,"; if( ! opt && f.compare_change_number() != num ) { rep().fail("number-after-copy", ctx()); return; } } }
    // comparisons that are not recorded are never counted
    if( r.chance(.1) ) { std::vector<A1> ax, ad, ay; for(double z : q0.x) ax.push_back(z); for(double z : q0.d) ad.push_back(z); CppAD::Independent(ax, 0, false, ad); Interp<A1> it(p); it.start(ax, ad); it.run(ay); CppAD::ADFun<double> g; g.Dependent(ax, ay);
        for(auto& q : gen.pts) { if( p.nd ) g.new_dynamic(q.d); g.Forward(0, q.x); if( g.compare_change_number() ) { rep().fail("counted-without-recording", ctx()); return; } } rep().count("record_compare_false"); }
}
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; bool sys = make_case(i, r, m, gp);
    if( ! sys ) { GenCfg g = profile(r, m); g.w_cmp = 8; gp.reset(new Gen(r, g)); gp->make(); }
    note_prog(*gp); Rng r0 = r; shrink_case(*gp, r0, core); core(*gp, r); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
