// C01: replay computes the user's algorithm
#include "../lib/work.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; m.p_big = .02; m.big = 400; m.print = false; m.max_n = 6; m.max_m = 6; return m; }
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp;
    long j = i % 10000000; bool huge = (j % 2500) == 2499;
    if( huge )
    {   GenCfg g = profile(r, m); g.n = r.range(1, 8); g.m = 8; g.n_ins = r.range(20000, 45000); g.maxval = 10; if( g.w_vec > 0 ) g.w_vec = .5; gp.reset(new Gen(r, g)); gp->make(); rep().count("huge"); }
    else make_case(i, r, m, gp);
    Gen& gen = *gp; const Prog& p = gen.p;
    if( huge ) { rep().sig(mix64(uint64_t(i))); rep().count("operators", long(p.ins.size())); } else note_prog(gen);
    std::string txt = huge ? fmt("%d operators", int(p.ins.size())) : p.text();
    // recording, with the values of every AD object observed while recording
    std::vector<A1> ax, ad, ay; for(double z : gen.pts[0].x) ax.push_back(z); for(double z : gen.pts[0].d) ad.push_back(z);
    bool rc = r.chance(.7); if( p.nd || ! rc || r.chance(.3) ) CppAD::Independent(ax, 0, rc, ad); else CppAD::Independent(ax);
    Interp<A1> it(p); it.start(ax, ad);
    setcfg(0, 0); std::vector<Alg> dx, dd; for(double z : gen.pts[0].x) dx.push_back(Alg(z)); for(double z : gen.pts[0].d) dd.push_back(Alg(z));
    Interp<Alg> id(p); id.start(dx, dd);
    for(size_t k = 0; k < p.ins.size(); ++k)
    {   const Instr& in = p.ins[k]; size_t n0 = it.node.size(); it.exec(in); id.exec(in);
        for(size_t q = n0; q < it.node.size(); ++q) if( ! check("while-recording", val(it.node[q]), id.node[q], 0, 0, [&]() { return fmt("node %zu ", q) + txt + point_text(gen.pts[0]); }) ) break;
        if( in.op == I_CMP && it.cmp.back() != id.cmp.back() ) rep().fail("comparison", fmt("instruction %zu ", k) + txt + point_text(gen.pts[0]));
    }
    for(int d : p.dep) ay.push_back(it.node[size_t(d)]);
    CppAD::ADFun<double> f; int how = r.below(3);
    if( how == 0 ) f.Dependent(ax, ay); else if( how == 1 ) f.Dependent(ay); else { CppAD::ADFun<double> g(ax, ay); f = g; }
    for(size_t q = 0; q < ay.size(); ++q) check("dependent", CppAD::Value(ay[q]), id.node[size_t(p.dep[q])], 0, 0, [&]() { return txt; });
    for(int rep_ = 0; rep_ < 2; ++rep_)
    for(size_t pt = 0; pt < gen.pts.size(); ++pt)
    {   const Point& q = gen.pts[pt]; if( p.nd ) f.new_dynamic(q.d);
        VDb y = f.Forward(0, q.x); auto want = alg_run(p, {q.x}, q.d, false);
        if( y.size() != p.dep.size() ) { rep().fail("result-size", txt); continue; }
        for(size_t a = 0; a < y.size(); ++a) if( ! check("replay", y[a], want[a], 0, 0, [&]() { return txt + point_text(q); }) ) break;
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
