// C20: constants, dynamic parameters and variables are classified truthfully
#include "../lib/atoms.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; m.print = true; m.atom = .2; m.p_big = .03; m.big = 200; m.max_n = 4; return m; }
enum { CON, DYN, VAR };
template <class S> static int cls(const S& a, const std::function<std::string()>& ctx)
{   bool c = CppAD::Constant(a), d = CppAD::Dynamic(a), p = CppAD::Parameter(a), v = CppAD::Variable(a); rep().count("queries");
    if( int(c) + int(d) + int(v) != 1 || p != (c || d) ) rep().fail("queries-disagree", fmt("Constant %d Dynamic %d Parameter %d Variable %d ", c, d, p, v) + ctx());
    return v ? VAR : (d ? DYN : CON); }
// what each node may depend on: bit 1 independent variables, bit 2 dynamic parameters
struct May {
    std::vector<int> node; std::vector<std::vector<int>> vec; // vec[k][w]: after instruction k
    May(const Prog& p, Atoms* at)
    {   node.assign(size_t(p.nnode), 0); std::vector<int> w(p.vecs.size(), 0);
        for(int j = 0; j < p.n; ++j) node[size_t(j)] = 1; for(int j = 0; j < p.nd; ++j) node[size_t(p.n + j)] = 2;
        for(auto& i : p.ins)
        {   int b = 0; for(int a = 0; a < 4; ++a) if( i.a[a] >= 0 && ! (i.op < B_LAST_ && a == 1 && ! (i.op >= U_LAST_ && form_has_b(i.form))) ) b |= node[size_t(i.a[a])];
            if( i.op == I_LOAD ) { int part = node[size_t(i.a[0])] | w[size_t(i.sub)]; if( part ) { part |= 1; w[size_t(i.sub)] |= part; } b |= part; } // elements that involve dynamic parameters are variables
            if( i.op == I_STORE ) { if( b ) w[size_t(i.sub)] |= b | 1; }
            if( i.op == I_ATOM )
            {   const Prog& q = *p.subs[size_t(i.sub)]; std::string kind = at->a[size_t(i.sub)]->kind(); bool old = kind == "atomic_two" || kind == "chkpoint_one", all = old /* the old interfaces have no dynamic parameters */ || ! q.vecs.empty() || ! q.subs.empty(); auto dep = prog_depend(q);
                for(int k = 0; k < i.nres; ++k) { int c = 0; for(size_t a = 0; a < i.more.size(); ++a) if( all || dep[size_t(k)][a] ) c |= node[size_t(i.more[a])]; if( old && c ) c |= 1; node[size_t(i.ires + k)] = c; } }
            else for(int k = 0; k < i.nres; ++k) node[size_t(i.ires + k)] = b;
            vec.push_back(w); } } };
// values of the nodes at a point, empty if an index is out of range
static std::vector<double> values(const Prog& p, const VDb& x, const VDb& d)
{   Interp<double> it(p); bool in = true; it.on_instr = [&](size_t k) { auto& s = p.ins[k]; if( s.op == I_LOAD || s.op == I_STORE ) { double z = it.at(s.a[0]); if( !(z >= 0 && z < double(p.vecs[size_t(s.sub)].size())) ) { in = false; throw 1; } } };
    try { it(x, d); } catch(int) {} if( ! in ) return {}; return it.node; }
struct Seen { std::vector<std::vector<double>> v; std::vector<size_t> d; // values at the points that have dynamic parameters number d
    Seen(const Gen& g)
    {   for(size_t a = 0; a < g.pts.size(); ++a) for(size_t b = 0; b < g.pts.size(); ++b) { auto u = values(g.p, g.pts[a].x, g.pts[b].d); if( ! u.empty() ) { v.push_back(u); d.push_back(b); } } }
    // the class c promises that the value does not change
    void promise(int c, size_t node, const std::function<std::string()>& ctx, const char* what) const
    {   if( c == VAR ) return; std::map<size_t, double> first;
        for(size_t k = 0; k < v.size(); ++k) { double z = v[k][node]; if( ! std::isfinite(z) ) continue; size_t key = c == DYN ? d[k] : 0; if( ! first.count(key) ) first[key] = z; else { rep().count("unchanged"); if( ! near(first[key], z, 1e-7, 1e-8) ) { rep().fail(fmt("%s-%s-changes", what, c == DYN ? "dynamic" : "constant"), fmt("node %zu has values %.17g and %.17g ", node, first[key], z) + ctx()); return; } } } } };
static void may_be(const char* what, int c, int b, size_t node, const std::function<std::string()>& ctx)
{   int top = (b & 1) ? VAR : (b ? DYN : CON); rep().count(c == VAR ? "variables" : (c == DYN ? "dynamics" : "constants")); if( c < top ) rep().count("less_than_structural");
    if( c > top ) rep().fail(fmt("%s-%s-is-%s", what, top == CON ? "constant" : "dynamic", c == VAR ? "variable" : "dynamic"), fmt("node %zu ", node) + ctx()); }
template <class B> static void all_constant(const char* key, const std::vector<AD<B>>& v, const std::function<std::string()>& ctx)
{   for(auto& a : v) { if( cls(a, ctx) != CON ) { rep().fail(key, ctx()); return; } rep().count("stale"); } }
static void body(long i, Rng& r)
{   static Mix m = mix(), m2 = [] { Mix k = mix(); k.atom = 0; return k; }();
    bool two = i % 4 == 3; static std::vector<A1> stale; static std::vector<A2> stale2; stale.clear(); stale2.clear();
    int rounds = r.range(1, 4); std::string hist; static std::vector<std::unique_ptr<Gen>> keep; keep.clear();
    for(int round = 0; round < rounds; ++round)
    {   std::unique_ptr<Gen> gp; if( round == 0 ) make_case(i, r, two ? m2 : m, gp); else { gp.reset(new Gen(r, profile(r, two ? m2 : m))); gp->make(); }
        Gen& gen = *gp; const Prog& p = gen.p; keep.emplace_back(std::move(gp)); note_prog(gen);
        Atoms atoms(p, r); May may(p, &atoms); Seen seen(gen); const Point& q = gen.pts[0]; size_t n = size_t(p.n), nd = size_t(p.nd), md = p.dep.size();
        auto ctx = [&]() { return fmt("round %d level %d ", round, two ? 2 : 1) + p.text() + " " + point_text(q); };
        all_constant("old-value-before", stale, ctx); all_constant("old-value-before", stale2, ctx);
        std::vector<A1> ax, ad, ay; for(double z : q.x) ax.push_back(z); for(double z : q.d) ad.push_back(z);
        all_constant("not-recording", ax, ctx);
        int begin = r.below(3); if( nd ) begin = 2; if( begin == 0 ) CppAD::Independent(ax); else if( begin == 1 ) CppAD::Independent(ax, size_t(0), true); else CppAD::Independent(ax, size_t(0), r.chance(.5), ad);
        struct Abort { ~Abort() { A2::abort_recording(); A1::abort_recording(); } } ab;
        std::vector<A1> nodes; // level one nodes that are checked
        std::vector<int> last;
        auto check_all = [&](auto& it, size_t k, bool all, int level)
        {   size_t N = it.node.size(); last.resize(std::max(N, last.size()), -1);
            auto one = [&](size_t a) { int c = cls(it.node[a], ctx); if( last[a] >= 0 && last[a] != c ) rep().fail("class-changed", fmt("node %zu from %d to %d ", a, last[a], c) + ctx()); if( last[a] < 0 ) { may_be(level == 2 ? "level2" : "value", c, may.node[a], a, ctx); seen.promise(c, a, ctx, level == 2 ? "level2" : "value"); } last[a] = c;
                auto b = it.node[a]; auto u = std::move(b); if( cls(u, ctx) != c ) rep().fail("copy-class", ctx()); u = 2.; if( cls(u, ctx) != CON ) rep().fail("assigned-constant", ctx()); if( cls(CppAD::Var2Par(it.node[a]), ctx) != CON || val(CppAD::Var2Par(it.node[a])) != val(it.node[a]) ) if( ! std::isnan(val(it.node[a])) ) rep().fail("var2par", ctx());
                if( CppAD::IdenticalCon(it.node[a]) && c != CON ) rep().fail("identical-constant", ctx()); };
            if( all ) for(size_t a = 0; a < N; ++a) one(a); else { for(size_t a = 0; a < N; ++a) if( last[a] < 0 ) one(a); if( N ) one(r.sbelow(N)); }
            for(size_t w = 0; w < p.vecs.size(); ++w) { auto& v = *it.vec[w].v; bool c = CppAD::Constant(v), d = CppAD::Dynamic(v), pa = CppAD::Parameter(v), va = CppAD::Variable(v); bool top = k > 0 && may.vec[k - 1][w]; rep().count("vecad"); if( d || pa != c || va == c || (va && ! top) ) rep().fail("vecad-class", fmt("Constant %d Dynamic %d Parameter %d Variable %d may be variable %d ", c, d, pa, va, top) + ctx()); }
            if( r.chance(.1) && ! stale.empty() ) { A1& s = stale[r.sbelow(stale.size())]; A1& t = stale[r.sbelow(stale.size())]; if( cls(s, ctx) != CON || cls(A1(s + t), ctx) != CON || cls(A1(s * t), ctx) != CON || cls(A1(sin(s)), ctx) != CON ) rep().fail("old-value-during", ctx()); rep().count("stale"); }
            if( r.chance(.1) && ! stale2.empty() ) { A2& s = stale2[r.sbelow(stale2.size())]; if( cls(s, ctx) != CON || cls(A2(s + 1.), ctx) != CON ) rep().fail("old-value-during", ctx()); } };
        if( ! two )
        {   for(auto& a : ax) if( cls(a, ctx) != VAR ) rep().fail("independent-class", ctx()); for(auto& a : ad) if( cls(a, ctx) != DYN ) rep().fail("dynamic-class", ctx());
            Interp<A1> it(p); atoms.attach(it); it.on_instr = [&](size_t k) { check_all(it, k, k % 16 == 15, 1); }; it.start(ax, ad);
            it.run(ay); check_all(it, p.ins.size(), true, 1); nodes = it.node;
        }
        else
        {   // a recording of the second level inside: its values have a class for every level
            std::vector<A2> bx, bd, by; for(auto& a : ax) bx.push_back(a); for(auto& a : ad) bd.push_back(a); all_constant("level2-not-recording", bx, ctx); all_constant("level2-not-recording", bd, ctx);
            if( nd == 0 ) CppAD::Independent(bx); else CppAD::Independent(bx, size_t(0), true, bd);
            Interp<A2> it(p); it.on_instr = [&](size_t k) { check_all(it, k, false, 2); }; it.start(bx, bd); it.run(by); check_all(it, p.ins.size(), true, 2); rep().count("level2");
            for(size_t a = 0; a < it.node.size(); ++a) { A1 v = CppAD::Value(CppAD::Var2Par(it.node[a])); int c = cls(v, ctx); may_be("level1-of-2", c, may.node[a], a, ctx); if( p.vecs.empty() ) seen.promise(c, a, ctx, "level1-of-2"); nodes.push_back(v); }
            CppAD::ADFun<A1> f; if( r.chance(.5) ) f.Dependent(by); else f.Dependent(bx, by); all_constant("level2-after", it.node, ctx); all_constant("level2-after", bx, ctx); all_constant("level2-after", bd, ctx);
            for(size_t a = 0; a < md; ++a) if( f.Parameter(a) != (last[size_t(p.dep[a])] != VAR) ) rep().fail("Parameter-level2", fmt("result %zu ", a) + ctx());
            for(auto& v : nodes) { if( ! r.chance(.2) ) continue; int c = cls(v, ctx); (void) c; } // level one is still being recorded
            for(size_t a = 0; a < nodes.size(); ++a) { int c = cls(nodes[a], ctx); may_be("level1-after-2", c, may.node[a], a, ctx); }
            // evaluating the function of the second level while recording the first
            std::vector<A1> fy = f.Forward(0, ax); for(size_t a = 0; a < md; ++a) { int c = cls(fy[a], ctx); size_t node = size_t(p.dep[a]); may_be("evaluated", c, may.node[node] & 1 ? 1 : may.node[node], node, ctx); }
            ay.clear(); for(int a : p.dep) ay.push_back(nodes[size_t(a)]); stale2.insert(stale2.end(), it.node.begin(), it.node.end()); stale2.insert(stale2.end(), bx.begin(), bx.end());
        }
        std::vector<int> yc; for(auto& a : ay) yc.push_back(cls(a, ctx));
        stale.insert(stale.end(), nodes.begin(), nodes.end()); stale.insert(stale.end(), ax.begin(), ax.end()); stale.insert(stale.end(), ad.begin(), ad.end()); stale.insert(stale.end(), ay.begin(), ay.end());
        if( r.chance(.15) ) { A1::abort_recording(); rep().count("aborted"); all_constant("after-abort", nodes, ctx); all_constant("after-abort", ax, ctx); all_constant("after-abort", ad, ctx); all_constant("after-abort", ay, ctx); continue; }
        CppAD::ADFun<double> f; if( r.chance(.4) ) f.Dependent(ay); else if( r.chance(.5) ) f.Dependent(ax, ay); else { bool dy = nd > 0; if( dy ) f.Dependent(ax, ay); else { CppAD::ADFun<double> g(ax, ay); f = g; } }
        all_constant("after", nodes, ctx); all_constant("after", ax, ctx); all_constant("after", ad, ctx); all_constant("after", ay, ctx);
        for(size_t a = 0; a < md; ++a) if( f.Parameter(a) != (yc[a] != VAR) ) rep().fail("Parameter", fmt("result %zu ", a) + ctx());
        bool opt = r.chance(.4); if( opt ) { f.optimize(); rep().count("optimize"); }
        std::vector<bool> par; bool any = false; for(size_t a = 0; a < md; ++a) { par.push_back(f.Parameter(a)); any |= par[a]; if( ! par[a] && yc[a] != VAR ) rep().fail("Parameter-lost-by-optimize", fmt("result %zu ", a) + ctx()); }
        if( ! any ) continue;
        f.check_for_nan(false); std::map<std::pair<size_t, size_t>, double> val0;
        for(size_t pt = 0; pt < gen.pts.size(); ++pt)
        {   const Point& u = gen.pts[pt]; if( nd ) f.new_dynamic(u.d); int Q = r.range(1, 3); auto xc = taylor_in(r, u.x, Q); f.Forward(0, u.x);
            for(int k = 1; k <= Q; ++k) { VDb y = f.Forward(size_t(k), xc[size_t(k)]); for(size_t a = 0; a < md; ++a) if( par[a] ) { rep().count("zero_derivatives"); if( y[a] != 0 ) rep().fail("parameter-derivative", fmt("result %zu order %d is %.17g ", a, k, y[a]) + ctx()); } }
            for(size_t a = 0; a < md; ++a) if( par[a] )
            {   VDb w(md, 0.0); w[a] = 1; VDb dw = f.Reverse(size_t(Q) + 1, w); for(double z : dw) { rep().count("zero_derivatives"); if( z != 0 ) rep().fail("parameter-reverse", fmt("result %zu is %.17g ", a, z) + ctx()); } } 
            VDb y = f.Forward(0, u.x); if( ! two || p.vecs.empty() ) for(size_t a = 0; a < md; ++a) if( par[a] ) seen.promise(yc[a] == CON ? CON : DYN, size_t(p.dep[a]), ctx, "result");
            CppAD::sparse_rc<std::vector<size_t>> in(n, n, n), o; for(size_t j = 0; j < n; ++j) in.set(j, j, j); f.for_jac_sparsity(in, false, r.chance(.5), r.chance(.5), o); for(size_t k = 0; k < o.nnz(); ++k) if( par[o.row()[k]] ) rep().fail("parameter-pattern", fmt("result %zu ", o.row()[k]) + ctx()); rep().count("patterns");
        }
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
