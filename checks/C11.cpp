// C11: exported graphs and JSON describe the same function
#include "../lib/graph.hpp"
#include <algorithm>
using namespace vf;
static Mix mix() { Mix m; m.vec = false; m.cmp = true; m.print = true; m.atom = .15; m.max_n = 5; return m; }
static Mix mixg() { Mix m; m.vec = false; m.cmp = true; m.print = true; m.max_n = 4; m.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW, B_AZMUL}; return m; }
static std::vector<std::pair<std::string, double>> parse(const std::string& s)
{   std::vector<std::pair<std::string, double>> r; size_t k = 0; while( k < s.size() ) { size_t c = s.find(':', k), e = s.find(';', k); if( c == std::string::npos || e == std::string::npos ) { r.push_back({"?" + s.substr(k), 0}); break; } r.push_back({s.substr(k, c - k), atof(s.substr(c + 1, e - c - 1).c_str())}); k = e + 1; } return r; }
static bool same_print(const std::string& a, const std::string& b)
{   auto p = parse(a), q = parse(b); if( p.size() != q.size() ) return false; for(size_t k = 0; k < p.size(); ++k) if( p[k].first != q[k].first || ! near(p[k].second, q[k].second, 1e-5, 1e-8) ) return false; return true; }
static bool same_graph(const Graph& a, const Graph& b)
{   auto text = [](const Graph& g) { std::string s = g.function_name_get() + fmt("|%zu %zu|", g.n_dynamic_ind_get(), g.n_variable_ind_get()); for(size_t i = 0; i < g.constant_vec_size(); ++i) s += fmt("%.17g ", g.constant_vec_get(i));
        for(auto it = g.begin(); it != gend(g); ++it) { auto q = *it; s += op_json_name(q.op_enum); s += fmt("(%zu;", q.n_result); if( q.op_enum == atom4_graph_op ) s += fmt("id%zu;", q.call_id); for(size_t k : *q.str_index_ptr) s += (q.op_enum == discrete_graph_op ? g.discrete_name_vec_get(k) : q.op_enum == print_graph_op ? g.print_text_vec_get(k) : g.atomic_name_vec_get(k)) + ","; for(size_t k : *q.arg_node_ptr) s += fmt("%zu ", k); s += ")"; }
        for(size_t i = 0; i < g.dependent_vec_size(); ++i) s += fmt("y%zu ", g.dependent_vec_get(i)); return s; };
    return text(a) == text(b); }
// the program with its independent variables and dynamic parameters in another order
static Prog remap(const Prog& p, const std::vector<int>& newx, const std::vector<int>& newd)
{   Prog q = p; q.n = int(newx.size()); q.nd = int(newd.size()); std::vector<int> m(size_t(p.nnode)); for(size_t k = 0; k < m.size(); ++k) m[k] = int(k);
    for(size_t k = 0; k < newx.size(); ++k) m[size_t(newx[k])] = int(k); for(size_t k = 0; k < newd.size(); ++k) m[size_t(newd[k])] = int(newx.size() + k);
    for(auto& i : q.ins) { for(int& a : i.a) if( a >= 0 && ! (i.op == I_LOAD && &a == &i.a[1]) ) a = m[size_t(a)]; for(int& a : i.more) a = m[size_t(a)]; } for(int& d : q.dep) d = m[size_t(d)]; return q; }
typedef CppAD::ADFun<double> Fun;
// values, derivatives, printing and comparison counts of g against the reference calculus of p (and f when it is given)
static bool judge(const std::string& key, const Prog& p, Fun* f, Fun& g, const Point& q, Rng& r, bool no_cmp, bool no_print, bool optimized, const std::string& printed, long changes, const std::function<std::string()>& ctx0)
{   auto ctx = [&]() { return ctx0() + " " + point_text(q); }; size_t mm = p.dep.size();
    if( g.Domain() != size_t(p.n) || g.Range() != mm || g.size_dyn_ind() != size_t(p.nd) ) { rep().fail(key + ":size", ctx()); return false; }
    if( p.nd ) g.new_dynamic(q.d);
    int Q = r.range(1, 3); auto xc = taylor_in(r, q.x, Q); auto want = alg_run(p, xc, q.d, true);
    std::ostringstream sg; VDb z = g.Forward(0, q.x, sg); long cg = long(g.compare_change_number()); std::string text = printed;
    if( f ) { if( p.nd ) f->new_dynamic(q.d); std::ostringstream so; f->Forward(0, q.x, so); text = so.str(); changes = long(f->compare_change_number()); }
    if( ! no_cmp && ! optimized && cg != changes ) { rep().fail(key + ":compare-change", fmt("%ld expected %ld ", cg, changes) + ctx()); return false; }
    if( ! no_cmp && optimized && (cg > changes || (cg == 0 && changes > 0)) ) { rep().fail(key + ":compare-change", fmt("%ld expected %ld ", cg, changes) + ctx()); return false; }
    if( no_cmp && cg ) { rep().fail(key + ":compare-not-removed", ctx()); return false; }
    if( no_print ? ! sg.str().empty() : ! same_print(sg.str(), text) ) { rep().fail(key + ":print", sg.str() + " expected " + text + " " + ctx()); return false; }
    if( ! text.empty() ) rep().count("printed"); if( changes ) rep().count("with_changes");
    bool ok = true;
    for(size_t a = 0; a < mm && ok; ++a) ok = check(key + ":value", z[a], want[a], 0, 0, ctx);
    for(int k = 1; k <= Q && ok; ++k) { z = g.Forward(size_t(k), xc[size_t(k)]); for(size_t a = 0; a < mm && ok; ++a) ok = check(key + fmt(":order%d", k), z[a], want[a], k, 0, ctx); }
    if( ! ok ) return false;
    int qq = r.range(1, Q + 1); VDb w(mm * size_t(qq)); for(double& t : w) t = r.chance(.3) ? 0 : r.uni(-1, 1);
    VDb dw = g.Reverse(size_t(qq), w);
    for(size_t jj = 0; jj < size_t(p.n); ++jj) for(int l = 0; l < qq; ++l)
    {   Sum s; for(size_t a = 0; a < mm; ++a) for(int k = l; k < qq; ++k) s.add(w[a * size_t(qq) + size_t(k)], want[a], k - l, int(jj) + 1);
        if( ! check_sum(key + ":reverse", dw[jj * size_t(qq) + size_t(l)], s, ctx) ) return false; }
    return true; }
static bool judge_graph(const std::string& key, const Prog& p, const Graph& g, const Point& q, const std::function<std::string()>& ctx0)
{   auto ctx = [&]() { return ctx0() + " " + point_text(q) + " graph " + graph_text(g); }; std::vector<VDb> xc(1, q.x); auto want = alg_run(p, xc, q.d, false);
    GraphValue v = eval_graph(g, q.d, q.x); if( ! v.error.empty() || v.y.size() != p.dep.size() ) { rep().fail(key + ":invalid", v.error + " " + ctx()); return false; }
    for(size_t a = 0; a < v.y.size(); ++a) if( ! check(key + ":value", v.y[a], want[a], 0, 0, ctx) ) return false;
    rep().count("graph_evaluated"); return true; }
static std::string rand_name(Rng& r) { static const char c[] = "abcXYZ019_ .-:,[]{}"; std::string s; int n = r.range(1, 12); for(int k = 0; k < n; ++k) s += c[r.below(int(sizeof(c)) - 1)]; return s; }
template <class F> static bool known(const F& f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
// a program recorded with CppAD, converted any number of times
static void converted(Gen& gen, Rng& r)
{   const Prog& p = gen.p; std::string txt = p.text(); int mask = 1 | 2 | 16;
    Atoms atoms(p, r, mask); Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms.attach(it); };
    Fun f, g; bool rc = r.chance(.9); rec(p, gen.pts[0], f, 0, rc); g = f; std::string name = r.chance(.5) ? rand_name(r) : ""; if( name != "" ) g.function_name_set(name);
    std::string all; bool no_cmp = false, no_print = false, opt = false; Graph go; auto ctx = [&]() { return all + " " + txt; };
    int steps = r.range(1, 4); bool any = false;
    for(int s = 0; s < steps || ! any; ++s)
    {   if( r.chance(.3) )
        {   std::string o; if( r.chance(.4) ) o += "no_conditional_skip "; if( r.chance(.2) ) { o += "no_compare_op "; no_cmp = true; } if( r.chance(.2) ) { o += "no_print_for_op "; no_print = true; } if( r.chance(.25) ) o += "no_cumulative_sum_op "; if( r.chance(.2) ) o += fmt("collision_limit=%d ", r.range(1, 20));
            all += " optimize(" + o + ")"; Fun keep; keep = g; try { g.optimize(o); } catch(const cppad_error& e) { if( e.msg.find("Error during check") == std::string::npos ) throw; rep().count("optimize_self_check_failed"); g = keep; g.optimize(o); } opt = true; rep().count("optimize"); }
        int how = r.below(4); any = true; std::string before; Graph g1; Graph& gr = r.chance(.5) ? go : g1; // objects that held another graph
        if( r.chance(.2) ) { Fun other; std::vector<A1> ax(1); ax[0] = .5; CppAD::Independent(ax); std::vector<A1> ay(2); ay[0] = 7.25 * ax[0]; ay[1] = sin(ax[0]) + 3.; other.Dependent(ax, ay); other.to_graph(gr); }
        Fun h; Fun& t = r.chance(.5) ? g : h; // from_graph into a function that held another one
        if( how == 0 ) { all += " graph"; g.to_graph(gr); for(auto& q : gen.pts) if( ! judge_graph("to_graph", p, gr, q, ctx) ) return; if( gr.function_name_get() != name ) rep().fail("to_graph:name", ctx()); t.from_graph(gr); rep().count("graph"); }
        else if( how == 1 ) { all += " json"; std::string j = g.to_json(); t.from_json(j); rep().count("json"); }
        else if( how == 2 ) { all += " json2"; std::string j = g.to_json(); Fun k; k.from_json(j); Graph a, b; g.to_graph(a); t.from_json(j); Fun u; u = t; u.to_graph(b); for(auto& q : gen.pts) if( ! judge_graph("json2", p, b, q, ctx) ) return; rep().count("json"); }
        else { all += " text"; g.to_graph(gr); std::string j = json_join(json_tokens(gr, r), r); t.from_json(j); rep().count("own_text"); }
        if( &t == &h ) { if( r.chance(.5) ) g = h; else g.swap(h); }
        if( g.function_name_get() != name ) { rep().fail("name", "'" + g.function_name_get() + "' expected '" + name + "' " + ctx()); return; }
        if( r.chance(.1) ) { Fun c; c = g; g = std::move(c); } }
    for(size_t k = 0; k < gen.pts.size(); ++k) if( ! judge("converted", p, &f, g, gen.pts[k], r, no_cmp, no_print, opt, "", 0, ctx) ) return;
    // a function with an atomic function that was destroyed
    if( ! p.subs.empty() && r.chance(.3) ) { Graph gr; g.to_graph(gr); if( gr.atomic_name_vec_size() > 0 ) { { std::vector<std::unique_ptr<AtomBase>> dead; dead.swap(atoms.a); } rep().count("destroyed_atom"); Fun t; if( ! known([&]() { t.from_graph(gr); }) ) rep().fail("destroyed-atom", ctx()); } }
}
// a graph written down by hand, directly and as JSON, perhaps exchanging variables and dynamic parameters
static void described(Gen& gen, Rng& r)
{   const Prog& p = gen.p; Graph gr; if( ! prog_to_graph(p, gen, r, gr) ) { rep().count("not_translated"); return; } std::string name = rand_name(r); gr.function_name_set(name); auto ctx = [&]() { return "described " + p.text() + " graph " + graph_text(gr); };
    int how = r.below(3); Fun g; if( r.chance(.3) ) { std::vector<A1> ax(2); ax[0] = .5; ax[1] = 1; CppAD::Independent(ax); std::vector<A1> ay(1); ay[0] = ax[0] * ax[1]; g.Dependent(ax, ay); }
    std::vector<int> nx, nd; for(int k = 0; k < p.n; ++k) nx.push_back(k); for(int k = 0; k < p.nd; ++k) nd.push_back(p.n + k);
    if( how == 0 ) g.from_graph(gr); else if( how == 1 ) { std::string j = json_join(json_tokens(gr, r), r); g.from_json(j); if( r.chance(.3) ) { Graph b; g.to_graph(b); } }
    else
    {   CppAD::vector<bool> d2v(size_t(p.nd)), v2d(size_t(p.n)); nx.clear(); nd.clear(); for(int k = 0; k < p.nd; ++k) { d2v[size_t(k)] = r.chance(.5); (d2v[size_t(k)] ? nx : nd).push_back(p.n + k); }
        for(int k = 0; k < p.n; ++k) { v2d[size_t(k)] = r.chance(.4); if( nx.empty() && k == p.n - 1 ) v2d[size_t(k)] = false; (v2d[size_t(k)] ? nd : nx).push_back(k); }
        g.from_graph(gr, d2v, v2d); rep().count("remapped"); }
    Prog q = remap(p, nx, nd); if( g.function_name_get() != name ) rep().fail("described:name", ctx());
    for(auto& pt : gen.pts)
    {   GraphValue v = eval_graph(gr, pt.d, pt.x); if( ! v.error.empty() ) { rep().fail("described:evaluator", v.error); return; }
        auto at = [&](int k) { return k < p.n ? pt.x[size_t(k)] : pt.d[size_t(k - p.n)]; }; Point u; for(int k : nx) u.x.push_back(at(k)); for(int k : nd) u.d.push_back(at(k));
        Rng r2 = r; if( ! judge(how == 0 ? "from_graph" : how == 1 ? "from_json" : "remap", q, nullptr, g, u, r2, false, false, false, v.printed, v.changes, ctx) ) return; }
    rep().count("described");
    if( r.chance(.3) ) { Graph b, c; g.to_graph(b); Fun t; t.from_graph(b); t.to_graph(c); std::string j = t.to_json(); Fun u; u.from_json(j); Graph d; u.to_graph(d); auto& pt = gen.pts[0]; auto at = [&](int k) { return k < p.n ? pt.x[size_t(k)] : pt.d[size_t(k - p.n)]; }; Point z; for(int k : nx) z.x.push_back(at(k)); for(int k : nd) z.d.push_back(at(k));
        if( judge_graph("again", q, c, z, ctx) && judge_graph("again", q, d, z, ctx) ) rep().count("again"); }
}
static void probes()
{   // text, names and constants of every finite value survive
    std::vector<A1> ax(1); ax[0] = .5; CppAD::Independent(ax); std::vector<A1> ay; static const double c[] = {1e-310, 4.9406564584124654e-324, 1.7976931348623157e308, .1, 1. / 3, -0., 1e23, -1e-23, 123456789012345678., 5e-1, 2.2250738585072014e-308, 1e22, 9007199254740993.};
    for(double z : c) ay.push_back(ax[0] * 0. + z), ay.push_back(A1(z) + 0 * ax[0]); Fun f; for(double z : c) ay.push_back(z); f.Dependent(ax, ay);
    std::string j = f.to_json(); Fun g; g.from_json(j); VDb x(1, .25), a = f.Forward(0, x), b = g.Forward(0, x); for(size_t k = 0; k < a.size(); ++k) if( a[k] != b[k] || std::signbit(a[k]) != std::signbit(b[k]) ) rep().fail("constant", fmt("%.17g became %.17g", a[k], b[k]));
    for(const char* t : {"it's", "a 'b' c", "'"})
    {   f.function_name_set(t); std::string k = f.to_json(); Fun h; h.from_json(k); if( h.function_name_get() != t ) rep().fail("quote-in-name", t);
        std::vector<A1> bx(1); bx[0] = -1; CppAD::Independent(bx); CppAD::PrintFor(bx[0], t, bx[0], t); std::vector<A1> by(1); by[0] = bx[0]; Fun p; p.Dependent(bx, by); k = p.to_json(); h.from_json(k); std::ostringstream s1, s2; VDb y(1, -2.); p.Forward(0, y, s1); h.Forward(0, y, s2); if( s1.str() != s2.str() ) rep().fail("quote-in-print", s2.str()); }
    // two atomic functions with the same name one after the other
    for(int k = 0; k < 2; ++k)
    {   Prog q; q.n = 1; q.nnode = 2; Instr i; i.op = U_SIN; i.a[0] = 0; i.ires = 1; i.nres = 1; q.ins.push_back(i); q.dep.push_back(1); Engine e(q); CppAD::chkpoint_two<double> ck(e.h(), "vf_same_name", true, true, true, false);
        CppAD::vector<A1> bx(1), by(1); bx[0] = .5; CppAD::Independent(bx); ck(bx, by); Fun p(bx, by), h; std::string k2 = p.to_json(); h.from_json(k2); VDb y(1, .25); if( h.Forward(0, y)[0] != std::sin(.25) ) rep().fail("same-name", ""); }
    rep().count("probes");
}
static void body(long i, Rng& r)
{   static Mix m = mix(), mg = mixg(); long j = i % 10000000; if( j == 0 ) { for(int k = 0; k < 3; ++k) { A1 t = .6; Hook<A1>::disc(k, t); } }
    if( j % 5000 == 4999 ) { probes(); return; }
    contract_relaxed() = true; prog_case(j % 2 ? j / 2 + i - j : (j / 2) + i - j, r, j % 2 ? mg : m, j % 2 ? described : converted);
}
int main(int argc, char** argv) { { for(int k = 0; k < 3; ++k) { A1 t = .6; Hook<A1>::disc(k, t); } } return harness_main(argc, argv, body); }
