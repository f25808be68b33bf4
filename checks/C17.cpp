// C17: the branch of a conditional expression that is not selected has no influence, even when it is infinite or nan
#include "../lib/work.hpp"
using namespace vf;
typedef std::vector<double> VD;
// builds programs whose conditionals protect operations that are not defined at some of the points
struct Danger {
    Rng& r; Gen g; std::vector<int> safe;
    Danger(Rng& rr, const GenCfg& c) : r(rr), g(rr, c) {}
    int emit(Instr i) { g.emit(i, true); return g.last(); }
    int con(double c) { return emit(g.mk(I_CONST, -1, -1, 0, c)); }
    int bin(int op, int a, int b) { return emit(g.mk(op, a, b, 0)); }
    int binc(int op, int a, double c, int form = 1) { return emit(g.mk(op, a, -1, form, c)); }
    int un(int op, int a) { return emit(g.mk(op, a)); }
    int pick() { return safe[r.sbelow(safe.size())]; }
    bool fin(int k, double lim = 50) { return g.all(k, [=](double x) { return std::fabs(x) <= lim; }); }
    // add a node to the safe ones when its value and everything it was built of is moderate
    void keep(int k) { safe.push_back(k); }
    // defined for d > 0 (with |d| moderate), infinite, nan or without derivative for d <= 0
    int pos_only(int d)
    {   switch(r.below(9))
        {   case 0: return un(U_LOG, d); case 1: return un(U_SQRT, d); case 2: return binc(B_POW, d, 1.5); case 3: { int k = binc(B_DIV, d, 1.0, 2); return un(U_SQRT, k); }
            case 4: return un(U_ACOSH, binc(B_ADD, d, 1.0)); case 5: return un(U_EXP, un(U_NEG, un(U_LOG, d))); case 6: return un(U_LOG10, d);
            case 7: { int b = pick(); return bin(B_POW, d, un(U_TANH, b)); } default: { int k = un(U_SQRT, d); return bin(B_DIV, pick(), k); } } }
    // not defined at d == 0 only
    int nonzero_only(int d)
    {   switch(r.below(6)) { case 0: return bin(B_DIV, un(U_SIN, d), d); case 1: return binc(B_DIV, d, 1.0, 2); case 2: return bin(B_DIV, pick(), d); case 3: { int k = bin(B_MUL, d, d); return un(U_LOG, k); } case 4: return emit(g.mk(I_IPOW, d, -1, 0, -2)); default: { int k = bin(B_MUL, d, d); return un(U_SQRT, k); } } }
    // some more harmless operations, applied to a node that may be undefined
    int chain(int k)
    {   int z = r.below(4);
        while( z-- ) switch(r.below(8)) { case 0: k = un(U_SIN, k); break; case 1: k = bin(B_ADD, k, pick()); break; case 2: k = bin(B_MUL, pick(), k); break; case 3: k = bin(B_SUB, pick(), k); break; case 4: k = binc(B_MUL, k, .5, r.range(1, 2)); break; case 5: k = un(U_TANH, k); break; case 6: k = un(U_NEG, k); break; default: k = binc(B_SUB, k, r.uni(-1, 1), r.range(1, 2)); }
        return k; }
    bool one()
    {   // difference that decides; its sign is well determined at every point
        int a = pick(), b = -1, d; double c = 0; int kind = r.below(4);
        if( kind == 0 ) { b = pick(); if( a == b ) return false; d = bin(B_SUB, a, b); } else { c = r.chance(.5) ? 0 : double(r.range(-2, 2)); if( g.r.chance(.5) && kind == 1 ) c = g.v(r.below(g.np()), a); d = binc(B_SUB, a, c); b = con(c); }
        bool ex = g.exact[size_t(a)] && (kind != 0 || g.exact[size_t(b)]), tie = false, tiny = false;
        for(int k = 0; k < g.np(); ++k) { double l = g.v(k, a), q = kind == 0 ? g.v(k, b) : c; if( l == q && ex ) tie = true; else if( std::fabs(l - q) < .05 || std::fabs(l - q) > 20 ) tiny = true; }
        if( tiny ) return false;
        int neg = un(U_NEG, d), rel, t, f, mode = r.below(6);
        if( mode == 0 )
        {   // undefined only where equal
            int z = chain(nonzero_only(d)), s = chain(pick()); if( r.chance(.5) ) { rel = R_EQ; t = s; f = z; } else if( tie && r.chance(.5) ) { rel = r.chance(.5) ? R_LE : R_GE; t = s; f = chain(pos_only(rel == R_LE ? d : neg)); } else { rel = R_EQ; t = s; f = z; } }
        else
        {   // strict: selected side is d > 0 (or < 0); the other side may be anything safe, or defined only where d <= 0 when there is no tie
            rel = r.below(4) == 0 ? R_GT : r.below(3) == 0 ? R_LT : r.chance(.5) ? R_LE : R_GE; bool pos_true = rel == R_GT || rel == R_GE, strict = rel == R_GT || rel == R_LT;
            int dt = pos_true ? d : neg, df = pos_true ? neg : d; // positive where true (false), zero at a tie
            bool dang_t = strict || ! tie, dang_f = ! strict || ! tie; if( dang_t && dang_f && r.chance(.4) ) (r.chance(.5) ? dang_t : dang_f) = false;
            if( r.chance(.25) )
            {   // overflow instead of undefined
                t = dang_t ? chain(un(U_EXP, binc(B_MUL, un(U_NEG, dt), 2000.0))) : chain(pick()); f = dang_f ? chain(un(U_EXP, binc(B_MUL, un(U_NEG, df), 2000.0))) : chain(pick()); }
            else { t = dang_t ? chain(pos_only(dt)) : chain(pick()); f = dang_f ? chain(pos_only(df)) : chain(pick()); } }
        int res;
        if( mode == 5 && (rel == R_GT || rel == R_LT) )
        {   // absolute zero multiply by an indicator
            int on = con(1), off = con(0); Instr i = g.mk(I_CEXP, a, b, 0, 0, rel); i.a[2] = on; i.a[3] = off; int ind = emit(i); res = r.chance(.5) ? bin(B_AZMUL, ind, t) : bin(B_AZMUL, ind, t); rep().count("azmul"); }
        else { Instr i = g.mk(I_CEXP, a, b, 0, 0, rel); i.a[2] = t; i.a[3] = f; res = emit(i);
            if( r.chance(.3) ) { // the same condition again, nested use of the dangerous node
                Instr j = i; int s = pick(); (r.chance(.5) ? j.a[2] : j.a[3]) = s; if( j.a[2] == i.a[2] ) j.a[2] = bin(B_MUL, i.a[2], s); else j.a[3] = bin(B_ADD, i.a[3], s); int q = emit(j); res = bin(B_ADD, res, q); } }
        for(int k = 0; k < g.np(); ++k) { int u = g.v(k, t) - g.v(k, t) == 0, w = g.v(k, f) - g.v(k, f) == 0; if( ! u || ! w ) rep().count("not_finite_branch"); }
        if( ! fin(res) ) return false;
        // keep it away from zero or not: the value is used by later conditionals
        keep(res); g.exact[size_t(res)] = 0; return true;
    }
    bool make()
    {   g.begin_points(); for(int j = 0; j < g.g.n + g.g.nd; ++j) safe.push_back(j); int z = r.range(2, 6), made = 0;
        for(int k = 0; k < 3 * z && made < z; ++k)
        {   if( r.chance(.4) ) { int q = un(r.chance(.5) ? U_SIN : U_TANH, pick()); if( fin(q) ) keep(q); }
            if( r.chance(.2) ) { int q = bin(r.chance(.5) ? B_MUL : B_ADD, pick(), pick()); if( fin(q) ) keep(q); }
            made += one(); }
        int m = r.range(1, 3); for(int i = 0; i < m; ++i) { int k = i == 0 ? safe.back() : pick(); if( r.chance(.3) ) k = bin(B_MUL, k, pick()); g.p.dep.push_back(k); } g.p.nnode = g.nn(); return made > 0; }
};
static void body(long, Rng& r)
{   GenCfg c; c.n = r.range(1, 3); c.nd = r.chance(.6) ? r.range(0, 2) : 0; c.npts = 5; c.p_special = .5; Danger dg(r, c); if( ! dg.make() ) { rep().count("not_formed"); return; }
    Gen& gen = dg.g; const Prog& p = gen.p; note_prog(gen); rep().sig(p.hash()); std::string opt;
    CppAD::ADFun<double> f; Recorder<> rec; rec(p, gen.pts[size_t(r.below(2))], f); f.check_for_nan(false); size_t n = size_t(p.n), m = p.dep.size();
    auto optimize = [&](const char* o) { try { f.optimize(o); } catch(const cppad_error& e) { if( e.msg.find("check") != std::string::npos ) { rep().count("optimize_self_check_failed"); CppAD::ADFun<double> h; rec(p, gen.pts[0], h); f = h; f.check_for_nan(false); return; } throw; } opt += std::string(" optimize ") + o; rep().count("optimized"); };
    int when = r.below(4);
    for(int step = 0; step < 6; ++step)
    {   if( step == when || (step > when && r.chance(.1)) ) optimize(r.chance(.3) ? "no_conditional_skip" : r.chance(.3) ? "no_compare_op" : "");
        int ip = r.below(gen.g.npts); const Point& q = gen.pts[size_t(ip)]; opt += fmt(" p%d", ip); if( p.nd ) f.new_dynamic(q.d); int Q = r.range(0, 4); auto xc = taylor_in(r, q.x, Q); auto want = alg_run(p, xc, q.d, true);
        auto ctx = [&]() { std::string s = p.text() + opt + " " + point_text(q); for(auto& z : xc) s += vec_text(z); return s; };
        if( r.chance(.25) && Q >= 1 )
        {   // several directions; direction 0 is the one of xc
            size_t nd = size_t(r.range(1, 3)); f.Forward(0, xc[0]); for(int k = 1; k <= Q; ++k) { VD X(n * nd); for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < nd; ++l) X[j * nd + l] = l == 0 ? xc[size_t(k)][j] : r.uni(-1, 1); VD y = f.Forward(size_t(k), nd, X); for(size_t i = 0; i < m; ++i) if( ! check("forward-direction", y[i * nd], want[i], k, 0, ctx) ) return; } rep().count("directions"); opt += "dir"; continue; }
        bool bad = false; if( r.chance(.5) ) { for(int k = 0; k <= Q && ! bad; ++k) { VD y = f.Forward(size_t(k), xc[size_t(k)]); for(size_t i = 0; i < m; ++i) if( ! check(fmt("forward-order%d", k), y[i], want[i], k, 0, ctx) ) bad = true; } }
        else { size_t q1 = size_t(Q + 1); VD X(n * q1); for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < q1; ++k) X[j * q1 + k] = xc[k][j]; VD y = f.Forward(size_t(Q), X); for(size_t i = 0; i < m && ! bad; ++i) for(int k = 0; k <= Q; ++k) if( ! check(fmt("forward-all-order%d", k), y[i * q1 + size_t(k)], want[i], k, 0, ctx) ) { bad = true; break; } }
        if( bad ) return;
        for(int t = 0; t < 2; ++t)
        {   size_t qq = size_t(r.range(1, Q + 1)); VD w(m * qq); for(double& z : w) z = r.chance(.3) ? 0 : r.uni(-1, 1); VD dw = f.Reverse(qq, w); rep().count("reverse"); if( m * qq == m && qq > 1 ) continue;
            for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < qq; ++l) { Sum s; for(size_t a = 0; a < m; ++a) for(size_t k = l; k < qq; ++k) if( w[a * qq + k] != 0 ) s.add(w[a * qq + k], want[a], int(k - l), int(j) + 1); if( ! check_sum(fmt("reverse-order%zu", qq), dw[j * qq + l], s, [&]() { return fmt("q=%zu j=%zu l=%zu w=", qq, j, l) + vec_text(w) + ctx(); }) ) return; } }
        // drivers
        if( step % 3 == 0 )
        {   opt += "drivers";  auto w0 = alg_run(p, {q.x}, q.d, true); VD jac = r.chance(.5) ? f.Jacobian(q.x) : (r.chance(.5) ? CppAD::vector<double>() , f.Jacobian(q.x) : f.Jacobian(q.x)); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( ! check("Jacobian", jac[i * n + j], w0[i], 0, int(j) + 1, ctx) ) return;
            VD sj = f.SparseJacobian(q.x); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( ! check("SparseJacobian", sj[i * n + j], w0[i], 0, int(j) + 1, ctx) ) return;
            CppAD::sparse_rcv< CppAD::vector<size_t>, VD > sub; { CppAD::sparse_rc< CppAD::vector<size_t> > eye(n, n, n), pat; for(size_t j = 0; j < n; ++j) eye.set(j, j, j); f.for_jac_sparsity(eye, false, false, false, pat); sub = CppAD::sparse_rcv< CppAD::vector<size_t>, VD >(pat); }
            f.subgraph_jac_rev(q.x, sub); for(size_t k = 0; k < sub.nnz(); ++k) if( ! check("subgraph_jac_rev", sub.val()[k], w0[sub.row()[k]], 0, int(sub.col()[k]) + 1, ctx) ) return; }
        if( step == 3 && r.chance(.2) ) { CppAD::ADFun<double> h; h = f; f = h; f.check_for_nan(false); }
        if( step == 4 && r.chance(.3) )
        {   // one more level
            auto af = f.base2ad(); std::vector<A1> ax(n), ad; for(size_t j = 0; j < n; ++j) ax[j] = q.x[j]; for(double z : q.d) ad.push_back(z); if( p.nd ) { CppAD::Independent(ax, size_t(0), false, ad); af.new_dynamic(ad); } else CppAD::Independent(ax); std::vector<A1> aw(m), ay = af.Forward(0, ax); for(size_t i = 0; i < m; ++i) aw[i] = A1(1.0); std::vector<A1> dw = af.Reverse(1, aw); CppAD::ADFun<double> h(ax, dw); h.check_for_nan(false); rep().count("nested");
            const Point& q2 = gen.pts[size_t(r.below(gen.g.npts))]; if( p.nd ) h.new_dynamic(q2.d); VD y = h.Forward(0, q2.x); setcfg(0, p.n); auto w0 = alg_run(p, {q2.x}, q2.d, true); for(size_t j = 0; j < n; ++j) { Sum s; for(size_t a = 0; a < m; ++a) s.add(1, w0[a], 0, int(j) + 1); if( ! check_sum("nested-gradient", y[j], s, ctx) ) return; } }
    } }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
