#ifndef VF_WORK_HPP
#define VF_WORK_HPP
// workloads shared by the checks: a systematic phase (operator x operand kind x form x constant)
// followed by random programs drawn from several profiles
#include "harness.hpp"
namespace vf {
struct Mix { bool vec = true, cexp = true, disc = true, cmp = false, print = false, kinks = true, dyn = true, ties = true; double atom = 0; int max_n = 4, max_nd = 3, max_m = 4, max_ins = 25; double p_big = .01; int big = 200; int npts = 3;
    std::vector<int> unary_ops, binary_ops; bool sys = true; };
// number of systematic cases and the j-th of them; returns false when the combination does not exist
struct SysGen {
    struct T { int op, form, ka, kb, cs, inner, rel; };
    std::vector<T> t;
    SysGen(const Mix& m)
    {   auto allow = [](const std::vector<int>& l, int op) { if( l.empty() ) return true; for(int q : l) if( q == op ) return true; return false; };
        int nk = m.dyn ? 2 : 1;
        for(int op = 0; op < U_LAST_; ++op) if( allow(m.unary_ops, op) ) for(int k = 0; k < nk; ++k) for(int in = 0; in < 2; ++in) t.push_back({op, 0, k, 0, 0, in, 0});
        for(int op = B_ADD; op < B_LAST_; ++op) if( allow(m.binary_ops, op) ) for(int form = 0; form < 10; ++form) if( form_ok(op, form) )
        {   for(int ka = 0; ka < nk; ++ka) for(int in = 0; in < 2; ++in)
            {   if( form_has_b(form) ) for(int kb = 0; kb < nk; ++kb) t.push_back({op, form, ka, kb, 0, in, 0});
                else for(int cs = 0; cs < 5; ++cs) t.push_back({op, form, ka, 0, cs, in, 0}); } }
        if( m.cexp ) for(int rel = 0; rel < 5; ++rel) for(int q = 0; q < 81; ++q) t.push_back({I_CEXP, q, 0, 0, 0, 0, rel});
        if( m.cmp ) for(int rel = 0; rel < 6; ++rel) for(int q = 0; q < 9; ++q) t.push_back({I_CMP, q, 0, 0, 0, 0, rel});
        if( m.disc ) for(int d = 0; d < 3; ++d) for(int k = 0; k < nk; ++k) t.push_back({I_DISC, 0, k, 0, 0, 0, d});
        for(int e = -3; e <= 6; ++e) for(int k = 0; k < nk; ++k) t.push_back({I_IPOW, 0, k, 0, 0, 0, e});
    }
    size_t size() const { return t.size(); }
};
inline bool make_sys(const SysGen::T& q, Gen& g)
{   static const double cs[] = {0, 1, -1, 2, 0.7}; Rng& r = g.r;
    g.begin_points();
    int n = g.p.n, nd = g.p.nd;
    auto operand = [&](int kind, int which, bool inner) -> int
    {   int base = kind == 0 ? which % n : n + which % (nd > 0 ? nd : 1);
        if( kind == 1 && nd == 0 ) base = which % n;
        if( ! inner ) return base;
        int other = kind == 0 ? (which + 1) % n : n + (which + 1) % (nd > 0 ? nd : 1); if( kind == 1 && nd == 0 ) other = (which + 1) % n;
        g.emit(g.mk(B_MUL, base, other, 0), true); g.emit(g.mk(B_ADD, g.last(), -1, 1, .3), true); return g.last(); };
    bool ok = false;
    if( q.op < U_LAST_ ) ok = g.gen_unary(q.op, operand(q.ka, 0, q.inner));
    else if( q.op < B_LAST_ ) { int a = operand(q.ka, 0, q.inner); int b = operand(q.kb, 1, q.inner && r.chance(.5)); ok = g.gen_binary(q.op, q.form, a, b, cs[q.cs]); }
    else if( q.op == I_DISC ) { int a = operand(q.ka, 0, false); if( g.all(a, [&](double x) { return disc_margin(q.rel, x) > 1e-3; }) ) ok = g.emit(g.mk(I_DISC, a, -1, 0, 0, q.rel)); }
    else if( q.op == I_IPOW ) { int a = operand(q.ka, 0, false); if( q.rel < 0 ) a = g.positive(a, .4); ok = g.emit(g.mk(I_IPOW, a, -1, 0, q.rel)); }
    else
    {   int nop = q.op == I_CEXP ? 4 : 2; int kk = q.form; Instr i = g.mk(q.op); i.sub = q.rel;
        for(int k = 0; k < nop; ++k)
        {   int kind = kk % 3; kk /= 3;
            if( kind == 2 ) { g.emit(g.mk(I_CONST, -1, -1, 0, r.chance(.5) ? g.special() : r.uni(-1, 1)), true); i.a[k] = g.last(); }
            else i.a[k] = operand(kind, k, k >= 2 && r.chance(.5)); }
        if( g.rel_ok(i.a[0], i.a[1]) ) ok = g.emit(i);
    }
    if( ! ok ) { g.emit(g.mk(B_MUL, 0, 0, 0), true); }
    int res = g.last();
    // use the result in something non linear as well
    g.emit(g.mk(B_MUL, res, r.below(n), 0));
    if( r.chance(.5) ) g.emit(g.mk(U_SIN, g.last()));
    int fin = g.last();
    g.p.dep.clear(); g.p.dep.push_back(res); g.p.dep.push_back(fin); if( r.chance(.3) ) g.p.dep.push_back(res);
    g.p.nnode = g.nn();
    return ok;
}
inline GenCfg profile(Rng& r, const Mix& m)
{   GenCfg g; g.n = r.range(1, m.max_n); g.nd = m.dyn ? (r.chance(.35) ? 0 : r.range(1, m.max_nd)) : 0; g.m = r.range(1, m.max_m);
    g.n_ins = r.range(1, m.max_ins); if( r.chance(m.p_big) ) g.n_ins = r.range(m.max_ins, m.big);
    g.npts = m.npts; g.kinks = m.kinks; g.ties = m.ties;
    g.unary_ops = m.unary_ops; g.binary_ops = m.binary_ops;
    g.w_cexp = m.cexp ? 1 : 0; g.w_disc = m.disc ? .4 : 0; g.w_cmp = m.cmp ? 1.5 : 0; g.w_print = m.print ? 1 : 0;
    g.w_vec = m.vec && r.chance(.25) ? 2 : 0; g.w_atom = r.chance(m.atom) ? 2 : 0; g.n_sub = r.range(1, 2);
    switch( r.below(8) )
    {   case 0: g.w_sum = 3; break;                                    // cumulative sums
        case 1: g.w_dup = 5; break;                                    // common sub-expressions
        case 2: if( m.cexp ) g.w_cexp = 5; g.w_dup = 2; break;         // conditional skip
        case 3: g.w_unary = 1; g.w_const = 2; g.w_binary = 12; break;  // parameters mixed in
        case 4: if( m.vec ) g.w_vec = 5; break;
        case 5: g.n = 1; g.m = 1; break;
        default: break;
    }
    return g;
}
// make the program of case i; returns true when it is one of the systematic ones
inline bool make_case(long i, Rng& r, const Mix& m, std::unique_ptr<Gen>& out)
{   static std::map<const Mix*, std::shared_ptr<SysGen>> cache;
    long j = i % 10000000;
    std::shared_ptr<SysGen>& s = cache[&m]; if( ! s ) s.reset(new SysGen(m));
    if( m.sys && j < long(s->size()) )
    {   GenCfg g; g.n = r.range(2, 3); g.nd = m.dyn ? 2 : 0; g.m = 2; g.npts = m.npts; g.kinks = m.kinks; g.ties = m.ties; g.p_special = .25;
        for(int t = 0; t < 8; ++t) { out.reset(new Gen(r, g)); if( make_sys(s->t[size_t(j)], *out) ) { rep().count("systematic"); return true; } }
        rep().count("systematic_not_formed"); return true;
    }
    out.reset(new Gen(r, profile(r, m))); out->make(); return false;
}
inline void note_prog(const Gen& g)
{   Report& R = rep(); R.sig(shape_hash(g.p)); R.sample(g.p.text() + " " + point_text(g.pts[0])); R.count("operators", long(g.p.ins.size()));
    for(auto& i : g.p.ins) if( i.op >= I_CEXP || i.op == I_IPOW ) R.count(op_name(i.op)); }
// Taylor coefficients x^(k), k = 1..Q appended to the point
inline std::vector<VDb> taylor_in(Rng& r, const VDb& x, int Q)
{   std::vector<VDb> xc; xc.push_back(x);
    int mode = r.below(4); // 0: dense 1: only first order 2: sparse 3: dense
    for(int k = 1; k <= Q; ++k) { VDb t; for(size_t j = 0; j < x.size(); ++j) t.push_back( (mode == 1 && k > 1) || (mode == 2 && r.chance(.5)) ? 0.0 : (r.chance(.2) ? double(r.range(-1, 1)) : r.uni(-1, 1))); xc.push_back(t); }
    return xc; }
// developer aid (VF_SHRINK=1): simplify a failing program while it still fails the same way
inline void shrink_case(Gen& gen, const Rng& r0, const std::function<void(Gen&, Rng&)>& core)
{   if( ! getenv("VF_SHRINK") ) return;
    auto run = [&](const Prog& p) { Prog keep = gen.p; gen.p = p; std::set<std::string> k; rep().capture = &k; Rng r = r0; try { core(gen, r); } catch(const cppad_error& e) { k.insert(err_key(e)); CppAD::AD<double>::abort_recording(); CppAD::AD<A1>::abort_recording(); } catch(...) { k.insert("other"); CppAD::AD<double>::abort_recording(); } rep().capture = nullptr; gen.p = keep; return k; };
    std::set<std::string> first = run(gen.p); if( first.empty() ) return; bool again = true;
    auto ok = [&](const Prog& p) { auto k = run(p); for(auto& s : k) if( first.count(s) ) return true; return false; };
    while( again )
    {   again = false;
        for(size_t q = gen.p.ins.size(); q-- > 0; )
        {   Prog p = gen.p; Instr& s = p.ins[q];
            if( s.nres == 0 ) { p.ins.erase(p.ins.begin() + long(q)); if( ok(p) ) { gen.p = p; again = true; } continue; }
            if( s.op == I_CONST ) continue;
            std::vector<Instr> c(size_t(s.nres)); for(int t = 0; t < s.nres; ++t) { c[size_t(t)].op = I_CONST; c[size_t(t)].c = .5 + .25 * t; c[size_t(t)].ires = s.ires + t; c[size_t(t)].nres = 1; }
            p.ins.erase(p.ins.begin() + long(q)); p.ins.insert(p.ins.begin() + long(q), c.begin(), c.end()); if( ok(p) ) { gen.p = p; again = true; continue; }
            if( gen.p.ins[q].nres == 1 && gen.p.ins[q].op != U_PLUS ) for(int t = 0; t < 4; ++t) if( gen.p.ins[q].a[t] >= 0 ) { p = gen.p; Instr u; u.op = U_PLUS; u.a[0] = gen.p.ins[q].a[t]; u.ires = gen.p.ins[q].ires; u.nres = 1; p.ins[q] = u; if( ok(p) ) { gen.p = p; again = true; break; } } } }
    for(size_t q = gen.p.dep.size(); q-- > 0 && gen.p.dep.size() > 1; ) { Prog p = gen.p; p.dep.erase(p.dep.begin() + long(q)); if( ok(p) ) gen.p = p; }
    printf("SHRUNK %s\n", gen.p.text().c_str()); for(size_t q = 0; q < gen.p.subs.size(); ++q) printf("  atom %zu: %s\n", q, gen.p.subs[q]->text().c_str());
}
// one case of a check that judges programs
inline void prog_case(long i, Rng& r, const Mix& m, const std::function<void(Gen&, Rng&)>& core)
{   std::unique_ptr<Gen> gp; make_case(i, r, m, gp); note_prog(*gp); Rng r0 = r; shrink_case(*gp, r0, core); core(*gp, r); }
} // namespace vf
#endif
