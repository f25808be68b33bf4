// C18: the results of a function object depend on its inputs and its content, not on what happened to it before
#include "../lib/atoms.hpp"
using namespace vf;
typedef std::vector<double> VD; typedef std::vector<bool> VB; typedef CppAD::vector<size_t> VS; typedef CppAD::sparse_rc<VS> Pat; typedef CppAD::sparse_rcv<VS, VD> Mat; typedef CppAD::ADFun<double> Fun;
typedef CppAD::vector<std::set<size_t>> SV;
struct Work { const Gen* g; Atoms* at; };
// what is known about the content of an object
struct Tay { int kind; size_t q, r; VD x; size_t cc; };     // 0: Forward(q, x), 1: Forward(q, x) with all orders, 2: Forward(q, r, x)
struct Model { int w = -1; size_t rec = 0; bool cmp_rec = true, with_x = false; std::vector<std::string> opts; VD d; std::vector<Tay> tay; bool known = true; size_t order = 0, dir = 0; int fsj = 0; size_t fq = 0; bool sub = false; VB sel, proc; size_t cc = 1; bool nan_ = true; std::string name, hist; };
struct Slot { Fun f; Model m; };
static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b || (a != a && b != b); }
static Pat eye(size_t n) { Pat p(n, n, n); for(size_t j = 0; j < n; ++j) p.set(j, j, j); return p; }
static CppAD::vectorBool bool_eye(size_t n) { CppAD::vectorBool b(n * n); for(size_t j = 0; j < n * n; ++j) b[j] = j % (n + 1) == 0; return b; }
static SV set_eye(size_t n) { SV b(n); for(size_t j = 0; j < n; ++j) b[j].insert(j); return b; }
static void record(Fun& f, const Work& w, size_t rec, bool cmp_rec, bool with_x)
{   const Prog& p = w.g->p; Point q = w.g->pts[rec]; std::vector<A1> ax, ad, ay; for(double z : q.x) ax.push_back(z); for(double z : q.d) ad.push_back(z);
    CppAD::Independent(ax, 0, cmp_rec, ad); Interp<A1> it(p); if( w.at ) w.at->attach(it); it.start(ax, ad); it.run(ay); if( with_x ) f.Dependent(ax, ay); else f.Dependent(ay); }
static VD fwd(Fun& f, const Tay& t) { return t.kind == 2 ? f.Forward(t.q, t.r, t.x) : f.Forward(t.q, t.x); }
struct Self_check {};
static void optimize(Fun& f, const std::string& o) { try { f.optimize(o); } catch(const cppad_error& e) { if( e.msg.find("check") != std::string::npos ) { rep().count("optimize_self_check_failed"); throw Self_check(); } throw; } }
// an object with the same content that has no history
static void fresh(Fun& g, const Model& m, const std::vector<Work>& ws)
{   if( m.w < 0 ) return; record(g, ws[size_t(m.w)], m.rec, m.cmp_rec, m.with_x); g.check_for_nan(false); for(auto& o : m.opts) optimize(g, o); if( m.d.size() ) g.new_dynamic(m.d);
    if( m.fsj == 1 ) g.ForSparseJac(m.fq, bool_eye(m.fq)); if( m.fsj == 2 ) g.ForSparseJac(m.fq, set_eye(m.fq));
    g.compare_change_count(m.cc); for(auto& t : m.tay) fwd(g, t); if( m.sub ) g.subgraph_reverse(m.sel); g.check_for_nan(m.nan_); if( m.name.size() ) g.function_name_set(m.name); }
struct Run {
    Rng& r; std::vector<Work>& ws; std::vector<std::unique_ptr<Slot>> s; std::string log; bool bad = false;
    Run(Rng& rr, std::vector<Work>& w) : r(rr), ws(w) { int z = r.range(2, 4); for(int k = 0; k < z; ++k) s.emplace_back(new Slot()); }
    const Prog& prog(const Model& m) { return ws[size_t(m.w)].g->p; } const Point& pt(const Model& m, size_t k) { return ws[size_t(m.w)].g->pts[k]; } size_t npt(const Model& m) { return ws[size_t(m.w)].g->pts.size(); }
    std::string ctx(const Model& m) { return (m.w >= 0 ? prog(m).text() : std::string("empty")) + " object: " + m.hist + " all: " + log; }
    template <class V, class W> bool eq(const char* key, const V& a, const W& b, const Model& m)
    {   rep().count("compared"); bool ok = a.size() == b.size(); size_t k = 0; for(; ok && k < a.size(); ++k) ok = same(double(a[k]), double(b[k])); if( ok ) return true;
        bad = true; rep().fail(key, fmt("size %zu %zu ", size_t(a.size()), size_t(b.size())) + (k && k <= a.size() ? fmt("element %zu: %.17g, object without history %.17g ", k - 1, double(a[k - 1]), double(b[k - 1])) : "") + ctx(m)); return false; }
    bool eqn(const char* key, double a, double b, const Model& m) { return eq(key, VD(1, a), VD(1, b), m); }
    void eqp(const char* key, const Pat& a, const Pat& b, const Model& m) { VD x, y; VS ra = a.row_major(), rb = b.row_major(); for(size_t k = 0; k < a.nnz(); ++k) { x.push_back(double(a.row()[ra[k]])); x.push_back(double(a.col()[ra[k]])); } for(size_t k = 0; k < b.nnz(); ++k) { y.push_back(double(b.row()[rb[k]])); y.push_back(double(b.col()[rb[k]])); } eq(key, x, y, m); }
    void step(size_t i, int k)
    {   Slot& a = *s[i]; Model& m = a.m; Fun& f = a.f; auto note = [&](const std::string& t) { m.hist += " " + t; log += fmt(" %zu:", i) + t; };
        if( k < 3 )
        {   // (re)record
            m = Model(); m.w = int(r.sbelow(ws.size())); m.rec = r.sbelow(npt(m)); m.cmp_rec = r.chance(.7); m.d = pt(m, m.rec).d; std::string old = f.function_name_get(); m.with_x = r.chance(.5);
            record(f, ws[size_t(m.w)], m.rec, m.cmp_rec, m.with_x); f.check_for_nan(false); m.nan_ = false; m.name = f.function_name_get(); m.cc = 1; f.compare_change_count(1); note(fmt("record %d at %zu", m.w, m.rec)); rep().count("record"); return; }
        if( k == 3 )
        {   size_t j = r.sbelow(s.size()); if( j == i ) { if( r.chance(.1) ) { Fun& g = f; f = g; note("self-assign"); } return; }
            Slot& b = *s[j]; switch(r.below(4))
            {   case 0: f = b.f; m = b.m; note(fmt("copy of %zu", j)); rep().count("copy"); break;
                case 1: f.swap(b.f); std::swap(m, b.m); note(fmt("swap with %zu", j)); rep().count("swap"); break;
                case 2: { f = std::move(b.f); std::swap(m, b.m); Model e; note(fmt("move from %zu", j)); rep().count("move"); // the other object holds something that must be replaced before it is used
                    b.f = Fun(); b.m = e; break; }
                default: { Fun g(std::move(f)); eqn("moved-from-size", double(f.Domain() + f.Range() + f.size_var() + f.size_order() + f.size_direction()), 0, m); eqn("moved-from-change", double(f.compare_change_number() + f.compare_change_op_index()), 0, m); f = Fun(); f.swap(g); note("moved through constructor"); rep().count("move_constructor"); break; } }
            return; }
        if( k == 4 ) { f.function_name_set(m.name = fmt("name_%d", r.below(100))); note("name"); return; }
        if( k == 5 ) { m.nan_ = r.chance(.3); f.check_for_nan(m.nan_); note("check_for_nan"); return; }
        Fun g; fresh(g, m, ws); if( k == 6 || k == 7 || m.w < 0 )
        {   // queries
            auto q = [&](const char* n, double x, double y) { eqn(fmt("query-%s", n).c_str(), x, y, m); };
            q("Domain", double(f.Domain()), double(g.Domain())); q("Range", double(f.Range()), double(g.Range())); if( m.known ) { q("size_order", double(f.size_order()), double(g.size_order())); if( m.tay.size() ) q("size_direction", double(f.size_direction()), double(g.size_direction())); if( m.w >= 0 && m.tay.size() ) { q("compare_change_number", double(f.compare_change_number()), double(g.compare_change_number())); q("compare_change_op_index", double(f.compare_change_op_index()), double(g.compare_change_op_index())); q("number_skip", double(f.number_skip()), double(g.number_skip())); } }
            q("size_var", double(f.size_var()), double(g.size_var())); q("size_op", double(f.size_op()), double(g.size_op())); q("size_op_arg", double(f.size_op_arg()), double(g.size_op_arg())); q("size_par", double(f.size_par()), double(g.size_par())); q("size_dyn_ind", double(f.size_dyn_ind()), double(g.size_dyn_ind())); q("size_dyn_par", double(f.size_dyn_par()), double(g.size_dyn_par())); q("size_dyn_arg", double(f.size_dyn_arg()), double(g.size_dyn_arg())); q("size_VecAD", double(f.size_VecAD()), double(g.size_VecAD())); q("size_text", double(f.size_text()), double(g.size_text())); q("use_VecAD", f.use_VecAD(), g.use_VecAD()); q("check_for_nan", f.check_for_nan(), m.nan_); q("size_forward_bool", double(f.size_forward_bool() > 0), double(g.size_forward_bool() > 0)); q("size_forward_set", double(f.size_forward_set() > 0), double(g.size_forward_set() > 0)); q("exceed_collision_limit", f.exceed_collision_limit(), g.exceed_collision_limit());
            if( f.function_name_get() != m.name ) { bad = true; rep().fail("query-name", f.function_name_get() + " want " + m.name + ctx(m)); } for(size_t e = 0; e < f.Range(); ++e) q("Parameter", f.Parameter(e), g.Parameter(e)); rep().count("queries"); return; }
        const Prog& p = prog(m); size_t n = size_t(p.n), md = p.dep.size(); f.check_for_nan(false); g.check_for_nan(false); m.nan_ = false; auto x_at = [&]() { return pt(m, r.sbelow(npt(m))).x; };
        auto uni = [&](size_t z) { VD w(z); for(double& e : w) e = r.chance(.2) ? 0 : r.uni(-1, 1); return w; };
        auto put = [&](const Tay& t) { note(fmt("fwd%d(%zu,%zu)", t.kind, t.q, t.r)); VD y = fwd(f, t), z = fwd(g, t); m.known = true; eq(t.kind == 2 ? "forward-direction" : t.kind == 1 ? "forward-all-orders" : "forward", y, z, m); };
        auto unknown = [&](const VD& x) { m.tay.clear(); Tay t{0, 0, 1, x, m.cc}; m.tay.push_back(t); m.known = false; m.order = 1; m.dir = 1; };
        switch(k)
        {   case 8: case 9: { Tay t{0, 0, 1, x_at(), m.cc}; put(t); m.tay.assign(1, t); m.order = 1; m.dir = 1; rep().count("forward"); break; }
            case 10: case 11: case 12:
            {   if( m.order == 0 || m.dir != 1 ) break; size_t q = r.chance(.6) ? m.order : 1 + r.sbelow(m.order); if( q > 5 || ! m.known ) q = 1; Tay t{0, q, 1, uni(n), m.cc}; put(t); // lower orders are kept, higher orders are lost
                m.tay.push_back(t); m.order = q + 1; rep().count("forward_order"); break; }
            case 13: { size_t Q = size_t(r.range(0, 4)), q1 = Q + 1; VD x = uni(n * q1), x0 = x_at(); for(size_t j = 0; j < n; ++j) x[j * q1] = x0[j]; Tay t{1, Q, 1, x, m.cc}; put(t); m.tay.assign(1, t); m.order = q1; m.dir = 1; rep().count("forward_all"); break; }
            case 14: case 15:
            {   if( m.order == 0 ) break; size_t rd, q; if( m.dir > 1 && m.order > 1 && r.chance(.6) && m.order < 5 ) { rd = m.dir; q = r.chance(.6) ? m.order : 1 + r.sbelow(m.order); } else { rd = size_t(r.range(1, 3)); q = 1; } if( m.order == 1 ) q = 1; Tay t{2, q, rd, uni(n * rd), m.cc}; put(t); m.tay.push_back(t); m.order = q + 1; m.dir = rd; rep().count("forward_dir"); break; }
            case 16: case 17: { if( m.order == 0 || m.dir != 1 || ! m.known ) break; size_t q = 1 + r.sbelow(m.order); VD w = uni(r.chance(.3) ? md : md * q); note(fmt("rev%zu", q)); eq("reverse", f.Reverse(q, w), g.Reverse(q, w), m); rep().count("reverse"); break; }
            case 18: { size_t c = size_t(r.range(0, 5)); note(fmt("capacity%zu", c)); f.capacity_order(c); rep().count("capacity"); if( c == 0 ) { m.tay.clear(); m.order = m.dir = 0; m.known = true; break; } if( c < m.order && m.dir == 1 && m.known )
                {   // orders that fit are kept; they are the same as if the function had not been evaluated further
                    g.capacity_order(c); m.order = c; Tay t; std::vector<VD> xs; for(auto& u : m.tay) if( u.kind == 1 ) { for(size_t o = 0; o <= u.q; ++o) { VD z(n); for(size_t j = 0; j < n; ++j) z[j] = u.x[j * (u.q + 1) + o]; if( xs.size() <= o ) xs.resize(o + 1); xs[o] = z; } } else { if( xs.size() <= u.q ) xs.resize(u.q + 1); xs[u.q] = u.x; } size_t cc0 = m.tay[0].cc; m.tay.clear(); for(size_t o = 0; o < c; ++o) m.tay.push_back(Tay{0, o, 1, xs[o], o == 0 ? cc0 : m.cc}); }
                else if( c < m.order ) { if( m.dir > 1 && m.known ) m.known = false; while( m.tay.size() > 1 ) m.tay.pop_back(); if( m.tay[0].kind == 1 ) { VD z(n); for(size_t j = 0; j < n; ++j) z[j] = m.tay[0].x[j * (m.tay[0].q + 1)]; m.tay[0] = Tay{0, 0, 1, z, m.tay[0].cc}; } m.order = 1; if( m.dir > 1 ) { Tay t{0, 0, 1, x_at(), m.cc}; Fun h; (void) h; f.Forward(0, t.x); m.tay.assign(1, t); m.known = true; } m.dir = 1; }
                break; }
            case 19: { if( p.nd == 0 ) break; m.d = pt(m, r.sbelow(npt(m))).d; f.new_dynamic(m.d); note("new_dynamic"); m.tay.clear(); m.order = m.dir = 0; m.known = true; eqn("size_order-after-new_dynamic", double(f.size_order()), 0, m); rep().count("new_dynamic"); break; }
            case 20: { if( m.opts.size() >= 2 && r.chance(.8) ) break; std::string o; if( r.chance(.25) ) o += "no_conditional_skip "; if( r.chance(.25) ) o += "no_compare_op "; if( r.chance(.2) ) o += "no_cumulative_sum_op "; if( r.chance(.2) ) o += "collision_limit=5 "; note("optimize(" + o + ")"); optimize(f, o); m.opts.push_back(o); m.tay.clear(); m.order = m.dir = 0; m.known = true; m.fsj = 0; m.sub = false; eqn("size_order-after-optimize", double(f.size_order()), 0, m); rep().count("optimize"); break; }
            case 21: { VD x = x_at(); note("Jacobian"); eq("Jacobian", f.Jacobian(x), g.Jacobian(x), m); unknown(x); rep().count("driver"); break; }
            case 22: { VD x = x_at(), w = uni(md); note("Hessian"); eq("Hessian", f.Hessian(x, w), g.Hessian(x, w), m); unknown(x); rep().count("driver"); break; }
            case 23: { VD x = x_at(); size_t j = r.sbelow(n), e = r.sbelow(md); note("One"); if( r.chance(.5) ) eq("ForOne", f.ForOne(x, j), g.ForOne(x, j), m); else eq("RevOne", f.RevOne(x, e), g.RevOne(x, e), m); unknown(x); rep().count("driver"); break; }
            case 24: { VD x = x_at(); note("SparseJacobian"); if( r.chance(.5) ) eq("SparseJacobian", f.SparseJacobian(x), g.SparseJacobian(x), m); else { VD w = uni(md); eq("SparseHessian", f.SparseHessian(x, w), g.SparseHessian(x, w), m); } m.tay.clear(); m.order = m.dir = 0; m.known = true; // content of the Taylor coefficients is not specified
                { Tay t{0, 0, 1, x, m.cc}; f.Forward(0, x); m.tay.assign(1, t); m.order = m.dir = 1; } m.fsj = 0; f.size_forward_bool(0); f.size_forward_set(0); rep().count("driver"); break; }
            case 25: { bool tr = r.chance(.5), dp = r.chance(.5), ib = r.chance(.5); Pat o, o2; note("for_jac"); f.for_jac_sparsity(eye(n), tr, dp, ib, o); g.for_jac_sparsity(eye(n), tr, dp, ib, o2); eqp("for_jac_sparsity", o, o2, m); m.fsj = 0; f.size_forward_bool(0); f.size_forward_set(0); rep().count("sparsity");
                if( r.chance(.5) ) { f.for_jac_sparsity(eye(n), false, false, ib, o); g.for_jac_sparsity(eye(n), false, false, ib, o2); VB sy(md); for(size_t e = 0; e < md; ++e) sy[e] = r.chance(.6); f.rev_hes_sparsity(sy, tr, ib, o); g.rev_hes_sparsity(sy, tr, ib, o2); eqp("rev_hes_sparsity", o, o2, m); f.size_forward_bool(0); f.size_forward_set(0); } break; }
            case 26: { bool tr = r.chance(.5), dp = r.chance(.5), ib = r.chance(.5); Pat o, o2; note("rev_jac"); f.rev_jac_sparsity(eye(md), tr, dp, ib, o); g.rev_jac_sparsity(eye(md), tr, dp, ib, o2); eqp("rev_jac_sparsity", o, o2, m); rep().count("sparsity"); break; }
            case 27: { VB sx(n), sy(md); for(size_t j = 0; j < n; ++j) sx[j] = r.chance(.7); for(size_t j = 0; j < md; ++j) sy[j] = r.chance(.7); bool ib = r.chance(.5); Pat o, o2; note("for_hes"); f.for_hes_sparsity(sx, sy, ib, o); g.for_hes_sparsity(sx, sy, ib, o2); eqp("for_hes_sparsity", o, o2, m); rep().count("sparsity"); break; }
            case 28: { // stored forward patterns
                if( r.chance(.5) || m.fsj == 0 ) { if( r.chance(.5) ) { m.fsj = 1; m.fq = n; eq("ForSparseJac-bool", f.ForSparseJac(n, bool_eye(n)), g.ForSparseJac(n, bool_eye(n)), m); f.size_forward_set(0); }
                    else { m.fsj = 2; m.fq = n; SV u = f.ForSparseJac(n, set_eye(n)), v = g.ForSparseJac(n, set_eye(n)); VD uu, vv; for(size_t e = 0; e < md; ++e) { for(size_t j : u[e]) uu.push_back(double(e * n + j)); for(size_t j : v[e]) vv.push_back(double(e * n + j)); } eq("ForSparseJac-set", uu, vv, m); f.size_forward_bool(0); } note(fmt("ForSparseJac%d", m.fsj)); rep().count("stored_pattern"); }
                else { note("RevSparseHes"); if( m.fsj == 1 ) { CppAD::vectorBool z(md); for(size_t e = 0; e < md; ++e) z[e] = r.chance(.6); eq("RevSparseHes-bool", f.RevSparseHes(n, z), g.RevSparseHes(n, z), m); } else { SV z(1); for(size_t e = 0; e < md; ++e) if( r.chance(.6) ) z[0].insert(e); SV u = f.RevSparseHes(n, z), v = g.RevSparseHes(n, z); VD uu, vv; for(size_t e = 0; e < n; ++e) { for(size_t j : u[e]) uu.push_back(double(e * n + j)); for(size_t j : v[e]) vv.push_back(double(e * n + j)); } eq("RevSparseHes-set", uu, vv, m); } rep().count("used_pattern"); } break; }
            case 29: { VB sx(n), sy(md); for(size_t j = 0; j < n; ++j) sx[j] = r.chance(.7); for(size_t j = 0; j < md; ++j) sy[j] = r.chance(.7); Pat o, o2; note("subgraph_sparsity"); f.subgraph_sparsity(sx, sy, false, o); g.subgraph_sparsity(sx, sy, false, o2); eqp("subgraph_sparsity", o, o2, m); m.sub = false; rep().count("sparsity"); break; }
            case 30: case 31: { if( m.order == 0 || m.dir != 1 || ! m.known ) break; size_t e0 = r.sbelow(md); if( ! m.sub || m.proc[e0] || r.chance(.3) ) { m.sel.assign(n, false); for(size_t j = 0; j < n; ++j) m.sel[j] = r.chance(.7); f.subgraph_reverse(m.sel); g.subgraph_reverse(m.sel); m.sub = true; m.proc.assign(md, false); note("select"); }
                size_t e = e0, q = 1 + r.sbelow(m.order); m.proc[e] = true; VS c1, c2; VD w1, w2; note(fmt("subgraph_reverse(%zu,%zu)", q, e)); f.subgraph_reverse(q, e, c1, w1); g.subgraph_reverse(q, e, c2, w2); // order of the columns may differ
                VD y1(n * q, -7.), y2(n * q, -7.); for(size_t c = 0; c < c1.size(); ++c) for(size_t o = 0; o < q; ++o) y1[c1[c] * q + o] = w1[c1[c] * q + o]; for(size_t c = 0; c < c2.size(); ++c) for(size_t o = 0; o < q; ++o) y2[c2[c] * q + o] = w2[c2[c] * q + o]; eq("subgraph_reverse", y1, y2, m); rep().count("subgraph_reverse"); m.sub = true; break; }
            case 32: { VB sx(n, true), sy(md, true); Pat o; g.subgraph_sparsity(sx, sy, false, o); Mat u(o), v(o); VD x = x_at(); note("subgraph_jac_rev"); f.subgraph_jac_rev(x, u); g.subgraph_jac_rev(x, v); VD a1, a2; for(size_t e = 0; e < u.nnz(); ++e) { a1.push_back(u.val()[e]); a2.push_back(v.val()[e]); } eq("subgraph_jac_rev", a1, a2, m); Tay t{0, 0, 1, x, m.cc}; f.Forward(0, x); m.tay.assign(1, t); m.known = true; m.order = m.dir = 1; m.sub = false; rep().count("driver"); break; }
            case 33: { f.clear_subgraph(); m.sub = false; note("clear_subgraph"); break; }
            case 34: { m.cc = size_t(r.range(0, 3)); f.compare_change_count(m.cc); note(fmt("count%zu", m.cc)); m.tay.clear(); { Tay t{0, 0, 1, x_at(), m.cc}; put(t); m.tay.assign(1, t); m.order = m.dir = 1; } break; }
            default:
            {   Pat o; g.for_jac_sparsity(eye(n), false, false, false, o); Mat u(o), v(o); VD x = x_at(); CppAD::sparse_jac_work w1, w2; note("sparse_jac"); if( r.chance(.5) ) { f.sparse_jac_for(1, x, u, o, "cppad", w1); g.sparse_jac_for(1, x, v, o, "cppad", w2); } else { f.sparse_jac_rev(x, u, o, "cppad", w1); g.sparse_jac_rev(x, v, o, "cppad", w2); } VD a1, a2; for(size_t e = 0; e < u.nnz(); ++e) { a1.push_back(u.val()[e]); a2.push_back(v.val()[e]); } eq("sparse_jac", a1, a2, m);
                Tay t{0, 0, 1, x, m.cc}; f.Forward(0, x); m.tay.assign(1, t); m.known = true; m.order = m.dir = 1; rep().count("driver"); break; } } }
};
static void body(long, Rng& r)
{   Mix mix; mix.cmp = true; mix.atom = .3; mix.max_ins = 20; mix.p_big = .02; mix.big = 100; mix.npts = 3; std::vector<std::unique_ptr<Gen>> gens; std::vector<std::unique_ptr<Atoms>> ats; std::vector<Work> ws;
    size_t np = size_t(r.range(1, 3)); for(size_t k = 0; k < np; ++k) { std::unique_ptr<Gen> g(new Gen(r, profile(r, mix))); g->make(); note_prog(*g); std::unique_ptr<Atoms> a; if( g->p.subs.size() ) a.reset(new Atoms(g->p, r, 1 | 2 | 16)); ws.push_back(Work{g.get(), a.get()}); gens.push_back(std::move(g)); ats.push_back(std::move(a)); }
    Run u(r, ws); int steps = r.range(20, 50);
    try { for(int t = 0; t < steps && ! u.bad; ++t) { size_t i = r.sbelow(u.s.size()); int k = r.below(37); if( u.s[i]->m.w < 0 && k > 7 && r.chance(.9) ) k = 0; else if( k < 3 && r.chance(.6) ) k = r.range(3, 36); u.step(i, k); rep().count("steps"); } } catch(const Self_check&) { return; } catch(const cppad_error& e) { rep().fail("unexpected-" + err_key(e), std::string(e.what()) + " all: " + u.log); CppAD::AD<double>::abort_recording(); return; }
    rep().sig(hstr(u.log)); u.s.clear(); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
