// C22: threads that use the documented protocol get the results they would get alone; no data race; memory is accounted for
#include <thread>
#include <atomic>
#include "../lib/atoms.hpp"
#include <cppad/utility/runge_45.hpp>
#include <cppad/utility/rosen_34.hpp>
#include <cppad/core/graph/cpp_graph.hpp>
using namespace vf;
typedef std::vector<double> VD; typedef CppAD::thread_alloc TA; typedef CppAD::vector<size_t> VS; typedef CppAD::sparse_rc<VS> Pat; typedef CppAD::sparse_rcv<VS, VD> Mat;
static thread_local size_t my_id = 0; static bool parallel = false;
static size_t thread_num() { return my_id; }
static bool in_parallel() { return parallel; }
// order in which the steps of the threads were seen (relaxed: adds no synchronization)
static std::atomic<unsigned> clk(0); static const unsigned LOG = 1u << 14; static std::atomic<unsigned char> order_[LOG];
struct Log { VD v; std::string what, err; ld sum = 0;
    void put(double z) { v.push_back(z); } template <class V> void all(const V& z) { for(size_t k = 0; k < z.size(); ++k) put(double(z[k])); } };
static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
struct Task { const Gen* g; size_t rec; uint64_t seed; int steps; bool chk1; };
struct Pause { Rng r; bool on; void operator()() { if( parallel ) { unsigned k = clk.fetch_add(1, std::memory_order_relaxed); if( k < LOG ) order_[k].store((unsigned char) my_id, std::memory_order_relaxed); }
    if( ! on ) return; int k = r.below(6); if( k == 0 ) std::this_thread::yield(); else if( k == 1 ) { volatile int z = 0; int m = r.below(4000); for(int i = 0; i < m; ++i) z = z + 1; } else if( k == 2 && r.chance(.1) ) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200))); } };
static Pat eye(size_t n) { Pat p(n, n, n); for(size_t j = 0; j < n; ++j) p.set(j, j, j); return p; }
template <class P> static void put_pat(Log& L, const P& p) { std::set<std::pair<size_t, size_t>> s; for(size_t k = 0; k < p.nnz(); ++k) s.insert({p.row()[k], p.col()[k]}); for(auto& q : s) { L.put(double(q.first)); L.put(double(q.second)); } L.put(double(p.nr())); }
struct Method { void Ode(const double& t, const VD& x, VD& f) { f[0] = x[1]; f[1] = -x[0] + .1 * t; } void Ode_ind(const double&, const VD&, VD& f_t) { f_t[0] = 0; f_t[1] = .1; } void Ode_dep(const double&, const VD&, VD& f_x) { f_x[0] = 0; f_x[1] = 1; f_x[2] = -1; f_x[3] = 0; } };
static void utilities(Log& L, Rng& r)
{   switch(r.below(6))
    {   case 0: { Method m; VD x = {r.uni(-1, 1), r.uni(-1, 1)}, e(2); VD y = CppAD::Runge45(m, size_t(r.range(1, 4)), 0.0, r.uni(.1, 1), x, e); L.all(y); L.all(e); break; }
        case 1: { Method m; VD x = {r.uni(-1, 1), r.uni(-1, 1)}, e(2); VD y = CppAD::Rosen34(m, size_t(r.range(1, 4)), 0.0, r.uni(.1, 1), x, e); L.all(y); L.all(e); break; }
        case 2: { CppAD::vector<double> a; CppAD::vector<CppAD::vector<A1>> b; int n = r.range(1, 40); for(int k = 0; k < n; ++k) { a.push_back(r.uni(-1, 1)); if( k % 7 == 0 ) { CppAD::vector<A1> c(size_t(r.range(0, 9))); for(auto& z : c) z = r.uni(0, 1); b.push_back(c); } } L.all(a); for(auto& c : b) for(auto& z : c) L.put(val(z)); break; }
        case 3: { size_t n = size_t(r.range(1, 4)); VD A(n * n), B(n), X(n); for(auto& z : A) z = r.uni(-1, 1); for(size_t k = 0; k < n; ++k) { A[k * n + k] += 3; B[k] = r.uni(-1, 1); } double ld_ = 0; L.put(CppAD::LuSolve(n, size_t(1), A, B, X, ld_)); L.all(X); L.put(ld_); break; }
        case 4: { CppAD::vectorBool b; int n = r.range(1, 300); for(int k = 0; k < n; ++k) b.push_back(r.chance(.5)); double s = 0; for(size_t k = 0; k < b.size(); ++k) s = 3 * s / 2 + b[k]; L.put(s); break; }
        default: { size_t cap = 0; void* p = TA::get_memory(r.sbelow(3000), cap); std::memset(p, int(r.below(255)), cap); size_t c2 = 0; double* q = TA::create_array<double>(r.sbelow(300), c2); for(size_t k = 0; k < c2; ++k) q[k] = double(k); double s = 0; for(size_t k = 0; k < c2; ++k) s += q[k]; (void) s; TA::delete_array(q); TA::return_memory(p); if( r.chance(.3) ) TA::free_available(TA::thread_num()); break; } } }
// one task: everything it computes is logged
static void run(const Task& t, Atoms* at, Log& L, Pause pause, std::unique_ptr<CppAD::ADFun<double>>* keep = nullptr)
{   Rng r(t.seed); const Gen& gen = *t.g; const Prog& p = gen.p; size_t n = size_t(p.n), m = p.dep.size(); bool atoms = p.subs.size() > 0, chk1 = t.chk1;
    try
    {   std::unique_ptr<CppAD::ADFun<double>> fp(new CppAD::ADFun<double>()); CppAD::ADFun<double>& f = *fp; Recorder<> rec;
        rec.setup = [&](Interp<A1>& it) { if( atoms ) at->attach(it); it.on_instr = [&](size_t) { pause(); }; }; rec(p, gen.pts[t.rec], f); f.check_for_nan(false); for(char c : rec.cmp) L.put(c); for(auto& z : rec.ay) L.put(CppAD::Value(CppAD::Var2Par(z)));
        Point q = gen.pts[t.rec]; auto fwd = [&]() { L.all(f.Forward(0, q.x)); }; fwd();
        for(int s = 0; s < t.steps; ++s)
        {   pause(); int k = r.below(22); L.what += fmt(" %d@%zu", k, L.v.size());
            switch(k)
            {   case 0: q = gen.pts[r.sbelow(gen.pts.size())]; if( p.nd ) f.new_dynamic(q.d); fwd(); break;
                case 1: { int Q = r.range(1, 3); auto xc = taylor_in(r, q.x, Q); for(int o = 0; o <= Q; ++o) { L.all(f.Forward(size_t(o), xc[size_t(o)])); pause(); } VD w(m * size_t(Q + 1)); for(double& z : w) z = r.uni(-1, 1); L.all(f.Reverse(size_t(Q + 1), w)); break; }
                case 2: { if( chk1 ) break; size_t nd = size_t(r.range(1, 3)); fwd(); VD X(n * nd); for(double& z : X) z = r.uni(-1, 1); L.all(f.Forward(1, nd, X)); break; }
                case 3: case 4: { std::string o; if( r.chance(.3) ) o += "no_conditional_skip "; if( r.chance(.3) ) o += "no_compare_op "; if( r.chance(.2) ) o += "no_cumulative_sum_op "; if( r.chance(.2) ) o += "collision_limit=3 "; f.optimize(o); L.put(double(f.size_var())); fwd(); break; }
                case 5: L.all(f.Jacobian(q.x)); break;
                case 6: { VD w(m); for(double& z : w) z = r.uni(-1, 1); L.all(f.Hessian(q.x, w)); break; }
                case 7: { L.all(f.SparseJacobian(q.x)); break; }
                case 8: { VD w(m); for(double& z : w) z = r.uni(-1, 1); L.all(f.SparseHessian(q.x, w)); break; }
                case 9: { Pat o; f.for_jac_sparsity(eye(n), false, r.chance(.5), r.chance(.5), o); put_pat(L, o); pause(); Pat o2; f.rev_jac_sparsity(eye(m), false, r.chance(.5), r.chance(.5), o2); put_pat(L, o2); break; }
                case 10: { VS dummy; std::vector<bool> sx(n, true), sy(m); for(size_t i = 0; i < m; ++i) sy[i] = r.chance(.7); bool ib = r.chance(.5); Pat o; if( ! chk1 ) { f.for_hes_sparsity(sx, sy, ib, o); put_pat(L, o); } Pat o2; f.for_jac_sparsity(eye(n), false, false, ib, o2); Pat o3; f.rev_hes_sparsity(sy, false, ib, o3); put_pat(L, o3); break; }
                case 11: { if( chk1 ) break; Pat o; std::vector<bool> sx(n, true), sy(m, true); f.subgraph_sparsity(sx, sy, false, o); put_pat(L, o); Mat s(o); f.subgraph_jac_rev(q.x, s); for(size_t e = 0; e < s.nnz(); ++e) L.put(s.val()[s.row_major()[e]]); f.clear_subgraph(); break; }
                case 12: { Pat o; f.for_jac_sparsity(eye(n), false, false, r.chance(.5), o); Mat s(o); CppAD::sparse_jac_work w; if( r.chance(.5) ) L.put(double(f.sparse_jac_for(size_t(r.range(1, 3)), q.x, s, o, "cppad", w))); else L.put(double(f.sparse_jac_rev(q.x, s, o, "cppad", w))); VS rm = s.row_major(); for(size_t e = 0; e < s.nnz(); ++e) L.put(s.val()[rm[e]]); break; }
                case 13: { std::vector<bool> sy(m, true); Pat o, o2; f.for_jac_sparsity(eye(n), false, false, false, o2); f.rev_hes_sparsity(sy, false, false, o); Mat s(o); CppAD::sparse_hes_work w; VD ww(m); for(double& z : ww) z = r.uni(-1, 1); L.put(double(f.sparse_hes(q.x, ww, s, o, r.chance(.5) ? "cppad.symmetric" : "cppad.general", w))); VS rm = s.row_major(); for(size_t e = 0; e < s.nnz(); ++e) L.put(s.val()[rm[e]]); break; }
                case 14: { if( chk1 ) break; auto af = f.base2ad(); std::vector<A1> ax(n), ad; for(size_t j = 0; j < n; ++j) ax[j] = q.x[j]; for(double z : q.d) ad.push_back(z); if( p.nd ) { CppAD::Independent(ax, size_t(0), false, ad); af.new_dynamic(ad); } else CppAD::Independent(ax); std::vector<A1> aw(m), ay = af.Forward(0, ax); for(auto& z : aw) z = A1(r.uni(-1, 1)); pause(); std::vector<A1> dw = af.Reverse(1, aw); CppAD::ADFun<double> h(ax, dw); h.check_for_nan(false); if( r.chance(.5) ) h.optimize(); L.all(h.Forward(0, q.x)); L.all(h.Jacobian(q.x)); break; }
                case 15: { if( atoms ) break; typedef AD<A1> A2_; std::vector<A1> ax(n), ad; for(size_t j = 0; j < n; ++j) ax[j] = q.x[j]; for(double z : q.d) ad.push_back(z); CppAD::Independent(ax); std::vector<A2_> bx(n), bd, by; for(size_t j = 0; j < n; ++j) bx[j] = ax[j]; for(auto& z : ad) bd.push_back(z); CppAD::Independent(bx); Interp<A2_> it(p); it.start(bx, bd); it.run(by); CppAD::ADFun<A1> g(bx, by); g.check_for_nan(false); pause(); std::vector<A1> ay = g.Jacobian(ax); CppAD::ADFun<double> h(ax, ay); h.check_for_nan(false); L.all(h.Forward(0, q.x)); VD w(m * n); for(double& z : w) z = r.uni(-1, 1); L.all(h.Reverse(1, w)); break; }
                case 16: { CppAD::ADFun<double> g; g = f; if( r.chance(.5) ) { std::swap(f, g); f.check_for_nan(false); g.check_for_nan(false); } if( p.nd ) { f.new_dynamic(q.d); g.new_dynamic(q.d); } L.all(g.Forward(0, q.x)); fwd(); break; }
                case 17: { if( atoms ) break; bool vec = p.vecs.size() > 0, pr = false; for(auto& i : p.ins) if( i.op == I_PRINT ) pr = true; if( vec || pr ) break; CppAD::cpp_graph g; f.to_graph(g); CppAD::ADFun<double> h; h.from_graph(g); h.check_for_nan(false); if( p.nd ) h.new_dynamic(q.d); L.all(h.Forward(0, q.x)); L.put(double(g.operator_vec_size())); break; }
                case 18: { std::vector<A1> ax(n), ad; for(size_t j = 0; j < n; ++j) ax[j] = q.x[j]; for(double z : q.d) ad.push_back(z); CppAD::Independent(ax); Interp<A1> it(p); if( atoms ) at->attach(it); it.start(ax, ad); size_t stop = r.sbelow(p.ins.size() + 1); for(size_t e = 0; e < stop; ++e) it.exec(p.ins[e]); AD<double>::abort_recording(); L.put(double(CppAD::Variable(ax[0]))); fwd(); break; }
                case 19: utilities(L, r); break;
                case 20: { fwd(); f.capacity_order(size_t(r.range(0, 3))); fwd(); typedef CppAD::vector<std::set<size_t>> SV; SV a(n), b; for(size_t j = 0; j < n; ++j) a[j].insert(j); b = f.ForSparseJac(n, a); for(size_t i = 0; i < m; ++i) for(size_t j : b[i]) L.put(double(j)); SV u(1); for(size_t i = 0; i < m; ++i) u[0].insert(i); SV h = f.RevSparseHes(n, u); for(size_t i = 0; i < n; ++i) for(size_t j : h[i]) L.put(double(i * n + j)); break; }
                default: { // vectors of other kinds
                    CppAD::vector<double> x(n); for(size_t j = 0; j < n; ++j) x[j] = q.x[j]; L.all(f.Forward(0, x)); CppAD::vectorBool a(n * n); for(size_t j = 0; j < n * n; ++j) a[j] = j % (n + 1) == 0; CppAD::vectorBool b = f.ForSparseJac(n, a); for(size_t j = 0; j < b.size(); ++j) L.put(b[j]); break; } } }
        pause(); if( keep ) *keep = std::move(fp); }
    catch(const cppad_error& e) { L.err += err_key(e) + ":" + e.msg.substr(0, 60); AD<double>::abort_recording(); AD<A1>::abort_recording(); }
    catch(const std::exception& e) { L.err += std::string("exception ") + e.what(); AD<double>::abort_recording(); AD<A1>::abort_recording(); } }
static void engines(Atoms& a, bool make) { for(auto& x : a.a) if( Engine* e = x->engine() ) { if( make ) e->prepare(); else e->release(); } }
static bool compare(const Log& a, const Log& b, const char* key, const Task& t, const std::string& more)
{   rep().count("results", long(a.v.size())); if( a.err != b.err ) { rep().fail(std::string(key) + ":error", "parallel [" + a.err + "] alone [" + b.err + "] " + a.what + more + t.g->p.text()); return false; }
    size_t k = 0; while( k < a.v.size() && k < b.v.size() && same(a.v[k], b.v[k]) ) ++k;
    if( k < a.v.size() || k < b.v.size() ) { rep().fail(key, fmt("result %zu of %zu/%zu: parallel %.17g alone %.17g; steps", k, a.v.size(), b.v.size(), k < a.v.size() ? a.v[k] : 0, k < b.v.size() ? b.v[k] : 0) + a.what + more + t.g->p.text()); return false; }
    return true; }
static void body(long i, Rng& r)
{   size_t nt = size_t(r.range(2, 6)); my_id = 0; bool hold = r.chance(.6); bool alone_first = i % 10000000 >= 40 && r.chance(.5);
    TA::parallel_setup(nt, in_parallel, thread_num); TA::hold_memory(hold); CppAD::parallel_ad<double>(); CppAD::parallel_ad<A1>();
    if( i % 10000000 < 40 || r.chance(.3) )
    {   // the other initializations that are documented
        A1 z(.3); A2 zz(.3); (void) d_floor(z); (void) d_step(z); (void) d_half(z); (void) d_floor(zz); (void) d_step(zz); (void) d_half(zz); (void) CppAD::cpp_graph(); CppAD::cpp_graph(); Method me; VD x(2), e(2); CppAD::Runge45(me, 1, 0., 1., x, e); CppAD::Rosen34(me, 1, 0., 1., x, e);
        CppAD::CheckSimpleVector<std::set<size_t>, CppAD::vector<std::set<size_t>>>(CppAD::local::one_element_std_set<size_t>(), CppAD::local::two_element_std_set<size_t>()); CppAD::CheckNumericType<double>(); CppAD::CheckNumericType<A1>();
        CppAD::CheckSimpleVector<bool, std::vector<bool>>(); CppAD::CheckSimpleVector<size_t, std::vector<size_t>>(); CppAD::CheckSimpleVector<bool, CppAD::vector<bool>>(); CppAD::CheckSimpleVector<size_t, CppAD::vector<size_t>>(); CppAD::CheckSimpleVector<double, CppAD::vector<double>>(); CppAD::CheckSimpleVector<std::complex<double>, CppAD::vector<std::complex<double>>>(); }
    std::vector<size_t> use0(nt); for(size_t t = 0; t < nt; ++t) use0[t] = TA::inuse(t);
    {   // programs, shared atomic functions and tasks
        size_t np = size_t(r.range(1, 3)); std::vector<std::unique_ptr<Gen>> gens; std::vector<std::unique_ptr<Atoms>> ats; std::vector<bool> c1; Mix mix; mix.cmp = true; mix.atom = .6; mix.max_ins = 40; mix.p_big = .05; mix.big = 150; mix.npts = 3;
        for(size_t k = 0; k < np; ++k)
        {   std::unique_ptr<Gen> g; GenCfg c = profile(r, mix); if( c.w_atom > 0 ) c.npts = 2; g.reset(new Gen(r, c)); g->make(); note_prog(*g); bool one = g->p.subs.size() > 0 && r.chance(.3); std::unique_ptr<Atoms> a;
            if( g->p.subs.size() ) { a.reset(new Atoms(g->p, r, one ? 8 : 1 + 2 + 32)); rep().count("shared_atomics", long(a->a.size())); } gens.push_back(std::move(g)); ats.push_back(std::move(a)); c1.push_back(one); }
        std::vector<std::vector<std::pair<size_t, Task>>> todo(nt); size_t total = 0; for(size_t t = 0; t < nt; ++t) { int z = r.range(1, 3); for(int q = 0; q < z; ++q) { size_t k = r.sbelow(np); Task x; x.g = gens[k].get(); x.rec = r.sbelow(gens[k]->pts.size()); x.seed = r.next(); x.steps = r.range(2, 8); x.chk1 = c1[k]; todo[t].push_back({k, x}); ++total; } }
        std::vector<std::vector<Log>> par(nt), alone(nt); std::vector<std::unique_ptr<CppAD::ADFun<double>>> keep(nt);
        auto run_alone = [&]() { for(size_t t = 0; t < nt; ++t) for(auto& q : todo[t]) { alone[t].emplace_back(); run(q.second, ats[q.first].get(), alone[t].back(), Pause{Rng(1), false}); } };
        if( alone_first ) run_alone();
        clk.store(0); uint64_t ps = r.next(); std::atomic<size_t> ready(0); bool freeall = r.chance(.5); std::vector<std::string> bad(nt);
        auto worker = [&](size_t t)
        {   my_id = t; ready.fetch_add(1); while( ready.load() < nt ) std::this_thread::yield(); Pause pause{Rng(ps + t), true};
            std::vector<char> made(ats.size(), 0);
            for(auto& q : todo[t]) { if( ats[q.first] && t > 0 && ! made[q.first] ) { engines(*ats[q.first], true); made[q.first] = 1; } par[t].emplace_back(); bool last = &q == &todo[t].back(); run(q.second, ats[q.first].get(), par[t].back(), pause, last ? &keep[t] : nullptr); if( ! last ) TA::free_available(t); }
            for(size_t k = 0; k < ats.size(); ++k) if( made[k] && freeall ) engines(*ats[k], false); };
        std::vector<std::thread> ths; parallel = true; for(size_t t = 1; t < nt; ++t) ths.emplace_back(worker, t); worker(0); for(auto& t : ths) t.join(); parallel = false; my_id = 0;
        // interleaving that was observed
        unsigned nev = std::min(clk.load(), LOG); uint64_t h = 1469598103934665603ull; long sw = 0; for(unsigned k = 0; k < nev; ++k) { unsigned char z = order_[k].load(); h = (h ^ z) * 1099511628211ull; if( k && z != order_[k - 1].load() ) ++sw; } rep().sig(h); rep().count("events", long(nev)); rep().count("switches", sw); rep().count("threads", long(nt)); rep().count("tasks", long(total)); rep().count(alone_first ? "alone_first" : "parallel_first");
        for(auto& s : contract_failed()) rep().fail("atomic-contract-parallel", s); contract_failed().clear();
        if( ! alone_first ) run_alone();
        for(size_t t = 0; t < nt; ++t) for(size_t k = 0; k < todo[t].size(); ++k)
        {   const Task& x = todo[t][k].second; if( par[t][k].err.size() ) rep().count("errors"); if( ! compare(par[t][k], alone[t][k], "parallel-result", x, fmt(" thread %zu of %zu", t, nt)) ) break; }
        // functions that were made by the threads are used after returning to sequential mode
        for(size_t t = 0; t < nt; ++t) if( keep[t] )
        {   auto& q = todo[t].back(); bool at = q.second.g->p.subs.size() > 0; if( at && ! q.second.chk1 ) my_id = 0; const Prog& p = q.second.g->p; Log a, b; const Point& pt = q.second.g->pts[0]; CppAD::ADFun<double> f; Recorder<> rec; if( at ) rec.setup = [&](Interp<A1>& it) { ats[q.first]->attach(it); }; rec(p, q.second.g->pts[q.second.rec], f); f.check_for_nan(false);
            if( p.nd ) { f.new_dynamic(pt.d); keep[t]->new_dynamic(pt.d); } a.all(keep[t]->Forward(0, pt.x)); b.all(f.Forward(0, pt.x)); VD J = keep[t]->Jacobian(pt.x), K = f.Jacobian(pt.x); rep().count("used_after"); bool ok = a.v.size() == b.v.size(); for(size_t k = 0; ok && k < a.v.size(); ++k) ok = near(a.v[k], b.v[k], 1e-9, 1e-9) || ! (std::fabs(b.v[k]) < 1e8); for(size_t k = 0; ok && k < K.size(); ++k) ok = near(J[k], K[k], 1e-7, 1e-7) || ! (std::fabs(K[k]) < 1e6); if( ! ok ) rep().fail("used-after-parallel", fmt("thread %zu ", t) + vec_text(a.v) + vec_text(b.v) + vec_text(J) + vec_text(K) + p.text() + point_text(pt)); }
        keep.clear(); }
    // all memory is accounted for
    for(size_t t = 0; t < nt; ++t) TA::free_available(t);
    for(size_t t = 0; t < nt; ++t) { if( TA::inuse(t) > use0[t] && t > 0 ) rep().fail("inuse-after-parallel", fmt("thread %zu: %zu before %zu", t, TA::inuse(t), use0[t])); if( TA::available(t) != 0 ) rep().fail("available-after-free", fmt("thread %zu: %zu", t, TA::available(t))); rep().count("accounts"); }
    if( r.chance(.3) )
    {   // back to one thread; the extra memory for the tapes is freed
        TA::hold_memory(false); TA::parallel_setup(1, nullptr, nullptr); CppAD::parallel_ad<double>(); CppAD::parallel_ad<A1>(); for(size_t t = 1; t < nt; ++t) if( TA::inuse(t) != 0 || TA::available(t) != 0 ) rep().fail("memory-of-thread-after-teardown", fmt("thread %zu inuse %zu available %zu", t, TA::inuse(t), TA::available(t))); rep().count("teardown");
        std::vector<A1> ax(1, A1(2.)); CppAD::Independent(ax); std::vector<A1> ay(1, ax[0] * ax[0]); CppAD::ADFun<double> f(ax, ay); if( f.Jacobian(VD(1, 3.))[0] != 6 ) rep().fail("after-teardown", ""); } }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
