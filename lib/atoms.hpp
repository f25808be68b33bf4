#ifndef VF_ATOMS_HPP
#define VF_ATOMS_HPP
// atomic functions of every interface whose meaning is a sub-program; the callbacks monitor their arguments
#include "work.hpp"
#include <set>
#include <mutex>
namespace vf {
using CppAD::vector; using CppAD::ad_type_enum;
// in parallel mode only failures are noted (reported after returning to sequential mode)
inline std::mutex& contract_mutex() { static std::mutex m; return m; }
inline std::set<std::string>& contract_failed() { static std::set<std::string> s; return s; }
inline void contract(bool ok, const char* what, double a = 0, double b = 0, size_t c = 0) { if( CppAD::thread_alloc::in_parallel() ) { if( ! ok ) { std::lock_guard<std::mutex> l(contract_mutex()); contract_failed().insert(std::string(what) + fmt(" %.17g %.17g %zu", a, b, c)); } return; } rep().count("contract_checks"); if( ! ok ) rep().fail(std::string("atomic-contract:") + what, fmt("%.17g %.17g %zu", a, b, c)); }
// optimization may replace an argument that is not used by zero; checks that know it did not happen set this false
inline bool& contract_relaxed() { static bool b = true; return b; }
// structural dependence of each result on each argument
inline std::vector<std::vector<bool>> prog_depend(const Prog& q)
{   std::vector<std::vector<bool>> nd(size_t(q.nnode), std::vector<bool>(size_t(q.n), false));
    std::vector<std::vector<std::vector<bool>>> sub; for(auto& s : q.subs) sub.push_back(prog_depend(*s));
    for(int j = 0; j < q.n; ++j) nd[size_t(j)][size_t(j)] = true;
    for(auto& i : q.ins) for(int k = 0; k < i.nres; ++k) if( i.op == I_ATOM )
    {   for(size_t a = 0; a < i.more.size(); ++a) if( sub[size_t(i.sub)][size_t(k)][a] ) for(int j = 0; j < q.n; ++j) if( nd[size_t(i.more[a])][size_t(j)] ) nd[size_t(i.ires + k)][size_t(j)] = true; }
    else for(int a = 0; a < 4; ++a) if( i.a[a] >= 0 ) for(int j = 0; j < q.n; ++j) if( nd[size_t(i.a[a])][size_t(j)] ) nd[size_t(i.ires + k)][size_t(j)] = true;
    std::vector<std::vector<bool>> r; for(int d : q.dep) r.push_back(nd[size_t(d)]); return r; }
// how the program of an atomic function calls atomic functions (when those are nested)
inline std::function<void(Interp<A1>&)>& nested_setup() { static std::function<void(Interp<A1>&)> f; return f; }
const size_t max_thread = 8; // every thread has its own copy of the function
struct Engine {
    struct Fun { CppAD::ADFun<double> h; CppAD::ADFun<A1, double> ah; };
    const Prog& q; size_t n, m; std::vector<std::unique_ptr<Fun>> fun; std::vector<std::vector<bool>> dep;
    Engine(const Prog& qq) : q(qq), n(size_t(qq.n)), m(qq.dep.size()), fun(max_thread) { prepare(); dep = prog_depend(q); }
    void prepare()
    {   // inner recording; made while no other recording of this level is active
        Fun* f = new Fun(); std::vector<A1> ax(n); for(auto& z : ax) z = .3; CppAD::Independent(ax); Interp<A1> it(q); if( nested_setup() ) nested_setup()(it); std::vector<A1> ay = it(ax, {}); f->h.Dependent(ax, ay); f->h.check_for_nan(false);
        f->ah = f->h.base2ad(); f->ah.check_for_nan(false); fun[CppAD::thread_alloc::thread_num()].reset(f); }
    void release() { fun[CppAD::thread_alloc::thread_num()].reset(); }
    CppAD::ADFun<double>& h() { return fun[CppAD::thread_alloc::thread_num()]->h; }
    CppAD::ADFun<A1, double>& ah() { return fun[CppAD::thread_alloc::thread_num()]->ah; }
    template <class V> void fwd(size_t up, const V& tx, V& ty, double*)
    {   // arguments that the requested results do not depend on may be nan
        V x(n * (up + 1)); for(size_t i = 0; i < x.size(); ++i) x[i] = tx[i] == tx[i] ? tx[i] : .3; V y = h().Forward(up, x); for(size_t i = 0; i < m * (up + 1); ++i) ty[i] = y[i]; }
    template <class V> void fwd(size_t up, const V& tx, V& ty, A1*) { V x(n * (up + 1)); for(size_t i = 0; i < x.size(); ++i) x[i] = tx[i]; V y = ah().Forward(up, x); for(size_t i = 0; i < m * (up + 1); ++i) ty[i] = y[i]; }
    template <class V> void rev(size_t up, const V& tx, const V& py, V& px, double*) { V x(n * (up + 1)); for(size_t i = 0; i < x.size(); ++i) x[i] = tx[i]; h().Forward(up, x); V d = h().Reverse(up + 1, py); for(size_t i = 0; i < d.size(); ++i) px[i] = d[i]; }
    template <class V> void rev(size_t up, const V& tx, const V& py, V& px, A1*) { V x(n * (up + 1)); for(size_t i = 0; i < x.size(); ++i) x[i] = tx[i]; ah().Forward(up, x); V d = ah().Reverse(up + 1, py); for(size_t i = 0; i < d.size(); ++i) px[i] = d[i]; }
    void types(const vector<ad_type_enum>& tx, vector<ad_type_enum>& ty) const
    {   for(size_t i = 0; i < m; ++i) { ad_type_enum t = CppAD::constant_enum; for(size_t j = 0; j < n; ++j) if( dep[i][j] && tx[j] > t ) t = tx[j]; ty[i] = t; } }
    void jac(const vector<bool>& sx, const vector<bool>& sy, CppAD::sparse_rc<vector<size_t>>& out) const
    {   std::vector<std::pair<size_t, size_t>> e; for(size_t i = 0; i < m; ++i) if( sy[i] ) for(size_t j = 0; j < n; ++j) if( sx[j] && dep[i][j] ) e.push_back({i, j});
        out.resize(m, n, e.size()); for(size_t k = 0; k < e.size(); ++k) out.set(k, e[k].first, e[k].second); }
    bool pair_dep(size_t i, size_t j, size_t k) const { return dep[i][j] && dep[i][k]; }
    void hes(const vector<bool>& sx, const vector<bool>& sy, CppAD::sparse_rc<vector<size_t>>& out) const
    {   std::set<std::pair<size_t, size_t>> e; for(size_t i = 0; i < m; ++i) if( sy[i] ) for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) if( sx[j] && sx[k] && pair_dep(i, j, k) ) e.insert({j, k});
        out.resize(n, n, e.size()); size_t c = 0; for(auto& p : e) out.set(c++, p.first, p.second); }
};
// atomic functions have names of their own (graphs refer to them by name); atom_prog gives the meaning of each name
inline std::map<std::string, const Prog*>& atom_prog() { static std::map<std::string, const Prog*> m; return m; }
inline std::string atom_name(const char* base, const Prog& q) { static long n = 0; std::string s = fmt("%s_%ld", base, n++); atom_prog()[s] = &q; return s; }
struct AtomBase { virtual ~AtomBase() {} virtual Engine* engine() { return nullptr; } virtual void call(const vector<A1>& ax, vector<A1>& ay) = 0; virtual const char* kind() const = 0; };
struct Atom4 : AtomBase, CppAD::atomic_four<double> {
    Engine e; size_t id0; Rng r; bool fill = false; // fill: results that are not selected are nan
    struct Site { std::vector<ad_type_enum> t; std::vector<double> v; }; std::vector<std::vector<Site>> site;
    Atom4(const Prog& q, uint64_t seed) : CppAD::atomic_four<double>(atom_name("vf_atom4", q)), e(q), r(seed), site(max_thread) { id0 = r.sbelow(1000); }
    const char* kind() const override { return "atomic_four"; } Engine* engine() override { return &e; }
    void call(const vector<A1>& ax, vector<A1>& ay) override
    {   Site s; for(size_t j = 0; j < ax.size(); ++j) { s.t.push_back(CppAD::Constant(ax[j]) ? CppAD::constant_enum : CppAD::Dynamic(ax[j]) ? CppAD::dynamic_enum : CppAD::variable_enum); s.v.push_back(val(ax[j])); }
        size_t th = CppAD::thread_alloc::thread_num(); site[th].push_back(s); (*this)(id0 + max_thread * (site[th].size() - 1) + th, ax, ay); }
    Site none; const Site& ck(size_t id) { size_t th = (id - id0) % max_thread, k = (id - id0) / max_thread; bool ok = id >= id0 && k < site[th].size(); contract(ok, "four:call_id"); if( ok ) return site[th][k]; none.t.assign(e.n, CppAD::variable_enum); none.v.assign(e.n, 0); return none; }
    // constants have their value and the higher orders of parameters are zero (arguments that are not used may be nan)
    template <class V> void ckx(const Site& s, size_t up, const V& tx)
    {   for(size_t j = 0; j < e.n; ++j) if( s.t[j] != CppAD::variable_enum )
        {   double z = val(tx[j * (up + 1)]); if( s.t[j] == CppAD::constant_enum ) contract(z == s.v[j] || z != z || (z == 0 && contract_relaxed()), "four:constant-value", z, s.v[j], j);
            for(size_t k = 1; k <= up; ++k) contract(val(tx[j * (up + 1) + k]) == 0, "four:parameter-order"); } }
    void ckz(const Site& s, const vector<bool>& iz) { for(size_t j = 0; j < e.n; ++j) if( iz[j] && ! contract_relaxed() ) contract(s.t[j] == CppAD::constant_enum && s.v[j] == 0, "four:ident_zero", s.t[j], s.v[j], j); }
    bool for_type(size_t id, const vector<ad_type_enum>& tx, vector<ad_type_enum>& ty) override
    {   const Site& s = ck(id); contract(tx.size() == e.n && ty.size() == e.m, "four:for_type-size"); for(size_t j = 0; j < e.n; ++j) contract((contract_relaxed() && tx[j] <= s.t[j]) || tx[j] == s.t[j] || (s.t[j] == CppAD::constant_enum && s.v[j] == 0 && tx[j] == CppAD::identical_zero_enum), "four:type_x"); e.types(tx, ty); return true; }
    template <class V> bool fwd_(size_t id, const vector<bool>& sy, size_t lo, size_t up, const V& tx, V& ty)
    {   const Site& s_ = ck(id); contract(lo <= up, "four:order"); contract(sy.size() == e.m, "four:select_y-size"); contract(tx.size() == e.n * (up + 1) && ty.size() == e.m * (up + 1), "four:taylor-size"); ckx(s_, up, tx); bool any = false; for(size_t i = 0; i < e.m; ++i) any = any || sy[i]; contract(any || contract_relaxed(), "four:select_y-none");
        V t(ty.size()); e.fwd(up, tx, t, (typename V::value_type*)nullptr); for(size_t i = 0; i < e.m; ++i) for(size_t k = lo; k <= up; ++k) { if( sy[i] ) ty[i * (up + 1) + k] = t[i * (up + 1) + k]; else if( fill ) ty[i * (up + 1) + k] = std::nan(""); } return true; }
    template <class V> bool rev_(size_t id, const vector<bool>& sx, size_t up, const V& tx, const V& ty, V& px, const V& py)
    {   const Site& s_ = ck(id); contract(sx.size() == e.n, "four:select_x-size"); contract(tx.size() == e.n * (up + 1) && ty.size() == e.m * (up + 1) && px.size() == tx.size() && py.size() == ty.size(), "four:reverse-size"); ckx(s_, up, tx);
        V t(px.size()); e.rev(up, tx, py, t, (typename V::value_type*)nullptr); for(size_t j = 0; j < e.n; ++j) for(size_t k = 0; k <= up; ++k) { if( sx[j] ) px[j * (up + 1) + k] = t[j * (up + 1) + k]; else if( fill ) px[j * (up + 1) + k] = std::nan(""); } return true; }
    bool forward(size_t id, const vector<bool>& sy, size_t lo, size_t up, const vector<double>& tx, vector<double>& ty) override { return fwd_(id, sy, lo, up, tx, ty); }
    bool forward(size_t id, const vector<bool>& sy, size_t lo, size_t up, const vector<A1>& tx, vector<A1>& ty) override { return fwd_(id, sy, lo, up, tx, ty); }
    bool reverse(size_t id, const vector<bool>& sx, size_t up, const vector<double>& tx, const vector<double>& ty, vector<double>& px, const vector<double>& py) override { return rev_(id, sx, up, tx, ty, px, py); }
    bool reverse(size_t id, const vector<bool>& sx, size_t up, const vector<A1>& tx, const vector<A1>& ty, vector<A1>& px, const vector<A1>& py) override { return rev_(id, sx, up, tx, ty, px, py); }
    bool jac_sparsity(size_t id, bool, const vector<bool>& iz, const vector<bool>& sx, const vector<bool>& sy, CppAD::sparse_rc<vector<size_t>>& out) override
    {   const Site& s_ = ck(id); contract(iz.size() == e.n && sx.size() == e.n && sy.size() == e.m, "four:jac_sparsity-size"); ckz(s_, iz); e.jac(sx, sy, out); return true; }
    bool hes_sparsity(size_t id, const vector<bool>& iz, const vector<bool>& sx, const vector<bool>& sy, CppAD::sparse_rc<vector<size_t>>& out) override
    {   const Site& s_ = ck(id); contract(iz.size() == e.n && sx.size() == e.n && sy.size() == e.m, "four:hes_sparsity-size"); ckz(s_, iz); e.hes(sx, sy, out); return true; }
    bool rev_depend(size_t id, const vector<bool>& iz, vector<bool>& dx, const vector<bool>& dy) override
    {   const Site& s_ = ck(id); contract(iz.size() == e.n && dx.size() == e.n && dy.size() == e.m, "four:rev_depend-size"); ckz(s_, iz); for(size_t j = 0; j < e.n; ++j) { dx[j] = false; for(size_t i = 0; i < e.m; ++i) if( dy[i] && e.dep[i][j] ) dx[j] = true; } return true; }
};
struct Atom3 : AtomBase, CppAD::atomic_three<double> {
    Engine e;
    Atom3(const Prog& q, uint64_t) : CppAD::atomic_three<double>(atom_name("vf_atom3", q)), e(q) {}
    const char* kind() const override { return "atomic_three"; } Engine* engine() override { return &e; }
    void call(const vector<A1>& ax, vector<A1>& ay) override { (*this)(ax, ay); }
    template <class V> void par(const V& p, const vector<ad_type_enum>& tx)
    {   contract(p.size() == e.n && tx.size() == e.n, "three:parameter-size"); for(size_t j = 0; j < e.n; ++j) { contract(tx[j] >= CppAD::constant_enum && tx[j] <= CppAD::variable_enum, "three:type_x");
 } }
    // the zero order Taylor coefficient of a parameter is its value
    template <class V> void parv(const V& p, const vector<ad_type_enum>& tx, const V& t, size_t up)
    {   for(size_t j = 0; j < e.n; ++j) if( tx[j] < CppAD::variable_enum ) contract(p[j] == t[j * (up + 1)] || CppAD::isnan(p[j]) || CppAD::isnan(t[j * (up + 1)]), "three:parameter-value"); }
    bool for_type(const vector<double>& p, const vector<ad_type_enum>& tx, vector<ad_type_enum>& ty) override { par(p, tx); contract(ty.size() == e.m, "three:for_type-size"); e.types(tx, ty); return true; }
    template <class V> bool fwd_(const V& p, const vector<ad_type_enum>& tp, size_t need_y, size_t lo, size_t up, const V& tx, V& ty)
    {   par(p, tp); contract(need_y <= size_t(CppAD::variable_enum) + 1, "three:need_y"); contract(lo <= up, "three:order"); contract(tx.size() == e.n * (up + 1) && ty.size() == e.m * (up + 1), "three:taylor-size"); parv(p, tp, tx, up);
        V t(ty.size()); e.fwd(up, tx, t, (typename V::value_type*)nullptr); vector<ad_type_enum> type_y(e.m); e.types(tp, type_y);
        for(size_t i = 0; i < e.m; ++i) for(size_t k = lo; k <= up; ++k) if( need_y > size_t(CppAD::variable_enum) || type_y[i] == ad_type_enum(need_y) ) ty[i * (up + 1) + k] = t[i * (up + 1) + k]; return true; }
    template <class V> bool rev_(const V& p, const vector<ad_type_enum>& tp, size_t up, const V& tx, const V& ty, V& px, const V& py)
    {   par(p, tp); contract(tx.size() == e.n * (up + 1) && ty.size() == e.m * (up + 1) && px.size() == tx.size() && py.size() == ty.size(), "three:reverse-size"); e.rev(up, tx, py, px, (typename V::value_type*)nullptr); return true; }
    bool forward(const vector<double>& p, const vector<ad_type_enum>& tp, size_t ny, size_t lo, size_t up, const vector<double>& tx, vector<double>& ty) override { return fwd_(p, tp, ny, lo, up, tx, ty); }
    bool forward(const vector<A1>& p, const vector<ad_type_enum>& tp, size_t ny, size_t lo, size_t up, const vector<A1>& tx, vector<A1>& ty) override { return fwd_(p, tp, ny, lo, up, tx, ty); }
    bool reverse(const vector<double>& p, const vector<ad_type_enum>& tp, size_t up, const vector<double>& tx, const vector<double>& ty, vector<double>& px, const vector<double>& py) override { return rev_(p, tp, up, tx, ty, px, py); }
    bool reverse(const vector<A1>& p, const vector<ad_type_enum>& tp, size_t up, const vector<A1>& tx, const vector<A1>& ty, vector<A1>& px, const vector<A1>& py) override { return rev_(p, tp, up, tx, ty, px, py); }
    bool jac_sparsity(const vector<double>& p, const vector<ad_type_enum>& tp, bool, const vector<bool>& sx, const vector<bool>& sy, CppAD::sparse_rc<vector<size_t>>& out) override
    {   par(p, tp); contract(sx.size() == e.n && sy.size() == e.m, "three:jac_sparsity-size"); e.jac(sx, sy, out); return true; }
    bool hes_sparsity(const vector<double>& p, const vector<ad_type_enum>& tp, const vector<bool>& sx, const vector<bool>& sy, CppAD::sparse_rc<vector<size_t>>& out) override
    {   par(p, tp); contract(sx.size() == e.n && sy.size() == e.m, "three:hes_sparsity-size"); e.hes(sx, sy, out); return true; }
    bool rev_depend(const vector<double>& p, const vector<ad_type_enum>& tp, vector<bool>& dx, const vector<bool>& dy) override
    {   par(p, tp); contract(dx.size() == e.n && dy.size() == e.m, "three:rev_depend-size"); for(size_t j = 0; j < e.n; ++j) { dx[j] = false; for(size_t i = 0; i < e.m; ++i) if( dy[i] && e.dep[i][j] ) dx[j] = true; } return true; }
};
struct Atom2 : AtomBase, CppAD::atomic_base<double> {
    Engine e;
    Atom2(const Prog& q, uint64_t seed) : CppAD::atomic_base<double>("vf_atom2"), e(q)
    {   static const CppAD::atomic_base<double>::option_enum o[] = {pack_sparsity_enum, bool_sparsity_enum, set_sparsity_enum}; option(o[seed % 3]); }
    const char* kind() const override { return "atomic_two"; } Engine* engine() override { return &e; }
    void call(const vector<A1>& ax, vector<A1>& ay) override { (*this)(ax, ay); }
    template <class V> bool fwd_(size_t p, size_t q, const vector<bool>& vx, vector<bool>& vy, const V& tx, V& ty)
    {   contract(p <= q, "two:order"); contract(tx.size() == e.n * (q + 1) && ty.size() == e.m * (q + 1), "two:taylor-size");
        if( vx.size() > 0 ) { contract(vx.size() == e.n && vy.size() == e.m && p == 0 && q == 0, "two:vx"); for(size_t i = 0; i < e.m; ++i) { vy[i] = false; for(size_t j = 0; j < e.n; ++j) if( vx[j] && e.dep[i][j] ) vy[i] = true; } }
        V t(ty.size()); e.fwd(q, tx, t, (typename V::value_type*)nullptr); for(size_t i = 0; i < e.m; ++i) for(size_t k = p; k <= q; ++k) ty[i * (q + 1) + k] = t[i * (q + 1) + k]; return true; }
    bool forward(size_t p, size_t q, const vector<bool>& vx, vector<bool>& vy, const vector<double>& tx, vector<double>& ty) override { return fwd_(p, q, vx, vy, tx, ty); }
    bool forward(size_t p, size_t q, const vector<bool>& vx, vector<bool>& vy, const vector<A1>& tx, vector<A1>& ty) override { return fwd_(p, q, vx, vy, tx, ty); }
    template <class V> bool rev_(size_t q, const V& tx, const V& ty, V& px, const V& py) { contract(tx.size() == e.n * (q + 1) && ty.size() == e.m * (q + 1) && px.size() == tx.size() && py.size() == ty.size(), "two:reverse-size"); e.rev(q, tx, py, px, (typename V::value_type*)nullptr); return true; }
    bool reverse(size_t q, const vector<double>& tx, const vector<double>& ty, vector<double>& px, const vector<double>& py) override { return rev_(q, tx, ty, px, py); }
    bool reverse(size_t q, const vector<A1>& tx, const vector<A1>& ty, vector<A1>& px, const vector<A1>& py) override { return rev_(q, tx, ty, px, py); }
    // patterns: rows x q
    typedef vector<std::set<size_t>> SS;
    static bool get(const SS& s, size_t, size_t i, size_t j) { return s[i].count(j) > 0; }
    static bool get(const vector<bool>& s, size_t q, size_t i, size_t j) { return s[i * q + j]; }
    static bool get(const CppAD::vectorBool& s, size_t q, size_t i, size_t j) { return s[i * q + j]; }
    static void put(SS& s, size_t, size_t i, size_t j) { s[i].insert(j); }
    static void put(vector<bool>& s, size_t q, size_t i, size_t j) { s[i * q + j] = true; }
    static void put(CppAD::vectorBool& s, size_t q, size_t i, size_t j) { s[i * q + j] = true; }
    static void clr(SS& s, size_t) { for(size_t i = 0; i < s.size(); ++i) s[i].clear(); }
    static void clr(vector<bool>& s, size_t) { for(size_t i = 0; i < s.size(); ++i) s[i] = false; }
    static void clr(CppAD::vectorBool& s, size_t) { for(size_t i = 0; i < s.size(); ++i) s[i] = false; }
    template <class P> bool fj(size_t q, const P& r, P& s) { clr(s, q); for(size_t i = 0; i < e.m; ++i) for(size_t j = 0; j < e.n; ++j) if( e.dep[i][j] ) for(size_t k = 0; k < q; ++k) if( get(r, q, j, k) ) put(s, q, i, k); return true; }
    template <class P> bool rj(size_t q, const P& rt, P& st) { clr(st, q); for(size_t i = 0; i < e.m; ++i) for(size_t j = 0; j < e.n; ++j) if( e.dep[i][j] ) for(size_t k = 0; k < q; ++k) if( get(rt, q, i, k) ) put(st, q, j, k); return true; }
    template <class P> bool rh(const vector<bool>& vx, const vector<bool>& s, vector<bool>& t, size_t q, const P& r, const P& u, P& v)
    {   contract(vx.size() == e.n && s.size() == e.m && t.size() == e.n, "two:rev_sparse_hes-size");
        for(size_t j = 0; j < e.n; ++j) { t[j] = false; for(size_t i = 0; i < e.m; ++i) if( s[i] && e.dep[i][j] ) t[j] = true; }
        clr(v, q); for(size_t i = 0; i < e.m; ++i) for(size_t j = 0; j < e.n; ++j) if( e.dep[i][j] ) for(size_t k = 0; k < q; ++k) if( get(u, q, i, k) ) put(v, q, j, k);
        for(size_t i = 0; i < e.m; ++i) if( s[i] ) for(size_t j = 0; j < e.n; ++j) for(size_t l = 0; l < e.n; ++l) if( e.pair_dep(i, j, l) ) for(size_t k = 0; k < q; ++k) if( get(r, q, l, k) ) put(v, q, j, k);
        return true; }
    template <class P> bool fh(const vector<bool>& vx, const vector<bool>& r, const vector<bool>& s, P& h)
    {   contract(vx.size() == e.n && r.size() == e.n && s.size() == e.m, "two:for_sparse_hes-size"); clr(h, e.n); for(size_t i = 0; i < e.m; ++i) if( s[i] ) for(size_t j = 0; j < e.n; ++j) for(size_t l = 0; l < e.n; ++l) if( r[j] && r[l] && e.pair_dep(i, j, l) ) put(h, e.n, j, l); return true; }
#define VF_TWO(P) \
    bool for_sparse_jac(size_t q, const P& r, P& s, const vector<double>&) override { return fj(q, r, s); } \
    bool rev_sparse_jac(size_t q, const P& r, P& s, const vector<double>&) override { return rj(q, r, s); } \
    bool rev_sparse_hes(const vector<bool>& vx, const vector<bool>& s, vector<bool>& t, size_t q, const P& r, const P& u, P& v, const vector<double>&) override { return rh(vx, s, t, q, r, u, v); } \
    bool for_sparse_hes(const vector<bool>& vx, const vector<bool>& r, const vector<bool>& s, P& h, const vector<double>&) override { return fh(vx, r, s, h); }
    VF_TWO(SS) VF_TWO(vector<bool>) VF_TWO(CppAD::vectorBool)
};
struct Chk1 : AtomBase {
    const Prog& q; std::unique_ptr<CppAD::checkpoint<double>> c;
    Chk1(const Prog& qq, uint64_t seed) : q(qq)
    {   vector<A1> ax(size_t(q.n)), ay(q.dep.size()); for(size_t j = 0; j < ax.size(); ++j) ax[j] = .3; static const CppAD::atomic_base<double>::option_enum o[] = {CppAD::atomic_base<double>::pack_sparsity_enum, CppAD::atomic_base<double>::bool_sparsity_enum, CppAD::atomic_base<double>::set_sparsity_enum};
        auto su = nested_setup(); auto algo = [this, su](const vector<A1>& x, vector<A1>& y) { Interp<A1> it(q); if( su ) su(it); std::vector<A1> sx(size_t(q.n)); for(size_t j = 0; j < sx.size(); ++j) sx[j] = x[j]; auto sy = it(sx, {}); for(size_t i = 0; i < sy.size(); ++i) y[i] = sy[i]; };
        c.reset(new CppAD::checkpoint<double>("vf_chk1", algo, ax, ay, o[seed % 3], (seed / 3) % 2 == 0)); }
    const char* kind() const override { return "chkpoint_one"; }
    void call(const vector<A1>& ax, vector<A1>& ay) override { (*c)(ax, ay); }
};
struct Chk2 : AtomBase {
    std::unique_ptr<CppAD::chkpoint_two<double>> c;
    Chk2(const Prog& q, uint64_t seed, bool par = false)
    {   Engine e(q); if( seed & 8 ) { contract_relaxed() = true; e.h().optimize(); } c.reset(new CppAD::chkpoint_two<double>(e.h(), atom_name("vf_chk2", q).c_str(), (seed & 1) != 0, true, true, par)); }
    const char* kind() const override { return "chkpoint_two"; }
    void call(const vector<A1>& ax, vector<A1>& ay) override { (*c)(ax, ay); }
};
// kinds: (32 chkpoint_two for use in parallel) bit mask 1 four, 2 three, 4 two, 8 chkpoint_one, 16 chkpoint_two
struct Atoms {
    std::vector<std::unique_ptr<Atoms>> inner; std::vector<std::unique_ptr<AtomBase>> a;
    Atoms(const Prog& p, Rng& r, int mask = 31)
    {   for(auto& s : p.subs)
        {   int k; do k = r.below(6); while( !((mask >> k) & 1) ); uint64_t seed = r.next(); nested_setup() = nullptr;
            if( ! s->subs.empty() ) { inner.emplace_back(new Atoms(*s, r, k == 4 ? mask & ~8 : mask)); Atoms* in = inner.back().get(); nested_setup() = [in](Interp<A1>& it) { in->attach(it); }; }
            switch(k) { case 0: a.emplace_back(new Atom4(*s, seed)); break; case 1: a.emplace_back(new Atom3(*s, seed)); break; case 2: a.emplace_back(new Atom2(*s, seed)); break;
                case 3: a.emplace_back(new Chk1(*s, seed)); break; case 4: a.emplace_back(new Chk2(*s, seed)); break; default: a.emplace_back(new Chk2(*s, seed, true)); }
            nested_setup() = nullptr; rep().count(a.back()->kind()); if( getenv("VF_SHRINK") && ! rep().capture ) printf("  kind %s\n", a.back()->kind()); } }
    bool operator()(int k, const std::vector<A1>& in, std::vector<A1>& out, const Prog& q)
    {   vector<A1> x(in.size()), y(q.dep.size()); for(size_t j = 0; j < in.size(); ++j) x[j] = in[j]; a[size_t(k)]->call(x, y); out.clear(); for(size_t i = 0; i < y.size(); ++i) out.push_back(y[i]); return true; }
    void attach(Interp<A1>& it) { Interp<A1>* pit = &it; it.atom = [this, pit](int k, const std::vector<A1>& in, std::vector<A1>& out) { return (*this)(k, in, out, *pit->p.subs[size_t(k)]); }; }
};
} // namespace vf
#endif
