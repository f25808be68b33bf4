// C33: float, complex and user defined base types have the same calculus as double
#include "../lib/gfser.hpp"
#include "../lib/alg.hpp"
#include "../lib/adhook.hpp"
#include <complex>
namespace vf {
typedef std::complex<double> Cd; typedef std::complex<float> Cf;
template <> struct is_plain<Ser> : std::true_type {};
inline Ser ipow_(const Ser& a, int n) { Ser r(1.0); for(int k = 0; k < std::abs(n); ++k) r = r * a; return n < 0 ? Ser(1.0) / r : r; }
// base types without discrete functions and, except for CondExp, without comparisons
template <class B> struct PlainHook {
    typedef AD<B> S;
    static S disc(int, const S&) { abort(); }
    static bool rel(int, const S&, const S&) { abort(); }
    static S cexp(int r, const S& l, const S& q, const S& t, const S& f)
    {   switch(r) { case R_LT: return CppAD::CondExpLt(l, q, t, f); case R_LE: return CppAD::CondExpLe(l, q, t, f); case R_EQ: return CppAD::CondExpEq(l, q, t, f);
            case R_GE: return CppAD::CondExpGe(l, q, t, f); default: return CppAD::CondExpGt(l, q, t, f); } }
    struct Vec { std::shared_ptr< CppAD::VecAD<B> > v;
        void init(const std::vector<double>& d) { v.reset(new CppAD::VecAD<B>(d.size())); for(size_t i = 0; i < d.size(); ++i) (*v)[i] = B(typename std::conditional<std::is_same<B, float>::value || std::is_same<B, Cf>::value, float, double>::type(d[i])); }
        S load(const S& i, int form) { S r; if( form == 0 ) r = (*v)[i]; else r = S((*v)[i]); return r; }
        S comb(const S& i, int, const S& x) { S e = (*v)[i]; return e + x; }
        void store(const S& i, const S& x, int) { (*v)[i] = x; } };
    static void print(const S&, const S&, int) {}
};
template <> struct Hook< AD<UG> > : PlainHook<UG> {};
template <> struct Hook< AD< AD<UG> > > : PlainHook< AD<UG> > {};
template <> struct Hook< AD<float> > : PlainHook<float> {};
template <> struct Hook< AD<Cd> > : PlainHook<Cd> {};
template <> struct Hook< AD<Cf> > : PlainHook<Cf> {};
// discrete functions of UD
namespace levu {
inline UD d_floor(const UD& x) { return UD(disc_eval(0, x.get())); }
inline UD d_step (const UD& x) { return UD(disc_eval(1, x.get())); }
inline UD d_half (const UD& x) { return UD(disc_eval(2, x.get())); }
CPPAD_DISCRETE_FUNCTION(UD, d_floor)
CPPAD_DISCRETE_FUNCTION(UD, d_step)
CPPAD_DISCRETE_FUNCTION(UD, d_half)
}
inline AD<UD> d_floor(const AD<UD>& x) { return levu::d_floor(x); }
inline AD<UD> d_step (const AD<UD>& x) { return levu::d_step (x); }
inline AD<UD> d_half (const AD<UD>& x) { return levu::d_half (x); }
}
#include "../lib/work.hpp"
using namespace vf;
typedef CppAD::vector<size_t> VS; typedef CppAD::sparse_rc<VS> SR;
static void life_check(const Life& before, const std::string& txt)
{   Life& l = life(); rep().count("user_objects", l.made - before.made);
    if( l.bad != before.bad ) { rep().fail(std::string("user-object-") + l.what, fmt("%ld uses of something that is not an object ", l.bad - before.bad) + txt); }
    if( l.live != before.live ) { rep().fail("user-object-leak", fmt("%ld objects are still alive ", l.live - before.live) + txt); l.live = before.live; } }
// --------------------------------------------------------------------------
// exact arithmetic
struct GGen {
    Rng& r; Prog p; GGen(Rng& rr) : r(rr) {}
    int nn = 0;
    int add(int op, int a = -1, int b = -1, int form = 0, double c = 0, int sub = 0, int a2 = -1, int a3 = -1)
    {   Instr i; i.op = op; i.a[0] = a; i.a[1] = b; i.a[2] = a2; i.a[3] = a3; i.form = form; i.c = c; i.sub = sub; i.ires = nn; i.nres = 1; if( op == I_STORE ) { i.nres = 0; p.ins.push_back(i); return -1; } p.ins.push_back(i); return nn++; }
    int any() { int k = r.below(10); if( k < 5 ) return nn - 1 - r.below(std::min(nn, 6)); if( k < 7 ) return r.below(p.n + p.nd); return r.below(nn); }
    double cval() { switch(r.below(5)) { case 0: return r.range(-3, 3); case 1: return 1; case 2: return 0; case 3: return r.range(-40, 40) / 8.0; default: return r.uni(-2, 2); } }
    double nz() { double c; do c = cval(); while( c == 0 ); return c; }
    int nvi = 0; // the last nvi variables and dynamic parameters are indices in 0..2
    std::vector<int> idx;
    void make(int max_ins)
    {   p.n = r.range(1, 4); p.nd = r.chance(.4) ? 0 : r.range(1, 3); nn = p.n + p.nd; bool vec = r.chance(.3);
        if( vec || r.chance(.3) ) { idx.push_back(p.n - 1); if( p.nd ) idx.push_back(p.n + p.nd - 1); int nv = vec ? r.range(1, 2) : 0; for(int k = 0; k < nv; ++k) p.vecs.push_back({cval(), cval(), cval()}); }
        int ni = r.range(1, max_ins); static const int un[] = {U_NEG, U_PLUS, U_ABS, U_FABS, U_SIGN, U_ATAN, U_ATANH, U_COS, U_COSH, U_EXP, U_EXPM1, U_LOG, U_LOG10, U_LOG1P, U_SIN, U_SINH, U_TAN, U_TANH, U_ERF, U_ERFC};
        while( int(p.ins.size()) < ni )
        {   int k = r.below(20);
            if( k < 6 ) add(un[r.below(int(sizeof(un) / sizeof(int)))], any());
            else if( k < 7 ) { int a = any(); switch(r.below(5)) {
                case 0: add(U_SQRT, add(B_MUL, a, a)); break;
                case 1: case 2: { int q = add(B_MUL, a, a), d = add(B_ADD, q, -1, r.chance(.5) ? 1 : 2, 1), e = add(B_ADD, a, a); int x = add(B_DIV, e, d); add(r.chance(.5) ? U_ASIN : U_ACOS, x); break; }
                case 3: { int q = add(B_MUL, a, a), d = add(B_ADD, q, -1, 1, 1), e = add(B_ADD, a, a); add(U_ACOSH, add(B_DIV, d, e)); break; }
                default: { int q = add(B_MUL, a, a), d = add(B_SUB, q, -1, 1, 1), e = add(B_MUL, a, -1, 2, 2); add(U_ASINH, add(B_DIV, d, e)); } } }
            else if( k < 15 )
            {   int op = r.pick(std::vector<int>{B_ADD, B_ADD, B_SUB, B_SUB, B_MUL, B_MUL, B_DIV, B_AZMUL, B_POW}), form; do form = r.below(10); while( ! form_ok(op, form) ); if( r.chance(.4) ) form = r.chance(.7) ? 0 : (form_ok(op, 3) ? 3 : 0);
                double c = op == B_POW || op == B_DIV ? nz() : cval(); if( form >= 7 ) { c = r.range(1, 5); } if( op == B_POW && form == 1 && c == 1 ) c = 2; add(op, any(), any(), form, c); }
            else if( k == 15 ) add(I_CONST, -1, -1, 0, nz());
            else if( k == 16 ) { int a = r.chance(.7) && ! idx.empty() ? r.pick(idx) : any(), b = r.chance(.2) ? a : any(); if( r.chance(.5) ) b = r.chance(.5) && ! idx.empty() ? r.pick(idx) : add(I_CONST, -1, -1, 0, r.range(0, 2)); if( r.chance(.3) ) std::swap(a, b); add(I_CEXP, a, b, 0, 0, R_EQ, any(), any()); } // a field with a prime number of elements is not ordered
            else if( k == 17 ) add(I_IPOW, any(), -1, 0, r.range(-3, 5));
            else if( vec ) { int ix = r.chance(.4) ? add(I_CONST, -1, -1, 0, r.below(3)) : r.pick(idx); int w = r.below(int(p.vecs.size())); if( r.chance(.4) ) add(I_STORE, ix, any(), 0, 0, w); else add(I_LOAD, ix, -1, r.below(2), 0, w); }
            else { int a = any(), cnt = r.range(2, 5); for(int q = 0; q < cnt; ++q) a = add(r.chance(.5) ? B_ADD : B_SUB, r.chance(.3) ? any() : a, any(), 0); }
        }
        p.nnode = nn; int m = r.range(1, 4); for(int k = 0; k < m; ++k) p.dep.push_back(r.chance(.6) ? nn - 1 - r.below(std::min(nn, 8)) : r.below(nn)); }
    Gf gval() { return r.chance(.1) ? Gf(double(r.range(1, 3))) : Gf::raw(r.next() >> 8); }
};
typedef std::vector<Gf> VG; typedef CppAD::vector<UG> VU;
// coefficients c[k][j]; derivative direction j0 (order zero) or -1
static bool ref(const Prog& p, const std::vector<VG>& c, const VG& d, int j0, std::vector<Ser>& y)
{   ser_order() = int(c.size()) - 1; std::vector<Ser> x(size_t(p.n)), dd; for(size_t j = 0; j < x.size(); ++j) { for(size_t k = 0; k < c.size(); ++k) x[j].c[k].a = c[k][j]; if( int(j) == j0 ) x[j].c[0].b = Gf(1.0); }
    for(auto g : d) dd.push_back(Ser::con(g)); Interp<Ser> it(p); y = it(x, dd); bool ok = true; for(auto& s : it.node) for(auto& z : s.c) if( z.a.bad || z.b.bad ) ok = false; return ok; }
static void exact(long i, Rng& r)
{   GGen g(r); g.make(r.chance(.03) ? 150 : r.pick(std::vector<int>{4, 12, 30})); const Prog& p = g.p; size_t n = size_t(p.n), nd = size_t(p.nd), m = p.dep.size();
    rep().sig(hstr(p.text())); rep().sample("exact " + p.text()); Life before = life();
    int Q = r.pick(std::vector<int>{0, 1, 2, 3, 3, 5, 8}); if( p.ins.size() > 60 ) Q = std::min(Q, 3);
    struct Pt { std::vector<VG> c; VG d; }; std::vector<Pt> pts(3);
    for(auto& t : pts) { t.c.assign(size_t(Q) + 1, VG(n)); for(auto& v : t.c) for(auto& z : v) z = r.chance(.1) ? Gf() : g.gval(); for(auto& z : t.c[0]) z = g.gval(); t.d.resize(nd); for(auto& z : t.d) z = g.gval();
        for(int k : g.idx) { Gf v(double(r.below(3))); if( k < p.n ) t.c[0][size_t(k)] = v; else t.d[size_t(k) - n] = v; } }
    for(auto& t : pts) { std::vector<Ser> y; if( ! ref(p, t.c, t.d, -1, y) ) { rep().count("division_by_zero"); return; } }
    std::string how; auto ctx = [&]() { return how + p.text(); }; rep().count("exact_programs");
    {
    auto us = [](const VG& v) { VU u(v.size()); for(size_t k = 0; k < v.size(); ++k) u[k] = UG(v[k], 0); return u; };
    CppAD::ADFun<UG> f;
    {   std::vector<AD<UG>> ax, ad, ay; for(auto z : pts[0].c[0]) ax.push_back(UG(z, 0)); for(auto z : pts[0].d) ad.push_back(UG(z, 0));
        if( nd ) CppAD::Independent(ax, size_t(0), true, ad); else CppAD::Independent(ax); Interp< AD<UG> > it(p); it.start(ax, ad); it.run(ay);
        if( r.chance(.5) ) f.Dependent(ay); else { CppAD::ADFun<UG> h(ax, ay); f = h; } }
    auto same = [&](const char* key, const UG& got, Gf want, const std::string& w) { rep().count("compared"); if( ! (got.get() == want) ) { rep().fail(key, fmt("%s: %.0f not %.0f ", w.c_str(), got.get().d(), want.d()) + ctx()); return false; } return true; };
    for(int round = 0; round < 3; ++round)
    {   Pt& t = pts[size_t(r.below(3))];
        if( round > 0 ) switch(r.below(4)) { case 0: f.optimize("no_compare_op"); how += "optimize "; break; case 1: f.optimize("no_conditional_skip no_cumulative_sum_op"); how += "optimize "; break;
            case 2: { CppAD::ADFun<UG> h; h = f; h.check_for_nan(true); f = std::move(h); how += "copied "; break; } default: break; }
        if( nd ) f.new_dynamic(us(t.d)); else if( false ) {}
        std::vector<Ser> y; ref(p, t.c, t.d, -1, y); std::vector<std::vector<Ser>> dy(n); for(size_t j = 0; j < n; ++j) ref(p, t.c, t.d, int(j), dy[j]);
        if( r.chance(.3) ) { VU xq((size_t(Q) + 1) * n); for(size_t j = 0; j < n; ++j) for(int k = 0; k <= Q; ++k) xq[j * size_t(Q + 1) + size_t(k)] = UG(t.c[size_t(k)][j], 0); VU yq = f.Forward(size_t(Q), xq);
            for(size_t q = 0; q < m; ++q) for(int k = 0; k <= Q; ++k) if( ! same("exact-forward", yq[q * size_t(Q + 1) + size_t(k)], y[q].c[size_t(k)].a, fmt("result %zu order %d", q, k)) ) return; }
        else for(int k = 0; k <= Q; ++k) { VU yk = f.Forward(size_t(k), us(t.c[size_t(k)])); for(size_t q = 0; q < m; ++q) if( ! same("exact-forward", yk[q], y[q].c[size_t(k)].a, fmt("result %zu order %d", q, k)) ) return; }
        // reverse
        int R = r.below(Q + 1); std::vector<VG> w(size_t(R) + 1, VG(m)); for(auto& v : w) for(auto& z : v) z = r.chance(.3) ? Gf() : g.gval();
        auto want = [&](size_t j, int k) { Gf s; for(size_t q = 0; q < m; ++q) for(int e = k; e <= R; ++e) s = s + w[size_t(e)][q] * dy[j][q].c[size_t(e - k)].b; return s; };
        VU ww(m * size_t(R + 1)); for(size_t q = 0; q < m; ++q) for(int e = 0; e <= R; ++e) ww[q * size_t(R + 1) + size_t(e)] = UG(w[size_t(e)][q], 0);
        VU dw = f.Reverse(size_t(R) + 1, ww); for(size_t j = 0; j < n; ++j) for(int k = 0; k <= R; ++k) if( ! same("exact-reverse", dw[j * size_t(R + 1) + size_t(k)], want(j, k), fmt("argument %zu order %d of %d", j, k, R)) ) return;
        // several directions of one order
        if( r.chance(.4) )
        {   int q = r.range(1, std::max(1, Q)); size_t nr = size_t(r.range(1, 3)); while( int(t.c.size()) <= q ) { t.c.push_back(VG(n)); }
            f.Forward(0, us(t.c[0])); std::vector<Pt> dir(nr, t); for(auto& z : dir) z.c.resize(size_t(q) + 1);
            for(int k = 1; k <= q; ++k) { VU xq(n * nr); for(size_t l = 0; l < nr; ++l) for(size_t j = 0; j < n; ++j) { dir[l].c[size_t(k)][j] = r.chance(.2) ? Gf() : g.gval(); xq[j * nr + l] = UG(dir[l].c[size_t(k)][j], 0); }
                VU yq = f.Forward(size_t(k), nr, xq); for(size_t l = 0; l < nr; ++l) { std::vector<Ser> z; auto cc = dir[l]; cc.c.resize(size_t(k) + 1); ref(p, cc.c, t.d, -1, z); for(size_t a = 0; a < m; ++a) if( ! same("exact-directions", yq[a * nr + l], z[a].c[size_t(k)].a, fmt("result %zu direction %zu order %d", a, l, k)) ) return; } }
            rep().count("directions"); }
        // drivers
        if( r.chance(.5) )
        {   VU x = us(t.c[0]), J = f.Jacobian(x); std::vector<VG> c0(1, t.c[0]); std::vector<VG> jac(m, VG(n)); for(size_t j = 0; j < n; ++j) { std::vector<Ser> z; ref(p, c0, t.d, int(j), z); for(size_t a = 0; a < m; ++a) jac[a][j] = z[a].c[0].b; }
            for(size_t a = 0; a < m; ++a) for(size_t j = 0; j < n; ++j) if( ! same("exact-jacobian", J[a * n + j], jac[a][j], fmt("%zu,%zu", a, j)) ) return;
            SR eye(n, n, n), pat; for(size_t j = 0; j < n; ++j) eye.set(j, j, j); f.for_jac_sparsity(eye, false, false, false, pat); CppAD::sparse_rcv<VS, VU> sub(pat); CppAD::sparse_jac_work work; std::vector<char> seen(m * n, 0);
            if( r.chance(.5) ) f.sparse_jac_for(size_t(r.range(1, 3)), x, sub, pat, "cppad", work); else f.sparse_jac_rev(x, sub, pat, "cppad", work);
            for(size_t k = 0; k < sub.nnz(); ++k) { seen[sub.row()[k] * n + sub.col()[k]] = 1; if( ! same("exact-sparse-jacobian", sub.val()[k], jac[sub.row()[k]][sub.col()[k]], fmt("%zu,%zu", sub.row()[k], sub.col()[k])) ) return; }
            for(size_t a = 0; a < m; ++a) for(size_t j = 0; j < n; ++j) if( ! seen[a * n + j] && jac[a][j].v != 0 ) { rep().fail("exact-pattern", fmt("%zu,%zu ", a, j) + ctx()); return; }
            std::vector<bool> sd(n, true), sr(m, true); CppAD::sparse_rcv<VS, VU> sg; f.subgraph_jac_rev(sd, sr, x, sg); for(size_t k = 0; k < sg.nnz(); ++k) if( ! same("exact-subgraph-jacobian", sg.val()[k], jac[sg.row()[k]][sg.col()[k]], fmt("%zu,%zu", sg.row()[k], sg.col()[k])) ) return;
            rep().count("jacobians"); }
        if( r.chance(.4) )
        {   VU x = us(t.c[0]); VG wt(m); for(auto& z : wt) z = g.gval(); std::vector<VG> hes(n, VG(n)); for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < n; ++l) { std::vector<VG> c1(2, VG(n)); c1[0] = t.c[0]; c1[1][l] = Gf(1.0); std::vector<Ser> z; ref(p, c1, t.d, int(j), z); Gf s; for(size_t a = 0; a < m; ++a) s = s + wt[a] * z[a].c[1].b; hes[j][l] = s; }
            VU H = f.Hessian(x, us(wt)); for(size_t j = 0; j < n * n; ++j) if( ! same("exact-hessian", H[j], hes[j / n][j % n], fmt("%zu", j)) ) return;
            std::vector<bool> sd(n, true), sr(m, true); SR pat; f.for_hes_sparsity(sd, sr, false, pat); CppAD::sparse_rcv<VS, VU> sub(pat); CppAD::sparse_hes_work work; f.sparse_hes(x, us(wt), sub, pat, r.chance(.5) ? "cppad.symmetric" : "cppad.general", work);
            std::vector<char> seen(n * n, 0); for(size_t k = 0; k < sub.nnz(); ++k) { seen[sub.row()[k] * n + sub.col()[k]] = 1; if( ! same("exact-sparse-hessian", sub.val()[k], hes[sub.row()[k]][sub.col()[k]], fmt("%zu,%zu", sub.row()[k], sub.col()[k])) ) return; }
            for(size_t a = 0; a < n * n; ++a) if( ! seen[a] && hes[a / n][a % n].v != 0 ) { rep().fail("exact-hessian-pattern", fmt("%zu ", a) + ctx()); return; }
            rep().count("hessians"); }
        // derivatives of derivatives
        if( round == 2 && r.chance(.3) && p.vecs.empty() )
        {   CppAD::ADFun<AD<UG>, UG> af = f.base2ad(); CppAD::ADFun<UG> h; CppAD::vector<AD<UG>> ax(n), ad(nd), aw(m); VG wt(m); for(size_t j = 0; j < n; ++j) ax[j] = UG(pts[0].c[0][j], 0); for(size_t j = 0; j < nd; ++j) ad[j] = UG(pts[0].d[j], 0); for(size_t a = 0; a < m; ++a) { wt[a] = g.gval(); aw[a] = UG(wt[a], 0); }
            if( nd ) { CppAD::Independent(ax, size_t(0), false, ad); af.new_dynamic(ad); } else CppAD::Independent(ax); af.Forward(0, ax); CppAD::vector<AD<UG>> ay = af.Reverse(1, aw); h.Dependent(ax, ay);
            if( nd ) h.new_dynamic(us(t.d));
            for(int k = 0; k <= Q; ++k) { VU yk = h.Forward(size_t(k), us(t.c[size_t(k)])); for(size_t j = 0; j < n; ++j) { Gf s; for(size_t a = 0; a < m; ++a) s = s + wt[a] * dy[j][a].c[size_t(k)].b; if( ! same("exact-base2ad", yk[j], s, fmt("argument %zu order %d", j, k)) ) return; } }
            rep().count("base2ad"); }
    }
    }
    life_check(before, ctx()); }
// --------------------------------------------------------------------------
// Usr<double> against double: the same sequence of calls has identical results
template <class B> B mk(double d) { return B(d); }
inline double out1(double d) { return d; } inline double out1(const UD& u) { return u.get(); }
template <class B> struct Session {
    std::vector<double> o; std::vector<std::string> lab;
    void put(const char* l, double d) { o.push_back(d); lab.push_back(l); }
    void put(const char* l, const CppAD::vector<B>& v) { for(size_t k = 0; k < v.size(); ++k) put(l, out1(v[k])); }
    void put(const char* l, const SR& v) { put(l, double(v.nnz())); VS k = v.row_major(); for(size_t i = 0; i < v.nnz(); ++i) { put(l, double(v.row()[k[i]])); put(l, double(v.col()[k[i]])); } }
    void run(const Gen& gen, uint64_t seed)
    {   Rng r(seed); const Prog& p = gen.p; size_t n = size_t(p.n), nd = size_t(p.nd), m = p.dep.size(); typedef CppAD::vector<B> V; typedef AD<B> A;
        auto us = [](const VDb& v) { V u(v.size()); for(size_t k = 0; k < v.size(); ++k) u[k] = B(v[k]); return u; };
        auto rnd = [&](size_t k) { VDb v(k); for(auto& z : v) z = r.uni(-1, 1); return us(v); };
        CppAD::ADFun<B> f; { std::vector<A> ax, ad, ay; for(double z : gen.pts[0].x) ax.push_back(B(z)); for(double z : gen.pts[0].d) ad.push_back(B(z)); if( nd ) CppAD::Independent(ax, size_t(0), true, ad); else CppAD::Independent(ax); Interp<A> it(p); it.start(ax, ad); it.run(ay); CppAD::ADFun<B> h(ax, ay); f = h; for(char c : it.cmp) put("comparison", c); for(auto& z : ay) put("recorded", out1(CppAD::Value(CppAD::Var2Par(z)))); }
        int steps = r.range(3, 9); size_t orders = 0; bool dirs = false; const Point* cur = &gen.pts[0];
        for(int s = 0; s < steps; ++s) switch(r.below(14))
        {   case 0: { std::string opt; if( r.chance(.3) ) opt += "no_conditional_skip "; if( r.chance(.3) ) opt += "no_compare_op "; if( r.chance(.3) ) opt += "no_cumulative_sum_op "; orders = 0; f.optimize(opt); put("size_op", double(f.size_var())); break; }
            case 1: case 2: { cur = &gen.pts[r.sbelow(gen.pts.size())]; if( nd ) f.new_dynamic(us(cur->d)); put("forward0", f.Forward(0, us(cur->x))); put("compare_change", double(f.compare_change_number())); orders = 1; dirs = false; break; }
            case 3: case 4: if( orders && ! dirs ) { put("forward", f.Forward(orders, rnd(n))); ++orders; } break;
            case 5: if( orders ) { f.capacity_order(1); size_t nr = size_t(r.range(1, 3)); orders = 1; put("direction1", f.Forward(1, nr, rnd(n * nr))); if( r.chance(.5) ) put("direction2", f.Forward(2, nr, rnd(n * nr))); f.capacity_order(1); orders = 1; dirs = false; } break;
            case 6: if( orders && ! dirs ) put("reverse", f.Reverse(orders, rnd(r.chance(.5) ? m : m * orders))); break;
            case 7: put("jacobian", f.Jacobian(us(cur->x))); orders = 0; break;
            case 8: put("hessian", f.Hessian(us(cur->x), rnd(m))); orders = 0; break;
            case 9: { SR eye(n, n, n), pat; for(size_t j = 0; j < n; ++j) eye.set(j, j, j); f.for_jac_sparsity(eye, false, r.chance(.3), r.chance(.3), pat); put("pattern", pat); CppAD::sparse_rcv<VS, V> sub(pat); CppAD::sparse_jac_work w; if( r.chance(.5) ) f.sparse_jac_for(1, us(cur->x), sub, pat, "cppad", w); else f.sparse_jac_rev(us(cur->x), sub, pat, "cppad", w); if( pat.nr() == m ) put("sparse_jac", sub.val()); orders = 0; break; }
            case 10: { std::vector<bool> sd(n, true), sr(m, true); SR pat; f.for_hes_sparsity(sd, sr, r.chance(.3), pat); put("hes_pattern", pat); CppAD::sparse_rcv<VS, V> sub(pat); CppAD::sparse_hes_work w; f.sparse_hes(us(cur->x), rnd(m), sub, pat, "cppad.symmetric", w); put("sparse_hes", sub.val()); orders = 0; break; }
            case 11: { CppAD::ADFun<B> h; h = f; h.swap(f); orders = f.size_order(); break; }
            case 12: { std::vector<bool> sd(n, true), sr(m, true); CppAD::sparse_rcv<VS, V> sg; f.subgraph_jac_rev(sd, sr, us(cur->x), sg); put("subgraph", sg.val()); orders = 0; break; }
            default: { CppAD::ADFun<A, B> af = f.base2ad(); CppAD::vector<A> ax(n), ad(nd); for(size_t j = 0; j < n; ++j) ax[j] = B(cur->x[j]); for(size_t j = 0; j < nd; ++j) ad[j] = B(cur->d[j]); if( nd ) { CppAD::Independent(ax, size_t(0), false, ad); af.new_dynamic(ad); } else CppAD::Independent(ax); af.Forward(0, ax); CppAD::vector<A> aw(m); for(size_t a = 0; a < m; ++a) aw[a] = B(r.uni(-1, 1)); CppAD::vector<A> ay = af.Reverse(1, aw); CppAD::ADFun<B> h; h.Dependent(ax, ay); put("base2ad", h.Forward(0, us(cur->x))); put("base2ad1", h.Forward(1, rnd(n))); break; } } }
};
static void same_as_double(long i, Rng& r)
{   static Mix m = [] { Mix q; q.cmp = true; q.max_n = 5; return q; }(); std::unique_ptr<Gen> gp; make_case(i, r, m, gp); Gen& gen = *gp; note_prog(gen); uint64_t seed = r.next(); Life before = life(); rep().count("double_programs");
    Session<double> a; std::string ea, eb; bool ka = false, kb = false; try { a.run(gen, seed); } catch(const cppad_error& e) { ea = e.msg; ka = e.known; CppAD::AD<double>::abort_recording(); }
    {   Session<UD> b; try { b.run(gen, seed); } catch(const cppad_error& e) { eb = e.msg; kb = e.known; if( ! e.known ) eb = e.what(); CppAD::AD<UD>::abort_recording(); }
        if( ea != eb || ka != kb ) { rep().fail("double-error", "double: '" + ea + "' user type: '" + eb + "' " + gen.p.text()); return; }
        if( ! ea.empty() ) { rep().count("inconclusive"); return; }
        if( a.o.size() != b.o.size() ) { rep().fail("double-number-of-results", gen.p.text()); return; }
        for(size_t k = 0; k < a.o.size(); ++k) { rep().count("compared"); double x = a.o[k], y = b.o[k]; if( x != x && y != y ) continue; if( bits_of(x) != bits_of(y) && !(x == 0 && y == 0) ) { rep().fail("double-" + a.lab[k], fmt("%.17g not %.17g ", y, x) + gen.p.text()); return; } } }
    life_check(before, gen.p.text()); }
// --------------------------------------------------------------------------
static double rf(double x) { return double(float(x)); }
static void round_prog(Prog& p) { for(auto& s : p.ins) s.c = rf(s.c); for(auto& v : p.vecs) for(auto& z : v) z = rf(z); }
static const std::vector<int> smooth_u = {U_NEG, U_PLUS, U_COS, U_COSH, U_EXP, U_LOG, U_SIN, U_SINH, U_SQRT, U_TAN, U_TANH};
static const std::vector<int> smooth_b = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW};
static void use_float(long i, Rng& r)
{   static Mix mx = [] { Mix q; q.cexp = false; q.disc = false; q.kinks = false; q.ties = false; q.vec = false; q.max_ins = 12; q.p_big = 0; q.sys = true; return q; }(); std::unique_ptr<Gen> gp; make_case(i, r, mx, gp); Gen& gen = *gp; Prog p = gen.p; round_prog(p); note_prog(gen); rep().count("float_programs");
    size_t n = size_t(p.n), nd = size_t(p.nd), m = p.dep.size(); typedef CppAD::vector<float> V; auto us = [](const VDb& v) { V u(v.size()); for(size_t k = 0; k < v.size(); ++k) u[k] = float(v[k]); return u; };
    for(auto& q : gen.pts) { for(auto& z : q.x) z = rf(z); for(auto& z : q.d) z = rf(z); }
    CppAD::ADFun<float> f; { std::vector<AD<float>> ax, ad, ay; for(double z : gen.pts[0].x) ax.push_back(float(z)); for(double z : gen.pts[0].d) ad.push_back(float(z)); if( nd ) CppAD::Independent(ax, size_t(0), true, ad); else CppAD::Independent(ax); Interp<AD<float>> it(p); it.start(ax, ad); it.run(ay); f.Dependent(ax, ay); }
    std::string how; auto ctx = [&]() { return how + p.text(); };
    auto chk = [&](const char* key, double got, ld want, double err) { int a = agree(got, want, err, 200, 1.2e-7); if( a == 2 ) { rep().count("inconclusive"); return true; } rep().count("compared"); if( a == 1 ) { rep().fail(key, fmt("%.9g not %.9Lg tolerance %.3g ", got, want, 200 * 1.2e-7 * err) + ctx()); return false; } return true; };
    for(size_t pt = 0; pt < gen.pts.size(); ++pt)
    {   Point& q = gen.pts[pt]; if( pt == 1 && r.chance(.7) ) { try { f.optimize(); how = "optimized "; } catch(const cppad_error& e) { if( ! e.known ) throw; rep().count("inconclusive"); return; } } if( nd ) f.new_dynamic(us(q.d));
        int Q = r.below(4); auto xc = taylor_in(r, q.x, Q); for(auto& v : xc) for(auto& z : v) z = rf(z); std::vector<Alg> y = alg_run(p, xc, q.d, true);
        for(int k = 0; k <= Q; ++k) { V yk = f.Forward(size_t(k), us(xc[size_t(k)])); for(size_t a = 0; a < m; ++a) if( ! chk("float-forward", yk[a], y[a].get(k, 0), y[a].err(k, 0)) ) return; }
        VDb w(m); for(auto& z : w) z = rf(r.uni(-1, 1)); V dw = f.Reverse(size_t(Q) + 1, us(w)); for(size_t j = 0; j < n; ++j) for(int e = 0; e <= Q; ++e) { Sum s; for(size_t a = 0; a < m; ++a) s.add(w[a], y[a], e, 1 + int(j)); if( ! chk("float-reverse", dw[j * size_t(Q + 1) + size_t(e)], s.v, s.e) ) return; }
        if( r.chance(.3) ) { std::vector<Alg> z = alg_run(p, std::vector<VDb>(1, q.x), q.d, true); V J = f.Jacobian(us(q.x)); for(size_t a = 0; a < m; ++a) for(size_t j = 0; j < n; ++j) if( ! chk("float-jacobian", J[a * n + j], z[a].get(0, 1 + int(j)), z[a].err(0, 1 + int(j))) ) return; } } }
// --------------------------------------------------------------------------
// complex numbers: derivatives by integrals around a circle
template <class C> C cv(const Cd& z) { typedef typename C::value_type T; return C(T(z.real()), T(z.imag())); }
struct CxEval { // the program at complex numbers; false when it is not finite
    const Prog& p; std::vector<Cd> node; double big = 0;
    void operator()(const std::vector<Cd>& x, const std::vector<Cd>& d, std::vector<Cd>& y)
    {   node = x; node.insert(node.end(), d.begin(), d.end());
        for(auto& s : p.ins)
        {   Cd a = s.a[0] >= 0 ? node[size_t(s.a[0])] : Cd(0), z; Cd c(s.c);
            if( s.op < U_LAST_ ) switch(s.op) { case U_NEG: z = -a; break; case U_PLUS: z = a; break; case U_COS: z = std::cos(a); break; case U_COSH: z = std::cosh(a); break; case U_EXP: z = std::exp(a); break; case U_LOG: z = std::log(a); break; case U_SIN: z = std::sin(a); break; case U_SINH: z = std::sinh(a); break; case U_SQRT: z = std::sqrt(a); break; case U_TAN: z = std::tan(a); break; case U_TANH: z = std::tanh(a); break; default: abort(); }
            else if( s.op < B_LAST_ ) { bool ca = s.form == 2 || s.form == 5 || s.form == 8, cb = s.form == 1 || s.form == 4 || s.form == 6 || s.form == 7 || s.form == 9; Cd u = ca ? c : a, v = cb ? c : (ca ? a : node[size_t(s.a[1])]);
                switch(s.op) { case B_ADD: z = u + v; break; case B_SUB: z = u - v; break; case B_MUL: z = u * v; break; case B_DIV: z = u / v; break; case B_POW: z = std::pow(u, v); break; default: abort(); } }
            else if( s.op == I_CONST ) z = c;
            else if( s.op == I_IPOW ) { z = 1; for(int k = 0; k < std::abs(int(s.c)); ++k) z *= a; if( s.c < 0 ) z = 1. / z; }
            else abort();
            big = std::max(big, std::abs(z)); if( !(std::abs(z) < 1e6) ) big = 1e300; node.push_back(z); }
        y.clear(); for(int k : p.dep) y.push_back(node[size_t(k)]); }
};
struct Est { Cd v; double tol; };
// coefficients of order 0..Q of y( sum_k xc[k] t^k )
static void cauchy(const Prog& p, const std::vector<std::vector<Cd>>& xc, const std::vector<Cd>& d, double rho, int N, std::vector<std::vector<Cd>>& out, double& big)
{   size_t m = p.dep.size(), Q = xc.size() - 1; out.assign(Q + 1, std::vector<Cd>(m)); CxEval ev{p, {}, 0}; std::vector<Cd> y, x(xc[0].size());
    for(int j = 0; j < N; ++j) { Cd t = std::polar(rho, 2 * M_PI * j / N); for(size_t l = 0; l < x.size(); ++l) { Cd s = 0; for(size_t k = Q + 1; k-- > 0;) s = s * t + xc[k][l]; x[l] = s; } ev(x, d, y); Cd tk = 1; for(size_t k = 0; k <= Q; ++k, tk *= t) for(size_t a = 0; a < m; ++a) out[k][a] += y[a] / tk / double(N); }
    big = ev.big; }
template <class C> static void use_complex(long i, Rng& r, const char* name)
{   static Mix mx = [] { Mix q; q.cexp = false; q.disc = false; q.kinks = false; q.ties = false; q.vec = false; q.max_ins = 10; q.p_big = 0; q.sys = true; q.unary_ops = smooth_u; q.binary_ops = smooth_b; return q; }();
    std::unique_ptr<Gen> gp; make_case(i, r, mx, gp); Gen& gen = *gp; Prog p = gen.p; if( rep().only >= 0 ) puts(p.text().c_str()); for(auto& s : p.ins) if( s.op > I_CONST && s.op != I_IPOW ) return; round_prog(p); note_prog(gen); bool fl = sizeof(typename C::value_type) == 4; double eps = fl ? 1.2e-7 : 2.3e-16; rep().count(fl ? "complex_float_programs" : "complex_programs");
    size_t n = size_t(p.n), nd = size_t(p.nd), m = p.dep.size(); typedef CppAD::vector<C> V; typedef std::vector<Cd> VC; auto us = [](const VC& v) { V u(v.size()); for(size_t k = 0; k < v.size(); ++k) u[k] = cv<C>(v[k]); return u; };
    double im = r.pick(VDb{0, .1, .4}); auto pt = [&](const VDb& v) { VC u; for(double z : v) u.push_back(Cd(rf(z), im ? rf(r.uni(-im, im)) : 0)); return u; };
    CppAD::ADFun<C> f; { std::vector<AD<C>> ax, ad, ay; for(auto z : pt(gen.pts[0].x)) ax.push_back(cv<C>(z)); for(auto z : pt(gen.pts[0].d)) ad.push_back(cv<C>(z)); if( nd ) CppAD::Independent(ax, size_t(0), true, ad); else CppAD::Independent(ax); Interp<AD<C>> it(p); it.start(ax, ad); it.run(ay); f.Dependent(ax, ay); }
    std::string how; auto ctx = [&]() { return how + p.text(); };
    auto chk = [&](const std::string& key, C got, const Est& e) { if( !(e.tol < (fl ? 1e-2 : 1e-5) * (1 + std::abs(e.v))) ) { rep().count("inconclusive"); return true; } rep().count("compared"); double er = std::abs(Cd(got.real(), got.imag()) - e.v); if( !(er <= e.tol) ) { rep().fail(std::string(name) + key, fmt("(%.9g,%.9g) not (%.9g,%.9g) tolerance %.3g ", double(got.real()), double(got.imag()), e.v.real(), e.v.imag(), e.tol) + ctx()); return false; } return true; };
    const int N = 32;
    auto est = [&](const std::vector<VC>& xc, const VC& d, std::vector<std::vector<Est>>& e) { double rho = .125; std::vector<VC> a, b; double ba, bb; cauchy(p, xc, d, rho, N, a, ba); cauchy(p, xc, d, rho * .7, N, b, bb); e.assign(xc.size(), std::vector<Est>(m)); for(size_t k = 0; k < xc.size(); ++k) for(size_t q = 0; q < m; ++q) { Est& z = e[k][q]; z.v = a[k][q]; z.tol = 100 * std::abs(a[k][q] - b[k][q]) + (fl ? 3000 : 1e4) * (eps * (1 + std::max(ba, bb)) + 2.3e-16 * (1 + std::max(ba, bb)) / std::pow(rho * .7, double(k))); if( fl ) z.tol += 1e-4 * std::abs(z.v) * (1 + std::max(ba, bb)); if( !(z.tol == z.tol) ) z.tol = 1e300; } };
    for(size_t q = 0; q < 2; ++q)
    {   Point& g = gen.pts[q % gen.pts.size()]; if( q == 1 && r.chance(.7) ) { try { f.optimize("no_compare_op"); how = "optimized "; } catch(const cppad_error& e) { if( ! e.known ) throw; rep().count("inconclusive"); return; } }
        VC d = pt(g.d); if( nd ) f.new_dynamic(us(d)); int Q = r.below(4); std::vector<VC> xc(size_t(Q) + 1); xc[0] = pt(g.x); for(int k = 1; k <= Q; ++k) for(size_t j = 0; j < n; ++j) xc[size_t(k)].push_back(r.chance(.2) ? Cd(0) : Cd(rf(r.uni(-1, 1)), rf(r.uni(-1, 1))));
        std::vector<std::vector<Est>> e; est(xc, d, e);
        for(int k = 0; k <= Q; ++k) { V y = f.Forward(size_t(k), us(xc[size_t(k)])); for(size_t a = 0; a < m; ++a) if( ! chk("-forward", y[a], e[size_t(k)][a]) ) return; }
        // reverse: derivative of the weighted coefficient of order Q
        VC w(m); for(auto& z : w) z = Cd(rf(r.uni(-1, 1)), rf(r.uni(-1, 1))); V ww(m * size_t(Q + 1)); for(size_t a = 0; a < m; ++a) for(int k = 0; k <= Q; ++k) ww[a * size_t(Q + 1) + size_t(k)] = k == Q ? cv<C>(w[a]) : C(0);
        V dw = f.Reverse(size_t(Q) + 1, ww); size_t j = r.sbelow(n); int k0 = r.below(Q + 1);
        auto wder = [&](double s0, double rho, double& big) { const int M = 12; Cd sum = 0; big = 0; for(int l = 0; l < M; ++l) { Cd s = std::polar(s0, 2 * M_PI * l / M); auto x2 = xc; x2[size_t(k0)][j] += s; std::vector<VC> o; double b; cauchy(p, x2, d, rho, 16, o, b); big = std::max(big, b); Cd W = 0; for(size_t a = 0; a < m; ++a) W += w[a] * o[size_t(Q)][a]; sum += W / s / double(M); } return sum; };
        double b1, b2; Cd v1 = wder(.1, .1, b1), v2 = wder(.07, .08, b2); Est z; z.v = v2; b1 = std::max(b1, b2); z.tol = 100 * std::abs(v1 - v2) + (fl ? 3000 : 1e4) * (eps * (1 + b1) + 2.3e-16 * (1 + b1) / std::pow(.08, Q + 1.)); if( fl ) z.tol += 1e-4 * std::abs(v2) * (1 + b1); if( !(z.tol == z.tol) ) z.tol = 1e300;
        if( ! chk("-reverse", dw[j * size_t(Q + 1) + size_t(k0)], z) ) return; } }
static void body(long i, Rng& r)
{   try { switch(i % 8) { case 0: case 1: case 2: exact(i, r); break; case 3: case 4: same_as_double(i / 8 * 2 + i % 8 - 3, r); break; case 5: use_float(i / 8, r); break; case 6: use_complex<Cd>(i / 8, r, "complex"); break; default: if( i % 16 == 7 ) use_complex<Cf>(i / 16, r, "complex-float"); else exact(i, r); } }
    catch(...) { AD<UG>::abort_recording(); AD<UD>::abort_recording(); AD<float>::abort_recording(); AD<Cd>::abort_recording(); AD<Cf>::abort_recording(); throw; } }
int main(int c, char** v) { return harness_main(c, v, body); }
