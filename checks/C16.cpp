// C16: VecAD vectors behave like arrays whose indices may be computed
#include "../lib/harness.hpp"
using namespace vf;
typedef CppAD::ADFun<double> Fun; typedef CppAD::VecAD<double> Vec;
enum { LOAD, STORE_INT, STORE_BASE, STORE_AD, STORE_REF, BIN, UN, CEXP, COMB, COMB_REF, COMB_BASE, KEEP, USE, IDX, INIT, NKIND };
struct Step { int op, k, i, a, k2, i2, sub; double c; }; // i, i2: >= 0 node, < 0: constant index c / c2
struct P { int nx, ni, nd, nid; std::vector<size_t> len; size_t lmin; std::vector<VDb> init; std::vector<Step> s; std::vector<int> dep; int nnode = 0;
    int N() const { return nx + ni; } int M() const { return nd + nid; }
    std::string text() const { std::string t = fmt("nx=%d ni=%d nd=%d nid=%d len", nx, ni, nd, nid); for(size_t l : len) t += fmt(" %zu", l); static const char* nm[] = {"load", "store_int", "store_base", "store_ad", "store_ref", "bin", "un", "cexp", "comb", "comb_ref", "comb_base", "keep", "use", "idx", "init"};
        for(auto& q : s) t += fmt("; %s k%d i%d a%d k2=%d i2=%d sub%d c=%.17g", nm[q.op], q.k, q.i, q.a, q.k2, q.i2, q.sub, q.c); t += " y="; for(int d : dep) t += fmt("%d ", d); return t; } };
template <class S> S bin(int sub, const S& a, const S& b) { switch(sub % 4) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / (b * b + S(1.5)); } }
template <class S> S un(int sub, const S& a) { using std::sin; using std::tanh; using std::atan; using std::exp; switch(sub % 5) { case 0: return sin(a); case 1: return tanh(a); case 2: return a * S(.5); case 3: return -a; default: return atan(a); } }
// a - 14 operator forms with a reference on the left or right
template <class R, class S> S comb_ref(int k, const R& e, const R& f) { S x = e, y = f; (void) x; (void) y; switch(k % 3) { case 0: return e + f; case 1: return e - f; default: return e * f; } }
// what the vectors hold according to the definition; only the values of the indices matter
template <class S> struct Ref {
    const P& p; std::vector<std::vector<S>> v; std::vector<S> node; std::vector<std::pair<int, size_t>> kept;
    Ref(const P& q) : p(q) { for(auto& z : p.init) { std::vector<S> t; for(double c : z) t.push_back(S(c)); v.push_back(t); } }
    size_t ix(int i, double c) const { double z = i >= 0 ? double(val0(node[size_t(i)])) : c; double f = std::floor(z); return size_t(f); }
    static double val0(const Alg& a) { return double(a.get(0, 0)); } static double val0(double a) { return a; }
    S& at(int k, int i, double c) { return v[size_t(k)].at(ix(i, c)); }
    void step(const Step& q)
    {   double ci = q.c, c2 = double(q.sub % 1000) ; (void) c2;
        switch(q.op)
        {   case LOAD: node.push_back(S(at(q.k, q.i, ci))); break;
            case STORE_INT: at(q.k, q.i, ci) = S(double(q.sub)); break;
            case STORE_BASE: at(q.k, q.i, ci) = S(q.sub * .375); break;
            case STORE_AD: at(q.k, q.i, ci) = S(node[size_t(q.a)]); break;
            case STORE_REF: at(q.k, q.i, ci) = S(at(q.k2, q.i2, q.sub)); break;
            case BIN: node.push_back(bin<S>(q.sub, node[size_t(q.a)], node[size_t(q.i2)])); break;
            case UN: node.push_back(un<S>(q.sub, node[size_t(q.a)])); break;
            case CEXP: node.push_back(val0(node[size_t(q.i)]) < val0(node[size_t(q.k2)]) ? node[size_t(q.a)] : node[size_t(q.i2)]); break;
            case COMB: { S e = at(q.k, q.i, ci); node.push_back(vec_comb<S, S>(e, q.sub, node[size_t(q.a)])); break; }
            case COMB_REF: { S e = at(q.k, q.i, ci), f = at(q.k2, q.i2, double(q.a)); node.push_back(comb_ref<S, S>(q.sub, e, f)); break; }
            case COMB_BASE: { S e = at(q.k, q.i, ci); S b(q.sub * .25); node.push_back(q.a % 3 == 0 ? e + b : q.a % 3 == 1 ? b - e : e * b); break; }
            case KEEP: kept.push_back({q.k, ix(q.i, ci)}); break;
            case USE: node.push_back(v[size_t(kept[size_t(q.k2)].first)][kept[size_t(q.k2)].second]); break;
            case IDX: node.push_back(q.sub % 2 ? node[size_t(q.a)] * S(.5) : (val0(node[size_t(q.a)]) < val0(node[size_t(q.i2)]) ? node[size_t(q.a)] : node[size_t(q.i2)])); break;
            case INIT: break; } }
    std::vector<S> run(const std::vector<S>& x, const std::vector<S>& d) { node = x; node.insert(node.end(), d.begin(), d.end()); for(auto& q : p.s) step(q); std::vector<S> y; for(int k : p.dep) y.push_back(node[size_t(k)]); return y; } };
struct Mach {
    const P& p; std::vector<std::shared_ptr<Vec>>& v; std::vector<A1> node; std::vector<Vec::reference> kept;
    Mach(const P& q, std::vector<std::shared_ptr<Vec>>& w) : p(q), v(w) { kept.reserve(64); }
    A1 ind(int i, double c) const { return i >= 0 ? node[size_t(i)] : A1(c); }
    void step(const Step& q)
    {   auto ref = [&](int k, int i, double c) { return (*v[size_t(k)])[ind(i, c)]; };
        switch(q.op)
        {   case LOAD: { if( q.sub & 1 ) { A1 r = ref(q.k, q.i, q.c); node.push_back(r); } else { A1 r; r = (*v[size_t(q.k)])[ind(q.i, q.c)]; node.push_back(r); } break; }
            case STORE_INT: ref(q.k, q.i, q.c) = int(q.sub); break;
            case STORE_BASE: ref(q.k, q.i, q.c) = double(q.sub * .375); break;
            case STORE_AD: ref(q.k, q.i, q.c) = node[size_t(q.a)]; break;
            case STORE_REF: ref(q.k, q.i, q.c) = ref(q.k2, q.i2, q.sub); break;
            case BIN: { A1 r = bin<A1>(q.sub, node[size_t(q.a)], node[size_t(q.i2)]); node.push_back(r); break; }
            case UN: { A1 r = un<A1>(q.sub, node[size_t(q.a)]); node.push_back(r); break; }
            case CEXP: { A1 r = CppAD::CondExpLt(node[size_t(q.i)], node[size_t(q.k2)], node[size_t(q.a)], node[size_t(q.i2)]); node.push_back(r); break; }
            case COMB: { A1 r = vec_comb<Vec::reference, A1>(ref(q.k, q.i, q.c), q.sub, node[size_t(q.a)]); node.push_back(r); break; }
            case COMB_REF: { A1 r = comb_ref<Vec::reference, A1>(q.sub, ref(q.k, q.i, q.c), ref(q.k2, q.i2, double(q.a))); node.push_back(r); break; }
            case COMB_BASE: { double b = q.sub * .25; A1 r; if( q.a % 3 == 0 ) r = ref(q.k, q.i, q.c) + b; else if( q.a % 3 == 1 ) r = b - ref(q.k, q.i, q.c); else r = ref(q.k, q.i, q.c) * b; node.push_back(r); break; }
            case KEEP: kept.push_back(ref(q.k, q.i, q.c)); break;
            case USE: { A1 r = kept[size_t(q.k2)]; node.push_back(r); break; }
            case IDX: { A1 r = q.sub % 2 ? node[size_t(q.a)] * .5 : CppAD::CondExpLt(node[size_t(q.a)], node[size_t(q.i2)], node[size_t(q.a)], node[size_t(q.i2)]); node.push_back(r); break; }
            case INIT: break; } } };
struct Pt { VDb x, d; };
static Pt make_pt(const P& p, Rng& r)
{   Pt q; auto iv = [&]() { double f = r.chance(.5) ? 0 : r.chance(.2) ? .9375 : r.uni(.05, .95); return double(r.sbelow(p.lmin)) + f; };
    for(int k = 0; k < p.nx; ++k) q.x.push_back(r.uni(-1.5, 1.5)); for(int k = 0; k < p.ni; ++k) q.x.push_back(iv()); for(int k = 0; k < p.nd; ++k) q.d.push_back(r.uni(-1.5, 1.5)); for(int k = 0; k < p.nid; ++k) q.d.push_back(iv()); return q; }
static void make(P& p, Rng& r, const std::vector<size_t>* lens = nullptr)
{   p.nx = r.range(1, 3); p.ni = r.below(3); p.nd = r.below(3); p.nid = r.below(3); int K = lens ? int(lens->size()) : r.range(1, 3); p.lmin = size_t(r.range(1, 4)); if( r.chance(.03) ) p.lmin = size_t(r.range(50, 300));
    if( lens ) { p.len = *lens; p.lmin = 1000; for(size_t l : p.len) p.lmin = std::min(p.lmin, l); } else for(int k = 0; k < K; ++k) p.len.push_back(p.lmin + r.sbelow(3));
    for(int k = 0; k < K; ++k) { VDb z(p.len[size_t(k)]); bool perm = k == K - 1 && K > 1 && r.chance(.6); for(double& c : z) c = perm ? double(r.sbelow(p.lmin)) + (r.chance(.5) ? 0 : .5) : r.chance(.4) ? 0 : r.uni(-2, 2); p.init.push_back(z); }
    int steps = r.chance(.05) ? r.range(30, 120) : r.range(2, 24); std::vector<int> ix, vals; for(int k = 0; k < p.N() + p.M(); ++k) vals.push_back(k); for(int k = 0; k < p.ni; ++k) ix.push_back(p.nx + k); for(int k = 0; k < p.nid; ++k) ix.push_back(p.N() + p.nd + k);
    int nn = p.N() + p.M(), nk = 0, perm = K > 1 && r.chance(.5) ? K - 1 : -1; // every element of the vector perm always holds an index
    if( perm >= 0 ) for(double& c : p.init[size_t(perm)]) c = double(r.sbelow(p.lmin)) + (r.chance(.5) ? 0 : .5);
    auto node = [&]() { return r.chance(.5) ? vals[vals.size() - 1 - r.sbelow(std::min<size_t>(vals.size(), 4))] : vals[r.sbelow(vals.size())]; };
    auto anyix = [&](Step& q, bool second) -> void { int k = second ? q.k2 : q.k; int z = ! ix.empty() && r.chance(.65) ? ix[r.sbelow(ix.size())] : -1; size_t c = r.sbelow(r.chance(.5) ? std::min<size_t>(p.len[size_t(k)], 2) : p.len[size_t(k)]); if( second ) { q.i2 = z; if( q.op == STORE_REF ) q.sub = int(c); else q.a = int(c); } else { q.i = z; q.c = double(c) + (r.chance(.3) ? .75 : 0); } };
    for(int t = 0; t < steps; ++t)
    {   Step q; memset(&q, 0, sizeof(q)); q.i = q.a = q.i2 = -1; q.k = r.below(K); q.k2 = r.below(K); bool res = true, isix = false; int u = r.below(20);
        if( u < 4 ) { q.op = LOAD; q.sub = r.below(2); anyix(q, false); isix = q.k == perm; }
        else if( u < 9 )
        {   static const int st[] = {STORE_INT, STORE_BASE, STORE_AD, STORE_AD, STORE_AD, STORE_REF}; q.op = st[r.below(6)]; res = false; anyix(q, false);
            if( q.k == perm ) { if( q.op == STORE_INT ) q.sub = int(r.sbelow(p.lmin)); else if( q.op == STORE_REF ) { q.k2 = perm; anyix(q, true); } else { if( ix.empty() ) continue; q.op = STORE_AD; q.a = ix[r.sbelow(ix.size())]; } }
            else { q.sub = r.range(-3, 3); q.a = node(); if( q.op == STORE_REF ) { anyix(q, true); } } }
        else if( u < 11 ) { q.op = BIN; q.sub = r.below(4); q.a = node(); q.i2 = node(); }
        else if( u == 11 ) { q.op = UN; q.sub = r.below(5); q.a = node(); }
        else if( u == 12 ) { q.op = CEXP; q.i = node(); q.k2 = node(); q.a = node(); q.i2 = node(); if( q.i == q.k2 ) continue; }
        else if( u < 15 ) { q.op = COMB; q.sub = r.below(n_vec_comb); q.a = node(); anyix(q, false); }
        else if( u == 15 ) { q.op = COMB_REF; q.sub = r.below(3); anyix(q, false); anyix(q, true); }
        else if( u == 16 ) { q.op = COMB_BASE; anyix(q, false); q.sub = r.range(-3, 3); q.a = r.below(3); }
        else if( u == 17 ) { if( nk > 40 ) continue; q.op = KEEP; res = false; anyix(q, false); ++nk; }
        else if( u == 18 ) { if( nk == 0 ) continue; q.op = USE; q.k2 = r.below(nk); }
        else { if( ix.empty() ) continue; q.op = IDX; q.sub = r.below(2); q.a = ix[r.sbelow(ix.size())]; q.i2 = ix[r.sbelow(ix.size())]; isix = true; }
        p.s.push_back(q); if( res ) { vals.push_back(nn); if( isix ) ix.push_back(nn); ++nn; } }
    p.nnode = nn; int m = r.range(1, 4); for(int k = 0; k < m; ++k) p.dep.push_back(node());
}
static bool near_tie(const P& p, const Pt& q) // a comparison between values that rounding could change, or values out of proportion
{   Ref<double> w(p); w.node = q.x; w.node.insert(w.node.end(), q.d.begin(), q.d.end());
    for(auto& s : p.s) { if( s.op == CEXP && std::fabs(w.node[size_t(s.i)] - w.node[size_t(s.k2)]) < 1e-6 ) return true; if( s.op == IDX && s.sub % 2 == 0 && s.a != s.i2 ) { double d = std::fabs(w.node[size_t(s.a)] - w.node[size_t(s.i2)]); if( d != 0 && d < 1e-6 ) return true; } w.step(s); if( ! w.node.empty() && ! (std::fabs(w.node.back()) < 1e6) ) return true; } return false; }
static std::vector<Alg> ref_run(const P& p, const std::vector<VDb>& xc, const VDb& d, bool part) { setcfg(int(xc.size()) - 1, part ? p.N() : 0); Ref<Alg> w(p); return w.run(alg_args(xc, p.N(), part ? 0 : -1), alg_const(d)); }
static std::vector<VDb> taylor_in_(Rng& r, const VDb& x, int Q) { std::vector<VDb> xc(1, x); for(int k = 1; k <= Q; ++k) { VDb t; for(size_t j = 0; j < x.size(); ++j) t.push_back(r.chance(.2) ? 0. : r.uni(-1, 1)); xc.push_back(t); } return xc; }
static bool judge(const P& p, Fun& f, const Pt& q, Rng& r, const char* stage, const std::function<std::string()>& ctx0)
{   auto ctx = [&]() { return ctx0() + " x=" + vec_text(q.x) + " d=" + vec_text(q.d); }; size_t n = size_t(p.N()), m = p.dep.size(); std::string key = stage; bool ok = true;
    if( p.M() ) f.new_dynamic(q.d); int Q = r.range(0, 4); auto xc = taylor_in_(r, q.x, Q); auto want = ref_run(p, xc, q.d, true);
    if( r.chance(.4) ) { VDb u(n * size_t(Q + 1)); for(size_t j = 0; j < n; ++j) for(int k = 0; k <= Q; ++k) u[j * size_t(Q + 1) + size_t(k)] = xc[size_t(k)][j]; VDb y = f.Forward(size_t(Q), u); for(size_t a = 0; a < m; ++a) for(int k = 0; k <= Q && ok; ++k) { double z = Q == 0 ? y[a] : y[a * size_t(Q + 1) + size_t(k)]; ok = check(key + ":forward", z, want[a], k, 0, ctx); } }
    else for(int k = 0; k <= Q && ok; ++k) { VDb y = f.Forward(size_t(k), xc[size_t(k)]); for(size_t a = 0; a < m && ok; ++a) ok = check(key + fmt(":order%d", k), y[a], want[a], k, 0, ctx); }
    if( ! ok ) return false;
    int qq = r.range(1, Q + 1); VDb w(m * size_t(qq)); for(double& t : w) t = r.chance(.3) ? 0 : r.uni(-1, 1); VDb dw = f.Reverse(size_t(qq), w);
    for(size_t j = 0; j < n; ++j) for(int l = 0; l < qq; ++l) { Sum s; for(size_t a = 0; a < m; ++a) for(int k = l; k < qq; ++k) s.add(w[a * size_t(qq) + size_t(k)], want[a], k - l, int(j) + 1); if( ! check_sum(key + ":reverse", dw[j * size_t(qq) + size_t(l)], s, ctx) ) return false; }
    if( r.chance(.3) ) // several directions
    {   size_t nd = size_t(r.range(1, 4)); int K = r.range(1, 2); f.Forward(0, q.x); std::vector<std::vector<VDb>> c(nd, std::vector<VDb>(1, q.x));
        for(int k = 1; k <= K; ++k) { VDb v(n * nd); for(double& z : v) z = r.uni(-1, 1); for(size_t l = 0; l < nd; ++l) { VDb t(n); for(size_t j = 0; j < n; ++j) t[j] = v[j * nd + l]; c[l].push_back(t); } VDb y = f.Forward(size_t(k), nd, v);
            for(size_t l = 0; l < nd; ++l) { auto u = ref_run(p, c[l], q.d, false); for(size_t a = 0; a < m; ++a) if( ! check(key + ":directions", y[a * nd + l], u[a], k, 0, ctx) ) return false; } } rep().count("directions"); }
    rep().count("points"); return true; }
static void program(long, Rng& r)
{   bool twice = r.chance(.25); std::vector<std::shared_ptr<Vec>> v; std::vector<VDb> now; std::vector<size_t> len; int rounds = twice ? 2 : 1; if( twice ) rep().count("reused_vectors");
    for(int round = 0; round < rounds; ++round)
    {   P p; make(p, r, round ? &len : nullptr); std::string how; if( round ) { p.init = now; bool bad = false; for(auto& q : p.s) { (void) q; } // the vectors hold what the previous recording left in them
            // index loads need indices: rewrite the last vector where they are not
            for(size_t k = 0; k < p.init.size(); ++k) for(double& z : p.init[k]) if( ! (z >= 0 && z < double(p.lmin)) ) { bad = bad || k + 1 == p.init.size(); }
            if( bad ) for(double& z : p.init.back()) z = double(r.sbelow(p.lmin)); how = "second recording "; }
        else for(size_t l : p.len) v.emplace_back(new Vec(l));
        len = p.len; std::vector<Pt> pts; for(int t = 0; t < 40 && pts.size() < 5; ++t) { Pt q = make_pt(p, r); if( ! near_tie(p, q) ) pts.push_back(q); } if( pts.empty() ) { rep().count("no_points"); return; }
        auto ctx = [&]() { return how + p.text(); }; rep().sig(hstr(p.text())); rep().sample(p.text()); for(auto& q : p.s) { static const char* nm[] = {"load", "store_int", "store_base", "store_ad", "store_ref", "bin", "un", "cexp", "comb", "comb_ref", "comb_base", "keep", "use", "idx", "init"}; rep().count(nm[q.op]); if( q.op == LOAD || (q.op >= STORE_INT && q.op <= STORE_REF) ) rep().count(q.i < 0 ? "index_constant" : q.i < p.N() ? "index_variable" : q.i < p.N() + p.M() ? "index_dynamic" : "index_computed"); }
        const Pt& q0 = pts[0]; std::vector<A1> ax, ad, ay; for(double z : q0.x) ax.push_back(z); for(double z : q0.d) ad.push_back(z);
        int when = r.below(3); auto fill = [&]() { for(size_t k = 0; k < v.size(); ++k) for(size_t e = 0; e < v[k]->size(); ++e) if( (*v[k])[e] != p.init[k][e] || r.chance(.5) ) { if( r.chance(.7) ) (*v[k])[e] = p.init[k][e]; else (*v[k])[A1(double(e))] = p.init[k][e]; } };
        if( when == 0 ) fill(); if( r.chance(.9) ) CppAD::Independent(ax, ad); else CppAD::Independent(ax, size_t(0), false, ad); if( when ) fill();
        Mach mc(p, v); mc.node.reserve(size_t(p.nnode)); mc.node.insert(mc.node.end(), ax.begin(), ax.end()); mc.node.insert(mc.node.end(), ad.begin(), ad.end()); Ref<Alg>* pr; setcfg(0, 0); Ref<Alg> ra(p); pr = &ra; ra.node = alg_args(std::vector<VDb>(1, q0.x), p.N()); { auto c = alg_const(q0.d); ra.node.insert(ra.node.end(), c.begin(), c.end()); }
        bool aborted = twice && round == 0 && r.chance(.3); size_t stop = aborted ? r.sbelow(p.s.size() + 1) : p.s.size(), done = 0;
        for(auto& s : p.s)
        {   if( done++ == stop ) break; size_t n0 = mc.node.size(); mc.step(s); pr->step(s); if( mc.node.size() != pr->node.size() ) { rep().fail("harness", ctx()); A1::abort_recording(); return; }
            if( mc.node.size() > n0 && ! check("recorded-value", val(mc.node.back()), pr->node.back(), 0, 0, ctx) ) { A1::abort_recording(); return; } }
        now.clear(); for(auto& z : ra.v) { VDb t; for(auto& a : z) t.push_back(double(a.get(0, 0))); now.push_back(t); }
        auto contents = [&](const char* what) { for(size_t k = 0; k < v.size(); ++k) { if( ! CppAD::Constant(*v[k]) ) { rep().fail(std::string(what) + ":not-constant", ctx()); return false; } for(size_t e = 0; e < v[k]->size(); ++e) { double z = (*v[k])[e]; if( ! check(std::string(what) + ":contents", z, ra.v[k][e], 0, 0, ctx) ) return false; now[k][e] = z; } } return true; };
        if( aborted ) { A1::abort_recording(); rep().count("aborted"); setcfg(0, 0); if( ! contents("aborted") ) return; continue; }
        for(int d : p.dep) ay.push_back(mc.node[size_t(d)]); Fun f; if( r.chance(.5) ) f.Dependent(ax, ay); else f.Dependent(ay); f.check_for_nan(false); setcfg(0, 0); if( ! contents("recorded") ) return;
        bool destroyed = round + 1 == rounds && r.chance(.5); if( destroyed ) v.clear(); // the function does not refer to the objects
        else if( r.chance(.5) ) { for(auto& q : v) for(size_t e = 0; e < q->size(); ++e) (*q)[e] = 1e6; if( round + 1 < rounds ) for(auto& z : now) for(double& c : z) c = 1e6; }
        for(auto& q : pts) if( ! judge(p, f, q, r, "replay", ctx) ) return;
        { size_t total = 0; for(size_t k = 0; k < p.len.size(); ++k) total += p.len[k]; if( f.size_VecAD() > total + p.len.size() ) rep().fail("size_VecAD", fmt("%zu ", f.size_VecAD()) + ctx()); }
        if( r.chance(.6) )
        {   std::string o; if( r.chance(.3) ) o += "no_conditional_skip "; if( r.chance(.3) ) o += "no_compare_op "; if( r.chance(.25) ) o += "no_cumulative_sum_op "; if( r.chance(.2) ) o += fmt("collision_limit=%d ", r.range(1, 20)); how += " optimize(" + o + ") "; Fun keep; keep = f; bool ok = true;
            int times = r.range(1, 2); for(int t = 0; t < times; ++t) try { f.optimize(o); } catch(const cppad_error& e) { if( e.msg.find("Error during check") == std::string::npos ) throw; ok = false; f = keep; break; }
            if( ok ) rep().count("optimize"); else rep().count("optimize_self_check_failed"); for(auto& q : pts) if( ! judge(p, f, q, r, "optimized", ctx) ) return; }
        // copies and moves
        if( r.chance(.2) ) { Fun g; g = f; Fun h(std::move(f)); Pt q = pts[pts.size() - 1]; if( ! judge(p, g, q, r, "copy", ctx) || ! judge(p, h, q, r, "moved", ctx) ) return; rep().count("copied"); } }
}
template <class F> static bool known(const F& f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
static void misuse(Rng& r)
{
#ifndef NDEBUG
    size_t n = size_t(r.range(1, 5)); Vec v(n); for(size_t k = 0; k < n; ++k) v[k] = double(k); bool rec = r.chance(.7); std::vector<A1> ax(2); ax[0] = double(r.sbelow(n)); ax[1] = 2.; if( rec ) CppAD::Independent(ax); A1 y;
    if( ! known([&] { v[A1(double(n))] = 1; }) ) rep().fail("misuse:store-constant", ""); if( ! known([&] { A1 z = double(n) + .5; y = v[z]; }) ) rep().fail("misuse:load-constant", ""); if( ! known([&] { y = v[A1(-1.)]; }) ) rep().fail("misuse:negative", ""); if( ! known([&] { v[n] = 2.; }) ) rep().fail("misuse:base-index", "");
    if( rec )
    {   y = v[ax[0]]; if( ! known([&] { v[size_t(0)] = 2.; }) ) rep().fail("misuse:base-index-of-variable", ""); if( ! known([&] { A1 z = ax[0] + double(n); y = v[z]; }) ) rep().fail("misuse:load-variable", "");
        v[ax[0]] = ax[1]; std::vector<A1> ay(1); ay[0] = v[A1(0.)] + y; Fun f(ax, ay); VDb x(2); x[0] = double(n); x[1] = 3; if( ! known([&] { f.Forward(0, x); }) ) rep().fail("misuse:replay-too-large", ""); x[0] = double(n) - .5; f.Forward(0, x); rep().count("misuse_replay"); }
    rep().count("misuse");
#endif
}
static void body(long i, Rng& r) { if( i % 40 == 39 ) misuse(r); else program(i, r); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
