// C32: printed and streamed values are exact and only printed when due
#include "../lib/atoms.hpp"
#include <iomanip>
using namespace vf;
static Mix mix() { Mix m; m.print = true; m.atom = .05; m.p_big = .02; m.big = 150; m.max_n = 4; return m; }
// replaces the buffer of std::cout while it exists
struct CatchCout { std::ostringstream s; std::streambuf* old; CatchCout() { old = std::cout.rdbuf(s.rdbuf()); } ~CatchCout() { std::cout.rdbuf(old); } std::string take() { std::string r = s.str(); s.str(""); return r; } };
static void format(Rng& r, std::ostream& s)
{   switch( r.below(5) ) { case 0: break; case 1: s << std::fixed; break; case 2: s << std::scientific; break; case 3: s << std::hexfloat; break; default: s << std::defaultfloat; }
    s << std::setprecision(r.pick(std::vector<int>{0, 1, 3, 6, 10, 17, 25})); if( r.chance(.3) ) s << std::showpos; if( r.chance(.3) ) s << std::uppercase; if( r.chance(.3) ) s << std::showpoint; }
static std::string rtext(Rng& r, std::vector<std::string>& seen)
{   std::string t; if( ! seen.empty() && r.chance(.25) ) return r.pick(seen);
    int n = r.pick(std::vector<int>{0, 0, 1, 2, 3, 5, 10, 30}); if( r.chance(.03) ) n = r.range(900, 1000); bool any = r.chance(.3);
    static const std::string chars = "abcXYZ019 %\\\n\"'=:;,-+."; for(int k = 0; k < n; ++k) t += any ? char(r.range(1, 255)) : chars[r.sbelow(chars.size())];
    seen.push_back(t); return t; }
struct Pr { std::string before, after; bool always; };
// text that a zero order evaluation with results y must print; operands of print k are dependents first + 2 k and first + 2 k + 1. known is false when a position is not finite
template <class V> static std::string expect(const std::vector<Pr>& pr, const V& y, size_t first, const std::ostream& fmt_, bool& known, long* due = nullptr)
{   std::ostringstream s; s.copyfmt(fmt_); known = true;
    for(size_t k = 0; k < pr.size(); ++k)
    {   double pos = y[first + 2 * k], v = y[first + 2 * k + 1]; if( ! pr[k].always && ! std::isfinite(pos) ) { known = false; return ""; }
        if( pr[k].always || pos <= 0 ) { s << pr[k].before << v << pr[k].after; if( due ) ++*due; } }
    return s.str(); }
static void prints(long i, Rng& r)
{   static Mix m0 = mix(); static Mix mv = [] { Mix k = mix(); k.dyn = false; k.atom = 0; k.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW}; return k; }(); bool vg = i % 20 == 2; Mix& m = vg ? mv : m0; std::unique_ptr<Gen> gp; GenCfg g = profile(r, m); if( r.chance(.7) ) g.w_print = 4; gp.reset(new Gen(r, g)); gp->make(); Gen& gen = *gp; note_prog(gen);
    Prog& p = gen.p; size_t first = p.dep.size();
    for(auto& s : p.ins) if( s.op == I_PRINT ) { p.dep.push_back(s.a[0]); p.dep.push_back(s.a[1]); }
    std::vector<Pr> pr; std::vector<std::string> seen; Atoms atoms(p, r); Recorder<> rec; rec.setup = [&](Interp<A1>& it) { atoms.attach(it); };
    auto ctx0 = [&]() { return p.text(); };
    CatchCout out; CppAD::ADFun<double> f;
    Hook<A1>::print_fun() = [&](const A1& pos, const A1& value)
    {   Pr e; e.before = rtext(r, seen); e.after = rtext(r, seen); e.always = false; int form = r.below(6);
        CppAD::VecAD<double> v(2); std::string b = e.before, a = e.after; // the text can be changed after the call
        if( form >= 2 ) { A1 zero(0.), one(1.); if( r.chance(.5) && form < 5 ) { v[zero] = pos; v[one] = value; } else { v[zero] = pos; v[one] = value; } }
        A1 zero(0.), one(1.);
        switch( form )
        {   case 0: CppAD::PrintFor(pos, b.c_str(), value, a.c_str()); break;
            case 1: e.always = true; e.after = ""; CppAD::PrintFor(b.c_str(), value); rep().count("two_arguments"); break;
            case 2: CppAD::PrintFor(v[zero], b.c_str(), value, a.c_str()); rep().count("vecad_position"); break;
            case 3: CppAD::PrintFor(pos, b.c_str(), v[one], a.c_str()); rep().count("vecad_value"); break;
            case 4: CppAD::PrintFor(v[zero], b.c_str(), v[one], a.c_str()); rep().count("vecad_both"); break;
            default: e.always = true; e.after = ""; CppAD::PrintFor(b.c_str(), v[one]); rep().count("vecad_value"); }
        std::fill(b.begin(), b.end(), '#'); std::fill(a.begin(), a.end(), '#'); pr.push_back(e); };
    struct Off { ~Off() { Hook<A1>::print_fun() = nullptr; } } off;
    rec(p, gen.pts[0], f); Hook<A1>::print_fun() = nullptr;
    auto quiet = [&](const char* what) { std::string t = out.take(); if( ! t.empty() ) rep().fail(fmt("printed-by-%s", what), "'" + t.substr(0, 200) + "' " + ctx0()); rep().count("quiet"); };
    quiet("recording");
    if( pr.empty() ) rep().count("no_prints");
    size_t nd = p.dep.size(), n = size_t(p.n); if( nd == 0 ) return;
    CppAD::ADFun<double> h; h = f; int variant = vg ? 3 : r.below(3); std::string vt;
    if( variant == 1 ) { f.optimize(r.pick(std::vector<std::string>{"", "no_conditional_skip", "no_compare_op", "no_cumulative_sum_op"})); vt = "optimized"; quiet("optimize"); }
    else if( variant == 2 ) { CppAD::ADFun<double> k(std::move(h)); f.swap(k); vt = "moved"; quiet("move"); }
    if( vg ) { CppAD::ADFun<double> k; k = f; k.optimize("val_graph no_conditional_skip"); /* the result is checked by C06 */ rep().count("val_graph"); std::string t = out.take(); if( ! t.empty() ) rep().fail("val-graph-optimize-prints", "'" + t.substr(0, 200) + "' " + ctx0()); }
    for(size_t pt = 0; pt < gen.pts.size(); ++pt)
    {   const Point& q = gen.pts[pt]; auto ctx = [&]() { return vt + " " + ctx0() + " " + point_text(q); };
        if( p.nd ) { f.new_dynamic(q.d); quiet("new_dynamic"); }
        bool known; std::ostringstream s; format(r, s); VDb y; auto same = [&](const char* key, const std::string& got, const std::ostream& fm) { long due = 0; std::string want = expect(pr, y, first, fm, known, &due); if( ! known ) { rep().count("position_not_finite"); return; } rep().count("evaluations"); rep().count("printed", due); rep().count("not_due", long(pr.size()) - due);
            if( got != want ) rep().fail(key, "printed '" + got.substr(0, 300) + "' expected '" + want.substr(0, 300) + "' " + ctx()); };
        // zero order
        y = f.Forward(0, q.x, s); quiet("forward-with-stream"); same("print", s.str(), s);
        for(size_t k = 0; k < pr.size(); ++k) for(int e = 0; e < 2; ++e) { const Instr* in = nullptr; size_t c = 0; for(auto& t : p.ins) if( t.op == I_PRINT && c++ == k ) in = &t; double want = gen.v(int(pt), in->a[size_t(e)]), got = y[first + 2 * k + size_t(e)]; if( std::isfinite(want) && ! near(got, want, 1e-6, 1e-9) ) rep().fail("operand", fmt("print %zu operand %d is %.17g not %.17g ", k, e, got, want) + ctx()); rep().count("operands"); }
        // nothing else prints
        int Q = r.range(1, 3); auto xc = taylor_in(r, q.x, Q); s.str("");
        for(int k = 1; k <= Q; ++k) f.Forward(size_t(k), xc[size_t(k)], s);
        if( ! s.str().empty() ) rep().fail("printed-by-higher-order", ctx()); quiet("higher-order");
        { VDb w(nd); for(double& z : w) z = r.uni(-1, 1); f.Reverse(size_t(Q) + 1, w); quiet("reverse"); }
        if( p.subs.empty() && f.size_VecAD() == 0 ) { size_t R = size_t(r.range(1, 3)); VDb xq(n * R); for(double& z : xq) z = r.uni(-1, 1); f.Forward(1, R, xq); quiet("multiple-direction"); }
        // to cout, with its own format
        { std::ostringstream keep; keep.copyfmt(std::cout); format(r, std::cout); y = f.Forward(0, q.x); same("print-cout", out.take(), std::cout); std::cout.copyfmt(keep); }
        // several orders at once
        { s.str(""); VDb xq(n * size_t(Q + 1)); for(size_t j = 0; j < n; ++j) for(int k = 0; k <= Q; ++k) xq[j * size_t(Q + 1) + size_t(k)] = xc[size_t(k)][j]; VDb yq = f.Forward(size_t(Q), xq, s); for(size_t a = 0; a < nd; ++a) y[a] = yq[a * size_t(Q + 1)]; same("print-many-orders", s.str(), s); quiet("many-orders"); rep().count("many_orders"); }
        if( r.chance(.2) ) { CppAD::sparse_rc<std::vector<size_t>> in(n, n, n), o; for(size_t j = 0; j < n; ++j) in.set(j, j, j); f.for_jac_sparsity(in, false, false, true, o); quiet("for_jac_sparsity"); std::vector<bool> sel(nd, true); f.rev_hes_sparsity(sel, false, true, o); quiet("rev_hes_sparsity"); }
        if( r.chance(.3) && p.subs.empty() && pt == 0 )
        {   auto af = f.base2ad(); quiet("base2ad"); std::vector<A1> ax; for(double z : q.x) ax.push_back(z); std::ostringstream t; format(r, t); if( p.nd ) { std::vector<A1> ad; for(double z : q.d) ad.push_back(z); af.new_dynamic(ad); }
            auto ay = af.Forward(0, ax, t); for(size_t a = 0; a < nd; ++a) y[a] = val(ay[a]); same("print-base2ad", t.str(), t); quiet("base2ad-forward"); rep().count("base2ad"); }
    }
}
// streams of values
template <class T, class B> static void streams(Rng& r, const char* tn)
{   auto rnd = [&]() { switch( r.below(8) ) { case 0: return B(0); case 1: return B(-0.0); case 2: return B(r.range(-100, 100)); case 3: return B(r.uni(-1, 1) * std::pow(10., r.range(-30, 30))); case 4: return std::numeric_limits<B>::infinity(); case 5: return std::numeric_limits<B>::quiet_NaN(); case 6: return std::numeric_limits<B>::denorm_min(); default: return B(r.uni(-10, 10)); } };
    std::vector<T> x(2), d(1); B bx[2] = {rnd(), rnd()}, bd = rnd(), bc = rnd(); x[0] = T(bx[0]); x[1] = T(bx[1]); d[0] = T(bd); T c(bc);
    CppAD::Independent(x, size_t(0), true, d); T z = x[0] + x[1], dz = -d[0]; CppAD::VecAD<typename T::value_type> v(3); T i0(0.), i1(1.), i2(2.); v[i0] = z; v[i1] = x[0]; v[i2] = c; B bz = B(val(z)), bdz = B(val(dz)); if( bz != bz || bdz != bdz ) { T::abort_recording(); rep().count("nan_sum"); return; }
    const T* t[] = {&x[0], &x[1], &d[0], &c, &z, &dz}; B b[] = {bx[0], bx[1], bd, bc, bz, bdz};
    std::ostringstream s, u; auto ff = [&](std::ostream& a, std::ostream& e) { Rng r2(r.next()); Rng r3 = r2; format(r2, a); format(r3, e); if( r2.chance(.3) ) { int w = r2.range(0, 30); a << std::setw(w) << std::setfill('*'); e << std::setw(w) << std::setfill('*'); if( r2.chance(.5) ) { a << std::left; e << std::left; } } };
    int N = r.range(1, 8); std::string what;
    for(int k = 0; k < N; ++k) { ff(s, u); size_t q = size_t(r.below(9)); if( q < 6 ) { s << *t[q] << ' '; u << b[q] << ' '; } else if( q == 6 ) { s << v[i0] << ","; u << bz << ","; } else if( q == 7 ) { s << v[i1]; u << bx[0]; } else { s << v[i2]; u << bc; } what += fmt("%d ", int(q)); rep().count("streamed_out"); }
    if( s.str() != u.str() || s.rdstate() != u.rdstate() || s.precision() != u.precision() || s.flags() != u.flags() || s.width() != u.width() ) rep().fail(fmt("stream-out-%s", tn), "'" + s.str() + "' base '" + u.str() + "' " + what);
    // input
    std::string txt; int M = r.range(1, 6); for(int k = 0; k < M; ++k) { switch( r.below(8) ) { case 0: txt += "abc"; break; case 1: txt += fmt("%d", r.range(-1000, 1000)); break; case 2: txt += fmt("%.17g", r.uni(-1, 1)); break; case 3: txt += "1e999"; break; case 4: txt += "-"; break; case 5: txt += fmt("%ge%d", r.uni(-1, 1), r.range(-20, 20)); break; default: txt += fmt("%g", r.uni(-100, 100)); } txt += r.pick(std::vector<std::string>{" ", "\n", "\t ", " ", ""}); }
    std::istringstream is(txt), iu(txt); std::vector<T> kept;
    for(int k = 0; k < M; ++k)
    {   T y = *t[r.below(6)]; B e = B(-7); T* p = &y; if( r.chance(.3) ) p = &z; B before = e; is >> *p; iu >> e; rep().count("streamed_in");
        if( bool(is) != bool(iu) || is.rdstate() != iu.rdstate() || is.tellg() != iu.tellg() ) rep().fail(fmt("stream-in-state-%s", tn), txt);
        if( ! CppAD::Constant(*p) || CppAD::Variable(*p) || CppAD::Dynamic(*p) ) rep().fail(fmt("stream-in-class-%s", tn), txt);
        double got = val(*p); if( ! (before == e && ! iu) && ! (got == double(e) || (got != got && e != e)) ) rep().fail(fmt("stream-in-%s", tn), fmt("%.17g base %.17g ", got, double(e)) + txt);
        kept.push_back(*p); if( ! is ) break; }
    for(auto& y : kept) z = z + T(0.) * y; // z depends on x or is a constant
    std::vector<T> y(kept); y.push_back(x[0] * x[1]); CppAD::ADFun<typename T::value_type> f; f.Dependent(x, y);
    for(size_t k = 0; k < kept.size(); ++k) if( ! f.Parameter(k) ) rep().fail(fmt("stream-in-variable-%s", tn), txt);
    rep().sig(hstr(u.str() + txt)); }
static void body(long i, Rng& r)
{   if( i % 4 == 3 ) { if( r.chance(.6) ) streams<A1, double>(r, "AD"); else streams<A2, double>(r, "ADAD"); } else prints(i, r); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
