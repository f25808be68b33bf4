#ifndef VF_HARNESS_HPP
#define VF_HARNESS_HPP
#include "adhook.hpp"
namespace vf {
// run cases lo..hi step; each case gets its own generator
inline void run_cases(const std::function<void(long, Rng&)>& body)
{   Report& R = rep();
    CppAD::ErrorHandler eh(throw_handler);
    for(long i = R.lo; i < R.hi; i += R.step)
    {   R.begin(i); Rng r(R.case_seed(i));
        try { body(i, r); }
        catch(const cppad_error& e)
        {   R.fail("unexpected-" + err_key(e), e.what()); CppAD::AD<double>::abort_recording(); CppAD::AD<A1>::abort_recording(); }
        catch(const std::exception& e)
        {   R.fail("exception", e.what()); CppAD::AD<double>::abort_recording(); CppAD::AD<A1>::abort_recording(); }
    }
}
inline int harness_main(int argc, char** argv, const std::function<void(long, Rng&)>& body)
{   rep().args(argc, argv); run_cases(body); return rep().finish(); }

template <class B> std::vector<AD<B>> to_ad(const VDb& x) { std::vector<AD<B>> r; for(double z : x) r.push_back(AD<B>(B(z))); return r; }
// record program p at point q
template <class S = A1> struct Recorder {
    std::function<void(Interp<S>&)> setup;
    std::vector<S> ax, ad, ay;
    std::vector<char> cmp;
    template <class F> void operator()(const Prog& p, const Point& q, F& f, size_t abort_index = 0, bool record_compare = true, bool use_dep = false)
    {   ax.clear(); ad.clear();
        for(double z : q.x) ax.push_back(S(z)); for(double z : q.d) ad.push_back(S(z));
        if( ad.size() == 0 && abort_index == 0 && record_compare ) CppAD::Independent(ax); else CppAD::Independent(ax, abort_index, record_compare, ad);
        Interp<S> it(p); if( setup ) setup(it);
        it.start(ax, ad); it.run(ay); cmp = it.cmp;
        if( use_dep ) f.Dependent(ax, ay); else f.Dependent(ay);
    }
};
// x as reference algebra: order k coefficients xc[k][j] (k <= D); eps_j perturbs coefficient (ek) of argument j when E == n
inline std::vector<Alg> alg_args(const std::vector<VDb>& xc, int n, int eps_order = -1)
{   std::vector<Alg> r; for(int j = 0; j < n; ++j) { Alg a; for(size_t k = 0; k < xc.size(); ++k) a.set(int(k), 0, xc[k][size_t(j)]); if( eps_order >= 0 ) a.set(eps_order, 1 + j, 1.0); r.push_back(a); } return r; }
inline std::vector<Alg> alg_const(const VDb& d) { std::vector<Alg> r; for(double z : d) r.push_back(Alg(z)); return r; }
// all coefficients up to order D of the results with partials w.r.t. the order zero (or eo) coefficients of x
inline std::vector<Alg> alg_run(const Prog& p, const std::vector<VDb>& xc, const VDb& d, bool partials, int eo = 0)
{   setcfg(int(xc.size()) - 1, partials ? p.n : 0); Interp<Alg> ia(p); return ia(alg_args(xc, p.n, partials ? eo : -1), alg_const(d)); }
// compare a sum sum_i w_i * a_i
struct Sum { ld v = 0; double e = 0; void add(double w, const Alg& a, int k, int c) { v += ld(w) * a.get(k, c); e += std::fabs(w) * a.err(k, c); } };
inline bool check_sum(const std::string& key, double got, const Sum& s, const std::function<std::string()>& ctx, double fac = 1e4)
{   int a = agree(got, s.v, s.e, fac); Report& R = rep();
    if( a == 2 ) { R.count("inconclusive"); return true; }
    R.count("compared");
    if( a == 1 ) { R.fail(key, fmt("got %.17g want %.17Lg tol %.3g ", got, s.v, fac * 2.3e-16 * s.e) + ctx()); return false; }
    return true; }
// compare and report; returns true unless a violation was found
inline bool check(const std::string& key, double got, const Alg& want, int k, int w, const std::function<std::string()>& ctx, double fac = 2e3)
{   int a = agree(got, want.get(k, w), want.err(k, w), fac);
    Report& R = rep();
    if( a == 2 ) { R.count("inconclusive"); return true; }
    R.count("compared");
    if( a == 1 ) { R.fail(key, fmt("got %.17g want %.17Lg tol %.3g ", got, want.get(k, w), fac * 2.3e-16 * want.err(k, w)) + ctx()); return false; }
    return true;
}
inline bool near(double a, double b, double rel, double abs_) { if( a == b ) return true; if( a != a && b != b ) return true; return std::fabs(a - b) <= abs_ + rel * (std::fabs(a) + std::fabs(b)); }
inline std::string vec_text(const VDb& x) { std::string s = "["; for(double z : x) s += fmt("%.17g ", z); return s + "]"; }
inline std::string point_text(const Point& q) { return "x=" + vec_text(q.x) + " d=" + vec_text(q.d); }
} // namespace vf
#endif
