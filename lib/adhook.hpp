#ifndef VF_ADHOOK_HPP
#define VF_ADHOOK_HPP
// interpreter hooks for AD scalars; error handler that throws
#include <cppad/cppad.hpp>
#include "alg.hpp"
#include "prog.hpp"
namespace vf {
using CppAD::AD;
typedef AD<double> A1; typedef AD<A1> A2;
// discrete functions at three levels
inline double d_floor(const double& x) { return disc_eval(0, x); }
inline double d_step (const double& x) { return disc_eval(1, x); }
inline double d_half (const double& x) { return disc_eval(2, x); }
CPPAD_DISCRETE_FUNCTION(double, d_floor)
CPPAD_DISCRETE_FUNCTION(double, d_step)
CPPAD_DISCRETE_FUNCTION(double, d_half)
namespace lev2 {
inline A1 d_floor(const A1& x) { return vf::d_floor(x); }
inline A1 d_step (const A1& x) { return vf::d_step (x); }
inline A1 d_half (const A1& x) { return vf::d_half (x); }
CPPAD_DISCRETE_FUNCTION(A1, d_floor)
CPPAD_DISCRETE_FUNCTION(A1, d_step)
CPPAD_DISCRETE_FUNCTION(A1, d_half)
}
inline A2 d_floor(const A2& x) { return lev2::d_floor(x); }
inline A2 d_step (const A2& x) { return lev2::d_step (x); }
inline A2 d_half (const A2& x) { return lev2::d_half (x); }
inline double val(const A1& x) { return CppAD::Value(CppAD::Var2Par(x)); }
inline double val(const A2& x) { return val(CppAD::Value(CppAD::Var2Par(x))); }
template <class B> struct Hook< AD<B> > {
    typedef AD<B> S;
    static S disc(int which, const S& x)
    {   if( which == 0 ) return d_floor(x); if( which == 1 ) return d_step(x); return d_half(x); }
    static S cexp(int r, const S& l, const S& q, const S& t, const S& f)
    {   switch(r) { case R_LT: return CppAD::CondExpLt(l, q, t, f); case R_LE: return CppAD::CondExpLe(l, q, t, f); case R_EQ: return CppAD::CondExpEq(l, q, t, f);
            case R_GE: return CppAD::CondExpGe(l, q, t, f); default: return CppAD::CondExpGt(l, q, t, f); } }
    static bool rel(int r, const S& a, const S& b)
    {   switch(r) { case R_LT: return a < b; case R_LE: return a <= b; case R_EQ: return a == b; case R_GE: return a >= b; case R_GT: return a > b; default: return a != b; } }
    struct Vec {
        std::shared_ptr< CppAD::VecAD<B> > v;
        void init(const std::vector<double>& d) { v.reset(new CppAD::VecAD<B>(d.size())); for(size_t i = 0; i < d.size(); ++i) (*v)[i] = B(d[i]); }
        S load(const S& i, int form) { S r; if( form == 0 ) r = (*v)[i]; else r = S((*v)[i]) ; return r; }
        S comb(const S& i, int k, const S& x) { return vec_comb<CppAD::VecAD_reference<B>, S>((*v)[i], k, x); }
        void store(const S& i, const S& x, int) { (*v)[i] = x; }
    };
    static std::function<void(const S&, const S&)>& print_fun() { static std::function<void(const S&, const S&)> f; return f; }
    static void print(const S& pos, const S& value, int id) { if( print_fun() ) print_fun()(pos, value); else CppAD::PrintFor(pos, fmt("P%d:", id).c_str(), value, ";"); }
};
struct cppad_error : std::runtime_error { bool known; int line; std::string file, msg; cppad_error(bool k, int l, const char* f, const char* e, const char* m)
    : std::runtime_error(fmt("%s error %s:%d [%s] %s", k ? "known" : "unknown", f, l, e, m)), known(k), line(l), file(f), msg(m) {} };
inline void throw_handler(bool known, int line, const char* file, const char* exp, const char* msg)
{ if( std::uncaught_exceptions() > 0 ) return;    if( std::getenv("VF_ABORT") ) { fprintf(stderr, "%s:%d %s %s\n", file, line, exp, msg); abort(); }
    throw cppad_error(known, line, file, exp, msg); }
// key for an error: file and first words of message
inline std::string err_key(const cppad_error& e)
{   std::string f = e.file; size_t k = f.rfind('/'); if( k != std::string::npos ) f = f.substr(k + 1);
    return std::string(e.known ? "known-error:" : "assert:") + f; }
// coefficient vectors <-> reference
typedef std::vector<double> VDb;
inline void setcfg(int D, int E) { algcfg().D = D; algcfg().E = E; }
} // namespace vf
#endif
