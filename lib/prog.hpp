#ifndef VF_PROG_HPP
#define VF_PROG_HPP
// Random straight line programs, and an interpreter templated on scalar type.
#include <vector>
#include <string>
#include <cmath>
#include <functional>
#include <memory>
#include <type_traits>
#include "rng.hpp"
#include "report.hpp"
namespace vf {
enum Op {
    U_NEG, U_PLUS, U_ABS, U_FABS, U_SIGN, U_ACOS, U_ACOSH, U_ASIN, U_ASINH, U_ATAN, U_ATANH, U_COS, U_COSH,
    U_EXP, U_EXPM1, U_LOG, U_LOG10, U_LOG1P, U_SIN, U_SINH, U_SQRT, U_TAN, U_TANH, U_ERF, U_ERFC,
    U_LAST_, // number of unary ops
    B_ADD = 30, B_SUB, B_MUL, B_DIV, B_POW, B_ATAN2, B_AZMUL, B_LAST_,
    I_CONST = 40,  // c
    I_IPOW,        // pow(a0, int)
    I_CEXP,        // sub = relation; a0 rel a1 ? a2 : a3
    I_CMP,         // record the bool a0 rel a1, no result node
    I_DISC,        // sub = which discrete function
    I_LOAD,        // vec[sub][a0]
    I_STORE,       // vec[sub][a0] = a1, no result node
    I_ATOM,        // sub program number sub; args in 'more', nres results
    I_PRINT        // PrintFor(a0, "b", a1, "\n"), no result
};
inline const char* op_name(int op)
{   static const char* u[] = {"neg","plus","abs","fabs","sign","acos","acosh","asin","asinh","atan","atanh","cos","cosh",
        "exp","expm1","log","log10","log1p","sin","sinh","sqrt","tan","tanh","erf","erfc"};
    static const char* b[] = {"add","sub","mul","div","pow","atan2","azmul"};
    static const char* i[] = {"const","ipow","cexp","cmp","disc","load","store","atom","print"};
    if( op < U_LAST_ ) return u[op]; if( op >= 30 && op < B_LAST_ ) return b[op-30]; return i[op-40]; }
enum Rel { R_LT, R_LE, R_EQ, R_GE, R_GT, R_NE };
struct Instr {
    int op = 0; int form = 0; int sub = 0; int a[4] = {-1,-1,-1,-1}; double c = 0; int ires = -1, nres = 0;
    std::vector<int> more;
};
struct Prog {
    int n = 0, nd = 0; // independent variables, dynamic parameters (nodes 0..n-1 and n..n+nd-1)
    std::vector<Instr> ins; std::vector<int> dep; int nnode = 0;
    std::vector<std::vector<double>> vecs;       // initial values of VecAD vectors
    std::vector<std::shared_ptr<Prog>> subs;     // programs called by I_ATOM (nd = 0)
    std::string text() const
    {   std::string s = fmt("n=%d nd=%d;", n, nd);
        for(auto& i : ins)
        {   s += fmt(" v%d=%s", i.ires, op_name(i.op));
            if( i.op >= 30 && i.op < B_LAST_ ) s += fmt(".%d", i.form);
            if( i.op == I_CEXP || i.op == I_CMP || i.op == I_DISC || i.op == I_LOAD || i.op == I_STORE || i.op == I_ATOM ) s += fmt("#%d", i.sub);
            if( i.op == I_LOAD && i.a[1] >= 0 ) s += fmt(".%d", i.form);
            s += "("; bool f = true;
            for(int k = 0; k < 4; ++k) if( i.a[k] >= 0 ) { s += fmt(f ? "%d" : ",%d", i.a[k]); f = false; }
            for(int k : i.more) { s += fmt(f ? "%d" : ",%d", k); f = false; }
            if( i.op == I_CONST || i.op == I_IPOW || (i.op >= 30 && i.form != 0 && i.form != 3) ) s += fmt(f ? "%.17g" : ";%.17g", i.c);
            s += ")";
        }
        s += " y=["; for(int d : dep) s += fmt("%d ", d); s += "]";
        return s;
    }
    uint64_t hash() const { return hstr(text()); }
};
// ---- scalar hooks --------------------------------------------------------
inline double sign(double x) { return x > 0 ? 1.0 : (x < 0 ? -1.0 : 0.0); }
inline double azmul(double x, double y) { return x == 0.0 ? 0.0 : x * y; }
inline double val(double x) { return x; }
// discrete functions; which: 0 floor, 1 step at .25, 2 nearest half
inline double disc_eval(int which, double x)
{   if( which == 0 ) return std::floor(x); if( which == 1 ) return x > 0.25 ? 1.0 : 0.0; return std::floor(2 * x + .5) / 2; }
// distance of x from the nearest jump
inline double disc_margin(int which, double x)
{   if( which == 0 ) return std::fabs(x - std::floor(x + .5)); if( which == 1 ) return std::fabs(x - .25);
    double t = 2 * x + .5; return std::fabs(t - std::floor(t + .5)); }
// R is S or a reference to a VecAD element: the same operation written with either
const int n_vec_comb = 14;
template <class R, class S> S vec_comb(const R& e, int k, const S& x)
{   using std::sin; using std::exp; using std::fabs; using std::tanh;
    switch(k) { case 0: return e + x; case 1: return x + e; case 2: return e - x; case 3: return x - e; case 4: return e * x; case 5: return x * e;
        case 6: return e + 1.5; case 7: return 1.5 - e; case 8: return e * e; case 9: return sin(e); case 10: return tanh(e); case 11: return -e; case 12: return e / 4.0; default: { S t = x; t += e; return t; } } }
template <class S> struct Hook { // default: plain number or reference calculus
    static S disc(int which, const S& x) { return S( disc_eval(which, double(val(x))) ); }
    static S cexp(int r, const S& l, const S& rr, const S& t, const S& f)
    {   return rel(r, l, rr) ? t : f; }
    static bool rel(int r, const S& l, const S& rr)
    {   auto a = val(l); auto b = val(rr);
        switch(r) { case R_LT: return a < b; case R_LE: return a <= b; case R_EQ: return a == b; case R_GE: return a >= b; case R_GT: return a > b; default: return a != b; } }
    struct Vec {
        std::vector<S> v;
        void init(const std::vector<double>& d) { v.clear(); for(double x : d) v.push_back(S(x)); }
        S load(const S& i, int) { return v[size_t(double(val(i)))]; }
        S comb(const S& i, int k, const S& x) { return vec_comb<S, S>(load(i, 0), k, x); }
        void store(const S& i, const S& x, int) { v[size_t(double(val(i)))] = x; }
    };
    static void print(const S&, const S&, int) {}
};
template <class S> S ipow_(const S& a, int n) { using std::pow; return pow(a, n); }
inline double ipow_(const double& a, int n) { return std::pow(a, n); }
#ifdef VF_ALG_HPP
inline Alg ipow_(const Alg& a, int n) { return ipow(a, n); }
template <class S> S powc_(const S& a, double c) { using std::pow; return pow(a, S(c)); }
inline Alg powc_(const Alg& a, double c) { return powc(a, c); }
#else
template <class S> S powc_(const S& a, double c) { using std::pow; return pow(a, S(c)); }
#endif
template <class S> S unary(int op, const S& a)
{   using std::abs; using std::fabs; using std::acos; using std::acosh; using std::asin; using std::asinh; using std::atan; using std::atanh;
    using std::cos; using std::cosh; using std::exp; using std::expm1; using std::log; using std::log10; using std::log1p; using std::sin; using std::sinh;
    using std::sqrt; using std::tan; using std::tanh; using std::erf; using std::erfc;
    switch(op)
    {   case U_NEG: return -a; case U_PLUS: return +a; case U_ABS: return abs(a); case U_FABS: return fabs(a); case U_SIGN: return sign(a);
        case U_ACOS: return acos(a); case U_ACOSH: return acosh(a); case U_ASIN: return asin(a); case U_ASINH: return asinh(a);
        case U_ATAN: return atan(a); case U_ATANH: return atanh(a); case U_COS: return cos(a); case U_COSH: return cosh(a);
        case U_EXP: return exp(a); case U_EXPM1: return expm1(a); case U_LOG: return log(a); case U_LOG10: return log10(a); case U_LOG1P: return log1p(a);
        case U_SIN: return sin(a); case U_SINH: return sinh(a); case U_SQRT: return sqrt(a); case U_TAN: return tan(a); case U_TANH: return tanh(a);
        case U_ERF: return erf(a); case U_ERFC: return erfc(a);
    }
    abort();
}
template <class S> struct is_plain : std::integral_constant<bool, std::is_floating_point<S>::value> {};
#ifdef VF_ALG_HPP
template <> struct is_plain<Alg> : std::true_type {};
#endif
template <class S> S binary(int op, int form, const S& a, const S& b, double c)
{   using std::pow; using std::atan2;
    if constexpr ( is_plain<S>::value )
    {   // the meaning, independent of the overload used
        bool ca = (form == 2 || form == 5 || form == 8), cb = (form == 1 || form == 4 || form == 6 || form == 7 || form == 9);
        if( op == B_POW && cb ) return powc_(a, c);
        S x = ca ? S(c) : a, y = cb ? S(c) : (ca ? a : b);
        switch(op) { case B_ADD: return x + y; case B_SUB: return x - y; case B_MUL: return x * y; case B_DIV: return x / y;
            case B_POW: return pow(x, y); case B_ATAN2: return atan2(x, y); case B_AZMUL: return azmul(x, y); }
        abort();
    } else {
    int ic = int(c);
#define VF_ARITH(OP, OPEQ) switch(form) { case 0: return a OP b; case 1: return a OP c; case 2: return c OP a; \
        case 3: { S t(a); t OPEQ b; return t; } case 4: { S t(a); t OPEQ c; return t; } case 5: return S(c) OP a; case 6: return a OP S(c); \
        case 7: return a OP ic; case 8: return ic OP a; case 9: { S t(a); t OPEQ ic; return t; } } break;
    switch(op)
    {   case B_ADD: VF_ARITH(+, +=) case B_SUB: VF_ARITH(-, -=) case B_MUL: VF_ARITH(*, *=) case B_DIV: VF_ARITH(/, /=)
        case B_POW: switch(form) { case 0: return pow(a, b); case 1: return pow(a, c); case 2: return pow(c, a); case 5: return pow(S(c), a); case 6: return pow(a, S(c)); case 8: return pow(ic, a); } break;
        case B_ATAN2: switch(form) { case 0: return atan2(a, b); case 5: return atan2(S(c), a); case 6: return atan2(a, S(c)); } break;
        case B_AZMUL: switch(form) { case 0: return azmul(a, b); case 5: return azmul(S(c), a); case 6: return azmul(a, S(c)); } break;
    }
    abort();
    }
}
inline bool form_ok(int op, int form)
{   if( op == B_POW ) return form <= 2 || form == 5 || form == 6 || form == 8;
    if( op == B_ATAN2 || op == B_AZMUL ) return form == 0 || form == 5 || form == 6;
    return form <= 9; }
inline bool form_has_b(int form) { return form == 0 || form == 3; }

template <class S> struct Interp {
    const Prog& p; std::vector<S> node; std::vector<typename Hook<S>::Vec> vec;
    std::vector<char> cmp; // outcomes of I_CMP
    std::function<bool(int, const std::vector<S>&, std::vector<S>&)> atom; // returns false to mean: evaluate inline
    std::function<void(size_t)> on_instr;
    explicit Interp(const Prog& pp) : p(pp) {}
    void start(const std::vector<S>& x, const std::vector<S>& d)
    {   node.clear(); cmp.clear(); node.insert(node.end(), x.begin(), x.end()); node.insert(node.end(), d.begin(), d.end());
        vec.resize(p.vecs.size()); for(size_t i = 0; i < vec.size(); ++i) vec[i].init(p.vecs[i]); }
    const S& at(int i) const { return node[size_t(i)]; }
    void exec(const Instr& i)
    {   typedef Hook<S> H;
        if( i.op < U_LAST_ ) { S r = unary<S>(i.op, at(i.a[0])); node.push_back(r); return; }
        if( i.op < B_LAST_ ) { S r = binary<S>(i.op, i.form, at(i.a[0]), form_has_b(i.form) ? at(i.a[1]) : at(i.a[0]), i.c); node.push_back(r); return; }
        switch(i.op)
        {   case I_CONST: node.push_back(S(i.c)); return;
            case I_IPOW: { S r = ipow_(at(i.a[0]), int(i.c)); node.push_back(r); return; }
            case I_CEXP: { S r = H::cexp(i.sub, at(i.a[0]), at(i.a[1]), at(i.a[2]), at(i.a[3])); node.push_back(r); return; }
            case I_CMP: cmp.push_back( H::rel(i.sub, at(i.a[0]), at(i.a[1])) ); return;
            case I_DISC: { S r = H::disc(i.sub, at(i.a[0])); node.push_back(r); return; }
            case I_LOAD: { S r = i.a[1] >= 0 ? vec[size_t(i.sub)].comb(at(i.a[0]), i.form, at(i.a[1])) : vec[size_t(i.sub)].load(at(i.a[0]), i.form); node.push_back(r); return; }
            case I_STORE: vec[size_t(i.sub)].store(at(i.a[0]), at(i.a[1]), i.form); return;
            case I_PRINT: H::print(at(i.a[0]), at(i.a[1]), i.sub); return;
            case I_ATOM:
            {   std::vector<S> in, out; for(int k : i.more) in.push_back(at(k));
                if( !( atom && atom(i.sub, in, out) ) )
                {   const Prog& q = *p.subs[size_t(i.sub)];
                    Interp<S> it(q); it.atom = nullptr;
                    it.start(in, std::vector<S>()); it.run(out);
                }
                for(auto& o : out) node.push_back(o);
                return;
            }
        }
        abort();
    }
    void run(std::vector<S>& y)
    {   for(size_t k = 0; k < p.ins.size(); ++k) { if( on_instr ) on_instr(k); exec(p.ins[k]); }
        y.clear(); for(int d : p.dep) y.push_back(at(d)); }
    std::vector<S> operator()(const std::vector<S>& x, const std::vector<S>& d) { std::vector<S> y; start(x, d); run(y); return y; }
};
// ---- generator -----------------------------------------------------------
struct Point { std::vector<double> x, d; };
struct GenCfg {
    int n = 3, nd = 2, m = 2, n_ins = 15, npts = 3;
    double w_unary = 4, w_binary = 8, w_const = 1, w_cexp = 1, w_cmp = 0, w_disc = 0.4, w_vec = 0, w_atom = 0, w_dup = 0.8, w_ipow = 0.4, w_sum = 0.3, w_print = 0;
    double p_special = 0.15;   // special values in points
    bool kinks = true;         // abs, sign
    bool ties = true;
    double maxval = 300;
    std::vector<int> unary_ops; // allowed (empty: all)
    std::vector<int> binary_ops;
    int n_sub = 1; double nest = 0;
};
struct Gen {
    Rng& r; GenCfg g; Prog p; std::vector<Point> pts; std::vector<std::unique_ptr<Interp<double>>> it; std::vector<char> exact;
    Gen(Rng& rr, const GenCfg& gg) : r(rr), g(gg) {}
    double special() { static const double s[] = {0, 1, -1, 2, 0.5, -2}; return s[r.below(6)]; }
    double value() { if( r.chance(g.p_special) ) return special(); return r.uni(-2, 2); }
    double cval()
    {   int k = r.below(10); if( k < 3 ) return special(); if( k < 4 ) return 3; if( k < 5 ) return 10 * r.uni(-1, 1); return r.uni(-2, 2); }
    int nn() const { return int(it[0]->node.size()); }
    int anynode()
    {   int n = nn(); int k = r.below(20);
        if( k < 9 ) return n - 1 - r.below(n < 6 ? n : 6);
        if( k < 12 && p.n + p.nd > 0 ) return r.below(p.n + p.nd);
        return r.below(n); }
    double v(int pt, int nd) const { return it[size_t(pt)]->node[size_t(nd)]; }
    int np() const { return int(pts.size()); }
    bool all(int a, const std::function<bool(double)>& f) const { for(int k = 0; k < np(); ++k) if( ! f(v(k, a)) ) return false; return true; }
    // execute at all points; undo and return false when some value is out of range
    bool emit(Instr i, bool force = false)
    {   size_t n0 = it[0]->node.size();
        for(auto& q : it) q->exec(i);
        size_t n1 = it[0]->node.size();
        bool ok = true;
        for(size_t k = n0; k < n1; ++k) for(int pt = 0; pt < np(); ++pt)
        {   double z = v(pt, int(k)); if( !(std::fabs(z) <= g.maxval) ) ok = false; if( z != 0 && std::fabs(z) < 1e-6 ) ok = false; }
        if( ! ok && ! force ) { for(auto& q : it) q->node.resize(n0); return false; }
        i.ires = int(n0); i.nres = int(n1 - n0);
        bool ex = i.op == I_CONST || ((i.op == U_NEG || i.op == U_PLUS || i.op == U_ABS || i.op == U_FABS) && exact[size_t(i.a[0])]) || i.op == U_SIGN || i.op == I_DISC;
        for(size_t k = n0; k < n1; ++k) exact.push_back(ex);
        p.ins.push_back(i);
        return true;
    }
    Instr mk(int op, int a = -1, int b = -1, int form = 0, double c = 0, int sub = 0)
    {   Instr i; i.op = op; i.a[0] = a; i.a[1] = b; i.form = form; i.c = c; i.sub = sub; return i; }
    int last() const { return nn() - 1; }
    // bounded version of a node : 0.8 * tanh(a/2)
    int squash(int a, double s = 0.8)
    {   emit(mk(B_MUL, a, -1, 1, 0.5), true); emit(mk(U_TANH, last()), true); emit(mk(B_MUL, last(), -1, r.chance(.5) ? 1 : 2, s), true); return last(); }
    int positive(int a, double add)
    {   int q = squash(a, 1.5); emit(mk(B_MUL, q, q, 0), true); int k = last(); emit(mk(B_ADD, k, -1, r.chance(.5) ? 1 : 2, add), true); return last(); }
    bool gen_unary(int op, int a)
    {   auto in = [&](double lo, double hi) { return all(a, [=](double x) { return lo <= x && x <= hi; }); };
        auto bnd = [&](double hi) { if( ! in(-hi, hi) ) a = squash(a); };
        auto pos = [&](double lo, double hi) { if( ! in(lo, hi) ) a = positive(a, lo + 0.3); };
        switch(op)
        {   case U_ABS: case U_FABS: case U_SIGN:
                if( ! g.kinks ) return false;
                if( ! all(a, [](double x) { return std::fabs(x) > 1e-2; }) && !( g.ties && exact[size_t(a)] ) ) return false; break;
            case U_ACOS: case U_ASIN: case U_ATANH: bnd(0.9); break;
            case U_LOG1P: if( ! in(-0.85, 200) ) a = squash(a); break;
            case U_ACOSH: pos(1.1, 50); break;
            case U_LOG: case U_LOG10: case U_SQRT: pos(0.1, 200); break;
            case U_EXP: case U_EXPM1: case U_SINH: case U_COSH: if( ! in(-4, 4) ) a = squash(a); break;
            case U_ERF: case U_ERFC: if( ! in(-3, 3) ) a = squash(a); break;
            case U_TAN: if( ! in(-1.3, 1.3) ) a = squash(a); break;
            case U_COS: case U_SIN: if( ! in(-30, 30) ) a = squash(a); break;
        }
        return emit(mk(op, a));
    }
    bool gen_binary(int op, int form, int a, int b, double c)
    {   if( ! form_ok(op, form) ) return false;
        if( form >= 7 ) c = double(int(c));
        bool hb = form_has_b(form);
        bool ca = (form == 2 || form == 5 || form == 8); // constant is the left operand, a is the right one
        auto nz = [&](int k) { return all(k, [](double x) { return std::fabs(x) > 0.05; }); };
        if( op == B_DIV )
        {   if( hb ) { if( ! nz(b) ) b = positive(b, 0.3); }
            else if( ca ) { if( ! nz(a) ) a = positive(a, 0.3); }
            else if( std::fabs(c) < 0.1 ) c = 1; }
        if( op == B_POW )
        {   auto inr = [&](int k, double lo, double hi) { return all(k, [=](double x) { return lo <= x && x <= hi; }); };
            if( hb ) { if( ! inr(a, .1, 10) ) a = positive(a, .4); if( ! inr(b, -3, 3) ) b = squash(b); }
            else if( ca ) { if( form == 8 ) c = double(r.range(1, 3)); else c = std::fabs(c) + .1; if( r.chance(.2) ) c = 1; if( ! inr(a, -3, 3) ) a = squash(a); }
            else
            {   static const double e[] = {0, 1, 2, 3, -1, -2, .5, 1.5, -.7, 4}; c = e[r.below(10)];
                bool integer = c == std::floor(c);
                if( integer ? ! nz(a) : ! inr(a, .1, 20) ) a = positive(a, .4); }
        }
        if( op == B_ATAN2 )
        {   // stay away from the origin and the cut (second argument negative, first zero)
            for(int k = 0; k < np(); ++k)
            {   double y = ca ? c : v(k, a), x = hb ? v(k, b) : (ca ? v(k, a) : c);
                if( std::fabs(y) < .05 || std::fabs(x) < .05 || std::fabs(std::fabs(x) - std::fabs(y)) < 1e-3 ) return false; }
        }
        return emit(mk(op, a, hb ? b : -1, form, c));
    }
    bool rel_ok(int a, int b)
    {   for(int k = 0; k < np(); ++k)
        {   double l = v(k, a), q = v(k, b);
            if( std::fabs(l - q) > 1e-3 ) continue;
            if( g.ties && l == q && exact[size_t(a)] && exact[size_t(b)] ) continue;
            return false; }
        return true; }
    // an index node for a vector of length L
    int index_node(int L)
    {   if( r.chance(.3) ) { emit(mk(I_CONST, -1, -1, 0, double(r.below(L))), true); return last(); }
        for(int t = 0; t < 4; ++t)
        {   int a = anynode(); size_t n0 = size_t(nn()); size_t i0 = p.ins.size();
            emit(mk(U_SIN, a), true); emit(mk(B_MUL, last(), -1, 1, .45 * L), true); emit(mk(B_ADD, last(), -1, 1, .5 * L), true);
            int k = last();
            if( all(k, [=](double x) { return x > 1e-3 && x < L - 1e-3 && std::fabs(x - std::floor(x + .5)) > 1e-3; }) ) return k;
            for(auto& q : it) q->node.resize(n0); exact.resize(n0); p.ins.resize(i0);
        }
        emit(mk(I_CONST, -1, -1, 0, double(r.below(L))), true); return last();
    }
    bool gen_vec()
    {   if( p.vecs.empty() ) return false;
        int w = r.below(int(p.vecs.size())); int L = int(p.vecs[size_t(w)].size());
        if( r.chance(.55) ) { int b = anynode(); int i = index_node(L); return emit(mk(I_STORE, i, b, r.below(2), 0, w)); }
        int i = index_node(L); if( r.chance(.3) ) { int b = anynode(); return emit(mk(I_LOAD, i, b, r.below(n_vec_comb), 0, w)); } return emit(mk(I_LOAD, i, -1, r.below(2), 0, w));
    }
    bool gen_atom()
    {   if( p.subs.empty() ) return false;
        int k = r.below(int(p.subs.size())); const Prog& q = *p.subs[size_t(k)];
        Instr i; i.op = I_ATOM; i.sub = k;
        for(int j = 0; j < q.n; ++j)
        {   int a = anynode();
            // sub programs are generated for arguments in [-1, 1]
            if( ! all(a, [](double x) { return std::fabs(x) <= 1; }) ) a = squash(a);
            i.more.push_back(a); }
        return emit(i);
    }
    bool step()
    {   double w[] = {g.w_unary, g.w_binary, g.w_const, g.w_cexp, g.w_cmp, g.w_disc, g.w_vec, g.w_atom, g.w_dup, g.w_ipow, g.w_sum, g.w_print};
        double tot = 0; for(double q : w) tot += q;
        double u = r.uni() * tot; int k = 0; while( k < 11 && u >= w[k] ) { u -= w[k]; ++k; }
        switch(k)
        {   case 0: { int op = g.unary_ops.empty() ? r.below(U_LAST_) : r.pick(g.unary_ops); return gen_unary(op, anynode()); }
            case 1: { int op; if( ! g.binary_ops.empty() ) op = r.pick(g.binary_ops); else { int t = r.below(12); op = t < 10 ? B_ADD + t % 4 : (t == 10 ? B_POW : (r.chance(.5) ? B_ATAN2 : B_AZMUL)); }
                int form = r.chance(.45) ? 0 : r.below(10); int a = anynode(), b = anynode(); return gen_binary(op, form, a, b, cval()); }
            case 2: return emit(mk(I_CONST, -1, -1, 0, cval()));
            case 3: { int a = anynode(), b = anynode(); if( ! rel_ok(a, b) ) return false; Instr i = mk(I_CEXP, a, b, 0, 0, r.below(5)); i.a[2] = anynode(); i.a[3] = anynode(); return emit(i); }
            case 4: { int a = anynode(), b = anynode(); if( ! rel_ok(a, b) ) return false; return emit(mk(I_CMP, a, b, 0, 0, r.below(6))); }
            case 5: { int a = anynode(), d = r.below(3); if( ! all(a, [=](double x) { return disc_margin(d, x) > 1e-3; }) ) return false; return emit(mk(I_DISC, a, -1, 0, 0, d)); }
            case 6: return gen_vec();
            case 7: return gen_atom();
            case 8: // repeat an earlier operation, possibly with the operands exchanged
            {   if( p.ins.empty() ) return false; Instr i = p.ins[r.sbelow(p.ins.size())];
                if( i.op == I_STORE || i.op == I_LOAD || i.op == I_PRINT ) return false;
                if( (i.op == B_ADD || i.op == B_MUL) && form_has_b(i.form) && r.chance(.5) ) std::swap(i.a[0], i.a[1]);
                if( i.op == I_CEXP && r.chance(.3) ) std::swap(i.a[2], i.a[3]);
                return emit(i); }
            case 9: { int a = anynode(); int n = r.range(-3, 6); if( n < 0 && ! all(a, [](double x) { return std::fabs(x) > .2; }) ) a = positive(a, .4); return emit(mk(I_IPOW, a, -1, 0, n)); }
            case 10: // cumulative sum of mixed signs
            {   int len = r.range(3, 7); int a = anynode(); bool any = false;
                for(int q = 0; q < len; ++q) { int b = anynode(); int form = r.chance(.7) ? (r.chance(.5) ? 0 : 3) : r.range(1, 2);
                    if( emit(mk(r.chance(.6) ? B_ADD : B_SUB, a, form_has_b(form) ? b : -1, form, cval())) ) { a = last(); any = true; } }
                return any; }
            case 11: { int a = anynode(), b = anynode(); bool e = exact[size_t(a)]; if( ! all(a, [e](double x) { return e || std::fabs(x) > 1e-3; }) ) return false; return emit(mk(I_PRINT, a, b, 0, 0, r.below(100))); }
        }
        return false;
    }
    // choose the points and start the interpreters (p.vecs and p.subs must be set)
    void start_points()
    {   pts.clear(); it.clear(); exact.clear();
        for(int k = 0; k < g.npts; ++k)
        {   Point q; for(int j = 0; j < g.n; ++j) q.x.push_back(value_r()); for(int j = 0; j < g.nd; ++j) q.d.push_back(value_r()); pts.push_back(q);
        }
        if( cube ) // every corner of [-1, 0, 1]^n and points with equal or opposite arguments
        {   int nc = 1; for(int j = 0; j < g.n; ++j) nc *= 3;
            for(int c = 0; c < nc; ++c) { Point q; int z = c; for(int j = 0; j < g.n; ++j) { q.x.push_back(z % 3 - 1.0); z /= 3; } pts.push_back(q); }
            for(int c = 0; c < 6; ++c) { Point q; double z = value_r(); for(int j = 0; j < g.n; ++j) q.x.push_back(r.chance(.5) ? z : -z); pts.push_back(q); }
            g.npts = int(pts.size()); }
        exact.assign(size_t(g.n + g.nd), 1);
        for(int k = 0; k < g.npts; ++k) { it.emplace_back(new Interp<double>(p)); it.back()->start(pts[size_t(k)].x, pts[size_t(k)].d); }
    }
    void begin_points() { p = Prog(); p.n = g.n; p.nd = g.nd; start_points(); }
    void make()
    {   p = Prog(); p.n = g.n; p.nd = g.nd;
        if( g.w_vec > 0 ) { int nv = r.range(1, 3); for(int k = 0; k < nv; ++k) { std::vector<double> q(size_t(r.range(1, 5))); for(double& z : q) z = r.chance(.3) ? 0.0 : r.uni(-2, 2); p.vecs.push_back(q); } }
        if( g.w_atom > 0 ) for(int k = 0; k < g.n_sub; ++k)
        {   GenCfg s; s.n = r.range(1, 3); s.nd = 0; s.m = r.range(1, 3); s.n_ins = r.range(1, 6); s.npts = 8; s.w_cexp = 0; s.w_disc = 0; s.kinks = false; s.p_special = 0.3; s.ties = false; s.maxval = 50;
            s.w_const = .3; s.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW, B_AZMUL}; if( g.nest > 0 && r.chance(g.nest) ) { s.w_atom = 3; s.nest = g.nest / 2; } Gen sg(r, s); sg.range = 1.0; sg.cube = true; sg.make(); p.subs.push_back(std::make_shared<Prog>(sg.p)); }
        start_points();
        int tries = 0;
        while( int(p.ins.size()) < g.n_ins && tries < 20 * g.n_ins ) { step(); ++tries; }
        if( nn() == 0 ) emit(mk(I_CONST, -1, -1, 0, 1.0), true);
        p.dep.clear();
        for(int i = 0; i < g.m; ++i)
        {   int k = r.below(20); int n = nn();
            if( i == 0 || k < 10 ) p.dep.push_back(n - 1 - r.below(n < 4 ? n : 4));
            else if( k < 19 ) p.dep.push_back(r.below(n));
            else p.dep.push_back(r.below(p.n + p.nd > 0 ? p.n + p.nd : n)); }
        p.nnode = nn();
    }
    double range = 0; bool cube = false;
    double value_r() { if( range > 0 ) { if( r.chance(.1) ) return r.below(3) - 1.0; return r.uni(-range, range); } return value(); }
};
// coarse signature: multiset of ops + operand forms is what makes programs different
inline uint64_t shape_hash(const Prog& p)
{   uint64_t h = 1469598103934665603ull; auto add = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
    add(uint64_t(p.n)); add(uint64_t(p.nd)); for(auto& i : p.ins) { add(uint64_t(i.op)); add(uint64_t(i.form)); add(uint64_t(i.sub)); for(int k = 0; k < 4; ++k) add(uint64_t(i.a[k] + 1)); for(int k : i.more) add(uint64_t(k)); } 
    for(int d : p.dep) add(uint64_t(d)); return h; }
} // namespace vf
#endif
