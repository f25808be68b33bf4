// C13: the C source written by to_csrc, compiled with create_dll_lib and loaded with link_dll_lib, computes the same function
#include "../lib/graph.hpp"
#include <fstream>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;
typedef CppAD::ADFun<double> Fun;
static Mix mix() { Mix m; m.vec = false; m.cmp = true; m.atom = .15; m.max_n = 5; return m; }
static Mix mixg() { Mix m; m.vec = false; m.cmp = true; m.max_n = 4; m.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW, B_AZMUL}; return m; }
static Mix mixs() { Mix m; m.vec = m.disc = m.cexp = m.kinks = m.ties = false; m.sys = false; m.max_ins = 15; m.unary_ops = {U_NEG, U_PLUS, U_ACOS, U_ACOSH, U_ASIN, U_ASINH, U_ATAN, U_ATANH, U_COS, U_COSH, U_EXP, U_EXPM1, U_LOG, U_LOG10, U_LOG1P, U_SIN, U_SINH, U_SQRT, U_TAN, U_TANH, U_ERF, U_ERFC}; m.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW, B_AZMUL}; return m; }
static std::string dir; static const char* variant = "";
static long serial = 0;
static std::string write_file(const std::string& text) { std::string f = dir + fmt("/src%ld.c", serial++); std::ofstream o(f); o << text; return f; }
static const char* discrete_src = "#include <math.h>\n%s cppad_discrete_d_floor(%s x) { return (%s) floor((double) x); }\n%s cppad_discrete_d_step(%s x) { return x > 0.25 ? 1.0 : 0.0; }\n%s cppad_discrete_d_half(%s x) { return (%s) (floor((double) (2 * x) + .5) / 2); }\nint vf_atomic_flag = 0;\n";
static void wipe() { DIR* d = opendir(dir.c_str()); if( ! d ) return; std::vector<std::string> n; while( dirent* e = readdir(d) ) if( e->d_name[0] != '.' ) n.push_back(e->d_name); closedir(d); for(auto& s : n) unlink((dir + "/" + s).c_str()); }
static long n_file() { DIR* d = opendir(dir.c_str()); long k = 0; while( dirent* e = readdir(d) ) if( e->d_name[0] != '.' ) ++k; closedir(d); return k; }
static bool smooth(const Prog& p) { for(auto& i : p.ins) if( i.op == I_CEXP || i.op == I_DISC || i.op == I_CMP || i.op == I_ATOM || i.op == B_ATAN2 || i.op == U_ABS || i.op == U_FABS || i.op == U_SIGN || i.op == B_AZMUL ) return false; return true; }
struct Item {
    std::unique_ptr<Gen> gen; std::unique_ptr<Atoms> atoms; Fun f; std::string name, how, ctype, src; bool is_jac = false, has_atom = false;
    size_t ny() { return f.Range(); }
    std::string ctx(const Point& q) const { return how + " type " + ctype + " " + gen->p.text() + " " + point_text(q) + "\n" + src.substr(0, 3000); }
};
static std::string ident(Rng& r) { static const char c[] = "abcdefghijklmnopqrstuvwxyzABCDXYZ_0123456789"; std::string s; int n = r.range(1, 10); for(int k = 0; k < n; ++k) s += c[r.below(int(sizeof(c)) - 1)]; return s; }
static void all_names(const Prog& p, std::vector<const Prog*>& v) { for(auto& s : p.subs) { all_names(*s, v); v.push_back(s.get()); } }
// the function of one program; returns false when it is not of this kind
static bool make_item(Item& it, long i, Rng& r)
{   static Mix m = mix(), mg = mixg(), ms = mixs(); int kind = int(i % 5); // 0 described, 4 smooth (other types, Jacobians), else recorded
    make_case(kind == 0 ? i / 5 : i - i / 5 - 1, r, kind == 0 ? mg : kind == 4 ? ms : m, it.gen); note_prog(*it.gen); const Prog& p = it.gen->p; it.ctype = "double";
    if( kind == 0 )
    {   Graph g; if( ! prog_to_graph(p, *it.gen, r, g) ) { rep().count("not_translated"); return false; } it.how = "described"; rep().count("described"); it.f.from_graph(g); }
    else
    {   it.atoms.reset(new Atoms(p, r, 1 | 2 | 16)); Recorder<> rec; Atoms& at = *it.atoms; rec.setup = [&](Interp<A1>& in) { at.attach(in); }; it.has_atom = ! p.subs.empty();
        rec(p, it.gen->pts[0], it.f, 0, r.chance(.9)); it.how = "recorded"; rep().count("recorded");
        if( kind == 4 && smooth(p) && p.nd == 0 && r.chance(.4) ) // record the Jacobian with base2ad
        {   Fun h; CppAD::ADFun<A1, double> af; af = it.f.base2ad(); size_t n = af.Domain(), m = af.Range(); std::vector<A1> ax(n); for(size_t j = 0; j < n; ++j) ax[j] = it.gen->pts[0].x[j]; CppAD::Independent(ax); std::vector<A1> aj = af.Jacobian(ax); h.Dependent(ax, aj); it.f = h; it.is_jac = true; it.how = "Jacobian"; rep().count("jacobian"); (void) m; } }
    int no = r.chance(.4) ? r.range(1, 2) : 0;
    for(int k = 0; k < no; ++k)
    {   std::string o; if( r.chance(.3) ) o += "no_conditional_skip "; if( r.chance(.25) ) o += "no_cumulative_sum_op "; it.how += " optimize(" + o + ")"; Fun keep; keep = it.f; try { it.f.optimize(o); rep().count("optimize"); } catch(const cppad_error& e) { if( e.msg.find("Error during check") == std::string::npos ) throw; it.f = keep; } }
    if( r.chance(.2) && ! it.has_atom ) { std::string j = it.f.to_json(); it.f.from_json(j); it.how += " json"; }
    if( kind == 4 && smooth(p) && ! it.is_jac ) { int t = r.below(3); if( t ) it.ctype = t == 1 ? "float" : "long_double"; }
    it.name = ident(r) + fmt("_%ld", serial++); it.f.function_name_set(it.name);
    std::ostringstream o; o << ""; it.f.to_csrc(o, it.ctype); it.src = o.str(); rep().count(it.ctype == "double" ? "type_double" : it.ctype == "float" ? "type_float" : "type_long_double"); return true; }
template <class T> int call(void* p, const std::vector<T>& u, size_t nu, std::vector<T>& y, size_t ny, size_t* cc)
{   typedef int (*fn)(size_t, const T*, size_t, T*, size_t*); return reinterpret_cast<fn>(p)(nu, u.data(), ny, y.data(), cc); }
template <class T> struct jit_of; template <> struct jit_of<double> { typedef CppAD::jit_double type; }; template <> struct jit_of<float> { typedef CppAD::jit_float type; }; template <> struct jit_of<long double> { typedef CppAD::jit_long_double type; };
template <class T> void judge(Item& it, void* ptr, Rng& r, int* atomic_flag)
{   const Prog& p = it.gen->p; typename jit_of<T>::type fun = reinterpret_cast<typename jit_of<T>::type>(ptr); size_t nu = size_t(p.n + p.nd), m = it.f.Range(), mp = p.dep.size();
    size_t total = size_t(r.below(100)), expect = total;
    for(auto q : it.gen->pts)
    {   for(double& z : q.x) z = double(T(z)); for(double& z : q.d) z = double(T(z));
        auto ctx = [&]() { return it.ctx(q); };
        std::vector<T> u; for(double z : q.d) u.push_back(T(z)); for(double z : q.x) u.push_back(T(z)); u.push_back(T(7.5)); std::vector<T> u0 = u, y(m + 2, T(-77.25));
        int flag = fun(nu, u.data(), m, y.data() + 1, &total);
        if( flag != 0 ) { rep().fail("flag", fmt("%d ", flag) + ctx()); return; }
        if( u != u0 || y[0] != T(-77.25) || y[m + 1] != T(-77.25) ) { rep().fail("outside", ctx()); return; }
        rep().count("evaluated");
        if( sizeof(T) == sizeof(double) )
        {   if( p.nd ) it.f.new_dynamic(q.d); it.f.Forward(0, q.x); expect += it.f.compare_change_number(); if( it.f.compare_change_number() ) rep().count("with_changes");
            if( total != expect ) { rep().fail("compare-change", fmt("total %zu expected %zu ", total, expect) + ctx()); return; } }
        auto want = alg_run(p, std::vector<VDb>(1, q.x), q.d, it.is_jac);
        if( it.is_jac ) { for(size_t i = 0; i < mp; ++i) for(int j = 0; j < p.n; ++j) if( ! check("jacobian", double(y[1 + i * size_t(p.n) + size_t(j)]), want[i], 0, 1 + j, ctx, 1e4) ) return; continue; }
        if( m != mp ) { rep().fail("size", ctx()); return; }
        std::vector<float> yf; if( sizeof(T) == sizeof(float) ) { Interp<float> in(p); std::vector<float> x, d; for(double z : q.x) x.push_back(float(z)); for(double z : q.d) d.push_back(float(z)); yf = in(x, d); }
        for(size_t i = 0; i < m; ++i)
        {   double got = double(y[1 + i]); if( sizeof(T) == sizeof(float) ) { if( near(got, yf[i], 1e-3, 1e-6) ) { rep().count("compared"); continue; } if( ! std::isfinite(got) || ! std::isfinite(yf[i]) || std::fabs(yf[i]) < 1e-20 ) { rep().count("inconclusive"); continue; } }
            if( ! check("value-" + it.ctype, got, want[i], 0, 0, ctx, sizeof(T) == sizeof(float) ? 2e3 * 5.4e8 : 2e3) ) return; } }
    // wrong sizes
    {   std::vector<T> u(nu + 2, T(.5)), y(m + 2, T(.5)); size_t c = 5; int w = r.below(4); size_t a = w == 0 ? nu + 1 : w == 1 ? nu - 1 : nu, b = w == 2 ? m + 1 : w == 3 ? m - 1 : m; int flag = fun(a, u.data(), b, y.data(), &c);
        if( flag != (w < 2 ? 1 : 2) ) rep().fail("size-flag", fmt("nu %zu ny %zu flag %d ", a, b, flag) + it.ctx(it.gen->pts[0])); rep().count("wrong_size");
        if( r.chance(.2) ) { flag = fun(nu + 1, u.data(), m + 1, y.data(), &c); if( flag != 1 && flag != 2 ) rep().fail("size-flag", fmt("both wrong, flag %d", flag)); } }
    // an atomic function that reports an error
    if( it.has_atom && it.src.find("cppad_atomic_", it.src.find("BODY_NEVER") == std::string::npos ? it.src.find("begin function body") : 0) != std::string::npos && atomic_flag )
    {   std::vector<T> u(nu, T(.3)), y(m, T(.5)); size_t c = 0; *atomic_flag = r.range(1, 9); int flag = fun(nu, u.data(), m, y.data(), &c); if( flag == 0 ) rep().fail("atomic-flag", fmt("atomic flag %d ", *atomic_flag) + it.ctx(it.gen->pts[0])); *atomic_flag = 0; rep().count("atomic_error"); }
}
static void batch(long i, Rng& r)
{   const int K = 8; wipe(); std::vector<std::unique_ptr<Item>> items; long base = i / 10000000 * 10000000, j = i % 10000000;
    for(int k = 0; k < K; ++k) { std::unique_ptr<Item> it(new Item); if( make_item(*it, base + j * K + k, r) ) items.push_back(std::move(it)); }
    std::vector<std::string> src; static const char* types[] = {"double", "float", "long double"};
    std::map<std::string, std::string> opt; bool san = ! strncmp(variant, "san", 3); int which = r.below(4);
    if( san ) { opt["compile"] = "gcc -c -fPIC -g -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero"; opt["link"] = "gcc -shared"; }
    else if( which == 1 ) opt["compile"] = "gcc -O1 -std=c99 -c -fPIC"; else if( which == 2 ) opt["compile"] = "gcc -std=c90 -pedantic -D__STDC_VERSION__=199901L -O0 -c -fPIC"; else if( which == 3 ) { opt["compile"] = "gcc -std=c11 -Wall -Werror=uninitialized -Werror=maybe-uninitialized -Wno-unused -O2 -c -fPIC"; opt["link"] = "gcc -shared"; }
    if( which == 2 && ! san ) opt["compile"] = "gcc -std=gnu99 -Wall -Werror=implicit-function-declaration -c -fPIC";
    // the discrete and atomic functions that the generated code calls (items of other types do not call any)
    std::string ext = discrete_src; { size_t k; while( (k = ext.find("%s")) != std::string::npos ) ext.replace(k, 2, "double"); } std::set<std::string> done;
    ext += "#include <stddef.h>\nextern int vf_atomic_flag;\n";
    for(auto& it : items) if( it->has_atom )
    {   // each atomic function that the code declares computes what its program computes
        for(auto& kv : atom_prog()) if( it->src.find("cppad_atomic_" + kv.first + "(") != std::string::npos && done.insert(kv.first).second )
        {   const Prog& s = *kv.second; Fun g; { Atoms in(s, r, 1 | 16); Recorder<> rec; rec.setup = [&](Interp<A1>& t) { in.attach(t); }; Point q; q.x.assign(size_t(s.n), .3); if( ! s.subs.empty() ) { rep().count("nested_atom"); }
                std::vector<A1> ax(size_t(s.n)), ay; for(size_t k = 0; k < ax.size(); ++k) ax[k] = .3; CppAD::Independent(ax); Interp<A1> t(s); std::vector<A1> ad; 
                // nested programs are written out
                std::function<void(Interp<A1>&)> att = [&](Interp<A1>& u) { Interp<A1>* pu = &u; u.atom = [pu, &att](int k, const std::vector<A1>& a, std::vector<A1>& b) { Interp<A1> w(*pu->p.subs[size_t(k)]); att(w); w.start(a, {}); b.clear(); w.run(b); return true; }; }; att(t); t.start(ax, ad); t.run(ay); g.Dependent(ax, ay); }
            std::string n = "impl_" + kv.first; g.function_name_set(n); std::ostringstream o; g.to_csrc(o, "double"); src.push_back(write_file(o.str()));
            ext += "extern int cppad_jit_" + n + "(size_t, const double*, size_t, double*, size_t*);\nint cppad_atomic_" + kv.first + "(size_t call_id, size_t nu, const double* u, size_t ny, double* y, size_t* cc)\n{ size_t no = 0; if( vf_atomic_flag ) return vf_atomic_flag; return cppad_jit_" + n + "(nu, u, ny, y, &no); }\n"; rep().count("atomic_functions"); } }
    src.push_back(write_file(ext)); for(auto& it : items) src.push_back(write_file(it->src)); for(size_t k = src.size(); k-- > 1; ) std::swap(src[k], src[size_t(r.below(int(k) + 1))]);
    std::string dll = dir + fmt("/lib%ld.so", serial++); long before = n_file();
    std::string err; if( r.chance(.5) ) err = CppAD::create_dll_lib(dll, src, opt); else { CppAD::vector<std::string> v(src.size()); for(size_t k = 0; k < src.size(); ++k) v[k] = src[k]; err = CppAD::create_dll_lib(dll, v, opt); }
    if( err != "" ) { std::string t; for(auto& it : items) t += it->ctx(it->gen->pts[0]); rep().fail("create_dll_lib", err + "\n" + t); return; }
    if( n_file() != before + 1 ) rep().fail("temporary-files", fmt("%ld files appeared", n_file() - before - 1));
    rep().count("libraries"); rep().count("sources", long(src.size()));
    CppAD::link_dll_lib lib(dll, err); if( err != "" ) { rep().fail("link_dll_lib", err); return; }
    int* flag = reinterpret_cast<int*>(lib("vf_atomic_flag", err));
    for(auto& it : items)
    {   err = "old"; void* p = lib("cppad_jit_" + it->name, err); if( p == nullptr || err != "" ) { rep().fail("symbol", it->name + " " + err); continue; }
        if( it->ctype == "double" ) judge<double>(*it, p, r, flag); else if( it->ctype == "float" ) judge<float>(*it, p, r, flag); else judge<long double>(*it, p, r, flag); }
    err = ""; if( lib("cppad_jit_" + ident(r) + "_none", err) != nullptr || err == "" ) rep().fail("missing-symbol", "no error message");
}
template <class F> static bool known(const F& f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
static void probes(Rng& r)
{   wipe(); std::string err, ok = write_file("int vf_x(void) { return 3; }\n"), bad = write_file("int vf_x(void) { return 3 \n"); std::map<std::string, std::string> none; typedef std::vector<std::string> VS;
    auto fails = [&](const char* what, const std::string& dll, const VS& s, const std::map<std::string, std::string>& o) { std::string e = CppAD::create_dll_lib(dll, s, o); if( e == "" ) rep().fail(std::string("no-error-") + what, dll); rep().count("errors"); };
    int keep = dup(2); FILE* nul = freopen("/dev/null", "w", stderr); (void) nul;
    fails("option", dir + "/a.so", VS{ok}, {{"compiler", "gcc"}}); fails("extension", dir + "/a.dll", VS{ok}, none); fails("extension", dir + "/a.so.x", VS{ok}, none); fails("syntax", dir + "/a.so", VS{bad}, none); fails("syntax", dir + "/a.so", VS{ok, bad}, none); fails("missing-file", dir + "/a.so", VS{dir + "/none.c"}, none);
    fails("directory", dir + "/none/a.so", VS{ok}, none); fails("compile", dir + "/a.so", VS{ok}, {{"compile", "false"}}); fails("link", dir + "/a.so", VS{ok}, {{"link", "false"}});
    if( chdir(dir.c_str()) == 0 ) { fails("extension", "ab", VS{ok}, none); fails("extension", "a", VS{ok}, none); fails("extension", "so", VS{ok}, none); }
    dup2(keep, 2); close(keep);
    { CppAD::link_dll_lib l(dir + "/none.so", err); if( err == "" ) rep().fail("no-error-link", ""); std::string e2; if( l("vf_x", e2) != nullptr || e2 == "" ) rep().fail("no-error-link-call", ""); }
    { std::string d = dir + "/x.so"; err = CppAD::create_dll_lib(d, VS{ok}, none); if( err != "" ) rep().fail("create_dll_lib", err); CppAD::link_dll_lib l(d, err); int (*f)(void) = reinterpret_cast<int(*)(void)>(l("vf_x", err)); if( f == nullptr || f() != 3 ) rep().fail("probe-call", err); }
    // constants and sums
    std::vector<double> c = {1e-310, 4.9406564584124654e-324, 1.7976931348623157e308, .1, 1. / 3, -0., 1e23, -1e-23, 123456789012345678., 2.2250738585072014e-308, 1e22, 9007199254740993., INFINITY, -INFINITY, NAN, 1e15, 1e16, 1e17, 4294967296., -2147483648., 3e9, 18446744073709551616., 1, 0, -1};
    for(int k = 0; k < 200; ++k) { uint64_t b = r.next(); double z; memcpy(&z, &b, 8); if( std::isfinite(z) ) c.push_back(z); }
    VS s; std::vector<std::string> names; { std::vector<A1> ax(1); ax[0] = .5; CppAD::Independent(ax); std::vector<A1> ay(c.size()); for(size_t k = 0; k < c.size(); ++k) ay[k] = c[k]; Fun f; f.Dependent(ax, ay); f.function_name_set("constants"); std::ostringstream o; f.to_csrc(o, "double"); s.push_back(write_file(o.str())); }
    // x + 5, 5 - x, x - y, x + y - z, ... as one optimized sum; sums with one term
    std::vector<Fun> fs(6); int nsum = 0;
    for(int k = 0; k < 5; ++k) { std::vector<A1> ax(4); for(int q = 0; q < 4; ++q) ax[size_t(q)] = .5 + q; CppAD::Independent(ax); std::vector<A1> ay(1);
        switch(k) { case 0: ay[0] = ax[0] + ax[1] - ax[2]; break; case 1: ay[0] = 5. - ax[0] - ax[1]; break; case 2: ay[0] = 5. - ax[0] - ax[1] - ax[2] - ax[3]; break; case 3: ay[0] = ax[0] + 3. + ax[1] + ax[2]; break; default: ay[0] = -(ax[0] - (ax[1] - (ax[2] - 3.))); }
        Fun& f = fs[size_t(nsum)]; f.Dependent(ax, ay); f.optimize(); std::string n = fmt("sum%d", nsum++); f.function_name_set(n); std::ostringstream o; f.to_csrc(o, "double"); s.push_back(write_file(o.str())); }
    { Graph g; g.initialize(); g.n_dynamic_ind_set(0); g.n_variable_ind_set(4); g.operator_vec_push_back(sum_graph_op); g.operator_arg_push_back(1); g.operator_arg_push_back(2); g.dependent_vec_push_back(5); Fun& f = fs[size_t(nsum)]; f.from_graph(g); f.function_name_set(fmt("sum%d", nsum++)); std::ostringstream o; f.to_csrc(o, "double"); s.push_back(write_file(o.str())); }
    std::string d = dir + "/y.so"; err = CppAD::create_dll_lib(d, s, none); if( err != "" ) { std::ifstream in(s[0]); std::stringstream t; t << in.rdbuf(); rep().fail("constants-compile", err + t.str().substr(0, 2000)); return; }
    CppAD::link_dll_lib l(d, err); CppAD::jit_double f = reinterpret_cast<CppAD::jit_double>(l("cppad_jit_constants", err)); double x[4] = {.5, 2.25, -3, 10}; std::vector<double> y(c.size()); size_t cc = 0;
    if( f == nullptr || f(1, x, c.size(), y.data(), &cc) != 0 ) { rep().fail("constants", err); return; }
    for(size_t k = 0; k < c.size(); ++k) { if( ! (c[k] != c[k] ? y[k] != y[k] : y[k] == c[k] && std::signbit(y[k]) == std::signbit(c[k])) ) rep().fail("constant", fmt("%.17g became %.17g", c[k], y[k])); else rep().count("constants"); }
    for(int k = 0; k < nsum; ++k) { CppAD::jit_double h = reinterpret_cast<CppAD::jit_double>(l(fmt("cppad_jit_sum%d", k), err)); double yk = 77; VDb want = fs[size_t(k)].Forward(0, VDb(x, x + 4)); if( h == nullptr || h(4, x, 1, &yk, &cc) != 0 || yk != want[0] ) rep().fail(fmt("sum%d", k), fmt("got %.17g want %.17g", yk, want[0])); }
#ifndef NDEBUG
    { std::vector<A1> ax(1); ax[0] = .5; CppAD::Independent(ax); std::vector<A1> ay(1); ay[0] = -ax[0]; Fun g; g.Dependent(ax, ay); std::ostringstream o;
      if( ! known([&] { g.to_csrc(o, "double"); }) ) rep().fail("no-error-name", ""); g.function_name_set("a"); for(const char* t : {"int", "", "long double", "Double"}) if( ! known([&] { g.to_csrc(o, t); }) ) rep().fail("no-error-type", t); }
    { CppAD::VecAD<double> v(2); v[0] = 1; v[1] = 2; std::vector<A1> ax(1); ax[0] = 0; CppAD::Independent(ax); std::vector<A1> ay(1); ay[0] = v[ax[0]]; Fun g; g.Dependent(ax, ay); g.function_name_set("a"); std::ostringstream o; if( ! known([&] { g.to_csrc(o, "double"); }) ) rep().fail("no-error-vecad", ""); }
#endif
    rep().count("probes");
}
static void body(long i, Rng& r)
{   if( i % 200 == 199 ) probes(r); else batch(i, r); }
int main(int argc, char** argv)
{   for(int k = 0; k < 3; ++k) { A1 t = .6; Hook<A1>::disc(k, t); }
    for(int k = 1; k + 1 < argc; ++k) if( ! strcmp(argv[k], "--variant") ) variant = argv[k + 1];
    const char* s = getenv("VF_SCRATCH"); dir = std::string(s ? s : "/tmp") + fmt("/c13_%ld", long(getpid())); mkdir(dir.c_str(), 0700); setenv("TMPDIR", dir.c_str(), 1); if( ! strcmp(variant, "") && strstr(argv[0], "san") ) variant = "san";
    contract_relaxed() = true; int rc = harness_main(argc, argv, body); wipe(); rmdir(dir.c_str()); return rc; }
