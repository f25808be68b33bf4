// C12: malformed JSON is reported, never mis-executed
#include "../lib/graph.hpp"
#include <sys/resource.h>
using namespace vf;
typedef CppAD::ADFun<double> Fun;
// ---- reader of the documented format; every text is valid, invalid or of unspecified meaning -----------
struct Doc
{   std::string why, open; size_t nd = 0, nx = 0; std::string name; std::vector<double> cons; struct Use { int op; std::vector<std::string> str; size_t nr; std::vector<size_t> a; }; std::vector<Use> use; std::vector<size_t> dep; bool big = false, atoms = false;
    std::string s; size_t p = 0;
    struct Bad { std::string w; };
    [[noreturn]] void bad(const std::string& w) { throw Bad{w + fmt(" at %zu", p)}; }
    void ws() { while( p < s.size() && s[p] != 0 && strchr(" \t\n\v\f\r", s[p]) ) ++p; }
    void ch(char c) { ws(); if( p >= s.size() || s[p] != c ) bad(std::string("expected ") + c); ++p; }
    std::string str() { ch('"'); std::string r; while( p < s.size() && s[p] != '"' ) r += s[p++]; if( p >= s.size() ) bad("string not ended"); ++p; return r; }
    void key(const char* k) { size_t q = p; if( str() != k ) { p = q; bad(std::string("expected key ") + k); } ch(':'); }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    size_t num() { ws(); if( p >= s.size() || ! dig(s[p]) ) bad("expected integer"); size_t v = 0; bool over = false; while( p < s.size() && dig(s[p]) ) { size_t d = size_t(s[p] - '0'); if( v > (SIZE_MAX - d) / 10 ) over = true; v = v * 10 + d; ++p; } if( over ) bad("integer too large"); return v; }
    double flt()
    {   ws(); size_t q = p; while( p < s.size() && (dig(s[p]) || (s[p] && strchr("+-eE.", s[p]))) ) ++p; if( p == q ) bad("expected number");
        std::string t = s.substr(q, p - q); char* e; double v = strtod(t.c_str(), &e); if( *e || e == t.c_str() ) open = "number " + t; if( ! std::isfinite(v) ) open = "overflow of " + t; return v; }
    void read()
    {   ch('{'); key("function_name"); name = str(); ch(','); key("op_define_vec"); ch('['); size_t n = num(); ch(','); ch('['); std::vector<int> code(1, -1);
        for(size_t i = 0; i < n; ++i)
        {   if( i ) ch(','); ch('{'); key("op_code"); if( num() != i + 1 ) bad("op_code out of sequence"); ch(','); key("name"); std::string nm = str(); int k = -1; for(size_t j = 0; j < op_table().size(); ++j) if( nm == op_table()[j].first ) k = int(j);
            if( k < 0 ) bad("operator name " + nm); if( op_table()[size_t(k)].second ) { ch(','); key("n_arg"); if( num() != size_t(op_table()[size_t(k)].second) ) bad("n_arg"); } ch('}'); code.push_back(k); }
        ch(']'); ch(']'); ch(','); key("n_dynamic_ind"); nd = num(); ch(','); key("n_variable_ind"); nx = num(); ch(',');
        if( nd > 50000 || nx > 50000 ) { big = true; return; } if( nx == 0 ) open = "no independent variables";
        key("constant_vec"); ch('['); n = num(); ch(','); ch('['); for(size_t i = 0; i < n; ++i) { if( i ) ch(','); cons.push_back(flt()); } ch(']'); ch(']'); ch(',');
        size_t next = 1 + nd + nx + cons.size(); key("op_usage_vec"); ch('['); n = num(); ch(','); ch('[');
        for(size_t i = 0; i < n; ++i)
        {   if( i ) ch(','); ch('['); size_t c = num(); if( c == 0 || c >= code.size() ) bad("op_code not defined"); Use u; u.op = code[c]; u.nr = 1; std::string nm = op_table()[size_t(u.op)].first; size_t na = size_t(op_table()[size_t(u.op)].second); bool fixed = na > 0; ch(',');
            if( ! fixed )
            {   bool at = nm == "atom" || nm == "atom4"; if( nm == "discrete" || at ) u.str.push_back(str()), ch(','); if( nm == "print" ) { u.str.push_back(str()); ch(','); u.str.push_back(str()); ch(','); } if( nm == "atom4" ) { num(); ch(','); }
                u.nr = num(); ch(','); na = num(); ch(','); ch('['); size_t wr = nm == "sum" || nm == "discrete" ? 1 : 0, wa = nm == "discrete" ? 1 : 2; if( ! at && u.nr != wr ) bad("n_result"); if( ! at && nm != "sum" && na != wa ) bad("n_arg"); if( nm == "sum" && na == 0 ) open = "empty sum"; if( at ) { if( u.nr > 50000 ) { big = true; return; } if( name_known(u.str[0]) == false ) bad("atomic name"); atoms = true; }
                if( nm == "discrete" && u.str[0] != "d_floor" && u.str[0] != "d_step" && u.str[0] != "d_half" ) bad("discrete name"); }
            for(size_t j = 0; j < na; ++j) { if( j ) ch(','); size_t k = num(); if( k == 0 || k >= next ) bad("node index"); u.a.push_back(k); }
            ch(']'); if( ! fixed ) ch(']'); next += u.nr; use.push_back(u); }
        ch(']'); ch(']'); ch(','); key("dependent_vec"); ch('['); n = num(); ch(','); ch('['); for(size_t i = 0; i < n; ++i) { if( i ) ch(','); size_t k = num(); if( k == 0 || k >= next ) bad("dependent"); dep.push_back(k); } ch(']'); ch(']'); ch('}'); if( dep.empty() ) open = "no dependents"; ws(); if( p < s.size() ) open = "text after the end"; }
    bool name_known(const std::string&) { return false; }
    explicit Doc(const std::string& t) : s(t) { try { read(); } catch(const Bad& b) { why = b.w; } }
    bool valid() const { return why.empty() && ! big && open.empty(); }
    // the graph it denotes
    void graph(Graph& g) const
    {   g.initialize(); g.n_dynamic_ind_set(nd); g.n_variable_ind_set(nx); for(double c : cons) g.constant_vec_push_back(c); for(auto& u : use) { auto op = graph_op_enum(u.op); g.operator_vec_push_back(op); if( op == sum_graph_op ) g.operator_arg_push_back(u.a.size()); for(auto& t : u.str) { size_t k; if( op == print_graph_op ) { k = g.print_text_vec_find(t); if( k == g.print_text_vec_size() ) g.print_text_vec_push_back(t); } else { k = g.discrete_name_vec_find(t); if( k == g.discrete_name_vec_size() ) g.discrete_name_vec_push_back(t); } g.operator_arg_push_back(k); } for(size_t k : u.a) g.operator_arg_push_back(k); }
        for(size_t k : dep) g.dependent_vec_push_back(k); }
};
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || near(a, b, 1e-9, 1e-11) || a == b; }
// one text
static void judge(const std::string& t, const std::string& how, Rng& r, const Prog* p, const std::vector<Point>& pts)
{   Doc d(t); if( d.big ) { rep().count("too_large"); return; }
    auto ctx = [&]() { return how + " " + t.substr(0, 3000); }; std::string key = how.substr(0, how.find(' '));
    bool err = false; std::string msg; Fun f; int prior = r.below(3);
    if( prior ) { std::vector<A1> ax(1); ax[0] = .5; CppAD::Independent(ax); std::vector<A1> ay(1); ay[0] = ax[0] * 2. + sin(ax[0]); f.Dependent(ax, ay); if( prior == 2 ) f.Forward(0, VDb(1, .3)); }
    try { f.from_json(t); } catch(const cppad_error& e) { err = true; msg = e.msg; if( ! e.known ) { rep().fail("not-known:" + err_key(e), e.file + fmt(":%d ", e.line) + " reference: " + d.why + " " + ctx()); return; } }
    f.check_for_nan(false); rep().count("texts"); rep().count(d.valid() ? "valid" : d.why.empty() ? "unspecified" : "invalid"); if( err ) rep().count("reported"); rep().sig(hstr(t));
    if( ! d.why.empty() ) { std::string w = d.why.substr(0, d.why.find(" at")); rep().count(("why_" + w.substr(0, w.find(' '))).c_str()); if( ! err ) rep().fail("accepted-invalid:" + w.substr(0, 12), d.why + " " + ctx()); }
    if( err )
    {   if( d.valid() ) { rep().fail("rejected-valid", msg + " " + ctx()); return; }
        size_t a = msg.find("in line "); if( a != std::string::npos ) { long line = atol(msg.c_str() + a + 8), lines = 1; for(char c : t) lines += c == '\n'; if( line < 1 || line > lines ) rep().fail("line-number", msg + " " + ctx()); else rep().count("line_numbers");
            if( ! d.why.empty() ) { size_t b = msg.find("This end is character "); long c = atol(msg.c_str() + b + 22); if( b == std::string::npos || c < 0 || c > long(t.size()) + 1 ) rep().fail("char-number", msg + " " + ctx()); } }
        // the object can be used again after the error
        if( r.chance(.3) ) { std::string good = "{ \"function_name\":\"g\", \"op_define_vec\":[1,[{\"op_code\":1,\"name\":\"sin\",\"n_arg\":1}]],\"n_dynamic_ind\":0,\"n_variable_ind\":1,\"constant_vec\":[0,[]],\"op_usage_vec\":[1,[[1,1]]],\"dependent_vec\":[1,[2]]}"; f.from_json(good); VDb y = f.Forward(0, VDb(1, .25)); if( ! near(y[0], std::sin(.25), 1e-15, 0) ) rep().fail("after-error", ctx()); rep().count("after_error"); }
        return; }
    if( ! d.why.empty() ) return;
    if( f.Domain() != d.nx || f.Range() != d.dep.size() || f.size_dyn_ind() != d.nd ) { rep().fail("accepted-size", ctx()); return; }
    if( ! d.valid() ) { try { VDb x(d.nx, .5); if( d.nd ) f.new_dynamic(VDb(d.nd, .5)); std::ostringstream o; if( d.nx && ! d.dep.empty() ) f.Forward(0, x, o); } catch(const cppad_error& e) { if( ! e.known ) rep().fail("unspecified-use", e.file + fmt(":%d ", e.line) + ctx()); } return; }
    Graph g; d.graph(g);
    int differ = 0, trials = 0; std::string first; bool strict = p == nullptr || how.compare(0, 5, "valid") == 0;
    for(int k = 0; k < 2 || (differ > 0 && k < 6); ++k)
    {   VDb x(d.nx), dy(d.nd); for(double& z : x) z = r.uni(.1, 1.5); for(double& z : dy) z = r.uni(.1, 1.5); if( p && k < int(pts.size()) && k < 2 && pts[size_t(k)].x.size() == x.size() && pts[size_t(k)].d.size() == dy.size() ) { x = pts[size_t(k)].x; dy = pts[size_t(k)].d; }
        GraphValue v = eval_graph(g, dy, x); if( ! v.error.empty() ) { rep().fail("evaluator", v.error + " " + ctx()); return; }
        if( d.nd ) f.new_dynamic(dy); std::ostringstream o; VDb y = f.Forward(0, x, o); bool fin = true, dif = false; for(double z : v.y) fin = fin && std::isfinite(z);
        for(size_t a = 0; a < y.size(); ++a) if( std::isfinite(v.y[a]) && std::fabs(v.y[a]) < 1e6 && ! same(y[a], v.y[a]) )
        {   if( strict ) { rep().fail("accepted-value", fmt("%zu: %.17g expected %.17g ", a, y[a], v.y[a]) + ctx()); return; }
            if( ! dif ) { dif = true; first = fmt("%zu: %.17g expected %.17g ", a, y[a], v.y[a]); } }
        differ += dif; ++trials; if( fin ) rep().count("evaluated"); }
    // a mutant may be discontinuous or badly conditioned at one point, not at most of them
    if( differ ) { rep().count("mutant_value_differs"); if( differ > trials / 2 ) rep().fail("accepted-value-mutant", first + ctx()); } }
static std::string junk(Rng& r) { static const char* c[] = {"{", "}", "[", "]", ",", ":", "0", "1", "2", "3", "\"sum\"", "\"sin\"", "\"bogus\"", "\"\"", "-1", "4294967296", "4294967297", "2147483648", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "1e5", "+-e.", "1.5", "null", "true", "\"comp_eq\"", "\"discrete\"", "\"atom\"", "\"atom4\"", "\"print\"", "\"op_code\"", "\"n_arg\"", "\"", "'", "nan", "1000000"}; return c[r.below(int(sizeof(c) / sizeof(*c)))]; }
static std::string mutate(std::vector<std::string> t, Rng& r, std::string& how)
{   int n = r.range(1, r.chance(.7) ? 1 : 4); how = "token";
    for(int k = 0; k < n && ! t.empty(); ++k)
    {   size_t i = size_t(r.below(int(t.size()))), j = size_t(r.below(int(t.size())));
        if( r.chance(.6) ) for(int q = 0; q < 30 && !(t[i][0] >= '0' && t[i][0] <= '9'); ++q) i = size_t(r.below(int(t.size()))); // prefer numbers
        switch( r.below(8) )
        {   case 0: how += fmt(" del %zu", i); t.erase(t.begin() + long(i)); break;
            case 1: how += fmt(" dup %zu", i); t.insert(t.begin() + long(j), t[i]); break;
            case 2: how += fmt(" swap %zu %zu", i, j); std::swap(t[i], t[j]); break;
            case 3: how += fmt(" junk %zu", i); t[i] = junk(r); break;
            case 4: how += fmt(" ins %zu", i); t.insert(t.begin() + long(i), junk(r)); break;
            case 5: { how += fmt(" cut %zu %zu", i, j); if( i > j ) std::swap(i, j); if( j - i < 12 ) t.erase(t.begin() + long(i), t.begin() + long(j)); else t.erase(t.begin() + long(i), t.begin() + long(i) + r.range(1, 5)); break; }
            default: if( t[i][0] >= '0' && t[i][0] <= '9' ) { unsigned long long v = strtoull(t[i].c_str(), nullptr, 10); how += fmt(" num %zu", i); switch( r.below(6) ) { case 0: ++v; break; case 1: v = v ? v - 1 : 1; break; case 2: v += (unsigned long long)(r.range(2, 40)); break; case 3: v = 0; break; case 4: v += 4294967296ull; break; default: v = (unsigned long long)(r.range(0, 60)); } t[i] = std::to_string(v); } else if( t[i][0] == '"' ) { how += fmt(" str %zu", i); t[i] = r.chance(.5) ? t[j][0] == '"' ? t[j] : junk(r) : "\"x" + t[i].substr(1); } } }
    return json_join(t, r); }
static std::string char_mutate(std::string s, Rng& r, std::string& how)
{   int n = r.range(1, 3); how = "char"; for(int k = 0; k < n && ! s.empty(); ++k) { size_t i = size_t(r.below(int(s.size()))); switch( r.below(4) ) { case 0: s.erase(i, 1); break; case 1: s[i] = char(r.below(256)); break; case 2: s.insert(i, 1, char(r.below(256))); break; default: s[i] = char(s[i] ^ (1 << r.below(8))); } how += fmt(" %zu", i); } return s; }
static void one(Gen& gen, Rng& r)
{   const Prog& p = gen.p; Graph g; if( ! prog_to_graph(p, gen, r, g) ) { rep().count("not_translated"); return; } g.function_name_set("vf"); auto t = json_tokens(g, r);
    judge(json_join(t, r), "valid", r, &p, gen.pts);
    for(int k = 0; k < 6; ++k) { std::string how; std::string s = mutate(t, r, how); judge(s, how, r, &p, gen.pts); }
    for(int k = 0; k < 2; ++k) { std::string how; std::string s = char_mutate(json_join(t, r), r, how); judge(s, how, r, &p, gen.pts); }
    { std::string s = json_join(t, r); size_t c = size_t(r.below(int(s.size()) + 1)); judge(s.substr(0, c), fmt("truncated %zu", c), r, &p, gen.pts); }
    if( r.chance(.2) ) { std::string s = json_join(t, r); size_t a = size_t(r.below(int(s.size()))), b = size_t(r.below(int(s.size()))); judge(s.substr(0, a) + s.substr(b), fmt("spliced %zu %zu", a, b), r, &p, gen.pts); }
    if( r.chance(.1) ) { std::string s; int n = r.range(0, 40); for(int k = 0; k < n; ++k) s += junk(r) + (r.chance(.5) ? " " : ""); if( r.chance(.5) ) s = "{\"function_name\":\"\"," + s; judge(s, "random", r, nullptr, gen.pts); } }
static Mix mix() { Mix m; m.vec = false; m.cmp = true; m.print = true; m.max_n = 3; m.binary_ops = {B_ADD, B_SUB, B_MUL, B_DIV, B_POW, B_AZMUL}; return m; }
static void body(long i, Rng& r)
{   static Mix m = mix(); static bool once = true; if( once ) { once = false; for(int k = 0; k < 3; ++k) { A1 t = .6; Hook<A1>::disc(k, t); } }
    // every index of one small text removed, truncated and changed, in turn
    long j = i % 10000000;
    if( j < 900 )
    {   static const char* T = "{\"function_name\":\"f\",\"op_define_vec\":[5,[{\"op_code\":1,\"name\":\"add\",\"n_arg\":2},{\"op_code\":2,\"name\":\"sum\"},{\"op_code\":3,\"name\":\"comp_lt\"},{\"op_code\":4,\"name\":\"discrete\"},{\"op_code\":5,\"name\":\"print\"}]],\"n_dynamic_ind\":1,\"n_variable_ind\":2,\"constant_vec\":[2,[-1.5e0,+2]],\"op_usage_vec\":[5,[[1,1,2],[2,1,3,[6,3,4]],[3,0,2,[1,5]],[4,\"d_floor\",1,1,[7]],[5,\"a\",\"b\",0,2,[2,6]]]],\"dependent_vec\":[2,[7,8]]}";
        std::string s = T; size_t q = size_t(j / 2) % s.size(); if( j % 2 ) judge(s.substr(0, q), fmt("truncated %zu", q), r, nullptr, {}); else for(char c : {'0', '9', '1', '"', ',', '}', ' ', 'e', '-'}) { std::string u = s; u[q] = c; judge(u, fmt("byte %zu", q), r, nullptr, {}); std::string v = s; v.erase(q, 1); judge(v, fmt("erase %zu", q), r, nullptr, {}); }
        rep().count("systematic_text"); return; }
    prog_case(i, r, m, one); }
int main(int argc, char** argv) { rlimit l{4ul << 30, 4ul << 30};
#ifdef __has_feature
#if __has_feature(address_sanitizer)
#define VF_SAN
#endif
#endif
#ifndef VF_SAN
    setrlimit(RLIMIT_AS, &l);
#endif
    (void)l; return harness_main(argc, argv, body); }
