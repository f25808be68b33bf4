#ifndef VF_GRAPH_HPP
#define VF_GRAPH_HPP
// AD graphs: an evaluator, a translation of programs and a JSON writer that share no code with CppAD's
#include "atoms.hpp"
#include <cppad/core/graph/cpp_graph.hpp>
namespace vf {
using namespace CppAD::graph;
typedef CppAD::cpp_graph Graph;
inline Graph::const_iterator gend(const Graph& g) { return const_cast<Graph&>(g).end(); }
// ---- meaning of a graph at one point, from the documentation of the format -----------
struct GraphValue { std::vector<double> y; long changes = 0; std::string printed; std::string error; };
inline GraphValue eval_graph(const Graph& g, const VDb& d, const VDb& x)
{   GraphValue R; std::vector<double> v(1, NAN); auto bad = [&](const std::string& s) { if( R.error.empty() ) R.error = s; };
    if( d.size() != g.n_dynamic_ind_get() || x.size() != g.n_variable_ind_get() ) { bad("number of independents"); return R; }
    for(double z : d) v.push_back(z); for(double z : x) v.push_back(z); for(size_t i = 0; i < g.constant_vec_size(); ++i) v.push_back(g.constant_vec_get(i));
    size_t no = 0;
    for(auto it = g.begin(); it != gend(g); ++it)
    {   auto q = *it; const auto& s = *q.str_index_ptr; std::vector<double> a; for(size_t j = 0; j < q.arg_node_ptr->size(); ++j) { size_t k = (*q.arg_node_ptr)[j]; if( k == 0 || k >= v.size() ) { bad(fmt("operator %zu has node %zu", no, k)); return R; } a.push_back(v[k]); }
        ++no; std::vector<double> r(1, NAN);
        switch( q.op_enum )
        {   case abs_graph_op: r[0] = std::fabs(a[0]); break; case acos_graph_op: r[0] = std::acos(a[0]); break; case acosh_graph_op: r[0] = std::acosh(a[0]); break;
            case asin_graph_op: r[0] = std::asin(a[0]); break; case asinh_graph_op: r[0] = std::asinh(a[0]); break; case atan_graph_op: r[0] = std::atan(a[0]); break; case atanh_graph_op: r[0] = std::atanh(a[0]); break;
            case cos_graph_op: r[0] = std::cos(a[0]); break; case cosh_graph_op: r[0] = std::cosh(a[0]); break; case erf_graph_op: r[0] = std::erf(a[0]); break; case erfc_graph_op: r[0] = std::erfc(a[0]); break;
            case exp_graph_op: r[0] = std::exp(a[0]); break; case expm1_graph_op: r[0] = std::expm1(a[0]); break; case log1p_graph_op: r[0] = std::log1p(a[0]); break; case log_graph_op: r[0] = std::log(a[0]); break;
            case neg_graph_op: r[0] = -a[0]; break; case sign_graph_op: r[0] = vf::sign(a[0]); break; case sin_graph_op: r[0] = std::sin(a[0]); break; case sinh_graph_op: r[0] = std::sinh(a[0]); break;
            case sqrt_graph_op: r[0] = std::sqrt(a[0]); break; case tan_graph_op: r[0] = std::tan(a[0]); break; case tanh_graph_op: r[0] = std::tanh(a[0]); break;
            case add_graph_op: r[0] = a[0] + a[1]; break; case sub_graph_op: r[0] = a[0] - a[1]; break; case mul_graph_op: r[0] = a[0] * a[1]; break; case div_graph_op: r[0] = a[0] / a[1]; break;
            case pow_graph_op: r[0] = std::pow(a[0], a[1]); break; case azmul_graph_op: r[0] = vf::azmul(a[0], a[1]); break;
            case cexp_eq_graph_op: r[0] = a[0] == a[1] ? a[2] : a[3]; break; case cexp_le_graph_op: r[0] = a[0] <= a[1] ? a[2] : a[3]; break; case cexp_lt_graph_op: r[0] = a[0] < a[1] ? a[2] : a[3]; break;
            case comp_eq_graph_op: R.changes += !(a[0] == a[1]); r.clear(); break; case comp_le_graph_op: R.changes += !(a[0] <= a[1]); r.clear(); break;
            case comp_lt_graph_op: R.changes += !(a[0] < a[1]); r.clear(); break; case comp_ne_graph_op: R.changes += !(a[0] != a[1]); r.clear(); break;
            case sum_graph_op: { long double t = 0; for(double z : a) t += z; r[0] = double(t); } break;
            case discrete_graph_op: { const std::string& n = g.discrete_name_vec_get(s[0]); int w = n == "d_floor" ? 0 : n == "d_step" ? 1 : n == "d_half" ? 2 : -1; if( w < 0 ) { bad("discrete name " + n); return R; } r[0] = disc_eval(w, a[0]); } break;
            case print_graph_op: r.clear(); if( ! (a[0] > 0) ) { std::ostringstream o; o << g.print_text_vec_get(s[0]) << a[1] << g.print_text_vec_get(s[1]); R.printed += o.str(); } break;
            case atom_graph_op: case atom4_graph_op: { const std::string& n = g.atomic_name_vec_get(s[0]); auto f = atom_prog().find(n); if( f == atom_prog().end() ) { bad("atomic name " + n); return R; }
                const Prog& p = *f->second; if( size_t(p.n) != a.size() || p.dep.size() != q.n_result ) { bad("atomic size " + n); return R; } Interp<double> ip(p); r = ip(a, {}); } break;
            default: bad("operator code"); return R; }
        if( r.size() != q.n_result ) { bad("number of results"); return R; }
        for(double z : r) v.push_back(z); }
    for(size_t i = 0; i < g.dependent_vec_size(); ++i) { size_t k = g.dependent_vec_get(i); if( k == 0 || k >= v.size() ) { bad(fmt("dependent node %zu", k)); return R; } R.y.push_back(v[k]); }
    return R; }
// ---- graph of a program, written from the documentation (no atomic functions, no VecAD, no atan2) ----
inline bool prog_to_graph(const Prog& p, const Gen& gen, Rng& r, Graph& g)
{   for(auto& i : p.ins) if( i.op == B_ATAN2 || i.op == I_LOAD || i.op == I_STORE || i.op == I_ATOM ) return false;
    g.initialize(); g.n_dynamic_ind_set(size_t(p.nd)); g.n_variable_ind_set(size_t(p.n));
    std::vector<double> cons; std::map<std::pair<uint64_t, int>, size_t> where; std::vector<size_t> node(size_t(p.nnode), 0); bool share = r.chance(.7);
    auto bits = [](double z) { uint64_t b; memcpy(&b, &z, 8); return b; }; int serial = 0;
    // first pass: constants; each use of a literal either shares one node or has one of its own
    std::vector<size_t> cidx; auto newcon = [&](double c) -> size_t { auto k = std::make_pair(bits(c), share ? 0 : ++serial); auto f = where.find(k); if( f != where.end() ) return f->second; cons.push_back(c); return where[k] = cons.size() - 1; };
    std::vector<std::vector<size_t>> ci(p.ins.size());
    for(size_t q = 0; q < p.ins.size(); ++q) { const Instr& i = p.ins[q]; if( i.op == I_CONST ) ci[q].push_back(newcon(i.c)); if( i.op == I_IPOW ) ci[q].push_back(newcon(1)); if( i.op == U_LOG10 ) ci[q].push_back(newcon(std::log(10.0)));
        if( i.op >= 30 && i.op < B_LAST_ && i.form != 0 && i.form != 3 ) ci[q].push_back(newcon(i.form >= 7 ? double(int(i.c)) : i.c)); }
    size_t base = size_t(p.nd + p.n); for(double c : cons) g.constant_vec_push_back(c);
    for(int j = 0; j < p.n; ++j) node[size_t(j)] = size_t(p.nd + j) + 1; for(int j = 0; j < p.nd; ++j) node[size_t(p.n + j)] = size_t(j) + 1;
    size_t next = base + cons.size() + 1; std::map<size_t, std::vector<size_t>> sums; // terms of the nodes that are sums
    auto con = [&](size_t q, size_t k) { return base + 1 + ci[q][k]; };
    auto arg = [&](size_t k) { g.operator_arg_push_back(k); };
    auto emit = [&](graph_op_enum op, std::initializer_list<size_t> a) { g.operator_vec_push_back(op); for(size_t k : a) arg(k); return next++; };
    auto text = [&](const std::string& s) { size_t k = g.print_text_vec_find(s); if( k == g.print_text_vec_size() ) g.print_text_vec_push_back(s); return k; };
    for(size_t q = 0; q < p.ins.size(); ++q)
    {   const Instr& i = p.ins[q]; size_t a[4]; for(int k = 0; k < 4; ++k) a[k] = i.a[k] >= 0 ? node[size_t(i.a[k])] : 0; size_t res = 0;
        static const graph_op_enum un[] = {neg_graph_op, n_graph_op, abs_graph_op, abs_graph_op, sign_graph_op, acos_graph_op, acosh_graph_op, asin_graph_op, asinh_graph_op, atan_graph_op, atanh_graph_op, cos_graph_op, cosh_graph_op,
            exp_graph_op, expm1_graph_op, log_graph_op, n_graph_op, log1p_graph_op, sin_graph_op, sinh_graph_op, sqrt_graph_op, tan_graph_op, tanh_graph_op, erf_graph_op, erfc_graph_op};
        if( i.op == U_PLUS ) res = a[0];
        else if( i.op == U_LOG10 ) { size_t t = emit(log_graph_op, {a[0]}); res = emit(div_graph_op, {t, con(q, 0)}); }
        else if( i.op < U_LAST_ ) res = emit(un[i.op], {a[0]});
        else if( i.op >= 30 && i.op < B_LAST_ )
        {   bool ca = (i.form == 2 || i.form == 5 || i.form == 8), cb = (i.form == 1 || i.form == 4 || i.form == 6 || i.form == 7 || i.form == 9);
            size_t x = ca ? con(q, 0) : a[0], y = cb ? con(q, 0) : (ca ? a[0] : a[1]);
            static const graph_op_enum bi[] = {add_graph_op, sub_graph_op, mul_graph_op, div_graph_op, pow_graph_op, n_graph_op, azmul_graph_op};
            if( i.op == B_ADD && r.chance(.5) )
            {   std::vector<size_t> t; for(size_t k : {x, y}) if( sums.count(k) && r.chance(.7) ) t.insert(t.end(), sums[k].begin(), sums[k].end()); else t.push_back(k);
                for(size_t k = t.size(); k-- > 1; ) std::swap(t[k], t[size_t(r.below(int(k) + 1))]);
                if( t.size() < 60 ) { g.operator_vec_push_back(sum_graph_op); arg(t.size()); for(size_t k : t) arg(k); res = next++; sums[res] = t; rep().count("sum_operator"); } }
            if( res == 0 ) res = emit(bi[i.op - 30], {x, y}); }
        else switch( i.op )
        {   case I_CONST: res = con(q, 0); break;
            case I_IPOW: res = i.c == 0 ? con(q, 0) : a[0]; for(int k = 1; k < std::abs(int(i.c)); ++k) res = emit(mul_graph_op, {res, a[0]}); if( i.c < 0 ) res = emit(div_graph_op, {con(q, 0), res}); break;
            case I_CEXP: { bool sw = i.sub == R_GE || i.sub == R_GT || i.sub == R_NE; graph_op_enum op = i.sub == R_LT || i.sub == R_GE ? cexp_lt_graph_op : i.sub == R_LE || i.sub == R_GT ? cexp_le_graph_op : cexp_eq_graph_op;
                if( i.sub == R_GE && r.chance(.5) ) res = emit(cexp_le_graph_op, {a[1], a[0], a[2], a[3]}); else if( i.sub == R_GT && r.chance(.5) ) res = emit(cexp_lt_graph_op, {a[1], a[0], a[2], a[3]});
                else res = sw ? emit(op, {a[0], a[1], a[3], a[2]}) : emit(op, {a[0], a[1], a[2], a[3]}); } break;
            case I_DISC: { static const char* dn[] = {"d_floor", "d_step", "d_half"}; std::string n = dn[i.sub]; size_t k = g.discrete_name_vec_find(n); if( k == g.discrete_name_vec_size() ) g.discrete_name_vec_push_back(n); res = emit(discrete_graph_op, {k, a[0]}); } break;
            case I_CMP: { int rel = i.sub; bool t = Hook<double>::rel(rel, gen.v(0, i.a[0]), gen.v(0, i.a[1])); if( ! t ) { static const int neg[] = {R_GE, R_GT, R_NE, R_LT, R_LE, R_EQ}; rel = neg[rel]; }
                switch( rel ) { case R_LT: emit(comp_lt_graph_op, {a[0], a[1]}); break; case R_LE: emit(comp_le_graph_op, {a[0], a[1]}); break; case R_EQ: emit(comp_eq_graph_op, {a[0], a[1]}); break;
                    case R_GE: emit(comp_le_graph_op, {a[1], a[0]}); break; case R_GT: emit(comp_lt_graph_op, {a[1], a[0]}); break; default: emit(comp_ne_graph_op, {a[0], a[1]}); } --next; } break;
            case I_PRINT: { size_t b = text(fmt("P%d:", i.sub)), e = text(";"); emit(print_graph_op, {b, e, a[0], a[1]}); --next; } break;
            default: return false; }
        if( i.nres > 0 ) node[size_t(i.ires)] = res; }
    for(int d : p.dep) g.dependent_vec_push_back(node[size_t(d)]);
    return true; }
// ---- JSON of a graph, as tokens -----------
inline std::string json_str(const std::string& s) { return "\"" + s + "\""; }
inline std::string json_num(double c, Rng& r)
{   std::string s = fmt("%.17g", c); switch( r.below(5) ) { case 0: s = fmt("%.17e", c); break; case 1: s = fmt("%.17E", c); break; case 2: if( s.find_first_of(".e") == std::string::npos ) s += "."; break; case 3: if( s[0] != '-' ) s = "+" + s; break; }
    return s; }
inline const std::vector<std::pair<const char*, int>>& op_table() // name and fixed number of arguments, in the order of graph_op_enum
{   static const std::vector<std::pair<const char*, int>> t = {{"abs",1},{"acos",1},{"acosh",1},{"add",2},{"asin",1},{"asinh",1},{"atan",1},{"atanh",1},{"atom4",0},{"atom",0},{"azmul",2},{"cexp_eq",4},{"cexp_le",4},{"cexp_lt",4},{"comp_eq",0},{"comp_le",0},{"comp_lt",0},{"comp_ne",0},
        {"cos",1},{"cosh",1},{"discrete",0},{"div",2},{"erf",1},{"erfc",1},{"exp",1},{"expm1",1},{"log1p",1},{"log",1},{"mul",2},{"neg",1},{"pow",2},{"print",0},{"sign",1},{"sin",1},{"sinh",1},{"sqrt",1},{"sub",2},{"sum",0},{"tan",1},{"tanh",1}};
    return t; }
inline const char* op_json_name(graph_op_enum e)
{   switch( e ) { case abs_graph_op: return "abs"; case acos_graph_op: return "acos"; case acosh_graph_op: return "acosh"; case add_graph_op: return "add"; case asin_graph_op: return "asin"; case asinh_graph_op: return "asinh"; case atan_graph_op: return "atan"; case atanh_graph_op: return "atanh";
    case atom4_graph_op: return "atom4"; case atom_graph_op: return "atom"; case azmul_graph_op: return "azmul"; case cexp_eq_graph_op: return "cexp_eq"; case cexp_le_graph_op: return "cexp_le"; case cexp_lt_graph_op: return "cexp_lt"; case comp_eq_graph_op: return "comp_eq"; case comp_le_graph_op: return "comp_le";
    case comp_lt_graph_op: return "comp_lt"; case comp_ne_graph_op: return "comp_ne"; case cos_graph_op: return "cos"; case cosh_graph_op: return "cosh"; case discrete_graph_op: return "discrete"; case div_graph_op: return "div"; case erf_graph_op: return "erf"; case erfc_graph_op: return "erfc"; case exp_graph_op: return "exp";
    case expm1_graph_op: return "expm1"; case log1p_graph_op: return "log1p"; case log_graph_op: return "log"; case mul_graph_op: return "mul"; case neg_graph_op: return "neg"; case pow_graph_op: return "pow"; case print_graph_op: return "print"; case sign_graph_op: return "sign"; case sin_graph_op: return "sin"; case sinh_graph_op: return "sinh";
    case sqrt_graph_op: return "sqrt"; case sub_graph_op: return "sub"; case sum_graph_op: return "sum"; case tan_graph_op: return "tan"; case tanh_graph_op: return "tanh"; default: return "?"; } }
inline std::vector<std::string> json_tokens(const Graph& g, Rng& r)
{   std::vector<std::string> t; auto put = [&](const std::string& s) { t.push_back(s); }; auto num = [&](size_t k) { t.push_back(fmt("%zu", k)); };
    auto key = [&](const char* k) { put(json_str(k)); put(":"); };
    std::map<std::string, size_t> used; std::map<std::string, int> fixed; for(auto& e : op_table()) fixed[e.first] = e.second;
    std::vector<std::string> names; for(auto it = g.begin(); it != gend(g); ++it) { std::string n = op_json_name((*it).op_enum); if( ! used.count(n) ) { used[n] = 0; names.push_back(n); } }
    if( r.chance(.3) ) for(auto& e : op_table()) if( ! used.count(e.first) && r.chance(.3) ) { used[e.first] = 0; names.push_back(e.first); } // operators that are not used
    for(size_t k = names.size(); k-- > 1; ) std::swap(names[k], names[size_t(r.below(int(k) + 1))]);
    for(size_t k = 0; k < names.size(); ++k) used[names[k]] = k + 1;
    put("{"); key("function_name"); put(json_str(g.function_name_get())); put(",");
    key("op_define_vec"); put("["); num(names.size()); put(","); put("[");
    for(size_t k = 0; k < names.size(); ++k) { if( k ) put(","); put("{"); key("op_code"); num(k + 1); put(","); key("name"); put(json_str(names[k])); if( fixed[names[k]] ) { put(","); key("n_arg"); num(size_t(fixed[names[k]])); } put("}"); }
    put("]"); put("]"); put(",");
    key("n_dynamic_ind"); num(g.n_dynamic_ind_get()); put(","); key("n_variable_ind"); num(g.n_variable_ind_get()); put(",");
    key("constant_vec"); put("["); num(g.constant_vec_size()); put(","); put("["); for(size_t k = 0; k < g.constant_vec_size(); ++k) { if( k ) put(","); put(json_num(g.constant_vec_get(k), r)); } put("]"); put("]"); put(",");
    key("op_usage_vec"); put("["); num(g.operator_vec_size()); put(","); put("["); bool first = true;
    for(auto it = g.begin(); it != gend(g); ++it)
    {   auto q = *it; if( ! first ) put(","); first = false; std::string n = op_json_name(q.op_enum); put("["); num(used[n]); put(",");
        const auto& s = *q.str_index_ptr; const auto& a = *q.arg_node_ptr; bool fx = fixed[n] > 0;
        if( n == "discrete" ) { put(json_str(g.discrete_name_vec_get(s[0]))); put(","); } if( n == "atom" || n == "atom4" ) { put(json_str(g.atomic_name_vec_get(s[0]))); put(","); }
        if( n == "print" ) { put(json_str(g.print_text_vec_get(s[0]))); put(","); put(json_str(g.print_text_vec_get(s[1]))); put(","); }
        if( n == "atom4" ) { num(q.call_id); put(","); }
        if( ! fx ) { num(q.n_result); put(","); num(a.size()); put(","); put("["); }
        for(size_t k = 0; k < a.size(); ++k) { if( k ) put(","); num(a[k]); }
        if( ! fx ) put("]"); put("]"); }
    put("]"); put("]"); put(",");
    key("dependent_vec"); put("["); num(g.dependent_vec_size()); put(","); put("["); for(size_t k = 0; k < g.dependent_vec_size(); ++k) { if( k ) put(","); num(g.dependent_vec_get(k)); } put("]"); put("]"); put("}");
    return t; }
inline std::string json_join(const std::vector<std::string>& t, Rng& r)
{   int mode = r.below(3); std::string s; static const char* w[] = {" ", "\n", "\t", "  ", " \r\n", "\n\n "};
    for(auto& k : t) { if( mode == 1 ) s += " "; else if( mode == 2 ) while( r.chance(.3) ) s += w[r.below(6)]; s += k; } if( mode == 2 && r.chance(.5) ) s += "\n"; return s; }
inline std::string graph_text(const Graph& g) { Rng r(1); auto t = json_tokens(g, r); std::string s; for(auto& k : t) s += k; return s.substr(0, 3000); }
} // namespace vf
#endif
