#ifndef VF_TRUTH_HPP
#define VF_TRUTH_HPP
// what a program's results really depend on, observed numerically: entries that are non-zero somewhere
#include "atoms.hpp"
#include <set>
namespace vf {
typedef std::set<std::pair<size_t, size_t>> Pat;
typedef CppAD::sparse_rc<std::vector<size_t>> Src;
struct Truth {
    size_t n, m; std::vector<std::vector<char>> J, dep; std::vector<std::vector<std::vector<char>>> H; bool have_h = false; long nz = 0;
    static bool sure(const Alg& a, int k, int c) { ld v = a.get(k, c); return std::isfinite(double(v)) && std::fabs(v) > 1e-8 && std::fabs(double(v)) > 1e-12 * a.err(k, c); }
    Truth(const Gen& g, Rng& r, bool hes) : n(size_t(g.p.n)), m(g.p.dep.size()), J(m, std::vector<char>(n, 0)), dep(J), have_h(hes)
    {   const Prog& p = g.p; std::vector<Point> pts = g.pts;
        for(auto& q : pts)
        {   auto a = alg_run(p, {q.x}, q.d, true);
            for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( sure(a[i], 0, int(j) + 1) ) J[i][j] = dep[i][j] = 1;
        }
        if( hes ) { H.assign(m, std::vector<std::vector<char>>(n, std::vector<char>(n, 0)));
            for(size_t pt = 0; pt < (n > 10 ? 1 : pts.size()); ++pt) { auto& q = pts[pt]; for(size_t j = 0; j < n; ++j) { VDb e(n, 0.0); e[j] = 1; auto a = alg_run(p, {q.x, e}, q.d, true);
                for(size_t i = 0; i < m; ++i) for(size_t k = 0; k < n; ++k) if( sure(a[i], 1, int(k) + 1) ) H[i][j][k] = H[i][k][j] = 1; } } }
        // value dependence: a change of one argument that keeps every other argument
        Interp<double> it(p); bool vec = ! p.vecs.empty();
        for(auto& q : pts) { VDb y0 = it(q.x, q.d); for(size_t j = 0; j < n; ++j)
            for(int t = 0; t < (n > 10 ? 1 : 3); ++t) { VDb x = q.x; x[j] = t == 0 ? x[j] + 1e-3 : (t == 1 ? r.uni(-2, 2) : pts[r.sbelow(pts.size())].x[j]); if( vec && t > 0 ) continue; // an index may leave its range
                if( vec ) { bool in = true; Interp<double> jt(p); jt.on_instr = [&](size_t k) { auto& s = p.ins[k]; if( s.op == I_LOAD || s.op == I_STORE ) { double z = jt.at(s.a[0]); if( !(z >= 0 && z < double(p.vecs[size_t(s.sub)].size())) ) in = false; if( ! in ) throw 1; } };
                    try { jt(x, q.d); } catch(int) {} if( ! in ) continue; }
                VDb y = it(x, q.d); for(size_t i = 0; i < m; ++i) if( std::isfinite(y[i]) && std::fabs(y[i] - y0[i]) > 1e-9 * (1 + std::fabs(y[i])) ) dep[i][j] = 1; } }
        for(auto& v : J) for(char c : v) nz += c;
    }
};
template <class V> Pat to_pat(const CppAD::sparse_rc<V>& s, bool tr = false)
{   Pat r; for(size_t k = 0; k < s.nnz(); ++k) { size_t i = s.row()[k], j = s.col()[k]; if( i >= s.nr() || j >= s.nc() ) { rep().fail("pattern-range", ""); continue; } if( ! r.insert(tr ? std::make_pair(j, i) : std::make_pair(i, j)).second ) rep().fail("pattern-duplicate", fmt("(%zu,%zu)", i, j)); } return r; }
inline Src from_pat(size_t nr, size_t nc, const Pat& p, Rng* r = nullptr)
{   std::vector<std::pair<size_t, size_t>> e(p.begin(), p.end()); if( r ) r->shuffle(e); Src s(nr, nc, e.size()); for(size_t k = 0; k < e.size(); ++k) s.set(k, e[k].first, e[k].second); return s; }
inline std::vector<bool> pat_bool(const Pat& p, size_t nr, size_t nc) { std::vector<bool> r(nr * nc, false); for(auto& e : p) r[e.first * nc + e.second] = true; return r; }
inline std::vector<std::set<size_t>> pat_sets(const Pat& p, size_t nr) { std::vector<std::set<size_t>> r(nr); for(auto& e : p) r[e.first].insert(e.second); return r; }
inline Pat bool_pat(const std::vector<bool>& v, size_t nr, size_t nc, bool tr) { Pat r; for(size_t i = 0; i < nr; ++i) for(size_t j = 0; j < nc; ++j) if( v[i * nc + j] ) r.insert(tr ? std::make_pair(j, i) : std::make_pair(i, j)); return r; }
inline Pat sets_pat(const std::vector<std::set<size_t>>& v, bool tr) { Pat r; for(size_t i = 0; i < v.size(); ++i) for(size_t j : v[i]) r.insert(tr ? std::make_pair(j, i) : std::make_pair(i, j)); return r; }
inline Pat transp(const Pat& p) { Pat r; for(auto& e : p) r.insert({e.second, e.first}); return r; }
inline Pat pat_mul(const Pat& a, const Pat& b) { Pat r; for(auto& x : a) for(auto& y : b) if( x.second == y.first ) r.insert({x.first, y.second}); return r; }
inline bool contains(const std::string& key, const Pat& got, const Pat& need, const std::function<std::string()>& ctx)
{   Report& R = rep(); R.count("needed_entries", long(need.size())); R.count("pattern_entries", long(got.size())); R.count("patterns");
    for(auto& e : need) if( ! got.count(e) ) { R.fail(key, fmt("missing (%zu,%zu) ", e.first, e.second) + ctx()); return false; } return true; }
inline Pat rand_pat(Rng& r, size_t nr, size_t nc, double p) { Pat s; for(size_t i = 0; i < nr; ++i) for(size_t j = 0; j < nc; ++j) if( r.chance(p) ) s.insert({i, j}); return s; }
inline Pat eye(size_t n) { Pat s; for(size_t i = 0; i < n; ++i) s.insert({i, i}); return s; }
} // namespace vf
#endif
