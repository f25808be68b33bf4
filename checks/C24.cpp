// C24: sparsity containers behave as the mathematical objects they represent
#include "../lib/harness.hpp"
#include <cppad/local/sparse/internal.hpp>
#include <cppad/local/sparse/svec_setvec.hpp>
#include <cppad/utility/sparse2eigen.hpp>
using namespace vf;
template <class F> bool reports(F f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
// ---- sparse_rc, sparse_rcv ------------------------------------------------
typedef std::pair<size_t, size_t> PR;
struct RcM { size_t nr = 0, nc = 0; std::vector<PR> e; std::vector<double> v; bool full = true; };
static std::string text(const RcM& m) { std::string s = fmt("%zux%zu{", m.nr, m.nc); for(auto& p : m.e) s += fmt("(%zu,%zu)", p.first, p.second); return s + "}"; }
#define BAD(key) do { rep().fail(std::string(name) + ":" + key, hist); return; } while(0)
template <class SV, class VV> void rc_case(Rng& r, const char* name)
{   typedef CppAD::sparse_rc<SV> RC; typedef CppAD::sparse_rcv<SV, VV> RCV; std::string hist; const size_t K = 3; std::vector<RC> a(K); std::vector<RcM> m(K); std::vector<RCV> b(2); std::vector<RcM> w(2);
    auto unique = [](const RcM& q) { std::set<PR> s(q.e.begin(), q.e.end()); return q.full && s.size() == q.e.size(); };
    auto same = [&](const RC& x, const RcM& q) { if( x.nr() != q.nr || x.nc() != q.nc || x.nnz() != q.e.size() || size_t(x.row().size()) != q.e.size() || size_t(x.col().size()) != q.e.size() ) return false; if( q.full ) for(size_t k = 0; k < q.e.size(); ++k) if( x.row()[k] != q.e[k].first || x.col()[k] != q.e[k].second ) return false; return true; };
    auto order_ok = [&](const SV& o, const RcM& q, bool rowm) { if( size_t(o.size()) != q.e.size() ) return false; std::set<size_t> s; for(size_t k = 0; k < q.e.size(); ++k) { if( o[k] >= q.e.size() || ! s.insert(o[k]).second ) return false; if( k > 0 ) { PR p0 = q.e[o[k-1]], p1 = q.e[o[k]]; if( ! rowm ) { std::swap(p0.first, p0.second); std::swap(p1.first, p1.second); } if( ! (p0 < p1) ) return false; } } return true; };
    auto vsame = [&](const RCV& x, const RcM& q) { if( ! same(x.pat(), q) || x.nr() != q.nr || x.nc() != q.nc || x.nnz() != q.e.size() || size_t(x.val().size()) != q.e.size() ) return false; for(size_t k = 0; k < q.e.size(); ++k) if( q.v[k] == q.v[k] && x.val()[k] != q.v[k] ) return false; return true; };
    auto refill = [&](RC& x, RcM& q) { size_t nr = 1 + r.sbelow(6), nc = 1 + r.sbelow(6), mx = nr * nc; std::vector<PR> all; for(size_t i = 0; i < nr; ++i) for(size_t j = 0; j < nc; ++j) all.push_back({i, j}); r.shuffle(all); all.resize(r.sbelow(mx + 1)); q.nr = nr; q.nc = nc; q.e = all; q.full = true;
        if( r.chance(.5) ) x.resize(nr, nc, all.size()); else { RC t(nr, nc, all.size()); if( r.chance(.5) ) x = t; else x = std::move(t); } std::vector<size_t> o; for(size_t k = 0; k < all.size(); ++k) o.push_back(k); r.shuffle(o); for(size_t k : o) x.set(k, all[k].first, all[k].second); };
    int steps = r.range(4, 25);
    for(int s = 0; s < steps; ++s)
    {   size_t i = r.sbelow(K), j = r.sbelow(K), g = r.sbelow(2), h = r.sbelow(2); RC& x = a[i]; RcM& p = m[i]; RC& y = a[j]; RcM& q = m[j]; int op = r.below(18); hist += fmt("%d(%zu,%zu,%zu) ", op, i, j, g);
        switch(op)
        {   case 0: case 1: refill(x, p); hist += text(p); break;
            case 2: if( p.nr && p.nc ) { PR e(r.sbelow(p.nr), r.sbelow(p.nc)); x.push_back(e.first, e.second); p.e.push_back(e); } break;
            case 3: if( p.e.size() ) { size_t k = r.sbelow(p.e.size()); PR e(r.sbelow(p.nr), r.sbelow(p.nc)); x.set(k, e.first, e.second); p.e[k] = e; } break;
            case 4: x = y; p = RcM(q); break;                       // possibly itself
            case 5: if( i != j ) { x.swap(y); std::swap(p, q); } else x.swap(x); break;
            case 6: if( i != j ) { x = std::move(y); p = q; y.resize(0, 0, 0); q = RcM(); } break;
            case 7: { RC z(y); a[i] = RC(std::move(z)); p = RcM(q); break; }
            case 8: if( unique(p) ) { if( ! order_ok(x.row_major(), p, true) ) BAD("row_major"); if( ! order_ok(x.col_major(), p, false) ) BAD("col_major"); rep().count("orders"); } break;
            case 9: if( unique(p) ) { x.set_row_major(); if( ! order_ok(x.get_row_major(), p, true) ) BAD("set_row_major"); } break;
            case 10: if( unique(p) ) { x.set_col_major(); if( ! order_ok(x.get_col_major(), p, false) ) BAD("set_col_major"); } break;
            case 11: case 12: if( unique(p) && unique(q) )
                { if( r.chance(.6) && i != j ) { y.resize(p.nr, p.nc, p.e.size()); q = p; r.shuffle(q.e); if( q.e.size() && r.chance(.4) ) { PR e(r.sbelow(p.nr), r.sbelow(p.nc)); bool in = false; for(auto& z : q.e) if( z == e ) in = true; if( ! in ) q.e[r.sbelow(q.e.size())] = e; } for(size_t k = 0; k < q.e.size(); ++k) y.set(k, q.e[k].first, q.e[k].second); int c = r.below(3); if( c == 1 ) y.set_row_major(); if( c == 2 ) y.set_col_major(); c = r.below(3); if( c == 1 ) x.set_row_major(); if( c == 2 ) x.set_col_major(); }
                  std::set<PR> s0(p.e.begin(), p.e.end()), s1(q.e.begin(), q.e.end()); bool eq = p.nr == q.nr && p.nc == q.nc && s0 == s1; rep().count(eq ? "equal" : "not_equal"); if( (x == y) != eq || (y == x) != eq ) BAD("equality"); } break;
            case 13: { b[g] = RCV(x); w[g] = p; w[g].v.assign(p.e.size(), NAN); for(size_t k = 0; k < p.e.size(); ++k) if( r.chance(.9) ) { double z = r.uni(); b[g].set(k, z); w[g].v[k] = z; } break; }
            case 14: if( w[g].e.size() ) { size_t k = r.sbelow(w[g].e.size()); b[g].set(k, 7.5); w[g].v[k] = 7.5; } break;
            case 15: { int t = r.below(4); if( t == 0 ) { b[g] = b[h]; w[g] = RcM(w[h]); } else if( t == 1 && g != h ) { b[g].swap(b[h]); std::swap(w[g], w[h]); } else if( t == 2 && g != h ) { b[g] = std::move(b[h]); w[g] = w[h]; RCV z; b[h] = z; w[h] = RcM(); } else { RCV z(b[h]); RCV u(std::move(z)); b[g] = u; w[g] = RcM(w[h]); } break; }
            case 16: { const RcM& c = w[g]; if( ! unique(c) || c.nr == 0 ) break; bool ok = true; for(double z : c.v) if( z != z ) ok = false; if( ! ok ) break; rep().count("eigen"); std::map<PR, double> d; for(size_t k = 0; k < c.e.size(); ++k) d[c.e[k]] = c.v[k];
                auto chk = [&](auto& mat, bool rowm) { CppAD::sparse2eigen(b[g], mat); if( size_t(mat.rows()) != c.nr || size_t(mat.cols()) != c.nc || size_t(mat.nonZeros()) != c.e.size() ) return false; SV o = rowm ? b[g].row_major() : b[g].col_major(); size_t k = 0; for(int q2 = 0; q2 < mat.outerSize(); ++q2) for(typename std::remove_reference<decltype(mat)>::type::InnerIterator it(mat, q2); it; ++it, ++k) { PR e(size_t(it.row()), size_t(it.col())); if( ! d.count(e) || d[e] != it.value() || b[g].val()[o[k]] != it.value() ) return false; } return true; };
                Eigen::SparseMatrix<double, Eigen::RowMajor> er; Eigen::SparseMatrix<double, Eigen::ColMajor> ec; if( ! chk(er, true) ) BAD("sparse2eigen-row-major"); if( ! chk(ec, false) ) BAD("sparse2eigen-col-major"); break; }
            default:
#ifndef NDEBUG
                if( p.nr == 0 ) break; rep().count("misuse"); if( ! reports([&] { x.set(p.e.size() + r.sbelow(2), 0, 0); }) ) BAD("set-index-not-reported"); if( p.e.size() && ! reports([&] { x.set(0, p.nr, 0); }) ) BAD("set-row-not-reported"); if( p.e.size() && ! reports([&] { x.set(0, 0, p.nc); }) ) BAD("set-col-not-reported"); if( ! reports([&] { x.push_back(p.nr, 0); }) ) BAD("push-row-not-reported"); if( ! reports([&] { x.push_back(0, p.nc); }) ) BAD("push-col-not-reported");
                if( ! reports([&] { b[g].set(w[g].e.size() + r.sbelow(2), 1.0); }) ) BAD("value-index-not-reported"); { std::set<PR> s0(p.e.begin(), p.e.end()); if( s0.size() != p.e.size() ) { if( ! reports([&] { (void) x.row_major(); }) ) BAD("duplicate-not-reported"); rep().count("duplicates"); } }
#endif
                break; }
        for(size_t k = 0; k < K; ++k) if( ! same(a[k], m[k]) ) BAD(fmt("contents-op%d", op)); for(size_t k = 0; k < 2; ++k) if( ! vsame(b[k], w[k]) ) BAD(fmt("values-op%d", op)); rep().count("ops"); rep().sig(hstr(fmt("%s %d ", name, op) + text(p))); }
    { for(size_t k = 0; k < K; ++k) if( unique(m[k]) ) { std::ostringstream os; os << a[k]; std::set<PR> s0(m[k].e.begin(), m[k].e.end()); std::string t; size_t last = size_t(-1); for(auto& e : s0) { if( e.first != last ) t += fmt("\nrow = %zu, col = %zu", e.first, e.second); else t += fmt(", %zu", e.second); last = e.first; } t = s0.empty() ? "{ }" : "{" + t + "\n}"; if( os.str() != t ) BAD("stream"); } }
    rep().count(name); }
// ---- vectors of sets --------------------------------------------------------
typedef std::vector< std::set<size_t> > SM;
template <class V> void set_case(Rng& r, const char* name)
{   std::string hist; size_t end = r.chance(.3) ? size_t(64 * r.range(1, 3) + r.range(-1, 1)) : (r.chance(.2) ? 200 + r.sbelow(100) : 1 + r.sbelow(20)); const size_t K = 2; std::vector<V> v(K); std::vector<SM> m(K); std::vector< std::vector<char> > posted(K); std::vector<SM> post(K);
    auto init = [&](size_t k) { size_t n = 1 + r.sbelow(8); v[k].resize(n, end); m[k].assign(n, {}); post[k].assign(n, {}); posted[k].assign(n, 0); hist += fmt("r(%zu,%zu,%zu) ", k, n, end); };
    for(size_t k = 0; k < K; ++k) init(k);
    auto list = [&](const V& x, size_t i) { std::vector<size_t> l; typename V::const_iterator it(x, i); while( *it != x.end() && l.size() <= end ) { l.push_back(*it); ++it; } return l; };
    int steps = r.range(5, 60); double same_vec = r.uni();
    for(int s = 0; s < steps; ++s)
    {   size_t a = r.sbelow(K), b = r.chance(same_vec) ? a : 1 - a; V& x = v[a]; V& y = v[b]; SM& p = m[a]; SM& q = m[b]; size_t i = r.sbelow(p.size()), j = r.sbelow(p.size()), k = r.sbelow(q.size()), e = r.sbelow(end); if( r.chance(.2) ) e = end - 1; int op = r.below(16);
        auto flush = [&](size_t c, size_t t) { if( posted[c][t] ) { v[c].process_post(t); m[c][t].insert(post[c][t].begin(), post[c][t].end()); post[c][t].clear(); posted[c][t] = 0; hist += fmt("pp(%zu,%zu) ", c, t); } };
        auto drop = [&](size_t c, size_t t) { post[c][t].clear(); posted[c][t] = 0; };
        hist += fmt("%d(%zu.%zu,%zu,%zu.%zu,%zu) ", op, a, i, j, b, k, e);
        switch(op)
        {   case 0: case 1: flush(a, i); x.add_element(i, e); p[i].insert(e); break;
            case 2: case 3: { int t = r.range(1, 6); for(int c = 0; c < t; ++c) { x.post_element(i, e); post[a][i].insert(e); posted[a][i] = 1; if( r.chance(.7) ) e = r.sbelow(end); else if( e + 1 < end ) ++e; } break; }
            case 4: flush(a, i); break;
            case 5: drop(a, i); x.clear(i); p[i].clear(); break;
            case 6: case 7: flush(b, k); drop(a, i); x.assignment(i, k, y); p[i] = std::set<size_t>(q[k]); break;
            case 8: case 9: case 10: { flush(a, j); flush(b, k); drop(a, i); std::set<size_t> t(p[j]); t.insert(q[k].begin(), q[k].end()); x.binary_union(i, j, k, y); p[i] = t; rep().count("unions"); break; }
            case 11: case 12: { flush(a, j); flush(b, k); drop(a, i); std::set<size_t> t; for(size_t z : p[j]) if( q[k].count(z) ) t.insert(z); x.binary_intersection(i, j, k, y); p[i] = t; rep().count("intersections"); break; }
            case 13: { for(size_t t = 0; t < q.size(); ++t) flush(b, t); for(size_t t = 0; t < p.size(); ++t) flush(a, t); if( a != b ) { x = y; p = q; post[a].assign(p.size(), {}); posted[a].assign(p.size(), 0); } break; }
            case 14: if( a != b ) { x.swap(y); p.swap(q); post[a].swap(post[b]); posted[a].swap(posted[b]); } break;
            default: if( r.chance(.2) ) { for(size_t t = 0; t < p.size(); ++t) flush(a, t); init(a); } else { flush(a, i); if( x.is_element(i, e) != bool(p[i].count(e)) ) BAD("is_element"); } break; }
        for(size_t c = 0; c < K; ++c)
        {   const V& z = v[c]; if( z.n_set() != m[c].size() || z.end() != end ) BAD("dimensions");
            for(size_t t = 0; t < m[c].size(); ++t) if( ! posted[c][t] ) { if( z.number_elements(t) != m[c][t].size() ) BAD(fmt("number_elements-op%d", op)); std::vector<size_t> l = list(z, t), w(m[c][t].begin(), m[c][t].end()); if( l != w ) BAD(fmt("elements-op%d", op)); } }
        rep().count("set_ops"); rep().sig(hstr(fmt("%s %d %zu %zu %zu %d %d", name, op, end, p[i < p.size() ? i : 0].size(), q[k < q.size() ? k : 0].size(), int(a == b), int(i == j) + 2 * int(j == k)))); }
    // conversions between user and internal patterns
    for(size_t c = 0; c < K; ++c) for(size_t t = 0; t < m[c].size(); ++t) if( posted[c][t] ) { v[c].process_post(t); m[c][t].insert(post[c][t].begin(), post[c][t].end()); }
    if constexpr ( ! std::is_same<V, CppAD::local::sparse::svec_setvec>::value )
    {   using namespace CppAD::local; size_t n = 1 + r.sbelow(m[0].size()); std::vector<size_t> ids; for(size_t t = 0; t < m[0].size(); ++t) ids.push_back(t); r.shuffle(ids); pod_vector<size_t> idx(n); for(size_t t = 0; t < n; ++t) idx[t] = ids[t];
        for(int tr = 0; tr < 2; ++tr)
        {   CppAD::sparse_rc< std::vector<size_t> > rc; sparse::get_internal_pattern(bool(tr), idx, v[0], rc); std::set<PR> got, want; for(size_t k = 0; k < rc.nnz(); ++k) got.insert({rc.row()[k], rc.col()[k]}); for(size_t t = 0; t < n; ++t) for(size_t e : m[0][idx[t]]) want.insert(tr ? PR(e, t) : PR(t, e)); if( got != want || rc.nnz() != want.size() || rc.nr() != (tr ? end : n) || rc.nc() != (tr ? n : end) ) BAD("get_internal_pattern");
            CppAD::vectorBool vb; CppAD::vector<bool> vo; CppAD::vector< std::set<size_t> > vs; sparse::get_internal_pattern(bool(tr), idx, v[0], vb); sparse::get_internal_pattern(bool(tr), idx, v[0], vo); sparse::get_internal_pattern(bool(tr), idx, v[0], vs); size_t nr = tr ? end : n, nc = tr ? n : end; bool ok = vb.size() == nr * nc && vo.size() == nr * nc && vs.size() == nr; for(size_t i = 0; ok && i < nr; ++i) for(size_t j = 0; j < nc; ++j) { bool w = want.count({i, j}); if( vb[i * nc + j] != w || vo[i * nc + j] != w || bool(vs[i].count(j)) != w ) ok = false; } if( ! ok ) BAD("get_internal_pattern-old");
            bool empty = r.chance(.5), zero = r.chance(.3); V u; u.resize(m[0].size(), end); SM um(m[0].size()); if( ! empty ) for(size_t t = 0; t < um.size(); ++t) if( ! (zero && t == 0) && r.chance(.5) ) { size_t e = r.sbelow(end); u.add_element(t, e); um[t].insert(e); } int kind = r.below(4);
            if( kind == 0 ) sparse::set_internal_pattern(zero, empty, bool(tr), idx, u, rc); else if( kind == 1 ) sparse::set_internal_pattern(zero, empty, bool(tr), idx, u, vb); else if( kind == 2 ) sparse::set_internal_pattern(zero, empty, bool(tr), idx, u, vo); else sparse::set_internal_pattern(zero, empty, bool(tr), idx, u, vs);
            for(size_t t = 0; t < n; ++t) if( ! (zero && idx[t] == 0) ) um[idx[t]].insert(m[0][idx[t]].begin(), m[0][idx[t]].end()); for(size_t t = 0; t < um.size(); ++t) if( list(u, t) != std::vector<size_t>(um[t].begin(), um[t].end()) ) BAD(fmt("set_internal_pattern%d", kind)); rep().count("conversions"); } }
    v.clear(); rep().count(name); }
static void body(long, Rng& r)
{   size_t t = CppAD::thread_alloc::thread_num(), in0 = CppAD::thread_alloc::inuse(t); int k = r.below(10);
    switch(k)
    {   case 0: rc_case< std::vector<size_t>, std::vector<double> >(r, "sparse_rc<std>"); break; case 1: case 2: rc_case< CppAD::vector<size_t>, CppAD::vector<double> >(r, "sparse_rc<cppad>"); break; case 3: rc_case< CppAD::vector<size_t>, std::vector<double> >(r, "sparse_rc<mixed>"); break;
        case 4: case 5: set_case<CppAD::local::sparse::pack_setvec>(r, "pack_setvec"); break; default: set_case<CppAD::local::sparse::list_setvec>(r, "list_setvec"); break; } // svec_setvec is not used by any part of CppAD
    if( CppAD::thread_alloc::inuse(t) != in0 ) rep().fail("memory-in-use-after", fmt("kind %d", k)); rep().sample(fmt("kind %d", k)); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
