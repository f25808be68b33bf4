// C23: CppAD's vectors behave like standard vectors
#include "../lib/harness.hpp"
#include <cppad/local/pod_vector.hpp>
#include <algorithm>
#include <numeric>
using namespace vf;
// element that records every construction and destruction and owns memory
struct Tracked {
    static std::set<const void*>& live() { static std::set<const void*> s; return s; }
    static long& bad() { static long b = 0; return b; }
    static long& made() { static long b = 0; return b; }
    int* v;
    void in() { ++made(); if( ! live().insert(this).second ) ++bad(); }
    void use() const { if( ! live().count(this) ) ++bad(); }
    Tracked() : v(new int(0)) { in(); }
    Tracked(int q) : v(new int(q)) { in(); }
    Tracked(const Tracked& o) : v(nullptr) { o.use(); v = new int(*o.v); in(); }
    Tracked& operator=(const Tracked& o) { use(); o.use(); *v = *o.v; return *this; }
    ~Tracked() { if( ! live().erase(this) ) ++bad(); delete v; v = nullptr; }
    int get() const { use(); return *v; }
    bool operator==(const Tracked& o) const { return get() == o.get(); } bool operator!=(const Tracked& o) const { return get() != o.get(); }
    bool operator<(const Tracked& o) const { return get() < o.get(); } bool operator<=(const Tracked& o) const { return get() <= o.get(); }
    bool operator>(const Tracked& o) const { return get() > o.get(); } bool operator>=(const Tracked& o) const { return get() >= o.get(); }
    friend std::ostream& operator<<(std::ostream& s, const Tracked& t) { return s << t.get(); }
};
template <class T> struct El { static T mk(int k) { return T(k); } static int key(const T& t) { return int(t); } };
template <> struct El<Tracked> { static Tracked mk(int k) { return Tracked(k); } static int key(const Tracked& t) { return t.get(); } };
template <> struct El<std::string> { static std::string mk(int k) { return fmt("%d:a string that is longer than the small buffer", k); } static int key(const std::string& s) { return atoi(s.c_str()); } };
template <> struct El<A1> { static A1 mk(int k) { return A1(double(k)); } static int key(const A1& t) { return int(CppAD::Value(t)); } };
template <> struct El<CppAD::vector<double>> { typedef CppAD::vector<double> V; static V mk(int k) { V v(1 + size_t(k) % 4); for(size_t i = 0; i < v.size(); ++i) v[i] = k; return v; } static int key(const V& t) { return t.size() ? int(t[0]) : 0; } };
// value seen in an element that nobody has set
const int unset = -999;
template <class F> bool reports(F f) { try { f(); } catch(const cppad_error& e) { return e.known; } return false; }
typedef std::vector<int> Model;   // unset entries are not compared
static std::string mtext(const std::vector<Model>& m) { std::string s; for(auto& v : m) { s += "["; for(int k : v) s += fmt("%d ", k); s += "]"; } return s; }
#define BAD(key) do { rep().fail(std::string(name) + ":" + key, hist + " model " + mtext(m)); return false; } while(0)
template <class T> bool vector_case(Rng& r, const char* name)
{   typedef CppAD::vector<T> V; typedef El<T> E; std::string hist; int K = r.range(2, 3); std::vector<std::unique_ptr<V>> v; std::vector<Model> m(static_cast<size_t>(K)); for(int k = 0; k < K; ++k) v.emplace_back(new V);
    auto same = [&](const V& a, const Model& b) { if( a.size() != b.size() || a.capacity() < a.size() ) return false; for(size_t i = 0; i < b.size(); ++i) { if( b[i] != unset && E::key(a[i]) != b[i] ) return false; if( &a[i] != a.data() + i ) return false; } return true; };
    constexpr bool simple = ! std::is_same<T, std::string>::value && ! std::is_same<T, CppAD::vector<double>>::value; int steps = r.range(3, 25), big = r.chance(.1) ? 200 : 12;
    for(int s = 0; s < steps; ++s)
    {   size_t a = r.sbelow(size_t(K)), b = r.sbelow(size_t(K)); V& x = *v[a]; V& y = *v[b]; Model& p = m[a]; Model& q = m[b]; int op = r.below(22), val = r.range(-50, 1000); size_t n = r.sbelow(size_t(big)); hist += fmt("%d(%zu,%zu,%zu) ", op, a, b, n);
        const T* d0 = x.data(); size_t c0 = x.capacity(); bool keep = false; // memory and capacity must not change
        switch(op)
        {   case 0: case 1: { keep = p.size() < c0; T t(E::mk(val)); x.push_back(t); p.push_back(val); break; }
            case 2: if( ! p.empty() ) { size_t i = r.sbelow(p.size()); keep = p.size() < c0; x.push_back(x[i]); p.push_back(p[i]); } break;   // element of the vector itself
            case 3: { keep = p.size() + q.size() <= c0; if constexpr ( simple ) x.push_vector(y); else { size_t ny = y.size(); for(size_t i = 0; i < ny; ++i) x.push_back(y[i]); } Model t(q); p.insert(p.end(), t.begin(), t.end()); if( ! simple ) keep = false; break; }            // possibly itself
            case 4: { keep = p.size() + n <= c0; std::vector<T> t; Model w; for(size_t i = 0; i < n; ++i) { t.push_back(E::mk(int(i))); w.push_back(int(i)); } if constexpr ( simple ) x.push_vector(t); else { for(auto& z : t) x.push_back(z); keep = false; } p.insert(p.end(), w.begin(), w.end()); break; }
            case 5: case 6: { size_t n0 = p.size(); keep = n <= c0; if( r.chance(.5) ) x.resize(n); else x.resize(int(n)); p.resize(n, unset); for(size_t i = n0; i < n && n0 < n; ++i) if( r.chance(.9) ) { x[i] = E::mk(int(i) + 7); p[i] = int(i) + 7; } break; }
            case 7: x.clear(); p.clear(); if( x.capacity() != 0 || x.size() != 0 ) BAD("clear"); break;
            case 8: x.swap(y); if( a != b ) p.swap(q); if( a != b && (y.data() != d0 || y.capacity() != c0) ) BAD("swap-moves-memory"); break;
            case 9: { V& z = (x = y); if( &z != &x ) BAD("assign-returns"); p = Model(q); break; }                                               // possibly itself
            case 10: { const T* dy = y.data(); if( a == b ) break; x = std::move(y); p = q; if( x.data() != dy && p.size() ) BAD("move-assign-copies"); y.clear(); q.clear(); break; }
            case 11: { V z(y); v[a].reset(new V(z)); p = Model(q); if( r.chance(.5) && z.size() ) z[0] = E::mk(5); break; }
            case 12: { if( a == b ) break; const T* dy = y.data(); v[a].reset(new V(std::move(y))); p = q; if( p.size() && v[a]->data() != dy ) BAD("move-construct-copies"); y.clear(); q.clear(); break; }
            case 13: { T t(E::mk(val)); v[a].reset(new V(n, t)); p.assign(n, val); break; }
            case 14: { int k = r.below(3); if( k == 0 ) v[a].reset(new V(n)); else if( k == 1 ) v[a].reset(new V(int(n))); else v[a].reset(new V(static_cast<unsigned>(n))); p.assign(n, unset); for(size_t i = 0; i < n; ++i) { (*v[a])[i] = E::mk(val + int(i)); p[i] = val + int(i); } break; }
            case 15: { v[a].reset(new V{E::mk(1), E::mk(val), E::mk(3)}); p = Model{1, val, 3}; break; }
            case 16: if( ! p.empty() ) { size_t i = r.sbelow(p.size()); keep = true; int w = r.below(4); T t(E::mk(val)); if( w == 0 ) x[i] = t; else if( w == 1 ) x[int(i)] = t; else if( w == 2 ) x.data()[i] = t; else *(x.begin() + long(i)) = t; p[i] = val; } break;
            case 17: { // iterators and algorithms
                keep = true; bool ok = true; for(int z : p) if( z == unset ) ok = false; if( ! ok ) break; rep().count("algorithms");
                std::vector<int> w; for(auto& t : x) w.push_back(E::key(t)); if( w != p ) BAD("range-for"); const V& cx = x; w.clear(); for(auto it = cx.begin(); it != cx.end(); ++it) w.push_back(E::key(*it)); if( w != p ) BAD("const-iterator");
                if( size_t(x.end() - x.begin()) != p.size() || size_t(std::distance(cx.begin(), cx.end())) != p.size() ) BAD("distance");
                std::reverse(x.begin(), x.end()); std::reverse(p.begin(), p.end()); if( ! same(x, p) ) BAD("reverse"); if( p.size() > 1 ) { size_t k = 1 + r.sbelow(p.size() - 1); std::rotate(x.begin(), x.begin() + long(k), x.end()); std::rotate(p.begin(), p.begin() + long(k), p.end()); }
                auto less = [](const T& i, const T& j) { return E::key(i) < E::key(j); }; std::stable_sort(x.begin(), x.end(), less); std::stable_sort(p.begin(), p.end()); if( ! same(x, p) ) BAD("sort");
                std::partial_sort(x.begin(), x.begin() + long(p.size() / 2), x.end(), [&](const T& i, const T& j) { return less(j, i); }); std::vector<int> u; for(auto& t : x) u.push_back(E::key(t)); Model p0(p); p = u; std::sort(u.begin(), u.end()); std::sort(p0.begin(), p0.end()); if( u != p0 ) BAD("partial-sort");
                auto it = x.end(); std::vector<int> back; while( it != x.begin() ) { --it; back.push_back(E::key(*it)); } std::reverse(back.begin(), back.end()); if( back != p ) BAD("backward");
                if( p.size() ) { size_t i = r.sbelow(p.size()), j = r.sbelow(p.size()); auto ii = x.begin() + long(i); auto jj = long(j) + x.begin(); typename V::const_iterator ci(ii);
                    if( (ii < jj) != (i < j) || (ii <= jj) != (i <= j) || (ii > jj) != (i > j) || (ii >= jj) != (i >= j) || (ii == jj) != (i == j) || (ii != jj) != (i != j) || jj - ii != long(j) - long(i) ) BAD("iterator-compare");
                    if( E::key(ii[long(j) - long(i)]) != p[j] || E::key(*ci) != p[i] || E::key(*(jj - long(j))) != p[0] ) BAD("iterator-access"); auto kk = ii; if( kk++ != ii || kk - 1 != ii ) BAD("post-increment"); if( E::key(*--kk) != p[i] ) BAD("pre-decrement"); kk += long(j); kk -= long(j); if( kk-- != ii ) BAD("post-decrement"); }
                break; }
            case 18: if constexpr ( std::is_same<T, Tracked>::value || std::is_same<T, double>::value || std::is_same<T, int>::value )
                {   keep = true; bool ok = p.size() == q.size(); for(int z : p) if( z == unset ) ok = false; for(int z : q) if( z == unset ) ok = false; if( ! ok ) break; bool e = 1, ne = 1, l = 1, le = 1, g = 1, ge = 1; for(size_t i = 0; i < p.size(); ++i) { e &= p[i] == q[i]; ne &= p[i] != q[i]; l &= p[i] < q[i]; le &= p[i] <= q[i]; g &= p[i] > q[i]; ge &= p[i] >= q[i]; }
                    if( (x == y) != e || (x != y) != ne || (x < y) != l || (x <= y) != le || (x > y) != g || (x >= y) != ge ) BAD("compare"); rep().count("vector_compare"); std::ostringstream os; os << x; std::string w = "{ "; for(size_t i = 0; i < p.size(); ++i) w += fmt(i + 1 < p.size() ? "%d, " : "%d", p[i]); w += " }"; if( os.str() != w ) BAD("stream"); } break;
            case 19: { auto f = [&]() { V t(y); t.push_back(E::mk(val)); return t; }; v[a].reset(); v[a].reset(new V); Model w(a == b ? Model() : q); if( a == b ) { V t; t.push_back(E::mk(val)); *v[a] = t; p = Model{val}; } else { *v[a] = f(); w.push_back(val); p = w; } break; }
#ifndef NDEBUG
            case 20: { keep = true; rep().count("misuse"); size_t i = p.size() + r.sbelow(3); if( ! reports([&] { (void) E::key(x[i]); }) ) BAD("index-not-reported"); if( ! reports([&] { (void) E::key(*(x.begin() + long(i))); }) ) BAD("iterator-not-reported"); if( ! reports([&] { (void) E::key(*(x.begin() - 1)); }) ) BAD("iterator-before-begin-not-reported");
                if( ! reports([&] { x.resize(-1 - int(n)); }) ) BAD("negative-size-not-reported"); if( a != b && ! reports([&] { (void) (x.begin() == y.begin()); }) ) BAD("iterator-of-other-not-reported"); 
                if constexpr ( std::is_same<T, double>::value || std::is_same<T, int>::value ) if( p.size() != q.size() && ! reports([&] { (void) (x == y); }) ) BAD("compare-size-not-reported"); break; }
#endif
            default: { // an iterator follows its vector when the vector changes
                auto it = x.begin(); x.push_back(E::mk(val)); p.push_back(val); it += long(p.size()) - 1; if( E::key(*it) != val ) BAD("iterator-after-change"); break; }
        }
        if( keep && (v[a]->data() != d0 || v[a]->capacity() != c0) ) BAD(fmt("memory-not-kept-op%d", op));
        for(size_t k = 0; k < size_t(K); ++k) if( ! same(*v[k], m[k]) ) BAD(fmt("contents-op%d", op)); rep().count("ops"); rep().sig(hstr(fmt("%s %d %zu %zu", name, op, p.size(), q.size()))); if( Tracked::bad() ) BAD(fmt("element-lifetime-op%d", op)); }
    v.clear(); if( ! Tracked::live().empty() || Tracked::bad() ) BAD("element-lifetime-end"); rep().count(name); return true; }
static bool bool_case(Rng& r)
{   typedef CppAD::vectorBool V; const char* name = "vectorBool"; std::string hist; int K = r.range(2, 3); std::vector<std::unique_ptr<V>> v; std::vector<Model> m(static_cast<size_t>(K)); for(int k = 0; k < K; ++k) v.emplace_back(new V);
    auto same = [&](const V& a, const Model& b) { if( a.size() != b.size() || a.capacity() < a.size() ) return false; for(size_t i = 0; i < b.size(); ++i) if( b[i] != unset && a[i] != bool(b[i]) ) return false; return true; };
    auto fill = [&](V& x, Model& p, size_t lo) { for(size_t i = lo; i < p.size(); ++i) { int z = r.below(2); x[i] = bool(z); p[i] = z; } };
    int steps = r.range(3, 30);
    for(int s = 0; s < steps; ++s)
    {   size_t a = r.sbelow(size_t(K)), b = r.sbelow(size_t(K)); V& x = *v[a]; V& y = *v[b]; Model& p = m[a]; Model& q = m[b]; int op = r.below(16), val = r.below(2); size_t n = r.chance(.4) ? 64 * r.sbelow(4) + r.sbelow(3) : r.sbelow(200); size_t c0 = x.capacity(); bool keep = false; hist += fmt("%d(%zu,%zu,%zu) ", op, a, b, n);
        switch(op)
        {   case 0: case 1: { int t = r.range(1, 70); for(int k = 0; k < t; ++k) { int z = r.below(2); x.push_back(bool(z)); p.push_back(z); } break; }
            case 2: { keep = p.size() + q.size() <= c0; x.push_vector(y); Model t(q); p.insert(p.end(), t.begin(), t.end()); break; }
            case 3: { std::vector<bool> t(n); Model w(n); for(size_t i = 0; i < n; ++i) t[i] = bool(w[i] = r.below(2)); x.push_vector(t); p.insert(p.end(), w.begin(), w.end()); break; }
            case 4: case 5: { keep = n <= c0; size_t n0 = p.size(); if( r.chance(.5) ) x.resize(n); else x.resize(int(n)); if( n > c0 ) { p.assign(n, unset); n0 = 0; } else p.resize(n, unset); if( r.chance(.9) ) fill(x, p, std::min(n0, n)); break; }
            case 6: x.clear(); p.clear(); if( x.capacity() || x.size() ) BAD("clear"); break;
            case 7: x.swap(y); if( a != b ) p.swap(q); break;
            case 8: if( p.size() == q.size() || p.empty() ) { x = y; p = Model(q); } break;
            case 9: if( (p.size() == q.size() || p.empty()) && a != b ) { x = std::move(y); p = q; y.clear(); q.clear(); } break;
            case 10: { V z(y); v[a].reset(new V(z)); p = Model(q); if( z.size() ) z[0] = ! z[0]; break; }
            case 11: if( a != b ) { v[a].reset(new V(std::move(y))); p = q; y.clear(); q.clear(); } break;
            case 12: { v[a].reset(r.chance(.5) ? new V(n) : new V(int(n))); p.assign(n, unset); fill(*v[a], p, 0); break; }
            case 13: v[a].reset(new V{true, false, bool(val)}); p = Model{1, 0, val}; break;
            case 14: if( ! p.empty() && ! q.empty() ) { size_t i = r.sbelow(p.size()), j = r.sbelow(q.size()); if( q[j] == unset ) break; keep = true; x[i] = y[j]; p[i] = q[j]; size_t k = r.sbelow(p.size()); x[k] = x[i] = bool(val); p[i] = val; p[k] = val;
                std::ostringstream os; bool ok = true; for(int z : p) if( z == unset ) ok = false; if( ! ok ) break; os << x; std::string w; for(int z : p) w += z ? '1' : '0'; if( os.str() != w ) BAD("stream"); } break;
            default:
#ifndef NDEBUG
                rep().count("misuse"); keep = true; if( ! reports([&] { (void) bool(x[p.size() + r.sbelow(3)]); }) ) BAD("index-not-reported"); { const V& cx = x; if( ! reports([&] { (void) cx[p.size()]; }) ) BAD("const-index-not-reported"); } if( ! p.empty() && p.size() != q.size() && ! reports([&] { x = y; }) ) BAD("assign-size-not-reported"); if( ! reports([&] { x.resize(-1); }) ) BAD("negative-size-not-reported");
#endif
                break; }
        if( keep && v[a]->capacity() != c0 ) BAD(fmt("capacity-op%d", op));
        for(size_t k = 0; k < size_t(K); ++k) if( ! same(*v[k], m[k]) ) BAD(fmt("contents-op%d", op)); rep().count("ops"); rep().sig(hstr(fmt("%s %d %zu %zu", name, op, p.size(), q.size()))); }
    rep().count(name); return true; }
// vectors used internally: P is pod_vector<T> or pod_vector_maybe<T>
template <class P, class T> bool pod_case(Rng& r, const char* name)
{   typedef El<T> E; std::string hist; int K = 2; std::vector<std::unique_ptr<P>> v; std::vector<Model> m(static_cast<size_t>(K)); for(int k = 0; k < K; ++k) v.emplace_back(new P);
    int steps = r.range(3, 25);
    for(int s = 0; s < steps; ++s)
    {   size_t a = r.sbelow(2), b = 1 - a; P& x = *v[a]; P& y = *v[b]; Model& p = m[a]; Model& q = m[b]; int op = r.below(9), val = r.below(100); size_t n = r.sbelow(30), c0 = x.capacity(); bool keep = false; hist += fmt("%d(%zu,%zu) ", op, a, n); const T* d0 = x.data();
        switch(op)
        {   case 0: case 1: keep = p.size() < c0; { T t(E::mk(val)); x.push_back(t); } p.push_back(val); break;
            case 2: { keep = p.size() + n <= c0; size_t o = x.extend(n); if( o != p.size() ) BAD("extend-result"); p.resize(o + n, unset); for(size_t i = o; i < o + n; ++i) if( r.chance(.9) ) { x[i] = E::mk(val); p[i] = val; } break; }
            case 3: { keep = n <= c0; x.resize(n); if( n > c0 ) p.assign(n, unset); else p.resize(n, unset); for(size_t i = 0; i < n; ++i) if( p[i] == unset || r.chance(.5) ) { x[i] = E::mk(int(i)); p[i] = int(i); } break; }
            case 4: x.clear(); p.clear(); if( x.capacity() || x.size() ) BAD("clear"); break;
            case 5: x.swap(y); p.swap(q); break;
            case 6: x = y; p = q; break;
            case 7: if( ! p.empty() ) { keep = true; size_t i = r.sbelow(p.size()); x[i] = E::mk(val); p[i] = val; } break;
            default: v[a].reset(new P(n)); p.assign(n, unset); for(size_t i = 0; i < n; ++i) { (*v[a])[i] = E::mk(int(i)); p[i] = int(i); } }
        if( keep && (v[a]->data() != d0 || v[a]->capacity() != c0) ) BAD(fmt("memory-not-kept-op%d", op));
        for(size_t k = 0; k < 2; ++k) { const P& z = *v[k]; bool ok = z.size() == m[k].size() && z.capacity() >= z.size(); for(size_t i = 0; ok && i < z.size(); ++i) if( (m[k][i] != unset && E::key(z[i]) != m[k][i]) || &z[i] != z.data() + i ) ok = false; if( ! ok ) BAD(fmt("contents-op%d", op)); } rep().count("ops"); rep().sig(hstr(fmt("%s %d %zu %zu", name, op, p.size(), q.size()))); if( Tracked::bad() ) BAD(fmt("element-lifetime-op%d", op)); }
    v.clear(); if( ! Tracked::live().empty() || Tracked::bad() ) BAD("element-lifetime-end"); rep().count(name); return true; }
static void body(long, Rng& r)
{   Tracked::bad() = 0; size_t t = CppAD::thread_alloc::thread_num(), in0 = CppAD::thread_alloc::inuse(t); int k = r.below(10);
    switch(k)
    {   case 0: case 1: vector_case<Tracked>(r, "vector<tracked>"); break; case 2: vector_case<double>(r, "vector<double>"); break; case 3: vector_case<std::string>(r, "vector<string>"); break; case 4: vector_case<A1>(r, "vector<AD>"); break;
        case 5: vector_case<CppAD::vector<double>>(r, "vector<vector>"); break; case 6: case 7: bool_case(r); break; case 8: pod_case<CppAD::local::pod_vector<int>, int>(r, "pod_vector<int>"); break;
        default: pod_case<CppAD::local::pod_vector_maybe<Tracked>, Tracked>(r, "pod_vector_maybe<tracked>"); }
    if( CppAD::thread_alloc::inuse(t) != in0 ) rep().fail("memory-in-use-after", fmt("kind %d bytes %zu before %zu", k, CppAD::thread_alloc::inuse(t), in0));
    rep().sample(fmt("kind %d", k)); Tracked::live().clear(); rep().counters["elements_tracked"] = Tracked::made(); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
