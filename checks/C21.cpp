// C21: the memory allocator never double-books and its accounts balance
#include <thread>
#include <atomic>
#include "../lib/harness.hpp"
using namespace vf;
typedef CppAD::thread_alloc TA;
static thread_local size_t my_id = 0; static std::atomic<bool> parallel(false);
static size_t thread_num() { return my_id; }
static bool in_parallel() { return parallel.load(std::memory_order_relaxed); }
static const size_t NT = 4;
// elements that record their own life time (per thread counters, merged in sequential mode)
static thread_local long tl_live = 0, tl_bad = 0;
template <int S> struct Elem { uint32_t magic; char pad[S]; Elem() : magic(0x51ab1e5u) { pad[0] = 7; ++tl_live; } ~Elem() { if( magic != 0x51ab1e5u || pad[0] != 7 ) ++tl_bad; magic = 0; --tl_live; } };
struct Block { char* p; size_t cap; size_t owner; unsigned char pat; int kind; size_t n; };   // kind 0: raw, k: array of type k
struct Avail { std::map<size_t, long> n; size_t sum() const { size_t s = 0; for(auto& q : n) s += q.first * size_t(q.second); return s; } };
struct Thr { std::vector<Block> use; Avail av; std::vector<std::string> bad; long ops = 0, reused = 0, misuse = 0, arrays = 0, live = 0; size_t use_sum() const { size_t s = 0; for(auto& b : use) s += b.cap; return s; } };
static bool debug_on() {
#ifdef NDEBUG
    return false;
#else
    return true;
#endif
}
static void fill(Block& b) { size_t s = b.kind ? b.n * b.cap : b.cap; (void) s; if( b.kind == 0 ) memset(b.p, b.pat, b.cap); }
static bool intact(const Block& b)
{   if( b.kind == 0 ) { for(size_t k = 0; k < b.cap; k += (b.cap > 4096 ? 61 : 1)) if( (unsigned char)(b.p[k]) != b.pat ) return false; return (unsigned char)(b.p[b.cap - 1]) == b.pat; }
    return true; }
template <class E> static void make(Thr& t, Block& b, size_t n) { size_t out = 0, in0 = TA::inuse(my_id); long l0 = tl_live; E* a = TA::create_array<E>(n, out); size_t d = TA::inuse(my_id) - in0;
    if( out < n ) t.bad.push_back("create_array-size"); if( d < sizeof(E) * out || d >= sizeof(E) * (out + 1) ) t.bad.push_back("create_array-delta"); if( tl_live - l0 != long(out) ) t.bad.push_back("elements-constructed"); b.p = (char*) a; b.n = out; b.cap = d; t.arrays++; }
template <class E> static void kill(Thr& t, Block& b) { long l0 = tl_live; TA::delete_array((E*) b.p); if( l0 - tl_live != long(b.n) ) t.bad.push_back("elements-destroyed"); }
static void put(Thr& t, Block b) { for(auto& q : t.use) if( b.p < q.p + q.cap && q.p < b.p + b.cap ) t.bad.push_back("overlap"); if( size_t(b.p) % sizeof(size_t) || size_t(b.p) % sizeof(double) ) t.bad.push_back("alignment"); fill(b); t.use.push_back(b); }
// one block leaves use; the owner's accounts change
static void release(Thr& t, Thr& owner, size_t k, bool hold)
{   Block b = owner.use[k]; if( ! intact(b) ) t.bad.push_back("contents-changed"); owner.use.erase(owner.use.begin() + long(k));
    switch(b.kind) { case 0: TA::return_memory(b.p); break; case 1: kill< Elem<1> >(t, b); break; case 2: kill< Elem<13> >(t, b); break; default: kill< Elem<60> >(t, b); }
    if( hold ) owner.av.n[b.cap]++; }
static size_t request(Rng& r) { switch(r.below(6)) { case 0: return r.sbelow(4); case 1: return r.sbelow(200); case 2: return size_t(1) << r.below(14); case 3: { size_t k = 128; int z = r.below(14); while( z-- ) k = 3 * ((k + 1) / 2); return k + size_t(r.below(3)) - 1; } case 4: return r.sbelow(20000); default: return 1 + r.sbelow(600); } }
static void acquire(Thr& t, Rng& r, bool)
{   Block b; b.owner = my_id; b.pat = (unsigned char)(r.below(256)); b.kind = r.chance(.6) ? 0 : r.range(1, 3); b.n = 0; size_t in0 = TA::inuse(my_id), av0 = TA::available(my_id);
    if( b.kind == 0 ) { size_t want = request(r), cap = 0; b.p = (char*) TA::get_memory(want, cap); b.cap = cap; if( cap < want ) t.bad.push_back("capacity"); }
    else { size_t n = request(r) / 16; if( b.kind == 1 ) make< Elem<1> >(t, b, n); else if( b.kind == 2 ) make< Elem<13> >(t, b, n); else make< Elem<60> >(t, b, n); }
    if( TA::inuse(my_id) != in0 + b.cap ) t.bad.push_back("inuse-after-get");
    long& n = t.av.n[b.cap]; if( n > 0 ) { --n; t.reused++; if( TA::available(my_id) != av0 - b.cap ) t.bad.push_back("available-block-not-used"); } else if( TA::available(my_id) != av0 ) t.bad.push_back("available-changed-by-get");
    put(t, b); }
// what one thread does by itself
static void work(Thr& t, Rng r, int steps, bool hold)
{   long l0 = tl_live;
    for(int s = 0; s < steps; ++s)
    {   t.ops++; int k = r.below(20);
        if( k < 9 || (t.use.empty() && k < 17) ) acquire(t, r, hold);
        else if( k < 17 ) release(t, t, r.sbelow(t.use.size()), hold);
        else if( k == 17 ) { TA::free_available(my_id); t.av.n.clear(); }
        else if( k == 18 && debug_on() && hold && ! t.use.empty() )
        {   // returning the same memory twice
            Block b = t.use.back(); if( b.kind ) continue; release(t, t, t.use.size() - 1, hold); bool told = false; try { TA::return_memory(b.p); } catch(const cppad_error& e) { told = e.known; } t.misuse++; if( ! told ) { t.bad.push_back("double-return-not-reported"); return; } }
        if( TA::inuse(my_id) != t.use_sum() ) { t.bad.push_back("inuse"); return; }
        if( TA::available(my_id) != t.av.sum() ) { t.bad.push_back("available"); return; } }
    t.live += tl_live - l0; }
static void body(long, Rng& r)
{   std::vector<Thr> th(NT); bool hold = r.chance(.6); TA::hold_memory(hold); my_id = 0; int phases = r.range(2, 6); std::string hist; size_t nthr = 1; TA::parallel_setup(1, nullptr, nullptr);
    size_t in0 = TA::inuse(0); if( ! TA::free_all() || in0 != 0 ) rep().fail("memory-left-from-previous-case", fmt("%zu", in0));
    auto settle = [&](const char* where)
    {   for(size_t t = 0; t < NT; ++t) { for(auto& s : th[t].bad) rep().fail(s, hist + where); th[t].bad.clear(); if( TA::inuse(t) != th[t].use_sum() ) rep().fail("inuse-sequential", hist + fmt("thread %zu %zu %zu", t, TA::inuse(t), th[t].use_sum())); if( TA::available(t) != th[t].av.sum() ) rep().fail("available-sequential", hist + fmt("thread %zu %zu %zu", t, TA::available(t), th[t].av.sum())); }
        std::vector<Block> all; for(auto& t : th) all.insert(all.end(), t.use.begin(), t.use.end()); std::sort(all.begin(), all.end(), [](const Block& a, const Block& b) { return a.p < b.p; }); for(size_t k = 0; k + 1 < all.size(); ++k) if( all[k].p + all[k].cap > all[k + 1].p ) rep().fail("overlap-between-threads", hist);
        for(auto& b : all) if( ! intact(b) ) rep().fail("contents-changed-by-another", hist); rep().count("blocks_checked", long(all.size())); };
    for(int ph = 0; ph < phases && ! rep().case_failed; ++ph)
    {   int kind = r.below(5);
        if( kind <= 1 )
        {   // parallel
            nthr = size_t(r.range(2, int(NT))); hist += fmt("par%zu ", nthr); TA::parallel_setup(nthr, in_parallel, thread_num); if( TA::available(0) == 0 ) th[0].av.n.clear(); std::vector<std::thread> run; int steps = r.range(5, 60); uint64_t sd = r.next();
            parallel = true;
            for(size_t t = 1; t < nthr; ++t) run.emplace_back([&, t]() { my_id = t; work(th[t], Rng(sd + t), steps, hold); });
            work(th[0], Rng(sd), steps, hold); for(auto& t : run) t.join(); parallel = false; rep().count("parallel_phases"); rep().count("threads", long(nthr)); 
            if( debug_on() && r.chance(.5) )
            {   // parallel mode, but only this thread runs: another thread's memory must not be returned or freed
                size_t q = size_t(r.range(1, int(nthr) - 1)); parallel = true; bool told = false; int what = r.below(2);
                if( what == 0 && ! th[q].use.empty() ) { try { TA::return_memory(th[q].use[0].p); } catch(const cppad_error& e) { told = e.known; } if( ! told ) rep().fail("foreign-return-not-reported", hist); rep().count("foreign"); }
                else { try { TA::free_available(q); } catch(const cppad_error& e) { told = e.known; } if( ! told ) rep().fail("foreign-free-not-reported", hist); rep().count("foreign"); }
                parallel = false; }
            settle("after parallel"); }
        else if( kind == 2 )
        {   // sequential: any thread's memory may be returned and freed
            hist += "seq "; int z = r.range(3, 20);
            for(int s = 0; s < z; ++s) { size_t o = r.sbelow(NT); if( ! th[o].use.empty() && r.chance(.7) ) { release(th[0], th[o], r.sbelow(th[o].use.size()), hold); rep().count("returned_for_owner"); } else if( r.chance(.5) ) { size_t t = r.sbelow(NT); TA::free_available(t); th[t].av.n.clear(); } settle("sequential"); } }
        else if( kind == 3 ) { hist += "work0 "; work(th[0], Rng(r.next()), r.range(5, 40), hold); settle("work0"); }
        else if( r.chance(.5) ) { hold = ! hold; TA::hold_memory(hold); hist += fmt("hold%d ", int(hold)); }
        else { bool none = true; for(auto& t : th) none &= t.use.empty(); hist += "free_all "; bool ok = TA::free_all(); if( ok != none ) rep().fail("free_all-result", hist); for(auto& t : th) t.av.n.clear(); settle("free_all"); rep().count("free_all"); }
        if( debug_on() && r.chance(.1) ) { size_t cap; bool told = false; try { TA::get_memory(std::numeric_limits<size_t>::max() / 2 + r.sbelow(100), cap); } catch(const cppad_error& e) { told = e.known; } if( ! told ) rep().fail("too-large-not-reported", hist); rep().count("misuse"); }
        long h = 0; for(auto& t : th) h = h * 31 + long(t.use.size()) * 7 + long(t.av.n.size()); rep().sig(hstr(hist + fmt("%ld", h))); }
    // account for the elements of arrays that are still alive, then give everything back from thread 0
    if( rep().case_failed ) { _exit(rep().finish()); }
    for(size_t t = 0; t < NT; ++t) while( ! th[t].use.empty() ) release(th[0], th[t], r.sbelow(th[t].use.size()), hold);
    settle("end"); if( ! TA::free_all() ) rep().fail("free_all-at-end", hist); for(auto& t : th) t.av.n.clear(); settle("freed");
    for(auto& t : th) { rep().count("ops", t.ops); rep().count("reused", t.reused); rep().count("misuse", t.misuse); rep().count("arrays", t.arrays); } if( tl_bad ) { rep().fail("element-destroyed-wrongly", hist); tl_bad = 0; }
    TA::parallel_setup(1, nullptr, nullptr); TA::hold_memory(false); rep().sample(hist); }
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
