// C03: multiple direction forward mode agrees with single directions
#include "../lib/work.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; return m; }
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; bool sys = make_case(i, r, m, gp); Gen& gen = *gp; const Prog& p = gen.p; note_prog(gen);
    if( rep().verbose ) fprintf(stderr, "%s\n", p.text().c_str());
    CppAD::ADFun<double> f; Recorder<> rec; rec(p, gen.pts[0], f);
    if( r.chance(.2) ) f.optimize();
    size_t n = size_t(p.n), mm = p.dep.size();
    for(int pt = 0; pt < 2; ++pt)
    {   const Point& q = gen.pts[size_t(r.below(3))]; if( p.nd ) f.new_dynamic(q.d);
        int Q = sys ? 4 : r.range(1, 5); size_t R = size_t(r.chance(.1) ? r.range(6, 12) : r.range(1, 5));
        std::vector<std::vector<VDb>> xc; for(size_t l = 0; l < R; ++l) xc.push_back(taylor_in(r, q.x, Q));
        if( R > 1 && r.chance(.3) ) xc[1] = xc[0]; // equal directions
        auto ctx = [&]() { return fmt("r=%zu ", R) + p.text() + " " + point_text(q); };
        if( r.chance(.3) ) f.capacity_order(r.sbelow(size_t(Q) + 2));
        if( r.chance(.2) ) { VDb X(n * 2); for(size_t j = 0; j < n; ++j) { X[2 * j] = q.x[j]; X[2 * j + 1] = 1; } f.Forward(1, X); } // stale orders
        f.Forward(0, q.x);
        std::vector<std::vector<Alg>> want; for(size_t l = 0; l < R; ++l) want.push_back(alg_run(p, xc[l], q.d, false));
        for(int pass = 0; pass < 2; ++pass)
        for(int k = 1; k <= Q; ++k)
        {   VDb X(n * R); for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < R; ++l) X[j * R + l] = xc[l][size_t(k)][j];
            VDb Y = f.Forward(size_t(k), R, X); rep().count("forward_dir");
            if( Y.size() != mm * R ) { rep().fail("result-size", ctx()); return; }
            if( f.size_order() != size_t(k) + 1 || f.size_direction() != R ) rep().fail("size_order-or-direction", ctx());
            for(size_t a = 0; a < mm; ++a) for(size_t l = 0; l < R; ++l)
                if( ! check(fmt("order%d", k), Y[a * R + l], want[l][a], k, 0, [&]() { return fmt("dir %zu component %zu ", l, a) + ctx(); }) ) return;
            if( r.chance(.1) ) f.capacity_order(size_t(k) + 1 + r.sbelow(3));
        }
        // and single direction mode of the same function afterwards
        size_t l = r.sbelow(R); f.Forward(0, q.x);
        for(int k = 1; k <= Q; ++k) { VDb y = f.Forward(size_t(k), xc[l][size_t(k)]); for(size_t a = 0; a < mm; ++a) check(fmt("single-order%d", k), y[a], want[l][a], k, 0, ctx); }
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
