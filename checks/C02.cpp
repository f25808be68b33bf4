// C02: forward mode Taylor coefficients of every order, in any grouping and capacity
#include "../lib/work.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; return m; }
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; bool sys = make_case(i, r, m, gp); Gen& gen = *gp; const Prog& p = gen.p; note_prog(gen);
    CppAD::ADFun<double> f; Recorder<> rec; rec(p, gen.pts[0], f, 0, r.chance(.8), r.chance(.3));
    f.check_for_nan(true);
    int Q = sys ? 6 : (r.chance(.1) ? r.range(6, 12) : r.range(0, 5)); size_t n = size_t(p.n), mm = p.dep.size();
    for(int pt = 0; pt < 3; ++pt)
    {   const Point& q = gen.pts[size_t(pt)];
        if( p.nd ) f.new_dynamic(q.d);
        std::vector<VDb> xc = taylor_in(r, q.x, Q);
        setcfg(Q, 0);
        Interp<Alg> ia(p); auto y = ia(alg_args(xc, p.n), alg_const(q.d));
        auto ctx = [&]() { std::string s = p.text() + " " + point_text(q); for(auto& z : xc) s += vec_text(z); return s; };
        std::vector<VDb> first;
        for(int pass = 0; pass < 2; ++pass)
        {   std::vector<VDb> got(size_t(Q + 1));
            if( r.chance(.3) ) { size_t c = r.sbelow(size_t(Q) + 3); f.capacity_order(c); rep().count("capacity_order"); if( f.size_order() > c ) rep().fail("size_order-after-capacity", ctx()); }
            int k = 0; int mode = r.below(3); // 0 one at a time, 1 all at once, 2 random groups
            if( mode == 2 && pass == 1 && r.chance(.5) ) k = r.below(Q + 1); // continue from stored orders
            if( size_t(k) > f.size_order() ) k = 0;
            if( k > 0 ) // orders below k must still be those stored by the first pass
                for(int l = 0; l < k; ++l) got[size_t(l)] = first[size_t(l)];
            while( k <= Q )
            {   int last = mode == 0 ? k : (mode == 1 ? Q : r.range(k, Q));
                if( last == k && (k > 0 || r.chance(.7)) )
                {   got[size_t(k)] = f.Forward(size_t(k), xc[size_t(k)]); rep().count("forward_one"); }
                else
                {   // orders 0 .. last; lower ones are recomputed when k > 0 is not supported by size
                    VDb X(n * size_t(last + 1)); for(size_t j = 0; j < n; ++j) for(int l = 0; l <= last; ++l) X[j * size_t(last + 1) + size_t(l)] = xc[size_t(l)][j];
                    VDb Y = f.Forward(size_t(last), X); rep().count("forward_multi");
                    if( Y.size() != mm * size_t(last + 1) ) rep().fail("result-size", ctx());
                    else for(int l = 0; l <= last; ++l) { got[size_t(l)].resize(mm); for(size_t a = 0; a < mm; ++a) got[size_t(l)][a] = Y[a * size_t(last + 1) + size_t(l)]; }
                }
                k = last + 1;
                if( f.size_order() != size_t(k) ) { rep().fail("size_order", fmt("is %zu after order %d ", f.size_order(), last) + ctx()); }
                if( r.chance(.2) && k <= Q ) { f.capacity_order(size_t(k) + r.sbelow(4)); rep().count("capacity_order"); }
            }
            for(int l = 0; l <= Q; ++l) for(size_t a = 0; a < mm; ++a)
                if( ! check(fmt("order%d", l), got[size_t(l)][a], y[a], l, 0, ctx) ) return;
            if( pass == 1 ) for(int l = 0; l <= Q; ++l) for(size_t a = 0; a < mm; ++a)
            {   double u = first[size_t(l)][a], v = got[size_t(l)][a]; double t = 1e-9 * (1 + std::fabs(u)) + 1e-12 * y[a].err(l);
                if( !(std::fabs(u - v) <= t) ) rep().fail("grouping", fmt("order %d: %.17g %.17g ", l, u, v) + ctx()); }
            first = got;
        }
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
