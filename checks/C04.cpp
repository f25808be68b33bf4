// C04: reverse mode of every order is the derivative of forward mode
#include "../lib/work.hpp"
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; return m; }
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; bool sys = make_case(i, r, m, gp); Gen& gen = *gp; const Prog& p = gen.p; note_prog(gen);
    CppAD::ADFun<double> f; Recorder<> rec; rec(p, gen.pts[0], f);
    size_t n = size_t(p.n), mm = p.dep.size();
    for(int pt = 0; pt < 2; ++pt)
    {   const Point& q = gen.pts[size_t(r.below(3))]; if( p.nd ) f.new_dynamic(q.d);
        int Q = sys ? 4 : (r.chance(.1) ? r.range(4, 8) : r.range(0, 4));
        auto xc = taylor_in(r, q.x, Q);
        auto want = alg_run(p, xc, q.d, true);
        auto ctx = [&]() { std::string s = p.text() + " " + point_text(q); for(auto& z : xc) s += vec_text(z); return s; };
        VDb X(n * size_t(Q + 1)); for(size_t j = 0; j < n; ++j) for(int l = 0; l <= Q; ++l) X[j * size_t(Q + 1) + size_t(l)] = xc[size_t(l)][j];
        if( Q == 0 || r.chance(.5) ) for(int k = 0; k <= Q; ++k) f.Forward(size_t(k), xc[size_t(k)]); else f.Forward(size_t(Q), X);
        if( r.chance(.2) ) f.capacity_order(size_t(Q) + 1 + r.sbelow(3));
        VDb first; int firstq = -1; VDb firstw;
        for(int t = 0; t < 4; ++t)
        {   int qq = t == 0 ? Q + 1 : r.range(1, Q + 1); // number of orders
            bool full = r.chance(.6); bool unit = r.chance(.3);
            VDb w(full ? mm * size_t(qq) : mm, 0.0);
            if( unit ) w[r.sbelow(w.size())] = 1; else for(double& z : w) z = r.chance(.2) ? 0.0 : r.uni(-1, 1);
            if( t == 3 ) { w = firstw; qq = firstq; full = w.size() != mm; }
            VDb dw = f.Reverse(size_t(qq), w); rep().count("reverse");
            if( full && mm * size_t(qq) == mm ) full = true;
            if( dw.size() != n * size_t(qq) ) { rep().fail("result-size", ctx()); return; }
            for(size_t j = 0; j < n; ++j) for(int l = 0; l < qq; ++l)
            {   Sum s;
                for(size_t a = 0; a < mm; ++a)
                {   if( full ) { for(int k = l; k < qq; ++k) s.add(w[a * size_t(qq) + size_t(k)], want[a], k - l, int(j) + 1); }
                    else s.add(w[a], want[a], l, int(j) + 1); } // documented: stored in reverse order when w has size m
                if( ! check_sum(fmt("order%d", qq), dw[j * size_t(qq) + size_t(l)], s, [&]() { return fmt("q=%d d/dx%zu^(%d) w=", qq, j, l) + vec_text(w) + ctx(); }) ) return;
            }
            if( t == 0 ) { first = dw; firstq = qq; firstw = w; }
            if( t == 3 ) for(size_t z = 0; z < dw.size(); ++z) if( ! near(dw[z], first[z], 1e-13, 1e-290) ) { rep().fail("not-repeatable", fmt("%.17g %.17g ", dw[z], first[z]) + ctx()); break; }
        }
        // stored coefficients are unaltered: continue forward with the next order
        if( f.size_order() != size_t(Q + 1) ) rep().fail("size_order", ctx());
        auto xc2 = xc; VDb nx; for(size_t j = 0; j < n; ++j) nx.push_back(r.uni(-1, 1)); xc2.push_back(nx);
        VDb y = f.Forward(size_t(Q + 1), nx); auto w2 = alg_run(p, xc2, q.d, false);
        for(size_t a = 0; a < mm; ++a) if( ! check("forward-after-reverse", y[a], w2[a], Q + 1, 0, ctx) ) return;
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
