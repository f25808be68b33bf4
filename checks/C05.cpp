// C05: first and second derivative drivers
#include "../lib/work.hpp"
#include <valarray>
using namespace vf;
static Mix mix() { Mix m; m.cmp = true; m.max_n = 7; m.max_m = 7; return m; }
template <class V> V cvt(const VDb& x) { V v(x.size()); for(size_t i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
template <class V, class VI> static void run(const Prog& p, const Point& q, CppAD::ADFun<double>& f, Rng& r)
{   size_t n = size_t(p.n), m = p.dep.size(); auto ctx = [&]() { return p.text() + " " + point_text(q); };
    auto j0 = alg_run(p, {q.x}, q.d, true);                 // order 0 with partials
    std::vector<std::vector<Alg>> h(n);                     // h[j][i].get(1, 1+k) = d2 y_i / dx_j dx_k
    for(size_t j = 0; j < n; ++j) { VDb e(n, 0.0); e[j] = 1; h[j] = alg_run(p, {q.x, e}, q.d, true); }
    V x = cvt<V>(q.x);
    for(int t = 0; t < 5; ++t) switch( t < 3 ? t : r.below(8) )
    {   case 0: { V J = f.Jacobian(x); rep().count("Jacobian"); if( J.size() != m * n ) { rep().fail("Jacobian-size", ctx()); return; }
            for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( ! check("Jacobian", J[i * n + j], j0[i], 0, int(j) + 1, ctx) ) return; } break;
        case 1: { size_t i = r.sbelow(m); V H = f.Hessian(x, i); rep().count("Hessian"); if( H.size() != n * n ) { rep().fail("Hessian-size", ctx()); return; }
            for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) { Sum s; s.add(1, h[j][i], 1, int(k) + 1); if( ! check_sum("Hessian-component", H[j * n + k], s, ctx) ) return; } } break;
        case 2: { V w(m); for(size_t i = 0; i < m; ++i) w[i] = r.chance(.2) ? 0 : r.uni(-1, 1); V H = f.Hessian(x, w); rep().count("HessianW");
            for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) { Sum s; for(size_t i = 0; i < m; ++i) s.add(w[i], h[j][i], 1, int(k) + 1); if( ! check_sum("Hessian-weighted", H[j * n + k], s, ctx) ) return; } } break;
        case 3: { size_t j = r.sbelow(n); V d = f.ForOne(x, j); rep().count("ForOne"); if( d.size() != m ) { rep().fail("ForOne-size", ctx()); return; } for(size_t i = 0; i < m; ++i) if( ! check("ForOne", d[i], j0[i], 0, int(j) + 1, ctx) ) return; } break;
        case 4: { size_t i = r.sbelow(m); V d = f.RevOne(x, i); rep().count("RevOne"); if( d.size() != n ) { rep().fail("RevOne-size", ctx()); return; } for(size_t j = 0; j < n; ++j) if( ! check("RevOne", d[j], j0[i], 0, int(j) + 1, ctx, 1e4) ) return; } break;
        case 5: { size_t np = size_t(r.range(1, 7)); VI J(np), K(np); for(size_t l = 0; l < np; ++l) { J[l] = r.sbelow(n); K[l] = r.chance(.2) ? J[l] : r.sbelow(n); }
            V d = f.ForTwo(x, J, K); rep().count("ForTwo"); if( d.size() != m * np ) { rep().fail("ForTwo-size", ctx()); return; }
            for(size_t i = 0; i < m; ++i) for(size_t l = 0; l < np; ++l) { // formed by polarization, which cancels: bound by the diagonal terms
                Sum s; s.add(1, h[J[l]][i], 1, int(K[l]) + 1); s.e += h[J[l]][i].err(1, int(J[l]) + 1) + h[K[l]][i].err(1, int(K[l]) + 1); if( ! check_sum("ForTwo", d[i * np + l], s, ctx) ) return; } } break;
        case 6: { size_t np = size_t(r.range(1, 7)); VI I(np), J(np); for(size_t l = 0; l < np; ++l) { I[l] = r.sbelow(m); J[l] = r.sbelow(n); }
            V d = f.RevTwo(x, I, J); rep().count("RevTwo"); if( d.size() != n * np ) { rep().fail("RevTwo-size", ctx()); return; }
            for(size_t k = 0; k < n; ++k) for(size_t l = 0; l < np; ++l) { Sum s; s.add(1, h[J[l]][I[l]], 1, int(k) + 1); if( ! check_sum("RevTwo", d[k * np + l], s, ctx) ) return; } } break;
        case 7: { V J(m * n); if( r.chance(.5) ) CppAD::JacobianFor(f, x, J); else CppAD::JacobianRev(f, x, J); rep().count("JacobianForRev"); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( ! check("JacobianForRev", J[i * n + j], j0[i], 0, int(j) + 1, ctx, 1e4) ) return; } break;
    }
}
static void body(long i, Rng& r)
{   static Mix m = mix(); std::unique_ptr<Gen> gp; make_case(i, r, m, gp); Gen& gen = *gp; const Prog& p = gen.p; note_prog(gen);
    CppAD::ADFun<double> f; Recorder<> rec; rec(p, gen.pts[0], f);
    if( r.chance(.2) ) f.optimize();
    for(int pt = 0; pt < 2; ++pt)
    {   const Point& q = gen.pts[size_t(r.below(3))]; if( p.nd ) f.new_dynamic(q.d);
        switch( r.below(3) ) { case 0: run<std::vector<double>, std::vector<size_t>>(p, q, f, r); break;
            case 1: run<CppAD::vector<double>, CppAD::vector<size_t>>(p, q, f, r); break;
            case 2: run<std::valarray<double>, std::valarray<size_t>>(p, q, f, r); break; }
    }
}
int main(int argc, char** argv) { return harness_main(argc, argv, body); }
