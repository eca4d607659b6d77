// Sections and cascades in floating point, for FilterRealTrace.tla.
//   filter_real_drv run|pz|resp|cstab|onepole SEED N
#include "trace.hpp"
#include "dsp/biquad.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
using namespace kv;
#ifndef KV_T
# define KV_T double
#endif
#ifndef KV_S
# define KV_S KV_T
#endif
using T = KV_T; using S = KV_S;
using Q = dsp::BiQuadT<T,S>; using O = dsp::OnePoleT<T,S>;
using V = std::vector<double>;
std::string arr(std::vector<std::string> const & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i]; } return r + "]"; }
V bv(Q const & q) { auto b = q.coeff_b(); return { (double)b.b0, (double)b.b1, (double)b.b2 }; }
V av(Q const & q) { auto a = q.coeff_a(); return { (double)a.a1, (double)a.a2 }; }
V wv(Q const & q) { auto w = q.state(); return { (double)w.v1, (double)w.v2 }; }
V bv(O const & q) { return { (double)q.coeff_b().b0 }; }
V av(O const & q) { return { (double)q.coeff_a().a1 }; }
V wv(O const & q) { return { (double)q.state().v1 }; }
template< typename C > std::string cx(C const & c) { return js(std::vector<double>{ (double)c.real(), (double)c.imag() }); }
template< typename P > std::string sol(P const & p) { return arr({ cx(p.s0), cx(p.s1) }); }
// quantities of the coefficient type
double sq(double x) { return (double)(S)x; }

struct Gen {
    Rng r; explicit Gen(uint64_t s) : r(s) {}
    double val() { switch (r.below(8)) { case 0: return 0; case 1: return r.range(-3, 3); case 2: return std::ldexp(r.sym(), r.range(-12, 6)); default: return r.sym() * 2; } }
    // a denominator with given kind of roots
    void den(double & a1, double & a2, bool stable) {
        switch (r.below(7)) {
            case 0: { double p = r.sym(), q = r.sym(); if (r.chance(1, 3)) p = 1 - std::ldexp(r.unit(), -r.range(1, 10)); a1 = -(p + q); a2 = p * q; break; }
            case 1: a1 = r.chance(1, 2) ? 0 : r.sym(); a2 = 0; break;
            case 2: { double p = r.sym(); a1 = -2 * p; a2 = p * p; break; }
            case 3: if (!stable) { a1 = 4 * r.sym(); a2 = 4 * r.sym(); break; }
            case 4: { double m = 1 - std::ldexp(r.unit(), -r.range(0, 12)), w = 3.14159265 * r.unit() * std::ldexp(1., -r.range(0, 6)); a1 = -2 * m * std::cos(w); a2 = m * m; break; }
            default: { double m = r.unit(), w = 3.14159265 * r.unit(); a1 = -2 * m * std::cos(w); a2 = m * m; }
        }
        if (!stable && r.chance(1, 5)) { a1 *= std::ldexp(1.0, r.range(-3, 8)); a2 *= std::ldexp(1.0, r.range(-3, 8)); }
        a1 = sq(a1); a2 = sq(a2);
    }
    Q biquad(bool stable) {
        typename Q::B b; typename Q::A a; double a1, a2; den(a1, a2, stable); a.a1 = (S)a1; a.a2 = (S)a2;
        double g = r.chance(1, 4) ? std::ldexp(1.0, r.range(-20, 10)) : 1;
        b.b0 = (S)(g * val()); b.b1 = (S)(g * val()); b.b2 = (S)(g * val());
        if (r.chance(1, 8)) { b.b1 = 0; b.b2 = 0; }
        if (r.chance(1, 8)) { b.b0 = (S)g; b.b1 = (S)(-2 * g); b.b2 = (S)g; }
        return Q(b, a);
    }
    O onepole(bool stable) {
        typename O::B b; typename O::A a; b.b0 = (S)val(); a.a1 = (S)(stable ? r.sym() : r.chance(1, 4) ? r.range(-2, 2) : 3 * r.sym());
        if (stable && r.chance(1, 3)) { a.a1 = (S)(-1 + std::ldexp(r.unit(), -r.range(1, 16))); b.b0 = (S)(1 + a.a1); }
        return O(b, a);
    }
    // a history: noise, steps, bursts, silence, alternation, extremes
    std::vector<T> inputs(int n) {
        std::vector<T> x; double m = r.chance(1, 4) ? std::ldexp(1.0, sizeof(T) == 4 ? r.range(-20, 20) : r.range(-60, 60)) : 1;
        while ((int)x.size() < n) {
            int k = r.below(8), len = r.range(1, 30); double v = r.sym() * m;
            if (k == 5) len = r.range(10, 120);
            for (int i = 0; i < len && (int)x.size() < n; ++i)
                switch (k) {
                    case 0: x.push_back((T)v); break;
                    case 1: x.push_back((T)(i & 1 ? v : -v)); break;
                    case 2: x.push_back((T)(i == 0 ? v * 1e6 : 0)); break;
                    case 3: x.push_back((T)(v * i)); break;
                    case 4: x.push_back((T)(r.range(-5, 5) * m)); break;
                    case 5: x.push_back((T)0); break;
                    case 6: x.push_back((T)std::ldexp(v, -3 * i)); break;
                    default: x.push_back((T)(r.sym() * m));
                }
        }
        return x;
    }
};
T step(Q & q, int m, T x) { return m == 0 ? q.step(x) : m == 1 ? q.step_df2(x) : q.step_df2_transposed(x); }
T step(O & q, int, T x) { return q.step(x); }
template< typename F > void run(Gen & g, F q, int mode, int n, int skip) {
    auto x = g.inputs(n + skip);
    Line("begin").f("mode", mode).f("warm", skip > 0).f("b", bv(q)).f("a", av(q));
    for (int i = 0; i < n + skip; ++i) {
        T y = step(q, mode, x[i]);
        // an unstable section leaves the range of the type: its history ends well before
        bool out = false; auto grown = [&](double z) { out = out || (std::isfinite(z) && std::fabs(z) > (sizeof(T) == 4 || sizeof(S) == 4 ? 1e27 : 1e200)); };
        grown((double)y); for (auto z : wv(q)) grown((double)z);
        if (out) break;
        if (i >= skip) Line("sample").f("x", x[i]).f("y", y).f("v", wv(q));
    }
    Line("kept").f("b", bv(q)).f("a", av(q));
}
// a long life: reported where an output is furthest from the difference equation, and at its end
template< typename F > void marathon(Gen & g, F q, int mode, int n) {
    auto x = g.inputs(n); std::vector<T> y; std::vector<V> v; auto b = bv(q), a = av(q); double most = -1, level = 0; int odd = 200;
    for (int i = 0; i < n; ++i) {
        y.push_back(step(q, mode, x[i])); v.push_back(wv(q));
        level = std::fmax(level * 0.9, std::fmax(std::fabs((double)x[i]), std::fabs((double)y[i])));
        for (double w : v.back()) level = std::fmax(level, std::fabs(w));
        if (i < 200) continue;
        double d = (double)y[i]; for (size_t k = 0; k < b.size(); ++k) d -= b[k] * (double)x[i - k]; for (size_t k = 0; k < a.size(); ++k) d += a[k] * (double)y[i - 1 - k];
        d = std::fabs(d) / (level + 1e-300); if (d != d) d = 1e300; if (d > most) { most = d; odd = i; }
    }
    for (int at : { odd, n - 1 }) {
        Line("begin").f("mode", mode).f("warm", true).f("b", b).f("a", a);
        for (int i = std::max(0, at - 20); i <= std::min(n - 1, at + 10); ++i) Line("sample").f("x", x[i]).f("y", y[i]).f("v", v[i]);
        Line("kept").f("b", bv(q)).f("a", av(q));
    }
}
bool same(V const & a, V const & b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
template< typename F > void feed(Gen & g, F & q) { int m = g.r.below(3); for (int i = g.r.below(4); i > 0; --i) step(q, m, (T)g.r.sym()); }
double freq(Gen & g) {
    switch (g.r.below(8)) { case 0: { static const double f[] = { 0, 0.5, 0.25, 0.125, 1, 0.0625 }; return f[g.r.below(6)]; }
        case 1: return g.r.range(-5, 5) + g.r.unit(); case 2: return std::ldexp(g.r.unit(), -g.r.range(2, 20)); case 3: return 0.5 - std::ldexp(g.r.unit(), -g.r.range(2, 20)); default: return g.r.unit() / 2; }
}
template< typename F > std::string sec(F const & q) { return "{\"b\":" + js(bv(q)) + ",\"a\":" + js(av(q)) + "}"; }

int main(int argc, char ** argv) {
    std::string what = argv[1]; Gen g(std::strtoull(argv[2], 0, 10)); int n = std::atoi(argv[3]); Rng & r = g.r;
    if (what == "run") for (int i = 0; i < 6; ++i) marathon(g, g.biquad(true), i % 3, 140000);
    if (what == "run1") for (int i = 0; i < 4; ++i) marathon(g, g.onepole(true), 0, 140000);
    if (what == "run") for (int i = 0; i < n; ++i) {
        int skip = r.chance(1, 10) ? r.range(1000, 20000) : 0;
        run(g, g.biquad(r.chance(7, 8)), i % 3, r.range(5, 200), skip);
    }
    if (what == "run1") for (int i = 0; i < n; ++i) run(g, g.onepole(r.chance(7, 8)), 0, r.range(5, 200), r.chance(1, 10) ? r.range(1000, 20000) : 0);
#ifndef KV_MIXED
    if (what == "pz") for (int i = 0; i < n; ++i) {
        if (i % 4 == 0) {   // few-bit real roots
            double r1 = r.range(-20, 20) / 8.0, r2 = r.range(-20, 20) / 8.0;
            if (r.chance(1, 3)) r1 = r.chance(1, 2) ? 1 : -1; if (r.chance(1, 4)) r2 = r.chance(1, 2) ? 1 : -1;
            typename Q::A a; a.a1 = (S)-(r1 + r2); a.a2 = (S)(r1 * r2);
            Q q({ 1, 0, 0 }, a); feed(g, q);
            Line("pzx").f("r1", r1).f("r2", r2).f("a", av(q)).raw("p", sol(q.poles())).f("stable", (bool)q.is_stable());
        } else if (i % 4 == 1) { // zeros, poles, gain
            using Sol = typename Q::Solution; using C = typename Q::Complex;
            auto pair = [&](double m) { double u = g.val() * m, v = g.val() * m; if (r.chance(1, 2)) return Sol{ C((T)u, (T)v), C((T)u, (T)-v) }; return Sol{ C((T)u, 0), C((T)v, 0) }; };
            Sol z = pair(1), p = pair(0.5); T k = (T)(g.val() * (r.chance(1, 5) ? 1e-5 : 1));
            Q q(z, p, k);
            Line("zpk").raw("z", sol(z)).raw("p", sol(p)).f("k", (double)k).f("b", bv(q)).f("a", av(q)).f("w", wv(q));
        } else {
            Q q = g.biquad(r.chance(1, 3)); feed(g, q); auto w = wv(q); auto b = bv(q), a = av(q);
            bool hz = b[0] != 0; auto p = q.poles(); bool st = q.is_stable(); std::string z = "[]"; if (hz) z = sol(q.zeros());
            Line("pz").f("b", b).f("a", a).raw("p", sol(p)).raw("z", z).f("hasz", hz).f("stable", st).f("same", same(w, wv(q)) && same(b, bv(q)) && same(a, av(q)));
        }
    }
    if (what == "pz1") for (int i = 0; i < n; ++i) {
        if (i % 3 == 0) {
            using Sol = typename O::Solution; Sol z{}, p{}; p.s0 = (T)(r.chance(1, 4) ? r.range(-2, 2) : 2 * r.sym()); T k = (T)g.val();
            O q(z, p, k);
            Line("zpk1").raw("p", cx(p.s0)).f("k", (double)k).f("b", bv(q)).f("a", av(q)).f("w", wv(q));
        } else {
            O q = g.onepole(r.chance(1, 3)); feed(g, q); auto w = wv(q); auto b = bv(q), a = av(q);
            auto p = q.poles(); auto z = q.zeros(); bool st = q.is_stable();
            Line("pz1").f("b", b).f("a", a).raw("p", cx(p.s0)).raw("z", cx(z.s0)).f("stable", st).f("same", same(w, wv(q)) && same(b, bv(q)) && same(a, av(q)));
        }
    }
    if (what == "resp" || what == "cstab") for (int i = 0; i < n; ++i) {
        constexpr int N = 4; dsp::BiQuadCascadeT<T,N> c;
        int m = r.below(N + 1); std::vector<Q> all;
        int odd = r.below(3);                                          // none, or one, or any unstable
        int which = m ? r.below(m) : 0;
        for (int k = 0; k < m; ++k) { Q q = g.biquad(odd == 0 || (odd == 1 && k != which));
            if (odd == 1 && k == which) { typename Q::A a = q.coeff_a(); a.a2 = (S)(1.01 + r.unit()); q = Q(q.coeff_b(), a); }
            feed(g, q); all.push_back(q); }
        // an edited cascade: a section beyond the active ones
        for (auto & q : all) c.append(q);
        if (m < N && r.chance(1, 2)) { typename Q::A a; a.a1 = 5; a.a2 = 7; c.append(Q({ 3, 2, 1 }, a)); c.remove(m); }
        std::string ss = "["; for (int k = 0; k < m; ++k) { if (k) ss += ','; ss += sec(all[k]); } ss += "]";
        if (what == "cstab") { bool st = is_stable(c); bool s = true; for (int k = 0; k < m; ++k) { auto w = c.state(k); s = s && same({ (double)w.v1, (double)w.v2 }, wv(all[k])); } Line("cstab").raw("secs", ss).f("stable", st).f("same", s); continue; }
        std::vector<double> f, re, im;
        for (int k = 0; k < 4; ++k) { f.push_back((double)(T)freq(g)); auto h = response(c, (T)f.back()); re.push_back(h.real()); im.push_back(h.imag()); }
        bool s = true; for (int k = 0; k < m; ++k) { auto w = c.state(k); s = s && same({ (double)w.v1, (double)w.v2 }, wv(all[k])); }
        Line("resp").raw("secs", ss).f("f", f).f("re", re).f("im", im).f("same", s);
        if (m) { re.clear(); im.clear(); for (double x : f) { auto h = response(all[0], (T)x); re.push_back(h.real()); im.push_back(h.imag()); } Line("resp").raw("secs", arr({ sec(all[0]) })).f("f", f).f("re", re).f("im", im).f("same", true); }
        O o = g.onepole(r.chance(1, 2)); auto w = wv(o); re.clear(); im.clear();
        for (double x : f) { auto h = response(o, (T)x); re.push_back(h.real()); im.push_back(h.imag()); }
        Line("resp").raw("secs", arr({ sec(o) })).f("f", f).f("re", re).f("im", im).f("same", same(w, wv(o)));
    }
#endif
}
