// Replays behaviours generated from FilterGen.tla into real sections and
// cascades and records what they do, for FilterTrace.tla.
//   filter_drv section|onepole|cascade SEED SCRIPTFILE FROM STEP [extra steps]
#include "trace.hpp"
#include <fstream>
#include <sstream>
#include <memory>
#include "dsp/biquad.hpp"
#include "dsp/biquad-cascade.hpp"
#ifdef KV_ONEPOLE
#include "dsp/onepole.hpp"
#endif
using namespace kv;
#ifdef KV_FIELD
using T = Fp; using S = Fp;
#else
# ifndef KV_T
#  define KV_T double
#  define KV_S double
# endif
using T = KV_T; using S = KV_S;
#endif
constexpr bool field = std::is_same<T, Fp>::value;

// --- values ----------------------------------------------------------------
struct Gen {
    Rng r; int sc = 0;
    explicit Gen(uint64_t s) : r(s) {}
    T input() {
        if constexpr (field) return T(r.chance(1, 6) ? 0 : r.chance(1, 6) ? 1 : r.below(Fp::P));
        else {
            int k = r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.range(-1000, 1000) : r.range(-4, 4);
            if (std::is_floating_point<T>::value) return (T)std::ldexp((double)k, sc);
            return (T)k;
        }
    }
    S num() { if constexpr (field) return S(r.chance(1, 8) ? 0 : r.below(Fp::P)); else return (S)(r.chance(1, 8) ? 0 : r.range(-3, 3)); }
    // coefficients of few bits: responses that grow at most polynomially, and some unstable ones
    void den(S & a1, S & a2) {
        if constexpr (field) { a1 = num(); a2 = num(); }
        else {
            static const int t[][2] = { {0,0}, {-1,0}, {1,0}, {0,-1}, {0,1}, {-2,1}, {2,1}, {1,1}, {-1,1}, {-1,0}, {1,1}, {-2,0}, {2,0}, {0,2}, {-3,2} };
            auto & k = t[r.below(15)]; a1 = (S)k[0]; a2 = (S)k[1];
        }
    }
};
double mag(T x) { if constexpr (field) return 0; else return std::fabs((double)x); }
std::string arr(std::vector<std::string> const & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i]; } return r + "]"; }

// --- sections --------------------------------------------------------------
#ifdef KV_ONEPOLE
using Sec = dsp::OnePoleT<T,S>;
std::string bs(Sec const & s) { return arr({ js((S)s.coeff_b().b0) }); }
std::string as(Sec const & s) { return arr({ js((S)s.coeff_a().a1) }); }
std::string ws(Sec const & s) { return arr({ js((T)s.state().v1) }); }
double big(Sec const & s) { return mag(s.state().v1); }
Sec make(Gen & g, std::string & b, std::string & a) {
    S a1, a2; g.den(a1, a2); typename Sec::B B; B.b0 = g.num(); typename Sec::A A; A.a1 = a1;
    if (!field && g.r.chance(1, 6)) { if (A.a1 == 0) A.a1 = (S)-1; }
    b = arr({ js((S)B.b0) });
    if (g.r.chance(1, 6)) { a = arr({ js(S(0)) }); return Sec(B); }
    a = arr({ js((S)A.a1) });
    return Sec(B, A);
}
T step(Sec & s, int, T x) { return s.step(x); }
constexpr int modes = 1;
#else
using Sec = dsp::BiQuadT<T,S>;
template< typename Q > std::string bs(Q const & s) { auto b = s.coeff_b(); return arr({ js((S)b.b0), js((S)b.b1), js((S)b.b2) }); }
template< typename Q > std::string as(Q const & s) { auto a = s.coeff_a(); return arr({ js((S)a.a1), js((S)a.a2) }); }
template< typename Q > std::string ws(Q const & s) { auto w = s.state(); return arr({ js((T)w.v1), js((T)w.v2) }); }
template< typename Q > double big(Q const & s) { auto w = s.state(); return std::fmax(mag(w.v1), mag(w.v2)); }
template< typename Q > Q makeq(Gen & g, std::string & b, std::string & a) {
    typename Q::B B; typename Q::A A; B.b0 = g.num(); B.b1 = g.num(); B.b2 = g.num(); g.den(A.a1, A.a2);
    b = arr({ js((S)B.b0), js((S)B.b1), js((S)B.b2) });
    if (g.r.chance(1, 8)) { a = arr({ js(S(0)), js(S(0)) }); return Q(B); }
    a = arr({ js((S)A.a1), js((S)A.a2) });
    return Q(B, A);
}
Sec make(Gen & g, std::string & b, std::string & a) { return makeq<Sec>(g, b, a); }
template< typename Q > T step(Q & s, int mode, T x) { return mode == 0 ? s.step(x) : mode == 1 ? s.step_df2(x) : s.step_df2_transposed(x); }
constexpr int modes = 3;
#endif
template< typename Q > std::string obs(Q const & s) {
    std::string w = ws(s);
#ifndef KV_FIELD
    if constexpr (std::is_same<T, double>::value && std::is_same<S, double>::value) { (void) s.poles(); (void) s.zeros(); (void) s.is_stable(); (void) response(s, 0.125); }
#endif
    if (ws(s) != w) w = "[\"observing changed the state\"]";
    return "{\"b\":" + bs(s) + ",\"a\":" + as(s) + ",\"w\":" + w + "}";
}
constexpr double limit = std::is_same<T, int>::value ? 1 << 14 : std::is_floating_point<T>::value && sizeof(T) == 4 ? 1 << 9 : 1ull << 36;

struct Sections {
    Gen & g; std::unique_ptr<Sec> s[2]; int mode[2] = { 0, 0 };
    void create(int i) {
        std::string b, a; s[i].reset(new Sec(make(g, b, a))); mode[i] = g.r.below(modes);
        Line("new").f("id", i).raw("b", b).raw("a", a).raw("o", obs(*s[i]));
    }
    void reset(int i) { s[i]->reset(); mode[i] = g.r.below(modes); Line("reset").f("id", i).raw("o", obs(*s[i])); }
    void run(int i, int n) {
        if (std::ldexp(big(*s[i]), -g.sc) > limit) return reset(i);
        std::vector<T> x, y;
        for (int k = 0; k < n; ++k) { x.push_back(g.input()); y.push_back(step(*s[i], mode[i], x.back())); }
        Line("run").f("id", i).f("x", x).f("y", y).raw("o", obs(*s[i]));
    }
    void look(int i) { Line("obs").f("id", i).raw("o", obs(*s[i])); }
    void op(std::string const & o) {
        int i = o.size() > 1 ? o[1] - '0' : 0, j = 1 - i;
        switch (o[0]) {
            case 'S': run(i, g.r.range(1, 3)); break;
            case 'Z': reset(i); break;
            case 'N': create(i); break;
            case 'W': { Sec & x = *s[i]; Sec & y = *s[i]; x.swap(y); Line("swap").f("id", i).f("with", i).raw("o", obs(*s[i])).raw("p", obs(*s[i])); break; }
            case 'X': {
                int k = g.r.below(4);
                if (k == 0) s[0]->swap(*s[1]); else if (k == 1) s[1]->swap(*s[0]); else if (k == 2) { using std::swap; swap(*s[0], *s[1]); } else std20::swap(*s[0], *s[1]);
                std::swap(mode[0], mode[1]);
                Line("swap").f("id", 0).f("with", 1).raw("o", obs(*s[0])).raw("p", obs(*s[1])); break; }
            case 'K': *s[j] = *s[i]; mode[j] = mode[i]; Line("copy").f("id", j).f("from", i).raw("o", obs(*s[j])); break;
            case 'G': s[j].reset(new Sec(*s[i])); mode[j] = mode[i]; Line("copy").f("id", j).f("from", i).raw("o", obs(*s[j])); break;
        }
    }
    void script(std::vector<std::string> const & ops) {
        Line("session").f("k", 0);
        g.sc = g.r.chance(1, 3) ? g.r.range(-30, 30) : 0;
        create(0); create(1);
        for (auto & o : ops) { op(o); if (g.r.chance(1, 2)) { int i = g.r.below(2); look(i); } }
        run(0, 3); run(1, 3); look(0); look(1);
    }
};

#if !defined KV_ONEPOLE && (defined KV_FIELD || defined KV_CASCADE)
// --- cascades --------------------------------------------------------------
template< int N > struct Cascades {
    using C = dsp::BiQuadCascadeT<T, N>;
    using Q = typename C::BiQuad;
    Gen & g; C c[2]; int cur = 0; int mode[2] = { 0, 0 };
    // a section with a past, described with it
    Q made(std::string & d) {
        std::string b, a; Q q = makeq<Q>(g, b, a); std::string w0 = ws(q);
        std::vector<T> x, y; int n = g.r.below(4);
        for (int k = 0; k < n; ++k) { x.push_back(g.input()); y.push_back(step(q, mode[cur], x.back())); }
        d = "{\"b\":" + b + ",\"a\":" + a + ",\"w0\":" + w0 + ",\"px\":" + js(x) + ",\"py\":" + js(y) + ",\"w\":" + ws(q) + "}";
        return q;
    }
    static std::string view(C & x) {
        C const & k = x; std::vector<std::string> at, it, ct;
        for (int i = 0; i < k.size(); ++i) {
            auto b = k.coeff_b(i); auto a = k.coeff_a(i); auto w = k.state(i);
            at.push_back("{\"b\":" + arr({ js(b.b0), js(b.b1), js(b.b2) }) + ",\"a\":" + arr({ js(a.a1), js(a.a2) }) + ",\"w\":" + arr({ js(w.v1), js(w.v2) }) + "}");
        }
        for (auto & q : x) { if (it.size() > 2 * N) break; it.push_back(obs(q)); }
        for (auto const & q : k) { if (ct.size() > 2 * N) break; ct.push_back(obs(q)); }
        return "{\"size\":" + js((int)k.size()) + ",\"res\":" + js((int)k.reserved()) + ",\"cap\":" + js(N) + ",\"at\":" + arr(at) + ",\"iter\":" + arr(it) + ",\"citer\":" + arr(ct) + "}";
    }
    double biggest() { double m = 0; for (auto & q : c[cur]) m = std::fmax(m, big(q)); return m; }
    void reset() { dsp::biquad_cascade::reset(c[cur]); mode[cur] = g.r.below(3); Line("cas").f("op", "reset").raw("v", view(c[cur])); }
    void op(std::string const & o) {
        int i = o.size() > 1 ? o[1] - '0' : 0; C & x = c[cur]; std::string d;
        switch (o[0]) {
            case 'A': if (x.size() > 0 && g.r.chance(1, 6)) { int j = g.r.below(x.size());     // one that is in the cascade already
                          x.append(x.begin()[j]); Line("cas").f("op", "append").f("own", j).raw("v", view(x)); break; }
                      { Q q = made(d); x.append(q); Line("cas").f("op", "append").raw("n", d).raw("v", view(x)); break; }
            case 'I': if (x.size() > 0 && g.r.chance(1, 5)) { int j = g.r.below(x.size());
                          if (g.r.chance(1, 2)) x.insert(i, x.begin()[j]); else { C const & k = x; x.insert(i, k.begin()[j]); } Line("cas").f("op", "insert").f("i", i).f("own", j).raw("v", view(x)); break; }
                      { Q q = made(d); x.insert(i, q); Line("cas").f("op", "insert").f("i", i).raw("n", d).raw("v", view(x)); break; }
            case 'R': x.remove(i); Line("cas").f("op", "remove").f("i", i).raw("v", view(x)); break;
            case 'P': {
                int j = x.size() > 0 && g.r.chance(1, 6) ? g.r.below(x.size()) : -1; Q q; if (j < 0) q = made(d); auto old = j < 0 ? x.replace(i, q) : x.replace(i, x.begin()[j]); std::string ret = obs(old);
                std::vector<T> rx, ry; for (int k = 0; k < 3; ++k) { rx.push_back(g.input()); ry.push_back(step(old, mode[cur], rx.back())); }
                Line l("cas"); l.f("op", "replace").f("i", i); if (j < 0) l.raw("n", d); else l.f("own", j); l.raw("ret", ret).f("rx", rx).f("ry", ry).raw("v", view(x)); break; }
            case 'C': x.clear(); if (g.r.chance(1, 2)) mode[cur] = g.r.below(3); Line("cas").f("op", "clear").raw("v", view(x)); break;
            case 'S': {
                if (std::ldexp(biggest(), -g.sc) > limit) return reset();
                T in = g.input(); T y = mode[cur] == 0 ? dsp::biquad_cascade::step(x, in) : mode[cur] == 1 ? dsp::biquad_cascade::step_df2(x, in) : dsp::biquad_cascade::step_df2_transposed(x, in);
                Line("cas").f("op", "step").f("x", in).f("y", y).raw("v", view(x)); break; }
            case 'Z': reset(); break;
            case 'K': if (g.r.chance(1, 2)) c[1 - cur] = c[cur]; else { C t(c[cur]); c[1 - cur] = t; } mode[1 - cur] = mode[cur];
                Line("cas").f("op", "copy").raw("v", view(x)).raw("other", view(c[1 - cur])); break;
            case 'X': cur = 1 - cur; Line("cas").f("op", "exchange").raw("v", view(c[cur])).raw("other", view(c[1 - cur])); break;
        }
    }
    void script(std::vector<std::string> const & ops) {
        Line("session").f("k", 0);
        g.sc = g.r.chance(1, 3) ? g.r.range(-30, 30) : 0;
        c[0] = C(); c[1] = C(); cur = 0; mode[0] = g.r.below(3); mode[1] = g.r.below(3);
        for (auto & o : ops) op(o);
        for (int k = 0; k < 3; ++k) op("S");
        Line("cas").f("op", "look").raw("v", view(c[cur])).raw("other", view(c[1 - cur]));
    }
    // many sections: appended at once, then edited here and there
    void deep() {
        Line("session").f("k", 0); c[0] = C(); c[1] = C(); cur = 0; mode[0] = g.r.below(3); mode[1] = mode[0]; g.sc = 0;
        auto many = [&](int n) { std::vector<std::string> ds; for (int k = 0; k < n; ++k) { std::string d; Q q = made(d); c[cur].append(q); ds.push_back(d); } Line("cas").f("op", "appends").raw("ns", arr(ds)).raw("v", view(c[cur])); };
        auto at = [&](char o, int i) { C & x = c[cur]; std::string d;
            if (o == 'I') { Q q = made(d); x.insert(i, q); Line("cas").f("op", "insert").f("i", i).raw("n", d).raw("v", view(x)); }
            if (o == 'R') { x.remove(i); Line("cas").f("op", "remove").f("i", i).raw("v", view(x)); }
            if (o == 'P') { Q q = made(d); auto old = x.replace(i, q); Line("cas").f("op", "replace").f("i", i).raw("n", d).raw("ret", obs(old)).f("rx", std::vector<T>()).f("ry", std::vector<T>()).raw("v", view(x)); } };
        many(g.r.range(1, N / 2)); many(N - 4 - c[cur].size());
        auto steps = [&] { if (field) { op("S"); op("S"); } };      // elsewhere that many sections leave the exact numbers
        steps(); at('I', g.r.below(c[cur].size())); at('I', c[cur].size() - 1); at('I', 0); at('P', g.r.below(c[cur].size())); steps();
        many(1);                                                    // full
        at('P', N - 1); at('R', g.r.below(N)); at('R', N - 2); steps(); op("K"); at('R', 0); at('P', N - 5); op("Z"); steps(); op("X");
        at('I', N - 10); for (int k = 0; k < 4; ++k) at('R', g.r.below(c[cur].size())); op("C"); many(3); op("S"); op("S"); op("X"); op("C"); op("S");
    }
    // many steps: where the cascade differs from its sections stepped one after the other
    void lasting(int n) {
        Line("session").f("k", 0); c[0] = C(); cur = 0; mode[0] = g.r.below(3); std::string d; std::vector<Q> s;
        for (int k = g.r.range(1, N); k; --k) { Q q = made(d); c[0].append(q); s.push_back(q); }
        std::vector<int> odd; C & x = c[0];
        for (int i = 0; i < n; ++i) {
            T in = g.input(); T y = mode[0] == 0 ? dsp::biquad_cascade::step(x, in) : mode[0] == 1 ? dsp::biquad_cascade::step_df2(x, in) : dsp::biquad_cascade::step_df2_transposed(x, in);
            T z = in; for (auto & q : s) z = step(q, mode[0], z);
            if (!(y == z) && odd.size() < 5) odd.push_back(i);
        }
        Line("lasting").f("n", n).f("sections", (int)s.size()).f("differ", odd);
    }
    // constructed from sections
    template< int... > struct seq {};
    void constructed() {
        Line("session").f("k", 0); cur = 0; mode[0] = g.r.below(3); std::string d[3];
        Q q[3] = { made(d[0]), made(d[1]), made(d[2]) }; int n = 1 + g.r.below(N < 3 ? N : 3);
        if (n == 1) { C x(q[0]); c[0] = x; }
        if constexpr (N >= 2) { if (n == 2) { C x(q[0], q[1]); c[0] = x; } }
        if constexpr (N >= 3) { if (n == 3) { C x(q[0], q[1], q[2]); c[0] = x; } }
        Line("cas").f("op", "make").raw("ns", arr(std::vector<std::string>(d, d + n))).raw("v", view(c[0]));
        for (int k = 0; k < 4; ++k) op("S");
    }
};
template< int N > void cascades(Gen & g, std::vector<std::vector<std::string>> const & sc) {
    Cascades<N> c{g}; int k = 0;
    for (auto & s : sc) { c.script(s); if (k++ % 50 == 0) c.constructed(); }
    if (field) for (int i = 0; i < 3; ++i) c.lasting(140000);
}
#endif

int main(int argc, char ** argv) {
    std::string what = argv[1]; Gen g(std::strtoull(argv[2], 0, 10)); int from = std::atoi(argv[4]), stride = std::atoi(argv[5]), cap = std::atoi(argv[6]);
    std::vector<std::vector<std::string>> sc; std::ifstream f(argv[3]); std::string line; int n = 0;
    while (std::getline(f, line)) { if (n++ % stride != from) continue; std::istringstream is(line); std::vector<std::string> v; std::string o; while (is >> o) v.push_back(o); sc.push_back(v); }
#if !defined KV_ONEPOLE && (defined KV_FIELD || defined KV_CASCADE)
    if (what == "cascade") { switch (cap) { case 1: cascades<1>(g, sc); break; case 2: cascades<2>(g, sc); break; case 3: cascades<3>(g, sc); break; case 4: cascades<4>(g, sc); break; case 6: cascades<6>(g, sc); break; case 20: Cascades<20>{g}.deep(); break; case 300: Cascades<300>{g}.deep(); break; } return 0; }
#endif
    Sections s{g}; for (auto & v : sc) s.script(v);
}
