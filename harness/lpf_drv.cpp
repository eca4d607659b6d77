// Ready-made filters, for FilterRealTrace.tla: interleaved objects, each one's
// history reported with the coefficients of the corresponding design.
//   lpf_drv SEED N          (-DKV_T=double|float)
#include "trace.hpp"
#include "dsp/filter.hpp"
#include "dsp/biquad-design.hpp"
#include <algorithm>
#include <memory>
using namespace kv;
#ifndef KV_T
# define KV_T double
#endif
using T = KV_T; constexpr bool single = sizeof(T) == 4;
using FR = dsp::FilterResponse;
struct One {
    std::unique_ptr<dsp::Lpf<T>> lp; std::unique_ptr<dsp::Hpf<T>> hp; dsp::BiQuadT<T> ref;     // ref: signal level inside the section
    One() = default; One(One &&) = default; One & operator=(One &&) = default;
    One(One const & o) : ref(o.ref), x(o.x), y(o.y), v(o.v), kind(o.kind), level(o.level), ry(o.ry), phase(o.phase) { if (o.lp) lp.reset(new dsp::Lpf<T>(*o.lp)); if (o.hp) hp.reset(new dsp::Hpf<T>(*o.hp)); }
    std::vector<T> x, y; std::vector<std::vector<double>> v; int kind; T level, ry = 0; int phase = 0;
    void step(T s) { T o = lp ? (*lp)(s) : (*hp)(s); ry = ref.step(s); x.push_back(s); y.push_back(o); auto w = ref.state(); v.push_back({ (double)w.v1, (double)w.v2 }); }
};
void make(Rng & r, One & o, int which = 2) {          // which: low, high, either
    static const double rates[] = { 8000, 44100, 48000, 1000, 100, 1 };
    T fs = (T)rates[r.below(6)], fc = (T)(fs * (r.chance(1, 3) ? std::pow(10, -4 * r.unit()) * 0.49 : 0.001 + 0.498 * r.unit())), q = (T)(r.chance(1, 2) ? 0.7071067811865475 : std::pow(10, 3 * r.unit() - 1));
    if (which == 2 ? r.chance(1, 2) : which == 0) { o.lp.reset(new dsp::Lpf<T>(fc, fs, q)); o.ref = dsp::make_biquad(dsp::biquad_design<FR::low_pass>(T(0), fc, fs, q)); }
    else                { o.hp.reset(new dsp::Hpf<T>(fc, fs, q)); o.ref = dsp::make_biquad(dsp::biquad_design<FR::high_pass>(T(0), fc, fs, q)); }
    o.kind = r.below(5); o.level = (T)(r.chance(1, 4) ? std::ldexp(1.0, r.range(-20, 20)) : 1);
}
double drawn(Rng & r, One & o) {
    switch (o.kind) {
        case 0: return r.sym();
        case 1: return 1;
        case 2: return o.phase == 0;
        case 3: return (o.phase / 16) % 3 == 0 ? r.sym() : 0;
        default: return o.phase & 1 ? 1 : -1;
    }
}
void report(One & o, size_t from) {
    auto b = o.ref.coeff_b(); auto a = o.ref.coeff_a();
    std::vector<double> B{ (double)b.b0, (double)b.b1, (double)b.b2 }, A{ (double)a.a1, (double)a.a2 };
    Line("begin").f("mode", o.lp ? 0 : 1).f("warm", from != 0).f("b", B).f("a", A);
    for (size_t i = from; i < o.x.size(); ++i) Line("sample").f("x", o.x[i]).f("y", o.y[i]).f("v", o.v[i]);
}
int main(int, char ** argv) {
    Rng r(std::strtoull(argv[1], 0, 10)); int n = std::atoi(argv[2]);
    for (int k = 0; k < n; ++k) {
        std::vector<One> f(3);
        for (auto & o : f) make(r, o);
        // the same parameters for two of them
        if (k < 4 || r.chance(1, 2)) { int kind = f[1].kind; T level = f[1].level; Rng s = r; f[1] = One(); make(s, f[1], k < 4 ? k % 2 : 2); f[0] = One(); make(r, f[0], k < 4 ? k % 2 : 2); f[1].kind = kind; f[1].level = level; }
        bool split = r.chance(1, 2);
        for (int i = r.range(20, 300); i > 0; --i) {
            One & o = f[r.below((int)f.size())]; double s = drawn(r, o);
            ++o.phase; o.step((T)(s * o.level));
            if (split && r.chance(1, 40)) { One c(f[0]); f.push_back(std::move(c)); split = f.size() < 5; }       // a copy goes its own way with what it has heard
        }
        for (auto & o : f) report(o, 0);
    }
    // a long life, its end reported
    for (int k = 0; k < 4; ++k) {
        One o; make(r, o, k % 2); o.kind = k < 2 ? 0 : o.kind;
        size_t len = k >= 2 ? 140000 : r.range(1000, 70000), odd = 900; double most = 0;
        for (size_t i = 0; i < len; ++i) {
            double s = drawn(r, o); ++o.phase; o.step((T)(s * o.level));
            double off = std::fabs((double)o.y.back() - (double)o.ry); if (i >= 300 && off > most) { most = off; odd = std::min(len, i + 20); }
        }
        // somewhere, where it is furthest from the section of its own, and its end
        for (size_t at : { (size_t)r.range(300, (int)len), odd, len }) {
            One p; p.ref = o.ref; if (o.lp) p.lp.reset(new dsp::Lpf<T>(*o.lp)); else p.hp.reset(new dsp::Hpf<T>(*o.hp));
            p.x.assign(o.x.begin() + (at - 300), o.x.begin() + at); p.y.assign(o.y.begin() + (at - 300), o.y.begin() + at); p.v.assign(o.v.begin() + (at - 300), o.v.begin() + at); report(p, 1); }
    }
}
