// Requests inside and outside the bounds, for GuardTrace.tla (assertions on).   guard_drv SEED N
#undef NDEBUG
#include "trace.hpp"
#include "dsp/biquad.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/chebyshev-design.hpp"
#include <csignal>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace kv;

// run f in a child: "done" it returned, "stopped" the process was ended by an
// assertion, an exception or exit before that, "harm" anything else, or memory around the object changed
static bool (*intact)() = nullptr;
static void onabort(int) { _exit(intact && !intact() ? 43 : 42); }
template< typename F > std::string attempt(F f) {
    std::fflush(stdout);
    pid_t p = fork();
    if (p < 0) { std::fprintf(stderr, "fork failed\n"); std::exit(3); }
    if (p == 0) {
        std::signal(SIGABRT, onabort); alarm(20);
        if (!std::freopen("/dev/null", "w", stderr) || !std::freopen("/dev/null", "w", stdout)) _exit(44);
        try { f(); } catch (...) { onabort(0); }
        _exit(intact && !intact() ? 43 : 41);
    }
    int s = 0; waitpid(p, &s, 0);
    if (!WIFEXITED(s)) return "harm";
    switch (WEXITSTATUS(s)) { case 41: return "done"; case 43: return "harm"; default: return "stopped"; }
}
template< typename T, int N > struct Boxed { unsigned char before[256]; dsp::BiQuadCascadeT<T,N> c; unsigned char after[256]; };
static const unsigned char * guards[2];
static bool whole() { for (auto g : guards) for (int i = 0; i < 256; ++i) if (g[i] != 0xA5) return false; return true; }
template< typename T > dsp::BiQuadT<T> section(Rng & r) { using B = dsp::BiQuadT<T>; return B(dsp::biquad::BT<T>{ T(r.sym()), T(r.sym()), T(r.sym()) }, dsp::biquad::AT<T>{ T(r.sym()), T(r.sym() / 2) }); }

template< typename T, int N > void cascade(Rng & r, int steps) {
    using B = dsp::BiQuadT<T>;
    auto * b = new Boxed<T,N>; std::memset(b->before, 0xA5, 256); std::memset(b->after, 0xA5, 256);
    guards[0] = b->before; guards[1] = b->after; intact = whole;
    auto & c = b->c; const auto & k = c;
    Line("new").f("cap", N).f("size", (int)c.size());
    volatile double sink = 0;
    auto doit = [&](int op, int i, B const & s) {
        switch (op) {
            case 0: c.append(s); break;
            case 1: c.insert(i, s); break;
            case 2: c.remove(i); break;
            case 3: { B o = c.replace(i, s); (void)o; break; }
            case 4: sink = k.coeff_a(i).a1; break;
            case 5: sink = k.coeff_b(i).b1; break;
            case 6: sink = k.state(i).v1; break;
            case 7: c.clear(); break;
        }
    };
    static const char * name[] = { "append", "insert", "remove", "replace", "coeff_a", "coeff_b", "state", "clear" };
    for (int n = 0; n < steps; ++n) {
        B s = section<T>(r);
        // what would each request do here?
        for (int op = 0; op < 8; ++op) for (int t = 0; t < 3; ++t) {
            int sz = (int)c.size();
            int i = t == 0 ? r.range(-2, N + 2) : t == 1 ? sz : r.range(0, sz > 0 ? sz - 1 : 0);
            if (r.chance(1, 12)) i = r.chance(1, 2) ? 1 << 28 : -(1 << 28);
            if (op == 0 || op == 7) { if (t) continue; i = 0; }
            Line("attempt").f("op", name[op]).f("i", i).f("result", attempt([&] { doit(op, i, s); }));
        }
        // then one that is inside
        int sz = (int)c.size(), op;
        do { op = r.range(0, 4); if (op == 4) op = r.chance(1, 4) ? 7 : 0; } while ((op == 0 && sz == N) || (op == 1 && (sz == 0 || sz == N)) || ((op == 2 || op == 3) && sz == 0));
        int i = sz ? r.range(0, sz - 1) : 0;
        doit(op, i, s);
        Line("edit").f("op", name[op]).f("i", i).f("size", (int)c.size()).f("intact", whole());
    }
    intact = nullptr; delete b;
}
template< typename T > void designs(Rng & r, int n) {
    using dsp::FilterResponse;
    static const FilterResponse kinds[] = { FilterResponse::all_pass, FilterResponse::low_pass, FilterResponse::high_pass, FilterResponse::band_pass, FilterResponse::band_stop, FilterResponse::low_shelf, FilterResponse::high_shelf, FilterResponse::peak_band_eq };
    for (int q = 0; q < n; ++q) {
        int k = r.chance(1, 4) ? r.below(8) : 1 + r.below(2);
        T fs = r.chance(1, 2) ? T(r.range(2, 96) * 500) : T(1 + 20 * r.unit());
        T a = T(fs * (0.01 + 0.2 * r.unit())), b = T(a + fs * (0.02 + 0.2 * r.unit()));
        T pass = k == 2 ? b : a, stop = k == 2 ? a : b;
        T half = fs / 2;
        T beyond[] = { half, fs, std::nextafter(half, T(1e9)), T(fs * 0.75), T(fs * 3) };
        switch (r.below(6)) { case 0: pass = beyond[r.below(5)]; break; case 1: stop = beyond[r.below(5)]; break; case 2: if (k == 2) pass = std::nextafter(half, T(0)); else stop = std::nextafter(half, T(0)); break;
            case 3: pass = stop = half; break; default: break; }
        int type = 1 + r.below(2);
        std::string res = attempt([&] { volatile double sink; if (type == 1) sink = dsp::chebyshev1_lp_hp(kinds[k], fs, pass, stop, T(1), T(20)).size(); else sink = dsp::chebyshev2_lp_hp(kinds[k], fs, pass, stop, T(1), T(20)).size(); (void)sink; });
        Line("design").f("kind", k == 1 ? "low" : k == 2 ? "high" : "other").f("fs", fs).f("fpass", pass).f("fstop", stop).f("result", res);
    }
}
template< int N > void sections(Rng & r) {
    for (int q = 0; q < 6; ++q) {
        dsp::DigitalCoeffT<double> d = dsp::chebyshev2_lp_hp(dsp::FilterResponse::low_pass, 100.0, 10.0, 10.5 + 10 * r.unit() + (q ? 3.0 * q : 0), 1.0, 10.0 + 30 * r.unit());
        std::string res = attempt([&] { volatile int sink = (int)dsp::make_biquad_cascade<N>(d).size(); (void)sink; });
        Line("sections").f("n", (int)d.size()).f("cap", N).f("result", res);
    }
}
int main(int, char ** argv) {
    struct rlimit none { 0, 0 }; setrlimit(RLIMIT_CORE, &none);
    Rng r(std::strtoull(argv[1], 0, 10)); int n = std::atoi(argv[2]);
    cascade<double,1>(r, n / 2); cascade<double,2>(r, n); cascade<double,3>(r, n); cascade<float,4>(r, n); cascade<double,9>(r, 2 * n);
    designs<double>(r, 20 * n); designs<float>(r, 10 * n);
    for (int q = 0; q < n / 8 + 1; ++q) { sections<1>(r); sections<2>(r); sections<3>(r); sections<5>(r); }
}
