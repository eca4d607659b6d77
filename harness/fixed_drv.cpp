// Drives num::fixed_point.  fixed_drv <what> <W> <F> <seed> <size>
//   what: conv | arith | cmp | prog
// W = 8: exhaustive over (a slice of) all operands; 16, 32: boundary and random values
#define KV_FIXED
#include "trace.hpp"
#include <utility>
using namespace kv;
typedef long long ll;
static std::string num_(ll x) { return x >= -2147483647 && x <= 2147483647 ? std::to_string(x) : "\"d:" + std::to_string(x) + '"'; }
struct L : std::vector<ll> { using std::vector<ll>::vector; };
static std::string ints(std::vector<ll> const & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += num_(v[i]); } return r + "]"; }

template< typename R > struct Drv {
    Rng r; int size; int W, FF;
    template< int F > using X = num::fixed_point<R, std::numeric_limits<R>::digits - F>;
    static constexpr ll lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();

    ll pick(int F) {
        ll one = (ll)1 << F;
        switch (r.below(9)) {
            case 0: { ll c[] = { 0, 1, -1, one, -one, one - 1, one + 1, -one + 1, -one - 1, lo, lo + 1, hi, hi - 1, lo / 2, hi / 2, lo / 2 + 1, 2, -2, 3, -3, 2 * one, -2 * one, one / 2, -one / 2 };
                      ll v = c[r.below(sizeof c / sizeof *c)]; return v < lo ? lo : v > hi ? hi : v; }
            case 1: return ll(R(r.next())) >> r.below(W);
            case 2: { ll v = ll(1) << r.below(W - 1); v += r.range(-1, 1); if (r.chance(1, 2)) v = -v; return v < lo ? lo : v > hi ? hi : v; }
            case 3: { ll v = r.range(-40, 40); return v < lo ? lo : v > hi ? hi : v; }
            case 4: { ll k = ll(R(r.next())) / one; return k * one; }               // integers
            default: return ll(R(r.next()));
        }
    }
    template< int F > static X<F> mk(ll v) { return X<F>(X<F>::construct, (R)v); }

    // all pairs for W = 8 (every size-th left operand), otherwise size pairs
    template< typename Fn > void pairs(int F, Fn fn) {
        if (W == 8) {
            int off = r.below(size);
            for (ll a = lo; a <= hi; ++a) {
                if (size > 1 && (a + 1024) % size != off && a != lo && a != hi && a != 0) continue;
                std::vector<std::pair<ll,ll>> p; for (ll b = lo; b <= hi; ++b) p.push_back({ a, b });
                fn(p);
            }
        } else for (int k = 0; k < size; k += 200) {
            std::vector<std::pair<ll,ll>> p;
            for (int i = 0; i < 200; ++i) {
                ll a = pick(F), b = pick(F);
                if (r.chance(1, 4) && b) {          // quotients and products near the range
                    __int128 q = ((__int128)hi << F) / (b < 0 ? -b : b); if (q <= hi) a = (ll)q + r.range(-1, 1);
                    if (r.chance(1, 2)) a = -a;
                    if (r.chance(1, 2)) { __int128 t = ((__int128)a * b) >> F; if (t >= lo && t <= hi) a = (ll)t; }
                    if (a < lo) a = lo; if (a > hi) a = hi;
                }
                p.push_back({ a, b });
            }
            fn(p);
        }
    }
    template< int F > void out(char const * op, std::vector<ll> const & a, std::vector<ll> const & b, std::vector<ll> const & res, std::vector<ll> const & c, bool kept) {
        Line l("row"); l.f("op", op).f("W", W).f("F", F).raw("a", ints(a)).raw("b", ints(b)).raw("r", ints(res)).raw("c", ints(c)).f("kept", kept);
    }
    // op on a, b: binary result, compound result via variable, return value
    template< int F, typename Bin, typename Cmp > void table(char const * op, std::vector<std::pair<ll,ll>> const & p, Bin bin, Cmp cmp) {
        std::vector<ll> a, b, res, c; bool kept = true;
        for (auto & ab : p) {
            if (op[0] == 'd' && ab.second == 0) continue;
            X<F> x = mk<F>(ab.first), y = mk<F>(ab.second);
            X<F> z = bin(x, y);
            kept = kept && x.underlying_value() == ab.first && y.underlying_value() == ab.second;
            X<F> w = cmp(x, y);
            kept = kept && y.underlying_value() == ab.second && w.underlying_value() == x.underlying_value();
            a.push_back(ab.first); b.push_back(ab.second); res.push_back(z.underlying_value()); c.push_back(x.underlying_value());
        }
        out<F>(op, a, b, res, c, kept);
    }
    template< int F > void arith() {
        typedef X<F> x_t;
        pairs(F, [&](auto & p) { table<F>("add", p, [](x_t const & x, x_t const & y) { return x + y; }, [](x_t & x, x_t const & y) { return x += y; }); });
        pairs(F, [&](auto & p) { table<F>("sub", p, [](x_t const & x, x_t const & y) { return x - y; }, [](x_t & x, x_t const & y) { return x -= y; }); });
        pairs(F, [&](auto & p) { table<F>("mul", p, [](x_t const & x, x_t const & y) { return x * y; }, [](x_t & x, x_t const & y) { return x *= y; }); });
        pairs(F, [&](auto & p) { table<F>("div", p, [](x_t const & x, x_t const & y) { return x / y; }, [](x_t & x, x_t const & y) { return x /= y; }); });
        { std::vector<ll> a, n, q; bool kept = true; int cnt = W == 8 ? 256 : 200;
          for (int i = 0; i < cnt; ++i) { ll v = W == 8 ? lo + i : pick(F); X<F> x = mk<F>(v); X<F> y = -x, z = +x; kept = kept && x.underlying_value() == v; a.push_back(v); n.push_back(y.underlying_value()); q.push_back(z.underlying_value()); }
          out<F>("neg", a, a, n, n, kept); out<F>("pos", a, a, q, q, kept); }
        // a number as the other operand
        mix<F, int>([&] { return (int)(pick(F) >> F) ; }); mix<F, double>([&] { return real(F); }); mix<F, float>([&] { return (float)real(F); });
    }
    double real(int F) {
        double v = std::ldexp((double)pick(F), -F);
        switch (r.below(6)) { case 0: return v; case 1: return v + std::ldexp(0.5, -F); case 2: return v - std::ldexp(0.5, -F);
            case 3: return std::nextafter(v + std::ldexp(0.5, -F), r.chance(1, 2) ? 1e9 : -1e9); case 4: return v * r.unit(); default: return v + std::ldexp(r.sym(), -F); }
    }
    // every operand that would overflow is left to the specification; avoid undefined behaviour only
    template< int F > bool sane(double v) { double s = std::ldexp(v, F); return s < (double)hi - 0.5 && s > (double)lo + 0.5; }
    template< int F, typename N, typename G > void mix(G gen) {
        char const * ops[] = { "add", "sub", "mul", "div" };
        for (int o = 0; o < 4; ++o) for (int left = 0; left < 2; ++left) {
            std::vector<ll> a, res; std::string n = "[";
            for (int i = 0; i < 60; ++i) {
                N v = gen(); ll x = pick(F); if (!sane<F>((double)v)) continue;
                X<F> X1 = mk<F>(x);
                if (o == 3 && (left ? x == 0 : X<F>(v).underlying_value() == 0)) continue;
                X<F> z = o == 0 ? (left ? v + X1 : X1 + v) : o == 1 ? (left ? v - X1 : X1 - v) : o == 2 ? (left ? v * X1 : X1 * v) : (left ? v / X1 : X1 / v);
                X<F> w = X1;
                if (!left) { if (o == 0) w += v; else if (o == 1) w -= v; else if (o == 2) w *= v; else w /= v; if (w != z) z = mk<F>(z.underlying_value() ^ 1); }
                if (a.size()) n += ','; n += js((double)v); a.push_back(x); res.push_back(z.underlying_value());
            }
            Line l("mix"); l.f("op", ops[o]).f("W", W).f("F", F).f("left", left == 1).raw("a", ints(a)).raw("n", n + "]").raw("r", ints(res));
        }
    }
    template< typename A, typename B > static int mask(A const & x, B const & y) { return (x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x <= y) + 16 * (x > y) + 32 * (x >= y); }
    template< int F > void cmp() {
        pairs(F, [&](auto & p) {
            std::vector<ll> a, b, res;
            for (auto & ab : p) { ll bb = W != 8 && r.chance(1, 3) ? ab.first + r.range(-1, 1) : ab.second; if (bb < lo) bb = lo; if (bb > hi) bb = hi;
                X<F> const x = mk<F>(ab.first), y = mk<F>(bb);
                int m = mask(x, y);
                a.push_back(ab.first); b.push_back(bb); res.push_back(m); }
            Line l("cmp"); l.f("F", F).raw("a", ints(a)).raw("b", ints(b)).raw("r", ints(res)); });
        cmix<F, int>([&] { return (int)(pick(F) >> F); }); cmix<F, double>([&] { return real(F); }); cmix<F, float>([&] { return (float)real(F); });
        cmix<F, long>([&] { return (long)(pick(F) >> F); });
    }
    template< int F, typename N, typename G > void cmix(G gen) {
        for (int left = 0; left < 2; ++left) {
            std::vector<ll> a, res; std::string n = "[";
            for (int i = 0; i < 120; ++i) {
                N v = gen(); if (!sane<F>((double)v)) continue;
                ll x = r.chance(1, 2) ? pick(F) : (ll)std::ldexp((double)v, F) + r.range(-1, 1); if (x < lo) x = lo; if (x > hi) x = hi;
                X<F> X1 = mk<F>(x);
                int m = left ? mask(v, X1) : mask(X1, v);
                if (a.size()) n += ','; n += js((double)v); a.push_back(x); res.push_back(m);
            }
            Line l("cmpmix"); l.f("W", W).f("F", F).f("left", left == 1).raw("a", ints(a)).raw("n", n + "]").raw("r", ints(res));
        }
    }
    template< int F, typename I > void fromint() {
        std::vector<ll> n, res;
        for (int i = 0; i < (W == 8 ? 300 : 400); ++i) {
            ll v = W == 8 ? i - 150 : pick(F) >> F;
            if (v < (ll)std::numeric_limits<I>::min() || (v > 0 && (unsigned long long)v > (unsigned long long)std::numeric_limits<I>::max())) continue;
            if (v > (hi >> F) || v < (lo >> F)) continue;
            X<F> x((I)v); n.push_back(v); res.push_back(x.underlying_value()); }
        Line l("fromint"); l.f("W", W).f("F", F).raw("n", ints(n)).raw("r", ints(res));
    }
    template< int F, typename N > void fromreal() {
        std::vector<ll> res; std::string n = "[";
        for (int i = 0; i < (W == 8 ? 1100 : 600); ++i) {
            N v = W == 8 ? (N)std::ldexp((double)(i - 550) / 4, -F) : (N)real(F);
            if (i % 7 == 6) v = std::nextafter((N)std::ldexp((N)pick(F) + (N)0.5, -F), r.chance(1, 2) ? (N)1e9 : (N)-1e9);
            if (!sane<F>((double)v)) continue;
            X<F> x(v); if (res.size()) n += ','; n += js(v); res.push_back(x.underlying_value()); }
        Line l("fromreal"); l.f("W", W).f("F", F).raw("n", n + "]").raw("r", ints(res));
    }
    template< int F, typename I > void toint() {
        std::vector<ll> a, res;
        for (int i = 0; i < (W == 8 ? 256 : 300); ++i) { ll v = W == 8 ? lo + i : pick(F);
            X<F> const x = mk<F>(v); a.push_back(v); res.push_back((ll)x.template as<I>()); }
        Line l("toint"); l.f("F", F).raw("a", ints(a)).raw("r", ints(res)).raw("lo", num_((ll)std::numeric_limits<I>::min())).raw("hi", num_(sizeof(I) == 8 ? 9007199254740992ll : (ll)std::numeric_limits<I>::max()));
    }
    template< int F > void conv() {
        fromint<F, int>(); fromint<F, long>(); fromint<F, short>(); fromint<F, signed char>(); fromint<F, unsigned>(); fromint<F, unsigned char>(); fromint<F, long long>();
        fromreal<F, double>(); fromreal<F, float>(); fromreal<F, long double>();
        toint<F, int>(); toint<F, long>(); toint<F, short>(); toint<F, signed char>(); toint<F, unsigned>(); toint<F, long long>();
        std::vector<ll> a, up, tr, fr, ra, rb; std::string d1 = "[", d2 = "[", f1 = "[";
        for (int i = 0; i < (W == 8 ? 256 : 600); ++i) {
            ll v = W == 8 ? lo + i : pick(F); X<F> const x = mk<F>(v);
            a.push_back(v); up.push_back(x.underlying_value()); tr.push_back(num::to_rep< X<F> >()(x)); fr.push_back(num::from_rep< X<F> >()((R)v).underlying_value());
            ra.push_back(X<F>(x.template as<double>()).underlying_value()); rb.push_back(X<F>(x.as_double()).underlying_value());
            if (i) { d1 += ','; d2 += ','; f1 += ','; }
            d1 += js((double)x.template as<double>()); d2 += js((double)x.as_double()); f1 += js((float)x.template as<float>());
        }
        for (auto * v : { &up, &tr, &fr, &ra, &rb }) { Line l("same"); l.raw("n", ints(a)).raw("r", ints(*v)); }
        { Line l("toreal"); l.f("F", F).raw("a", ints(a)).raw("r", d1 + "]"); }
        { Line l("toreal"); l.f("F", F).raw("a", ints(a)).raw("r", d2 + "]"); }
        { Line l("tofloat"); l.f("F", F).raw("a", ints(a)).raw("r", f1 + "]"); }
        X<F> x(0);
        { Line l("limits"); l.f("W", W).f("F", F).raw("min", num_(x.min().underlying_value())).raw("max", num_(x.max().underlying_value()))
            .f("digits", (int)X<F>::digits).f("integer", (int)X<F>::integer_digits).f("fractional", (int)X<F>::fractional_digits); }
    }
    template< int F > void prog() {
        char const * ops[] = { "add", "sub", "mul", "div", "neg", "pos", "set" };
        X<F> v[4];
        for (auto & x : v) x = mk<F>(pick(F));
        auto regs = [&] { std::vector<ll> s; for (auto & x : v) s.push_back(x.underlying_value()); return ints(s); };
        { Line l("regs"); l.raw("r", regs()); }
        for (int k = 0; k < size; ++k) {
            int o = r.below(7), d = r.below(4), i = r.below(4), j = r.below(4); bool comp = r.chance(1, 2);
            if (r.chance(1, 5)) { int t = r.below(4); v[t] = mk<F>(pick(F)); Line l("regs"); l.raw("r", regs()); }
            if (comp) i = d;
            if (o == 3 && v[j].underlying_value() == 0) continue;
            X<F> ret = v[0];
            if (comp) switch (o) {
                case 0: ret = (v[d] += v[j]); break; case 1: ret = (v[d] -= v[j]); break;
                case 2: ret = (v[d] *= v[j]); break; case 3: ret = (v[d] /= v[j]); break;
                case 4: ret = (v[d] = -v[d]); break; case 5: ret = (v[d] = +v[d]); break; case 6: ret = (v[d] = v[j]); break; }
            else switch (o) {
                case 0: ret = (v[d] = v[i] + v[j]); break; case 1: ret = (v[d] = v[i] - v[j]); break;
                case 2: ret = (v[d] = v[i] * v[j]); break; case 3: ret = (v[d] = v[i] / v[j]); break;
                case 4: ret = (v[d] = -v[i]); break; case 5: ret = (v[d] = +v[i]); break; case 6: { X<F> t(v[j]); ret = (v[d] = std::move(t)); break; } }
            Line l("op"); l.f("op", ops[o]).f("W", W).f("F", F).f("d", d + 1).f("i", i + 1).f("j", j + 1).raw("ret", num_(ret.underlying_value())).raw("r", regs());
        }
    }
    template< int F > void go(std::string const & what) {
        if (what == "conv") conv<F>(); if (what == "arith") arith<F>(); if (what == "cmp") cmp<F>(); if (what == "prog") prog<F>();
    }
    template< int... Is > void dispatch(int F, std::string const & what, std::integer_sequence<int, Is...>) { (void)std::initializer_list<int>{ (F == Is ? (go<Is>(what), 0) : 0)... }; }
};
template< typename R > void run(std::string what, int F, uint64_t seed, int size) {
    Drv<R> d{ Rng(seed * 1000 + F), size, (int)sizeof(R) * 8, F };
#if KV_W == 32
    d.dispatch(F, what, std::integer_sequence<int, 0, 1, 5, 8, 15, 16, 20, 23, 24, 29, 30, 31>());
#else
    d.dispatch(F, what, std::make_integer_sequence<int, std::numeric_limits<R>::digits + 1>());
#endif
}
int main(int argc, char ** argv) {
    std::string what = argv[1]; int W = std::atoi(argv[2]), F = std::atoi(argv[3]); uint64_t seed = std::strtoull(argv[4], 0, 10); int size = std::atoi(argv[5]);
#if KV_W == 8
    run<int8_t>(what, F, seed, size);
#elif KV_W == 16
    run<int16_t>(what, F, seed, size);
#else
    run<int32_t>(what, F, seed, size);
#endif
}
