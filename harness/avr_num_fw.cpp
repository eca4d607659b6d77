// Firmware that exercises num::fixed_point, num::matrix and num::kalman on the
// ATmega328P itself and sends a record of what it did to a port, byte by byte;
// avr_num_drv.cpp executes it and turns the records into a trace.
//   -DKV_FX=<bits> -DKV_FRAC=<n> | -DKV_MATRIX -DKV_T=<type> [-DKV_REAL] | -DKV_KALMAN -DKV_T=<type> -DKV_M=<n> -DKV_U=<n>
#ifdef KV_SEQ
#include "std/algorithm.hpp"
#include "std/limits.hpp"
#include "std/utility.hpp"
#include "std/type_traits.hpp"
#include "std/complex.hpp"
#endif
#ifndef KV_SEQ
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
#include "dsp/kalman.hpp"
#endif
#include <stdint.h>
typedef uint8_t u8; typedef int8_t i8; typedef uint16_t u16; typedef int16_t i16; typedef uint32_t u32; typedef int32_t i32; typedef int64_t i64;
inline void * operator new( unsigned int, void * p ) { return p; }

// --- the port ----------------------------------------------------------------
#define PORT (*(u8 volatile *)0xc6)
static void put(u8 c) { PORT = c; }
static void raw(void const * p, u8 n) { for (u8 i = 0; i < n; ++i) put(((u8 const *)p)[i]); }
static void str(char const * s) { while (*s) put(*s++); put(0); }
static void line(char const * ev) { put('L'); str(ev); }
static void end() { put('E'); }
static void key(char const * k) { put('K'); str(k); }
static void val(i32 v) { put('i'); raw(&v, 4); }
static void val(i64 v) { put('q'); raw(&v, 8); }
static void val(u32 v) { val((i64)v); }
static void val(i16 v) { val((i32)v); }
static void val(u16 v) { val((i32)v); }
static void val(i8 v) { val((i32)v); }
static void val(u8 v) { val((i32)v); }
static void val(bool v) { put('b'); put(v); }
static void val(float v) { put('f'); raw(&v, 4); }
static void val(double v) { val((float)v); }
static void val(char const * s) { put('s'); str(s); }
#ifndef KV_SEQ
template< typename R, int I, int F > void val(num::fixed_point<R,I,F> const & v) { i32 x = v.underlying_value(); put('x'); put((u8)F); raw(&x, 4); }
#endif
template< typename T > struct List { T const * p; u8 n; };
template< typename T > void val(List<T> const & l) { put('v'); put(l.n); for (u8 i = 0; i < l.n; ++i) val(l.p[i]); }
#ifndef KV_SEQ
template< typename T, int N, int M > void val(num::matrix<T,N,M> const & m) { put('v'); put((u8)N); for (int i = 0; i < N; ++i) { put('v'); put((u8)M); for (int j = 0; j < M; ++j) val(m.at(i, j)); } }
#endif
static void val(uint64_t v) { put('Q'); raw(&v, 8); }
template< typename V > void f(char const * k, V const & v) { key(k); val(v); }
template< typename T > void f(char const * k, T const * p, u8 n) { key(k); val(List<T>{ p, n }); }
static void done() { put('Z'); asm volatile("break"); for (;;) ; }

// --- random numbers; seed and size come in through the general purpose registers ---
static u32 s0;
static u32 rnd() { s0 ^= s0 << 13; s0 ^= s0 >> 17; s0 ^= s0 << 5; return s0 * 2654435761u; }
static u16 below(u16 n) { return (u16)(rnd() >> 16) % n; }
static bool chance(u16 a, u16 b) { return below(b) < a; }
static i16 range(i16 a, i16 b) { return a + (i16)below((u16)(b - a + 1)); }
static float sym() { return (float)((i32)rnd() >> 8) * (1.0f / 8388608.0f); }
static u16 setup() {
    u32 seed = *(u8 volatile *)0x3e | (u32)*(u8 volatile *)0x4a << 8 | (u32)*(u8 volatile *)0x4b << 16;
    s0 = seed * 2654435761u + 12345; if (s0 == 0) s0 = 1;
    for (u8 i = 0; i < 8; ++i) rnd();
    return *(u8 volatile *)0xbb | (u16)*(u8 volatile *)0xbc << 8;
}

#ifdef KV_FX
// --- fixed point -------------------------------------------------------------
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
typedef CAT(int, KV_FX, _t) R;
constexpr int W = KV_FX, F = KV_FRAC;
using X = num::fixed_point<R, W - 1 - F>;
constexpr i32 hi = W == 32 ? 0x7fffffff : (i32)((1ul << (W - 1)) - 1), lo = -hi - 1;
constexpr i64 one = (i64)1 << F;
static R clamp(i64 v) { return v < lo ? (R)lo : v > hi ? (R)hi : (R)v; }
static R pick() {
    switch (below(8)) {
        case 0: { i64 v = 0; switch (below(14)) { case 0: v = 1; break; case 1: v = -1; break; case 2: v = one; break; case 3: v = -one; break; case 4: v = one - 1; break; case 5: v = one + 1; break; case 6: v = -one - 1; break;
                  case 7: v = lo; break; case 8: v = lo + 1; break; case 9: v = hi; break; case 10: v = hi - 1; break; case 11: v = lo / 2; break; case 12: v = hi / 2 + 1; break; }
                  return clamp(v); }
        case 1: return (R)((R)rnd() >> below(W));
        case 2: { i64 v = ((i64)1 << below(W - 1)) + range(-1, 1); return clamp(chance(1, 2) ? -v : v); }
        case 3: return clamp(range(-40, 40));
        case 4: return clamp((i64)(R)rnd() / one * one);
        default: return (R)(rnd() >> 3);
    }
}
static X mk(R v) { return X(X::construct, v); }
static R rep(X const & x) { return x.underlying_value(); }
constexpr u8 B = 12;
static R a[B], b[B], r[B], c[B]; static u8 mask_[B];
static void row(char const * op, u8 n, bool kept) { line("row"); f("op", op); f("W", (i16)W); f("F", (i16)F); f("a", a, n); f("b", b, n); f("r", r, n); f("c", c, n); f("kept", kept); end(); }
template< typename A, typename C > u8 order(A const & x, C const & y) { return (x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x <= y) + 16 * (x > y) + 32 * (x >= y); }
static void arith() {
    for (u8 o = 0; o < 4; ++o) {
        u8 n = 0; bool kept = true;
        while (n < B) {
            R p = pick(), q = pick();
            if (o == 3 && q == 0) continue;
            if (o > 1 && chance(1, 2)) p = (R)(p >> below(W));
            X x = mk(p); X y = mk(q);
            X z = o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y;
            kept = kept && rep(x) == p && rep(y) == q;
            X w = o == 0 ? (x += y) : o == 1 ? (x -= y) : o == 2 ? (x *= y) : (x /= y);
            kept = kept && rep(y) == q && rep(w) == rep(x);
            a[n] = p; b[n] = q; r[n] = rep(z); c[n] = rep(x); ++n;
        }
        row(o == 0 ? "add" : o == 1 ? "sub" : o == 2 ? "mul" : "div", n, kept);
    }
    for (u8 o = 0; o < 2; ++o) {
        bool kept = true;
        for (u8 n = 0; n < B; ++n) { a[n] = b[n] = pick(); X x = mk(a[n]); X z = o ? +x : -x; r[n] = c[n] = rep(z); kept = kept && rep(x) == a[n]; }
        row(o ? "pos" : "neg", B, kept);
    }
}
static bool fits(float v) { float m = v < 0 ? -v : v; for (u8 k = 0; k < F; ++k) m *= 2; return m < (float)hi * 0.99f; }
static float real() {
    float v = (float)pick(); for (u8 k = 0; k < F; ++k) v *= 0.5f;
    float q = 0.5f; for (u8 k = 0; k < F; ++k) q *= 0.5f;
    switch (below(5)) { case 0: return v; case 1: return v + q; case 2: return v - q; case 3: return v * sym(); default: return v + sym() * 2 * q; }
}
template< typename N > N number();
template<> i16 number<i16>() { for (;;) { i64 v = pick() >> F; if (v >= -32768 && v <= 32767) return (i16)v; } }
template<> i8 number<i8>() { return (i8)clamp(pick() >> F) % 100; }
template<> i32 number<i32>() { return (i32)(pick() >> F); }
template<> float number<float>() { return real(); }
template< typename N > bool sane(N v) { return v <= (hi >> F) && v >= (lo >> F); }
template<> bool sane<float>(float v) { return fits(v); }
template< typename N > void mix() {
    N v[B];
    for (u8 o = 0; o < 4; ++o) for (u8 left = 0; left < 2; ++left) {
        u8 n = 0;
        for (u8 k = 0; k < B; ++k) {
            v[n] = number<N>(); a[n] = pick(); if (!sane(v[n])) continue;
            X x = mk(a[n]);
            if (o == 3 && (left ? a[n] == 0 : rep(X(v[n])) == 0)) continue;
            X z = o == 0 ? (left ? v[n] + x : x + v[n]) : o == 1 ? (left ? v[n] - x : x - v[n]) : o == 2 ? (left ? v[n] * x : x * v[n]) : (left ? v[n] / x : x / v[n]);
            r[n] = rep(z); ++n;
        }
        line("mix"); f("op", o == 0 ? "add" : o == 1 ? "sub" : o == 2 ? "mul" : "div"); f("W", (i16)W); f("F", (i16)F); f("left", left == 1); f("a", a, n); f("n", v, n); f("r", r, n); end();
    }
    for (u8 left = 0; left < 2; ++left) {
        u8 n = 0;
        for (u8 k = 0; k < B; ++k) {
            v[n] = number<N>(); if (!sane(v[n])) continue;
            a[n] = chance(1, 2) ? pick() : clamp((i64)rep(X(v[n])) + range(-1, 1));
            X x = mk(a[n]); mask_[n] = left ? order(v[n], x) : order(x, v[n]); ++n;
        }
        line("cmpmix"); f("W", (i16)W); f("F", (i16)F); f("left", left == 1); f("a", a, n); f("n", v, n); f("r", mask_, n); end();
    }
}
static void compare() {
    for (u8 n = 0; n < B; ++n) { a[n] = pick(); b[n] = chance(1, 3) ? clamp((i64)a[n] + range(-1, 1)) : pick(); X const x = mk(a[n]), y = mk(b[n]); mask_[n] = order(x, y); }
    line("cmp"); f("F", (i16)F); f("a", a, B); f("b", b, B); f("r", mask_, B); end();
}
template< typename I > void fromint(I mn, I mx) {
    I v[B]; u8 n = 0;
    for (u8 k = 0; k < B; ++k) { i32 w = (i32)(pick() >> F); if ((i64)w < (i64)mn || (i64)w > (i64)mx) continue; v[n] = (I)w; X x(v[n]); r[n] = rep(x); ++n; }
    line("fromint"); f("W", (i16)W); f("F", (i16)F); f("n", v, n); f("r", r, n); end();
}
template< typename I > void toint(I mn, I mx) {
    I v[B];
    for (u8 k = 0; k < B; ++k) { a[k] = pick(); X const x = mk(a[k]); v[k] = x.template as<I>(); }
    line("toint"); f("F", (i16)F); f("a", a, B); f("r", v, B); f("lo", mn); f("hi", mx); end();
}
static void conversions() {
    fromint<i8>(-128, 127); fromint<u8>(0, 255); fromint<i16>(-32768, 32767); fromint<u16>(0, 65535); fromint<i32>(-2147483647 - 1, 2147483647); fromint<i64>(-4294967296, 4294967296);
    toint<i8>(-128, 127); toint<u8>(0, 255); toint<i16>(-32768, 32767); toint<u16>(0, 65535); toint<i32>(-2147483647 - 1, 2147483647); toint<i64>(-4294967296, 4294967296);
    float v[B]; u8 n = 0;
    for (u8 k = 0; k < B; ++k) { v[n] = real(); if (!fits(v[n])) continue; r[n] = rep(X(v[n])); ++n; }
    line("fromreal"); f("W", (i16)W); f("F", (i16)F); f("n", v, n); f("r", r, n); end();
    n = 0; double w[B];
    for (u8 k = 0; k < B; ++k) { w[n] = real(); if (!fits(w[n])) continue; r[n] = rep(X(w[n])); ++n; }
    line("fromreal"); f("W", (i16)W); f("F", (i16)F); f("n", w, n); f("r", r, n); end();
    for (u8 t = 0; t < 3; ++t) {
        for (u8 k = 0; k < B; ++k) { a[k] = pick(); X const x = mk(a[k]); v[k] = t == 0 ? x.template as<float>() : t == 1 ? (float)x.template as<double>() : (float)x.as_double(); }
        line("tofloat"); f("F", (i16)F); f("a", a, B); f("r", v, B); end();
    }
    for (u8 t = 0; t < 3; ++t) {
        for (u8 k = 0; k < B; ++k) { a[k] = pick(); r[k] = t == 0 ? rep(mk(a[k])) : t == 1 ? num::to_rep<X>()(mk(a[k])) : rep(num::from_rep<X>()(a[k])); }
        line("same"); f("n", a, B); f("r", r, B); end();
    }
    X x(0);
    line("limits"); f("W", (i16)W); f("F", (i16)F); f("min", rep(x.min())); f("max", rep(x.max())); f("digits", (i16)X::digits); f("integer", (i16)X::integer_digits); f("fractional", (i16)X::fractional_digits); end();
}
static void program(u16 size) {
    X v[4]; R s[4];
    auto regs = [&] { for (u8 i = 0; i < 4; ++i) s[i] = rep(v[i]); };
    for (auto & x : v) x = mk(pick());
    regs(); line("regs"); f("r", s, 4); end();
    for (u16 k = 0; k < size; ++k) {
        u8 o = below(7), d = below(4), i = below(4), j = below(4); bool comp = chance(1, 2);
        if (chance(1, 5)) { v[below(4)] = mk(pick()); regs(); line("regs"); f("r", s, 4); end(); }
        if (comp) i = d;
        if (o == 3 && rep(v[j]) == 0) continue;
        X ret = v[0];
        if (comp) switch (o) {
            case 0: ret = (v[d] += v[j]); break; case 1: ret = (v[d] -= v[j]); break; case 2: ret = (v[d] *= v[j]); break; case 3: ret = (v[d] /= v[j]); break;
            case 4: ret = (v[d] = -v[d]); break; case 5: ret = (v[d] = +v[d]); break; case 6: ret = (v[d] = v[j]); break; }
        else switch (o) {
            case 0: ret = (v[d] = v[i] + v[j]); break; case 1: ret = (v[d] = v[i] - v[j]); break; case 2: ret = (v[d] = v[i] * v[j]); break; case 3: ret = (v[d] = v[i] / v[j]); break;
            case 4: ret = (v[d] = -v[i]); break; case 5: ret = (v[d] = +v[i]); break; case 6: { X t(v[j]); ret = (v[d] = std20::move(t)); break; } }
        regs();
        line("op"); f("op", o == 0 ? "add" : o == 1 ? "sub" : o == 2 ? "mul" : o == 3 ? "div" : o == 4 ? "neg" : o == 5 ? "pos" : "set");
        f("W", (i16)W); f("F", (i16)F); f("d", (u8)(d + 1)); f("i", (u8)(i + 1)); f("j", (u8)(j + 1)); f("ret", rep(ret)); f("r", s, 4); end();
    }
}
int main() {
    u16 n = setup(); u8 what = *(u8 volatile *)0xb8;
    for (u16 k = 0; k < n; ++k) {
        if (what == 0) conversions();
        if (what == 1) { arith(); mix<i16>(); mix<float>(); if (W == 32) mix<i32>(); if (k % 8 == 0) program(20); }
        if (what == 2) { for (u8 i = 0; i < 4; ++i) compare(); mix<i16>(); mix<float>(); }
    }
    done();
}
#endif

#ifdef KV_SEQ
// --- algorithms and the stand-ins for the standard library --------------------
constexpr u8 MAXLEN = 14;
static i16 sm[MAXLEN + 4], dm[MAXLEN + 8], s_[MAXLEN + 4], d_[MAXLEN + 8];
template< typename T > void back(T const * p, i16 * q, u8 n) { for (u8 i = 0; i < n; ++i) q[i] = (i16)p[i]; }
template< typename T > void forth(i16 const * p, T * q, u8 n) { for (u8 i = 0; i < n; ++i) q[i] = (T)p[i]; }
static void made(u8 n, i16 * p, i16 m) { for (u8 i = 0; i < n; ++i) p[i] = range(-m, m); }
template< typename S, typename D > __attribute__((noinline)) void copied(u8 n, u8 i, u8 j, u8 k, u8 m) {
    static S a[MAXLEN + 4]; static D d[MAXLEN + 8];
    forth(sm, a, n); forth(dm, d, m);
    D * e = std20::copy((S const *)a + i, (S const *)a + j, d + k);
    back(a, s_, n); back(d, d_, m);
    line("copy"); f("s", sm, n); f("i", i); f("j", j); f("k", k); f("d0", dm, m); f("d1", d_, m); f("s1", s_, n); f("ret", (i16)(e - d)); f("same", false); end();
}
template< typename T > __attribute__((noinline)) void within(u8 n, u8 i, u8 j, u8 k) {
    static T a[MAXLEN + 4]; forth(sm, a, n);
    T * e = std20::copy(a + i, a + j, a + k); back(a, s_, n);
    line("copy"); f("s", sm, n); f("i", i); f("j", j); f("k", k); f("d0", sm, n); f("d1", s_, n); f("s1", s_, n); f("ret", (i16)(e - a)); f("same", true); end();
}
template< typename T > __attribute__((noinline)) void filled(u8 m, u8 i, u8 j, i16 v) {
    static T d[MAXLEN + 8]; forth(dm, d, m); T x = (T)v; std20::fill(d + i, d + j, x); back(d, d_, m);
    line("fill"); f("d0", dm, m); f("i", i); f("j", j); f("v", v); f("d1", d_, m); end();
}
template< typename S, typename D > __attribute__((noinline)) void compared(u8 n, u8 i, u8 j, u8 k, u8 m) {
    static S a[MAXLEN + 4]; static D d[MAXLEN + 8]; forth(sm, a, n); forth(dm, d, m); bool r; u8 p = below(6);
    switch (p) {
        case 0: r = std20::equal(a + i, a + j, d + k); break;
        case 1: r = std20::equal(a + i, a + j, d + k, [](S const & x, D const & y) { return x < y; }); break;
        case 2: r = std20::equal(a + i, a + j, d + k, [](S const & x, D const & y) { return x >= y; }); break;
        case 3: r = std20::equal(a + i, a + j, d + k, [](S const &, D const &) { return 7; }); break;
        case 4: r = std20::equal(a + i, a + j, d + k, [](S const &, D const &) { return false; }); break;
        default: r = std20::equal(a + i, a + j, d + k, [](S const & x, D const & y) { S t = x > y ? x - y : y - x; return t <= 1; });
    }
    back(a, s_, n); back(d, d_, m);
    line("equal"); f("s", sm, n); f("i", i); f("j", j); f("k", k); f("p", p == 0 ? "eq" : p == 1 ? "lt" : p == 2 ? "ge" : p == 3 ? "any" : p == 4 ? "none" : "near"); f("d0", dm, m); f("d1", d_, m); f("s1", s_, n); f("ret", r); end();
}
struct Owner {      // moves leave nothing behind
    i16 v; explicit Owner(i16 x) : v(x) {} Owner(Owner && o) : v(o.v) { o.v = 0; } Owner & operator=(Owner && o) { v = o.v; o.v = 0; return *this; }
    operator i16() const { return v; }
};
template< typename T > void swapped() {
    i16 a0 = range(-60, 60), b0 = range(-60, 60); T a((T)a0), b((T)b0); std20::swap(a, b);
    line("swap"); f("a0", a0); f("b0", b0); f("a1", (i16)a); f("b1", (i16)b); end();
}
static void swappedOwners() {
    i16 a0 = range(-60, 60), b0 = range(-60, 60); Owner a(a0), b(b0); std20::swap(a, b);
    line("swap"); f("a0", a0); f("b0", b0); f("a1", (i16)a); f("b1", (i16)b); end();
    Owner c(a0); i16 was = c; Owner d(std20::move(c));
    line("swap"); f("a0", was); f("b0", (i16)0); f("a1", (i16)c); f("b1", (i16)d); end();
}
template< typename T > void listed(i16 n, std::initializer_list<T> il) {
    u8 k = 0; for (auto const & x : il) { if (k >= MAXLEN) break; d_[k++] = (i16)x; }
    line("il"); f("n", n); f("v", d_, k); f("size", (i16)il.size()); f("dist", (i16)(il.end() - il.begin())); f("b", std::begin(il) == il.begin() && std::end(il) == il.end()); end();
}
template< typename T > void limits(u8 bits, bool sign) {
    using L = std20::numeric_limits<T>;
    line("limits"); f("bits", bits); f("sign", sign); f("min", L::min()); f("max", L::max()); f("digits", (i16)L::digits); f("signed", bool(L::is_signed)); f("integer", bool(L::is_integer)); end();
}
// what a type is, as far as T is concerned: 1 const, 2 volatile, 4 lvalue, 8 rvalue reference
template< typename T, typename X > struct Shape { static constexpr u8 v = 99; };
template< typename T > struct Shape<T, T> { static constexpr u8 v = 0; };
template< typename T > struct Shape<T, T const> { static constexpr u8 v = 1; };
template< typename T > struct Shape<T, T volatile> { static constexpr u8 v = 2; };
template< typename T > struct Shape<T, T const volatile> { static constexpr u8 v = 3; };
template< typename T, typename X > struct Shape<T, X &> { static constexpr u8 v = 4 + Shape<T, X>::v; };
template< typename T, typename X > struct Shape<T, X &&> { static constexpr u8 v = 8 + Shape<T, X>::v; };
template< typename T, typename X > __attribute__((noinline)) void stripped() {
    i16 r[] = { Shape<T, typename std20::remove_reference<X>::type>::v, Shape<T, typename std20::remove_const<X>::type>::v, Shape<T, typename std20::remove_volatile<X>::type>::v, Shape<T, typename std20::remove_cv<X>::type>::v };
    i16 t[] = { Shape<T, std20::remove_reference_t<X>>::v, Shape<T, std20::remove_const_t<X>>::v, Shape<T, std20::remove_volatile_t<X>>::v, Shape<T, std20::remove_cv_t<X>>::v };
    line("strip"); f("x", (i16)Shape<T, X>::v); f("r", r, 4); f("t", t, 4); f("same", bool(std20::is_same_v<T, X>)); f("same2", bool(std20::is_same<X, T>::value)); end();
}
template< typename T > void strips() {
    stripped<T, T>(); stripped<T, T const>(); stripped<T, T volatile>(); stripped<T, T const volatile>();
    stripped<T, T &>(); stripped<T, T const &>(); stripped<T, T volatile &>(); stripped<T, T const volatile &>();
    stripped<T, T &&>(); stripped<T, T const &&>(); stripped<T, T volatile &&>(); stripped<T, T const volatile &&>();
}
template< typename T > std20::enable_if_t< std20::is_integral_v<T>, u8 > chosen(T) { return 1; }
template< typename T > typename std20::enable_if< ! std20::is_integral<T>::value, u8 >::type chosen(T) { return 2; }
template< typename T > void traits(bool integral, bool sign) {
    line("traits"); f("integral", integral); f("sign", sign);
    f("i", bool(std20::is_integral<T>::value)); f("iv", bool(std20::is_integral_v<T>)); f("it", bool(std20::is_integral<T>())); f("s", bool(std20::is_signed<T>::value)); f("sv", bool(std20::is_signed_v<T>)); f("chosen", (i16)chosen(T()));
    f("c", (i16)std20::integral_constant<i8, -5>::value); f("d", (i16)std20::integral_constant<i8, 7>()()); f("void", (i16)Shape<void, std20::enable_if_t<true>>::v); end();
}
template< typename T > void pairs() {
    i16 a = range(-99, 99), b = range(-99, 99), c = range(-99, 99), d = range(-99, 99);
    typedef std20::complex<T> C;
    C z0; C z1((T)a); C const z2((T)a, (T)b); C z3(z2); C z4((T)c, (T)d), z5 = z4; C z6((T)c, (T)d); std20::complex<double> w((T)c, (T)d); C z8;
    C const & r4 = (z4 = z2); C const & r5 = (z5 = (T)c); z6.real((T)a); z6.imag((T)b); C z7 = z2; z7.real(z7.imag()); C const & r8 = (z8 = w); C z9(w);
    i16 re[] = { (i16)z0.real(), (i16)z1.real(), (i16)z2.real(), (i16)z3.real(), (i16)r4.real(), (i16)r5.real(), (i16)z6.real(), (i16)z7.real(), (i16)r8.real(), (i16)z9.real() };
    i16 im[] = { (i16)z0.imag(), (i16)z1.imag(), (i16)z2.imag(), (i16)z3.imag(), (i16)r4.imag(), (i16)r5.imag(), (i16)z6.imag(), (i16)z7.imag(), (i16)r8.imag(), (i16)z9.imag() };
    line("complex"); f("a", a); f("b", b); f("c", c); f("d", d); f("re", re, 10); f("im", im, 10); f("kept", (i16)z2.real() == a && (i16)z2.imag() == b); end();
}
int main() {
    u16 n = setup();
    limits<i8>(8, true); limits<u8>(8, false); limits<i16>(16, true); limits<u16>(16, false); limits<i32>(32, true); limits<u32>(32, false); limits<i64>(64, true); limits<uint64_t>(64, false);
    traits<i8>(true, true); traits<u8>(true, false); traits<i16>(true, true); traits<u16>(true, false); traits<i32>(true, true); traits<u32>(true, false); traits<i64>(true, true); traits<uint64_t>(true, false); traits<float>(false, true); traits<double>(false, true);
    strips<i16>(); strips<u8>(); strips<float>(); strips<Owner>();
    listed<i16>(0, {}); listed<i16>(1, { 1 }); listed<i8>(2, { 1, 2 }); listed<float>(3, { 1, 2, 3 }); listed<i32>(5, { 1, 2, 3, 4, 5 }); listed<i16>(0, std::initializer_list<i16>()); listed<i8>(13, { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 });
    for (u16 x = 0; x < n; ++x) {
        u8 a = below(MAXLEN + 1); u8 i = below(a + 1); u8 j = i + below(a - i + 1); u8 k = below(4); u8 m = k + j - i + below(4);
        made(a, sm, 60); made(m, dm, 60);
        switch (below(5)) { case 0: copied<i16,i16>(a, i, j, k, m); break; case 1: copied<i8,i32>(a, i, j, k, m); break; case 2: copied<float,float>(a, i, j, k, m); break; case 3: copied<i32,i8>(a, i, j, k, m); break; default: copied<i8,float>(a, i, j, k, m); }
        if (chance(1, 2)) { u8 t = below(i + 1); switch (below(3)) { case 0: within<i16>(a, i, j, t); break; case 1: within<i8>(a, i, j, t); break; default: within<float>(a, i, j, t); } }
        { u8 p = below(m + 1), q = p + below(m - p + 1); switch (below(4)) { case 0: filled<i16>(m, p, q, range(-60, 60)); break; case 1: filled<i8>(m, p, q, range(-60, 60)); break; case 2: filled<i64>(m, p, q, range(-60, 60)); break; default: filled<float>(m, p, q, range(-60, 60)); } }
        made(a, sm, 1); made(m, dm, 1); if (chance(3, 4)) { for (u8 q = i; q < j; ++q) dm[k + q - i] = sm[q]; if (i < j && chance(1, 2)) ++dm[k + below(j - i)]; }
        switch (below(4)) { case 0: compared<i16,i16>(a, i, j, k, m); break; case 1: compared<i8,i32>(a, i, j, k, m); break; case 2: compared<float,float>(a, i, j, k, m); break; default: compared<i32,i8>(a, i, j, k, m); }
        swapped<i8>(); swapped<i16>(); swapped<float>(); swapped<i64>(); swappedOwners();
        if (x % 4 == 0) { pairs<float>(); pairs<i16>(); }
    }
    done();
}
#endif

#ifdef KV_MATRIX
// --- matrix ------------------------------------------------------------------
typedef KV_T T;
template< int N, int M > using Mat = num::matrix<T,N,M>;
#ifdef KV_REAL
static T any() { if (chance(1, 10)) return T(0); T v = T(sym()); if (chance(1, 4)) for (u8 k = below(10); k; --k) v *= 2; return v; }
#else
static T any() { return T(range(-40, 40)); }
#endif
template< int N, int M > Mat<N,M> random() { Mat<N,M> m(T(0)); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) m.at(i, j) = any(); return m; }
static void shown(T const & v) { put('v'); put(1); put('v'); put(1); val(v); }
template< int N, int M > void shown(Mat<N,M> const & m) { val(m); }
template< typename A, typename B, typename Z > __attribute__((noinline)) void alg(char const * op, A const & a0, B const & b0, A const & a, B const & b, Z const & x) {
    line("alg"); f("op", op); key("a"); shown(a0); key("b"); shown(b0); key("a2"); shown(a); key("b2"); shown(b); key("r"); shown(x); end();
}
#define ALG(op, x, y, expr) do { auto a = x; auto b = y; auto const a0 = a; auto const b0 = b; auto res = expr; alg(op, a0, b0, a, b, res); } while (0)
template< int N, int M > __attribute__((noinline)) void elementwise() {
    auto X = random<N,M>(); auto Y = random<N,M>(); T v = any(); Mat<1,1> v1(any());
    ALG("add", X, Y, a + b); ALG("sub", X, Y, a - b);
    ALG("adds", X, v, a + b); ALG("adds", X, v, b + a); ALG("subs", X, v, a - b); ALG("muls", X, v, a * b); ALG("muls", X, v, b * a);
    if constexpr (N == 1 && M == 1) { ALG("rsubs", X, v, b - a); }
    if constexpr (!(N == 1 && M == 1)) { ALG("muls", X, v1, a * b); ALG("muls", X, v1, b * a); ALG("adds", X, v1, a + b); ALG("adds", X, v1, b + a); }
}
template< int N, int M, int L > __attribute__((noinline)) void product() { auto X = random<N,M>(); auto Y = random<M,L>(); ALG("mul", X, Y, a * b); if constexpr (N == M && M == L) ALG("mul", X, X, a * a); }
template< int N > void vecs() {
    auto c = random<N,1>(); auto w = random<1,N>();
    ALG("transposed", c, T(0), num::transposed(a)); ALG("transposed", w, T(0), num::transposed(a));
    line("twice"); f("a", c); f("r", num::transposed(num::transposed(c))); end();
    line("twice"); f("a", w); f("r", num::transposed(num::transposed(w))); end();
}
static void inverses() {
    line("inv0"); f("r", num::inverted(T(0))); end();
    vecs<2>(); vecs<3>(); vecs<5>();
    { auto m = random<2,2>(); ALG("transposed", m, T(0), num::transposed(a)); line("twice"); f("a", m); f("r", num::transposed(num::transposed(m))); end(); }
#ifdef KV_REAL
    for (u8 k = 0; k < 6; ++k) {
        T v = any(); if (v != T(0)) { T w = num::inverted(v); line("inv"); key("a"); shown(v); key("r"); shown(w); key("a2"); shown(v); end(); }
        auto m = random<2,2>(); u8 kind = below(4);
        if (kind == 0) m(0, 1) = m(1, 0);
        if (kind == 1) m(0, 1) = m(1, 0) = T(0);
        if (m(0) * m(3) - m(1) * m(2) != T(0)) { auto m0 = m; auto x = num::inverted(m); line("inv"); f("a", m0); f("r", x); f("a2", m); end(); }
    }
#endif
}
template< int N, int M > __attribute__((noinline)) void look(u8 id, Mat<N,M> & m) {
    Mat<N,M> const & c = m;
    line("look"); f("id", id); key("now"); put('O');
    f("rows", (i16)c.rows()); f("cols", (i16)c.columns()); f("size", (i16)c.size());
    key("rc"); put('v'); put((u8)N); for (int i = 0; i < N; ++i) { put('v'); put((u8)M); for (int j = 0; j < M; ++j) val(chance(1, 2) ? (chance(1, 2) ? m.at(i, j) : c.at(i, j)) : (chance(1, 2) ? m(i, j) : c(i, j))); }
    key("flat"); put('v'); put((u8)(N * M)); for (int k = 0; k < N * M; ++k) val(chance(1, 2) ? m.at(k) : c.at(k));
    key("call"); put('v'); put((u8)(N * M)); for (int k = 0; k < N * M; ++k) val(chance(1, 2) ? m(k) : c(k));
    key("sub");  put('v'); put((u8)(N * M)); for (int k = 0; k < N * M; ++k) val(chance(1, 2) ? m[k] : c[k]);
    key("iter"); put('v'); put((u8)(m.end() - m.begin())); for (auto p = m.begin(); p != m.end(); ++p) val(*p);
    key("citer"); put('v'); put((u8)(c.end() - c.begin())); for (auto const & v : c) val(v);
    put('P'); end();
}
template< int N, int M > __attribute__((noinline)) void store(u16 steps) {
    line("session"); end();
    typedef Mat<N,M> X;
    X box[3]; bool live[3] = { false, false, false };
    for (u16 s = 0; s < steps; ++s) {
        u8 i = below(3), j = below(3), op = below(11); X & m = box[i];
        if (!live[i]) op = below(4);
        if ((op == 3 || op == 4 || op == 5) && !live[j]) op = 0;
        T v = any(); u8 row = below(N), col = below(M), k = below(N * M);
        switch (op) {
            case 0: m = X(v); line("fill"); f("id", i); f("n", (u8)N); f("m", (u8)M); f("v", v); end(); break;
            case 1: { T l[3] = { any(), any(), any() }; u8 n = N * M < 3 ? N * M : range(1, 3);
                      if (n == 1) m = X{ l[0] }; else if (n == 2) m = X{ l[0], l[1] }; else m = X{ l[0], l[1], l[2] };
                      line("list"); f("id", i); f("n", (u8)N); f("m", (u8)M); f("s", l, n); end(); break; }
            case 2: if constexpr (N == M) { m = num::eye<T,N>(); line("eye"); f("id", i); f("n", (u8)N); end(); } else { m = X(v); line("fill"); f("id", i); f("n", (u8)N); f("m", (u8)M); f("v", v); end(); } break;
            case 3: m = box[j]; line("copy"); f("id", i); f("from", j); end(); break;
            case 4: { X t(box[j]); m = std20::move(t); line("copy"); f("id", i); f("from", j); end(); break; }
            case 5: { X t(box[j]); if (chance(1, 2)) t.at(0) = any(); else for (auto & e : t) e = T(3); look(j, box[j]); m = box[j]; line("copy"); f("id", i); f("from", j); end(); break; }
            case 6: if (chance(1, 2)) m.at(row, col) = v; else m(row, col) = v; line("write"); f("id", i); f("row", (u8)(row + 1)); f("col", (u8)(col + 1)); f("v", v); end(); break;
            case 7: m.at(k) = v; line("wflat"); f("id", i); f("k", k); f("v", v); end(); break;
            case 8: m[k] = v; line("wflat"); f("id", i); f("k", k); f("v", v); end(); break;
            case 9: m(k) = v; line("wflat"); f("id", i); f("k", k); f("v", v); end(); break;
            case 10: *(m.begin() + k) = v; line("wflat"); f("id", i); f("k", k); f("v", v); end(); break;
        }
        live[i] = true;
        for (u8 q = 0; q < 3; ++q) if (live[q] && (q == i || chance(1, 3))) look(q, box[q]);
    }
}
int main() {
    u16 n = setup(); u8 what = *(u8 volatile *)0xb8;
    for (u16 k = 0; k < n; ++k) {
        if (what == 0) { elementwise<1,1>(); elementwise<2,2>(); elementwise<2,3>(); elementwise<3,1>(); elementwise<1,4>(); product<2,2,2>(); product<1,2,1>(); product<2,1,2>(); product<2,2,1>(); product<1,2,2>(); product<2,3,1>(); product<3,2,3>(); product<1,1,1>(); product<1,3,2>(); product<4,1,4>(); product<3,3,3>(); product<1,5,1>(); product<2,1,3>(); }
        if (what == 1) { store<2,2>(12); store<2,1>(12); store<1,3>(12); store<2,3>(12); store<3,2>(12); store<3,3>(10); store<1,1>(10); }
        if (what == 2) inverses();
    }
    done();
}
#endif

#ifdef KV_KALMAN
// --- estimator ---------------------------------------------------------------
typedef KV_T T; constexpr int M = KV_M, U = KV_U;
using K = num::kalman<T,2,M,U>;
constexpr u8 MAX = 3;
alignas(8) static u8 mem[MAX][sizeof(K)];
static K * est[MAX]; static bool updated[MAX];
template< typename V > struct Num;
template<> struct Num<float> {
    static float any() { if (chance(1, 10)) return 0; if (chance(1, 12)) return 1; float v = sym(); if (chance(1, 8)) for (u8 k = below(12); k; --k) v *= 0.5f; return v; }
    static float pos() { return any(); }
    static float least() { return 0.0625f; }
    static float step() { float v = (float)range(1, 63); for (u8 k = below(6); k; --k) v *= 0.5f; return v; }
};
template< typename R, int I, int F > struct Num< num::fixed_point<R,I,F> > {
    typedef num::fixed_point<R,I,F> X;
    static X any() { if (chance(1, 10)) return X(0); if (chance(1, 12)) return X(1); X v(X::construct, (R)((i32)rnd() >> (31 - F))); if (chance(1, 8)) v = v * X(3); return v; }
    static X least() { return X(X::construct, (R)(((i32)1 << F) / 3)); }
    static X step() { return X(X::construct, (R)range(1, 63)); }
};
static T any() { return Num<T>::any(); }
static T abs_(T v) { return v < T(0) ? -v : v; }
template< int N, int L > num::matrix<T,N,L> random() { num::matrix<T,N,L> m(T(0)); for (auto & v : m) v = any(); return m; }
// symmetric and positive (semi-)definite: the off-diagonal element is less than the smaller diagonal one
template< int N > num::matrix<T,N,N> cov(bool pd) {
    num::matrix<T,N,N> m(T(0));
    T a = abs_(any()), b = abs_(any());
    if (pd) { a += Num<T>::least(); b += Num<T>::least(); }
    if (N == 1) { m(0) = a; return m; }
    m(0) = a; m(N * N - 1) = b;
    T c = a < b ? a : b; T h(0.5);
    switch (below(4)) { case 0: c = T(0); break; case 1: c = c * h; break; case 2: c = -( c * h * h ); break; default: c = c * h * h + c * h; }
    m(0, N - 1) = m(N - 1, 0) = c;
    return m;
}
static void fields(u8 id) {
    K const & k = *est[id];
    f("x", k.system_state()); f("P", k.estimation_error_covariance()); if (updated[id]) f("K", k.kalman_gain()); f("t", k.time()); end();
}
static void create(u8 id) {
    K::A_t A = random<2,2>(); if (chance(1, 4)) { A(0) = A(3) = T(1); A(2) = T(0); A(1) = T(0.125); }
    T mx(0); for (auto & v : A) if (abs_(v) > mx) mx = abs_(v);
    if (mx > T(1)) for (auto & v : A) v = v / mx;
    if (chance(2, 3)) for (auto & v : A) v = v * T(0.625);
    K::B_t B = random<2,U>(); K::H_t H = random<M,2>();
    if (chance(1, 4)) { for (auto & h : H) h = T(0); H(0, 0) = T(1); if (M == 2) H(M - 1, 1) = T(1); }
    K::Q_t Q = cov<2>(false); K::R_t R = cov<M>(true); K::P_t P = cov<2>(false); K::xhat_t x = random<2,1>(); T dt = Num<T>::step();
    est[id] = new ( mem[id] ) K( dt, A, B, H, Q, R, P, x ); updated[id] = false;
    line("new"); f("id", id); f("A", A); f("B", B); f("H", H); f("Q", Q); f("R", R); f("P0", P); f("x0", x); f("dt", dt); fields(id);
}
static void update(u8 id) {
    K::u_t u = random<U,1>(); K::z_t z = random<M,1>(); K::u_t u0 = u; K::z_t z0 = z;
    est[id]->update( u, z ); updated[id] = true;
    line("upd"); f("id", id); f("u", u0); f("z", z0); f("ua", u); f("za", z); fields(id);
}
int main() {
    u16 n = setup(); u8 steps = *(u8 volatile *)0xb8;
    for (u16 k = 0; k < n; ++k) {
        line("session"); f("M", (u8)M); f("U", (u8)U); f("style", (u8)0); end();
        u8 live = 1; create(0);
        for (u8 s = 0; s < steps; ++s) {
            u8 i = below(live), c = below(16);
            if (c == 0 && live < MAX) { create(live); ++live; }
            else if (c == 1 && live < MAX) { est[live] = new ( mem[live] ) K( *est[i] ); updated[live] = updated[i]; line("copy"); f("id", live); f("from", i); fields(live); ++live; }
            else update(i);
            u8 q = below(live); if (chance(1, 4)) { line("obs"); f("id", q); fields(q); }
        }
    }
    done();
}
#endif
