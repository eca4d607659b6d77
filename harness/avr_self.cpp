// Functions with known results, compiled both for the host and for the AVR, to
// check the instruction simulator against the host.
#include <stdint.h>
#ifdef __AVR__
#define FN extern "C" __attribute__((noinline, used))
#else
#define FN static
#endif
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int8_t i8; typedef int16_t i16; typedef int32_t i32;
// arguments a: r25:r24, b: r23:r22; result in r25..r22
#define LIST(X) \
 X(0, (u32)(u16)(a + b)) X(1, (u32)(u16)(a - b)) X(2, (u32)a * b) X(3, (u32)((i32)(i16)a * (i16)b)) X(4, b ? a / b : 7u) X(5, b ? a % b : 7u) \
 X(6, (u32)(i32)(b ? (i32)(i16)a / (i32)(i16)b : 3)) X(7, (u32)(u16)(a << (b & 15))) X(8, (u32)(a >> (b & 15))) X(9, (u32)(i32)((i16)a >> (b & 15))) \
 X(10, ((u32)a << 16 | b) >> (b & 31)) X(11, ((u32)a << 16 | b) * 2654435761u) X(12, ((u32)a << 16 | b) / (b | 1u)) X(13, (u32)(a & b) | (u32)(a ^ b) << 16) \
 X(14, (u32)(u8)(a * b)) X(15, (u32)(i32)((i8)a * (i8)b)) X(16, (u32)(u8)(a >> (b & 7))) X(17, (u32)(u8)((u8)a << (b & 7))) X(18, (u32)(i32)((i8)a >> (b & 7))) \
 X(19, (u32)(a < b) | (u32)((i16)a < (i16)b) << 1 | (u32)((i8)a < (i8)b) << 2 | (u32)(a == b) << 3 | (u32)((u8)a > (u8)b) << 4 | (u32)((i16)a <= 0) << 5) \
 X(20, (u32)(u16)-(i16)a) X(21, (u32)(u8)~a) X(22, (u32)(((u64)a << 32 | (u64)b << 3) >> (b & 31))) X(23, (u32)((((u64)a << 20) + b) * 0x123456789ull >> 11)) \
 X(24, loop(a, b)) X(25, table(a) + b) X(26, rec((u8)(a & 15), b)) X(27, (u32)(u8)(((u8)a << 4) | ((u8)a >> 4))) X(28, (a & 0x10 ? 1u : 0u) | (b & 0x8000 ? 2u : 0u) | (a & 1 ? 4u : 0u)) \
 X(29, (u32)((u16)(a + 1) ^ (u16)(b - 1))) X(30, (u32)((i32)((u32)a << 16 | b) >> (a & 31))) X(31, swapbits((u8)a) + 256u * (u8)(b + 63)) X(32, flt(a, b)) X(33, (u32)(i32)((i32)(((u32)a << 16) | b) % 1000))
__attribute__((noinline)) static u32 loop(u16 a, u16 b) { volatile u16 x = a; u32 s = 0; for (u8 i = 0; i < 20; ++i) { s += x; x = (u16)(x * 5 + b); if (x & 4) s ^= 0x5a5a; } return s; }
static volatile u16 const tab[] = { 1, 7, 500, 65535, 32768, 3, 9, 1000 };
__attribute__((noinline)) static u32 table(u16 a) { return tab[a & 7]; }
__attribute__((noinline)) static u32 rec(u8 n, u16 b) { return n == 0 ? b : rec((u8)(n - 1), (u16)(b + n)) * 3 + n; }
__attribute__((noinline)) static u8 swapbits(u8 x) { u8 r = 0; for (u8 i = 0; i < 8; ++i) if (x & (1 << i)) r |= (u8)(128 >> i); return r; }
__attribute__((noinline)) static u32 flt(u16 a, u16 b) { float x = (float)(i16)a * 0.5f + (float)b; return (u32)(i32)x; }
#define DEF(n, e) FN u32 self_##n(u16 a, u16 b) { return e; }
LIST(DEF)
#ifdef __AVR__
int main() { for (;;) ; }
#else
#include "avr_sim.hpp"
#include <random>
int main(int, char ** v) {
    avr::Sim s; if (!s.load(v[1]) || !s.boot()) { fprintf(stderr, "boot\n"); return 2; }
    std::mt19937_64 g(atoi(v[2])); int n = atoi(v[3]), bad = 0; long cnt = 0;
    typedef u32 (*F)(u16, u16);
    struct { char const * name; F f; } t[] = {
#define ENT(n, e) { "self_" #n, self_##n },
        LIST(ENT) };
    for (auto & x : t) for (int i = 0; i < n; ++i) {
        u16 a = g(), b = g(); if (g() % 4 == 0) a = (i16)(i8)a; if (g() % 4 == 0) b = (i16)(i8)b; if (g() % 16 == 0) b = a;
        for (int r = 2; r < 32; ++r) s.d[r] = g();
        s.d[0x5f] = g() & 0x7f;
        s.pair(24, a); s.pair(22, b);
        if (!s.call(s.sym.at(x.name))) { fprintf(stderr, "%s does not return\n", x.name); return 2; }
        u32 r = s.pair(22) | (u32)s.pair(24) << 16, want = x.f(a, b); ++cnt;
        if (r != want && ++bad < 20) fprintf(stderr, "%s(%u, %u) = %u, host %u\n", x.name, a, b, r, want);
    }
    printf("%ld\n", cnt);
    return bad ? 2 : 0;
}
#endif
