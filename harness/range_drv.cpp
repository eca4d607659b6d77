// Ranges and indices, for RangeTrace.tla.   range_drv SEED N
#include "trace.hpp"
#include "core/range.hpp"
#include <array>
#include <list>
#include <algorithm>
using namespace kv;
template< typename T > constexpr int bits() { return std::is_floating_point<T>::value ? std::numeric_limits<T>::digits - 1 : 200; }
template< typename T > std::string num(T x) { return std::is_floating_point<T>::value ? js((double)x) : std::is_signed<T>::value ? js((long long)x) : js((unsigned long long)x); }
template< typename T > void open(T f, T s, T l, bool inf) { Line("session").raw("first", num(f)).raw("step", num(s)).raw("last", num(l)).f("inf", inf).f("bits", bits<T>()); }
int how = 0, limit = 60, far = 0;      // far: do not report that many values, but count them
template< typename T > void next(T v, int k) { if (k <= far) { if (k == far) Line("far").f("n", k).raw("v", num(v)); } else Line("next").raw("v", num(v)); }
// deliver at most limit values, in one of several ways of iterating
template< typename T, typename P > void iterate(P const & p) {
    int k = 0;
    switch (how++ % 7) {
        case 0: for (auto x : p) { if (k++ == limit) { Line("stop"); return; } next<T>(x, k); } break;
        case 1: { auto e = p.end(); for (auto i = p.begin(); i != e; ++i) { if (k++ == limit) { Line("stop"); return; } next<T>(*i, k); } break; }
        case 2: { auto e = p.end(); auto i = p.begin(); while (!(i == e)) { if (k++ == limit) { Line("stop"); return; } auto o = i++; next<T>(*o, k); } break; }
        case 3: { auto i = p.begin(); while (i != p.end()) { if (k++ == limit) { Line("stop"); return; } auto c = i; ++i; next<T>(*c.operator->(), k); } break; }
        case 4: { auto e = p.end(); auto i = p.begin(), j = p.begin(); for (; i != e; ++i) { if (k++ == limit) { Line("stop"); return; } next<T>(*i, k); if (j != e) ++j; if (j != e) ++j; } break; }     // another iterator runs ahead
        case 5: { auto e = p.end(); auto b = p.begin(); auto i = b; for (; i != e; ) { if (k++ == limit) { Line("stop"); return; } next<T>(*i, k); auto o = i; ++o; b = i; i = o; } break; }                // assigned iterators
        default: { P q = p; for (auto x : q) { if (k == 3) break; ++k; (void)x; }        // a copy, partly iterated before
            k = 0; for (auto x : q) { if (k++ == limit) { Line("stop"); return; } next<T>(x, k); } }
    }
    Line("done");
}
template< typename T, typename P > void twice(T f, T s, T l, bool inf, P const & p) { open(f, s, l, inf); iterate<T>(p); open(f, s, l, inf); iterate<T>(p); }
using core::range; using core::indices;
template< typename A, typename B > void r2(A a, B b) { using T = std::common_type_t<A,B>; twice<T>(a, 1, b, false, range(a, b)); }
template< typename A, typename B, typename C > void r3(A a, B b, C c) { using T = std::common_type_t<A,B,C>; if ((T)c == (T)0) return; twice<T>(a, c, b, false, range(a, b, c)); }
template< typename A > void r1(A a) { twice<A>(a, 1, a, true, range(a)); }
template< typename A > void r1s(A a, A s) { twice<A>(a, s, a, true, range(a).step(s)); }
int main(int, char ** argv) {
    Rng r(std::strtoull(argv[1], 0, 10)); int n = std::atoi(argv[2]);
    // every small integer range
    for (int a = -3; a <= 4; ++a) for (int b = -3; b <= 4; ++b) { r2(a, b); for (int c = -3; c <= 3; ++c) r3(a, b, c); }
    for (unsigned a = 0; a <= 5; ++a) for (unsigned b = 0; b <= 5; ++b) { r2(a, b); for (unsigned c = 1; c <= 3; ++c) r3(a, b, c); }
    for (int a = -3; a <= 3; ++a) { r1(a); for (int s = -2; s <= 2; ++s) if (s) r1s(a, s); }
    int c0[1] = {}; int c5[5] = {}; std::string c17[17]; { using T = size_t; twice<T>(0, 1, 1, false, indices(c0)); twice<T>(0, 1, 5, false, indices(c5)); twice<T>(0, 1, 17, false, indices(c17));
        for (size_t k = 0; k < 12; ++k) { std::vector<double> v(k); twice<T>(0, 1, k, false, indices(v)); std::list<int> li(k); twice<T>(0, 1, k, false, indices(li)); std::string s(k, 'x'); twice<T>(0, 1, k, false, indices(s)); }
        for (size_t k : { 127, 128, 129, 200, 255, 256, 257, 300, 1000 }) { limit = 2000; std::vector<char> v(k); twice<T>(0, 1, k, false, indices(v)); std::list<char> li(k); twice<T>(0, 1, k, false, indices(li)); std::string s(k, 'x'); twice<T>(0, 1, k, false, indices(s)); }
        { static char big[70000]; std::vector<char> v(70000); far = 65520; limit = 70000; twice<T>(0, 1, 70000, false, indices(big)); twice<T>(0, 1, 70000, false, indices(v)); static double b300[300]; far = 0; twice<T>(0, 1, 300, false, indices(b300)); limit = 60; }
        { far = 69990; limit = 70000; r1(-5); r1s(3, 7); r1s(0.0, 0.25); r3(-7, 200000, 1); r2(-70003, 0); r3(0.5, 400000.0, 5.0); r3(100000, -300000, -5); r2(0u, 69993u); r3(1L, 3000000000L, 40001L); far = 32760; limit = 33000; r3((short)0, 32767, 1); r3((long long)-5, (long long)1 << 40, (long long)1 << 25); far = 0; limit = 60; }
        r3((unsigned char)0, (unsigned char)255, (unsigned char)5); r2((signed char)-60, (signed char)-10); r2((short)-30, (short)20); r1((char)10); r3(1.5f, 9.0, 1); r3(9ul, 40ul, 4ul); r3(-3.0L, 4.0L, 0.5L); r2(2, 8.5f); r1s(0.1f, 0.1f); r1((short)-3); r1s((long long)-9, (long long)2);
        // the value beyond the last does not fit the type
        { using uc = unsigned char; using sc = signed char; using ll = long long; const int I = 2147483647; const ll L = 9223372036854775807LL;
          r3((uc)0, (uc)250, (uc)100); r3((uc)3, (uc)255, (uc)7); r3((uc)255, (uc)255, (uc)1); r3((uc)1, (uc)255, (uc)254); r3((sc)-100, (sc)127, (sc)50); r3((sc)100, (sc)-128, (sc)-50); r3((sc)-128, (sc)127, (sc)127); r3((sc)127, (sc)-128, (sc)-128); r3((sc)-128, (sc)127, (sc)5); r3((sc)127, (sc)-127, (sc)-9);
          r3((short)0, (short)32767, (short)10000); r3((short)0, (short)-32768, (short)-30000); r3(0, I, 2000000000); r3(-I - 1, I, 1500000000); r3(I, -I - 1, -1500000000); r3(I - 5, I, 2); r3(-I, -I - 1, -3); r3(0u, 4000000000u, 3000000000u); r3(7u, 4294967295u, 4294967295u); r3(0, 1u, 4294967295u);
          r3(0LL, L, L / 2); r3(-L - 1, L, L); r3(L, -L - 1, -L); r3(0ull, ~0ull, 1ull << 63); r2(I - 4, I); r2((sc)120, (sc)127); r2((uc)250, (uc)255); r2(4294967290u, 4294967295u); r2(-L - 1, -L + 3); r2(L - 3, L); }
        twice<T>(0, 1, 4, false, indices(std::array<int,4>{})); twice<T>(0, 1, 0, false, indices(std::array<int,0>{}));
        twice<T>(0, 1, 3, false, indices({ 7, 8, 9 })); twice<T>(0, 1, 1, false, indices({ 1.5 })); }
    for (int i = 0; i < n; ++i) {
        int a = r.range(-100, 100), b = a + r.range(-80, 80), c = r.range(-12, 12);
        double q = std::ldexp(1.0, -r.range(0, 6)); double x = r.range(-200, 200) * q, y = x + r.range(-100, 100) * q, z = r.range(-30, 30) * q;
        double u = 10 * r.sym(), v = u + 20 * r.sym(), w = r.sym() * (r.chance(1, 2) ? 1 : 4);
        limit = r.chance(1, 10) ? 400 : 60;
        switch (i % 18) {
            case 0: r2(a, b); break;
            case 1: r3(a, b, c); break;
            case 2: r2(x, y); break;
            case 3: r3(x, y, z); break;
            case 4: r3(u, v, w); break;
            case 5: r2(u, v); break;
            case 6: r3((float)x, (float)y, (float)z); break;
            case 7: r3(a, y, z); break;                       // int, double, double
            case 8: r3(a, b, (double)z); break;
            case 9: r3((short)a, (long)b, c); break;
            case 10: r2(a, v); break;
            case 11: r3((unsigned)(a + 200), (unsigned)(b + 200), (unsigned)std::abs(c)); break;
            case 12: r1(a); break;
            case 13: r1s(a, c ? c : 1); break;
            case 14: r1(x); break;
            case 15: r1s(u, w); break;
            case 16: r3((size_t)std::abs(a), (size_t)std::abs(b), (size_t)std::abs(c)); break;
            default: r3((float)u, (float)v, (float)(r.chance(1, 2) ? 0.1f : -0.1f)); 
        }
        if (i % 7 == 0) { using uc = unsigned char; using sc = signed char; using ll = long long; r3((uc)r.below(256), (uc)r.below(256), (uc)r.range(1, 255)); r3((sc)r.range(-128, 127), (sc)r.range(-128, 127), (sc)r.range(-128, 127)); r3((int)r.next(), (int)r.next(), (int)r.next() | 1 << 28); r3((ll)r.next(), (ll)r.next(), (ll)r.next() | 1LL << 58); r3((short)r.next(), (short)r.next(), (short)(r.next() | 256)); r3((unsigned)r.next(), (unsigned)r.next(), (unsigned)r.next() | 1u << 28); }
        if (i % 9 == 0) r3((signed char)(a / 2), (signed char)(b / 2), (signed char)(c));
    }
}
