// Helpers shared by the drivers: ndjson trace output, deterministic random
// numbers, and the prime field Fp in which templates are run exactly.
#ifndef KV_TRACE_HPP
#define KV_TRACE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <complex>
#include <limits>
#include <type_traits>
#ifdef KV_FIXED
#include "num/fixed-point.hpp"
#endif

namespace kv {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double sym() { return 2 * unit() - 1; }
};

// --- prime field -----------------------------------------------------------
struct Fp {
    static constexpr int P = 32749;
    static inline bool undef = false;
    int v = 0;
    Fp() = default;
    template< typename I, typename = std::enable_if_t<std::is_arithmetic<I>::value> >
    Fp(I x) : v(conv(x)) {}
    static int mod(long long x) { x %= P; return (int)(x < 0 ? x + P : x); }
    template< typename I > static int conv(I x) {
        if constexpr (std::is_floating_point<I>::value) {
            int e; double m = std::frexp((double)x, &e);           // x = m 2^e
            long long n = (long long)std::ldexp(m, 53); e -= 53;
            Fp r; r.v = mod(n);
            Fp two; two.v = 2; Fp half; half.v = (P + 1) / 2;
            for (; e > 0; --e) r = r * two;
            for (; e < 0; ++e) r = r * half;
            return r.v;
        } else return mod((long long)x);
    }
    static Fp pow(Fp a, int n) { Fp r; r.v = 1; for (; n; n >>= 1, a = a * a) if (n & 1) r = r * a; return r; }
    friend Fp operator+(Fp a, Fp b) { Fp r; r.v = (a.v + b.v) % P; return r; }
    friend Fp operator-(Fp a, Fp b) { Fp r; r.v = (a.v - b.v + P) % P; return r; }
    friend Fp operator*(Fp a, Fp b) { Fp r; r.v = (int)((long long)a.v * b.v % P); return r; }
    friend Fp operator/(Fp a, Fp b) { if (b.v == 0) { undef = true; return Fp(); } return a * pow(b, P - 2); }
    Fp operator-() const { return Fp() - *this; }
    Fp operator+() const { return *this; }
    Fp & operator+=(Fp b) { return *this = *this + b; }
    Fp & operator-=(Fp b) { return *this = *this - b; }
    Fp & operator*=(Fp b) { return *this = *this * b; }
    Fp & operator/=(Fp b) { return *this = *this / b; }
    friend bool operator==(Fp a, Fp b) { return a.v == b.v; }
    friend bool operator!=(Fp a, Fp b) { return a.v != b.v; }
    friend bool operator<(Fp a, Fp b) { return a.v < b.v; }
    friend bool operator>(Fp a, Fp b) { return a.v > b.v; }
    friend bool operator<=(Fp a, Fp b) { return a.v <= b.v; }
    friend bool operator>=(Fp a, Fp b) { return a.v >= b.v; }
    explicit operator bool() const { return v != 0; }
    explicit operator int() const { return v; }
    explicit operator double() const { return v; }
};

// --- output ----------------------------------------------------------------
inline std::string hex(double x) { char b[64]; if (std::isnan(x)) return "nan"; std::snprintf(b, sizeof b, "%a", x); return b; }
inline std::string js(Fp x) { return std::to_string(x.v); }
inline std::string js(double x) { return '"' + hex(x) + '"'; }
inline std::string js(float x) { return js((double)x); }
inline std::string js(long double x) {
    char b[80]; if (std::isnan(x)) return "\"nan\""; std::snprintf(b, sizeof b, "\"%La\"", x); return b; }
inline std::string js(int x) { return std::to_string(x); }
inline std::string js(bool x) { return x ? "true" : "false"; }
inline std::string js(long x) { return "\"d:" + std::to_string(x) + '"'; }
inline std::string js(long long x) { return "\"d:" + std::to_string(x) + '"'; }
inline std::string js(unsigned long x) { return "\"d:" + std::to_string(x) + '"'; }
inline std::string js(unsigned long long x) { return "\"d:" + std::to_string(x) + '"'; }
inline std::string js(unsigned x) { return js((unsigned long)x); }
inline std::string js(std::string const & s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32 || (unsigned char)c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); r += b; }
        else r += c;
    }
    return r + '"';
}
inline std::string js(char const * s) { return js(std::string(s)); }
template< typename T > std::string js(std::vector<T> const & v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += js((T)v[i]); }
    return r + "]";
}
template< typename T > std::string js(std::complex<T> const & c) { return "[" + js(c.real()) + "," + js(c.imag()) + "]"; }

#ifdef KV_FIXED
template< typename T > struct is_fixed : std::false_type {};
template< typename T, int I, int F > struct is_fixed< num::fixed_point<T,I,F> > : std::true_type {};
// the value, from the representation
template< typename T, int I, int F > double value(num::fixed_point<T,I,F> const & x) { return std::ldexp((double)x.underlying_value(), -F); }
template< typename T, int I, int F > std::string js(num::fixed_point<T,I,F> const & x) { return js(value(x)); }
#endif

struct Line {
    std::string s;
    explicit Line(char const * ev) : s("{\"ev\":\"" + std::string(ev) + "\"") {}
    template< typename V > Line & f(char const * k, V const & v) { s += ",\""; s += k; s += "\":"; s += js(v); return *this; }
    Line & raw(char const * k, std::string const & v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
    ~Line() { s += "}\n"; std::fwrite(s.data(), 1, s.size(), stdout); }
};

} // namespace kv

namespace std {
template<> struct numeric_limits<kv::Fp> {
    static constexpr bool is_specialized = true, is_signed = false, is_integer = false, is_exact = true;
    static kv::Fp epsilon() { return kv::Fp(); }
    static kv::Fp min() { return kv::Fp(); }
    static kv::Fp max() { return kv::Fp(kv::Fp::P - 1); }
};
}
#endif
