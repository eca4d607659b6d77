// Sequence algorithms and text helpers, for SeqTrace.tla.   seq_drv SEED N MAXLEN
#include "trace.hpp"
#include <string>
#include "std/algorithm.hpp"
#include "std/utility.hpp"
#include "core/text.hpp"
#include "core/shims.hpp"
#include <list>
#include <forward_list>
#include <iterator>
#include <memory>
#include <sstream>
using namespace kv;
using V = std::vector<int>;
// a value that is neither trivially copyable nor implicitly comparable but by ==
struct Box { std::unique_ptr<int> p; Box(int v = 0) : p(new int(v)) {} Box(Box const & o) : p(new int(*o.p)) {} Box(Box && o) noexcept : p(std::move(o.p)) {}
    Box & operator=(Box const & o) { p.reset(new int(*o.p)); return *this; } Box & operator=(Box && o) noexcept { p = std::move(o.p); return *this; } };
bool operator==(Box const & a, Box const & b) { return *a.p == *b.p; }
int val(Box const & b) { return *b.p; } int val(int x) { return x; } int val(char x) { return x; } int val(short x) { return x; } int val(double x) { return (int)x; }
template< typename C > V vals(C const & c) { V r; for (auto const & x : c) r.push_back(val(x)); return r; }
template< typename C > auto at(C & c, int i) { return std::next(c.begin(), i); }
template< typename S, typename D > void copy(V s, V d0, int i, int j, int k) {
    S a(s.begin(), s.end()); D d(d0.begin(), d0.end());
    auto e = std20::copy(at(a, i), at(a, j), at(d, k));
    Line("copy").f("s", s).f("i", i).f("j", j).f("k", k).f("d0", d0).f("d1", vals(d)).f("s1", vals(a)).f("ret", (int)std::distance(d.begin(), e)).f("same", false);
}
void copyin(V s, int i, int j, int k) {          // within one sequence, towards the front
    V d = s; auto e = std20::copy(d.begin() + i, d.begin() + j, d.begin() + k);
    Line("copy").f("s", s).f("i", i).f("j", j).f("k", k).f("d0", s).f("d1", d).f("s1", d).f("ret", (int)(e - d.begin())).f("same", true);
}
template< typename D > void fill(V d0, int i, int j, int v) { D d(d0.begin(), d0.end()); typename D::value_type x(v); std20::fill(at(d, i), at(d, j), x); Line("fill").f("d0", d0).f("i", i).f("j", j).f("v", v).f("d1", vals(d)); }
template< typename S, typename D > void equal(V s, V d0, int i, int j, int k, int p) {
    S a(s.begin(), s.end()); D d(d0.begin(), d0.end()); bool r; static const char * names[] = { "eq", "lt", "ge", "any", "none", "near" };
    auto f = at(a, i), l = at(a, j); auto g = at(d, k);
    using X = typename S::value_type; using Y = typename D::value_type;
    switch (p) { case 0: r = std20::equal(f, l, g); break;
        case 1: r = std20::equal(f, l, g, [](X const & x, Y const & y) { return val(x) < val(y); }); break;
        case 2: r = std20::equal(f, l, g, [](X const & x, Y const & y) { return val(x) >= val(y); }); break;
        case 3: r = std20::equal(f, l, g, [](X const &, Y const &) { return 7; }); break;
        case 4: r = std20::equal(f, l, g, [](X const &, Y const &) { return false; }); break;
        default: r = std20::equal(f, l, g, [](X const & x, Y const & y) { return std::abs(val(x) - val(y)) <= 1; }); }
    Line("equal").f("s", s).f("i", i).f("j", j).f("k", k).f("p", names[p]).f("d0", d0).f("d1", vals(d)).f("s1", vals(a)).f("ret", r);
}
template< typename T > void swp(int a, int b) { T x(a), y(b); std20::swap(x, y); Line("swap").f("a0", a).f("b0", b).f("a1", val(x)).f("b1", val(y)); }
// long sequences
template< typename S, typename D > void longs(Rng & r, int n) {
    V s(n), d(n + 3); for (auto & x : s) x = r.below(200) - 100; for (auto & x : d) x = r.below(200) - 100;
    int i = r.below(3), j = n - r.below(3), k = r.below(4); copy<S,D>(s, d, i, j, k); fill<D>(d, i, j, 7);
    V t = d; for (int x = i; x < j; ++x) t[k + x - i] = s[x]; equal<S,D>(s, t, i, j, k, 0); t[k + j - i - 1] ^= 1; equal<S,D>(s, t, i, j, k, 0); equal<S,D>(s, t, i, j, k, 5); if (k) { t[k - 1] ^= 1; equal<S,D>(s, t, i, j - 1, k, 0); }
    if (i < j) copyin(s, i, j, r.range(0, i));
}
V codes(std::string const & s) { V r; for (char c : s) r.push_back(c); return r; }
std::string word(int n, int len, int base) { std::string s; for (int i = 0; i < len; ++i) { s += (char)('a' + n % base); n /= base; } return s; }
int ipow(int b, int e) { int r = 1; while (e--) r *= b; return r; }
void replaced(std::string const & t, std::string const & f, std::string const & to) {
    std::string t0 = t, f0 = f, to0 = to; auto r = core::replaced(t, f, to);
    Line("replaced").f("t", codes(t)).f("from", codes(f)).f("to", codes(to)).f("r", codes(r)).f("kept", t == t0 && f == f0 && to == to0);
}
template< typename T, typename X > void as(X x) { T y = core::as<T>(x); if (std::is_integral<T>::value) Line("as").f("to", "int").f("x", x).raw("y", js((long long)y)); else Line("as").f("to", "float").f("x", x).f("y", (double)y).f("bits", std::numeric_limits<T>::digits); }

int main(int, char ** argv) {
    Rng r(std::strtoull(argv[1], 0, 10)); int n = std::atoi(argv[2]), L = std::atoi(argv[3]);
    auto seq = [](int code, int len) { V v; for (int i = 0; i < len; ++i) { v.push_back(code % 3); code /= 3; } return v; };
    // every sub-range of every length, all positions, for a distinctive content
    for (int a = 0; a <= L; ++a) { V s; for (int i = 0; i < a; ++i) s.push_back(10 + i);
        for (int i = 0; i <= a; ++i) for (int j = i; j <= a; ++j) {
            for (int k = 0; k <= 2; ++k) { V d(j - i + k + 1); for (size_t x = 0; x < d.size(); ++x) d[x] = 50 + (int)x;
                copy<V,V>(s, d, i, j, k); copy<std::list<int>,V>(s, d, i, j, k); copy<V,std::list<short>>(s, d, i, j, k); copy<std::vector<Box>,std::vector<Box>>(s, d, i, j, k); }
            for (int k = 0; k <= i; ++k) copyin(s, i, j, k);
            fill<V>(s, i, j, 5); fill<std::list<int>>(s, i, j, 0); fill<std::vector<Box>>(s, i, j, 99); fill<std::forward_list<char>>(s, i, j, 7);
        } }
    // every pair of short sequences
    for (int a = 0; a <= 3; ++a) for (int c = 0; c < ipow(3, a); ++c) for (int d = 0; d < ipow(3, a); ++d) for (int p = 0; p < 6; ++p) {
        V s = seq(c, a), t = seq(d, a);
        if ((c + d + p) % 3 == 0) equal<std::list<int>,V>(s, t, 0, a, 0, p); else equal<V,V>(s, t, 0, a, 0, p);
    }
    for (int x = 0; x < n; ++x) {
        int a = r.below(8), b = r.range(0, 8); V s, t; for (int i = 0; i < a; ++i) s.push_back(r.below(3)); for (int i = 0; i < b; ++i) t.push_back(r.below(3));
        int i = r.range(0, a), j = r.range(i, a), k = r.range(0, b); if (k + j - i > b) { for (int q = k; q < b && i + q - k < a; ++q) t[q] = s[i + q - k]; while ((int)t.size() < k + j - i) t.push_back(s[i + (int)t.size() - k]); }
        else if (r.chance(2, 3)) { for (int q = 0; q < j - i; ++q) t[k + q] = s[i + q]; if (j > i && r.chance(1, 2)) t[k + r.below(j - i)] ^= 1; }
        int p = r.chance(1, 2) ? 0 : r.below(6);
        switch (r.below(4)) { case 0: equal<V,V>(s, t, i, j, k, p); break; case 1: equal<std::vector<Box>,std::vector<Box>>(s, t, i, j, k, p); break; case 2: equal<std::list<int>,std::vector<double>>(s, t, i, j, k, p); break; default: equal<std::vector<char>,std::list<int>>(s, t, i, j, k, p); }
    }
    for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) { swp<int>(a, b); swp<Box>(a, b); swp<double>(a, b); swp<char>(a, b); }
    for (int k : { 15, 16, 17, 31, 33, 64, 100, 127, 128, 255, 256, 257, 300, 1000 }) { longs<V,V>(r, k); longs<std::list<int>,std::vector<short>>(r, k); longs<std::vector<Box>,std::vector<Box>>(r, k); longs<std::vector<signed char>,std::vector<signed char>>(r, k); }
    // texts
    for (int k : { 120, 121, 127, 128, 129, 200, 255, 256, 257, 500, 1024, 3000 }) { auto t = core::line(k, '#'); Line("line").f("n", k).f("c", (int)'#').f("t", codes(t)); auto u = core::line(k); Line("line").f("n", k).f("c", (int)'-').f("t", codes(u)); }
    for (int k = 0; k <= 100; ++k) { char c = "-=*a \0"[k % 6]; auto t = core::line(k, c); Line("line").f("n", k).f("c", (int)c).f("t", codes(t)); auto u = core::line(k); Line("line").f("n", k).f("c", (int)'-').f("t", codes(u)); }
    for (int a = 0; a <= 5; ++a) for (int c = 0; c < ipow(2, a); ++c) for (int b = 0; b <= 3; ++b) for (int d = 0; d < ipow(2, b); ++d) {
        static const char * to[] = { "", "x", "ab", "aab" }; replaced(word(c, a, 2), word(d, b, 2), to[(a + c + b + d) % 4]); }
    for (int x = 0; x < n; ++x) { std::string t = word((int)(r.next() & 0xffffff), r.range(0, 12), r.range(1, 3)), f = r.chance(1, 3) ? t.substr(t.empty() ? 0 : r.below((int)t.size())) : word(r.below(27), r.range(0, 3), 3); if (r.chance(1, 3) && f.size() > 2) f.resize(2); replaced(t, f, r.chance(1, 3) ? f + f : word(r.below(27), r.range(0, 4), 3)); }
    // any characters (zero, high, newline), long texts
    for (int x = 0; x < n / 2; ++x) {
        static const char odd[] = { 0, 'a', (char)0xff, '\n', (char)0x80, ' ', '\t', '\\', '%' }; int m = r.range(1, 9), q = r.chance(1, 8) ? r.range(50, 600) : r.range(0, 14);
        auto text = [&](int len) { std::string s; while (len--) s += odd[r.below(m)]; return s; };
        std::string t = text(q), f = r.chance(1, 2) && q > 2 ? t.substr(q - 1 - r.below(q - 1), r.range(1, q)) : text(r.range(0, 4)); replaced(t, f, text(r.chance(1, 6) ? 300 : r.range(0, 5)));
    }
    for (int x = 0; x < n; ++x) {
        double v = r.chance(1, 4) ? r.range(-2000, 2000) / 2.0 : r.chance(1, 2) ? r.sym() * 3e4 : r.sym() * 3;
        as<int>(v); as<long>(v); as<short>(v); as<double>(v); as<float>(v); as<int>((float)v); as<long>((int)v); as<double>((int)v); as<float>((short)v); as<signed char>((int)v % 128); as<unsigned>((int)std::fabs(v)); as<double>((float)v); as<long long>(r.chance(1, 2) ? 4.5e15 * r.sym() : v); as<long>((long)(r.next() >> 3)); as<short>((long)v);
    }
}
