// What the library computes in constant expressions: every case is evaluated by
// the compiler where that is possible, and whether it was is recorded.
#include "trace.hpp"
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
#include "std/algorithm.hpp"
#include "std/utility.hpp"
#include "dsp/biquad.hpp"
#include "dsp/onepole.hpp"
#include <limits>
#include <utility>
using namespace kv;
typedef long long ll;
#include "const_tables.hpp"           // Tab<X>: a, b, n, z; E: elements of matrices; FORMATS; COUNT

// is C::call() a constant expression?
template< class C, int = ((void)C::call(), 0) > constexpr bool constant(int) { return true; }
template< class C > constexpr bool constant(...) { return false; }

template< class C, class Fn > void one(Fn fn) {
    if constexpr (constant<C>(0)) { constexpr auto v = C::call(); fn(true, v); }
    else fn(false, decltype(C::call()){});
}
static std::string num_(ll x) { return x >= -2147483647 && x <= 2147483647 ? std::to_string(x) : "\"d:" + std::to_string(x) + '"'; }
struct Row { std::string s = "["; void add(std::string const & x) { if (s.size() > 1) s += ','; s += x; } std::string str() const { return s + "]"; } };

// fixed point ---------------------------------------------------------------
template< class X, int K, int I > struct Fx {
    static constexpr auto call() {
        typedef Tab<X> D;
        using R = decltype(X().underlying_value());
        X const x(X::construct, (R)D::a[I]), y(X::construct, (R)D::b[I]); X z = x;
        if constexpr (K == 0) return ll((x + y).underlying_value());
        else if constexpr (K == 1) return ll((x - y).underlying_value());
        else if constexpr (K == 2) return ll((x * y).underlying_value());
        else if constexpr (K == 3) return ll((x / y).underlying_value());
        else if constexpr (K == 4) { z += y; return ll(z.underlying_value()); }
        else if constexpr (K == 5) { z -= y; return ll(z.underlying_value()); }
        else if constexpr (K == 6) { z *= y; return ll(z.underlying_value()); }
        else if constexpr (K == 7) { z /= y; return ll(z.underlying_value()); }
        else if constexpr (K == 8) return ll((-x).underlying_value());
        else if constexpr (K == 9) return ll((+x).underlying_value());
        else if constexpr (K == 10) return ll((x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x <= y) + 16 * (x > y) + 32 * (x >= y));
        else if constexpr (K == 11) return ll(X(D::n[I]).underlying_value());
        else if constexpr (K == 12) return ll(X(D::z[I]).underlying_value());
        else if constexpr (K == 13) return x.as_double();
        else if constexpr (K == 14) return x.template as<double>();
        else if constexpr (K == 15) return ll(x.template as<int>());
        else if constexpr (K == 16) return ll(x.template as<ll>());
        else if constexpr (K >= 20 && K < 24) { X r = K == 20 ? x + D::n[I] : K == 21 ? x - D::n[I] : K == 22 ? x * D::n[I] : X(); if constexpr (K == 23) r = x / D::n[I]; return ll(r.underlying_value()); }
        else { X r = K == 24 ? D::n[I] + x : K == 25 ? D::n[I] - x : K == 26 ? D::n[I] * x : X(); if constexpr (K == 27) r = D::n[I] / x; return ll(r.underlying_value()); }
    }
};
static std::string show(ll x) { return num_(x); }
static std::string show(double x) { return js(x); }
template< class X, int K, int... I > void fx(char const * ev, char const * op, std::integer_sequence<int, I...>) {
    typedef Tab<X> D; Row a, b, n, z, k, r;
    ((a.add(num_(D::a[I])), b.add(num_(D::b[I])), n.add(js(D::n[I])), z.add(num_(D::z[I]))), ...);
    (one<Fx<X, K, I>>([&](bool c, auto v) { k.add(c ? "true" : "false"); r.add(show(v)); }), ...);
    int const W = 8 * sizeof(X().underlying_value());
    Line l(ev); l.f("op", op).f("W", W).f("F", X::fractional_digits).f("left", K >= 24).f("lo", num_(K == 16 ? 0 : -2147483647 - 1)).raw("a", a.str()).raw("b", b.str()).raw(K == 12 ? "m" : "n", n.str()).raw(K == 12 ? "n" : "m", z.str()).raw("k", k.str()).raw("r", r.str());
}
template< class X > void format() {
    auto all = std::make_integer_sequence<int, COUNT>();
    fx<X, 0>("row", "add", all); fx<X, 1>("row", "sub", all); fx<X, 2>("row", "mul", all); fx<X, 3>("row", "div", all);
    fx<X, 4>("row", "add", all); fx<X, 5>("row", "sub", all); fx<X, 6>("row", "mul", all); fx<X, 7>("row", "div", all);
    fx<X, 8>("row", "neg", all); fx<X, 9>("row", "pos", all); fx<X, 10>("cmp", "", all); fx<X, 11>("fromreal", "", all); fx<X, 12>("fromint", "", all);
    fx<X, 13>("toreal", "", all); fx<X, 14>("toreal", "", all); fx<X, 15>("toint", "", all); fx<X, 16>("toint", "", all);
    fx<X, 20>("mix", "add", all); fx<X, 21>("mix", "sub", all); fx<X, 22>("mix", "mul", all); fx<X, 23>("mix", "div", all);
    fx<X, 24>("mix", "add", all); fx<X, 25>("mix", "sub", all); fx<X, 26>("mix", "mul", all); fx<X, 27>("mix", "div", all);
}

// matrices ------------------------------------------------------------------
using num::matrix;
template< class T, int N, int M > constexpr matrix<T,N,M> make(int at) {
    matrix<T,N,M> r = T(0);
    for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) r(i, j) = T(E[(at + 5 * i + 11 * j) % 64]);
    return r;
}
template< class M > std::string rows(M const & m) { Row r; for (int i = 0; i < m.rows(); ++i) { Row q; for (int j = 0; j < m.columns(); ++j) q.add(std::to_string((ll)m(i, j))); r.add(q.str()); } return r.str(); }
static std::string rows(double v) { return "[[" + std::to_string((ll)v) + "]]"; }
static std::string rows(int v) { return "[[" + std::to_string(v) + "]]"; }
template< class T, int N, int M, int L, int K, int I > struct Mx {
    static constexpr auto x() { return make<T,N,M>(I); }
    static constexpr auto y() { if constexpr (K < 2) return make<T,N,M>(I + 17); else if constexpr (K == 2) return make<T,M,L>(I + 17); else if constexpr (K >= 10) return make<T,1,1>(I + 17); else return T(E[I + 17]); }
    static constexpr auto call() {
        auto const a = x(); auto const b = y();
        if constexpr (K == 0) return a + b; else if constexpr (K == 1) return a - b; else if constexpr (K == 2) return a * b;
        else if constexpr (K == 3) return a + b; else if constexpr (K == 4) return b + a; else if constexpr (K == 5) return a - b;
        else if constexpr (K == 6 || K == 10) return a * b; else if constexpr (K == 7 || K == 11) return b * a;
        else if constexpr (K == 12) return a + b; else if constexpr (K == 13) return b + a;
        else if constexpr (K == 8) return num::transposed(a); else return num::eye<T,N>();
    }
};
template< class T, int N, int M, int L, int K, int I > void mx(char const * op) {
    typedef Mx<T,N,M,L,K,I> C;
    one<C>([&](bool c, auto const & v) { Line l("alg"); l.f("op", op).f("k", c).raw("a", rows(C::x())).raw("b", rows(C::y())).raw("r", rows(v)); });
}
template< class T, int N, int M, int I > void shape() {
    mx<T,N,M,1,0,I>("add"); mx<T,N,M,1,1,I>("sub"); mx<T,N,M,1,2,I>("mul"); mx<T,N,M,2,2,I>("mul"); mx<T,N,M,3,2,I>("mul"); mx<T,N,M,M,2,I>("mul");
    mx<T,N,M,1,3,I>("adds"); mx<T,N,M,1,4,I>("adds"); mx<T,N,M,1,5,I>("subs"); mx<T,N,M,1,6,I>("muls"); mx<T,N,M,1,7,I>("muls");
    if constexpr (N * M > 1) { mx<T,N,M,1,10,I>("muls"); mx<T,N,M,1,11,I>("muls"); mx<T,N,M,1,12,I>("adds"); mx<T,N,M,1,13,I>("adds"); }
    if constexpr (N * M > 1 && (N == 1 || M == 1 || (N == 2 && M == 2))) mx<T,N,M,1,8,I>("transposed");
    if constexpr (N == M) mx<T,N,M,1,9,I>("eye");
}
// a program of writes by all paths, on a matrix that has been copied before
template< class T, int N, int M > struct Both { matrix<T,N,M> a, b, c; int size, rows, columns; bool same; };
template< class T, int N, int M, int I > struct Wr {
    static constexpr int at(int s) { return E_POS[(I + 3 * s) % 64] % (N * M); }
    static constexpr T val(int s) { return T(E[(I + 7 * s + 1) % 64]); }
    static constexpr auto call() {
        auto a = make<T,N,M>(I); auto const b = a; matrix<T,N,M> c(T(7));
        a[at(0)] = val(0); a(at(1)) = val(1); a.at(at(2)) = val(2); a(at(3) / M, at(3) % M) = val(3); a.at(at(4) / M, at(4) % M) = val(4); *(a.begin() + at(5)) = val(5);
        c = a; a = b; a(at(6)) = val(6);
        bool same = true; int i = 0;
        for (auto p = a.begin(); p != a.end(); ++p, ++i) same = same && *p == a[i] && *p == a(i) && *p == a.at(i) && *p == a(i / M, i % M) && *p == a.at(i / M, i % M);
        return Both<T,N,M>{ a, b, c, a.size(), a.rows(), a.columns(), same && i == a.size() };
    }
};
template< class T, int N, int M, int I > void writes() {
    typedef Wr<T,N,M,I> C;
    one<C>([&](bool c, auto const & v) {
        Row at, val; for (int s = 0; s < 7; ++s) { at.add(std::to_string(C::at(s))); val.add(std::to_string((ll)C::val(s))); }
        Line l("writes"); l.f("k", c).raw("s", rows(make<T,N,M>(I))).raw("at", at.str()).raw("val", val.str()).raw("a", rows(v.a)).raw("b", rows(v.b)).raw("c", rows(v.c)).f("size", v.size).f("rows", v.rows).f("columns", v.columns).f("same", v.same);
    });
}
// inverses of a symmetric unimodular matrix, and of a number
template< class T, int I > struct Inv { static constexpr auto x() { return matrix<T,2,2>{ T(1), T(I), T(I), T(I * I + 1) }; } static constexpr auto call() { return num::inverted(x()); } };
template< int I > struct Inv0 { static constexpr auto call() { return num::inverted(1.0 / (1 << I)); } };
template< class T, int... I > void inverses(std::integer_sequence<int, I...>) {
    (one<Inv<T, I>>([&](bool c, auto const & v) { Line l("inv"); l.f("k", c).raw("a", rows(Inv<T, I>::x())).raw("r", rows(v)); }), ...);
    (one<Inv0<I>>([&](bool c, auto v) { Line l("inv0"); l.f("k", c).f("n", I).f("r", (int)v); }), ...);
}
template< class T, int... I > void matrices(std::integer_sequence<int, I...>) {
    ((shape<T,1,1,I>(), shape<T,2,2,I>(), shape<T,1,3,I>(), shape<T,3,1,I>(), shape<T,2,3,I>(), shape<T,3,2,I>(), shape<T,3,3,I>()), ...);
    ((writes<T,1,1,I>(), writes<T,2,3,I>(), writes<T,1,4,I>(), writes<T,4,1,I>(), writes<T,3,3,I>()), ...);
}
// sequences -----------------------------------------------------------------
struct Seq { int d[5], ret; int a, b; bool eq, eqp; };
template< int I > struct Sq {
    static constexpr int i() { return E_POS[I % 64] % 6; }
    static constexpr int j() { return i() + E_POS[(I + 1) % 64] % (6 - i()); }
    static constexpr int at() { return E_POS[(I + 2) % 64] % (5 - (j() - i()) + 1); }
    static constexpr int s(int x) { return E[(I + x) % 64] % 3; }
    static constexpr int d(int x) { return E[(I + 9 * x + 5) % 64] % 3; }
    static constexpr auto call() {
        Seq r{}; int src[5] = { s(0), s(1), s(2), s(3), s(4) };
        for (int x = 0; x < 5; ++x) r.d[x] = d(x);
        r.eq = std20::equal(src + i(), src + j(), r.d + at());
        r.eqp = std20::equal(src + i(), src + j(), r.d + at(), [](int p, int q) { return p >= q; });
        r.ret = int(std20::copy(src + i(), src + j(), r.d + at()) - r.d);
        r.a = s(0); r.b = s(1) + 10; std20::swap(r.a, r.b);
        return r;
    }
    static constexpr auto fill() { Seq r{}; for (int x = 0; x < 5; ++x) r.d[x] = d(x); std20::fill(r.d + at(), r.d + at() + (j() - i()), 9); return r; }
};
template< int I > struct SqFill { static constexpr auto call() { return Sq<I>::fill(); } };
template< int... I > void sequences(std::integer_sequence<int, I...>) {
    auto list = [](auto fn) { Row r; for (int x = 0; x < 5; ++x) r.add(std::to_string(fn(x))); return r.str(); };
    ((one<Sq<I>>([&](bool c, auto const & v) {
        typedef Sq<I> C; std::string s = list(C::s), d = list(C::d);
        { Line l("copy"); l.f("k", C::at()).f("con", c).raw("s", s).raw("s1", s).raw("d0", d).raw("d1", list([&](int x) { return v.d[x]; })).f("i", C::i()).f("j", C::j()).f("ret", v.ret).f("same", false); }
        { Line l("equal"); l.f("k", C::at()).f("con", c).f("p", "eq").raw("s", s).raw("s1", s).raw("d0", d).raw("d1", d).f("i", C::i()).f("j", C::j()).f("ret", v.eq); }
        { Line l("equal"); l.f("k", C::at()).f("con", c).f("p", "ge").raw("s", s).raw("s1", s).raw("d0", d).raw("d1", d).f("i", C::i()).f("j", C::j()).f("ret", v.eqp); }
        { Line l("swap"); l.f("con", c).f("a0", C::s(0)).f("b0", C::s(1) + 10).f("a1", v.a).f("b1", v.b); }
    }), one<SqFill<I>>([&](bool c, auto const & v) {
        typedef Sq<I> C; Line l("fill"); l.f("con", c).raw("d0", list(C::d)).raw("d1", list([&](int x) { return v.d[x]; })).f("i", C::at()).f("j", C::at() + C::j() - C::i()).f("v", 9);
    })), ...);
}
int main() {
    FORMATS
    auto some = std::make_integer_sequence<int, SIZE>();
    matrices<int>(some); matrices<double>(some); inverses<double>(some); inverses<int>(some);
    sequences(std::make_integer_sequence<int, 4 * SIZE>());
}
