// Drives num::matrix.  matrix_drv <type: field|int|double|float|long> <what: alg|store|inv> <seed> <size>
#include "trace.hpp"
#include "num/matrix.hpp"
#include <utility>
#include <limits>
using namespace kv;

#ifdef KV_FIELD
typedef Fp T;
#else
typedef KV_T T;
#endif
template< int N, int M > using Mat = num::matrix<T,N,M>;

static std::string num_(Fp x) { return std::to_string(x.v); }
#if defined KV_REAL || defined KV_BITS
template< typename V > std::string num_(V x) { return js((double)x); }
#else
template< typename V > std::string num_(V x) {       // an integer, or something that is none
    double d = (double)x; if (d != d || d != std::floor(d) || std::fabs(d) > 1e9) return "999999937"; return std::to_string((long)d); }
#endif
template< int N, int M > std::string rows(Mat<N,M> const & m) {
    std::string r = "[";
    for (int i = 0; i < N; ++i) { r += i ? ",[" : "["; for (int j = 0; j < M; ++j) { if (j) r += ','; r += num_(m.at(i, j)); } r += "]"; }
    return r + "]";
}
static std::string rows(T const & v) { return "[[" + num_(v) + "]]"; }

static Rng r(0);
static T any() {
    if (std::is_same<T, Fp>::value) return r.chance(1, 8) ? T(0) : T(r.below(Fp::P));
#ifdef KV_BITS
    if (r.chance(1, 4)) { T const v[] = { T(INFINITY), T(-INFINITY), T(NAN), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min() }; return v[r.below(7)]; }
    return T(std::ldexp(r.sym(), r.range(-120, 120)));
#endif
#ifdef KV_REAL
    if (r.chance(1, 10)) return T(0);
    return T(std::ldexp(r.sym(), r.chance(1, 4) ? r.range(-12, 12) : 0));
#endif
    return T(r.range(-60, 60));
}
template< int N, int M > Mat<N,M> random() { Mat<N,M> m(T(0)); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) m.at(i, j) = any(); return m; }

template< typename A, typename B, typename R > void alg(char const * op, A const & a0, B const & b0, A const & a, B const & b, R const & x) {
    Line l("alg"); l.f("op", op).raw("a", rows(a0)).raw("b", rows(b0)).raw("a2", rows(a)).raw("b2", rows(b)).raw("r", rows(x));
}
#define ALG(op, x, y, expr) do { auto a = x; auto b = y; auto const a0 = a; auto const b0 = b; auto res = expr; alg(op, a0, b0, a, b, res); } while (0)

template< int N, int M > void elementwise() {
    auto X = random<N,M>(); auto Y = random<N,M>(); T v = any(); Mat<1,1> v1(any());
    ALG("add", X, Y, a + b); ALG("sub", X, Y, a - b);
    ALG("add", X, X, a + a); ALG("sub", X, X, a - a);
    ALG("adds", X, v, a + b); ALG("adds", X, v, b + a); ALG("subs", X, v, a - b); ALG("muls", X, v, a * b); ALG("muls", X, v, b * a);
    if constexpr (N == 1 && M == 1) { ALG("rsubs", X, v, b - a); }
    if constexpr (!(N == 1 && M == 1)) { ALG("muls", X, v1, a * b); ALG("muls", X, v1, b * a); ALG("adds", X, v1, a + b); ALG("adds", X, v1, b + a); }
}
template< int N, int M, int L > void product() { auto X = random<N,M>(); auto Y = random<M,L>(); ALG("mul", X, Y, a * b); if constexpr (N == M && M == L) ALG("mul", X, X, a * a); }
template< int N, int M > void products() { product<N,M,1>(); product<N,M,2>(); product<N,M,3>(); product<N,M,4>(); }
template< int N > void allM() { elementwise<N,1>(); elementwise<N,2>(); elementwise<N,3>(); elementwise<N,4>(); products<N,1>(); products<N,2>(); products<N,3>(); products<N,4>(); }

static void algebra(int size) {
    for (int i = 0; i < size; ++i) { allM<1>(); allM<2>(); allM<3>(); allM<4>(); elementwise<5,2>(); elementwise<2,7>(); product<2,5,3>(); product<6,2,6>(); product<1,9,1>(); product<9,1,9>(); product<1,8,2>(); product<2,8,1>();
        if (i % 4 == 0) { elementwise<6,6>(); elementwise<1,11>(); elementwise<12,1>(); product<8,8,8>(); product<7,5,6>(); product<3,10,2>(); product<1,16,1>(); product<12,1,2>(); product<1,12,3>(); product<3,14,1>(); product<1,7,7>(); product<9,9,1>(); }
        if (i % 20 == 0) { elementwise<17,16>(); elementwise<1,260>(); product<1,300,1>(); product<17,2,17>(); product<2,140,2>(); product<260,1,2>(); } }
}

// --- the store -------------------------------------------------------------
template< int N, int M > void look(int id, Mat<N,M> & m) {
    Mat<N,M> const & c = m;
    std::string rc = "[", flat = "[", call = "[", sub = "[", it = "[", cit = "[";
    for (int i = 0; i < N; ++i) { rc += i ? ",[" : "["; for (int j = 0; j < M; ++j) { if (j) rc += ','; rc += num_(r.chance(1, 2) ? (r.chance(1, 2) ? m.at(i, j) : c.at(i, j)) : (r.chance(1, 2) ? m(i, j) : c(i, j))); } rc += "]"; }
    for (int k = 0; k < N * M; ++k) {
        if (k) { flat += ','; call += ','; sub += ','; }
        flat += num_(r.chance(1, 2) ? m.at(k) : c.at(k)); call += num_(r.chance(1, 2) ? m(k) : c(k)); sub += num_(r.chance(1, 2) ? m[k] : c[k]);
    }
    bool f = true; for (auto p = m.begin(); p != m.end(); ++p) { if (!f) it += ','; f = false; it += num_(*p); }
    f = true; for (auto const & v : c) { if (!f) cit += ','; f = false; cit += num_(v); }
    std::string s = "{\"rows\":" + std::to_string(c.rows()) + ",\"cols\":" + std::to_string(c.columns()) + ",\"size\":" + std::to_string(c.size()) +
        ",\"rc\":" + rc + "],\"flat\":" + flat + "],\"call\":" + call + "],\"sub\":" + sub + "],\"iter\":" + it + "],\"citer\":" + cit + "]}";
    Line l("look"); l.f("id", id).raw("now", s);
}
template< int N, int M > void store(int steps) {
    { Line l("session"); }
    typedef Mat<N,M> X;
    struct Box { T guard0[4]; X m; T guard1[4]; };
    static Box box[3];
    bool live[3] = { false, false, false };
    for (auto & b : box) for (int i = 0; i < 4; ++i) b.guard0[i] = b.guard1[i] = T(7);
    for (int s = 0; s < steps; ++s) {
        int i = r.below(3), j = r.below(3), op = r.below(11); X & m = box[i].m;
        if (!live[i]) op = r.below(4);
        if ((op == 3 || op == 4 || op == 5) && !live[j]) op = 0;
        T v = any(); int row = r.below(N), col = r.below(M), k = r.below(N * M);
        switch (op) {
            case 0: { m = X(v); Line l("fill"); l.f("id", i).f("n", N).f("m", M).raw("v", num_(v)); break; }
            case 1: { // initializer list, also a short one
                T a = any(), b = any(), c = any(); int n = N * M < 3 ? N * M : r.range(1, 3);
                if (n == 1) m = X{ a }; else if (n == 2) m = X{ a, b }; else m = X{ a, b, c };
                Line l("list"); l.f("id", i).f("n", N).f("m", M).raw("s", n == 1 ? "[" + num_(a) + "]" : n == 2 ? "[" + num_(a) + "," + num_(b) + "]" : "[" + num_(a) + "," + num_(b) + "," + num_(c) + "]"); break; }
            case 2: if constexpr (N == M) { m = num::eye<T,N>(); Line l("eye"); l.f("id", i).f("n", N); } else { m = X(v); Line l("fill"); l.f("id", i).f("n", N).f("m", M).raw("v", num_(v)); } break;
            case 3: { m = box[j].m; Line l("copy"); l.f("id", i).f("from", j); break; }
            case 4: { X t(box[j].m); m = std::move(t); Line l("copy"); l.f("id", i).f("from", j); break; }
            case 5: { X t(box[j].m); if (r.chance(1, 2)) t.at(0) = any(); else for (auto & e : t) e = T(3);     // writing to a copy
                      look(j, box[j].m); m = box[j].m; Line l("copy"); l.f("id", i).f("from", j); break; }
            case 6: { if (r.chance(1, 2)) m.at(row, col) = v; else m(row, col) = v; Line l("write"); l.f("id", i).f("row", row + 1).f("col", col + 1).raw("v", num_(v)); break; }
            case 7: { m.at(k) = v; Line l("wflat"); l.f("id", i).f("k", k).raw("v", num_(v)); break; }
            case 8: { m[k] = v; Line l("wflat"); l.f("id", i).f("k", k).raw("v", num_(v)); break; }
            case 9: { m(k) = v; Line l("wflat"); l.f("id", i).f("k", k).raw("v", num_(v)); break; }
            case 10: { *(m.begin() + k) = v; Line l("wflat"); l.f("id", i).f("k", k).raw("v", num_(v)); break; }
        }
        live[i] = true;
        for (int q = 0; q < 3; ++q) if (live[q] && (q == i || r.chance(1, 3))) look(q, box[q].m);
        for (auto & b : box) for (int q = 0; q < 4; ++q) if (b.guard0[q] != T(7) || b.guard1[q] != T(7)) { std::fprintf(stderr, "write outside the matrix\n"); std::abort(); }
    }
}
static void stores(int size) {
    store<1,1>(size); store<1,2>(size); store<2,1>(size); store<2,2>(size); store<2,3>(size); store<3,2>(size); store<3,3>(size); store<1,4>(size); store<4,1>(size); store<4,4>(size); store<3,5>(size);
    store<5,5>(size / 8); store<6,6>(size / 8); store<7,7>(size / 10); store<8,8>(size / 12); store<10,10>(size / 16); store<12,12>(size / 20); store<9,2>(size / 8); store<1,13>(size / 8); store<11,1>(size / 8);
    store<17,16>(3 + size / 120); store<1,300>(3 + size / 120); store<270,1>(3 + size / 120); store<3,90>(3 + size / 120);
}

// --- transposition and inversion -------------------------------------------
template< int N > void vecs() {
    auto c = random<N,1>(); auto w = random<1,N>();
    ALG("transposed", c, T(0), num::transposed(a)); ALG("transposed", w, T(0), num::transposed(a));
    { Line l("twice"); l.raw("a", rows(c)).raw("r", rows(num::transposed(num::transposed(c)))); }
    { Line l("twice"); l.raw("a", rows(w)).raw("r", rows(num::transposed(num::transposed(w)))); }
}
static void invs(int size) {
    { Line l("inv0"); l.raw("r", num_(num::inverted(T(0)))); }
    for (int i = 0; i < size; ++i) {
        vecs<2>(); vecs<3>(); vecs<4>(); vecs<7>(); if (i % 8 == 0) { vecs<5>(); vecs<6>(); vecs<8>(); vecs<9>(); vecs<12>(); vecs<16>(); }
        { auto m = random<2,2>(); ALG("transposed", m, T(0), num::transposed(a)); { Line l("twice"); l.raw("a", rows(m)).raw("r", rows(num::transposed(num::transposed(m)))); } }
#if defined KV_FIELD || defined KV_REAL
        T v = any(); if (v != T(0)) { T w = num::inverted(v); Line l("inv"); l.raw("a", rows(v)).raw("r", rows(w)).raw("a2", rows(v)); }
        auto m = random<2,2>();
        int kind = r.below(4);
        if (kind == 0) m(0, 1) = m(1, 0);               // symmetric
#ifdef KV_REAL
        if (kind == 2) { m(3) = m(1) * m(2) / (m(0) == T(0) ? T(1) : m(0)) * T(1 + std::ldexp(r.sym(), -r.range(0, 12))); }   // nearly singular
#endif
        if (kind == 1) m(0, 1) = m(1, 0) = T(0);
        if (m(0) * m(3) - m(1) * m(2) != T(0)) {
            auto m0 = m; auto x = num::inverted(m);
            { Line l("inv"); l.raw("a", rows(m0)).raw("r", rows(x)).raw("a2", rows(m)); }
#ifdef KV_FIELD
            { Line l("twice"); l.raw("a", rows(m0)).raw("r", rows(num::inverted(num::inverted(m)))); }
#endif
        }
#endif
    }
}
int main(int argc, char ** argv) {
    std::string what = argv[1]; r = Rng(std::strtoull(argv[2], 0, 10)); int size = std::atoi(argv[3]);
    if (what == "alg") algebra(size); if (what == "store") stores(size); if (what == "inv") invs(size);
}
