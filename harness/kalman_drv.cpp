// Drives num::kalman<T,2,M,U> through random multi-instance histories and logs
// every call with its arguments and the observers of the touched estimator.
//   kalman_drv <type> <seed> <sessions> <steps> [style]
// style 0: several estimators mixed; 1: one long history; 2: many updates, then
// single ones; 3: as 1 with two measurements; 4: same model and covariance, other
// data; 5: run into the steady state; 6: fixed point without rounding; 7: a long
// life, reported where it is furthest from a plain recursion, and at its end
#include "mat.hpp"
#include "dsp/kalman.hpp"
#include <memory>
#include <algorithm>
using namespace kv;


#ifdef KV_FIXED
template< typename T > constexpr bool fixed = is_fixed<T>::value;
template< typename T > double dbl(T x) { if constexpr (fixed<T>) return value(x); else return (double)x; }
#else
template< typename T > constexpr bool fixed = false;
template< typename T > double dbl(T x) { return (double)x; }
#endif

template< typename T > struct Gen {
    Rng & r; int style; double mag;
    T num() {
        if constexpr (std::is_same<T, Fp>::value) return r.chance(1, 8) ? Fp(0) : r.chance(1, 8) ? Fp(1) : Fp(r.below(Fp::P));
        else {
            if (r.chance(1, 10)) return 0;
            if (r.chance(1, 12)) return 1;
            if (r.chance(1, 16)) return -1;
            double v = r.sym() * mag;
            if (!fixed<T> && r.chance(1, 8)) v *= std::ldexp(1.0, r.range(-20, 12));
            if (fixed<T> && r.chance(1, 8)) v *= 3;
            return (T)v;
        }
    }
    template< int N, int M > num::matrix<T,N,M> mat() {
        num::matrix<T,N,M> m(T(0));
        for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) m.at(i, j) = num();
        return m;
    }
    // symmetric; for reals positive semi-definite (definite if pd)
    template< int N > num::matrix<T,N,N> cov(bool pd) {
        num::matrix<T,N,N> m(T(0));
        if constexpr (std::is_same<T, Fp>::value) {
            for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) m.at(i, j) = m.at(j, i) = num();
            if (r.chance(1, 10)) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m.at(i, j) = pd && i == j ? T(1) : T(0);
        } else {
            int kind = r.below(6);
            double a = std::fabs(dbl(num())), b = std::fabs(dbl(num())), c = r.sym();
            if (pd) { a += (fixed<T> ? 0.3 : 0.05) * mag; b += (fixed<T> ? 0.3 : 0.05) * mag; c *= 0.9; }
            if (kind == 0 && !pd) a = b = 0;
            if (kind == 1) c = 0;
            if (N == 1) { m.at(0, 0) = (T)a; return m; }
            m.at(0, 0) = (T)a; m.at(N - 1, N - 1) = (T)b;
            T o = (T)(c * std::sqrt(a) * std::sqrt(b) * 0.999);
            m.at(0, N - 1) = m.at(N - 1, 0) = o;
        }
        return m;
    }
};

template< typename T, int M, int U > struct Session {
    using K = num::kalman<T,2,M,U>;
    struct Model { num::matrix<T,2,2> A, Q, P; num::matrix<T,2,U> B; num::matrix<T,M,2> H; num::matrix<T,M,M> R; T dt; } last;
    struct Est { std::unique_ptr<K> k; bool updated = false; Model m; };
    std::vector<Est> es;
    Rng & r; Gen<T> g; int style;
    Session(Rng & r_, int style_) : r(r_), g{r_, style_, 1.0}, style(style_) {}

    static void fields(Line & l, Est & e) {
        K const & k = *e.k;
        l.raw("x", rows(k.system_state())).raw("P", rows(k.estimation_error_covariance()));
        if (e.updated) l.raw("K", rows(k.kalman_gain()));
        l.f("t", (T)k.time());
    }
    // like >= 0, -1: same model and covariance as the last one, -2: stable model, -3: same model
    int create(int like = -1) {
        if (like >= 0 || like == -3) {
            auto & m = last;
            auto P = like >= 0 ? m.P : g.template cov<2>(false);
            auto x = g.template mat<2,1>();
            Est e; e.m = last; e.k.reset(new K(m.dt, m.A, m.B, m.H, m.Q, m.R, P, x));
            int id = (int)es.size(); es.push_back(std::move(e));
            Line l("new"); l.f("id", id).raw("A", rows(m.A)).raw("B", rows(m.B)).raw("H", rows(m.H)).raw("Q", rows(m.Q)).raw("R", rows(m.R))
                .raw("P0", rows(P)).raw("x0", rows(x)).f("dt", m.dt); fields(l, es[id]);
            return id;
        }
        g.mag = fixed<T> || std::is_same<T, Fp>::value || r.chance(1, 2) ? 1.0 : std::is_same<T, double>::value && r.chance(1, 4) ? std::ldexp(1.0, r.range(-50, 50)) : std::ldexp(1.0, r.range(-8, 8));
        auto A = g.template mat<2,2>();
        if (!std::is_same<T, Fp>::value) {
            if (g.mag > 2) for (auto & a : A) a = (T)(dbl(a) / g.mag);
            // stay away from explosive models
            double n = 0; for (auto & a : A) { double b = std::fabs(dbl(a)); if (b > n) n = b; }
            if (fixed<T> && r.chance(2, 3)) n *= 1.6;
            if (n > 1) for (auto & a : A) a = (T)(dbl(a) / n);
        }
        if (like == -2) { double n = 0; for (auto & a : A) { double b = std::fabs(dbl(a)); if (b > n) n = b; } if (n > 0) for (auto & a : A) a = (T)(dbl(a) / n * 0.45); }
        else if (r.chance(1, 5)) { A.at(0,0) = 1; A.at(1,1) = 1; A.at(1,0) = 0; A.at(0,1) = (T)0.125; }   // position, velocity
        auto B = g.template mat<2,U>(); auto H = g.template mat<M,2>();
        if (r.chance(1, 8)) for (int j = 0; j < 2; ++j) H.at(r.below(M), j) = 0;
        if (r.chance(1, 6)) { for (auto & h : H) h = 0; H.at(0, 0) = 1; if (M == 2) H.at(M - 1, 1) = 1; }
        auto Q = g.template cov<2>(false); auto R = g.template cov<M>(true); auto P = g.template cov<2>(false);
        if (style == 3 && !std::is_same<T, Fp>::value && !fixed<T> && r.chance(2, 3)) {
            // slow modes measured accurately: rounding errors live long
            A.at(0,0) = 1; A.at(1,1) = 1; A.at(1,0) = 0; A.at(0,1) = (T)std::ldexp(1.0, -r.range(1, 5));
            Q = g.template cov<2>(true);
            for (int i = 0; i < M; ++i) for (int j = 0; j < 2; ++j) { T s = (T)std::ldexp(1.0, r.range(0, 5)); H.at(i, j) = (T)(r.sym() * dbl(s)); }
        }
        auto x = g.template mat<2,1>();
        T dt = style == 1 || style == 3 ? (T)1 : std::is_same<T, Fp>::value ? g.num() : fixed<T> ? (T)std::ldexp((double)r.range(1, 63), -8) : (T)std::ldexp((double)r.range(1, 63), -r.range(0, 8));
        if (!std::is_same<T, Fp>::value && r.chance(1, 10)) dt = r.chance(1, 3) ? T(0) : -dt;
        last.A = A; last.B = B; last.H = H; last.Q = Q; last.R = R; last.P = P; last.dt = dt;
        Est e; e.m = last;
        if constexpr (M == 1) e.k.reset(es.size() & 1 ? new K(dt, A, B, H, Q, R(0), P, x) : new K(dt, A, B, H, Q, R, P, x)); else e.k.reset(new K(dt, A, B, H, Q, R, P, x));
        int id = (int)es.size();
        { Line l("new"); l.f("id", id).raw("A", rows(A)).raw("B", rows(B)).raw("H", rows(H)).raw("Q", rows(Q)).raw("R", rows(R))
            .raw("P0", rows(P)).raw("x0", rows(x)).f("dt", dt); fields(l, e); }
        // the source objects are not part of the estimator
        for (auto * m : { &A, &Q, &P }) for (auto & v : *m) v = 7;
        for (auto & v : B) v = 7; for (auto & v : H) v = 7; for (auto & v : R) v = 7; for (auto & v : x) v = 7;
        es.push_back(std::move(e));
        return id;
    }
    // a model of few-bit numbers and an innovation covariance of powers of two: the first
    // update needs no rounding
    T few(int bits, int n) { return (T)std::ldexp((double)r.range(-n, n), -bits); }
    static void innov(num::matrix<T,2,2> const & A, num::matrix<T,M,2> const & H, num::matrix<T,2,2> const & Q, num::matrix<T,2,2> const & P, double (&S)[2][2]) {
        for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) {
            double s = 0;
            for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) {
                double p = dbl(Q.at(k, l)); for (int m = 0; m < 2; ++m) for (int n = 0; n < 2; ++n) p += dbl(A.at(k, m)) * dbl(P.at(m, n)) * dbl(A.at(l, n));
                s += dbl(H.at(i, k)) * p * dbl(H.at(j, l)); }
            S[i][j] = s;
        }
    }
    int dyadic() {
        int const F = T::fractional_digits; int b = r.below(F >= 16 ? 3 : 2), pb = r.below(3);
        auto small = [&](auto & m, int b) { for (auto & v : m) { v = r.chance(1, 4) ? T(0) : r.chance(1, 3) ? T(1) : few(b, 2 << b); } };
        num::matrix<T,2,2> A(T(0)), Q(T(0)), P(T(0)); num::matrix<T,2,U> B(T(0)); num::matrix<T,M,2> H(T(0)); num::matrix<T,M,M> R(T(0));
        small(A, r.below(b + 1)); small(B, r.below(b + 1)); small(H, r.below(2) ? 0 : b);
        if (r.chance(1, 3)) { A.at(0, 0) = A.at(1, 1) = 1; A.at(1, 0) = 0; }
        P.at(0, 0) = (T)std::ldexp((double)r.range(0, 2 << pb), -pb); P.at(1, 1) = (T)std::ldexp((double)r.range(0, 2 << pb), -pb); if (r.chance(1, 2)) P.at(0, 1) = P.at(1, 0) = few(pb, 1 << pb);
        Q.at(0, 0) = (T)std::ldexp((double)r.range(0, 2), -r.below(pb + 1)); Q.at(1, 1) = (T)std::ldexp((double)r.range(0, 2), -r.below(pb + 1));
        double S[2][2]; innov(A, H, Q, P, S);
        double mx = 0; for (int i = 0; i < M; ++i) mx = std::fmax(mx, std::fabs(S[i][i]));
        double d = 0.25; while (d <= mx) d *= 2; if (r.chance(1, 3)) d *= 2;
        if (d >= 8) { for (auto & v : H) v = 0; H.at(0, 0) = 1; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) S[i][j] = 0; for (auto & v : P) v = 0; for (auto & v : Q) v = 0; Q.at(0, 0) = S[0][0] = 1; d = 2; }
        for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) R.at(i, j) = (T)((i == j ? d : 0) - S[i][j]);
        num::matrix<T,2,1> x(T(0)); xb = r.below(F + 1); for (auto & v : x) v = few(xb, 2 << xb);
        last.A = A; last.B = B; last.H = H; last.Q = Q; last.R = R; last.P = P; last.dt = (T)std::ldexp((double)r.range(1, 63), -r.range(5, F));
        Est e; e.m = last; e.k.reset(new K(last.dt, A, B, H, Q, R, P, x));
        int id = (int)es.size(); es.push_back(std::move(e));
        Line l("new"); l.f("id", id).raw("A", rows(A)).raw("B", rows(B)).raw("H", rows(H)).raw("Q", rows(Q)).raw("R", rows(R))
            .raw("P0", rows(P)).raw("x0", rows(x)).f("dt", last.dt); fields(l, es[id]);
        return id;
    }
    int xb = 0;
    void exact(int n) {
        for (int s = 0; s < n; ++s) {
            if (s) { Line l("session"); l.f("M", M).f("U", U).f("style", style); es.clear(); }
            int j = dyadic();
            for (int k = 0; k < 2; ++k) {
                double S[2][2] = {}; innov(last.A, last.H, last.Q, es[j].k->estimation_error_covariance(), S);
                for (int i = 0; i < M; ++i) for (int n = 0; n < M; ++n) S[i][n] += dbl(last.R.at(i, n));
                double d = M == 1 ? S[0][0] : S[0][0] * S[1][1] - S[0][1] * S[1][0];
                if (k && (!(std::fabs(d) > 0.2) || std::fabs(d) > 8)) break;
                num::matrix<T,U,1> u(T(0)); num::matrix<T,M,1> z(T(0));
                for (auto & v : u) v = few(xb, 2 << xb); for (auto & v : z) v = few(xb, 4 << xb);
                update(j, u, z);
            }
        }
    }
    int copy(int j) {
        Est e; e.k.reset(new K(*es[j].k)); e.updated = es[j].updated; e.m = es[j].m;
        int id = (int)es.size(); es.push_back(std::move(e));
        Line l("copy"); l.f("id", id).f("from", j); fields(l, es[id]);
        return id;
    }
    void obs(int j) { Line l("obs"); l.f("id", j); fields(l, es[j]); }
    num::matrix<T,U,1> ctl() {
        auto u = g.template mat<U,1>();
        if (r.chance(1, 8)) for (auto & v : u) v = 0;
        return u;
    }
    num::matrix<T,M,1> meas(int j, num::matrix<T,U,1> const & u) {
        auto z = g.template mat<M,1>();
        if (r.chance(1, 8)) { // exactly the current state where measured directly
            auto x = es[j].k->system_state(); z.at(0) = x.at(0); if (M == 2) z.at(M - 1) = x.at(1); }
        if (r.chance(1, 20)) for (auto & v : z) v = 0;
        if (r.chance(1, 6)) { // exactly what the estimator predicts, in all or one of the outputs, or about that
            Model const & m = es[j].m;
            num::matrix<T,2,1> x; x = m.A * es[j].k->system_state() + m.B * u;
            num::matrix<T,M,1> p; p = m.H * x;
            int k = r.below(3);
            if (k == 0 || M == 1) z = p; else z.at(r.below(M)) = p.at(r.below(M));
            if (k == 1) for (int i = 0; i < M; ++i) z.at(i) = p.at(i) + (T)(z.at(i) * (T)0.0625);
        }
        if (!fixed<T> && !std::is_same<T, Fp>::value && r.chance(1, 30)) for (auto & v : z) v = (T)(dbl(v) * 1e6);
        return z;
    }
    int calls = 0;
    void update(int j, num::matrix<T,U,1> u, num::matrix<T,M,1> z) {
        auto u0 = u; auto z0 = z;
        // a single measurement or control may be given as a number
        int how = calls++ & 3;
        if constexpr (M == 1 && U == 1) { if (how == 3) es[j].k->update(u(0), z(0)); else if (how == 2) es[j].k->update(u, z(0)); else if (how == 1) es[j].k->update({ u(0) }, { z(0) }); else es[j].k->update(u, z); }
        else if constexpr (M == 1) { if (how == 3) es[j].k->update(u, z(0)); else es[j].k->update(u, z); }
        else if constexpr (U == 1) { if (how == 3) es[j].k->update(u(0), z); else es[j].k->update(u, z); }
        else es[j].k->update(u, z);
        es[j].updated = true;
        { Line l("upd"); l.f("id", j).raw("u", rows(u0)).raw("z", rows(z0)); fields(l, es[j]);
          l.raw("ua", rows(u)).raw("za", rows(z)); }
        for (auto & v : u) v = 9; for (auto & v : z) v = 9;
    }
    void step(int j) { auto u = ctl(); auto z = meas(j, u); update(j, u, z); }
    void jump(int j, int n) {
        auto u = g.template mat<U,1>(); auto z = g.template mat<M,1>();
        for (int i = 0; i < n; ++i) es[j].k->update(u, z);
        es[j].updated = true;
        Line l("jump"); l.f("id", j).f("n", n); fields(l, es[j]);
    }
    // estimators k and j of the same model and initial covariance, fed with unrelated data
    void twins(int steps) {
        int j = create(-1), k = create(j), i = create(j);
        int big = r.below(3);
        for (int s = 0; s < steps; ++s) {
            double m = g.mag;
            step(j);
            if (big == 0) g.mag = m * 1e4;
            step(k);
            g.mag = m;
            if (big == 1) { num::matrix<T,U,1> u(T(0)); num::matrix<T,M,1> z(T(0)); update(i, u, z); }
            else step(i);
            { Line l("cov"); l.f("id", k).f("of", j); }
            { Line l("cov"); l.f("id", i).f("of", j); }
        }
    }
    // a stable model: the covariance stops changing, and does not remember where it started
    void steady(int steps) {
        int j = create(-2), k = create(-3);
        jump(j, steps); jump(k, steps);
        { Line l("steady"); l.f("id", j); }
        { Line l("steady"); l.f("id", k); }
        { Line l("near"); l.f("id", k).f("of", j); }
        for (int s = 0; s < 3; ++s) step(j);
    }
    struct Rec { num::matrix<T,2,1> x{T(0)}; num::matrix<T,2,2> P{T(0)}; num::matrix<T,2,M> K{T(0)}; T t{}; num::matrix<T,U,1> u{T(0)}; num::matrix<T,M,1> z{T(0)}; };
    // how far an update is from the recursion in plain double arithmetic: only says where to look
    static double off(Model const & m, Rec const & a, Rec const & b) {
        auto at = [](auto const & X, int i, int j) { return dbl(X.at(i, j)); };
        double x[2], xa[2], P[2][2] = {}, Pa[2][2] = {}, d = 0;
        for (int i = 0; i < 2; ++i) { x[i] = xa[i] = 0; for (int j = 0; j < 2; ++j) { double v = at(m.A, i, j) * at(a.x, j, 0); x[i] += v; xa[i] += std::fabs(v); } for (int j = 0; j < U; ++j) { double v = at(m.B, i, j) * at(b.u, j, 0); x[i] += v; xa[i] += std::fabs(v); } }
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { P[i][j] = at(m.Q, i, j); for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) P[i][j] += at(m.A, i, k) * at(a.P, k, l) * at(m.A, j, l); Pa[i][j] = std::fabs(P[i][j]); }
        double e[2] = {}, ea[2] = {}, S[2][2] = { { 1, 0 }, { 0, 1 } }, K[2][2] = {};
        for (int i = 0; i < M; ++i) { e[i] = at(b.z, i, 0); ea[i] = std::fabs(e[i]); for (int j = 0; j < 2; ++j) { double v = at(m.H, i, j) * x[j]; e[i] -= v; ea[i] += std::fabs(at(m.H, i, j)) * xa[j]; } }
        for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) { S[i][j] = at(m.R, i, j); for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) S[i][j] += at(m.H, i, k) * P[k][l] * at(m.H, j, l); }
        double det = S[0][0] * S[1][1] - S[0][1] * S[1][0], I[2][2] = { { S[1][1] / det, -S[0][1] / det }, { -S[1][0] / det, S[0][0] / det } };
        for (int i = 0; i < 2; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < 2; ++k) for (int l = 0; l < M; ++l) K[i][j] += P[i][k] * at(m.H, l, k) * I[l][j];
        auto diff = [&](double got, double want, double mag) { double q = std::fabs(got - want) / (mag + 1e-300); if (!(q <= d)) d = q; };
        for (int i = 0; i < 2; ++i) {
            double v = x[i], w = xa[i]; for (int j = 0; j < M; ++j) { v += K[i][j] * e[j]; w += std::fabs(K[i][j]) * ea[j]; } diff(at(b.x, i, 0), v, w);
            for (int j = 0; j < M; ++j) diff(at(b.K, i, j), K[i][j], std::fabs(K[i][j]) + 1e-3);
            for (int j = 0; j < 2; ++j) { double p = P[i][j]; for (int k = 0; k < M; ++k) for (int l = 0; l < 2; ++l) p -= K[i][k] * at(m.H, k, l) * P[l][j]; diff(at(b.P, i, j), p, Pa[0][0] + Pa[1][1]); }
        }
        double dt = dbl(b.t) - dbl(a.t) - dbl(m.dt); if (std::fabs(dt) > 0.01 * std::fabs(dbl(m.dt))) d += std::fabs(dt / dbl(m.dt));
        return d;
    }
    void marathon(int steps) {
        int j = create(-2); K & k = *es[j].k; std::vector<Rec> h(1);
        auto rec = [&](Rec & q) { q.x = k.system_state(); q.P = k.estimation_error_covariance(); q.t = k.time(); };
        rec(h[0]); std::vector<std::pair<double,int>> worst;
        for (int i = 1; i <= steps; ++i) {
            Rec q; q.u = ctl(); q.z = meas(j, q.u); k.update(q.u, q.z); rec(q); q.K = k.kalman_gain(); h.push_back(q);
            double d = off(es[j].m, h[i - 1], q);
            if (worst.size() < 3) worst.push_back({ d, i }); else { auto w = std::min_element(worst.begin(), worst.end()); if (d > w->first || d != d) *w = { d != d ? 1e300 : d, i }; }
        }
        worst.push_back({ 0, steps }); worst.push_back({ 0, r.range(10, steps) });
        std::sort(worst.begin(), worst.end(), [](auto & a, auto & b) { return a.second < b.second; });
        int now = 0;
        auto say = [&](Line & l, Rec const & q) { l.raw("x", rows(q.x)).raw("P", rows(q.P)).raw("K", rows(q.K)).f("t", q.t); };
        for (auto & w : worst) {
            int from = w.second - 3, to = std::min(steps, w.second + 2);
            if (from > now) { Line l("jump"); l.f("id", j).f("n", from - now); say(l, h[from]); now = from; }
            while (now < to) { ++now; Line l("upd"); l.f("id", j).raw("u", rows(h[now].u)).raw("z", rows(h[now].z)); say(l, h[now]); l.raw("ua", rows(h[now].u)).raw("za", rows(h[now].z)); }
        }
    }
    void run(int steps) {
        { Line l("session"); l.f("M", M).f("U", U).f("style", style); }
        if (style == 4) return twins(steps);
        if (style == 5) return steady(steps);
        if (style == 7) { if constexpr (std::is_floating_point<T>::value) return marathon(steps); }
        if (style == 6) { if constexpr (fixed<T>) return exact(steps); }
        create();
        for (int s = 0; s < steps; ++s) {
            int j = r.below((int)es.size());
            if (style == 2) { if (s == 0) jump(0, r.chance(1, 2) ? 70000 + r.below(3000) : 300 + r.below(66000)); step(0); continue; }
            int c = r.below(40);
            if (style == 1 || style == 3) c = 30;
            if (c == 0 && es.size() < 5) create();
            else if (c <= 2 && es.size() < 6) {
                // twin: a copy fed with the same inputs must follow exactly
                int k = copy(j);
                int n = r.range(1, 4);
                for (int i = 0; i < n; ++i) {
                    auto u = ctl(); auto z = meas(j, u);
                    update(j, u, z); if (r.chance(1, 2)) obs(k);
                    update(k, u, z);
                    Line l("same"); l.f("id", k).f("of", j);
                }
            }
            else if (c <= 4) obs(j);
            else step(j);
            if (style != 1 && style != 3) { int k = r.below((int)es.size()); if (k != j || r.chance(1, 4)) obs(k); if (r.chance(1, 6)) obs(k); }
        }
        for (int j = 0; j < (int)es.size(); ++j) obs(j);
    }
};

template< typename T > void sessions(uint64_t seed, int n, int steps, int style) {
    Rng r(seed);
    for (int s = 0; s < n; ++s) {
        int c = (s + (int)seed) % 6;
#ifdef KV_SINGLE
        c = c % 3 == 2 ? 4 : c % 3;       // single measurements
#endif
        if (style == 3) c = c / 2 == 0 ? 2 : c / 2 == 1 ? 3 : 5;
        switch (c) {
            case 0: { Session<T,1,1> k(r, style); k.run(steps); break; }
            case 1: { Session<T,1,2> k(r, style); k.run(steps); break; }
            case 2: { Session<T,2,1> k(r, style); k.run(steps); break; }
            case 3: { Session<T,2,2> k(r, style); k.run(steps); break; }
            case 4: { Session<T,1,3> k(r, style); k.run(steps); break; }
            case 5: { Session<T,2,3> k(r, style); k.run(steps); break; }
        }
    }
}

int main(int argc, char ** argv) {
    std::string t = argv[1]; uint64_t seed = std::strtoull(argv[2], 0, 10); int n = std::atoi(argv[3]), steps = std::atoi(argv[4]);
    int style = argc > 5 ? std::atoi(argv[5]) : 0;
#ifdef KV_FIELD
    if (t == "field") sessions<Fp>(seed, n, steps, style);
#endif
#ifdef KV_FIXED
    if (t == "q7.8") sessions< num::fixed_point<int16_t,7> >(seed, n, steps, style);
    if (t == "q4.11") sessions< num::fixed_point<int16_t,4> >(seed, n, steps, style);
    if (t == "q15.16") sessions< num::fixed_point<int32_t,15> >(seed, n, steps, style);
    if (t == "q8.23") sessions< num::fixed_point<int32_t,8> >(seed, n, steps, style);
#else
    if (t == "double") sessions<double>(seed, n, steps, style);
    if (t == "float") sessions<float>(seed, n, steps, style);
#endif
}
