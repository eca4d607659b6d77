// Designs and design helpers, for DesignTrace.tla.
//   design_drv biquad|onepole|cheby|helpers SEED N       (-DKV_T=double|float)
#include "trace.hpp"
#include "dsp/filter.hpp"
#include "dsp/filter-design.hpp"
#include "dsp/biquad-design.hpp"
#include "dsp/onepole-design.hpp"
#include "dsp/chebyshev-design.hpp"
using namespace kv;
#ifndef KV_T
# define KV_T double
#endif
using T = KV_T;
constexpr bool single = sizeof(T) == 4;
using FR = dsp::FilterResponse;
using V = std::vector<double>;
template< typename Q > V bv2(Q const & q) { return { (double)q.b0, (double)q.b1, (double)q.b2 }; }
template< typename Q > V av2(Q const & q) { return { (double)q.a1, (double)q.a2 }; }

struct Par { double db, f, fs, q; };
double logu(Rng & r, double a, double b) { return a * std::pow(b / a, r.unit()); }

Par params(Rng & r, bool ints) {
    Par p; static const double rates[] = { 8000, 44100, 48000, 96000, 1000, 100, 2, 1 };
    p.fs = r.chance(1, 2) ? rates[r.below(8)] : logu(r, 1e-3, 1e6);
    if (ints) { p.fs = r.range(3, 96000); p.f = r.range(1, (int)(p.fs - 1) / 2); p.q = r.chance(1, 2) ? 1 : r.range(1, 50); p.db = r.chance(1, 8) ? 0 : r.range(-60, 60); return p; }
    double x;
    switch (r.below(8)) {
        case 0: x = logu(r, single ? 1e-4 : 1e-7, 0.1); break;
        case 1: x = 0.5 - logu(r, single ? 1e-4 : 1e-7, 0.1); break;
        case 2: x = 0.25; break;
        case 3: { static const double k[] = { 0.125, 0.375, 0.0625, 0.1, 0.2, 1. / 3 }; x = k[r.below(6)]; break; }
        default: x = 0.001 + 0.498 * r.unit();
    }
    p.f = x * p.fs;
    p.q = r.chance(1, 4) ? 0.70710678118654752 : r.chance(1, 4) ? r.range(1, 20) : logu(r, single ? 1e-2 : 1e-3, single ? 1e3 : 1e6);
    p.db = r.chance(1, 8) ? 0 : r.chance(1, 3) ? r.range(-24, 24) : r.chance(1, 4) ? r.sym() * 0.1 : r.sym() * 60;
    p.f = (T)p.f; p.fs = (T)p.fs; p.q = (T)p.q; p.db = (T)p.db;
    return p;
}
bool bits(V const & a, V const & b) { return a.size() == b.size() && !std::memcmp(a.data(), b.data(), a.size() * sizeof(double)); }
bool zero(V const & a) { for (double x : a) if (x != 0) return false; return true; }

template< FR R, typename D, typename F, typename S, typename QT > void biquad1(char const * kind, bool hasdb, Par p) {
    auto c = dsp::biquad_design<R>((D)p.db, (F)p.f, (S)p.fs, (QT)p.q);
    auto q = dsp::make_biquad(c);
    auto m = dsp::biquad_design<R>((D)-(D)p.db, (F)p.f, (S)p.fs, (QT)p.q);
    auto w = q.state();
    bool made = bits(bv2(q.coeff_b()), bv2(c.b)) && bits(av2(q.coeff_a()), av2(c.a)) && zero({ (double)w.v1, (double)w.v2 });
    Line("biquad").f("kind", kind).f("hasdb", hasdb).f("db", (double)(D)p.db).f("f", (double)(F)p.f).f("fs", (double)(S)p.fs).f("q", (double)(QT)p.q)
        .f("b", bv2(q.coeff_b())).f("a", av2(q.coeff_a())).f("ib", bv2(m.b)).f("ia", av2(m.a)).f("made", made);
}
template< FR R > void biquad(Rng & r, char const * kind, bool hasdb) {
    Par p = params(r, false), i = params(r, true);
    double fr = r.below(8) / 8.0 + i.fs;                     // with a fraction
    switch (r.below(8)) {
        case 0: biquad1<R,T,T,T,T>(kind, hasdb, p); break;
        case 1: biquad1<R,T,T,T,T>(kind, hasdb, p); break;
        // double: types that make the common type double, float: those that make it float
#ifdef KV_INTS
        case 2: biquad1<R,int,int,int,int>(kind, hasdb, i); break;
        case 3: biquad1<R,short,int,long,int>(kind, hasdb, i); break;
        case 4: biquad1<R,int,int,int,float>(kind, hasdb, { i.db, i.f, i.fs, p.q }); break;
        case 5: biquad1<R,int,int,float,int>(kind, hasdb, { i.db, i.f, fr, i.q }); break;
        case 6: biquad1<R,int,float,int,float>(kind, hasdb, { i.db, (float)(i.f + 0.375), i.fs, p.q }); break;
        default: biquad1<R,float,int,int,int>(kind, hasdb, i); break;
#else
        case 2: biquad1<R,int,T,T,T>(kind, hasdb, { i.db, p.f, p.fs, p.q }); break;
        case 3: biquad1<R,T,T,T,int>(kind, hasdb, { p.db, p.f, p.fs, i.q }); break;
        case 4: biquad1<R,T,int,int,T>(kind, hasdb, { p.db, i.f, i.fs, p.q }); break;
        case 5: biquad1<R,int,int,T,int>(kind, hasdb, { i.db, i.f, fr, i.q }); break;
        case 6: biquad1<R,int,int,int,T>(kind, hasdb, { i.db, i.f, i.fs, p.q }); break;
        default: biquad1<R,float,T,int,float>(kind, hasdb, { (float)p.db, (T)(i.fs * (p.f / p.fs < 0.4999 ? p.f / p.fs : 0.4)), i.fs, (float)p.q }); break;
#endif
    }
}
template< FR R, typename F, typename S > void onepole1(Rng & r, char const * kind, double f, double fs) {
    auto c = dsp::onepole_design<R>((F)f, (S)fs);
    auto q = dsp::make_onepole(c);
    bool made = q.coeff_b().b0 == c.b.b0 && q.coeff_a().a1 == c.a.a1 && q.state().v1 == 0;
    V w; double x = 0; w.push_back(0); for (int i = 0; i < 5; ++i) w.push_back(x += logu(r, 1e-4, 10));     // tan of half the angle, rising
    Line("onepole").f("kind", kind).f("f", (double)(F)f).f("fs", (double)(S)fs).f("b", V{ (double)q.coeff_b().b0 }).f("a", V{ (double)q.coeff_a().a1 }).f("w", w).f("made", made);
}
template< FR R > void onepole(Rng & r, char const * kind) {
    Par p = params(r, false), i = params(r, true);
#ifdef KV_INTS
    switch (r.below(4)) {
        case 0: onepole1<R,int,int>(r, kind, i.f, i.fs); break;
        case 1: onepole1<R,long,int>(r, kind, i.f, i.fs); break;
        case 2: onepole1<R,float,int>(r, kind, i.f + r.below(4) / 8.0, i.fs); break;
        default: onepole1<R,int,float>(r, kind, i.f, i.fs + r.below(16) / 16.0);
    }
#else
    switch (r.below(4)) {
        case 0: onepole1<R,T,int>(r, kind, (T)(i.fs * (p.f / p.fs < 0.4999 ? p.f / p.fs : 0.4)), i.fs); break;
        case 1: onepole1<R,int,T>(r, kind, i.f, i.fs + r.unit()); break;
        default: onepole1<R,T,T>(r, kind, p.f, p.fs);
    }
#endif
}

template< typename C > void cheby_line(int type, bool lp, double fs, double fp, double fst, double ap, double as, C const & c) {
    auto cas = dsp::make_biquad_cascade<20>(c);
    bool made = cas.size() == (int)c.size() && c.a.size() == c.b.size();
    std::string bs = "[", as_ = "[";
    for (int i = 0; i < (int)c.size(); ++i) {
        if (i) { bs += ','; as_ += ','; }
        bs += js(bv2(cas.coeff_b(i))); as_ += js(av2(cas.coeff_a(i)));
        auto w = cas.state(i);
        made = made && bits(bv2(cas.coeff_b(i)), bv2(c.b[i])) && bits(av2(cas.coeff_a(i)), av2(c.a[i])) && w.v1 == 0 && w.v2 == 0;
    }
    // frequencies: the edges, a grid over each band, the extremes of the ripple
    V pass, stop, other; const double pi = 3.14159265358979323846;
    auto warp = [&](double f) { return std::tan(pi * f / fs); };
    auto unwarp = [&](double w) { return fs / pi * std::atan(w); };
    auto inpass = [&](double f) { return lp ? f <= fp : f >= fp && f < fs / 2; };
    auto instop = [&](double f) { return lp ? f >= fst && f < fs / 2 : f <= fst; };
    pass.push_back(fp); stop.push_back(fst);
    double top = fs / 2 * (1 - 1e-6);
    for (int i = 0; i < 6; ++i) {
        double u = i / 5.;
        double a = lp ? fp * u : fp + (top - fp) * u, b = lp ? fst + (top - fst) * u : fst * u;
        if (inpass(a)) pass.push_back(a); if (instop(b)) stop.push_back(b);
        double o = fp + (fst - fp) * (i + 0.5) / 6; other.push_back(o);
    }
    int N = c.info.N;
    for (int k = 0; k <= 2 * N && k <= 40; ++k) {
        double u = std::cos(k * pi / (2 * N));           // zero and one of the ripple
        if (std::fabs(u) < 1e-9) continue;
        double W = warp(type == 1 ? fp : fst), w = type == 1 ? (lp ? W * u : W / u) : (lp ? W / u : W * u);
        double f = unwarp(w);
        if (type == 1 ? inpass(f) : instop(f)) (type == 1 ? pass : stop).push_back(f);
    }
    if (c.size() > 10) { }
    Line("cheby").f("type", type).f("kind", lp ? "lp" : "hp").f("fs", fs).f("fpass", fp).f("fstop", fst).f("ap", ap).f("as", as)
        .f("n", N).f("f3", (double)c.info.f3).raw("b", bs + "]").raw("a", as_ + "]").f("made", made).f("pass", pass).f("stop", stop).f("other", other);
}
template< typename FS, typename FP, typename FT, typename AP, typename AS > void cheby(int type, bool lp, double fs, double fp, double ft, double ap, double as) {
    FR k = lp ? FR::low_pass : FR::high_pass;
    fs = (FS)fs; fp = (FP)fp; ft = (FT)ft; ap = (AP)ap; as = (AS)as;
    if (!(lp ? fp * 1.04 < ft : ft * 1.04 < fp)) return;
    if (type == 1) cheby_line(1, lp, fs, fp, ft, ap, as, dsp::chebyshev1_lp_hp(k, (FS)fs, (FP)fp, (FT)ft, (AP)ap, (AS)as));
    else           cheby_line(2, lp, fs, fp, ft, ap, as, dsp::chebyshev2_lp_hp(k, (FS)fs, (FP)fp, (FT)ft, (AP)ap, (AS)as));
}
#ifdef KV_ONLY_cheby
void cheby(Rng & r) {
    static const double rates[] = { 8000, 44100, 48000, 96000, 1000, 100, 20, 1 };
    double fs = rates[r.below(8)];
    for (;;) {
        bool ints = r.chance(1, 4); int type = r.range(1, 2); bool lp = r.chance(1, 2);
        double a, b;                                        // lower and upper edge
        if (ints) { fs = r.range(20, 96000); a = r.range(1, (int)fs / 2 - 3); b = r.range((int)a + 1, (int)(fs - 1) / 2); }
        else { a = fs * (r.chance(1, 4) ? logu(r, 1e-3, 0.4) : 0.01 + 0.45 * r.unit()); double t = 3.14159265358979 * a / fs; double w = std::tan(t) * (1.05 + logu(r, 0.01, 5)); b = fs / 3.14159265358979 * std::atan(w); }
        if (!(b < 0.499 * fs)) continue;
        double ap = r.chance(1, 6) ? 3 : r.chance(1, 6) ? 0.5 : logu(r, single ? 0.05 : 0.01, 6), as = r.chance(1, 5) ? 3.0103 + r.unit() : r.range(10, single ? 60 : 100);
        if (r.chance(1, 10)) ap = r.chance(1, 2) ? 0 : 0.005;     // the least ripple is 0.01
        if (ints) { ap = r.range(1, 4); as = r.range(6, 60); }
        if (as < 1.1 * std::max(ap, 0.01) + 0.01) continue;
        double W = std::tan(3.14159265358979 * b / fs) / std::tan(3.14159265358979 * a / fs);
        double ep = std::sqrt(std::pow(10, std::max(ap, 0.01) / 10) - 1), es = std::sqrt(std::pow(10, as / 10) - 1);
        double nex = std::acosh(es / ep) / std::acosh(W);
        if (nex > (single ? 8 : 16)) continue;
        double fp = lp ? a : b, ft = lp ? b : a;
        switch (r.below(4)) {
#ifdef KV_INTS
            case 0: if (!ints) continue; return cheby<int,int,int,int,int>(type, lp, fs, fp, ft, ap, as);
            case 1: if (!ints) continue; return cheby<int,int,int,float,float>(type, lp, fs, fp, ft, ap, as);
            default: return cheby<float,float,float,float,float>(type, lp, (float)fs, (float)fp, (float)ft, (float)ap, (float)as);
#else
            case 0: if (!ints) continue; return cheby<int,T,int,T,int>(type, lp, fs, fp, ft, ap, as);
            case 1: if (!ints) continue; return cheby<int,int,int,T,float>(type, lp, fs, fp, ft, ap, as);
            default: return cheby<T,T,T,T,T>(type, lp, fs, fp, ft, ap, as);
#endif
        }
    }
}
#endif
#ifdef KV_ONLY_helpers
template< typename A, typename B, typename R > void db(int k, A out, B in, R r) { Line("db").f("k", k).f("vout", (double)out).f("vin", (double)in).f("r", (double)r); }
void helpers(Rng & r) {
    T a = (T)logu(r, 1e-6, 1e6), b = (T)logu(r, 1e-6, 1e6); int i = r.range(1, 10000), j = r.range(1, 10000);
    T d = (T)(r.sym() * (single ? 120 : 200)); int n = r.range(-100, 100);
    if (r.chance(1, 10)) b = a; if (r.chance(1, 10)) { d = 0; n = 0; }
    auto fac = [](int k, double d, double y) { Line("factor").f("k", k).f("d", d).f("y", y); };
    db(10, a, b, dsp::dbP(a, b)); db(20, a, b, dsp::dbV(a, b));
    db(10, a, j, dsp::dbP(a, j)); db(20, a, j, dsp::dbV(a, j)); 
    fac(10, d, dsp::dbP_factor(d)); fac(20, d, dsp::dbV_factor(d));
    double x = params(r, false).f; Par p = params(r, false), q = params(r, true); (void)x;
    Line("prewarp").f("f", (double)(T)p.f).f("fs", (double)(T)p.fs).f("w", (double)dsp::prewarp((T)p.f, (T)p.fs));
    Line("prewarp").f("f", q.f).f("fs", q.fs).f("w", (double)dsp::prewarp((T)q.f, (int)q.fs));
    Line("prewarp").f("f", q.f).f("fs", q.fs).f("w", (double)dsp::prewarp((int)q.f, (T)q.fs));
#ifdef KV_INTS
    Line("prewarp").f("f", q.f).f("fs", q.fs).f("w", (double)dsp::prewarp((int)q.f, (int)q.fs));
    db(10, i, j, dsp::dbP(i, j)); db(20, i, j, dsp::dbV(i, j)); db(20, i, b, dsp::dbV(i, b));
    fac(10, n, dsp::dbP_factor(n)); fac(20, n, dsp::dbV_factor(n));
#else
    db(20, i, b, dsp::dbV(i, b)); db(20, (float)a, b, dsp::dbV((float)a, b));
#endif
}
#endif
int main(int argc, char ** argv) {
    std::string what = argv[1]; Rng r(std::strtoull(argv[2], 0, 10)); int n = std::atoi(argv[3]);
    for (int i = 0; i < n; ++i) {
#ifdef KV_ONLY_biquad
        switch (i % 7) {
            case 0: biquad<FR::low_pass>(r, "lp", false); break;
            case 1: biquad<FR::high_pass>(r, "hp", false); break;
            case 2: biquad<FR::band_pass>(r, "bp", false); break;
            case 3: biquad<FR::band_stop>(r, "bs", false); break;
            case 4: biquad<FR::low_shelf>(r, "ls", true); break;
            case 5: biquad<FR::high_shelf>(r, "hs", true); break;
            default: biquad<FR::peak_band_eq>(r, "pk", true);
        }
#endif
#ifdef KV_ONLY_onepole
        onepole<FR::low_pass>(r, "lp"); onepole<FR::high_pass>(r, "hp");
#endif
#ifdef KV_ONLY_cheby
        cheby(r);
#endif
#ifdef KV_ONLY_helpers
        helpers(r);
#endif
    }
}
