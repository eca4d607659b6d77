// Stream output, for TextTrace.tla.   text_drv SEED N
#define KV_FIXED
#include "trace.hpp"
#include "num/matrix.hpp"
#include "core/vector-io.hpp"
#include "num/matrix-io.hpp"
#include "num/fixed-point.hpp"
#include "num/fixed-point-io.hpp"
#include "dsp/filter.hpp"
#include "dsp/biquad.hpp"
#include "dsp/biquad-io.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/onepole.hpp"
#include "dsp/onepole-io.hpp"
#include "dsp/chebyshev-design.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include <sstream>
using namespace kv;
using Texts = std::vector<std::string>;
// the numbers of a text: not part of a word
Texts numbers(std::string const & t) {
    Texts r; size_t i = 0;
    auto word = [](char c) { return std::isalnum((unsigned char)c) || c == '_' || c == '.'; };
    while (i < t.size()) {
        if (!word(t[i]) && t[i] != '-' && t[i] != '+') { ++i; continue; }
        size_t b = i; if (t[i] == '-' || t[i] == '+') ++i;
        if (i < t.size() && std::isdigit((unsigned char)t[i])) {
            char * e; std::strtod(t.c_str() + b, &e); size_t n = e - t.c_str();
            r.push_back(t.substr(b, n - b)); i = n; while (i < t.size() && word(t[i])) ++i;
        } else { while (i < t.size() && word(t[i])) ++i; std::string w = t.substr(b, i - b); if (w == "nan" || w == "-nan" || w == "inf" || w == "-inf") r.push_back(w); }
    }
    return r;
}
std::string arr(std::vector<std::string> const & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i]; } return r + "]"; }
std::string jst(Texts const & v) { Texts q; for (auto & s : v) q.push_back(js(s)); return arr(q); }
// split at the verdicts
struct Split { Texts groups; std::vector<std::string> verdicts; };
Split split(std::string const & t) {
    Split s; size_t b = 0, p;
    while ((p = t.find("stable", b)) != std::string::npos) {
        std::string before = t.substr(b, p - b);
        s.groups.push_back(jst(numbers(before)));
        s.verdicts.push_back(before.size() >= 4 && before.substr(before.size() - 4) == "NOT " ? "false" : "true");
        b = p + 6;
    }
    s.groups.push_back(jst(numbers(t.substr(b)))); return s;
}
// the stream: its precision varies, its format settings must survive
int prec = 6; bool calm = true;
template< typename X > std::string print(X const & x) {
    std::ostringstream os; os.precision(prec); auto fl = os.flags(); os << x;
    calm = os.good() && os.flags() == fl && os.precision() == prec && os.width() == 0 && os.fill() == ' ';
    std::string t = os.str(); os << x; calm = calm && os.str() == t + t; return t; }
template< typename X > std::string hx(X const & x) { return js((double)x); }
template< typename X > std::string hx(std::complex<X> const & c) { return js((double)c.real()) + "," + js((double)c.imag()); }
template< typename... X > std::string list(X const &... x) { return arr({ hx(x)... }); }
template< typename X > bool same(X const & a, X const & b) { return !std::memcmp(&a, &b, sizeof a); }

template< typename T, int N, int M, typename G > void matrix(G g) {
    num::matrix<T,N,M> m; std::vector<std::string> rows;
    for (int i = 0; i < N; ++i) { std::vector<std::string> row; for (int j = 0; j < M; ++j) { m(i, j) = g(); row.push_back(hx(m(i, j))); } rows.push_back(arr(row)); }
    auto k = m; std::string t = print(m), line; Texts got; std::istringstream is(t); while (std::getline(is, line)) got.push_back(jst(numbers(line)));
    Line("matrix").f("prec", prec).raw("want", arr(rows)).raw("got", arr(got)).f("kept", calm && !std::memcmp(&k, &m, sizeof k));
}
template< typename X > void list1(X const & x, std::string want) { std::string t = print(x); Line("list").f("prec", prec).raw("want", want).raw("got", jst(numbers(t))).f("kept", calm); }
template< typename T, int I, int F > void fixed(Rng & r) { using X = num::fixed_point<T,I,F>; X x; 
    x = X((double)std::ldexp((double)(T)r.next(), -F)); auto k = x; std::string t = print(x); Line("list").f("prec", prec).raw("want", list(kv::value(k))).raw("got", jst(numbers(t))).f("kept", calm && same(k, x)); }
double val(Rng & r) { switch (r.below(6)) { case 0: return 0; case 1: return r.range(-9, 9); case 2: return r.sym() * std::pow(10, r.range(-12, 12)); default: return r.sym() * 3; } }
template< typename Q > std::string parts(Q const & q) {
    auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state(); auto p = q.poles(); auto z = q.zeros();
    if constexpr (sizeof(a) == sizeof(a.a1)) return arr({ list(a.a1), list(b.b0), list(w.v1), list(p.s0), list(z.s0) });
    else return arr({ list(a.a1, a.a2), list(b.b0, b.b1, b.b2), list(w.v1, w.v2), list(p.s0, p.s1), list(z.s0, z.s1) });
}
template< typename T > dsp::BiQuadT<T> biquad(Rng & r) {
    double m = r.unit() * 1.2, w = 3.14 * r.unit(); T a1 = (T)(-2 * m * std::cos(w)), a2 = (T)(m * m); if (r.chance(1, 4)) { a1 = (T)val(r); a2 = (T)(r.sym() * 2); }
    T b0 = (T)val(r); if (b0 == 0 || std::fabs(b0) < 1e-3) b0 = 1;
    dsp::BiQuadT<T> q({ b0, (T)val(r), (T)val(r) }, { a1, a2 }); for (int k = r.below(4); k; --k) q.step((T)r.sym()); return q;
}
template< typename T > void filters(Rng & r) {
    auto q = biquad<T>(r); auto k = q; Split s = split(print(q)); bool kept = same(k.state(), q.state()) && same(k.coeff_a(), q.coeff_a()) && same(k.coeff_b(), q.coeff_b());
    Line("section").f("prec", prec).raw("want", parts(q)).f("stable", (bool)q.is_stable()).raw("verdicts", arr(s.verdicts)).raw("got", arr(s.groups)).f("kept", calm && kept);
    auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state(); auto p = q.poles();
    list1(a, list(a.a1, a.a2)); list1(b, list(b.b0, b.b1, b.b2)); list1(w, list(w.v1, w.v2)); list1(p, list(p.s0, p.s1));
    dsp::OnePoleT<T> o({ (T)val(r) }, { (T)(r.sym() * 1.5) }); for (int i = r.below(3); i; --i) o.step((T)r.sym());
    auto k1 = o; s = split(print(o));
    Line("section").f("prec", prec).raw("want", parts(o)).f("stable", (bool)o.is_stable()).raw("verdicts", arr(s.verdicts)).raw("got", arr(s.groups)).f("kept", calm && same(k1.state(), o.state()));
    list1(o.coeff_a(), list(o.coeff_a().a1)); list1(o.coeff_b(), list(o.coeff_b().b0)); list1(o.state(), list(o.state().v1)); list1(o.poles(), list(o.poles().s0)); list1(q.zeros(), list(q.zeros().s0, q.zeros().s1)); list1(o.zeros(), list(o.zeros().s0));
    dsp::biquad::BAT<T> two; static_cast<dsp::biquad::BT<T> &>(two) = b; static_cast<dsp::biquad::AT<T> &>(two) = a; list1(two, list(b.b0, b.b1, b.b2, a.a1, a.a2));
    dsp::onepole::BAT<T> one; static_cast<dsp::onepole::BT<T> &>(one) = o.coeff_b(); static_cast<dsp::onepole::AT<T> &>(one) = o.coeff_a(); list1(one, list(o.coeff_b().b0, o.coeff_a().a1));
}
template< typename T, int N > void cascade(Rng & r) {
    dsp::BiQuadCascadeT<T,N> c; int m = r.below(N + 1); std::vector<std::string> want, stable;
    for (int i = 0; i < m; ++i) { auto f = biquad<T>(r); c.append(f); want.push_back(parts(f)); stable.push_back(f.is_stable() ? "true" : "false"); }
    if (m && r.chance(1, 3)) { c.remove(m - 1); --m; want.pop_back(); stable.pop_back(); }
    auto c0 = c; Split s = split(print(c)); bool same_ = c0.size() == c.size(); for (int i = 0; i < m; ++i) same_ = same_ && same(c0.state(i), c.state(i)) && same(c0.coeff_a(i), c.coeff_a(i)) && same(c0.coeff_b(i), c.coeff_b(i));
    Line("cascade").f("prec", prec).f("size", m).f("reserved", N).raw("want", arr(want)).raw("stable", arr(stable)).raw("verdicts", arr(s.verdicts)).raw("got", arr(s.groups)).f("kept", calm && same_);
}
int main(int, char ** argv) {
    Rng r(std::strtoull(argv[1], 0, 10)); int n = std::atoi(argv[2]);
    auto gd = [&] { return val(r); }; auto gf = [&] { return (float)val(r); }; auto gi = [&] { return r.range(-99999, 99999); }; auto gs = [&] { return (short)r.range(-300, 300); };
    using X8 = num::fixed_point<int,8,8>; auto gx = [&] { return X8(r.range(-2000, 2000) / 64.0); };
    for (int i = 0; i < n; ++i) {
        prec = r.chance(1, 2) ? 6 : r.range(1, 17);
        if (i % 3 == 0) { matrix<double,2,9>(gd); matrix<int,9,2>(gi); matrix<float,3,17>(gf); matrix<double,1,24>(gd); matrix<short,24,1>(gs); matrix<int,13,13>(gi); }
        matrix<double,1,1>(gd); matrix<double,2,3>(gd); matrix<double,3,2>(gd); matrix<int,3,3>(gi); matrix<float,1,4>(gf); matrix<short,4,1>(gs); matrix<double,5,2>(gd);
        { num::matrix<X8,2,2> m; std::vector<std::string> rows; for (int a = 0; a < 2; ++a) { std::vector<std::string> row; for (int b = 0; b < 2; ++b) { m(a, b) = gx(); row.push_back(js(kv::value(m(a, b)))); } rows.push_back(arr(row)); }
          std::string line; Texts got; std::istringstream is(print(m)); while (std::getline(is, line)) got.push_back(jst(numbers(line))); Line("matrix").f("prec", prec).raw("want", arr(rows)).raw("got", arr(got)).f("kept", calm); }
        fixed<int,8,8>(r); fixed<signed char,4,4>(r); fixed<short,8,8>(r); fixed<short,12,4>(r); fixed<int,16,16>(r); fixed<long,40,24>(r); fixed<int,24,8>(r);
        filters<double>(r); filters<float>(r); cascade<double,4>(r); cascade<float,4>(r); if (i % 3 == 0) { cascade<double,1>(r); cascade<double,12>(r); cascade<float,9>(r); }
        std::vector<double> v; std::vector<int> u; std::vector<std::string> wv, wu; for (int k = r.chance(1, 4) ? r.below(70) : r.below(6); k; --k) { v.push_back(val(r)); wv.push_back(hx(v.back())); u.push_back(gi()); wu.push_back(hx(u.back())); }
        list1(v, arr(wv)); list1(u, arr(wu));
        if (i % 4 == 0) { double fs = 1000, fp = 50 + 200 * r.unit(), st = fp * (1.2 + r.unit() * 0.5); auto c = dsp::chebyshev1_lp_hp(dsp::FilterResponse::low_pass, fs, fp, st, 0.5, 40.); auto const & I = c.info;
            list1(I, list(I.Wpass, I.Wstop, I.epass, I.estop, I.Nex, I.N, I.f3, I.a)); list1(c.b[0], list(c.b[0].b0, c.b[0].b1, c.b[0].b2)); }
    }
}
