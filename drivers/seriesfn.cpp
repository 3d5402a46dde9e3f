#include "vf.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/series.h"
#include "altruct/algorithm/math/polynom_mod.h"
using namespace vf; using namespace altruct::math; typedef __int128 L; typedef std::string S;
struct Bt { S s; int n = 0; S f; Bt(const char* f) : f(f) {} void add(const S& r) { s += (n++ ? ",[" : "[") + r + "]"; if (n >= 40 || s.size() > 60000) put(); } void put() { if (n) F(f.c_str()).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
std::map<S, Bt> bts; int64_t edge(Rng& g) { const int64_t x[] = {1ll << 32, (1ll << 32) + 1, (1ll << 32) + 2, (1ll << 33) + 3, (1ll << 32) - 1, 1ll << 31, (1ll << 31) - 1, (3ll << 32) + 5, INT64_MAX, 1ll << 62}; return g() % 2 ? x[g() % 10] : (int64_t)((g() >> 1) >> (g() % 60)); }
template<class... A> void P(const char* f, const S& a, A... l) { auto it = bts.find(f); if (it == bts.end()) it = bts.emplace(f, Bt(f)).first; S r = a; int d[] = {0, (r += "," + S(l), 0)...}; it->second.add(r); }
S s(int v) { return num(v); } S s(bool v) { return v ? "1" : "0"; } S s(int64_t v) { return big(v); }
template<class T, uint64_t ID, int ST> S s(const modulo<T, ID, ST>& v) { return big((L)v.v); } template<class T> S s(const fraction<T>& v) { return "[" + big(v.p) + "," + big(v.q) + "]"; }
template<class T> S s(const std::vector<T>& v) { S r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + s(v[i]); return r + "]"; }
// only the first N coefficients are the series
template<class T, int ID, int ST> S s(const series<T, ID, ST>& x) { return x.p.size() >= x.N() ? s(x.p.c) : S("[]"); }
template<class T> using V = std::vector<T>;
template<class T> struct R { S d; std::function<T(ll)> mk; int big, cap; int p; };
template<class T> T el(R<T>& r, Rng& g) { switch (g() % 5) { case 0: return r.mk(0); case 1: return r.mk(rnd(g, -2, 3)); case 2: return r.mk(rnd(g, -r.cap, r.cap)); default: return r.mk(r.big ? (ll)(g() >> 1) : rnd(g, -r.cap, r.cap)); } }
template<class T> T unit(R<T>& r, Rng& g) { for (;;) { T x = el(r, g); if (!(x == r.mk(0))) return x; } }
// Sx: the series type under test, mk(coefficients)
template<class T, class Sx> void go(R<T> r, Rng& g, int N, int n) { typedef polynom<T> Po; S h = r.d + "," + num(N); T z = r.mk(0), one = r.mk(1);
    auto ser = [&](int k) { V<T> c; int m = g() % 5; for (int i = 0; i < N; i++) c.push_back(m == 0 && i > 1 ? z : m == 1 && g() % 4 ? z : el(r, g)); if (k == 1) c[0] = unit(r, g); if (k == 2) c[0] = z; if (k == 3) c[0] = one; if (k == 4) { c[0] = z; if (N > 1) c[1] = unit(r, g); } return Sx(Po(c), N); };
    bool small = r.cap < 100;
    for (int it = 0; it < n; it++) { Sx a = ser(0), b = ser(0), u = ser(1), o = ser(2), l = ser(3), v = ser(4); T k = el(r, g), ku = unit(r, g);
        P("add", h, s(a), s(b), s(a + b)); P("sub", h, s(a), s(b), s(a - b)); P("neg", h, s(a), s(-a)); P("mul", h, s(a), s(b), s(a * b)); { Sx x = a; x *= x; P("mul", h, s(a), s(a), s(x)); x = a; x += x; P("add", h, s(a), s(a), s(x)); x = a; x -= b; P("sub", h, s(a), s(b), s(x)); }
        P("smul", h, s(a), s(k), s(a * k)); P("sdiv", h, s(a), s(ku), s(a / ku)); P("inv", h, s(u), s(u.inverse())); P("div", h, s(a), s(u), s(a / u));
        P("deriv", h, s(a), s(a.derivative())); P("integ", h, s(a), s(k), s(a.integral(k))); P("integ", h, s(a), s(z), s(a.integral()));
        P("pmul", h, s(a), s(b), s(a.pointwise_mul(b))); { V<T> c; for (int i = 0; i < N; i++) c.push_back(unit(r, g)); Sx w(Po(c), N); P("pinv", h, s(w), s(w.template pointwise_inv<true>())); P("pdiv", h, s(a), s(w), s(a.template pointwise_div<true>(w))); if (!small) { P("pinv", h, s(w), s(w.template pointwise_inv<false>())); P("pdiv", h, s(a), s(w), s(a.template pointwise_div<false>(w))); } }
        { int q = it % 3 ? rnd(g, -N, N) : rnd(g, -N - 3, N + 3); P("shift", h, s(a), s(q), s(a.shift(q)));}
        { T q = small ? r.mk(rnd(g, -2, 2)) : k; Sx x = a.sub_mul(q); P("submul", h, s(a), s(q), s(x)); } { int q = 1 + g() % (N + 2); P("subpow", h, s(a), s(q), s(a.sub_pow(q))); }
        P("comp", h, s(a), s(o), s(it % 2 ? a(o) : a.composition(o))); if (!small && it % 2) P("comp", h, s(a), s(b), s(a.composition(b))); P("rever", h, s(v), s(v.reversion())); if (it % 5 == 0) { P("rever", h, s(l), s(l.reversion())); P("rever", h, s(o), s(o.reversion())); }
        P("exp", h, s(o), s(o.exp())); P("ln", h, s(l), s(k), s(l.ln(k))); P("ln", h, s(l), s(z), s(l.ln()));
        { int64_t e = it % 3 == 0 ? (int64_t)(g() % 5) : small ? (int64_t)(g() % 4) : it % 3 == 1 ? (int64_t)(g() % 700) : edge(g); Sx w = it % 4 == 0 ? a : it % 4 == 1 ? o : it % 4 == 2 ? l : u; if (it % 7 == 0) w = Sx(Po(V<T>{z}), N); int64_t th = small ? 100 : it % 2 ? 200 : 1 + g() % 5; P("pow", h, s(w), s(e), s(it % 4 == 0 && !small ? w.pow(e) : w.pow(e, th))); { Sx x = w.sub_pow(1); int q = g() % std::max(N, 1); V<T> c(N, z); c[q] = unit(r, g); if (q + 1 < N) c[q + 1] = el(r, g); Sx y(Po(c), N); int64_t f = small ? g() % 4 : 1 + g() % 400; P("pow", h, s(y), s(f), s(y.pow(f, small ? 100 : it % 2 ? 200 : 2))); } }
        { typedef seriesX<T> X; Sx q = u * u; X qx(q.p, N); auto f = [&](const X& y) { X t(qx.p, y.N()); X d = y * r.mk(2); return (y * y - t) / d; }; Sx w = Sx::find_root(u.p.at(0), N, f); P("sqrt", h, s(q), s(u.p.at(0)), s(w)); }
        { Sx x = Sx::exp(k, N); P("expa", h, s(k), s(x)); P("egf", h, s(a), s(a.make_exponential())); P("ogf", h, s(a), s(a.make_ordinary())); }
        { Sx x = a; x.resize(N); Sx y = Sx::of([&](int i) { return r.mk(i + 1) * k; }, N); P("make", h, s(a), s(k), s(identityOf(a)), s(zeroOf(a)), s(castOf(a, k)), s(x), s(y)); Sx w = b; if (it % 2) { w = a; w[g() % N] = el(r, g); } P("cmp", h, s(a), s(w), cmp3(a, w)); a.swap(b); P("add", h, s(b), s(a), s(a + b)); } } }
template<class I> R<moduloX<I>> rx(I M) { return R<moduloX<I>>{"[2," + big(M) + "]", [M](ll v) { return moduloX<I>((I)(((L)v % (L)M + (L)M) % (L)M), M); }, 1, 1000}; }
template<class Md> R<Md> rm() { return R<Md>{"[2," + big((L)Md::M()) + "]", [](ll v) { L M = Md::M(); return Md((decltype(Md().v))(((L)v % M + M) % M)); }, 1, 1000}; }
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> A; typedef modulo<int, 77> B; typedef fraction<int64_t> Q;
template<int N> void cs(Rng& g, int n) { go<A, series<A, N>>(rm<A>(), g, N, n); }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); B::M() = 1009;
    R<Q> rq{"[1]", [](ll v) { return Q(v); }, 0, 2};
    switch (part) {
    case 0: for (int N = 1; N <= 12; N++) go<A, seriesX<A>>(rm<A>(), g, N, n); break;
    case 1: for (int N : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17}) { series<B, 3, series_storage::STATIC>::_N = N; go<B, series<B, 3, series_storage::STATIC>>(rm<B>(), g, N, n); } break;
    case 2: cs<1>(g, n); cs<2>(g, n); cs<3>(g, n); cs<4>(g, n); cs<6>(g, n); cs<11>(g, n); cs<24>(g, n); break;
    case 3: for (int N = 1; N <= 5; N++) go<Q, seriesX<Q>>(rq, g, N, n); break;
    case 4: for (int N = 1; N <= 10; N += 1 + (N > 3)) go<moduloX<int>, seriesX<moduloX<int>>>(rx<int>(2147483647), g, N, n); for (int N : {2, 9}) go<moduloX<int64_t>, seriesX<moduloX<int64_t>>>(rx<int64_t>(1000000000039ll), g, N, n); break;
    default: for (int i = 0; i < n; i++) { int N = i % 3 == 0 ? rnd(g, 40, 70) : rnd(g, 18, 40); go<A, seriesX<A>>(rm<A>(), g, N, 1); } }
    for (auto& b : bts) b.second.put(); }
