#include "vf.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/root_wrapper.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/algorithm/math/convolutions.h"
using namespace vf; using namespace altruct::math; typedef __int128 L; typedef std::string S;
struct Bt { S s; int n = 0; S f; Bt(const char* f) : f(f) {} void add(const S& r) { s += (n++ ? ",[" : "[") + r + "]"; if (n >= 20 || s.size() > 30000) put(); } void put() { if (n) F(f.c_str()).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
std::map<S, Bt> bts; template<class... A> void P(const char* f, const S& a, A... l) { auto it = bts.find(f); if (it == bts.end()) it = bts.emplace(f, Bt(f)).first; S r = a; int d[] = {0, (r += "," + S(l), 0)...}; it->second.add(r); }
S s(int64_t v) { return big(v); } template<class T, uint64_t ID, int ST> S s(const modulo<T, ID, ST>& v) { return big((L)v.v); } template<class T> S s(const std::vector<T>& v) { S r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + s(v[i]); return r + "]"; }
template<class T> using V = std::vector<T>;
template<class T> struct R { S d; std::function<T(ll)> mk; ll cap; };
template<class T> V<T> vec(R<T>& r, Rng& g, int n) { V<T> v; int k = g() % 5; for (int i = 0; i < n; i++) v.push_back(k == 0 ? r.mk(i == 0 || g() % 3 == 0) : k == 1 ? r.mk(-1) : r.mk(rnd(g, -r.cap, r.cap))); return v; }
// f, g, r aliased in each allowed way; the transforms modify their arguments
template<class T, class Fn> void conv(R<T>& r, Rng& g, const char* op, int n, Fn fn, int k) { V<T> a = vec(r, g, n), b = vec(r, g, n); S o = S("\"") + op + "\"", sa = s(a), sb = s(b); V<T> c(n, r.mk(7));
    switch (k % 5) { case 0: fn(c.data(), a.data(), b.data()); P("group", r.d, sa, sb, o, s(c)); break; case 1: fn(a.data(), a.data(), b.data()); P("group", r.d, sa, sb, o, s(a)); break; case 2: fn(b.data(), a.data(), b.data()); P("group", r.d, sa, sb, o, s(b)); break; case 3: fn(a.data(), a.data(), a.data()); P("group", r.d, sa, sa, o, s(a)); break; default: fn(c.data(), a.data(), a.data()); P("group", r.d, sa, sa, o, s(c)); } }
template<class T, class Fn> void slow(R<T>& r, Rng& g, const char* op, int n, Fn fn) { V<T> a = vec(r, g, n), b = vec(r, g, n), c = vec(r, g, n); S o = S("\"") + op + "\"", sc = s(c); fn(c.data(), a.data(), b.data()); P("sgroup", r.d, s(a), s(b), o, sc, s(c)); }
template<class T> void all(R<T> r, Rng& g, int n, int ml) { typedef T* t; for (int it = 0; it < n; it++) { int l = g() % (ml + 1), m = 1 << l, q = 1 + g() % (1 << ml);
        conv(r, g, "and", m, [&](t x, t f, t y) { and_convolution(x, f, y, l); }, it); conv(r, g, "or", m, [&](t x, t f, t y) { or_convolution(x, f, y, l); }, it); conv(r, g, "xor", m, [&](t x, t f, t y) { xor_convolution(x, f, y, l); }, it); conv(r, g, "max", q, [&](t x, t f, t y) { max_convolution(x, f, y, q); }, it);
        slow(r, g, "and", m, [&](t x, t f, t y) { slow_and_convolution(x, f, y, l); }); slow(r, g, "or", m, [&](t x, t f, t y) { slow_or_convolution(x, f, y, l); }); slow(r, g, "xor", m, [&](t x, t f, t y) { slow_xor_convolution(x, f, y, l); }); slow(r, g, "max", q, [&](t x, t f, t y) { slow_max_convolution(x, f, y, q); }); slow(r, g, "cyc", q, [&](t x, t f, t y) { slow_cyclic_convolution(x, f, y, q); });
        V<T> a = vec(r, g, m), b = vec(r, g, m), c(m, r.mk(5)); S sa = s(a), sb = s(b); { V<T> x = a; fast_walsh_hadamard_transform(x.data(), l); P("wht", r.d, sa, s(x), s(x)); x = a; fast_arith_transform_plus(x.data(), l); P("zeta", r.d, sa, s(x), s(x)); fast_subset_sum(c.data(), a.data(), l); P("zeta", r.d, sa, sa, s(c)); x = a; fast_subset_sum(x.data(), x.data(), l); P("zeta", r.d, sa, sa, s(x)); slow_subset_sum(c.data(), a.data(), l); P("zeta", r.d, sa, sa, s(c)); }
        { V<T> x = a; fast_arith_transform_minus(x.data(), l); P("moeb", r.d, sa, sa, s(x)); fast_subset_sum_inverse(c.data(), a.data(), l); P("moeb", r.d, sa, sa, s(c)); x = a; fast_subset_sum_inverse(x.data(), x.data(), l); P("moeb", r.d, sa, sa, s(x)); }
        { V<T> x = a, y = b; slow_subset_convolution(c.data(), x.data(), y.data(), l); P("subset", r.d, sa, sb, s(c)); switch (it % 4) { case 0: fast_subset_convolution(c.data(), x.data(), y.data(), l); P("subset", r.d, sa, sb, s(c)); break; case 1: fast_subset_convolution(x.data(), x.data(), y.data(), l); P("subset", r.d, sa, sb, s(x)); break; case 2: fast_subset_convolution(y.data(), x.data(), y.data(), l); P("subset", r.d, sa, sb, s(y)); break; default: fast_subset_convolution(x.data(), x.data(), x.data(), l); P("subset", r.d, sa, sa, s(x)); } } } }
// root of order ord (a power of two)
template<class T> void four(R<T> r, Rng& g, T root, int ord, int n, int mx) { for (int it = 0; it < n; it++) { int m = 1; while (m < ord && m < mx && g() % 4) m *= 2; V<T> a = vec(r, g, m), x = a, y(m, r.mk(3)); T w = powT(root, ord / m); fft(x.data(), m, w); P("fft", r.d, s(a), s(w), s(x)); x = a; fft_rec(y.data(), x.data(), m, w); P("fft", r.d, s(a), s(w), s(y));
        { V<T> u = a, v = vec(r, g, m), z(m, r.mk(1)); S su = s(u), sv = s(v); fft_cyclic_convolution(z.data(), u.data(), v.data(), m, root, ord); P("group", r.d, su, sv, S("\"cyc\""), s(z)); }
        int us = 1 + g() % mx, vs = 1 + g() % mx; if (us + vs - 1 <= ord) { V<T> u = vec(r, g, us), v = vec(r, g, vs); P("lin", r.d, s(u), s(v), s(convolution<T>(u.begin(), u.end(), v.begin(), v.end(), root, ord))); } if (g() % 2) us = 1 + g() % 4; if (multiple(vs, us) + us - 1 <= ord) { V<T> u = vec(r, g, us), v = vec(r, g, vs); P("cyc", r.d, s(u), s(v), s(cyclic_convolution<T>(u.begin(), u.end(), v.begin(), v.end(), root, ord))); } } }
template<class T> void lin(R<T> r, Rng& g, T root, int ord, int n, int mx) { for (int it = 0; it < n; it++) { V<T> u = vec(r, g, 1 + g() % mx), v = vec(r, g, 1 + g() % mx); P("lin", r.d, s(u), s(v), s(convolution<T>(u.begin(), u.end(), v.begin(), v.end(), root, ord))); } }
V<int64_t> rd(const V<complex<double>>& v) { V<int64_t> r; for (auto& z : v) r.push_back(std::abs(z.b) < 0.25 && std::abs(z.a - std::round(z.a)) < 0.25 ? (int64_t)llround(z.a) : 123456789); return r; }
void cpx(Rng& g, int n, int mx) { typedef complex<double> C; R<int64_t> rz{"[0]", [](ll v) { return (int64_t)v; }, 1000}; for (int it = 0; it < n; it++) { int us = 1 + g() % mx, vs = 1 + g() % mx; V<int64_t> u = vec(rz, g, us), v = vec(rz, g, vs); V<C> a, b; for (auto x : u) a.push_back(C((double)x)); for (auto x : v) b.push_back(C((double)x)); int o = 1; while (o < 4 * (us + vs)) o *= 2; auto w = complex_root_wrapper<double>(o); P("lin", rz.d, s(u), s(v), s(rd(convolution<C>(a.begin(), a.end(), b.begin(), b.end(), w, w.size)))); P("cyc", rz.d, s(u), s(v), s(rd(cyclic_convolution<C>(a.begin(), a.end(), b.begin(), b.end(), w, w.size)))); } }
template<class I> R<moduloX<I>> rx(I M) { return R<moduloX<I>>{"[2," + big(M) + "]", [M](ll v) { return moduloX<I>((I)(((L)v % (L)M + (L)M) % (L)M), M); }, (ll)1 << 40}; }
template<class Md> R<Md> rm() { return R<Md>{"[2," + big((L)Md::M()) + "]", [](ll v) { L M = Md::M(); return Md((decltype(Md().v))(((L)v % M + M) % M)); }, (ll)1 << 40}; }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    typedef modulo<int, 1012924417, modulo_storage::CONSTANT> A; typedef modulo<int, 998244353, modulo_storage::CONSTANT> C; typedef modulo<int, 9> D; D::M() = 7681; R<int64_t> rz{"[0]", [](ll v) { return (int64_t)v; }, 1000000}; R<int> ri{"[0]", [](ll v) { return (int)v; }, 100};
    switch (part) { case 0: all(rm<A>(), g, n, 4); break; case 1: all(rz, g, n, 4); break; case 2: all(rx<int>(1000003), g, n, 3); all(rm<C>(), g, n / 6, 5); break;
    case 3: four(rm<A>(), g, A(198), 1 << 21, n, 32); four(rm<C>(), g, powT(C(3), 119), 1 << 23, n, 16); break;
    case 4: four(rx<int>(257), g, moduloX<int>(3, 257), 256, n, 64); four(rx<int>(17), g, moduloX<int>(3, 17), 16, n, 16); four(rm<D>(), g, powT(D(17), 15), 512, n, 32); four(rx<int>(3), g, moduloX<int>(2, 3), 2, n / 4, 2); break;
    default: lin(rm<A>(), g, A(198), 1 << 21, n, 700); lin(rm<C>(), g, powT(C(3), 119), 1 << 23, n, 300); cpx(g, n * 3, 24); }
    for (auto& b : bts) b.second.put(); }
