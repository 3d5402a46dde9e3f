#include "vf.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/root_wrapper.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/series.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/algorithm/math/convolutions.h"
using namespace vf; using namespace altruct::math; typedef __int128 L; typedef std::string S;
template<class... A> void P(const char* f, const S& a, A... l) { S r = a; int d[] = {0, (r += "," + S(l), 0)...}; (void)d; F(f).raw("q", "[[" + r + "]]").put(); }
S s(int64_t v) { return big(v); } S s(uint64_t v) { return big((L)v); } template<class T, uint64_t ID, int ST> S s(const modulo<T, ID, ST>& v) { return big((L)v.v); }
template<class T> using V = std::vector<T>;
template<class T> struct R { S d; std::function<T(ll)> mk; ll cap; };
template<class T> T el(R<T>& r, Rng& g) { switch (g() % 6) { case 0: return r.mk(0); case 1: return r.mk(rnd(g, -2, 3)); case 2: return r.mk(-1); default: return r.mk(rnd(g, -r.cap, r.cap)); } }
// blocks repeating a pattern of t coefficients; the period is returned through t
template<class T> V<T> pat(R<T>& r, Rng& g, int n, int& t, int mt = 7) { t = 1 + g() % mt; int nb = 1 + g() % 3; V<T> v(n, r.mk(0)); V<int> cut{0}; for (int i = 1; i < nb; i++) cut.push_back(g() % n); std::sort(cut.begin(), cut.end()); cut.push_back(n); int k = g() % 4;
    for (int b = 0; b < nb; b++) { V<T> p; for (int i = 0; i < t; i++) p.push_back(k == 0 ? r.mk(-1) : el(r, g)); for (int i = cut[b]; i < cut[b + 1]; i++) v[i] = p[i % t]; } if (v[n - 1] == r.mk(0)) v[n - 1] = r.mk(1); return v; }
// times 1 - x^t, all of it or (m > 0) the first m coefficients
template<class T> V<T> tims(V<T> v, int t, int m, const T& z) { v.resize(m ? m : v.size() + t, z); for (int i = (int)v.size() - 1; i >= t; i--) v[i] = v[i] - v[i - t]; return v; }
template<class T> V<T> timc(const V<T>& v, int t) { int n = v.size(); V<T> r = v; for (int i = 0; i < n; i++) r[i] = v[i] - v[((i - t) % n + n) % n]; return r; }
template<class T> S sp(const V<T>& v, const T& z) { S r = "["; int k = 0; for (size_t i = 0; i < v.size(); i++) if (!(v[i] == z)) { if (++k > 4000) break; r += (k > 1 ? ",[" : "[") + num((ll)i) + "," + s(v[i]) + "]"; } return r + "]"; }
template<class T> void out(R<T>& r, const V<T>& a, int ta, const V<T>& b, int tb, int lr, const V<T>& c) { T z = r.mk(0); V<T> x = c; int sz = x.size(); x.resize(lr + 1, z); P("mul", r.d, num(lr), num(sz), sp(tims(a, ta, 0, z), z), sp(tims(b, tb, 0, z), z), sp(tims(tims(x, ta, lr + 1, z), tb, lr + 1, z), z)); }
template<class T> void mul(R<T> r, Rng& g, int l1, int l2) { typedef polynom<T> Po; int ta, tb; V<T> a = pat(r, g, l1 + 1, ta), b = pat(r, g, l2 + 1, tb); Po p(a), q(b), x;
    switch (g() % 4) { case 0: x = p * q; out(r, a, ta, b, tb, l1 + l2, x.c); break; case 1: x = p; x *= x; out(r, a, ta, a, ta, 2 * l1, x.c); break; case 2: x = q; Po::mul(x, p, x); out(r, a, ta, b, tb, l1 + l2, x.c); break; default: { int lr = g() % (l1 + l2 + 10); Po::mul(x, p, q, lr); out(r, a, ta, b, tb, lr, x.c); } } }
template<class T, class X> void raw(R<T> r, Rng& g, int l1, int l2, X fn) { int ta, tb; V<T> a = pat(r, g, l1 + 1, ta), b = pat(r, g, l2 + 1, tb); int lr = g() % 3 ? l1 + l2 : rnd(g, l1, l1 + l2); V<T> c(lr + 1, r.mk(0)); fn(c.data(), lr, a.data(), l1, b.data(), l2); out(r, a, ta, b, tb, lr, c); }
template<class T> void div(R<T> r, Rng& g, int lq, int ld) { typedef polynom<T> Po; T z = r.mk(0); int s1, t1, t2; V<T> q = pat(r, g, lq + 1, s1, 5), d = pat(r, g, ld + 1, t1, 5), w = pat(r, g, std::max(1, (int)(g() % std::max(1, ld))), t2, 5); d[ld] = r.mk(g() % 2 ? 1 : 3); if (g() % 3 == 0) w = V<T>{z};
    Po p = Po(q) * Po(d) + Po(w), Q, M; if (g() % 2) { Q = p / Po(d); M = p % Po(d); } else { Po x; Po::quot_rem(x, p, Po(d)); M = Po(V<T>(x.c.begin(), x.c.begin() + ld)); Q = Po(V<T>(x.c.begin() + ld, x.c.begin() + p.deg() + 1)); if (ld == 0) M = Po(V<T>{z}); }
    V<T> A = tims(Q.c, s1, 0, z), B = tims(d, t1, 0, z), U = tims(tims(p.c, s1, 0, z), t1, 0, z), W = tims(tims(M.c, s1, 0, z), t1, 0, z); size_t n = std::max(U.size(), W.size()); U.resize(n, z); W.resize(n, z); S rows = "["; int k = 0; for (size_t i = 0; i < n && k < 4000; i++) if (!(U[i] == z && W[i] == z)) rows += (k++ ? ",[" : "[") + num((ll)i) + "," + s(U[i]) + "," + s(W[i]) + "]";
    P("div", r.d, num(s1), num(t1), sp(A, z), sp(B, z), rows + "]"); }
template<class T> void cyc(R<T> r, Rng& g, T root, int ord, int n) { T z = r.mk(0); int ta, tb; V<T> a = pat(r, g, n, ta), b = pat(r, g, n, tb), u = a, v = b, c(n, r.mk(7)); fft_cyclic_convolution(c.data(), u.data(), v.data(), n, root, ord); P("cyc", r.d, num(n), sp(timc(a, ta), z), sp(timc(b, tb), z), sp(timc(timc(c, ta), tb), z));
    int l1 = rnd(g, n / 8, n / 2 - 1), l2 = rnd(g, 0, n / 2 - 1); a = pat(r, g, l1 + 1, ta); b = pat(r, g, l2 + 1, tb); out(r, a, ta, b, tb, l1 + l2, convolution<T>(a.begin(), a.end(), b.begin(), b.end(), root, ord)); }
template<class T> V<T> few(R<T>& r, Rng& g, int n) { V<T> v(n, r.mk(0)); for (int i = 0; i < 9; i++) v[g() % 4 ? g() % n : g() % 2 ? n - 1 - g() % 2 : g() % 3 % n] = el(r, g); return v; }
template<class T> void bits(R<T> r, Rng& g, int l) { int n = 1 << l; T z = r.mk(0); for (int k = 0; k < 4; k++) { int m = k == 3 ? rnd(g, n / 2, n) : n; V<T> a = few(r, g, m), b = few(r, g, m), u = a, v = b, c(m, r.mk(5)); const char* o[] = {"\"and\"", "\"or\"", "\"xor\"", "\"max\""}; T *x = g() % 2 ? c.data() : u.data();
        if (k == 0) and_convolution(x, u.data(), v.data(), l); if (k == 1) or_convolution(x, u.data(), v.data(), l); if (k == 2) xor_convolution(x, u.data(), v.data(), l); if (k == 3) max_convolution(x, u.data(), v.data(), m); P("bit", r.d, S(o[k]), sp(a, z), sp(b, z), sp(x == c.data() ? c : u, z)); } }
// series: num / den with few terms
typedef std::pair<V<std::pair<int, int>>, V<std::pair<int, int>>> Quo;
V<std::pair<int, int>> terms(Rng& g, int N, int M, int c0) { std::map<int, int> m; if (c0) m[0] = c0; for (int i = 0, k = 1 + g() % 3; i < k; i++) { int p = g() % 3 ? 1 + g() % 9 : 1 + g() % N; m[p] = 1 + g() % (M - 1); } return V<std::pair<int, int>>(m.begin(), m.end()); }
V<int> expand(const Quo& q, int N, int M) { V<int> v(N, 0); for (auto& t : q.first) if (t.first < N) v[t.first] = t.second; for (int i = 0; i < N; i++) { L x = v[i]; for (auto& t : q.second) if (t.first && t.first <= i) x += (L)(M - t.second) * v[i - t.first]; v[i] = (int)(x % M); } return v; }
void ser(Rng& g, int N, int M, const char* op) { typedef moduloX<int> T; typedef seriesX<T> X; auto mkx = [&](const V<int>& v) { V<T> c; for (int x : v) c.push_back(T(x, M)); return X(polynom<T>(c), N); }; auto o = [&](const X& x) { V<int> v; for (auto& y : x.p.c) v.push_back(y.v); return x.p.size() >= N ? arr(v) : S("[]"); }; S n = op; Quo q; q.second = terms(g, N, M, 1); if (g() % 3 == 0) q.second.resize(1);
    q.first = terms(g, N, M, n == "exp" ? 0 : n == "ln" ? 1 : n == "pow" && g() % 2 ? 1 : 1 + g() % (M - 1)); V<int> v = expand(q, N, M); X x = mkx(v), y; S extra = "0";
    if (n == "inv") y = x.inverse(); if (n == "exp") y = x.exp(); if (n == "ln") { int k = g() % M; extra = num(k); y = x.ln(T(k, M)); } if (n == "pow") { int e = g() % 3 ? g() % 1000 : (int)(g() >> 34); extra = num(e); y = x.pow(e); }
    if (n == "mul" || n == "div") { Quo r{terms(g, N, M, 1 + g() % (M - 1)), terms(g, N, M, 1)}; X z = mkx(expand(r, N, M)); y = n == "mul" ? x * z : x / z; extra = "[" + prs(r.first) + "," + prs(r.second) + "]"; }
    P("ser", num(M), num(N), esc(n), prs(q.first), prs(q.second), arr(v), extra, o(y)); }
template<class I> R<moduloX<I>> rx(I M) { return R<moduloX<I>>{"[2," + big((L)M) + "]", [M](ll v) { return moduloX<I>((I)(((L)v % (L)M + (L)M) % (L)M), M); }, (ll)1 << 60}; }
template<class Md> R<Md> rm() { return R<Md>{"[2," + big((L)Md::M()) + "]", [](ll v) { L M = Md::M(); return Md((decltype(Md().v))(((L)v % M + M) % M)); }, (ll)1 << 60}; }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    typedef modulo<int, 1000000007, modulo_storage::CONSTANT> A; typedef modulo<uint32_t, 4294967291u, modulo_storage::CONSTANT> C; typedef modulo<int, 77> B; B::M() = 1009; typedef modulo<int, 1012924417, modulo_storage::CONSTANT> F1; typedef modulo<int, 998244353, modulo_storage::CONSTANT> F2; typedef modulo<int, 9> D; D::M() = 7681;
    R<int64_t> rz{"[0]", [](ll v) { return (int64_t)v; }, 1000000}; R<uint64_t> ru{"[2," + big((L)1 << 64) + "]", [](ll v) { return (uint64_t)v; }, (ll)1 << 60};
    auto two = [&](int lo, int hi) { double x = log((double)lo), y = log((double)hi); return (int)exp(x + (y - x) * (g() % 1000) / 1000.0); };
    switch (part) {
    case 0: for (int i = 0; i < n; i++) { int l1 = two(450, 50000), l2 = two(40, l1); if (i % 2) std::swap(l1, l2); mul(rm<A>(), g, l1, l2); mul(rm<C>(), g, l1, l2); if (i % 3 == 0) mul(rm<B>(), g, l1 / 2, l2); } break;
    case 1: for (int i = 0; i < n; i++) { int l1 = two(50000, 160000), l2 = rnd(g, std::max(100, 100001 - l1), l1); if (i % 3 == 2) { l1 = rnd(g, 50000, 99000); l2 = 99999 + i % 2 * 2 - l1 + (int)(g() % 3); } if (i % 2) mul(rm<A>(), g, l1, l2); else mul(rm<C>(), g, l1, l2); } break;
    case 2: for (int i = 0; i < n; i++) { int l1 = two(100, 2500), l2 = two(2, l1); mul(rx<int64_t>(1000000000039ll), g, l1, l2); mul(rx<int64_t>(4294967311ll), g, l1, l2); mul(rx<int64_t>(4611686018427387847ll), g, l1 / 2, l2 / 2); mul(ru, g, l1 * 2, l2 * 2); mul(rz, g, l1, l2); mul(rx<uint64_t>(4294967291ull), g, l1 * 3, l2 * 3); } break;
    case 3: { typedef polynom_mul<A> X; typedef polynom_mul<C> Y; typedef polynom<A> Po; for (int i = 0; i < n; i++) { int l1 = two(300, 60000), l2 = two(100, l1); if (i % 3 == 0) l1 = two(8, 300), l2 = two(4, l1); raw(rm<A>(), g, l1 / 8, l2 / 8, Po::_mul_karatsuba); raw(rm<A>(), g, l1 / 16, l2 / 16, Po::_mul_long); raw(rm<A>(), g, l1, l2, X::_mul_fft); raw(rm<A>(), g, l1, l2, X::_mul_fft_crt); raw(rm<A>(), g, l1, l2, X::_mul_fft_big); raw(rm<C>(), g, l1, l2, Y::_mul_fft); raw(rm<C>(), g, l1, l2, Y::_mul_fft_crt); raw(rm<C>(), g, l1, l2, Y::_mul_fft_big); } break; }
    case 4: for (int i = 0; i < n; i++) { int lq = two(30, 6000), ld = two(20, 6000); div(rm<A>(), g, lq, ld); div(rm<C>(), g, ld, lq); div(rx<int>(1000003), g, two(1, 300), two(200, 4000)); div(rx<int64_t>(1000000000039ll), g, lq / 12 + 1, ld / 12 + 1); } break;
    case 5: { const char* o[] = {"inv", "exp", "ln", "pow", "mul", "div"}; for (int i = 0; i < n; i++) for (auto k : o) ser(g, two(60, 1500), i % 2 ? 10007 : 32749, k); break; }
    case 6: for (int i = 0; i < n; i++) { cyc(rm<F1>(), g, F1(198), 1 << 21, 1 << (8 + g() % 9)); cyc(rm<F2>(), g, powT(F2(3), 119), 1 << 23, 1 << (8 + g() % 9)); cyc(rm<D>(), g, powT(D(17), 15), 512, 512); cyc(rx<int>(65537), g, moduloX<int>(3, 65537), 65536, 1 << (8 + g() % 8)); } break;
    default: for (int i = 0; i < n; i++) { bits(rm<F1>(), g, 5 + g() % 10); bits(rm<B>(), g, 5 + g() % 10); bits(rz, g, 5 + g() % 9); bits(rx<int>(1000003), g, 5 + g() % 10); } } }
