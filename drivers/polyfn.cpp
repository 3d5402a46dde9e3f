#include "vf.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/algorithm/math/polynoms.h"
using namespace vf; using namespace altruct::math; typedef __int128 L; typedef std::string S;
struct Bt { S s; int n = 0; S f; Bt(const char* f) : f(f) {} void add(const S& r) { s += (n++ ? ",[" : "[") + r + "]"; if (n >= 40 || s.size() > 60000) put(); } void put() { if (n) F(f.c_str()).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
std::map<S, Bt> bts; template<class... A> void P(const char* f, const S& a, A... l) { auto it = bts.find(f); if (it == bts.end()) it = bts.emplace(f, Bt(f)).first; S r = a; int d[] = {0, (r += "," + S(l), 0)...}; it->second.add(r); }
S s(int v) { return num(v); } S s(bool v) { return v ? "1" : "0"; } S s(int64_t v) { return big(v); } S s(uint64_t v) { return big((L)v); }
template<class T, uint64_t ID, int ST> S s(const modulo<T, ID, ST>& v) { return big((L)v.v); } template<class T> S s(const fraction<T>& v) { return "[" + big(v.p) + "," + big(v.q) + "]"; }
template<class T> S s(const std::vector<T>& v) { S r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + s(v[i]); return r + "]"; } template<class T> S s(const polynom<T>& p) { return s(p.c); }
template<class T> using V = std::vector<T>;
// a ring: descriptor, how to make an element from an integer, whether division is exact, the sizes to use
template<class T> struct R { S d; std::function<T(ll)> mk; bool field; int big, cap; };
template<class T> T el(R<T>& r, Rng& g) { switch (g() % 5) { case 0: return r.mk(0); case 1: return r.mk(rnd(g, -2, 3)); case 2: return r.mk(rnd(g, -r.cap, r.cap)); default: return r.mk(r.big ? (ll)(g() >> 1) : rnd(g, -r.cap, r.cap)); } }
template<class T> polynom<T> pol(R<T>& r, Rng& g, int l) { V<T> c; int k = g() % 6; for (int i = 0; i <= l; i++) c.push_back(k == 0 && i != l ? r.mk(0) : k == 1 ? r.mk(-1) : k == 2 && g() % 8 ? r.mk(0) : el(r, g)); if (g() % 4 == 0) c.back() = r.mk(1); if (g() % 5 == 0) for (int i = 0, m = 1 + g() % 3; i < m; i++) c.push_back(r.mk(0)); return polynom<T>(c); }
// p1, p2 and the result, aliased in each way
template<class T, class Op> void alias(R<T>& r, const char* f, const polynom<T>& a, const polynom<T>& b, int k, bool same, Op op) { S sa = s(a), sb = s(b); typedef polynom<T> Po;
    switch (k) { case 0: { Po p = b; if (same) p.resize(3); op(p, a, b); P(f, r.d, sa, sb, s(p)); break; } case 1: { Po p = a; op(p, p, b); P(f, r.d, sa, sb, s(p)); break; } case 2: { Po p = b; op(p, a, p); P(f, r.d, sa, sb, s(p)); break; } default: { Po p = a; op(p, p, p); P(f, r.d, sa, sa, s(p)); } } }
template<class T> void lead(polynom<T>& d, R<T>& r, Rng& g) { T id = r.mk(1); if (r.field) { if (d.leading_coeff() == r.mk(0)) d.c[0] = id; } else d.c[d.deg()] = id; }
template<class T> void dm(R<T>& r, Rng& g, polynom<T> p, polynom<T> d) { typedef polynom<T> Po; Po q = p / d, m = p % d; P("divmod", r.d, s(p), s(d), s(q), s(m)); switch (g() % 4) { case 0: { Po x = p, y = p; x /= d; y %= d; P("divmod", r.d, s(p), s(d), s(x), s(y)); break; } case 1: { Po x, y; Po::div(x, p, d); Po::mod(y, p, d); P("divmod", r.d, s(p), s(d), s(x), s(y)); break; } default:; } }
template<class T> void qr(R<T>& r, const polynom<T>& p, const polynom<T>& d, bool hensel) { typedef polynom<T> Po; Po x; if (hensel) Po::quot_rem_hensel(x, p, d); else Po::quot_rem_long(x, p, d); int l1 = p.deg(), l2 = d.deg(); if (l1 < l2) { P("divmod", r.d, s(p), s(d), S("[]"), s(x)); return; } V<T> rr(x.c.begin(), x.c.begin() + l2), qq(x.c.begin() + l2, x.c.begin() + l1 + 1); P("divmod", r.d, s(p), s(d), s(qq), s(rr)); }
template<class T> void small(R<T> r, Rng& g, int n, int mx, int dv) { typedef polynom<T> Po; for (int it = 0; it < n; it++) { int la = g() % 3 ? g() % 6 : g() % mx, lb = g() % 3 ? g() % 6 : g() % mx; Po a = pol(r, g, la), b = pol(r, g, lb); if (it % 9 == 0) a = Po(V<T>{r.mk(0)}); if (it % 11 == 0) b = Po(V<T>{r.mk(1)});
        alias(r, "add", a, b, it % 4, true, [](Po& p, const Po& x, const Po& y) { Po::add(p, x, y); }); alias(r, "sub", a, b, (it + 1) % 4, true, [](Po& p, const Po& x, const Po& y) { Po::sub(p, x, y); }); alias(r, "mul", a, b, (it + 2) % 4, true, [](Po& p, const Po& x, const Po& y) { Po::mul(p, x, y); });
        P("add", r.d, s(a), s(b), s(a + b)); P("sub", r.d, s(a), s(b), s(a - b)); P("mul", r.d, s(a), s(b), s(a * b)); P("neg", r.d, s(a), s(-a)); if (it % 3 == 0) { Po x = b; Po::neg(x, a); P("neg", r.d, s(a), s(x)); x = a; Po::neg(x, x); P("neg", r.d, s(a), s(x)); }
        { int lr = g() % (a.deg() + b.deg() + 4); Po x; switch (it % 4) { case 0: x = a; Po::mul(x, x, b, lr); P("mullr", r.d, s(a), s(b), s(lr), s(x)); break; case 1: x = b; Po::mul(x, a, x, lr); P("mullr", r.d, s(a), s(b), s(lr), s(x)); break; case 2: x = a; Po::mul(x, x, x, lr); P("mullr", r.d, s(a), s(a), s(lr), s(x)); break; default: Po::mul(x, a, b, lr); P("mullr", r.d, s(a), s(b), s(lr), s(x)); } }
        { T k = el(r, g); Po x = a; if (it % 2) x *= k; else x = a * k; P("smul", r.d, s(a), s(k), s(x)); if (r.field && !(k == r.mk(0))) { Po y = a; if (it % 2) y /= k; else y = a / k; P("sdiv", r.d, s(a), s(k), s(y)); } else if (!r.field && !(k == r.mk(0)) && !std::is_same<T, uint64_t>::value) { Po y = x / k; P("sdiv", r.d, s(x), s(k), s(y)); } }
        { Po d = b; if (dv == 1) { if (d.size() > 4) d.resize(4); } lead(d, r, g); while (r.cap < 100 && r.field && d.deg() > dv) { d.c.resize(d.deg()); lead(d, r, g); } Po u = a; if (dv == 1 && u.size() > 8) u.resize(8); if (r.cap < 100 && u.deg() > dv + 3) u.resize(dv + 3); switch (g() % 5) { case 0: u = a * d; break; case 1: if (u.deg() < d.deg()) std::swap(u, d), lead(d, r, g); break; case 2: { int k = g() % 5; Po t(V<T>(k + 1, r.mk(0))); t.c[k] = r.mk(1); d = t; } default:; } if (r.cap < 100 && r.field) { while (d.deg() > dv) { d.c.resize(d.deg()); lead(d, r, g); } if (u.deg() > 2 * dv) u.resize(2 * dv); } dm(r, g, u, d); qr(r, u, d, false); if (r.field || d.leading_coeff() == r.mk(1)) if (r.cap >= 100 || u.deg() <= 6) qr(r, u, d, true); }
        { Po p = a; if (p.c[0] == r.mk(0) || !r.field) p.c[0] = r.mk(1); int N = 1 + g() % (r.cap < 100 || dv == 1 ? 5 : 20); if (r.cap < 100 && p.size() > 4) p.resize(4); P("inv", r.d, s(p), s(N), s(p.inverse(N))); }
        { int i = g() % a.size(); T k = a.at(i); Po x = a; x *= x.c[i]; P("smul", r.d, s(a), s(k), s(x)); if (r.field && !(k == r.mk(0))) { Po y = a; y /= y.c[i]; P("sdiv", r.d, s(a), s(k), s(y)); } }
        P("rev", r.d, s(a), s(a.reverse())); P("deriv", r.d, s(a), s(a.derivative())); if (r.field) { T c0 = el(r, g); P("integ", r.d, s(a), s(c0), s(a.integral(c0))); P("integ", r.d, s(a), s(r.mk(0)), s(a.integral())); }
        { Po u = a; if ((r.cap < 100 || dv == 1) && u.deg() > 5) u.resize(5); T x = el(r, g); P("eval", r.d, s(u), s(x), s(it % 2 ? u(x) : u.template eval<T>(x))); Po b2 = b; if (b2.size() > 4) b2.resize(4); if (u.size() > (dv == 1 ? 4 : 6)) u.resize(dv == 1 ? 4 : 6); P("comp", r.d, s(u), s(b2), s(u(b2))); }
        { Po x = b; if (g() % 2) { x = a; if (g() % 2) x.c.push_back(r.mk(0)); if (g() % 2) x.c[g() % x.c.size()] = el(r, g); } P("cmp", r.d, s(a), s(x), cmp3(a, x)); }
        P("deg", r.d, s(a), s(a.deg()), s(a.lowest()), s(a.leading_coeff()), s(a.is_power())); { Po x(V<T>(1 + g() % 4, r.mk(0))); x.c.back() = it % 3 ? r.mk(1) : el(r, g); if (it % 2) x.c.push_back(r.mk(0)); P("deg", r.d, s(x), s(x.deg()), s(x.lowest()), s(x.leading_coeff()), s(x.is_power())); }
        { int i = g() % (a.size() + 3); T v = el(r, g); Po x = a; x[i] = v; const Po& ca = a; P("set", r.d, s(a), s(i), s(v), s(x), s(ca[i]), s(ca.at(-1)), s(ca[1000000]), s(ca.id_coeff())); int m = g() % (a.size() + 3); Po y = a, z = a, w = a; y.resize(m); z.shrink_to_fit(); w.reserve(m); P("size", r.d, s(a), s(m), s(y), s(z), s(w)); y = a; y.swap(z); P("size", r.d, s(a), s(m), s(a.size() == m ? a : Po(a).resize(m)), s(y), s(w)); }
        if (r.field && it % 3 == 0) { Po u = a; if (u.size() > 7) u.resize(7); P("sum", r.d, s(u), s(polynom_sum(u))); } } }
template<class T> void large(R<T> r, Rng& g, int n, int lo, int hi) { typedef polynom<T> Po; for (int it = 0; it < n; it++) { int la = rnd(g, lo, hi), lb = it % 3 == 0 ? rnd(g, 40, 60) : rnd(g, std::min(lo, 45), la); Po a = pol(r, g, la), b = pol(r, g, lb); if (g() % 2) std::swap(a, b);
        switch (it % 5) { case 0: { Po x = a; x *= b; P("mul", r.d, s(a), s(b), s(x)); break; } case 1: { Po x = a; x *= x; P("mul", r.d, s(a), s(a), s(x)); break; } case 2: { int lr = g() % (a.deg() + b.deg() + 5); Po x = b; Po::mul(x, a, x, lr); P("mullr", r.d, s(a), s(b), s(lr), s(x)); break; } case 3: { int lr = g() % (a.deg() + 1); Po x = a; Po::mul(x, x, x, lr); P("mullr", r.d, s(a), s(a), s(lr), s(x)); break; } default: { Po x; Po::mul(x, a, b, g() % 2 ? (int)(g() % (a.deg() + b.deg() + 5)) : -1); P(x.size() == a.deg() + b.deg() + 1 ? "mul" : "mullr", r.d, s(a), s(b), x.size() == a.deg() + b.deg() + 1 ? s(x) : s(x.size() - 1) + "," + s(x)); } } } }
template<class T> void ldiv(R<T> r, Rng& g, int n, int hi) { typedef polynom<T> Po; for (int it = 0; it < n; it++) { Po a = pol(r, g, rnd(g, 100, hi)); int l1 = a.deg(); int th = (int)(25 * log2((double)std::max(l1, 2))); Po b = pol(r, g, it % 3 == 0 ? rnd(g, std::min(45, l1), l1 + 2) : rnd(g, std::min(th - 2, l1), l1)); lead(b, r, g); dm(r, g, a, b); if (it % 2) qr(r, a, b, it % 4 == 1); { Po p = a; if (p.c[0] == r.mk(0) || !r.field) p.c[0] = r.mk(1); int N = 1 + g() % hi; P("inv", r.d, s(p), s(N), s(p.inverse(N))); } } }
// the multiplication routines one by one
template<class T, class X> void raw(R<T> r, Rng& g, int n, int hi, X fn) { typedef polynom<T> Po; for (int it = 0; it < n; it++) { int l1 = rnd(g, 0, hi), l2 = rnd(g, 0, l1), lr = g() % 2 ? l1 + l2 : rnd(g, l1, l1 + l2); V<T> a, b; for (int i = 0; i <= l1; i++) a.push_back(it % 3 ? el(r, g) : r.mk(-1)); for (int i = 0; i <= l2; i++) b.push_back(it % 3 ? el(r, g) : r.mk(-1)); V<T> c(lr + 1, r.mk(0)); S sa = s(a), sb = s(b); if (it % 4 == 0) { c = a; c.resize(lr + 1, r.mk(0)); fn(c.data(), lr, c.data(), l1, b.data(), l2); } else if (it % 4 == 1) { c = b; c.resize(lr + 1, r.mk(0)); fn(c.data(), lr, a.data(), l1, c.data(), l2); } else fn(c.data(), lr, a.data(), l1, b.data(), l2); P("mullr", r.d, sa, sb, s(lr), s(c)); } }
template<class T> void gf(R<T> r, Rng& g, int n, std::vector<int> m) { typedef polynom<T> Po; typedef moduloX<Po> G; V<T> mc; for (int x : m) mc.push_back(r.mk(x)); Po M(mc); int k = M.deg(); for (int it = 0; it < n; it++) { V<T> u, v; for (int i = 0; i < k; i++) u.push_back(el(r, g)), v.push_back(el(r, g)); if (it % 7 == 0) for (int i = 1; i < k; i++) v[i] = r.mk(0); G a(Po(u), M), b(Po(v), M); S pw = "["; for (int e = 0; e < 9; e++) pw += (e ? "," : "") + s(powT(a, e).v); G q = Po(v).c == V<T>(k, r.mk(0)) ? a : a / b; P("gf", r.d, s(M), s(u), s(v), s((a + b).v), s((a - b).v), s((a * b).v), s(q.v), s((-a).v), pw + "]"); } }
template<class I> R<moduloX<I>> rx(I M) { return R<moduloX<I>>{"[2," + big(M) + "]", [M](ll v) { return moduloX<I>((I)(((L)v % (L)M + (L)M) % (L)M), M); }, true, 1, 1000}; }
template<class Md> R<Md> rm() { return R<Md>{"[2," + big((L)Md::M()) + "]", [](ll v) { L M = Md::M(); return Md((decltype(Md().v))(((L)v % M + M) % M)); }, true, 1, 1000}; }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]), k = argc > 4 ? atoi(argv[4]) : 0; setvbuf(stdout, 0, _IOLBF, 0);
    typedef modulo<int, 1000000007, modulo_storage::CONSTANT> A; typedef modulo<int, 77> B; typedef modulo<uint32_t, 4294967291u, modulo_storage::CONSTANT> C; typedef modulo<int64_t, 5> D; typedef fraction<int64_t> Q; B::M() = 1009; D::M() = 998244353;
    R<int64_t> rz{"[0]", [](ll v) { return (int64_t)v; }, false, 0, 900}; R<Q> rq{"[1]", [](ll v) { return Q(v); }, true, 0, 3};
    switch (part) {
    case 0: small(rm<A>(), g, n, 70, 0); small(rx<int>(10007), g, n / 2, 20, 0); break;
    case 1: small(rm<B>(), g, n, 60, 0); small(rx<int64_t>(1000000000039ll), g, n / 2, 60, 0); break;
    case 2: { R<uint64_t> ru{"[2," + big((L)1 << 64) + "]", [](ll v) { return (uint64_t)v; }, false, 1, 1000}; small(ru, g, n, 60, 0); large(ru, g, n / 8, 45, 300); ldiv(ru, g, n / 10, 260); } small(rz, g, n / 2, 60, 1); small(rq, g, n, 9, 3); break;
    case 3: small(rm<C>(), g, n / 2, 60, 0); small(rm<D>(), g, n / 2, 120, 0); { R<moduloX<int>> r = rx<int>(12); r.field = false; small(r, g, n / 2, 70, 0); } break;
    case 4: large(rm<A>(), g, n, 48, 130); large(rm<C>(), g, n, 90, 420); large(rx<int>(2147483647), g, n / 2, 48, 300); large(rz, g, n / 2, 45, 300); break;
    case 5: large(rm<A>(), g, n, 450, 1030); large(rm<C>(), g, n / 2, 450, 1030); large(rx<int>(2147483629), g, n / 3, 450, 800); large(rx<int64_t>(1000000007ll), g, n / 3, 450, 700); break;
    case 6: large(rx<int64_t>(1000000000039ll), g, n, 450, 600); large(rx<int64_t>(4294967311ll), g, n, 450, 600); large(rx<uint64_t>(4294967291ull), g, n, 450, 600); break;
    case 7: ldiv(rm<A>(), g, n, 400); ldiv(rx<int>(1000003), g, n / 2, 300); ldiv(rm<C>(), g, n / 2, 300); break;
    case 8: { typedef polynom_mul<A> X; typedef polynom_mul<C> Y; typedef polynom<A> Po; raw(rm<A>(), g, n, 60, Po::_mul_long); raw(rm<A>(), g, n, 60, Po::_mul_karatsuba); raw(rm<A>(), g, n, 300, Po::_mul_karatsuba); raw(rm<A>(), g, n, 140, X::_mul_fft); raw(rm<A>(), g, n, 140, X::_mul_fft_crt); raw(rm<A>(), g, n, 140, X::_mul_fft_big); raw(rm<C>(), g, n, 260, Y::_mul_fft); raw(rm<C>(), g, n, 260, Y::_mul_fft_crt); raw(rm<C>(), g, n, 260, Y::_mul_fft_big); typedef polynom_mul<D> Z; raw(rm<D>(), g, n, 60, Z::_mul_fft); raw(rm<D>(), g, n, 60, Z::_mul_fft_crt); raw(rm<D>(), g, n, 60, Z::_mul_fft_big); break; }
    case 9: gf(rx<int>(2), g, n, {1, 1, 0, 1}); gf(rx<int>(3), g, n, {1, 0, 1}); gf(rm<B>(), g, n, {11, 0, 1}); gf(rx<int>(5), g, n, {2, 0, 0, 0, 1}); gf(rm<A>(), g, n, {5, 0, 1}); break;
    default: { int l1 = k, l2 = k / 2 + 1000; auto r = rm<A>(); polynom<A> a = pol(r, g, l1), b = pol(r, g, l2); P("mul", r.d, s(a), s(b), s(a * b)); } }
    for (auto& b : bts) b.second.put(); }
