#include "bt.h"
#include <array>
#include "altruct/algorithm/math/modulos.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
#include "altruct/structure/math/clifford3.h"
#include "altruct/structure/math/pga.h"
using namespace vf; using namespace altruct::math; namespace pg = altruct::math::pga;
typedef modulo<int, 101> M1;
S k(const char* c) { return S("\"") + c + "\""; }
template<class T> struct Num; template<> struct Num<int> { static const int m = 0; static ll v(int x) { return x; } }; template<> struct Num<ll> { static const int m = 0; static ll v(ll x) { return x; } }; template<> struct Num<M1> { static const int m = 101; static ll v(M1 x) { return x.v; } };
typedef std::array<ll, 16> C; template<class T> ll nv(const T& x) { return Num<T>::v(x); }
S cs(const C& c) { S r = "["; for (int i = 0; i < 16; i++) r += (i ? "," : "") + i32(c[i]); return r + "]"; }
// ---- plane-based algebra: coefficients 1 | e0 e1 e2 e3 | e23 e31 e12 | e01 e02 e03 | e123 e032 e013 e021 | e0123
template<class T> void put(C& c, pg::zero<T>) {} template<class T> void put(C& c, const pg::blade0<T>& b) { c[0] = nv(b.s); } template<class T> void put(C& c, int i, const vector3d<T>& v) { c[i] = nv(v.x); c[i + 1] = nv(v.y); c[i + 2] = nv(v.z); }
template<class T> void put(C& c, const pg::blade1<T>& b) { c[1] = nv(b.e0); put(c, 2, b.v); } template<class T> void put(C& c, const pg::blade2E<T>& b) { put(c, 5, b.biE); } template<class T> void put(C& c, const pg::blade2e<T>& b) { put(c, 8, b.bie); } template<class T> void put(C& c, const pg::blade3<T>& b) { c[11] = nv(b.e123); put(c, 12, b.triP); } template<class T> void put(C& c, const pg::blade4<T>& b) { c[15] = nv(b.e0123); }
template<class T> void put(C& c, const pg::blade02E<T>& b) { put(c, b.b0); put(c, b.b2E); } template<class T> void put(C& c, const pg::blade02e<T>& b) { put(c, b.b0); put(c, b.b2e); } template<class T> void put(C& c, const pg::blade22<T>& b) { put(c, b.b2E); put(c, b.b2e); } template<class T> void put(C& c, const pg::blade2E4<T>& b) { put(c, b.b2E); put(c, b.b4); } template<class T> void put(C& c, const pg::blade2e4<T>& b) { put(c, b.b2e); put(c, b.b4); }
template<class T> void put(C& c, const pg::blade024<T>& b) { put(c, b.b02); put(c, b.b24); } template<class T> void put(C& c, const pg::blade13<T>& b) { put(c, b.b1); put(c, b.b3); } template<class T> void put(C& c, const pg::multivector<T>& b) { put(c, b.b024); put(c, b.b13); }
template<class B> S mv(const B& b) { C c; c.fill(0); put(c, b); return cs(c); }
template<class T> struct R { Rng& g; int w; T operator()() { return T((int)(g() % (2 * w + 1)) - w); } vector3d<T> v() { T x = (*this)(), y = (*this)(), z = (*this)(); if (g() % 4 == 0) y = T(0); return vector3d<T>(x, y, z); } };
template<class T> struct Mk { R<T> r; pg::blade0<T> b0() { return pg::blade0<T>(r()); } pg::blade1<T> b1() { switch (r.g() % 6) { case 0: return pg::blade1<T>(r()); case 1: return pg::blade1<T>(r.v()); } T e = r(); return pg::blade1<T>(e, r.v()); } pg::blade2E<T> b2E() { return pg::blade2E<T>(r.v()); } pg::blade2e<T> b2e() { return pg::blade2e<T>(r.v()); } pg::blade3<T> b3() { switch (r.g() % 6) { case 0: return pg::blade3<T>(r()); case 1: return pg::blade3<T>(r.v()); } T e = r(); return pg::blade3<T>(e, r.v()); } pg::blade4<T> b4() { return pg::blade4<T>(r()); } };
#define COMP(N, X, x, Y, y) template<class T> struct Gn<pg::N<T>, T> { static const char* n() { return #N; } static pg::N<T> of(Mk<T> k) { switch (k.r.g() % 6) { case 0: return pg::N<T>(k.x()); case 1: return pg::N<T>(k.y()); } auto a = k.x(); return pg::N<T>(a, k.y()); } };
#define PRIM(N, x) template<class T> struct Gn<pg::N<T>, T> { static const char* n() { return #N; } static pg::N<T> of(Mk<T> k) { return k.x(); } };
template<class B, class T> struct Gn; PRIM(blade0, b0) PRIM(blade1, b1) PRIM(blade2E, b2E) PRIM(blade2e, b2e) PRIM(blade3, b3) PRIM(blade4, b4)
COMP(blade02E, blade0<T>, b0, blade2E<T>, b2E) COMP(blade02e, blade0<T>, b0, blade2e<T>, b2e) COMP(blade22, blade2E<T>, b2E, blade2e<T>, b2e) COMP(blade2E4, blade2E<T>, b2E, blade4<T>, b4) COMP(blade2e4, blade2e<T>, b2e, blade4<T>, b4) COMP(blade13, blade1<T>, b1, blade3<T>, b3)
template<class T> struct Gn<pg::blade024<T>, T> { static const char* n() { return "blade024"; } typedef pg::blade024<T> B; template<class X> static X g(Mk<T> k) { return Gn<X, T>::of(k); } static B of(Mk<T> k) { switch (k.r.g() % 14) { case 0: return B(k.b0()); case 1: return B(k.b2E()); case 2: return B(k.b2e()); case 3: return B(k.b4()); case 4: return B(g<pg::blade02e<T>>(k)); case 5: return B(g<pg::blade22<T>>(k)); case 6: return B(g<pg::blade2E4<T>>(k)); case 7: return B(g<pg::blade02E<T>>(k)); case 8: return B(g<pg::blade2e4<T>>(k)); } auto a = g<pg::blade02E<T>>(k); return B(a, g<pg::blade2e4<T>>(k)); } };
template<class T> struct Gn<pg::multivector<T>, T> { static const char* n() { return "multivector"; } typedef pg::multivector<T> B; template<class X> static X g(Mk<T> k) { return Gn<X, T>::of(k); } static B of(Mk<T> k) { switch (k.r.g() % 6) { case 0: return B(g<pg::blade024<T>>(k)); case 1: return B(g<pg::blade13<T>>(k)); } auto a = g<pg::blade024<T>>(k); return B(a, g<pg::blade13<T>>(k)); } };
template<class... X> struct Lst {}; template<class F> void each(Lst<>, F&&) {} template<class X, class... Y, class F> void each(Lst<X, Y...>, F&& f) { f((X*)0); each(Lst<Y...>(), f); }
#define PRIMS(T) pg::blade0<T>, pg::blade1<T>, pg::blade2E<T>, pg::blade2e<T>, pg::blade3<T>, pg::blade4<T>
#define COMPS(T) pg::blade02E<T>, pg::blade02e<T>, pg::blade22<T>, pg::blade2E4<T>, pg::blade2e4<T>, pg::blade024<T>, pg::blade13<T>
template<class B> const char* nm() { return B::n() + 5; }
template<class B> S pos_(const B& a, std::false_type) { return mv(a); } template<class B> S pos_(const B& a, std::true_type) { return mv(+a); }
template<class T> void un(Mk<T> k, int n) { const S m = i32(Num<T>::m); const bool fld = Num<T>::m; each(Lst<PRIMS(T), COMPS(T), pg::multivector<T>>(), [&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type A; for (int i = 0; i < n; i++) { auto a = Gn<A, T>::of(k), b = Gn<A, T>::of(k); S sa = mv(a), sb = mv(b); T t = k.r(); S st = i32(nv(t));
    P("dual", m, sa, mv(!a)); P("neg", m, sa, mv(-a)); P("same", m, sa, pos_(a, std::integral_constant<bool, std::is_integral<T>::value>())); { A x = a; x += b; P("add", m, sa, sb, mv(x)); x = a; x -= b; P("sub", m, sa, sb, mv(x)); x = a; x *= t; P("scal", m, sa, st, mv(x)); x = a; P("add", m, sa, sa, mv(x += x)); x = a; P("sub", m, sa, sa, mv(x -= x)); }
    P("scal", m, sa, st, mv(a * t)); P("scal", m, sa, st, mv(t * a)); if (fld && nv(t)) { P("sdiv", m, sa, st, mv(a / t)); A x = a; x /= t; P("sdiv", m, sa, st, mv(x)); } } });
    each(Lst<PRIMS(T), COMPS(T)>(), [&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type A; for (int i = 0; i < n; i++) { auto a = Gn<A, T>::of(k); S sa = mv(a); P("rev", m, sa, mv(~a)); P("rev", m, sa, mv(a.rev())); P("norms", m, sa, "[" + i32(nv(a.norm2())) + "," + i32(nv(a.ninf2())) + "," + i32(nv(a.diff2())) + "]"); } });
    for (int i = 0; i < n; i++) { typedef pg::multivector<T> A; auto a = Gn<A, T>::of(k); P("rev", m, mv(a), mv(~a)); auto b0 = k.b0(); auto b1 = k.b1(); auto b2E = k.b2E(); auto b2e = k.b2e(); auto b3 = k.b3(); auto b4 = k.b4(); auto w = b0 + b1 + b2E + b2e + b3 + b4; P("same", m, mv(w), mv(A(b0, b1, b2E, b2e, b3, b4))); P("same", m, mv(w), mv(A(b1, b0, b2E, b2e, b4, b3))); P("same", m, mv(w), mv(A(b1, pg::blade02E<T>(b0, b2E), pg::blade2e4<T>(b2e, b4), b3))); } }
template<class T> void alias(Mk<T> k, int n) { const S m = i32(Num<T>::m); const bool fld = Num<T>::m; for (int i = 0; i < n; i++) { typedef vector3d<T> U;
    { auto a = k.b1(); S sa = mv(a); auto x = a; P("scal", m, sa, i32(nv(a.e0)), mv(x *= x.e0)); x = a; P("scal", m, sa, i32(nv(a.v.x)), mv(x *= x.v.x)); x = a; P("scal", m, sa, i32(nv(a.v.y)), mv(x *= x.v.y)); if (fld && nv(a.e0)) { x = a; P("sdiv", m, sa, i32(nv(a.e0)), mv(x /= x.e0)); } }
    { auto a = k.b3(); S sa = mv(a); auto x = a; if (fld && nv(a.e123)) { P("sdiv", m, sa, i32(nv(a.e123)), mv(x /= x.e123)); } x = a; P("scal", m, sa, i32(nv(a.e123)), mv(x *= x.e123)); }
    { auto a = Gn<pg::blade02e<T>, T>::of(k); S sa = mv(a); auto x = a; P("scal", m, sa, i32(nv(a.b0.s)), mv(x *= x.b0.s)); if (fld && nv(a.b0.s)) { x = a; P("sdiv", m, sa, i32(nv(a.b0.s)), mv(x /= x.b0.s)); } }
    { auto a = Gn<pg::blade024<T>, T>::of(k); S sa = mv(a); auto x = a; P("scal", m, sa, i32(nv(a.b02.b0.s)), mv(x *= x.b02.b0.s)); if (fld && nv(a.b02.b0.s)) { x = a; P("sdiv", m, sa, i32(nv(a.b02.b0.s)), mv(x /= x.b02.b0.s)); } }
    { auto a = Gn<pg::multivector<T>, T>::of(k); S sa = mv(a); auto x = a; P("scal", m, sa, i32(nv(a.b024.b02.b0.s)), mv(x *= x.b024.b02.b0.s)); } } }
template<class A, class B, class T> void two(Mk<T> k, int n) { const S m = i32(Num<T>::m); const bool fld = Num<T>::m; for (int i = 0; i < n; i++) { auto a = Gn<A, T>::of(k); auto b = Gn<B, T>::of(k); S sa = mv(a), sb = mv(b); P("gp", m, sa, sb, mv(a * b)); P("wedge", m, sa, sb, mv(a ^ b)); P("inner", m, sa, sb, mv(a & b)); P("join", m, sa, sb, mv(a | b)); P("add", m, sa, sb, mv(a + b)); P("sub", m, sa, sb, mv(a - b)); } }
template<class B> bool orth(const B& b) { C c; c.fill(0); put(c, b); int m = Num<decltype(b.norm2())>::m; ll x = c[0] * c[15] - (c[5] * c[8] + c[6] * c[9] + c[7] * c[10]), y = c[1] * c[11] + c[2] * c[12] + c[3] * c[13] + c[4] * c[14]; return m ? x % m == 0 && y % m == 0 : x == 0 && y == 0; }
template<class A, class B, class T> void sand(Mk<T> k, int n) { const S m = i32(Num<T>::m); const bool fld = Num<T>::m; for (int i = 0; i < n; i++) { auto a = Gn<A, T>::of(k); auto b = Gn<B, T>::of(k); for (int j = 0; j < 400 && !orth(b); j++) b = Gn<B, T>::of(k); if (!orth(b)) continue; P("sand", m, mv(a), mv(b), S("\"") + (S(Gn<A, T>::n()) == "multivector" ? "m" : Gn<A, T>::n() + 5) + "\"", S("\"") + (Gn<B, T>::n() + 5) + "\"", mv(a % b)); } }
template<class T> void pairs(Mk<T> k, int n) { each(Lst<PRIMS(T), COMPS(T), pg::multivector<T>>(), [&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type A; each(Lst<PRIMS(T), COMPS(T), pg::multivector<T>>(), [&](auto* q) { typedef typename std::remove_pointer<decltype(q)>::type B; two<A, B, T>(k, n); }); }); }
template<class T> void sands(Mk<T> k, int n) { each(Lst<PRIMS(T), COMPS(T), pg::multivector<T>>(), [&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type A; each(Lst<PRIMS(T), COMPS(T)>(), [&](auto* q) { typedef typename std::remove_pointer<decltype(q)>::type B; sand<A, B, T>(k, n); }); }); }
template<class B> void inv1(const B& b) { if (nv(b.norm2())) P("inv", i32(101), mv(b), mv(b.inv())); }
void invs(Rng& g, int n) { Mk<M1> k{{g, 50}}; for (int i = 0; i < n; i++) { inv1(k.b0()); { auto b = k.b1(); inv1(b); } inv1(k.b2E()); inv1(k.b3()); inv1(Gn<pg::blade02E<M1>, M1>::of(k)); inv1(Gn<pg::blade02e<M1>, M1>::of(k)); inv1(Gn<pg::blade2E4<M1>, M1>::of(k)); inv1(Gn<pg::blade024<M1>, M1>::of(k)); inv1(Gn<pg::blade13<M1>, M1>::of(k)); { auto a = k.r.v(), b = k.r.v(); pg::blade22<M1> l(pg::blade2E<M1>(a), pg::blade2e<M1>(a ^ b)); inv1(l); } } }
vector3d<int> rv(Rng& g, int w) { return vector3d<int>((int)(g() % (2 * w + 1)) - w, (int)(g() % (2 * w + 1)) - w, (int)(g() % (2 * w + 1)) - w); }
S v3(const vector3d<int>& v) { return "[" + i32(v.x) + "," + i32(v.y) + "," + i32(v.z) + "]"; }
void geo(Rng& g, int n) { for (int i = 0; i < n; i++) { auto x = rv(g, 20), t = rv(g, 20) * 2; auto r = pg::point(x) % pg::translator(t); int h = 1 + g() % 4; P("transl", v3(x), i32(r.e123), v3(t), "[" + i32(r.e123) + "," + i32(-r.triP.x) + "," + i32(-r.triP.y) + "," + i32(-r.triP.z) + "]"); auto ph = pg::point(x * h, h); auto rh = ph % pg::translator(t); P("transl", v3(x), i32(rh.e123), v3(t), "[" + i32(rh.e123) + "," + i32(-rh.triP.x) + "," + i32(-rh.triP.y) + "," + i32(-rh.triP.z) + "]");
    vector3d<int> nn; int ax = g() % 3, sg = g() % 2 ? 1 : -1; (ax == 0 ? nn.x : ax == 1 ? nn.y : nn.z) = sg; int c = (int)(g() % 9) - 4, sn = (int)(g() % 9) - 4, len = 1 + g() % 3; auto q = pg::point(x) % pg::rotor(nn * len, c, sn); P("rotor", v3(x), v3(nn), i32(c), i32(sn), "[" + i32(q.e123) + "," + i32(-q.triP.x) + "," + i32(-q.triP.y) + "," + i32(-q.triP.z) + "]");
    auto d = rv(g, 4), p0 = rv(g, 10); if (d == vector3d<int>()) d.x = 1; auto l = pg::line(d, p0); vector3d<int> y = g() % 2 ? p0 + d * ((int)(g() % 7) - 3) : rv(g, 10); { C z; z.fill(0); auto j = pg::point(y) | l; put(z, j); bool zero = true; for (auto q : z) if (q) zero = false; P("line", v3(p0), v3(d), v3(y), i32(zero)); }
    int dd = (int)(g() % 21) - 10; auto pl = pg::plane(d, dd); if (g() % 2) { for (int tr = 0; tr < 200 && (d & y) != dd; tr++) y = rv(g, 5); } auto j = pl ^ pg::point(y); P("plane", v3(d), i32(dd), v3(y), i32(j.e0123 == 0)); } }
// ---- Cl(3)
namespace cl = altruct::math::cl3;
template<class T> S cm(const cl::rotor<T>& r) { C c; c.fill(0); c[0] = nv(r.s); c[5] = nv(r.yz); c[6] = nv(r.zx); c[7] = nv(r.xy); return cs(c); } template<class T> S cm(const cl::vector<T>& v) { C c; c.fill(0); c[2] = nv(v.x); c[3] = nv(v.y); c[4] = nv(v.z); c[11] = nv(v.w); return cs(c); }
template<class T> S cm(const cl::multivector<T>& m) { C c; c.fill(0); c[0] = nv(m.r.s); c[5] = nv(m.r.yz); c[6] = nv(m.r.zx); c[7] = nv(m.r.xy); c[2] = nv(m.v.x); c[3] = nv(m.v.y); c[4] = nv(m.v.z); c[11] = nv(m.v.w); return cs(c); }
template<class T> struct Ck { R<T> r; cl::rotor<T> ro() { T a = r(), b = r(), c = r(), d = r(); if (r.g() % 6 == 0) return cl::rotor<T>(a); if (r.g() % 6 == 0) a = T(0); return cl::rotor<T>(a, b, c, d); } cl::vector<T> ve() { T a = r(), b = r(), c = r(), d = r(); if (r.g() % 4 == 0) return cl::vector<T>(a, b, c); return cl::vector<T>(a, b, c, d); } cl::multivector<T> mu() { switch (r.g() % 8) { case 0: return cl::multivector<T>(ro()); case 1: return cl::multivector<T>(ve()); } auto a = ro(); return cl::multivector<T>(a, ve()); } };
template<class A> S rel(const A& a, const A& b) { return "[" + i32(a == b) + "," + i32(a != b) + "," + i32(a < b) + "," + i32(a > b) + "," + i32(a <= b) + "," + i32(a >= b) + "]"; }
template<class T> S r4(const cl::rotor<T>& r) { return "[" + i32(nv(r.s)) + "," + i32(nv(r.yz)) + "," + i32(nv(r.zx)) + "," + i32(nv(r.xy)) + "]"; } template<class T> S r4(const cl::vector<T>& v) { return "[" + i32(nv(v.x)) + "," + i32(nv(v.y)) + "," + i32(nv(v.z)) + "," + i32(nv(v.w)) + "]"; } template<class T> S r4(const cl::multivector<T>& m) { S a = r4(m.r), b = r4(m.v); a.back() = ','; return a + b.substr(1); }
template<class T, class A> void cone(Ck<T> k, const A& a, const A& b) { const S m = i32(Num<T>::m); const bool fld = Num<T>::m; T t = k.r(); S st = i32(nv(t)); P("add", m, cm(a), cm(b), cm(a + b)); P("sub", m, cm(a), cm(b), cm(a - b)); P("neg", m, cm(a), cm(-a)); P("rev", m, cm(a), cm(a.rev())); P("conj", m, cm(a), cm(a.conj())); P("conj", m, cm(a), cm(conjugateT<A>::of(a))); P("scal", m, cm(a), st, cm(a * t)); P("scal", m, cm(a), st, cm(t * a)); A x = a; x += b; P("add", m, cm(a), cm(b), cm(x)); x = a; x -= b; P("sub", m, cm(a), cm(b), cm(x)); x = a; x *= t; P("scal", m, cm(a), st, cm(x)); P("gp", m, cm(a), cm(b), cm(a * b)); P("gp", m, cm(a), cm(a), cm(a * a)); P("cmpI", r4(a), r4(b), rel(a, b)); { A y = a; if (k.r.g() % 2) P("cmpI", r4(a), r4(y), rel(a, y)); } if (fld && nv(t)) { P("sdiv", m, cm(a), st, cm(a / t)); x = a; x /= t; P("sdiv", m, cm(a), st, cm(x)); } P("scal", m, cm(a), i32(0), cm(zeroOf(a))); }
template<class T> void cl3s(Ck<T> k, int n) { const S m = i32(Num<T>::m); const bool fld = Num<T>::m; for (int i = 0; i < n; i++) { auto r = k.ro(), r2 = k.ro(); auto v = k.ve(), v2 = k.ve(); auto u = k.mu(), u2 = k.mu(); cone(k, r, r2); cone(k, v, v2); cone(k, u, u2);
    if (k.r.g() % 3 == 0) { auto q = r; if (k.r.g() % 2) q.xy = r2.xy; else q.yz = r2.yz; P("cmpI", r4(q), r4(r), rel(q, r)); auto w = v; if (k.r.g() % 2) w.w = v2.w; else w.y = v2.y; P("cmpI", r4(w), r4(v), rel(w, v)); auto z = u; z.v.w = u2.v.w; P("cmpI", r4(z), r4(u), rel(z, u)); }
    auto gp = [&](const auto& a, const auto& b) { P("gp", m, cm(a), cm(b), cm(a * b)); }; gp(r, v); gp(v, r); gp(u, r); gp(r, u); gp(u, v); gp(v, u); auto ad = [&](const auto& a, const auto& b) { P("add", m, cm(a), cm(b), cm(a + b)); P("sub", m, cm(a), cm(b), cm(a - b)); }; ad(r, v); ad(v, r); ad(u, r); ad(r, u); ad(u, v); ad(v, u);
    { auto x = r; x *= r2; P("gp", m, cm(r), cm(r2), cm(x)); x = r; P("gp", m, cm(r), cm(r), cm(x *= x)); } { auto x = v; x *= r; P("gp", m, cm(v), cm(r), cm(x)); } { auto x = u; x *= r; P("gp", m, cm(u), cm(r), cm(x)); x = u; x *= v; P("gp", m, cm(u), cm(v), cm(x)); x = u; x *= u2; P("gp", m, cm(u), cm(u2), cm(x)); x = u; P("gp", m, cm(u), cm(u), cm(x *= x)); x = u; x += r; P("add", m, cm(u), cm(r), cm(x)); x = u; x -= r; P("sub", m, cm(u), cm(r), cm(x)); x = u; x += v; P("add", m, cm(u), cm(v), cm(x)); x = u; x -= v; P("sub", m, cm(u), cm(v), cm(x)); x = u; P("gp", m, cm(u), cm(u.r), cm(x *= x.r)); x = u; P("gp", m, cm(u), cm(u.v), cm(x *= x.v)); }
    { auto x = r; P("scal", m, cm(r), i32(nv(r.s)), cm(x *= x.s)); x = r; P("scal", m, cm(r), i32(nv(r.zx)), cm(x *= x.zx)); auto y = v; P("scal", m, cm(v), i32(nv(v.x)), cm(y *= y.x)); auto z = u; P("scal", m, cm(u), i32(nv(u.r.s)), cm(z *= z.r.s)); if (fld && nv(r.s)) { x = r; P("sdiv", m, cm(r), i32(nv(r.s)), cm(x /= x.s)); } if (fld && nv(v.x)) { y = v; P("sdiv", m, cm(v), i32(nv(v.x)), cm(y /= y.x)); } if (fld && nv(u.r.s)) { z = u; P("sdiv", m, cm(u), i32(nv(u.r.s)), cm(z /= z.r.s)); } }
    P("abs2", m, cm(r), i32(nv(r.abs2()))); P("abs2", m, cm(v), i32(nv(v.abs2()))); P("refl", m, cm(v), cm(v2), cm(v.reflect(v2))); P("rotv", m, cm(v), cm(r), cm(v.rotate(r))); { C o; o.fill(0); o[0] = 1; P("same", m, cs(o), cm(identityOf(r))); P("same", m, cs(o), cm(identityOf(u))); int e = (int)(k.r.g() % 100); o[0] = e; P("same", m, cs(o), cm(castOf<cl::rotor<T>>(e))); P("same", m, cs(o), cm(castOf(r, e))); P("same", m, cs(o), cm(castOf(u, e))); P("same", m, cm(u), cm(castOf<cl::multivector<T>>(u))); o[0] = 0; o[11] = e; P("same", m, cs(o), cm(castOf(v, e))); } } }
void cl3inv(Rng& g, int n) { Ck<M1> k{{g, 50}}; for (int i = 0; i < n; i++) { auto r = k.ro(); auto v = k.ve(); auto u = k.mu(), u2 = k.mu(); auto dv = [&](const auto& a, const auto& b) { P("div", i32(101), cm(a), cm(b), cm(a / b)); }; bool ir = nv(r.abs2()) != 0, iv = nv(v.abs2()) != 0, iu; auto okm = [&](const cl::multivector<M1>& m) { auto z = [](const auto& q) { return nv(q.abs2()) != 0; }; bool rz = m.r == zeroOf(m.r); if (rz) return z(m.v); if (!z(m.r)) return false; auto t = m.r - m.v * m.r.inv() * m.v; return z(t); }; iu = okm(u);
    if (ir) { P("inv", i32(101), cm(r), cm(r.inv())); dv(k.ro(), r); dv(k.ve(), r); dv(k.mu(), r); { auto x = u2; x /= r; P("div", i32(101), cm(u2), cm(r), cm(x)); auto y = v; y /= r; P("div", i32(101), cm(v), cm(r), cm(y)); auto z = k.ro(); S sz = cm(z); z /= r; P("div", i32(101), sz, cm(r), cm(z)); cl::multivector<M1> q(r, v); auto q0 = q; P("div", i32(101), cm(q0), cm(r), cm(q /= q.r)); M1 t = k.r(); C c; c.fill(0); c[0] = nv(t); P("div", i32(101), cs(c), cm(r), cm(t / r)); } }
    if (iv) { P("inv", i32(101), cm(v), cm(v.inv())); dv(k.ro(), v); dv(k.ve(), v); dv(k.mu(), v); auto x = u2; x /= v; P("div", i32(101), cm(u2), cm(v), cm(x)); M1 t = k.r(); C c; c.fill(0); c[0] = nv(t); P("div", i32(101), cs(c), cm(v), cm(t / v)); cl::multivector<M1> q(r, v); auto q0 = q; P("div", i32(101), cm(q0), cm(v), cm(q /= q.v)); }
    if (iu) { P("inv", i32(101), cm(u), cm(u.inv())); dv(k.ro(), u); dv(k.ve(), u); dv(k.mu(), u); auto x = u2; x /= u; P("div", i32(101), cm(u2), cm(u), cm(x)); M1 t = k.r(); C c; c.fill(0); c[0] = nv(t); P("div", i32(101), cs(c), cm(u), cm(t / u)); } } }
void mkrot(Rng& g, int n) { static const int q[][4] = {{1, 2, 2, 3}, {2, 3, 6, 7}, {1, 4, 8, 9}, {4, 4, 7, 9}, {2, 6, 9, 11}, {6, 6, 7, 11}, {3, 4, 12, 13}, {2, 5, 14, 15}, {0, 3, 4, 5}, {0, 0, 1, 1}}; for (int i = 0; i < n; i++) { auto pick = [&](double* d) { auto& z = q[g() % 10]; int o[3] = {0, 1, 2}; for (int j = 2; j > 0; j--) std::swap(o[j], o[g() % (j + 1)]); double sc = 1 + g() % 3; for (int j = 0; j < 3; j++) d[j] = z[o[j]] * sc * (g() % 2 ? 1 : -1); return z[3] * sc; }; double a[3], b[3], la = pick(a), lb = pick(b); if ((a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / la / lb < -0.99) continue; typedef cl::vector<double> W; W f(a[0], a[1], a[2]), t(b[0], b[1], b[2]); auto r = f.rotate(cl::make_rotor(f, t)); S e = "[", o = "["; double rr[3] = {r.x, r.y, r.z}; for (int j = 0; j < 3; j++) { e += (j ? "," : "") + i32(llround(b[j] * la / lb * 100000)); o += (j ? "," : "") + i32(llround(rr[j] * 100000)); } P("mkrot", e + "]", o + "]");
    auto h = f.reflect(cl::make_reflector(t)); double dt = (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / lb / lb, hh[3] = {h.x, h.y, h.z}; e = o = "["; for (int j = 0; j < 3; j++) { e += (j ? "," : "") + i32(llround((a[j] - 2 * dt * b[j]) * 100000)); o += (j ? "," : "") + i32(llround(hh[j] * 100000)); } P("mkrot", e + "]", o + "]"); } }
// ---- vectors
template<class T> S vs(const vector2d<T>& v) { return tup(v.x, v.y); } template<class T> S vs(const vector3d<T>& v) { return tup(v.x, v.y, v.z); } template<class T, int N> S vs(const vectorNd<T, N>& v) { V<T> a(v.a.begin(), v.a.end()); return s(a); }
template<class T, class W> void vcom(Rng& g, const W& a, const W& b, const W& nz, T t) { P("vop", k("+"), vs(a), vs(b), vs(a + b)); P("vop", k("-"), vs(a), vs(b), vs(a - b)); P("vop", k("*"), vs(a), vs(b), vs(a * b)); P("vop", k("/"), vs(a), vs(nz), vs(a / nz)); P("vneg", vs(a), vs(-a)); P("vsc", k("*"), vs(a), s(t), vs(a * t)); P("vsc", k("/"), vs(a), s(t), vs(a / t)); W x = a; x += b; P("vop", k("+"), vs(a), vs(b), vs(x)); x = a; x -= b; P("vop", k("-"), vs(a), vs(b), vs(x)); x = a; x *= b; P("vop", k("*"), vs(a), vs(b), vs(x)); x = a; x /= nz; P("vop", k("/"), vs(a), vs(nz), vs(x)); x = a; x *= t; P("vsc", k("*"), vs(a), s(t), vs(x)); x = a; x /= t; P("vsc", k("/"), vs(a), s(t), vs(x)); x = a; x += x; P("vop", k("+"), vs(a), vs(a), vs(x)); x = a; x -= x; P("vop", k("-"), vs(a), vs(a), vs(x)); x = nz; x *= x; P("vop", k("*"), vs(nz), vs(nz), vs(x)); x = nz; x /= x; P("vop", k("/"), vs(nz), vs(nz), vs(x)); P("cmp", vs(a), vs(b), rel(a, b)); P("cmp", vs(a), vs(a), rel(a, a)); }
template<class T> void vec(Rng& g, ll w) { auto R = [&] { return (T)((ll)(g() % (ull)(2 * w + 1)) - w); }; auto Z = [&] { T t; do t = R(); while (t == 0); return t; }; T t = Z(); const T e = (T)(g() % (ull)(w / 2 + 2));
    { typedef vector2d<T> W; W a(R(), R()), b(R(), R()), c(R(), R()), nz(Z(), Z()); vcom<T>(g, a, b, nz, t); W q = a; if (g() % 2) q.y = b.y; P("cmp", vs(a), vs(q), rel(a, q)); P("dot", vs(a), vs(b), s(a & b)); P("cr2", vs(a), vs(b), s(a ^ b)); P("dot3", vs(a), vs(b), vs(c), s(a.dot(b, c))); P("cr32", vs(a), vs(b), vs(c), s(a.cross(b, c))); P("rot", vs(a), vs(b), vs(a.rot(b))); P("irot", vs(a), vs(b), vs(a.irot(b))); P("perp", vs(a), vs(a.perp())); P("vabs", vs(a), tup(a.abs2(), a.abs1())); P("diff2", vs(a), s(a.diff2())); W x = nz; x *= x.x; P("vself", k("*"), vs(nz), i32(1), vs(x)); x = nz; x /= x.x; P("vself", k("/"), vs(nz), i32(1), vs(x)); x = nz; x *= x.y; P("vself", k("*"), vs(nz), i32(2), vs(x));
      P("vid", vs(W(0, 0)), vs(W())); P("vid", vs(W(t, 0)), vs(W(t))); if (g() % 4 == 0) a = W(); W::EPS = e; P("unit", vs(a), vs(W(0, 0)), s(e), vs(a.unit())); P("unit", vs(a), vs(b), s(e), vs(a.unit(b))); P("near", vs(a), vs(b), s(e), i32(a.near(b))); W d(a.x + (T)(g() % (ull)(e + 2)), a.y - (T)(g() % (ull)(e + 2))); P("near", vs(a), vs(d), s(e), i32(a.near(d))); W::EPS = 0; P("near", vs(a), vs(a), s((T)0), i32(a.near(a))); }
    { typedef vector3d<T> W; W a(R(), R(), R()), b(R(), R(), R()), c(R(), R(), R()), nz(Z(), Z(), Z()); vcom<T>(g, a, b, nz, t); W q = a; if (g() % 2) q.z = b.z; else q.y = b.y; P("cmp", vs(a), vs(q), rel(a, q)); P("vid", vs(a), vs(+a)); P("vsc", k("*"), vs(a), s(t), vs(t * a)); P("dot", vs(a), vs(b), s(a & b)); P("cr3", vs(a), vs(b), vs(a ^ b)); { W x = a; x ^= b; P("cr3", vs(a), vs(b), vs(x)); x = a; x ^= x; P("cr3", vs(a), vs(a), vs(x)); } P("dot3", vs(a), vs(b), vs(c), s(a.dot(b, c))); P("cr33", vs(a), vs(b), vs(c), vs(a.cross(b, c))); P("vabs", vs(a), tup(a.abs2(), a.abs1())); W x = nz; x *= x.x; P("vself", k("*"), vs(nz), i32(1), vs(x)); x = nz; x /= x.y; P("vself", k("/"), vs(nz), i32(2), vs(x));
      P("vid", vs(W(0, 0, 0)), vs(W())); P("vid", vs(W(t, t, 0)), vs(W(t, t))); if (g() % 4 == 0) a = W(); W::EPS = e; P("unit", vs(a), vs(W(0, 0, 0)), s(e), vs(a.unit())); P("unit", vs(a), vs(b), s(e), vs(a.unit(b))); P("near", vs(a), vs(b), s(e), i32(a.near(b))); W d(a.x + (T)(g() % (ull)(e + 2)), a.y - (T)(g() % (ull)(e + 2)), a.z + (T)(g() % (ull)(e + 2))); P("near", vs(a), vs(d), s(e), i32(a.near(d))); W::EPS = 0; } }
template<class T, int N> void vecN(Rng& g, ll w) { auto R = [&] { return (T)((ll)(g() % (ull)(2 * w + 1)) - w); }; auto Z = [&] { T t; do t = R(); while (t == 0); return t; }; typedef vectorNd<T, N> W; W a, b, nz; P("vid", s(V<T>(N, 0)), vs(a)); for (int i = 0; i < N; i++) a[i] = R(), b[i] = R(), nz[i] = Z(); T t = Z(); vcom<T>(g, a, b, nz, t); P("vop", k("%"), vs(a), vs(nz), vs(a % nz)); P("vsc", k("%"), vs(a), s(t), vs(a % t)); P("vsc", k("+"), vs(a), s(t), vs(a + t)); P("vsc", k("-"), vs(a), s(t), vs(a - t)); { W x = a; x %= nz; P("vop", k("%"), vs(a), vs(nz), vs(x)); x = a; x %= t; P("vsc", k("%"), vs(a), s(t), vs(x)); x = a; x += t; P("vsc", k("+"), vs(a), s(t), vs(x)); x = a; x -= t; P("vsc", k("-"), vs(a), s(t), vs(x)); x = nz; x %= x; P("vop", k("%"), vs(nz), vs(nz), vs(x)); }
    for (int j : {0, (int)(g() % N)}) { W x = a; x += x[j]; P("vself", k("+"), vs(a), i32(j + 1), vs(x)); x = a; x -= x[j]; P("vself", k("-"), vs(a), i32(j + 1), vs(x)); x = nz; x *= x[j]; P("vself", k("*"), vs(nz), i32(j + 1), vs(x)); x = nz; x /= x[j]; P("vself", k("/"), vs(nz), i32(j + 1), vs(x)); x = nz; x %= x[j]; P("vself", k("%"), vs(nz), i32(j + 1), vs(x)); }
    W q = a; int j = g() % N; q[j] = b[j]; P("cmp", vs(a), vs(q), rel(a, q)); P("cmp1", vs(a), vs(q), i32(a.cmp(q))); P("dot", vs(a), vs(a), s(a.abs2())); P("vid", s(V<T>(N, t)), vs(W(t))); P("vid", s(V<T>(N, 1)), vs(identityOf(a))); P("vid", s(V<T>(N, 0)), vs(zeroOf(a))); P("vid", vs(a), vs(W(a.a))); P("vid", i32(N), i32(a.size())); V<T> l; T u = R(), v = R(), z = R(); P("list", tup(u, v, z), i32(N), vs(W{u, v, z})); P("list", tup(u), i32(N), vs(W{u})); P("list", tup(u, v), i32(N), vs(W{u, v})); P("list", tup(u, v, z, u, v), i32(N), vs(W{u, v, z, u, v})); W y; y.assign(&a.a[0]); P("vid", vs(a), vs(y)); }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    switch (part) {
    case 0: pairs<int>({{g, 9}}, n / 10 + 1); break;
    case 1: pairs<int>({{g, 500}}, n / 10 + 1); break;
    case 2: sands<int>({{g, 4}}, n / 6 + 1); sands<M1>({{g, 50}}, 1); break;
    case 3: un<int>({{g, 50}}, n / 2); un<M1>({{g, 50}}, n / 2); alias<int>({{g, 50}}, n); alias<M1>({{g, 50}}, n); pairs<M1>({{g, 50}}, 1); break;
    case 4: invs(g, n * 2); geo(g, n * 10); break;
    case 5: cl3s<int>({{g, 30}}, n * 2); cl3s<M1>({{g, 50}}, n); cl3inv(g, n * 2); mkrot(g, n * 10); break;
    case 6: for (int i = 0; i < n * 2; i++) { vec<int>(g, i % 3 ? 5 : 10000); vec<ll>(g, i % 2 ? 9 : 500000000); vecN<int, 1>(g, 9); vecN<int, 3>(g, 5); vecN<ll, 5>(g, 100000000); } break;
    }
    flushall(); }
