#include "vf.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/nimber.h"
#include "altruct/structure/math/galois_field_2.h"
#include "altruct/structure/math/with_infinity.h"
#include "altruct/structure/math/moebius_tr.h"
using namespace vf; using namespace altruct::math; typedef __int128 L; typedef std::string S; typedef unsigned long long ull;
struct Bt { S s; int n = 0; S f; Bt(const char* f) : f(f) {} void add(const S& r) { s += (n++ ? ",[" : "[") + r + "]"; if (n >= 40 || s.size() > 40000) put(); } void put() { if (n) F(f.c_str()).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
std::map<S, Bt> bts; template<class... A> void P(const char* f, const S& a, A... l) { auto it = bts.find(f); if (it == bts.end()) it = bts.emplace(f, Bt(f)).first; S r = a; int d[] = {0, (r += "," + S(l), 0)...}; it->second.add(r); }
template<class... A> S tup(A... l) { S r; int d[] = {0, (r += (r.empty() ? "" : ",") + S(l), 0)...}; return "[" + r + "]"; }
S s(int v) { return num(v); } S s(bool v) { return v ? "1" : "0"; } S s(int64_t v) { return big(v); } S s(long long v) { return big(v); } S su(ull v) { return bigu(v, false); } S s(const S& v) { return v; }
template<class T, uint64_t ID, int ST> S s(const modulo<T, ID, ST>& v) { return big((L)v.v); } template<class T> S s(const fraction<T>& v) { return "[" + big(v.p) + "," + big(v.q) + "]"; }
S be(int v) { return big(v); } template<class T> S be(const T& v) { return s(v); }
template<class T, int I, int ST> S s(const quadratic<T, I, ST>& v) { return "[" + be(v.a) + "," + be(v.b) + "]"; }
// ---- fractions
template<class T> void fr(Rng& g, int n, ll cap) { typedef fraction<T> Q; for (int i = 0; i < n; i++) { auto z = [&] { ll c = g() % 3 ? 12 : cap; return (T)rnd(g, -c, c); }; auto nz = [&] { T v = 0; while (!v) v = z(); return v; };
        T a = z(), b = nz(), c = z(), d = nz(); Q x(a, b), y(c, d); if (g() % 4 == 0) y = x; P("fnew", big(a), big(b), s(x)); P("fnew", big(a), big(1), s(Q(a)));
        Q t = x; t += y; P("fadd", s(x), s(y), s(g() % 2 ? t : x + y)); t = x; t -= y; P("fsub", s(x), s(y), s(g() % 2 ? t : x - y)); t = x; t *= y; P("fmul", s(x), s(y), s(g() % 2 ? t : x * y)); if (y.p) { t = x; t /= y; P("fdiv", s(x), s(y), s(g() % 2 ? t : x / y)); t = x; t %= y; P("fmod", s(x), s(y), s(g() % 2 ? t : x % y)); P("finv", s(y), s(y.reciprocal())); t = y; t /= t; P("fdiv", s(y), s(y), s(t)); }
        t = x; t += t; P("fadd", s(x), s(x), s(t)); t = x; t *= t; P("fmul", s(x), s(x), s(t)); t = x; t -= t; P("fsub", s(x), s(x), s(t)); P("fone", s(x), tup(s(-x), s(zeroOf(x)), s(identityOf(x))));
        P("fcmp", s(x), s(y), "[" + cmp3(x, y) + "]"); } }
// ---- quadratic extensions: the ring of coefficients, D and whether norms of non-zero elements are units
template<class X> struct XR { S r, d; std::function<X(ll, ll)> mk; bool fld; ll cap; };
template<class X> X xe(const XR<X>& r, Rng& g) { ll c = g() % 3 ? 3 : r.cap; return r.mk(g() % 4 ? rnd(g, -c, c) : 0, g() % 4 ? rnd(g, -c, c) : 0); }
template<class X> void quad(const XR<X>& r, Rng& g, int n) { for (int i = 0; i < n; i++) { X x = xe(r, g), y = xe(r, g), t = x; if (g() % 5 == 0) y = x; auto k = xe(r, g).a; S rr = r.r, d = r.d; X zero = r.mk(0, 0);
        t += y; P("xadd", rr, d, s(x), s(y), s(g() % 2 ? t : x + y)); t = x; t -= y; P("xsub", rr, d, s(x), s(y), s(g() % 2 ? t : x - y)); t = x; t *= y; P("xmul", rr, d, s(x), s(y), s(g() % 2 ? t : x * y)); t = x; t *= t; P("xmul", rr, d, s(x), s(x), s(t)); t = x; t += t; P("xadd", rr, d, s(x), s(x), s(t)); t = x; t -= t; P("xsub", rr, d, s(x), s(x), s(t));
        P("xscale", rr, d, s(x), be(k), s(x * k)); t = x; t *= t.a; P("xscale", rr, d, s(x), be(x.a), s(t)); t = x; t *= t.b; P("xscale", rr, d, s(x), be(x.b), s(t)); auto z = zeroOf(x.a);
        if (r.fld) { if (y != zero) { t = x; t /= y; P("xdiv", rr, d, s(x), s(y), s(g() % 2 ? t : x / y)); t = x; t %= y; P("xmod", rr, d, s(x), s(y), s(x / y), s(g() % 2 ? t : x % y)); t = y; t /= t; P("xdiv", rr, d, s(y), s(y), s(t)); } if (!(k == z)) P("xquot", rr, d, s(x), be(k), s(x / k)); if (!(x.a == z)) { t = x; t /= t.a; P("xquot", rr, d, s(x), be(x.a), s(t)); } if (!(x.b == z)) { t = x; t /= t.b; P("xquot", rr, d, s(x), be(x.b), s(t)); } }
        else if (!(y.norm() == z)) { P("xdiv", rr, d, s(x * y), s(y), s((x * y) / y)); P("xmod", rr, d, s(x), s(y), s(x / y), s(x % y)); if (!(k == z)) P("xquot", rr, d, s(x * k), be(k), s(x * k / k)); }
        ll v = g() % 50; P("xone", rr, d, s(x), big(v), tup(s(-x), s(g() % 2 ? x.conjugate() : conjugateT<X>::of(x)), be(x.norm()), s(zeroOf(x)), s(identityOf(x)), s(castOf(x, (int)v)), be(x.D())));
        { ll p = r.cap > 1000 && r.fld ? (ll)((g() >> 1) >> (g() % 60)) : g() % 5; P("xpow", rr, d, s(x), big(p), s(powT(x, p))); }
        P("xcmp", rr, d, s(x), s(y), "[" + cmp3(x, y) + "]"); { X u = x; u.b = y.b; P("xcmp", rr, d, s(x), s(u), "[" + cmp3(x, u) + "]"); } } }
template<class M> std::function<M(ll)> mm() { return [](ll v) { L m = M::M(); return M((decltype(M().v))(((L)v % m + m) % m)); }; }
template<class I> std::function<moduloX<I>(ll)> mx(I M) { return [M](ll v) { return moduloX<I>((I)(((L)v % (L)M + (L)M) % (L)M), M); }; }
template<class T> S rd(const T&) { return "[0]"; } template<class T> S rd(const fraction<T>&) { return "[1]"; } template<class T, uint64_t ID, int ST> S rd(const modulo<T, ID, ST>& v) { return "[2," + big((L)v.M()) + "]"; }
template<class T> XR<quadraticX<T>> qx(std::function<T(ll)> c, ll D, bool f, ll cap) { return XR<quadraticX<T>>{rd(c(0)), be(c(D)), [c, D](ll a, ll b) { return quadraticX<T>(c(a), c(b), c(D)); }, f, cap}; }
template<class X, class T> XR<X> qc(std::function<T(ll)> c, ll D, bool f, ll cap) { return XR<X>{rd(c(0)), be(c(D)), [c](ll a, ll b) { return X(c(a), c(b)); }, f, cap}; }
// ---- the projective line and its transformations
template<class X> S pt(const with_infinity<X>& w) { return w.is_inf ? "[]" : "[" + s(w.v) + "]"; }
template<class X> S mt(const moebius_tr<with_infinity<X>>& m) { return tup(s(m.a.v), s(m.b.v), s(m.c.v), s(m.d.v), num(m.s)); } template<class X> S mt(const moebius_tr<X>& m) { return tup(s(m.a), s(m.b), s(m.c), s(m.d), num(m.s)); }
template<class X> void proj(const XR<X>& r, Rng& g, int n) { typedef with_infinity<X> W; typedef moebius_tr<W> M; S rr = r.r, d = r.d; X zero = r.mk(0, 0), one = r.mk(1, 0);
    auto pe = [&] { int k = g() % 6; X v = xe(r, g); return k == 0 ? W(v, 1) : k == 1 ? W(zero) : W(v); }; auto bz = [](const W& w) { return !w.is_inf && w.v == zeroOf(w.v); };
    auto me = [&] { for (;;) { M m(W(xe(r, g)), W(xe(r, g)), W(xe(r, g)), W(xe(r, g)), g() % 2 ? 1 : -1); if (g() % 3 == 0) m.c = W(zero); if (g() % 3 == 0) m.a = W(zero); if (!(m.a * m.d == m.b * m.c)) return m; } };
    for (int i = 0; i < n; i++) { W x = pe(), y = pe(), t; if (g() % 5 == 0) y = x;
        t = x; t += y; if (!x.is_inf || !y.is_inf) { P("padd", rr, d, pt(x), pt(y), pt(g() % 2 ? t : x + y)); t = x; t -= y; P("psub", rr, d, pt(x), pt(y), pt(g() % 2 ? t : x - y)); } if (!(x.is_inf && bz(y)) && !(y.is_inf && bz(x))) { t = x; t *= y; P("pmul", rr, d, pt(x), pt(y), pt(g() % 2 ? t : x * y)); }
        if (!(x.is_inf && y.is_inf) && !(bz(x) && bz(y))) { t = x; t /= y; P("pdiv", rr, d, pt(x), pt(y), pt(g() % 2 ? t : x / y)); } if (!(x.is_inf && y.is_inf)) P("pcmp", rr, d, pt(x), pt(y), "[" + cmp3(x, y) + "]"); P("pcmp", rr, d, pt(x), pt(x), "[" + cmp3(x, W(x)) + "]"); P("pinv", rr, d, pt(x), pt(x.inverse())); P("pone", rr, d, pt(x), tup(pt(-x), pt(zeroOf(x)), pt(identityOf(x)), s(infinityT<W>::is(x)), pt(conjugateT<W>::of(x)))); if (!x.is_inf) { t = x; t += t; P("padd", rr, d, pt(x), pt(x), pt(t)); t = x; t *= t; P("pmul", rr, d, pt(x), pt(x), pt(t)); if (!bz(x)) { t = x; t /= t; P("pdiv", rr, d, pt(x), pt(x), pt(t)); } }
        M m = me(), k = me(), q; for (int j = 0; j < 3; j++) { W z = pe(); if (j == 0) { z = m.c == W(zero) ? W(zero, 1) : -m.d / m.c; if (m.s < 0) z = M::conj(z); } P("meval", rr, d, mt(m), pt(z), pt(m(z))); }
        q = m; q *= k; P("mmul", rr, d, mt(m), mt(k), mt(g() % 2 ? q : m * k)); q = m; q *= q; P("mmul", rr, d, mt(m), mt(m), mt(q)); q = m; q /= k; P("mdiv", rr, d, mt(m), mt(k), mt(g() % 2 ? q : m / k)); P("minv", rr, d, mt(m), mt(m.inverse())); q = m; P("mnorm", rr, d, mt(m), mt(q.normalize())); { int p = g() % 7; P("mpow", rr, d, mt(m), num(p), mt(powT(m, p))); }
        X z = xe(r, g), p = xe(r, g); if (z != zero && p != zero) { W w(p), id(one); P("mmake", rr, d, s(z), s(p), tup(s(M::scaling(W(z))(w).v), s(M::translation(W(z))(w).v), s(M::rotation(W(z))(w).v), s(M::flip_x(id)(w).v), s(M::flip_y(id)(w).v), s(M::inversion(id)(w).v), s(identityOf(m)(w).v), tup(s(M::scaling(W(z)).s), s(M::translation(W(z)).s), s(M::rotation(W(z)).s), s(M::flip_x(id).s), s(M::flip_y(id).s), s(M::inversion(id).s), s(identityOf(m).s), s(M(W(z)).s), s(M(1).s)))); }
        q = m; if (g() % 2) q = k; if (g() % 4 == 0) { q = m; q.s = -m.s; } if (g() % 4 == 0) { q = m; q.d = k.d; } if (g() % 4 == 0) { q = m; q.c = k.c; } P("mcmp", rr, d, mt(m), mt(q), "[" + cmp3(m, q) + "]"); } }
// every point and transformation of the line over F_p (C = X itself: only finite values)
template<class X> void line(const XR<X>& r, int p) { typedef with_infinity<X> W; typedef moebius_tr<W> M; std::vector<W> e; for (int i = 0; i < p; i++) e.push_back(W(r.mk(i, 0))); for (auto& a : e) for (auto& b : e) for (auto& c : e) for (auto& d : e) { if (a * d == b * c) continue; M m(a, b, c, d, (a + d).v.a.v % 2 ? -1 : 1); for (int i = 0; i <= p; i++) { W z = i < p ? e[i] : W(r.mk(1, 1), 1); P("meval", r.r, r.d, mt(m), pt(z), pt(m(z))); } P("minv", r.r, r.d, mt(m), mt(m.inverse())); M q = m; P("mnorm", r.r, r.d, mt(m), mt(q.normalize())); } }
// ---- nimbers of 2^k bits
template<class N> void nim(int k, Rng& g, int n) { typedef decltype(N().v) U; int w = 1 << k; U mask = w >= 64 ? (U)~0ull : (U)((1ull << w) - 1); for (int i = 0; i < n; i++) { auto el = [&] { U v = (U)(g() & mask); switch (g() % 5) { case 0: return (U)(v >> (g() % w)); case 1: return (U)(1ull << (g() % w)); case 2: return (U)((1ull << (g() % w)) ^ (g() % 4)); case 3: return (U)(mask >> (g() % w)); default: return v; } };
        N x(el()), y(el()), t; if (g() % 6 == 0) y = x; S kk = num(k), a = su(x.v), b = su(y.v); t = x; t += y; P("nadd", kk, a, b, su((g() % 2 ? t : x - y).v)); P("nadd", kk, a, b, su((g() % 2 ? t -= y, t += y, t : x + y).v)); t = x; t *= y; P("nmul", kk, a, b, su(t.v)); P("nmul", kk, a, b, su(N::mul2(x, y).v)); t = x; t *= t; P("nmul", kk, a, a, su(t.v));
        if (y.v) { t = x; t /= y; P("ndiv", kk, a, b, su((g() % 2 ? t : x / y).v)); t = y; t /= t; P("ndiv", kk, b, b, su(t.v)); if ((x % y).v) P("nmod", a); } P("nsqrt", kk, a, su(x.sqrt().v)); P("none", kk, a, tup(su(x.inverse().v), su((-x).v), su(zeroOf(x).v), su(identityOf(x).v))); P("nlevel", kk, a, num(x.level()));
        { int j = rnd(g, x.level(), k); P("nlift", kk, a, num(j), su(N::lift(x, j).v)); } P("ncmp", kk, a, b, "[" + cmp3(x, y) + "]"); } }
template<class N> void nimall(int k) { int n = 1 << (1 << k); for (int x = 0; x < n; x++) { for (int y = 0; y < n; y++) { P("nmul", num(k), su(x), su(y), su((N(x) * N(y)).v)); P("nmul", num(k), su(x), su(y), su(N::mul2(N(x), N(y)).v)); } P("nsqrt", num(k), su(x), su(N(x).sqrt().v)); N i = N(x).inverse(); P("none", num(k), su(x), tup(su(i.v), su(x), su(0), su(1))); } }
template<class T> void gf2(Rng& g, int n) { typedef galois_field_2<T> G; typedef typename std::make_unsigned<T>::type U; for (int i = 0; i < n; i++) { G x((T)(g() >> (g() % 60))), y((T)(g() >> (g() % 60))), t; if (g() % 3 == 0) y = G((T)~0); auto u = [](const G& q) { return su((U)q.v); }; G r[4]; if (g() % 2) { r[0] = x + y, r[1] = x - y, r[2] = x * y, r[3] = x / y; } else { r[0] = r[1] = r[2] = r[3] = x; r[0] += y; r[1] -= y; r[2] *= y; r[3] /= y; } { G w = g() % 3 ? y : x; P("g2cmp", big((L)x.v), big((L)w.v), "[" + cmp3(x, w) + "]"); P("g2cmp", big((L)G().v), big(0), "[1,0,1]"); } P("g2", num(sizeof(T) * 8), u(x), u(y), tup(u(r[0]), u(r[1]), u(-x), u(r[2]), u(r[3]), u(zeroOf(x)), u(identityOf(x)))); } }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    typedef modulo<int, 1000000007, modulo_storage::CONSTANT> A; typedef modulo<int, 1009, modulo_storage::CONSTANT> C; typedef std::function<int64_t(ll)> IZ; IZ iz = [](ll v) { return (int64_t)v; }; std::function<int(ll)> ii = [](ll v) { return (int)v; }; typedef fraction<int64_t> Q; std::function<Q(ll)> iq = [](ll v) { return Q(v); };
    switch (part) {
    case 0: fr<int>(g, n, 12000); fr<int64_t>(g, n, 500000000); gf2<uint32_t>(g, n / 4); gf2<uint8_t>(g, n / 4); gf2<uint64_t>(g, n / 4); gf2<int>(g, n / 4); gf2<int16_t>(g, n / 4); break;
    case 1: quad(qc<complex<int64_t>, int64_t>(iz, -1, false, 90), g, n); quad(qc<complex<int>, int>(ii, -1, false, 60), g, n); quad(qx<int64_t>(iz, 5, false, 80), g, n); quad(qx<int64_t>(iz, -3, false, 80), g, n); quad(qc<complex<Q>, Q>(iq, -1, true, 9), g, n); quad(qx<Q>(iq, 2, true, 5), g, n); { typedef quadratic<int64_t, 7> T; quad(qc<T, int64_t>(iz, 7, false, 50), g, n); T::D() = 10; quad(qc<T, int64_t>(iz, 10, false, 50), g, n); T::D() = 7; } break;
    case 2: quad(qc<complex<A>, A>(mm<A>(), -1, true, 1ll << 40), g, n); quad(qc<quadratic<A, 5>, A>(mm<A>(), 5, true, 1ll << 40), g, n); quad(qx<moduloX<int>>(mx(7), 3, true, 20), g, n); quad(qx<moduloX<int64_t>>(mx<int64_t>(1000000000039ll), -1, true, 1ll << 40), g, n); break;
    case 3: proj(qc<quadratic<C, 11>, C>(mm<C>(), 11, true, 2000), g, n); proj(qx<moduloX<int>>(mx(7), 3, true, 20), g, n); proj(qx<moduloX<int>>(mx(3), 2, true, 20), g, n); break;
    case 4: proj(qc<complex<A>, A>(mm<A>(), -1, true, 1ll << 40), g, n); proj(qc<complex<Q>, Q>(iq, -1, true, 3), g, n / 2); line(qx<moduloX<int>>(mx(2), 1, true, 2), 2); if (n > 100) line(qx<moduloX<int>>(mx(3), 2, true, 2), 3); break;
    case 5: nim<nimber<uint8_t>>(3, g, n); nim<nimber<int8_t>>(3, g, n); nim<nimber<uint16_t>>(4, g, n); nim<nimber<uint64_t, 8>>(3, g, n); nim<nimber<int, 16>>(4, g, n); nim<nimber<uint8_t, 4>>(2, g, n); nimall<nimber<uint32_t>>(2); nimall<nimber<uint16_t, 2>>(1); if (n > 100) nimall<nimber<uint64_t>>(3); break;
    case 6: nim<nimber<uint32_t>>(5, g, n); nim<nimber<int>>(5, g, n); nim<nimber<uint64_t, 32>>(5, g, n / 2); break;
    case 7: nim<nimber<uint64_t>>(6, g, n); nim<nimber<int64_t>>(6, g, n); break; }
    for (auto& b : bts) b.second.put(); }
