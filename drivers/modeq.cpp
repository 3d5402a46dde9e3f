#include "bt.h"
#include "altruct/algorithm/math/modulos.h"
using namespace vf; using namespace altruct::math;
template<class T> using FS = V<std::pair<T, int>>;
S sf(const FS<ll>& f) { S r = "["; for (size_t i = 0; i < f.size(); i++) r += (i ? ",[" : "[") + s(f[i].first) + "," + i32(f[i].second) + "]"; return r + "]"; }
FS<ll> fac(ll m) { FS<ll> r; for (ll p = 2; p * p <= m; p++) { int e = 0; while (m % p == 0) m /= p, e++; if (e) r.push_back({p, e}); } if (m > 1) r.push_back({m, 1}); return r; }
FS<ll> pf(ll p, int e) { return {{p, e}}; }
template<class I> V<I> primes(const FS<ll>& f) { V<I> r; for (auto& x : f) r.push_back((I)x.first); return r; }
ll phi(const FS<ll>& f) { ll r = 1; for (auto& x : f) { r *= x.first - 1; for (int i = 1; i < x.second; i++) r *= x.first; } return r; } ll pw(ll p, int e) { ll r = 1; while (e--) r *= p; return r; }
ll gg(ll a, ll b) { return b ? gg(b, a % b) : a; } ll mulm(ll a, ll b, ll m) { return (ll)((L)a * b % m); } ll powm(ll a, ll k, ll m) { ll r = 1 % m; for (a %= m; k; k >>= 1, a = mulm(a, a, m)) if (k & 1) r = mulm(r, a, m); return r; }
ll lam(const FS<ll>& f) { ll r = 1; for (auto& x : f) { ll q = phi({x}); if (x.first == 2 && x.second > 2) q /= 2; r = r / gg(r, q) * q; } return r; }
ll unit(Rng& g, ll m) { for (;;) { ll a = m == 1 ? 0 : g() % m; if (gg(a, m) == 1) return a; } }
template<class C> S lst(const C& c) { S r = "["; for (auto x : c) r += (r.size() > 1 ? "," : "") + s(x); return r + "]"; }
template<class I> void crt1(I a1, I n1, I a2, I n2) { I a, n; chinese_remainder(&a, &n, a1, n1, a2, n2); P("crt", a1, n1, a2, n2, a, n); I x = a1, y = n1; chinese_remainder(&x, &y, a2, n2); P("crt", a1, n1, a2, n2, x, y); P("crt", a1, n1, a2, n2, chinese_remainder(a1, n1, a2, n2), n); }
template<class I> void crt(Rng& g, int n, L lim) { for (int i = 0; i < n; i++) { L m = g() % 3 ? 30 : (L)1 << (1 + g() % 40); ll c = 1 + g() % (ull)m, a = 1 + g() % (ull)m, b = 1 + g() % (ull)m; if (g() % 2) c = 1; if (g() % 4 == 0) { m = (L)1 << 62; a = 1 + g() % (1ull << 61); b = 1 + g() % 20; c = 1; } L n1 = (L)c * a, n2 = (L)c * b; if (n1 > lim || n2 > lim || n1 / gg(n1, n2) * n2 > lim) continue; if (g() % 2) std::swap(n1, n2); ll x = g() % (ull)n1, y = g() % (ull)n2; if (g() % 3) { ll t = (ll)(g() % (ull)(n1 / gg(n1, n2) * n2)); x = t % n1, y = t % n2; } crt1<I>((I)x, (I)n1, (I)y, (I)n2); } }
template<class I> void crtall(int N) { for (int n1 = 1; n1 <= N; n1++) for (int n2 = 1; n2 <= N; n2++) for (int a = 0; a < n1; a++) for (int b = 0; b < n2; b++) { I x, n; chinese_remainder<I>(&x, &n, a, n1, b, n2); P("crt", I(a), I(n1), I(b), I(n2), x, n); } }
template<class I> void garn(Rng& g, int n, bool big) { for (int i = 0; i < n; i++) { V<I> ps; int k = 1 + g() % 5; for (int t = 0; t < 40 && (int)ps.size() < k; t++) { ll p = big && g() % 2 ? 1 + g() % 2000000000 : 1 + g() % 40; bool ok = true; for (I q : ps) ok &= gg(q, p) == 1; if (ok) ps.push_back((I)p); } V<moduloX<I>> v; V<I> a, x; for (I p : ps) { I r = (I)(g() % p); if (g() % 5 == 0) r = p - 1; a.push_back(r); v.push_back(moduloX<I>(r, p)); } for (auto& y : garner(v)) x.push_back(y.v); P("garner", a, ps, x); } }
template<class I> void jac(Rng& g, int n, int small) { for (int m = 1; m <= small; m += 2) for (int x = std::is_signed<I>::value ? -m - 2 : 0; x <= 2 * m; x++) P("jacobi", (I)x, (I)m, i32(jacobi<I>(x, m))); for (int i = 0; i < n; i++) { I m = (I)((g() >> 1) >> (g() % 40) ) | 1, x = (I)((g() >> 1) >> (g() % 40)); if (std::is_signed<I>::value) { if (m < 0) m = -(m + 1) | 1; if (g() % 3 == 0) x = -x; } P("jacobi", x, m, i32(jacobi(x, m))); } }
template<class I> void sqp(Rng& g, ll p, int n) { for (int i = 0; i < n; i++) { ll x = n >= p ? i % p : unit(g, p); if (p > 2 && x == 0) continue; I y = (I)mulm(x, x, p); P("sqrt", y, (I)p, sqrt_cipolla<I>(y, (I)p)); } }
template<class I> void sq2(Rng& g, int k, int n) { for (int i = 0; i < n; i++) { ll m = 1ll << k; I y = (I)(n >= m ? i : g() % 2 ? mulm(g() % m | 1, 0, m) : g() % m); if (n < m) { ll r = g() % m | 1; y = g() % 4 ? (I)mulm(r, r, m) : (I)(g() % m | 1); } if (y % 2 == 0) continue; auto r = sqrt_hensel_lift_p2<I>(y, (I)k); P("sqrt2", y, i32(k), r.first, r.second); if (std::is_signed<I>::value && g() % 4 == 0) { I z = (I)(y - m); r = sqrt_hensel_lift_p2<I>(z, (I)k); P("sqrt2", z, i32(k), r.first, r.second); } } }
template<class I> void sqh(Rng& g, ll p, int k, int n) { ll m = pw(p, k); for (int i = 0; i < n; i++) { ll x = n >= m ? i % m : unit(g, m); if (x % p == 0) continue; I y = (I)mulm(x, x, m); P("sqrt", y, (I)m, sqrt_hensel_lift<I>(y, (I)p, (I)k)); } }
template<class I> void sqm(Rng& g, const FS<ll>& f, int n) { ll m = 1; for (auto& x : f) m *= pw(x.first, x.second); for (int i = 0; i < n; i++) { ll x = unit(g, m); I y = (I)(g() % 3 ? mulm(x, x, m) : unit(g, m)); if (n >= m) { if (gg(i, m) != 1) continue; y = (I)i; } if (std::is_signed<I>::value && g() % 5 == 0) y = (I)(y - m); P("sqrtm", y, sf(f), g() % 2 ? sqrt_mod<I, ll>(y, f) : sqrt_mod<I, I>(y, [&] { FS<I> q; for (auto& t : f) q.push_back({(I)t.first, t.second}); return q; }())); } }
// groups of units: everything that needs phi and its primes; sm: also enumerate
template<class I> void unitgrp(Rng& g, const FS<ll>& f, int n, bool sm) { ll m = 1; for (auto& x : f) m *= pw(x.first, x.second); ll ph = phi(f), la = lam(f); V<I> pp = primes<I>(fac(ph)), lp = primes<I>(fac(la)); bool cyc = m <= 2 || m == 4 || (f.size() == 1 && f[0].first != 2) || (f.size() == 2 && f[0].first == 2 && f[0].second == 1);
    if (cyc || m < 50000) P("proot", sf(f), (I)m, (I)ph, pp, primitive_root<I, I>(m, ph, pp)); I w = primitive_root_of_unity<I>(m, la, lp); P("prou", (I)m, (I)la, lp, w); I r = cyc ? primitive_root<I, I>(m, ph, pp) : 0; int N = sm ? (int)m : n;
    for (int i = 0; i < N; i++) { ll a = sm ? i : unit(g, m); if (gg(a, m) != 1) continue; P("order", (I)a, (I)m, pp, multiplicative_order<I, I>(a, m, ph, pp)); ll e = (ll)(g() % (ull)ph), b = powm(a, e, m); I o = 0; P("dlog", (I)a, (I)b, (I)m, discrete_log<I, I>(a, b, m, ph, pp, g() % 4 ? &o : nullptr)); if (o) P("order", (I)a, (I)m, pp, o);
        if (sm) { ll t = g() % m; P("dlogmin", (I)a, (I)t, (I)m, discrete_log_brute_force<I>(a, t, m)); t = unit(g, m); P("dlogany", (I)a, (I)t, (I)m, discrete_log_baby_giant<I>(a, t, m, ph)); } if (sm || ph < 200000000) P("dlog", (I)a, (I)b, (I)m, discrete_log_baby_giant<I>(a, b, m, ph));
        if (cyc && r) { I k = (I)(1 + g() % (sm ? 12 : g() % 2 ? 60 : (ull)ph)); I l = (I)(g() % (ull)ph), d = (I)gg(k, ph); if (d > 300) { k = 6; d = (I)gg(k, ph); } if (g() % 3 == 0) l = l / d * d; ll y = powm(r, l, m); P("roots", (I)m, (I)ph, k, (I)y, lst(kth_roots<I>(m, k, ph, r, l))); P("roots", (I)m, (I)ph, k, (I)1, lst(kth_roots_of_unity<I>(m, k, la, w))); } }
    if (sm) for (int a = 0; a < m; a++) { ll t = g() % m; P("dlogmin", (I)a, (I)t, (I)m, discrete_log_brute_force<I>(a, t, m)); } }
template<class I> void dpp(Rng& g, ll p, int k, int n) { ll m = pw(p, k); for (int i = 0; i < n; i++) { ll a = n >= m ? i % m : unit(g, m); if (a % p == 0) continue; if (g() % 5 == 0) a = (a - a % p + 1) % m; if (g() % 5 == 0) a = powm(a, p, m); ll e = g() % (ull)phi(pf(p, k)), b = powm(a, e, m); P("dlog", (I)a, (I)b, (I)m, discrete_log_pp<I>(a, b, p, k)); if (p == 2) P("dlog", (I)a, (I)b, (I)m, discrete_log_p2<I>(a, b, k)); else if (k == 1) { P("dlog", (I)a, (I)b, (I)m, discrete_log_oddp<I>(a, b, p)); P("dlog", (I)a, (I)b, (I)m, discrete_log_shanks<I>(a, b, p)); } if (n >= m && k == 1 && p > 2) { ll t = unit(g, m); P("dlogany", (I)a, (I)t, (I)m, discrete_log_shanks<I>(a, t, p)); } } }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); bool th = n > 100; ll P1 = 4179340454199820289ll, P2 = 1945555039024054273ll, P3 = 998244353;
    switch (part) {
    case 0: crtall<int>(th ? 14 : 7); crt<int>(g, 4 * n, 2147483647); crt<ll>(g, 8 * n, 9223372036854775807ll); crt<unsigned>(g, n, 4294967295u); crt<uint64_t>(g, n, 9223372036854775807ll); break;
    case 1: garn<int>(g, 2 * n, true); garn<ll>(g, 2 * n, true); garn<unsigned>(g, n, false); jac<int>(g, 4 * n, th ? 75 : 27); jac<ll>(g, 4 * n, 9); jac<unsigned>(g, n, 9); jac<uint64_t>(g, n, 9); break;
    case 2: for (int p : {2, 3, 5, 7, 11, 13, 17, 41, 97}) { sqp<int>(g, p, p); sqp<ll>(g, p, p); } for (ll p : {10007ll, 1000000007ll, 2147483647ll, P3}) sqp<int>(g, p, n); for (ll p : {P1, P2, 4294967311ll, 9223372036854775783ll}) sqp<ll>(g, p, n); for (int k = 1; k <= 30; k++) sq2<int>(g, k, k < 8 ? 1 << k : n); for (int k : {31, 32, 33, 45, 60, 61, 62}) sq2<ll>(g, k, n);
            for (int p : {3, 5, 7, 11, 23}) for (int k = 1; pw(p, k) < 2000; k++) sqh<int>(g, p, k, pw(p, k) < 130 ? pw(p, k) : n / 2); sqh<int>(g, 3, 19, n); sqh<int>(g, 46337, 2, n); sqh<ll>(g, 3, 39, n); sqh<ll>(g, 1000000007, 2, n); sqh<ll>(g, 2097143, 3, n); sqh<ll>(g, 5, 27, n); break;
    case 3: for (int m = 1; m <= (th ? 400 : 60); m++) sqm<int>(g, fac(m), m); for (int m = 61; m < 2000; m += th ? 7 : 67) sqm<ll>(g, fac(m), 8); for (ll m : {1000000007ll, 2147483646ll, 46337ll * 46327, 1ll << 30, 223092870ll, 1000000006ll, 3ll * P3 / 3}) sqm<int>(g, fac(m), n / 8 + 1); for (ll m : {6469693230ll * 31, 1000000007ll * 998244353, 1ll << 50, 4294967311ll, 1000003ll * 1000003 * 8}) sqm<ll>(g, m < 1ll << 51 ? fac(m) : m == 1000000007ll * 998244353 ? FS<ll>{{998244353, 1}, {1000000007, 1}} : FS<ll>{{2, 3}, {1000003, 2}}, n / 8 + 1); sqm<ll>(g, pf(P1, 1), 4); sqm<ll>(g, {{3, 1}, {P2, 1}}, 4); break;
    case 4: { for (int m = 2; m <= (th ? 149 : 50); m++) unitgrp<int>(g, fac(m), m, true); prime_holder ph(2100); for (int m = 1; m <= (th ? 149 : 60); m++) { auto f = fac(m); if (m > 1) { P("proot", sf(f), m, (ll)phi(f), primes<ll>(fac(phi(f))), primitive_root(m, ph)); P("prou", m, (ll)lam(f), primes<ll>(fac(lam(f))), primitive_root_of_unity(m, ph)); } if (m > 1 && primitive_root(m, ph)) { int k = 1 + g() % 20; P("roots", m, (ll)phi(f), k, 1, lst(kth_roots_of_unity(m, k, ph))); } } break; }
    case 5: for (ll m : {151ll, 1009ll, 6561ll, 2ll * 6561, 1ll << 12, 1000ll, 30030ll}) { unitgrp<int>(g, fac(m), n, false); unitgrp<ll>(g, fac(m), n, false); } for (ll m : {P3, 1000000007ll, 387420489ll, 2ll * 387420489, 1ll << 29}) { if (m != 1000000007) unitgrp<int>(g, fac(m), n / 8, false); unitgrp<ll>(g, fac(m), n / 16, false); } break;
    case 6: for (int p : {2, 3, 5, 7, 11, 13, 37}) for (int k = 1; pw(p, k) < 150; k++) { dpp<int>(g, p, k, pw(p, k)); dpp<ll>(g, p, k, pw(p, k)); } dpp<int>(g, 2, 30, n); dpp<int>(g, 3, 10, n); dpp<int>(g, 1009, 2, n); dpp<int>(g, 1097, 2, n); dpp<int>(g, 1103, 1, n); dpp<int>(g, 1000000007, 1, n / 10); dpp<ll>(g, 2, 62, n); dpp<ll>(g, 3, 20, n); dpp<ll>(g, 1000003, 2, n / 4); dpp<ll>(g, 5, 14, n); dpp<ll>(g, 7, 4, n); break; }
    flushall(); }
