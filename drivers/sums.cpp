#include "bt.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/structure/math/prime_holder.h"
#include <unordered_map>
#include <map>
using namespace vf; using namespace altruct::math; using altruct::container::sqrt_map;
// every other call leaves the identity to its default where that is the right one
template<class T> bool dfl(const T& e) { static int c = 0; return e == T(1) && (++c & 1); }
template<class T, uint64_t ID, int ST> bool dfl(const modulo<T, ID, ST>& e) { static int c = 0; modulo<T, ID, ST> d(1); return e.M() == d.M() && e == d && (++c & 1); }
typedef modulo<int, 1000000007> M7; typedef modulo<ll, 1009> M9; typedef moduloX<int> MX; typedef moduloX<ll> MY; typedef fraction<ll> Q;
ll gmo = 0; // of the elements in use, 0 for integers
S val(ll v) { return s(v); } S val(int v) { return s((ll)v); } S val(M7 v) { return s((ll)v.v); } S val(M9 v) { return s((ll)v.v); } S val(MX v) { return v.M() == gmo ? s((ll)v.v) : s((ll)-1); } S val(MY v) { return v.M() == gmo ? s((ll)v.v) : s((ll)-1); } S val(Q v) { return v.q == 1 ? s(v.p) : S("[9,[9]]"); }
template<class T> S vals(const V<T>& v, size_t from = 1) { S r = "["; for (size_t i = from; i < v.size(); i++) r += (i > from ? "," : "") + val(v[i]); return r + "]"; }
S mo() { return s(gmo); } S k(const char* c) { return S("\"") + c + "\""; }
template<class T> T id(ll m); template<> ll id<ll>(ll) { gmo = 0; return 1; } template<> M7 id<M7>(ll) { gmo = 1000000007; return M7(1); } template<> M9 id<M9>(ll) { gmo = 1009; return M9(1); } template<> MX id<MX>(ll m) { gmo = m; return MX(1, (int)m); } template<> MY id<MY>(ll m) { gmo = m; return MY(1, m); } template<> Q id<Q>(ll) { gmo = 0; return Q(1); }
template<class I> V<I> primes_to(ll n) { V<I> r; V<char> q(n + 1, 1); for (ll i = 2; i <= n; i++) { if (!q[i]) continue; r.push_back((I)i); for (ll j = i * i; j <= n; j += i) q[j] = 0; } return r; }
V<int> bpf_to(int n) { V<int> v(n + 1, 0); if (n > 0) v[1] = 1; for (int i = 2; i <= n; i++) if (!v[i]) for (int j = i; j <= n; j += i) v[j] = i; return v; }
// named arithmetic functions, as in the specification
struct Fn { S w; V<ll> p; S js() const { S r = "[" + k(w.c_str()); for (ll x : p) r += "," + i32(x); return r + "]"; }
    ll mul(ll n) const { ll r = 1; for (ll q = 2; n > 1; q++) { if (q * q > n) q = n; int e = 0; while (n % q == 0) n /= q, e++; if (e) r *= pe(q, e); } return r; }
    ll pe(ll q, int e) const { if (w == "mu") return e == 1 ? -1 : 0; if (w == "one") return 1; if (w == "e") return 0; ll t = 1; for (int i = 1; i < e; i++) t *= q; if (w == "phi") return t * (q - 1); if (w == "id") return t * q; if (w == "sig") { ll s = 1, x = 1; for (int i = 0; i < e; i++) { for (ll j = 0; j < p[0]; j++) x *= q; s += x; } return p[0] ? s : e + 1; } if (w == "pow") { ll x = 1; for (int i = 0; i < e * p[0]; i++) x *= q; return x; } return ((q % 1000) * p[0] + e * p[1] + p[2]) % p[3] - p[4]; }
    ll operator()(ll n) const { if (w == "poly") return p[0] + p[1] * n + p[2] * n * n; return mul(n); } };
Fn rndmul(Rng& g) { switch (g() % 7) { case 0: return {"mu", {}}; case 1: return {"phi", {}}; case 2: return {"one", {}}; case 3: return {"id", {}}; case 4: return {"sig", {(ll)(g() % 3)}}; default: { ll m = 2 + g() % 30; return {"rnd", {(ll)(g() % 50), (ll)(g() % 50), (ll)(g() % 50), m, (ll)(g() % m)}}; } } }
Fn rndfn(Rng& g) { return g() % 2 ? rndmul(g) : Fn{"poly", {(ll)(g() % 21) - 10, (ll)(g() % 11) - 5, (ll)(g() % 5) - 2}}; }
template<class T> void ratio(Rng& g, ll a, ll b, ll q, ll n, ll m) { T e = id<T>(m); P("ratio", mo(), a, b, q, n, val(sum_ratio<T, ll>(a, b, q, n, zeroOf(e)))); }
template<class T> void spow(int p, ll n, ll m) { T e = id<T>(m); P("spow", mo(), i32(p), i32(n), val((dfl(e) ? sum_pow<T, ll>(p, n) : sum_pow<T, ll>(p, n, e)))); if (p < 4 && n < 50) P("spow", mo(), i32(p), i32(n), val(sum_pow<T, int>(p, (int)n, V<T>{e}))); }
template<class T> void spowx(Rng& g, int mm, ll x, ll n, ll m) { T e = id<T>(m); P("spowx", mo(), i32(mm), s(x), i32(n), val(sum_powx<T, ll>(mm, castOf(e, x), n))); }
template<class A, class B> ll s2m(A f, B h, ll n, ll) { return sum_sqrt2m<ll, ll>(f, h, n); } template<class A, class B, class T> T s2m(A f, B h, ll n, T z) { return sum_sqrt2m<T, ll>(f, h, n, z); }
template<class T> void sqrts(Rng& g, ll n, ll m) { T e = id<T>(m), z = zeroOf(e); Fn f = rndfn(g), h = rndfn(g); auto F = [&](ll x) { return castOf(e, f(x)); }; auto H = [&](ll x) { return castOf(e, h(x)); }; V<T> pf(n + 1, z); for (ll i = 1; i <= n; i++) pf[i] = pf[i - 1] + F(i); auto sf = [&](ll x) { return pf.at(x); };
    P("ssqrt", mo(), f.js(), i32(n), val(sum_sqrt<T, ll>(F, n, z))); P("s2m", mo(), f.js(), h.js(), i32(n), val(s2m(sf, H, n, z))); P("s2m", mo(), f.js(), h.js(), i32(n), val(sum_sqrt2m<T, ll>(F, sf, H, n, z)));
    ll p = (ll)(g() % 9) - 4, q = (ll)(g() % 9) - 4, t = (ll)(g() % 9) - 4; auto sf2 = [&](ll a, ll b) { ll r = 0; for (ll i = 1; i <= a; i++) r += p * i * i + q * i * b + t * b; return castOf(e, r); }; P("s2", mo(), "[" + i32(p) + "," + i32(q) + "," + i32(t) + "]", i32(n), val(sum_sqrt2<T, ll>(sf2, n, z)));
    if (n < 60) { int a = (int)(g() % 20), b = a - 2 + (int)(g() % 20); if (a > 0) P("sumf", mo(), f.js(), i32(a), i32(b), val(sum<T, int>(F, a, b, z))); }
    if (n) { auto mp = make_sqrt_map<ll, T>(F, n); S r = "["; ll la = -1; for (ll i = 1; i <= n; i++) if (n / i != la) { la = n / i; r += (r.size() > 1 ? ",[" : "[") + i32(la) + "," + val(mp[la]) + "]"; } P("smap", mo(), f.js(), i32(n), r + "]"); } }
template<class M, class I> S keys(M& m, I n) { S r = "["; I la = -1; for (I i = 1; i <= n; i++) if (n / i != la) { la = n / i; r += (r.size() > 1 ? ",[" : "[") + i32(la) + "," + val(m[la]) + "]"; } return r + "]"; }
template<class T, class I> void pps(int z, I n, ll m) { T e = id<T>(m); auto mp = prime_power_sum_sqrt<T, I>(z, n, e); P("pps", mo(), i32(z), i32(n), keys(mp, n)); if (z == 1) { auto m1 = prime_sum_sqrt<T, I>(n, e); P("pps", mo(), i32(1), i32(n), keys(m1, n)); } }
template<class I> void pis(Rng& g, I n) { gmo = 0; P("pi", "0", i32(n), s((ll)prime_pi<I>(n))); P("pi4", "0", i32(1), i32(n), s((ll)prime_pi1<I>(n))); P("pi4", "0", i32(3), i32(n), s((ll)prime_pi3<I>(n))); if (n > 0) { auto m = prime_pi_sqrt<I>(n); P("pps", mo(), i32(0), i32(n), keys(m, n)); auto v = prime_pi13_sqrt<I>(n); P("pi4s", mo(), i32(1), i32(n), keys(v[0], n)); P("pi4s", mo(), i32(3), i32(n), keys(v[1], n)); } { M7 e = id<M7>(0); P("ps", mo(), i32(n), val(prime_sum<M7, I>(n, e))); } { ll e = id<ll>(0); P("ps", mo(), i32(n), val(prime_sum<ll, I>(n, e))); } }
void deppi(Rng& g, int N) { V<int> p = primes_to<int>(N + 100), pi(N + 1, 0); for (int i = 2, j = 0; i <= N; i++) { j += p[j] == i; pi[i] = j; } for (int i = 0; i < 60; i++) { ll m = g() % (ull)N; P("pi", "0", i32(m), s((ll)prime_pi_deprecated<ll, int>(m, pi.data(), p.data(), g() % 2 ? 0 : (int)(g() % 50)))); if (m < 60000) P("pi", "0", i32(m), s((ll)prime_pi_deprecated<ll, int>((int)m, pi.data(), p.data()))); } }
template<class T> void dirich(Rng& g, int n, ll m) { T e = id<T>(m), z = zeroOf(e); V<int> pa = primes_to<int>(g() % 2 ? n - 1 : n + 20), pf = bpf_to(n + 5); auto R = [&] { return castOf(e, (ll)(g() % 2000)); };
    auto unit = [&] { ll x = (ll)(g() % 40) + 1; return gmo == 0 ? (g() % 2 ? e : -e) : castOf(e, x); }; auto tab = [&] { V<T> v; for (int i = 0; i < n; i++) v.push_back(gmo ? R() : castOf(e, (ll)(g() % 21) - 10)); return v; };
    auto mult = [&](Fn f) { V<T> v(n, z); for (int i = 1; i < n; i++) v[i] = castOf(e, f(i)); return v; }; auto cm = [&] { V<T> v(n, e); for (int i = 2; i < n; i++) v[i] = pf[i] == i ? castOf(e, (ll)(g() % 7) - 3) : v[i / pf[i]] * v[pf[i]]; return v; };
    auto F = [e](V<T>& v) { return [&v, e](int i) { return i == 1 && v.size() == 1 ? e : v.at(i); }; }; auto sc = [&](V<T> v, T c) { for (auto& x : v) x = x * c; return v; }; auto con = [&](V<T>& a, V<T>& b) { V<T> h(n, z); for (int i = 1; i < n; i++) for (int j = 1; i * j < n; j++) h[i * j] = h[i * j] + a[i] * b[j]; return h; };
    V<T> garb = tab(); V<T> f = tab(), h = garb, w = tab(); dirichlet_convolution(h, F(f), F(w), n); P("conv", mo(), vals(f), vals(w), vals(h));
    V<T> g1 = tab(); if (n > 1) g1[1] = unit(); h = garb; dirichlet_division(h, F(f), F(g1), n); P("div", mo(), vals(f), vals(g1), vals(h)); h = garb; dirichlet_inverse(h, F(g1), n); P("inv", mo(), vals(g1), vals(h)); h = garb; moebius_transform(h, F(f), n); P("moeb", mo(), vals(f), vals(h));
    T c = unit(), ic = e / c; if (g() % 2) c = ic = e; V<T> a = mult(rndmul(g)), b = mult(rndmul(g));
    V<T> ac = sc(a, c), bi = sc(b, ic); h = garb; dirichlet_convolution_multiplicative(h, F(ac), F(bi), n, pa.data(), (int)pa.size()); P("conv", mo(), vals(ac), vals(bi), vals(h));
    V<T> bc = sc(b, c); h = garb; dirichlet_division_multiplicative(h, F(ac), F(bc), n, pa.data(), (int)pa.size()); P("div", mo(), vals(ac), vals(bc), vals(h)); h = garb; dirichlet_inverse_multiplicative(h, F(a), n, pa.data(), (int)pa.size()); P("inv", mo(), vals(a), vals(h)); h = garb; moebius_transform_multiplicative(h, F(a), n, pa.data(), (int)pa.size()); P("moeb", mo(), vals(a), vals(h));
    // completely multiplicative quotients and products: q = x * y with y arbitrary
    V<T> q = cm(), y = tab(); if (n > 1) y[1] = c; V<T> x = con(q, y); h = garb; dirichlet_division_completely_multiplicative(h, F(x), F(y), n, pf.data()); P("div", mo(), vals(x), vals(y), vals(h)); V<T> iy(n, z); if (n > 1) { dirichlet_inverse(iy, F(y), n); x = con(q, iy); h = garb; dirichlet_convolution_completely_multiplicative(h, F(x), F(y), n, pf.data()); P("conv", mo(), vals(x), vals(y), vals(h)); V<T> iq(n, z); dirichlet_inverse(iq, F(q), n); h = garb; dirichlet_inverse_completely_multiplicative(h, F(iq), n, pf.data()); P("inv", mo(), vals(iq), vals(h)); V<T> o(n, e), gq = con(q, o); h = garb; moebius_transform_completely_multiplicative(h, F(gq), n, pf.data()); P("moeb", mo(), vals(gq), vals(h)); }
    V<T> u = tab(), v; auto pp = [&](int i) { int p = pf[i]; while (i % p == 0) i /= p; return i == 1; }; v = u; for (int i = 1; i < n; i++) if (i == 1 || !pp(i)) v[i] = e; V<T> v0 = v; calc_multiplicative(v, n, pa.data(), (int)pa.size()); P("mult", mo(), vals(v0), vals(v)); v = u; for (int i = 1; i < n; i++) if (pf[i] != i || i == 1) v[i] = e; v0 = v; calc_completely_multiplicative(v, n, pf.data()); P("cmult", mo(), vals(v0), vals(v));
    // sieve_m: from M and p to t and back
    if (n > 1 && n < 70) { auto tof = [&](V<T>& p, V<T>& M) { V<T> t(n, z); for (int i = 1; i < n; i++) for (int j = 1; j <= i; j++) t[i] = t[i] + p[j] * M[i / j]; return t; }; V<T> M = tab(), p = tab(), one(n, e); M[0] = z; p[1] = unit(); V<T> t = tof(p, M), t1 = tof(one, M); h = garb; sieve_m(h, F(t), F(p), n); P("sievem", mo(), vals(t), vals(p), vals(h)); h = garb; sieve_m(h, F(t1), n); P("sievem", mo(), vals(t1), vals(one), vals(h));
        V<T> pm = mult(rndmul(g)), dM = mult(rndmul(g)), Mm(n, z); for (int i = 1; i < n; i++) Mm[i] = Mm[i - 1] + dM[i]; V<T> tm = tof(pm, Mm); h = garb; sieve_m_multiplicative(h, F(tm), F(pm), n, pa.data(), (int)pa.size()); P("sievem", mo(), vals(tm), vals(pm), vals(h));
        V<T> sp(n + 1, z); for (int i = 1; i < n; i++) sp[i] = sp[i - 1] + p[i]; auto sf = [&](int i) { return sp.at(i); }; auto tf = [&](int i) { return t.at(i); }; auto t1f = [&](int i) { return t1.at(i); }; std::unordered_map<int, T> um; std::map<int, T> mp, mp1; for (int i = 0; i < 4; i++) { int a = g() % 5 ? g() % n : n - 1; auto ck = [&](V<T>& tt, V<T>& ppp, T r) { P("summ", mo(), vals(tt), vals(ppp), vals(M), i32(a), val(r)); }; ck(t, p, sum_m<T>(tf, sf, a, um, e)); ck(t, p, sum_m<T>(tf, sf, a, mp, e)); ck(t1, one, sum_m<T>(t1f, a, mp1, e)); if (a) { sqrt_map<int, T> sm(std::max(1, (int)std::sqrt((double)n) + 1), a); ck(t, p, sum_m<T>(tf, sf, a, sm, e)); sm.reset_max(a); } } } }
template<class T> void misc(Rng& g, int n, ll m) { T e = id<T>(m), z = zeroOf(e); V<int> pa = primes_to<int>(n + 5), ps = primes_to<int>((int)std::sqrt((double)n) + (g() % 2 ? 0 : 7)); auto tab = [&] { return V<T>(n, castOf(e, (ll)(g() % 9))); };
    if (n) { V<T> q = tab(); (dfl(e) ? sieve_sqfree_count<T>(q, n, ps.data(), (int)ps.size()) : sieve_sqfree_count<T>(q, n, ps.data(), (int)ps.size(), e)); P("sqfs", mo(), vals(q)); } std::map<int, T> t; for (int i = 0; i < 3; i++) { int a = g() % (n + 1); P("sqf", mo(), i32(a), val(sqfree_count(a, t, e))); }
    for (int kk = 0; kk < 5; kk++) { V<T> d = tab(); (dfl(e) ? divisor_sigma<T>(d, kk, n, pa.data(), (int)pa.size()) : divisor_sigma<T>(d, kk, n, pa.data(), (int)pa.size(), e)); if (n) P("sigma", mo(), i32(kk), vals(d)); }
    if (n) { auto mm = sum_phi<T, ll>(n, e); P("phis", mo(), i32(n), keys(mm, (ll)n)); V<int> ph(n + 1); for (int i = 1; i <= n; i++) ph[i] = (int)Fn{"phi", {}}.mul(i); auto m2 = sum_phi<T, ll>(n, e, ph.data()); P("phis", mo(), i32(n), keys(m2, (ll)n)); }
    Fn f = rndfn(g); V<int> cp; for (int p : {2, 3, 5, 7, 11, 13}) if (g() % 3 == 0) cp.push_back(p); S cl = "["; for (int p : cp) cl += (cl.size() > 1 ? "," : "") + i32(p); auto sf = [&](int nn, int mm) { T r = z; for (int i = 1; i <= nn; i++) r = r + castOf(e, f(i * (ll)mm)); return r; }; P("cop", mo(), f.js(), cl + "]", i32(n), val(coprime_sum<T, int>(cp.begin(), cp.end(), n, sf)));
    // Mertens
    if (n) { V<T> a = tab(), b = tab(), c = tab(), d = tab(), o = tab(); int pc = (int)pa.size(); (dfl(e) ? sieve_mertens<T>(a, n, pa.data(), pc) : sieve_mertens<T>(a, n, pa.data(), pc, e)); P("mers", mo(), i32(2), vals(a)); (dfl(e) ? sieve_mertens_odd<T>(b, n, pa.data(), pc) : sieve_mertens_odd<T>(b, n, pa.data(), pc, e)); P("mers", mo(), i32(1), vals(b)); if (n > 1) { (dfl(e) ? sieve_mertens_even<T>(c, n) : sieve_mertens_even<T>(c, n, e)); P("mers", mo(), i32(0), vals(c)); } (dfl(e) ? sieve_mertens_even_odd<T>(d, o, n, pa.data(), pc) : sieve_mertens_even_odd<T>(d, o, n, pa.data(), pc, e)); P("mers", mo(), i32(0), vals(d)); P("mers", mo(), i32(1), vals(o)); }
    { std::unordered_map<ll, T> t2, t1, t0; for (int i = 0; i < 3; i++) { ll a = g() % (n + 1); P("mer", mo(), i32(2), i32(a), val((dfl(e) ? mertens<T>(a, t2) : mertens<T>(a, t2, e)))); P("mer", mo(), i32(1), i32(a), val((dfl(e) ? mertens_odd<T>(a, t1) : mertens_odd<T>(a, t1, e)))); P("mer", mo(), i32(0), i32(a), val((dfl(e) ? mertens_even<T>(a, t0) : mertens_even<T>(a, t0, e)))); } } }
template<class T> void bigmul(Rng& g, int n, ll m) { T e = id<T>(m); V<int> pa = primes_to<int>((int)std::sqrt((double)n)); if (g() % 2) pa = primes_to<int>((int)std::sqrt(n * std::log((double)n + 3)) + 1); int psz = (int)pa.size(); auto all = primes_to<int>(n); V<ll> pi(n + 1, 0); size_t j = 0; for (int i = 2; i <= n; i++) { pi[i] = pi[i - 1]; if (j < all.size() && all[j] == i) pi[i]++, j++; }
    Fn f = rndmul(g); V<T> s1(n + 1, zeroOf(e)); for (int i = 2; i <= n; i++) { s1[i] = s1[i - 1]; if (pi[i] > pi[i - 1]) s1[i] = s1[i] + castOf(e, f.pe(i, 1)); } bool okprev = true; auto F = [&](T prev, int p, int ee) { T want = ee == 1 ? e : castOf(e, f.pe(p, ee - 1)); if (!(prev == want)) okprev = false; return castOf(e, f.pe(p, ee)); }; auto S1 = [&](ll x) { return s1.at(x); };
    P("mul1", mo(), f.js(), i32(n), val((dfl(e) ? sum_multiplicative_34<T>(S1, F, n, pa.data(), psz) : sum_multiplicative_34<T>(S1, F, n, pa.data(), psz, e)))); auto mp = sum_multiplicative<T>(S1, F, n, pa.data(), psz, e); P("muls", mo(), f.js(), i32(n), keys(mp, (ll)n)); P("mul1", mo(), f.js(), i32(okprev ? 1 : -1), val(e));
    auto pt = [&](ll x) { return pi.at(x); }; struct PT { V<ll>& v; ll operator[](ll x) { return v.at(x); } } tb{pi}; auto a = (dfl(e) ? mertens<T>(n, tb, pa.data(), psz) : mertens<T>(n, tb, pa.data(), psz, e)); P("merm", mo(), i32(2), i32(n), keys(a, (ll)n)); auto b = (dfl(e) ? mertens_odd<T>(n, tb, pa.data(), psz) : mertens_odd<T>(n, tb, pa.data(), psz, e)); P("merm", mo(), i32(1), i32(n), keys(b, (ll)n)); auto c = (dfl(e) ? mertens_even<T>(n, tb, pa.data(), psz) : mertens_even<T>(n, tb, pa.data(), psz, e)); P("merm", mo(), i32(0), i32(n), keys(c, (ll)n)); }
template<class T> void phidl(Rng& g, int D, int Le, int N, ll m) { T e = id<T>(m); V<int64_t> vn; int c = 1 + g() % 3; for (int i = 0; i < c; i++) vn.push_back(1 + g() % N); int mx = (int)*std::max_element(vn.begin(), vn.end()); int U = g() % 3 ? 0 : 1 + g() % (mx + 2); auto r = (dfl(e) ? sum_phi_D_L<T>(D, Le, vn, U) : sum_phi_D_L<T>(D, Le, vn, U, e)); for (int i = 0; i < c; i++) P("phiDL", mo(), i32(D), i32(Le), i32(vn[i]), val(r.at(i))); int n = 1 + g() % N; P("phiDL", mo(), i32(D), i32(Le), i32(n), val((dfl(e) ? sum_phi_D_L<T>(D, Le, (int64_t)n, 0) : sum_phi_D_L<T>(D, Le, (int64_t)n, 0, e))));
    Fn f{"poly", {(ll)(g() % 21) - 10, (ll)(g() % 11) - 5, (ll)(g() % 5) - 2}}; polynom<T> p{castOf(e, f.p[0]), castOf(e, f.p[1]), castOf(e, f.p[2])}; auto q = sum_g_L<T, int64_t>(p, Le, vn, U); for (int i = 0; i < c; i++) P("gL", mo(), f.js(), i32(Le), i32(vn[i]), val(q.at(i))); }
void known() { gmo = 0; auto K = [](const char* f, ll n, ll r) { P("known", k(f), s(n), s(r)); }; for (ll n : {100000ll, 1000000ll, 10000000ll}) K("pi", n, prime_pi<ll>(n)); K("pi", 10000000, prime_pi<int>(10000000)); K("pi1", 1000000, prime_pi1<ll>(1000000)); K("pi3", 1000000, prime_pi3<ll>(1000000)); for (ll n : {1000000ll, 10000000ll}) K("ps", n, prime_sum<ll, ll>(n, 1));
    std::unordered_map<ll, ll> t; for (ll n : {1000000ll, 10000ll, 100000ll}) K("mer", n, mertens<ll>(n, t)); std::map<ll, ll> q; for (ll n : {1000000ll, 1000000000ll, 100000ll}) K("sqf", n, sqfree_count<ll>(n, q, 1ll)); auto mm = sum_phi<ll, ll>(1000000); K("phi", 1000000, mm[1000000]); K("phi", 1000000, (ll)sum_phi_D_L<M7>(1, 0, int64_t(1000000), 0, M7(1)).v == 303963552392ll % 1000000007 ? 303963552392ll : 0);
    { ll n = 1ll << 32; sqrt_map<ll, ll> t0(1 << 21, n); V<ll> v(1 << 21); sieve_mertens_even<ll>(v, 1 << 21); for (int i = 0; i < 1 << 21; i++) t0[i] = v[i]; K("mer0", n, mertens_even<ll>(n, t0)); }
    for (ll n : {10000ll, 1000000ll, 10000000ll}) { V<int> pa = primes_to<int>((int)std::sqrt((double)n)); auto pi = prime_pi_sqrt<ll>(n); auto m = mertens<ll>(n, pi, pa.data(), (int)pa.size()); K("mer", n, m[n]); } }
// large n: identities over all quotients, increasing
V<ll> quots(ll n) { V<ll> v; for (ll i = 1; i <= n; i = n / (n / i) + 1) v.push_back(n / i); std::reverse(v.begin(), v.end()); return v; }
template<class F> S tab(const V<ll>& q, F f) { S r = "["; for (ll v : q) r += (r.size() > 1 ? ",[" : "[") + i32(v) + "," + val(f(v)) + "]"; return r + "]"; }
template<class F> void near(Rng& g, const char* f, int z, ll n, F at) { V<ll> q = quots(n); S r = "["; auto put = [&](size_t i) { r += (r.size() > 1 ? ",[" : "[") + i32(q[i - 1]) + "," + i32(q[i]) + "," + val(at(q[i - 1])) + "," + val(at(q[i])) + "]"; }; size_t close = 1; while (close < q.size() && q[close] - q[close - 1] <= 150) close++; for (int j = 0; j < 60; j++) { size_t i = 1 + g() % (q.size() - 1); if (q[i] - q[i - 1] <= 150) put(i); } for (int j = 1; j < 10 && (int)close - j > 0; j++) put(close - j); P(f, mo(), i32(z), r + "]"); }
template<class T> void large(Rng& g, ll n, ll m) { T e = id<T>(m); V<ll> q = quots(n); V<int> pa = primes_to<int>((int)std::sqrt((double)n) + 2); while (pa.size() && (ll)pa.back() * pa.back() > n) pa.pop_back(); int psz = (int)pa.size();
    for (int z = 0; z < 4; z++) { auto mp = prime_power_sum_sqrt<T, ll>(z, n, e); near(g, "near", z, n, [&](ll v) { return mp[v]; }); }
    auto pi = prime_pi_sqrt<ll>(n); auto I = [&](S w, S t) { P("ident", mo(), w, i32(n), t); }; auto ph = sum_phi<T, ll>(n, e); I("[\"phi\"]", tab(q, [&](ll v) { return ph[v]; }));
    { auto pt = [&](ll x) { return pi[x]; }; struct PT { decltype(pi)& v; ll operator[](ll x) { return v[x]; } } tb{pi}; auto a = (dfl(e) ? mertens<T>(n, tb, pa.data(), psz) : mertens<T>(n, tb, pa.data(), psz, e)), b = (dfl(e) ? mertens_odd<T>(n, tb, pa.data(), psz) : mertens_odd<T>(n, tb, pa.data(), psz, e)), c = (dfl(e) ? mertens_even<T>(n, tb, pa.data(), psz) : mertens_even<T>(n, tb, pa.data(), psz, e)); S ta = tab(q, [&](ll v) { return a[v]; }), tb1 = tab(q, [&](ll v) { return b[v]; }), tc = tab(q, [&](ll v) { return c[v]; }); I("[\"mu\"]", ta); I("[\"mu1\"]", tb1); if (!gmo) P("meo", i32(n), tc, tb1, ta); }
    { std::unordered_map<ll, T> t2, t1, t0; S ta = tab(q, [&](ll v) { return (dfl(e) ? mertens<T>(v, t2) : mertens<T>(v, t2, e)); }), tb1 = tab(q, [&](ll v) { return (dfl(e) ? mertens_odd<T>(v, t1) : mertens_odd<T>(v, t1, e)); }); std::unordered_map<ll, T> t3; T last = (dfl(e) ? mertens<T>(n, t3) : mertens<T>(n, t3, e)); I("[\"mu\"]", ta); I("[\"mu\"]", tab(q, [&](ll v) { return v == n ? last : (dfl(e) ? mertens<T>(v, t3) : mertens<T>(v, t3, e)); })); I("[\"mu1\"]", tb1); if (!gmo) P("meo", i32(n), tab(q, [&](ll v) { return (dfl(e) ? mertens_even<T>(v, t0) : mertens_even<T>(v, t0, e)); }), tb1, ta); }
    { auto s0 = prime_power_sum_sqrt<T, ll>(0, n, e), s1 = prime_power_sum_sqrt<T, ll>(1, n, e); Fn fs[] = {{"one", {}}, {"mu", {}}, {"phi", {}}, {"id", {}}, {"sig", {1}}, {"sig", {0}}}; for (Fn f : fs) { T z = zeroOf(e); auto S1 = [&](ll x) -> T { T a = x ? s0[x] : z, b = x ? s1[x] : z; if (f.w == "one") return a; if (f.w == "mu") return -a; if (f.w == "phi") return b - a; if (f.w == "id") return b; return f.p[0] ? b + a : a + a; }; auto F = [&](T, int p, int ee) { return castOf(e, f.pe(p, ee)); }; auto mp = sum_multiplicative<T>(S1, F, n, pa.data(), psz, e); I(f.js(), tab(q, [&](ll v) { return mp[v]; })); T one = (dfl(e) ? sum_multiplicative_34<T>(S1, F, n, pa.data(), psz) : sum_multiplicative_34<T>(S1, F, n, pa.data(), psz, e)); I(f.js(), tab(q, [&](ll v) { return v == n ? one : mp[v]; })); } }
    if (!gmo) { auto v = prime_pi13_sqrt<ll>(n); near(g, "near4", 1, n, [&](ll x) { return v[0][x]; }); near(g, "near4", 3, n, [&](ll x) { return v[1][x]; }); std::map<ll, ll> t; S r = "["; for (ll i = 1; i * i <= n; i++) r += (i > 1 ? "," : "") + s(sqfree_count<ll>(n / (i * i), t, 1ll)); P("sqfn", i32(n), r + "]"); } }
template<class T> void phibig(Rng& g, int D, int L, ll n) { T e = id<T>(0); V<ll> q = quots(n); V<int64_t> vn(q.begin(), q.end()); if (g() % 2) std::reverse(vn.begin(), vn.end()); auto r = (dfl(e) ? sum_phi_D_L<T>(D, L, vn, g() % 2 ? 0 : 1 + g() % 3000) : sum_phi_D_L<T>(D, L, vn, g() % 2 ? 0 : 1 + g() % 3000, e)); P("ident", mo(), "[\"phiDL\"," + i32(D) + "," + i32(L) + "]", i32(n), tab(q, [&](ll v) { for (size_t i = 0; i < vn.size(); i++) if (vn[i] == v) return r.at(i); return e; })); }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); bool th = n > 100; ll MM[] = {101, 1009, 10007, 997};
    switch (part) {
    case 0: for (int i = 0; i < (th ? 20000 : 3000); i++) { ll a = (ll)(g() % 19) - 9, b = (ll)(g() % 39) - 19, q = (ll)(g() % 17) - 8; if (q) ratio<ll>(g, a, b, q, g() % 12, 0); } for (int i = 0; i < n * 4; i++) { ll a = (ll)(g() % 2000001) - 1000000, b = (ll)(g() % 2000001) - 1000000, q = (ll)(g() % 2000001) - 1000000; ll nn = g() % 100000; if (q) { ratio<ll>(g, a, b, q, nn, 0); ratio<M7>(g, a * 1000, b * 100000, q * 10, nn * 1000, 0); ratio<MX>(g, a, b, q, nn, MM[g() % 4]); } } break;
    case 1: for (int p = 0; p < 4; p++) for (int i = 0; i < 25; i++) { spow<ll>(p, i, 0); spow<M7>(p, i, 0); spow<MX>(p, i, MM[g() % 4]); } for (int i = 0; i < n * 3; i++) { int p = g() % (g() % 3 ? 12 : 60); spow<M7>(p, g() % 100, 0); spow<M9>(p, g() % 1100, 0); spow<MX>(p, g() % 300, MM[g() % 4]); spow<MY>(p, g() % 300, MM[g() % 4]); spow<Q>(g() % 7, g() % 12, 0); } for (int i = 0; i < n * 3; i++) { int p = g() % 9; ll x = 2 + g() % 90; spowx<M7>(g, p, x, g() % 50, 0); spowx<MX>(g, p, x, g() % 50, MM[g() % 4]); spowx<M9>(g, p, x, g() % 50, 0); spowx<ll>(g, g() % 4, (ll)(g() % 3) - 3, g() % 8, 0); spowx<ll>(g, g() % 3, (ll)(2 + g() % 3), g() % 8, 0); spowx<Q>(g, g() % 3, 2 + g() % 3, g() % 6, 0); } break;
    case 2: for (int i = 0; i < 70; i++) { sqrts<ll>(g, i, 0); if (i % 2) sqrts<M7>(g, i, 0); else sqrts<MX>(g, i, MM[g() % 4]); } for (int i = 0; i < n / 3; i++) { sqrts<ll>(g, g() % 1500, 0); sqrts<M7>(g, g() % 1500, 0); } break;
    case 3: for (int i = 1; i < (th ? 200 : 70); i++) { pis<ll>(g, i); pis<int>(g, i); for (int z = 0; z < 3; z++) pps<ll, ll>(z, i, 0); pps<M7, ll>(g() % 7, i, 0); pps<MX, ll>(g() % 6, i, MM[g() % 4]); } pis<ll>(g, 0); pis<int>(g, 0); for (int i = 0; i < n / 6; i++) { pis<ll>(g, 1 + g() % 3000); pis<int>(g, 1 + g() % 3000); pps<ll, ll>(g() % 4, 1 + g() % 1000, 0); pps<M7, int>(g() % 7, 1 + g() % 3000, 0); pps<MX, ll>(g() % 7, 1 + g() % 3000, MM[g() % 4]); pps<M9, ll>(g() % 7, 1 + g() % 3000, 0); } deppi(g, 3000); break;
    case 4: for (int i = 1; i < (th ? 130 : 40); i++) { dirich<ll>(g, i, 0); dirich<M7>(g, i, 0); dirich<MX>(g, i, MM[g() % 4]); } for (int i = 0; i < n / 8; i++) { dirich<ll>(g, 40 + g() % 90, 0); dirich<M7>(g, 40 + g() % 90, 0); dirich<MY>(g, 40 + g() % 90, MM[g() % 4]); } break;
    case 5: for (int i = 0; i < (th ? 130 : 40); i++) { misc<ll>(g, i, 0); misc<M7>(g, i, 0); } for (int i = 0; i < n / 6; i++) { misc<ll>(g, g() % 500, 0); misc<MX>(g, g() % 200, MM[g() % 4]); } break;
    case 6: for (int i = 1; i < (th ? 400 : 90); i++) { bigmul<ll>(g, i, 0); if (i % 3 == 0) bigmul<M7>(g, i, 0); } for (int i = 0; i < n / 4; i++) { bigmul<ll>(g, 1 + g() % 3000, 0); bigmul<MX>(g, 1 + g() % 3000, MM[g() % 4]); } break;
    case 7: for (int i = 0; i < n; i++) { phidl<M7>(g, g() % 4, g() % 4, 1 + g() % 140, 0); phidl<MX>(g, g() % 4, g() % 4, 1 + g() % 80, MM[g() % 4]); phidl<Q>(g, g() % 3, g() % 2, 1 + g() % 20, 0); } break;
    case 8: known(); break;
    case 9: large<ll>(g, (th ? 2000000 : 100000) + g() % 200000, 0); for (int D = 0; D < 3; D++) phibig<M7>(g, D, g() % 3, 500 + g() % (th ? 20000 : 3000)); break;
    case 10: large<M7>(g, (th ? 1000000 : 100000) + g() % 200000, 0); { ll r = 200 + g() % 300; large<MX>(g, r * r + (ll)(g() % 3) - 1, 10007); } break; }
    flushall(); }
