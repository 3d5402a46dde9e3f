#include "bt.h"
#include <memory>
#include "altruct/algorithm/math/primes.h"
#include "altruct/structure/math/prime_holder.h"
using namespace vf; using namespace altruct::math;
template<class T> struct Ex { size_t n; T* p; Ex(size_t n, int fill = 77) : n(n), p((T*)malloc(n * sizeof(T))) { for (size_t i = 0; i < n; i++) p[i] = (T)fill; } ~Ex() { free(p); } Ex(const Ex&) = delete; T* d() { return p; } };
template<class T> S li(const T* p, size_t n) { S r = "["; for (size_t i = 0; i < n; i++) r += (i ? "," : "") + i32((ll)p[i]); return r + "]"; }
S k(const char* s) { return S("\"") + s + "\""; }
// independent primes
V<int> ref(int n) { V<int> r; for (int i = 2; i < n; i++) { bool p = true; for (int j : r) { if (j * (ll)j > i) break; if (i % j == 0) { p = false; break; } } if (p) r.push_back(i); } return r; }
void tables(int n) { V<int> pv = ref(n); int m = (int)pv.size(); Ex<int> p(m); std::copy(pv.begin(), pv.end(), p.d());
    { Ex<int> o(m); Ex<char> q(n); int c = primes(o.d(), q.d(), n); P("primes", i32(n), i32(c), li(o.d(), m)); P("q", i32(n), li(q.d(), n)); }
    { Ex<int> o(n); int c = primes(o.d(), nullptr, n); P("primes", i32(n), i32(c), li(o.d(), std::min(c, n))); }
    { Ex<char> q(n); int c = primes(nullptr, q.d(), n); P("primes", i32(n), i32(c), li(p.d(), m)); P("q", i32(n), li(q.d(), n)); }
    Ex<int> t(n);
    prime_pi(t.d(), n, p.d(), m); P("pi", i32(n), li(t.d(), n));
    euler_phi(t.d(), n, p.d(), m); P("phi", i32(n), li(t.d(), n));
    moebius_mu(t.d(), n, p.d(), m); P("mu", i32(n), li(t.d(), n)); { Ex<int> u(n); moebius_mu(u.d(), n); P("mu", i32(n), li(u.d(), n)); }
    prime_nu(t.d(), n, p.d(), m); P("nu", i32(n), li(t.d(), n));
    smallest_factor(t.d(), n); P("spf", i32(n), li(t.d(), n));
    factor(t.d(), n, p.d(), m); P("bpf", i32(n), li(t.d(), n));
    divisor_sigma0(t.d(), n); P("ds0", i32(n), li(t.d(), n)); Ex<int64_t> w(n); divisor_sigma1(w.d(), n); P("ds1", i32(n), li(w.d(), n)); }
// primes up to sqrt(e), some more, or all up to e
void seg(Rng& g, int b, int e) { V<int> pv; int mode = g() % 3; for (int x : ref(mode == 2 ? e + 1 : mode == 1 ? e / 2 + 20 : 100)) if (mode || (x - 1) * (ll)(x - 1) < e || pv.empty()) pv.push_back(x); Ex<int> p(pv.size()); std::copy(pv.begin(), pv.end(), p.d()); int m = (int)pv.size(), n = e - b;
    Ex<char> q(n); segmented_q(q.d(), b, e, p.d(), m); P("seg", k("q"), i32(b), li(q.d(), n)); Ex<int64_t> f(n), t(n), u(n); segmented_phi(f.d(), t.d(), b, e, p.d(), m); P("seg", k("phi"), i32(b), li(f.d(), n)); segmented_mu(u.d(), b, e, p.d(), m); P("seg", k("mu"), i32(b), li(u.d(), n)); }
void bseg(Rng& g, ll b, int n, const V<int>& all) { ll e = b + n; V<int> pv; bool more = g() % 2; for (int x : all) { pv.push_back(x); if (!more && (ll)x * x >= e - 1) break; } if (!pv.size() || (ll)pv.back() * pv.back() < e - 1) return; int m = (int)pv.size(); Ex<int> p(m); std::copy(pv.begin(), pv.end(), p.d());
    S fs = "["; for (ll x = b; x < e; x++) { ll y = x; S f = "["; for (int q : pv) { if ((ll)q * q > y) break; int c = 0; while (y % q == 0) y /= q, c++; if (c) f += (f.size() > 1 ? ",[" : "[") + s((ll)q) + "," + i32(c) + "]"; } if (y > 1) f += (f.size() > 1 ? ",[" : "[") + s(y) + ",1]"; fs += (x > b ? "," : "") + f + "]"; } fs += "]";
    auto out = [&](const char* kk, auto* v) { V<ll> r(v, v + n); P("bseg", k(kk), s(b), fs, r); }; Ex<char> q(n); segmented_q(q.d(), b, e, p.d(), m); out("q", q.d()); Ex<int64_t> f(n), t(n); segmented_phi(f.d(), t.d(), b, e, p.d(), m); out("phi", f.d()); segmented_mu(f.d(), b, e, p.d(), m); out("mu", f.d()); }
S lf(const V<std::pair<int, int>>& v) { S r = "["; for (auto& f : v) r += (r.size() > 1 ? ",[" : "[") + i32(f.first) + "," + i32(f.second) + "]"; return r + "]"; } template<class C> S lv(const C& v) { S r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + i32((ll)x); return r + "]"; }
void holder(Rng& g, int z, int n) { prime_holder h(z); for (int j = 0; j < n; j++) { if (j == n / 2 && g() % 2) { prime_holder h2(h); h = prime_holder(1); h = h2; } int i = z ? g() % z : 0; if (g() % 4 == 0 && z) i = z - 1; auto H = [&](const char* kk, ll r) { P("h", i32(z), k(kk), i32(i), i32(r)); };
        switch (g() % 14) { case 0: H("size", h.size()); break; case 1: H("m", h.primes()); break; case 2: if (z) H("q", h.q(i)); break; case 3: if (z) H("bpf", h.pf(i)); break; case 4: if (z) H("pi", h.pi(i)); break; case 5: if (z) H("phi", h.phi(i)); break; case 6: if (z) H("mu", h.mu(i)); break; case 7: if (z) H("nu", h.nu(i)); break; case 8: if (z) H("mer", h.mertens(i)); break;
        case 9: if (h.primes()) { int m = h.primes(); i = g() % 4 ? g() % m : m - 1; H("p", h.p(i)); } break; case 10: if (i) P("hfac", i32(i), lf(h.factor_integer(i))); break;
        case 11: { V<int> v; int c = g() % 4; for (int t = 0; z > 1 && t < c; t++) v.push_back(1 + g() % (z - 1)); P("hfacs", lv(v), lf(h.factor_integer(v))); break; }
        case 12: if (i) { int d = g() % 2 ? 0 : 1 + g() % i; if (g() % 2) P("hdiv", i32(i), i32(d), lv(d ? h.divisors(i, d) : h.divisors(i))); else P("hdiv", i32(i), i32(d), lv(h.divisors<ll>(i, d))); } break;
        case 13: { V<int> v; int c = g() % 3; ll pr = 1; for (int t = 0; z > 1 && t < c; t++) { int x = 1 + g() % (z - 1); if (pr * x < 3000) v.push_back(x), pr *= x; } int d = g() % 2 ? 0 : 1 + g() % pr; if (d) P("hdiv", i32(pr), i32(d), lv(h.divisors<int>(v, d))); else if (g() & 1) P("hdiv", i32(pr), i32(0), lv(h.divisors(v))); else P("hdiv", i32(pr), i32(0), lv(h.divisors(h.factor_integer(v)))); break; } } }
    if (z) { int x = z < 400 ? 0 : 1; if (!x) { auto T = [&](const char* f, auto& v) { P(f, i32(z), lv(v)); }; T("phi", h.phi()); T("mer", h.mertens()); T("mu", h.mu()); T("bpf", h.pf()); T("q", h.q()); T("pi", h.pi()); T("nu", h.nu()); P("primes", i32(z), i32(h.primes()), lv(h.p())); } } }
// a large table at random places, around squares and at its end
void large(Rng& g, int n, int cnt) { V<int> at; for (int j = 0; j < cnt; j++) at.push_back(1 + g() % (n - 1)); for (int j = 1; j <= 6; j++) at.push_back(n - j); for (int j = 0; j < 8; j++) { int r = 2 + g() % 900; int x = r * r; if (x + 1 < n) { at.push_back(x); at.push_back(x - 1); } } int rt = 1; while ((ll)(rt + 1) * (rt + 1) < n) rt++; for (int j = 0; j < 40 && rt - j > 1; j++) at.push_back((rt - j) * (rt - j));
    Ex<char> q(n); int m = primes(nullptr, q.d(), n); { Ex<int> o(n); int c = primes(o.d(), nullptr, n); P("pcount", i32(n), i32(o.d()[m - 1]), i32(c)); } Ex<int> p(m); { int c = primes(p.d(), q.d(), n); P("pcount", i32(n), i32(p.d()[m - 1]), i32(c)); }
    auto out = [&](const char* kk, auto* t, bool sum = false) { S r = "["; for (int i : at) r += (r.size() > 1 ? ",[" : "[") + i32(i) + "," + i32((ll)t[i]) + (sum ? "," + i32((ll)t[i - 1]) : S()) + "]"; P("big", k(kk), i32(n), r + "]"); };
    out("q", q.d()); Ex<int> t(n); prime_pi(t.d(), n, p.d(), m); P("pcount", i32(n), i32(p.d()[m - 1]), i32(t.d()[n - 1])); out("pi", t.d(), true); euler_phi(t.d(), n, p.d(), m); out("phi", t.d()); moebius_mu(t.d(), n, p.d(), m); out("mu", t.d()); moebius_mu(t.d(), n); out("mu", t.d()); prime_nu(t.d(), n, p.d(), m); out("nu", t.d()); smallest_factor(t.d(), n); out("spf", t.d()); factor(t.d(), n, p.d(), m); out("bpf", t.d());
    divisor_sigma0(t.d(), n); out("ds0", t.d()); Ex<int64_t> w(n); divisor_sigma1(w.d(), n); out("ds1", w.d());
    prime_holder h(n); out("q", h.q().data()); out("pi", h.pi().data(), true); out("mer", h.mertens().data(), true); out("mu", h.mu().data()); out("phi", h.phi().data()); out("bpf", h.pf().data()); out("nu", h.nu().data()); P("pcount", i32(n), i32(h.p().back()), i32(h.primes())); }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); bool th = n > 100;
    switch (part) {
    case 0: for (int i = 0; i <= (th ? 300 : 130); i++) tables(i); break;
    case 1: for (int i = 0; i < n / 12 + 1; i++) tables(131 + g() % 2870); tables(2500); tables(2209); tables(2210); break;
    case 2: for (int b = 0; b < 14; b++) for (int e = b; e < 16; e++) seg(g, b, e); for (int i = 0; i < n; i++) { int b = g() % 3 ? g() % 400 : g() % 2900; int d = g() % 3 ? g() % 20 : g() % 100; seg(g, b, b + d); } for (int q : {2, 3, 5, 7, 11, 13, 47, 53}) for (int b = q * q - 2; b <= q * q + 1; b++) for (int e = b; e <= q * q + 3; e++) seg(g, b, e); break;
    case 3: { auto all = ref(1000100); for (int i = 0; i < n / 4 + 1; i++) { ll b = 1 + (ll)(g() >> 1) % (g() % 2 ? 1000000000000ll : 100000000ll); bseg(g, b, 1 + g() % 20, all); } for (ll p : {46337ll, 46349ll, 65521ll, 65537ll, 999983ll, 997ll}) bseg(g, p * p - 5, 8, all); bseg(g, 999999999980ll, 20, all); bseg(g, 614889782588491410ll % 1000000000000ll, 4, all); bseg(g, 200560490130ll - 3, 6, all); bseg(g, (1ll << 39) - 2, 5, all); break; }
    case 5: large(g, g() % 2 ? 1000000 : 2000000, n / 2); if (th) { large(g, 4000000, n / 2); large(g, 10000000, n / 2); } break;
    case 4: for (int z = 0; z <= (th ? 200 : 60); z++) holder(g, z, 12); for (int i = 0; i < n / 4; i++) holder(g, 1 + g() % 3000, 30); for (int z : {59754, 60184, 31469}) { prime_holder h(z); int m = h.primes(); P("h", i32(z), k("size"), i32(0), i32(h.size())); auto v = ref(z); if ((int)v.size() != m || !std::equal(v.begin(), v.end(), h.p().begin()) || (int)h.p().size() != m) P("h", i32(z), k("size"), i32(0), i32(-1)); } break; }
    flushall(); }
