#include "vf.h"
#include <deque>
#include <list>
#include <set>
#include <cmath>
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/collections/collections.h"
using namespace vf; namespace S = altruct::search; namespace C = altruct::collections; typedef std::vector<ll> V;
template<class T> void pbig(Rng& g, T lo, T hi, T t) { int calls = 0; bool in = true; auto r = S::binary_search_pred(lo, hi, [&](T x) { calls++; in &= lo <= x && x < hi; return x >= t; }); F("predbig").b("lo", lo).b("hi", hi).b("t", t).b("r", r).i("inside", in).i("calls", calls).put(); }
template<class T> void nbig(Rng& g, T lo, T hi, T t, bool lb, bool dec) { bool in = true; T r; T zero = 0;
    if (!lb) r = S::binary_search_num(lo, hi, T(1), [&](T x) { in &= lo <= x && x < hi; return x >= t; });
    else if (!dec) r = S::lower_bound_num(lo, hi, T(1), t, [&](T x) { in &= lo <= x && x < hi; return x; });
    else r = S::lower_bound_num(lo, hi, T(1), 0, [&](T x) { in &= lo <= x && x < hi; return x < t ? 1 : 0; }, true);
    F("num").b("lo", lo).b("hi", hi).b("t", t).b("r", r).i("inside", in).put(); }
template<class T> T any(Rng& g, T lo, T hi) { uint64_t w = (uint64_t)hi - (uint64_t)lo; return (T)((uint64_t)lo + (w == ~0ULL ? g() : g() % (w + 1))); }
V seq(Rng& g, int n, int k) { V v; while ((int)v.size() < n) { ll x = rnd(g, -k, k); int c = g() % 3 ? 1 : rnd(g, 1, 4); while (c-- && (int)v.size() < n) v.push_back(x); } return v; }
// lengths past the 32-bit range, many with small low halves
size_t hugen(Rng& g) { size_t k = g() % 4; switch (g() % 4) { case 0: return ~(size_t)0 - k; case 1: return ((size_t)1 << (31 + g() % 33)) + k; case 2: return ((size_t)1 << (31 + g() % 33)) - 1 - k; default: return g() | ((size_t)1 << 40); } }
template<class K> void helpers(Rng& g, const V& q, const K& c) { // c has the elements of q in order
    ll a = rnd(g, -3, 3), b = rnd(g, -5, 5), m = rnd(g, 1, 4), k = rnd(g, 0, m - 1), n = g() % 4 == 0 ? 0 : rnd(g, 0, q.size() + 3), x = q.empty() || g() % 2 ? rnd(g, -12, 12) : q[g() % q.size()];
    auto p = [&](ll y) { return ((y % m) + m) % m == k; }; auto f = [&](ll y) -> int { return (int)(a * y + b); };
    bool it = g() % 2; size_t hn = g() % 4 ? (size_t)n : hugen(g);
    F("sorted").v("q", q).v("r", it ? C::sorted(c) : C::sorted(c.begin(), c.end())).put();
    F("reversed").v("q", q).v("r", it ? C::reversed(c) : C::reversed(c.begin(), c.end())).put();
    F("take").v("q", q).bu("n", hn).v("r", it ? C::take(c, hn) : C::take(c.begin(), c.end(), hn)).put();
    F("filter").v("q", q).i("m", m).i("k", k).v("r", it ? C::filter(c, p) : C::filter(c.begin(), c.end(), p)).put();
    F("transform").v("q", q).i("a", a).i("b", b).v("r", it ? C::transform(c, f) : C::transform(c.begin(), c.end(), f)).put();
    F("runs").v("q", q).pv("r", it ? C::run_length(c) : C::run_length(c.begin(), c.end())).put();
    F("contains").v("q", q).i("x", x).i("r", it ? C::contains(c, x) : C::contains(c.begin(), c.end(), x)).put();
}
template<class A, class B> void cmp(Rng& g, const V& a, const V& b, ll n, size_t huge = 0) { A x(a.begin(), a.end()); B y(b.begin(), b.end()); if (huge) { F("compare").v("a", a).v("b", b).b("n", huge).i("r", C::compare(x.begin(), x.end(), y.begin(), y.end(), huge)).put(); return; } F("compare").v("a", a).v("b", b).b("n", n).i("r", n < 0 ? C::compare(x.begin(), x.end(), y.begin(), y.end()) : C::compare(x.begin(), x.end(), y.begin(), y.end(), (size_t)n)).put(); }
int main(int argc, char** argv) {
    Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    if (part == 0) {
        for (int L = 0; L <= 33; L++) for (int t = 0; t <= L; t++) { V p(L, 0); for (int i = t; i < L; i++) p[i] = 1; int calls = 0; bool in = true;
            std::deque<ll> d(p.begin(), p.end()); ll r; int w = (L + t) % 5; auto cnt = [&](ll i) { calls++; in &= 0 <= i && i < L; };
            if (w == 0) r = S::binary_search_pred(0, L, [&](int i) { cnt(i); return p[i] != 0; });
            else if (w == 1) r = S::binary_search_pred(p.begin(), p.end(), [&](V::iterator i) { cnt(i - p.begin()); return *i != 0; }) - p.begin();
            else if (w == 2) r = S::binary_search_pred(d.begin(), d.end(), [&](std::deque<ll>::iterator i) { cnt(i - d.begin()); return *i != 0; }) - d.begin();
            else if (w == 3) r = S::binary_search_pred(p.data(), p.data() + L, [&](ll* i) { cnt(i - p.data()); return *i != 0; }) - p.data();
            else r = S::binary_search_pred((short)-20, (short)(L - 20), [&](short i) { cnt(i + 20); return p[i + 20] != 0; }) + 20;
            F("pred").v("p", p).i("r", r).i("inside", in).i("calls", calls).put(); }
        // every short pair of sequences
        std::vector<V> all{{}}; for (size_t i = 0; i < all.size() && all[i].size() < 3; i++) for (int x = 0; x < 2; x++) { V t = all[i]; t.push_back(x); all.push_back(t); }
        for (auto& a : all) for (auto& b : all) for (int k = -1; k <= 4; k++) cmp<V, std::list<int>>(g, a, b, k);
    }
    for (int i = 0; i < n; i++) {
        { int w = rnd(g, 0, 5); bool lb = g() % 2, dec = g() % 2; auto go = [&](auto lo, auto hi) { typedef decltype(lo) T; if (g() % 2) { T mid = any<T>(g, lo, hi); if (g() % 2) lo = mid; else hi = mid; } T t = g() % 6 == 0 ? lo : g() % 6 == 0 ? hi : any<T>(g, lo, hi); if (g() % 2) pbig<T>(g, lo, hi, t); else nbig<T>(g, lo, hi, t, lb, dec); };
          if (w == 0) go((ll)-4000000000000000000LL, (ll)5000000000000000000LL); if (w == 1) go((uint64_t)0, (uint64_t)-1); if (w == 2) go(-1000000000, 1147483647); if (w == 3) go(0u, 4294967295u); if (w == 4) go((ll)9223372036854775000LL, (ll)9223372036854775807LL); if (w == 5) go((ll)(-9223372036854775807LL - 1), (ll)-5); }
        { ll sc = 1LL << rnd(g, 0, 12), lo = rnd(g, -100000, 100000), hi = lo + rnd(g, 0, 300000), e = rnd(g, 1, g() % 3 ? 40 : 5000), t = rnd(g, lo - 1000, hi + 1000); 
          if (i % 3 == 0) { double r = S::binary_search_num((double)lo / sc, (double)hi / sc, (double)e / sc, [&](double x) { return x >= (double)t / sc; }); r *= sc; ll c = t < lo ? lo : t > hi ? hi : t; ll R = r > c ? (ll)std::ceil(r) : (ll)std::floor(r); if (std::abs(r - c) <= e && std::llabs(R - c) > e) R = c + (R > c ? e : -e); F("eps").i("lo", lo).i("hi", hi).i("eps", e).i("t", t).i("r", R).put(); }
          else if (i % 3 == 1) { ll r = S::binary_search_num(lo, hi, e, [&](ll x) { return x >= t; }); F("eps").i("lo", lo).i("hi", hi).i("eps", e).i("t", t).i("r", r).put(); }
          else { double r = S::lower_bound_num((double)lo, (double)hi, 0.0, (double)t, [](double x) { return x; }) - (t < lo ? lo : t > hi ? hi : t); ll R = std::abs(r) < 1e-9 ? 0 : (ll)std::ceil(std::abs(r)); F("eps").i("lo", 0).i("hi", 0).i("eps", 0).i("t", 0).i("r", R).put(); } }
        { int L = rnd(g, 0, 25), lo = rnd(g, -30, 30); bool dec = g() % 2, up = g() % 2; V y; ll c = rnd(g, -20, 20); for (int j = 0; j < L; j++) { y.push_back(c); c += (dec ? -1 : 1) * (g() % 2 ? 0 : rnd(g, 1, 4)); } ll v = L && g() % 2 ? y[g() % L] : rnd(g, -40, 40); auto f = [&](int x) { return y.at(x - lo); };
          ll r = up ? S::upper_bound_num(lo, lo + L, 1, v, f, dec) : S::lower_bound_num(lo, lo + L, 1, v, f, dec); F("bound").v("y", y).i("v", v).str("k", up ? dec ? "lt" : "gt" : dec ? "le" : "ge").i("r", r - lo).put(); }
        { V q = seq(g, i % 25 < 5 && i >= 25 && i < 400 ? rnd(g, 100, 500) : g() % 5 == 0 ? rnd(g, 0, 2) : rnd(g, 0, 20), g() % 2 ? 2 : 12); if (q.size() > 90 && g() % 2) { int f = rnd(g, 0, q.size() / 2); for (int j = f; j < f + (int)q.size() / 2 && (g() % 50 || j < f + 300); j++) q[j] = q[f]; } int w = i % 5; if (w == 0) helpers(g, q, q); if (w == 1) helpers(g, q, std::list<ll>(q.begin(), q.end())); if (w == 2) helpers(g, q, std::deque<int>(q.begin(), q.end())); if (w == 3) { std::set<ll> s(q.begin(), q.end()); helpers(g, V(s.begin(), s.end()), s); } if (w == 4) { std::multiset<int> s(q.begin(), q.end()); helpers(g, V(s.begin(), s.end()), s); } }
        { V a = seq(g, rnd(g, 0, 8), 2), b = g() % 2 ? a : seq(g, rnd(g, 0, 8), 2); if (g() % 2 && !b.empty()) b.resize(rnd(g, 0, b.size())); if (g() % 3 == 0 && !b.empty()) b[g() % b.size()] += rnd(g, -1, 1); ll k = g() % 3 == 0 ? -1 : rnd(g, 0, 9); if (g() % 4 == 0) cmp<V, V>(g, a, b, 0, hugen(g)); if (i % 20 == 7) { a = seq(g, rnd(g, 200, 400), 2), b = a; b.resize(rnd(g, 150, b.size())); b[b.size() - 1 - g() % 4] += rnd(g, -1, 1); k = g() % 2 ? -1 : rnd(g, 140, 400); } if (g() % 2) cmp<V, V>(g, a, b, k); else cmp<std::list<int>, std::deque<ll>>(g, a, b, k); }
        { std::vector<int> v; int L = rnd(g, 0, 20); V q = seq(g, L, 9); v.reserve(rnd(g, 0, 40)); v.assign(q.begin(), q.end()); ll c0 = v.capacity(), k = rnd(g, 0, 40); C::reserve_more(v, k); F("reserve").v("q", q).i("n", k).v("r", v).i("cap0", c0).i("cap", v.capacity()).put(); }
    }
}
