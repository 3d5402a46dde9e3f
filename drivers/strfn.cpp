#include "vf.h"
#include <memory>
#include <list>
#include "altruct/algorithm/search/kmp_search.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/palindrome_tree.h"
using namespace vf; using namespace altruct::container;
typedef std::vector<ll> V; typedef std::vector<V> VV;
// a string shape: random, periodic, Fibonacci-like, runs, palindromic
V mkstr(Rng& g, int n, int k) {
    V s; int sh = rnd(g, 0, 5);
    if (sh == 0) for (int i = 0; i < n; i++) s.push_back(rnd(g, 0, k - 1));
    if (sh == 1) { int p = rnd(g, 1, 4); V b; for (int i = 0; i < p; i++) b.push_back(rnd(g, 0, k - 1)); for (int i = 0; i < n; i++) s.push_back(b[i % p]); if (n && g() % 2) s[g() % n] = rnd(g, 0, k - 1); }
    if (sh == 2) { V a{0}, b{0, k > 1 ? 1 : 0}; while ((int)b.size() < n) { V c = b; c.insert(c.end(), a.begin(), a.end()); a = b; b = c; } s.assign(b.begin(), b.begin() + std::min<int>(n, b.size())); }
    if (sh == 3) while ((int)s.size() < n) { ll c = rnd(g, 0, k - 1); int r = rnd(g, 1, 5); while (r-- && (int)s.size() < n) s.push_back(c); }
    if (sh == 4) { for (int i = 0; i < n; i++) s.push_back(rnd(g, 0, k - 1)); for (int i = 0; i < n / 2; i++) s[n - 1 - i] = s[i]; }
    if (sh == 5) { for (int i = 0; i < n; i++) s.push_back(k - 1); if (n && g() % 3) s[g() % n] = 0; }
    s.resize(n); return s;
}
VV allstr(int k, int n) { VV r; ll c = 1; for (int i = 0; i < n; i++) c *= k; for (ll x = 0; x < c; x++) { V s; ll y = x; for (int i = 0; i < n; i++) { s.push_back(y % k); y /= k; } r.push_back(s); } return r; }
void kmp(const V& t, const V& p, int stop, int ty) {
    V vis; size_t r; int left = stop; auto cb = [&](size_t x) { vis.push_back(x); return --left != 0; };
    if (ty == 0) r = altruct::search::kmp_search(t.begin(), t.size(), p.begin(), p.size(), cb);
    else if (ty == 1) { std::string a, b; for (ll x : t) a += char('a' + x); for (ll x : p) b += char('a' + x); r = altruct::search::kmp_search(a.begin(), a.size(), b.begin(), b.size(), cb); }
    else { std::vector<int> a(t.begin(), t.end()), b(p.begin(), p.end()); r = altruct::search::kmp_search(a.data(), a.size(), b.data(), b.size(), cb); }
    F("kmp").v("t", t).v("p", p).i("stop", stop).v("vis", vis).i("r", r).put();
}
template<class T> void aho(const VV& d, const V& t) {
    T a; for (auto& w : d) { if (t.size() & 1) a.insert(w.begin(), w.end()); else { std::string s; for (ll x : w) s += char('p' + x); a.insert(s.begin(), s.end(), [](char c) { return c - 'p'; }); } }
    a.build(); V per; VV st; auto cur = a.root();
    if (t.size() & 2) a.count_matches(t.begin(), t.end());
    for (ll x : t) { cur = a.move_next(cur, (typename T::alpha_t)x); per.push_back(a[cur].word_cnt); V sp; for (auto y = cur; y != a.root(); y = a[y].parent) sp.insert(sp.begin(), a[y].let); st.push_back(sp); }
    F("aho").vv("d", d).v("t", t).v("per", per).vv("st", st).i("total", a.count_matches(t.begin(), t.end())).put();
}
template<class A, class I> void sa(Rng& g, const V& s, bool all) {
    std::vector<A> q(s.begin(), s.end()); int n = s.size();
    std::unique_ptr<suffix_array<A, I>> o(new suffix_array<A, I>(q.begin(), q.end())); suffix_array<A, I> a(*o); o.reset(new suffix_array<A, I>(q.begin(), q.begin() + n / 2));
    V x, y; VV l, c; for (int i = 0; i <= n; i++) { x.push_back(a.get_kth_suffix(i)); y.push_back(a.get_suffix_order(i)); }
    if (all) for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) l.push_back({i, j, a.get_lcp(i, j)});
    else for (int k = 0; k < 150; k++) { int i = rnd(g, 0, n), j = g() % 2 ? rnd(g, 0, n) : std::min<int>(n, i + rnd(g, 0, 3)); l.push_back({i, j, a.get_lcp(i, j)}); }
    for (int k = 0; k < 40; k++) { ll b1 = rnd(g, 0, n), e1 = rnd(g, b1, n), b2 = g() % 3 ? rnd(g, 0, n) : b1, e2 = rnd(g, b2, n); c.push_back({b1, e1, b2, e2, a.compare_substrings(b1, e1, b2, e2)}); }
    F("sa").v("s", s).v("sa", x).v("ord", y).vv("lcp", l).vv("cmp", c).put();
}
template<class C, int B> void rmq(Rng& g, const V& v, bool gt, bool all) {
    typedef direct_rmq<int, C, int, B> T; std::unique_ptr<T> o(new T()); int n = v.size();
    if (g() % 3 == 0) { std::vector<int> z(rnd(g, 1, 80)); for (auto& x : z) x = rnd(g, -3, 3); o->build(z.begin(), z.end()); }
    o->build(v.begin(), v.end()); T a(*o); { V w(v.rbegin(), v.rend()); o->build(w.begin(), w.end()); o.reset(); }
    VV q; auto ask = [&](int b, int e) { ll i = a.get_index(b, e), w = a.get_value(b, e); q.push_back({b, e, i, w}); };
    if (all) for (int b = 0; b < n; b++) for (int e = b + 1; e <= n; e++) ask(b, e);
    else for (int k = 0; k < 200; k++) { int b = rnd(g, 0, n - 1), e = g() % 3 ? rnd(g, b + 1, n) : std::min<int>(n, b + rnd(g, 1, 20)); ask(b, e); }
    F("rmq").v("a", v).i("gt", gt).vv("q", q).put();
}
template<class T> void pal(const V& s, int how) {
    T p; VV st; std::string w; auto ord = [](char c) { return c - 'a'; };
    for (ll x : s) w += char('a' + x);
    size_t k = 0; for (; k < s.size(); k++) { ll r = how == 0 ? p.add((uint8_t)s[k]) : how == 1 ? p.add(w[k], ord) : p.add_all(w.begin() + k, w.begin() + k + 1, ord); st.push_back({r, p.distinct(), (ll)p.total(), (ll)p[p.longest_suffix()].len}); }
    T u(w.begin(), w.end(), ord); if (u.total() != p.total() || u.distinct() != p.distinct() || u.size() != p.size()) st.push_back({-1});
    p.propagate(); std::string nd = "["; bool f = true;
    for (auto i = p.first(); i < p.size(); i++) { auto& x = p[i]; auto& y = p[x.suff];
        VV ch; for (int c = 0; c < 4; c++) if (x.next[c]) { auto& z = p[x.next[c]]; ch.push_back({c, (ll)z.pos, (ll)z.len}); }
        nd += (f ? "[" : ",[") + num(x.len) + "," + num(x.pos) + "," + num(x.cnt) + "," + num(x.depth) + ",[" + num(y.pos) + "," + num(y.len) + "]," + arr2(ch) + "]"; f = false; }
    F("pal").v("s", s).vv("steps", st).raw("nodes", nd + "]").put();
}
void big_sa(Rng& g) {
    ll p = rnd(g, 1, 5), m = rnd(g, 1, 70000 / p), n = p * m; std::vector<char> q(n); for (ll i = 0; i < n; i++) q[i] = i % p;
    suffix_array<char, int> a(q.begin(), q.end()); VV k, o, l, c;
    for (int t = 0; t < 60; t++) { ll i = rnd(g, 0, n), j = g() % 2 ? rnd(g, 0, n) : std::min(n, i + p * rnd(g, 0, m)), e = rnd(g, i, n), f = g() % 2 ? rnd(g, j, n) : std::min(n, j + e - i);
        k.push_back({i, a.get_kth_suffix(i)}); o.push_back({i, a.get_suffix_order(i)}); l.push_back({i, j, a.get_lcp(i, j)}); c.push_back({i, e, j, f, a.compare_substrings(i, e, j, f)}); }
    F("sabig").i("p", p).i("m", m).vv("kth", k).vv("ord", o).vv("lcp", l).vv("cmp", c).put();
}
void big_kmp(Rng& g) {
    ll p = rnd(g, 1, 6), m = rnd(g, 1, 200000 / p), n = p * m, c = rnd(g, 0, p - 1), L = g() % 2 ? rnd(g, 1, n) : rnd(g, 1, 300); if (L > n) L = n;
    std::vector<uint8_t> t(n), w(L); for (ll i = 0; i < n; i++) t[i] = i % p; for (ll i = 0; i < L; i++) w[i] = (c + i) % p;
    ll cnt = 0, first = -1, last = -1, step = 0; size_t r = altruct::search::kmp_search(t.begin(), t.size(), w.begin(), w.size(), [&](size_t x) { if (first < 0) first = x; else if (cnt == 1) step = (ll)x - last; else if ((ll)x - last != step) step = -1; last = x; cnt++; return true; });
    F("kmpbig").i("p", p).i("m", m).i("c", c).i("len", L).i("n", cnt).i("first", first).i("last", last).i("step", step).i("r", r).put();
}
template<class T> void big_aho(Rng& g) {
    ll p = rnd(g, 1, 3), m = rnd(g, 20000, 60000) / p, n = p * m; std::vector<uint8_t> t(n); for (ll i = 0; i < n; i++) t[i] = i % p;
    T a; VV ws; int k = rnd(g, 1, 5); for (int i = 0; i < k; i++) { ll c = rnd(g, 0, p - 1), L = g() % 3 ? rnd(g, 1, 40) : rnd(g, 40, 400), w = i == 0 ? 65000 : rnd(g, 1, 30); if (i == 0) L = rnd(g, 1, 8); std::vector<uint8_t> s(L); for (ll j = 0; j < L; j++) s[j] = (c + j) % p; for (ll j = 0; j < w; j++) a.insert(s.begin(), s.end()); ws.push_back({c, L, w}); }
    a.build(); F("ahobig").i("p", p).i("m", m).vv("ws", ws).b("total", a.count_matches(t.begin(), t.end())).put();
}
template<class T> void big_pal(Rng& g) {
    ll n = rnd(g, 66000, 90000); std::vector<uint8_t> t(n, 1); T p; auto id = [](uint8_t x) { return x; };
    ll h = rnd(g, 0, n); p.add_all(t.begin(), t.begin() + h, id); p.add_all(t.begin() + h, t.end(), id); ll d = p.distinct(), tot = p.total(); p.propagate();
    VV nd; for (int k = 0; k < 40; k++) { auto i = p.first() + rnd(g, 0, n - 1); auto& x = p[i]; nd.push_back({(ll)x.len, (ll)x.cnt, (ll)x.pos, (ll)x.depth}); }
    F("palbig").i("n", n).i("distinct", d).b("total", tot).vv("nodes", nd).put();
}
template<class C, int B, class I> void big_rmq(Rng& g, bool gt) {
    ll n = g() % 3 ? rnd(g, 1, 1 << 16) : rnd(g, 1 << 16, 1 << 20), d = rnd(g, -5, 5); std::vector<int> v(n, d); V at; VV ex; int k = rnd(g, 0, 60);
    for (int i = 0; i < k; i++) { ll x = g() % 2 ? rnd(g, 0, n - 1) : std::min<ll>(n - 1, (ll)B * rnd(g, 0, n / B) + rnd(g, 0, 1)); bool dup = false; for (auto& y : ex) if (y[0] == x) dup = true; if (dup) continue; int w = rnd(g, -9, 9); v[x] = w; ex.push_back({x, w}); at.push_back(x); }
    direct_rmq<int, C, I, B> a; a.build(v.begin(), v.end()); VV q;
    for (int t = 0; t < 150; t++) { ll b = g() % 2 || at.empty() ? rnd(g, 0, n - 1) : at[g() % at.size()] + rnd(g, 0, 1), e; if (b >= n) b = n - 1; int c = rnd(g, 0, 2); e = c == 0 ? rnd(g, b + 1, n) : c == 1 ? std::min<ll>(n, b + (1LL << rnd(g, 0, 20)) * B + rnd(g, -1, 2 * B)) : at.empty() ? n : at[g() % at.size()] + rnd(g, 0, 1); if (e <= b) e = b + 1; q.push_back({b, e, (ll)a.get_index(b, e), (ll)a.get_value(b, e)}); }
    F("rmqbig").i("d", d).vv("ex", ex).i("gt", gt).vv("q", q).put();
}
int main(int argc, char** argv) {
    std::string m = argv[1]; Rng g(atoll(argv[2])); int n = atoi(argv[3]); int part = argc > 4 ? atoi(argv[4]) : 0;
    setvbuf(stdout, 0, _IOLBF, 0);
    if (m == "kmpbig") for (int i = 0; i < n; i++) { big_kmp(g); if (i % 10 == 0) { if (g() % 2) big_aho<aho_corasick_trie<3>>(g); else big_aho<aho_corasick_trie<26, int64_t, int>>(g); } }
    if (m == "sabig") for (int i = 0; i < n; i++) { big_sa(g); switch (g() % 4) { case 0: big_rmq<std::less<int>, 8, int>(g, 0); break; case 1: big_rmq<std::greater<int>, 1, int>(g, 1); break; case 2: big_rmq<std::less<int>, 3, int64_t>(g, 0); break; default: big_rmq<std::less<int>, 1, int>(g, 0); } }
    if (m == "palbig") for (int i = 0; i < n; i++) if (i & 1) big_pal<palindrome_tree<4, int64_t>>(g); else big_pal<palindrome_tree<>>(g);
    if (m == "kmp") {
        if (part == 0) for (int a = 0; a <= 7; a++) for (auto& t : allstr(2, a)) for (int b = 1; b <= 3; b++) for (auto& p : allstr(2, b)) kmp(t, p, (a + b) % 3, (a + b) % 3);
        for (int i = 0; i < n; i++) { int k = rnd(g, 1, 3); V t = mkstr(g, rnd(g, 0, 60), k), p; int c = rnd(g, 0, 3), L = rnd(g, 1, 12);
            if (c == 0 || t.empty()) p = mkstr(g, L, k); else { int b = rnd(g, 0, t.size() - 1), e = std::min<int>(t.size(), b + L); p.assign(t.begin() + b, t.begin() + e); if (c == 1 && g() % 2) p[g() % p.size()] = rnd(g, 0, k - 1); if (c == 2) p.insert(p.end(), p.begin(), p.end()); }
            kmp(t, p, g() % 3 ? 0 : rnd(g, 1, 4), rnd(g, 0, 2)); }
    }
    if (m == "aho") for (int i = 0; i < n; i++) { int k = rnd(g, 1, 3), c = rnd(g, 0, 6); VV d; V t = mkstr(g, i % 8 == 3 ? rnd(g, 30, 90) : rnd(g, 0, 30), k); int ml = i % 4 == 3 ? 25 : 6;
        for (int j = 0; j < c; j++) { V w = mkstr(g, rnd(g, 1, ml), k); if (!t.empty() && g() % 2) { int b = rnd(g, 0, t.size() - 1); w.assign(t.begin() + b, t.begin() + std::min<int>(t.size(), b + rnd(g, 1, ml))); } d.push_back(w); if (g() % 5 == 0) d.push_back(w); if (w.size() > 1 && g() % 3 == 0) d.push_back(V(w.begin() + 1, w.end())); }
        if (i & 1) aho<aho_corasick_trie<3>>(d, t); else aho<aho_corasick_trie<4, int64_t, int>>(d, t); }
    if (m == "sa") {
        if (part == 0) { for (int a = 0; a <= 7; a++) for (auto& t : allstr(2, a)) sa<char, int>(g, t, true); for (int a = 0; a <= 4; a++) for (auto& t : allstr(3, a)) sa<uint8_t, int>(g, t, true); }
        for (int i = 0; i < n; i++) { int k = g() % 2 ? rnd(g, 1, 3) : rnd(g, 1, 100); int L = i % 12 == 0 ? rnd(g, 100, 400) : rnd(g, 0, 60); V s = mkstr(g, L, k); if (g() % 2) sa<char, int>(g, s, L < 12); else { if (g() % 2) for (auto& x : s) x *= 3; sa<int, int64_t>(g, s, L < 12); } }
    }
    if (m == "rmq") for (int i = 0; i < n; i++) { int L = i % 10 == 0 ? rnd(g, 100, 500) : rnd(g, 1, 70), r = g() % 2 ? 2 : 1000; V v; int sh = rnd(g, 0, 3); for (int j = 0; j < L; j++) v.push_back(sh == 0 ? rnd(g, -r, r) : sh == 1 ? j : sh == 2 ? -j : rnd(g, 5, 8));
        switch (rnd(g, 0, 5)) { case 0: rmq<std::less<int>, 8>(g, v, 0, L < 25); break; case 1: rmq<std::greater<int>, 8>(g, v, 1, L < 25); break; case 2: rmq<std::less<int>, 1>(g, v, 0, L < 25); break;
            case 3: rmq<std::less<int>, 2>(g, v, 0, L < 25); break; case 4: rmq<std::greater<int>, 3>(g, v, 1, L < 25); break; default: rmq<std::less<int>, 5>(g, v, 0, L < 25); } }
    if (m == "pal") {
        if (part == 0) { for (int a = 0; a <= 8; a++) for (auto& t : allstr(2, a)) pal<palindrome_tree<>>(t, a % 3); for (int a = 0; a <= 5; a++) for (auto& t : allstr(3, a)) pal<palindrome_tree<4, int64_t>>(t, a % 3); }
        for (int i = 0; i < n; i++) { V s = mkstr(g, i % 40 == 7 ? rnd(g, 30, 64) : rnd(g, 6, 24), rnd(g, 1, 4)); if (i & 1) pal<palindrome_tree<4, int64_t>>(s, i % 3); else pal<palindrome_tree<>>(s, i % 3); }
    }
}
