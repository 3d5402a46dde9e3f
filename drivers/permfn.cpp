#include "vf.h"
#include <algorithm>
#include <list>
#include "altruct/structure/math/permutation.h"
#include "altruct/algorithm/math/combinatorics.h"
using namespace vf; namespace M = altruct::math; typedef std::vector<ll> V;
template<class I> V cv(const std::vector<I>& v) { return V(v.begin(), v.end()); }
template<class I> std::vector<V> cc(const std::vector<std::vector<I>>& v) { std::vector<V> r; for (auto& x : v) r.push_back(cv(x)); return r; }
template<class I> struct PT { typedef M::permutation<I> P; typedef typename P::line_t Ln; typedef typename P::cycles_t Cy; typedef typename P::transpositions_t Ts;
    static Ln rline(Rng& g, int n) { Ln l(n); for (int i = 0; i < n; i++) l[i] = i; int k = g() % 5; if (k < 2) std::shuffle(l.begin(), l.end(), g); else if (k == 2) { int a = g() % 4; while (a-- && n) std::swap(l[g() % n], l[g() % n]); } else { // many cycles of equal length
            int len = 1 + g() % 4; std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i; std::shuffle(o.begin(), o.end(), g); for (int i = 0; i + len <= n;) { for (int j = 0; j < len; j++) l[o[i + j]] = o[i + (j + 1) % len]; i += len; if (g() % 6 == 0) len = 1 + g() % 4; } } return l; }
    // some cycle notation: any order, any starting points, 1-cycles or not
    static Cy rcyc(Rng& g, const Ln& l) { Cy c = g() % 2 ? P::line_to_cycles(l) : P::all_cycles(P::line_to_cycles(l), (I)l.size()); std::shuffle(c.begin(), c.end(), g); for (auto& x : c) std::rotate(x.begin(), x.begin() + g() % x.size(), x.end()); return c; }
    static P make(Rng& g, const Ln& l) { switch (g() % 3) { case 0: return P(l); case 1: return P(rcyc(g, l), (I)l.size()); default: return P(P::line_to_transpositions(l), (I)l.size()); } }
    static void run(Rng& g, int cnt, bool sizes) { for (int k = 0; k < cnt; k++) {
        int n = g() % 4 ? rnd(g, 1, 12) : rnd(g, 0, 30); Ln l = rline(g, n), m = g() % 5 ? rline(g, n) : l; P p = make(g, l), q = make(g, m); V L = cv(l), Mm = cv(m);
        { P a(l); F("line").v("p", L).i("n", a.n).v("r", cv(a.to_line())).vv("cyc", cc(a.to_cycles())).vv("all", cc(a.to_all_cycles())).vv("scyc", cc(P::line_to_cycles(l))).put(); }
        F("trans").v("p", L).pv("t", p.to_transpositions()).put(); F("trans").v("p", L).pv("t", P::line_to_transpositions(l)).put();
        F("mul").v("p", L).v("q", Mm).v("r", cv((p * q).to_line())).put(); F("div").v("p", L).v("q", Mm).v("r", cv((p / q).to_line())).put(); F("inv").v("p", L).v("r", cv(p.inv().to_line())).put();
        { P t = p; if (g() % 2) { t *= q; F("mul").v("p", L).v("q", Mm).v("r", cv(t.to_line())).put(); t = p; t *= t; F("mul").v("p", L).v("q", L).v("r", cv(t.to_line())).put(); } else { t /= q; F("div").v("p", L).v("q", Mm).v("r", cv(t.to_line())).put(); } }
        int64_t T = g() % 3 ? rnd(g, -6, 30) : (int64_t)(g() >> (1 + g() % 63)); if (g() % 4 == 0 && T != 0) T = -T; P pw = p.pow(T); F("pow").v("p", L).b("T", T).v("r", cv(pw.to_line())).put();
        { V s; int z = rnd(g, 0, n + 3); typename P::line_t li; for (int i = 0; i < z; i++) { ll x = rnd(g, 0, 99); s.push_back(x); li.push_back((I)x); } p.apply_to(li); F("apply").v("p", L).v("s", s).v("r", cv(li)).put(); }
        auto cmp = [&](const P& a, const P& b) { F("cmp").v("p", cv(a.to_line())).v("q", cv(b.to_line())).i("eq", a == b).i("ne", a != b).i("lt", a < b).i("gt", a > b).i("le", a <= b).i("ge", a >= b).put(); };
        cmp(p, q); cmp(p, make(g, l)); cmp(p * p, p.pow(2)); cmp(p.inv(), p.pow(-1)); cmp(p.pow(3), p * p * p); cmp(pw, P(pw.to_line())); cmp(p.inv(), P(p.inv().to_line())); { Ln s = l; s.push_back((I)n); cmp(p, P(s)); }
        F("id").i("n", n).v("r", cv(M::identityOf(p).to_line())).put(); F("id").i("n", n).v("r", cv(P((I)n).to_line())).put();
        { int t = rnd(g, 1, 12), par = rnd(g, -1, 1); if (g() % 8 == 0) t = 16 + g() % 40; if (n == 0) par = -1; P b = g() % 2 ? p : p.pow(t); P r = b.root(t, par); F("root").v("p", cv(b.to_line())).i("T", t).i("par", par).v("r", cv(r.to_line())).put(); if (r.n) { cmp(r.pow(t), b); cmp(r, P(r.to_line())); } }
        szs(g, l, n, std::integral_constant<bool, sizeof(I) >= 4>()); } }
    static void szs(Rng& g, const Ln& l, int n, std::false_type) {}
    static void szs(Rng& g, const Ln& l, int n, std::true_type) {
        { Cy c = rcyc(g, l); F("ofcyc").vv("c", cc(c)).i("n", n).v("r", cv(P::cycles_to_line(c, (I)n))).i("size", P::size(c)).put(); }
        if (n) { Ts t; for (int j = rnd(g, 0, 12); j > 0; j--) t.push_back({(I)rnd(g, 0, n - 1), (I)rnd(g, 0, n - 1)}); P p(t, (I)n); F("oftrans").pv("t", t).i("n", n).v("r", cv(g() % 2 ? p.to_line() : P::transpositions_to_line(t, (I)n))).i("size", P::size(t)).vv("cyc", cc(P::transpositions_to_cycles(t))).put(); } }
};
int main(int argc, char** argv) {
    Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    switch (part) { case 0: PT<int>::run(g, n, true); break; case 1: PT<int64_t>::run(g, n, true); break; case 2: PT<uint8_t>::run(g, n / 2, false); PT<short>::run(g, n / 2, false); break;
        case 3: { int lim = argc > 4 ? atoi(argv[4]) : 5; for (int m = 0; m <= lim; m++) { std::vector<int> l(m); for (int i = 0; i < m; i++) l[i] = i; typedef M::permutation<int> P; do { P p(l); for (int t = 1; t <= 6; t++) for (int par = m ? -1 : 0; par <= 1; par++) { P r = p.root(t, m ? par : -1); F("root").v("p", l).i("T", t).i("par", m ? par : -1).v("r", r.to_line()).put(); } } while (std::next_permutation(l.begin(), l.end())); } } break;
        case 4: { // combinations of multisets: whole enumerations
            for (int k = 0; k < n; k++) { int m = rnd(g, 0, 7), d = rnd(g, 1, 8), c = rnd(g, 0, m); V s; for (int i = 0; i < m; i++) s.push_back(d == 8 ? i : rnd(g, 0, d - 1)); std::sort(s.begin(), s.end()); for (int it = 0; it < 40; it++) { V r = s; bool more; if (g() % 2) more = M::next_combination(r.begin(), r.begin() + c, r.end()); else { r = s; more = M::next_combination(r.data(), r.data() + c, r.data() + m); } F("ncomb").v("s", s).i("k", c).i("more", more).v("r", r).put(); s = r; if (!more) break; } } } break;
        case 5: { for (int m = 0; m <= (n < 500 ? 8 : 11); m++) for (int len = 1; len <= m + 2; len++) { V s(len, 0); s[0] = m; for (int it = 0; it < 60; it++) { V r = s; bool more; int w = g() % 3; if (w == 0) more = M::next_partition(r.begin(), r.end()); else if (w == 1) { std::list<int> q(r.begin(), r.end()); more = M::next_partition(q.begin(), q.end()); r.assign(q.begin(), q.end()); } else { std::vector<unsigned> q(r.begin(), r.end()); more = M::next_partition(q.begin(), q.end()); r.assign(q.begin(), q.end()); } F("npart").v("s", s).i("more", more).v("r", r).put(); s = r; if (!more) break; } } } break;
        default: { for (int m = 0; m <= 5; m++) { int f = 1; for (int i = 2; i <= m; i++) f *= i; for (int o = 0; o < f; o++) { V s; for (int i = 0; i < m; i++) s.push_back(i * 2); V r = s; if (o % 2) M::nth_permutation(r.begin(), r.end(), o); else M::nth_permutation(r.begin(), r.end(), (uint64_t)o); F("nth").v("s", s).b("o", o).v("r", r).put(); } }
            for (int k = 0; k < n; k++) { int m = rnd(g, 1, 30); V s; for (int i = 0; i < m; i++) s.push_back(i); V r = s; __int128 f = 1; for (int i = 2; i <= m && f < (__int128)1 << 64; i++) f *= i; 
                if (g() % 2) { ll o = f > INT64_MAX ? (ll)(g() >> 1) : (ll)(g() % (uint64_t)f); if (g() % 4 == 0) o = f > INT64_MAX ? INT64_MAX - (ll)(g() % 3) : (ll)f - 1; M::nth_permutation(r.begin(), r.end(), o); F("nth").v("s", s).b("o", o).v("r", r).put(); }
                else { int o = f > INT32_MAX ? (int)(g() >> 33) : (int)(g() % (uint64_t)f); if (g() % 4 == 0) o = f > INT32_MAX ? INT32_MAX - (int)(g() % 3) : (int)f - 1; M::nth_permutation(r.begin(), r.end(), o); F("nth").v("s", s).b("o", o).v("r", r).put(); } } } }
}
