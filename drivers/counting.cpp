#include "bt.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/algorithm/math/comb_primes.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/algorithm/math/reduce.h"
#include <set>
#include <list>
using namespace vf; using namespace altruct::math;
// every other call leaves the identity to its default where that is the right one
template<class T> bool dfl(const T& e) { static int c = 0; return e == T(1) && (++c & 1); }
template<class T, uint64_t ID, int ST> bool dfl(const modulo<T, ID, ST>& e) { static int c = 0; modulo<T, ID, ST> d(1); return e.M() == d.M() && e == d && (++c & 1); }
typedef modulo<int, 1000000007> M7; typedef modulo<ll, 1009> M9; typedef moduloX<int> MX; typedef moduloX<ll> MY; typedef fraction<ll> Q;
ll gmo = 0;
// an element as <<numerator, denominator>>
S v2(ll p, ll q) { return "[" + s(p) + "," + s(q) + "]"; } S val(ll v) { return v2(v, 1); } S val(int v) { return v2(v, 1); } S val(M7 v) { return v2(v.v, 1); } S val(M9 v) { return v2(v.v, 1); } S val(MX v) { return v2(v.M() == gmo ? v.v : -1, 1); } S val(MY v) { return v2(v.M() == gmo ? v.v : -1, 1); } S val(Q v) { return v2(v.p, v.q); }
template<class C> S vals(const C& v) { S r = "["; for (auto& x : v) r += (r.size() > 1 ? "," : "") + val(x); return r + "]"; }
template<class T> S tabs(const V<V<T>>& v) { S r = "["; for (auto& x : v) r += (r.size() > 1 ? "," : "") + vals(x); return r + "]"; }
S is(const V<int>& v) { S r = "["; for (int x : v) r += (r.size() > 1 ? "," : "") + i32(x); return r + "]"; }
S mo() { return s(gmo); } S k(const char* c) { return S("\"") + c + "\""; }
template<class T> T id(ll m); template<> ll id<ll>(ll) { gmo = 0; return 1; } template<> int id<int>(ll) { gmo = 0; return 1; } template<> M7 id<M7>(ll) { gmo = 1000000007; return M7(1); } template<> M9 id<M9>(ll) { gmo = 1009; return M9(1); } template<> MX id<MX>(ll m) { gmo = m; return MX(1, (int)m); } template<> MY id<MY>(ll m) { gmo = m; return MY(1, m); } template<> Q id<Q>(ll) { gmo = 0; return Q(1); }
template<class T> struct ex { enum { v = 1 }; }; template<> struct ex<ll> { enum { v = 0 }; }; template<> struct ex<int> { enum { v = 0 }; };
template<class T> T rnde(Rng& g, T e, ll lim = 2000) { return castOf(e, gmo ? (ll)(g() % (ull)lim) : (ll)(g() % 21) - 10); }
template<> Q rnde<Q>(Rng& g, Q, ll) { return Q((ll)(g() % 21) - 10, 1 + (ll)(g() % 6)); }
// ---- look-up tables
template<class T> void ranges(Rng& g, int n, ll m, bool field) { T e = id<T>(m), z = zeroOf(e), st = rnde(g, e); if (g() % 5 == 0) st = e; P("range", mo(), i32(n), val(st), vals(dfl(st) ? range<T>(n) : range<T>(n, st))); { std::list<T> l(n, e); range(l.begin(), l.end(), st); P("range", mo(), i32(n), val(st), vals(l)); }
    if (gmo || n < 12) { P("powers", mo(), i32(n), val(st), vals(powers<T>(n, st))); } if (gmo || n <= 20) { auto f = (dfl(e) ? make_factorials<T>(n) : make_factorials<T>(n, e)); P("facts", mo(), i32(n), vals(f)); T t = (dfl(e) ? factorial<T>(n > 0 ? n - 1 : 0) : factorial<T>(n > 0 ? n - 1 : 0, e)); P("fact", mo(), i32(n > 0 ? n - 1 : 0), val(t)); }
    auto tab = [&] { V<T> v; for (int i = 0; i < n; i++) v.push_back(rnde(g, e)); return v; }; V<T> a = tab(), b = a; int p = g() % (gmo ? 50 : 5); power(b.begin(), b.end(), p); P("power", mo(), i32(p), vals(a), vals(b));
    b = a; altruct::math::negate(b.begin(), b.end()); P("neg", mo(), vals(a), vals(b)); b = a; alternate(b.begin(), b.end()); P("alt", mo(), vals(a), vals(b)); if (gmo || !field || n < 12) { b = a; altruct::math::accumulate(b.begin(), b.end()); P("acc", mo(), vals(a), vals(b)); } b = a; differentiate(b.begin(), b.end()); P("diff", mo(), vals(a), vals(b));
    if (!field) return; if (gmo || n <= 20) { P("ifacts", mo(), i32(n), i32(-1), vals((dfl(e) ? make_inv_factorials<T>(n) : make_inv_factorials<T>(n, e)))); int kk = g() % (gmo ? 60 : 15); T fk = e; for (int i = 2; i <= kk; i++) fk = fk * castOf(e, i); P("ifacts", mo(), i32(n), i32(kk), vals(make_inv_factorials<T>(n, fk, kk)));
        P("invs", mo(), i32(n), vals((dfl(e) ? make_inverses<T>(n) : make_inverses<T>(n, e)))); if (n) { auto w = (dfl(e) ? make_inv_factorials<T>(n) : make_inv_factorials<T>(n, e)); (dfl(e) ? inverses_from_ifact(w.begin(), w.end()) : inverses_from_ifact(w.begin(), w.end(), e)); P("invs", mo(), i32(n), vals(w));
            factorial_holder<T> h(n, e); P("facts", mo(), i32(n), vals(h.fact())); P("ifacts", mo(), i32(n), i32(-1), vals(h.ifact())); P("invs", mo(), i32(n), vals(h.inv())); P("size", i32(n), i32(h.size())); for (int i = 0; i < 6; i++) { int x = g() % n, y = g() % (n + 2); P("bin", mo(), i32(x), i32(y), val(h.bin(x, y))); P("facts1", mo(), i32(x), val(h.fact(x)), val(h.ifact(x)), val(h.inv(x))); } } }
    a = tab(); for (auto& x : a) if (g() % 4 == 0) x = z; b = a; (dfl(e) ? invert(b.begin(), b.end()) : invert(b.begin(), b.end(), e)); P("inv", mo(), vals(a), vals(b)); if (gmo || n < 6) { for (auto& x : a) while (x == z || (gmo && !(x * (e / x) == e))) x = rnde(g, e, gmo); b = a; (dfl(e) ? invert_field(b.begin(), b.end()) : invert_field(b.begin(), b.end(), e)); P("inv", mo(), vals(a), vals(b)); } }
// ---- counting sequences
template<class T> void tables(Rng& g, int n, int kk, ll m) { T e = id<T>(m); P("stab", k("s1"), mo(), i32(n), i32(kk), tabs((dfl(e) ? stirling_s1_all<T>(n, kk) : stirling_s1_all<T>(n, kk, e)))); P("stab", k("s2"), mo(), i32(n), i32(kk), tabs((dfl(e) ? stirling_s2_all<T>(n, kk) : stirling_s2_all<T>(n, kk, e)))); }
template<class T> void stirl(Rng& g, int n, ll m) { T e = id<T>(m); if (gmo || n < 14) P("srow", k("s1"), mo(), i32(n), vals((dfl(e) ? stirling_s1_all_k_for_n<T>(n) : stirling_s1_all_k_for_n<T>(n, e)))); int kk = g() % (n + 2);
    if (ex<T>::v && (gmo || n < 10)) { P("srow", k("s2"), mo(), i32(n), vals((dfl(e) ? stirling_s2_all_k_for_n<T>(n) : stirling_s2_all_k_for_n<T>(n, e)))); if (n) { P("scol", k("s1"), mo(), i32(n), i32(kk), vals((dfl(e) ? stirling_s1_all_n_for_k<T>(n, kk) : stirling_s1_all_n_for_k<T>(n, kk, e)))); P("scol", k("s2"), mo(), i32(n), i32(kk), vals((dfl(e) ? stirling_s2_all_n_for_k<T>(n, kk) : stirling_s2_all_n_for_k<T>(n, kk, e)))); } P("s", k("s1"), mo(), i32(n), i32(kk), val((dfl(e) ? stirling_s1<T>(n, kk) : stirling_s1<T>(n, kk, e)))); }
    if (gmo || n < 12) { int y = (int)(g() % (n + 4)) - 1; P("s", k("s2"), mo(), i32(n), i32(y), val((dfl(e) ? stirling_s2<T, int>(n, y) : stirling_s2<T, int>(n, y, e)))); P("s", k("s2"), mo(), i32(n), i32(y), val((dfl(e) ? stirling_s2<T, ll>(n, y) : stirling_s2<T, ll>(n, y, e)))); } }
template<class T> void s2big(Rng& g, ll m) { T e = id<T>(m); ll n = g() % 3 ? g() >> (1 + g() % 50) : (g() % 100); int y = g() % 30; if (y > n) y = (int)n; P("s2big", mo(), s(n), i32(y), val((dfl(e) ? stirling_s2<T, ll>(n, y) : stirling_s2<T, ll>(n, y, e)))); }
template<class T> void parts(Rng& g, int n, ll m) { T e = id<T>(m); P("part", k("euler"), mo(), i32(n), vals(euler_function<T>(n, e))); P("part", k("p"), mo(), i32(n), vals((dfl(e) ? partitions_p_slow<T>(n) : partitions_p_slow<T>(n, e)))); P("part", k("q"), mo(), i32(n), vals((dfl(e) ? partitions_p_distinct_slow<T>(n) : partitions_p_distinct_slow<T>(n, e)))); if (ex<T>::v && (gmo || n < 40)) { P("part", k("p"), mo(), i32(n), vals((dfl(e) ? partitions_p<T>(n) : partitions_p<T>(n, e)))); P("part", k("q"), mo(), i32(n), vals((dfl(e) ? partitions_p_distinct<T>(n) : partitions_p_distinct<T>(n, e)))); P("part", k("odd"), mo(), i32(n), vals((dfl(e) ? partitions_p_distinct_odd<T>(n) : partitions_p_distinct_odd<T>(n, e)))); } }
// ---- binomials modulo prime powers
template<class R, class I> void combpp(Rng& g, int p, int e, int N, int cnt) { R pe = powT<R>(p, e); auto tb = factorials_mod_pp_skipped<R>(std::max((int)pe, p * e), p, e), ts = factorials_mod_pp_skipped<R>(p * e, p, e); V<R> t0 = factorials_mod_pp_skipped<R>(g() % 30, p, e); S w = "["; for (auto x : t0) w += (w.size() > 1 ? "," : "") + s((ll)x); P("fsktab", i32((int)t0.size() - 1), i32(p), i32(e), w + "]");
    auto R2 = [](std::pair<R, I> r) { return "[" + s((ll)r.first) + "," + s((ll)r.second) + "]"; };
    auto fac = [&](I n, bool slow) { if (slow) { P("fsk", i32(p), i32(e), s(n), R2(factorial_mod_pp_skipped_slow<R, I>(n, p, e))); P("fred", i32(p), i32(e), s(n), R2(factorial_mod_pp_reduced_slow<R, I>(n, p, e))); } P("fred", i32(p), i32(e), s(n), R2(factorial_mod_pp_reduced_2<R, I>(n, p, e, tb.data()))); P("fsk", i32(p), i32(e), s(n), R2(factorial_mod_pp_skipped<R, I>(n, p, e, ts.data()))); P("fred", i32(p), i32(e), s(n), R2(factorial_mod_pp_reduced<R, I>(n, p, e, ts.data()))); };
    auto bin = [&](I n, I kk, bool slow) { if (slow) P("bred", i32(p), i32(e), s(n), s(kk), R2(binomial_mod_pp_reduced_slow<R, I>(n, kk, p, e))); P("bred", i32(p), i32(e), s(n), s(kk), R2(binomial_mod_pp_reduced_2<R, I>(n, kk, p, e, tb.data()))); P("bred", i32(p), i32(e), s(n), s(kk), R2(binomial_mod_pp_reduced<R, I>(n, kk, p, e, ts.data()))); };
    for (int i = 0; i < cnt; i++) { I n = g() % (I)N, kk = g() % (ull)(n + 1); fac(n, true); bin(n, kk, true); } if (N < 100) return; for (int i = 0; i < cnt / 2; i++) { I n = (I)(g() % (sizeof(I) == 4 ? 1000000000ull : 1000000000000000000ull)); n >>= g() % (sizeof(I) == 4 ? 24 : 50); if (g() % 3 == 0) n -= n % pe; if (g() % 5 == 0) n += pe - 1 - n % pe; I kk = g() % (ull)(n + 1); if (g() % 3 == 0) kk >>= g() % 20; fac(n, false); bin(n, kk, kk < 200); } }
void combprimes(Rng& g, int i) { ll ps[] = {2, 3, 5, 7, 11, 13, 97}; ll p = ps[g() % 7], n = i < 300 ? i : g() >> (1 + g() % 60), kk = g() % (ull)(n + 1); P("fpe", s(n), i32(p), s(factorial_prime_exponent<ll>(n, p))); P("bpe", s(n), s(kk), i32(p), s(binomial_prime_exponent<ll>(n, kk, p))); { int n1 = (int)(n % 1000000007), k1 = (int)(kk % (n1 + 1)); P("bpe", s(n1), s(k1), i32(p), s(binomial_prime_exponent<int>(n1, k1, (int)p))); }
    V<ll> v; int c = g() % 5; for (int j = 0; j < c; j++) v.push_back(g() >> (4 + g() % 60)); P("mpe", s(v), i32(p), s(multinomial_prime_exponent<ll>(v, p))); std::set<ll> st(v.begin(), v.end()); P("mpe", s(V<ll>(st.begin(), st.end())), i32(p), s(multinomial_prime_exponent<ll>(st, p))); }
template<class T> void multi(Rng& g, ll m) { T e = id<T>(m); int lim = gmo ? 40 : 10; V<int> v; for (int left = g() % lim; left > 0;) { int x = g() % (left + 1); v.push_back(x); left -= x; if (g() % 5 == 0) break; } P("multi", mo(), is(v), val((dfl(e) ? multinomial<T>(v.begin(), v.end()) : multinomial<T>(v.begin(), v.end(), e)))); P("multi", mo(), is(v), val(multinomial<T, V<int>>(v, e))); V<int> el; int c = 0; V<int> runs; for (int x : v) { if (x) runs.push_back(x); for (int j = 0; j < x; j++) el.push_back(c); c += 1 + g() % 3; } P("multi", mo(), is(runs), val((dfl(e) ? elements_multinomial<T>(el.begin(), el.end()) : elements_multinomial<T>(el.begin(), el.end(), e)))); P("multi", mo(), is(runs), val(elements_multinomial<T, V<int>>(el, e))); }
// ---- recurrences
template<class T> void linrec(Rng& g, int i, ll m) { T e = id<T>(m); int Le = 1 + g() % 5; V<T> c, a; for (int j = 0; j < Le; j++) { c.push_back(gmo ? rnde(g, e) : castOf(e, (ll)(g() % 5) - 2)); a.push_back(rnde(g, e)); if (g() % 4 == 0) c[j] = zeroOf(e); } int n = gmo ? g() % 60 : g() % 14; P("lrec", mo(), vals(c), vals(a), s(n), val(linear_recurrence<T, T>(c, a, n))); P("lrec", mo(), vals(c), vals(a), s(i % 8), val(linear_recurrence<T, T>(c, a, (ll)(i % 8)))); if (gmo) { ll b = g() >> (1 + g() % 60); P("lrec", mo(), vals(c), vals(a), s(b), val(linear_recurrence<T, T>(c, a, b))); }
    V<T> f = a; for (int j = g() % 4; j > 0; j--) f.push_back(rnde(g, e)); P("lnext", mo(), vals(c), vals(f), val(linear_recurrence_next<T, T>(c, f))); auto p = linear_recurrence_coeff_to_poly<T>(c); P("c2p", mo(), vals(c), vals(p.c)); P("p2c", mo(), vals(p.c), vals(linear_recurrence_poly_to_coeff<T>(p))); }
template<class T> void lucas(Rng& g, int i, ll m) { T e = id<T>(m), p = gmo ? rnde(g, e) : castOf(e, (ll)(g() % 7) - 3), q = gmo ? rnde(g, e) : castOf(e, (ll)(g() % 7) - 3); ll n = gmo && i >= 60 ? g() >> (1 + g() % 60) : i % (gmo ? 60 : 19); P("luc", k("f"), mo(), val(e), val(-e), s(n), val((dfl(e) ? fibonacci<T>(n) : fibonacci<T>(n, e)))); P("luc", k("l"), mo(), val(e), val(-e), s(n), val((dfl(e) ? lucas_l<T>(n) : lucas_l<T>(n, e)))); if (n < 15 || gmo) { P("luc", k("u"), mo(), val(p), val(q), s(n), val(lucas_u<T>(p, q, n))); P("luc", k("v"), mo(), val(p), val(q), s(n), val(lucas_v<T>(p, q, n))); } }
void matrec(Rng& g) { typedef matrix<ll> Mt; auto R = [&] { return Mt{{(ll)(g() % 7) - 3, (ll)(g() % 7) - 3}, {(ll)(g() % 7) - 3, (ll)(g() % 7) - 3}}; }; int Le = 1 + g() % 3; V<ll> c; V<Mt> a; for (int j = 0; j < Le; j++) c.push_back((ll)(g() % 5) - 2), a.push_back(R()); int n = g() % 12; Mt r = linear_recurrence<ll, Mt>(c, a, n); gmo = 0; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { V<ll> w; for (auto& z : a) w.push_back(z[x][y]); P("lrec", mo(), vals(c), vals(w), s(n), val(r[x][y])); } }
template<class T> void berle(Rng& g, ll m) { T e = id<T>(m); int Le = gmo ? g() % 7 : g() % 3; V<T> c, a; for (int j = 0; j < Le; j++) { c.push_back(gmo ? rnde(g, e) : castOf(e, (ll)(g() % 5) - 2)); a.push_back(gmo ? rnde(g, e) : castOf(e, (ll)(g() % 7) - 3)); if (g() % 3 == 0) c[j] = zeroOf(e); if (g() % 3 == 0) a[j] = zeroOf(e); } int n = std::max(2, 2 * Le + (int)(g() % 4)); while ((int)a.size() < n + 6) { T x = zeroOf(e); for (int j = 0; j < Le; j++) x = x + c[j] * a[a.size() - 1 - j]; a.push_back(x); } V<T> in(a.begin(), a.begin() + n); auto r = (dfl(e) ? berlekamp_massey<T>(in) : berlekamp_massey<T>(in, e)); P("bm", mo(), i32(Le), vals(a), vals(r)); auto p = (dfl(e) ? berlekamp_massey_poly<T>(in) : berlekamp_massey_poly<T>(in, e)); p.reserve(p.size()); V<T> pc; for (int i = 0; i <= p.deg(); i++) pc.push_back(p[i]); P("c2p", mo(), vals(r), vals(pc)); }
template<class T> void bern(int n, ll m) { T e = id<T>(m); P("bern", mo(), i32(n), vals(bernoulli_b<T>(n, e))); }
template<class R, class I> void seqs(I n) { id<R>(0); namespace Q_ = altruct::math::sequences;
#define SQ(f) P("seq", k(#f), mo(), i32(n), val(Q_::f<R, I>(n)));
    SQ(delta) SQ(dirichlet_id) SQ(zero) SQ(one) SQ(identity) SQ(square) SQ(cube) SQ(triangular) SQ(tetrahedral) SQ(pyramidal) SQ(octahedral) SQ(dodecahedral) SQ(icosahedral) }
template<class R, class I> void sigs(I n) { id<R>(0); namespace Q_ = altruct::math::sequences; SQ(sum_sigma0) SQ(sum_sigma1) SQ(sum_sigma2) }
template<class T> void reds(Rng& g) { V<T> v; int c = g() % 7; for (int i = 0; i < c; i++) v.push_back((T)((ll)(g() % 12) - (std::is_signed<T>::value ? 5 : 0))); P("red", k("sum"), s(v), s(reduce_sum(v))); P("red", k("prod"), s(v), s(reduce_product(v))); T x = (T)(g() % 5); P("red0", k("sum"), s(v), s(x), s(reduce_sum(v, x))); P("red0", k("prod"), s(v), s(x), s(reduce_product(v, x))); P("red0", k("min"), s(v), s(x), s(reduce_min(v, x))); P("red0", k("max"), s(v), s(x), s(reduce_max(v, x))); if (c) { P("red", k("min"), s(v), s(reduce_min(v))); P("red", k("max"), s(v), s(reduce_max(v))); } std::sort(v.begin(), v.end()); P("red0", k("mex"), s(v), s(x), s(reduce_mex(v, x))); P("red0", k("mex"), s(v), "[0,[]]", s(reduce_mex(v))); std::multiset<T> ms(v.begin(), v.end()); P("red0", k("mex"), s(v), "[0,[]]", s(reduce_mex(ms))); P("red", k("dot"), s(v), s(altruct::math::reduce(v, [](T a, T b) { return (T)(a * 3 + b); }, (T)1))); }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); bool th = n > 100; ll MM[] = {101, 1009, 10007, 997};
    switch (part) {
    case 0: for (int i = 0; i < 40; i++) { ranges<ll>(g, i, 0, false); ranges<M7>(g, i, 0, true); ranges<MX>(g, i, MM[g() % 4], true); if (i < 16) ranges<Q>(g, i, 0, true); } for (int i = 0; i < n; i++) { ranges<M9>(g, g() % 100, 0, true); ranges<MY>(g, g() % 100, MM[g() % 4], true); } break;
    case 1: for (int i = 0; i < 14; i++) for (int j = 0; j < 16; j++) { tables<ll>(g, i, j, 0); if (j % 5 == i % 5) tables<MX>(g, i, j, MM[g() % 4]); } for (int i = 0; i < n / 3; i++) tables<M7>(g, g() % 60, g() % 62, 0); for (int i = 0; i < 60; i++) for (int j = 0; j < (i < 20 ? 4 : 1); j++) { stirl<ll>(g, i, 0); stirl<M7>(g, i, 0); stirl<MX>(g, i, MM[g() % 4]); stirl<Q>(g, i, 0); } for (int i = 0; i < n * 4; i++) { s2big<M7>(g, 0); s2big<MX>(g, MM[g() % 4]); s2big<MY>(g, MM[g() % 4]); } for (int i = 1; i < 120; i++) { parts<ll>(g, i, 0); parts<M7>(g, i, 0); parts<MX>(g, i, MM[g() % 4]); parts<Q>(g, i, 0); } break;
    case 2: { int ps[] = {2, 3, 5, 7, 11, 13, 29}; for (int p : ps) for (int e = 1; e < 13; e++) { if (std::pow(p, e) > 5000) break; int c = th ? 200 : 25; combpp<ll, ll>(g, p, e, 40, c); combpp<int, int>(g, p, e, 400, c); combpp<ll, ll>(g, p, e, 1000, c); combpp<int, ll>(g, p, e, 300, c / 2); } } break;
    case 3: for (int i = 0; i < 300 + n * 4; i++) combprimes(g, i); for (int i = 0; i < n * 6; i++) { multi<ll>(g, 0); multi<M7>(g, 0); multi<M9>(g, 0); multi<MX>(g, MM[g() % 4]); multi<Q>(g, 0); } for (int i = 0; i < n * 6; i++) { reds<int>(g); reds<ll>(g); reds<unsigned>(g); reds<ull>(g); } break;
    case 4: for (int i = 0; i < 60 + n * 3; i++) { linrec<ll>(g, i, 0); linrec<M7>(g, i, 0); linrec<MX>(g, i, MM[g() % 4]); linrec<MY>(g, i, MM[g() % 4]); linrec<M9>(g, i, 0); lucas<ll>(g, i, 0); lucas<M7>(g, i, 0); lucas<MX>(g, i, MM[g() % 4]); matrec(g); } for (int i = 0; i < n * 10; i++) { berle<M7>(g, 0); berle<M9>(g, 0); berle<MX>(g, MM[g() % 4]); berle<MY>(g, MM[g() % 4]); if (i % 4 == 0) berle<Q>(g, 0); } for (int i = 0; i < 30; i++) { bern<M7>(i, 0); bern<M9>(i, 0); if (i < 14) bern<Q>(i, 0); } bern<MX>(12, 101); break;
    case 5: for (int i = -20; i < 400; i++) { seqs<ll, ll>(i); seqs<int, int>(i); seqs<M7, ll>(i); seqs<Q, ll>(i); if (i > 0) { sigs<M7, ll>(i); sigs<M7, int>(i); } } for (int i = 0; i < n * 4; i++) { int x = (int)(g() % 4000) - 1000; seqs<ll, ll>(x); seqs<M7, int>((int)(g() % 2000000000)); seqs<M9, int>((int)(g() % 2000000000)); } sigs<M7, ll>(0); break; }
    flushall(); }
