#include "bt.h"
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/fractions.h"
#include "altruct/algorithm/math/squares_r.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/math/factorization.h"
using namespace vf; using namespace altruct::math;
S k(const char* c) { return S("\"") + c + "\""; }
template<class T> S is(const V<T>& v) { S r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + i32((ll)x); return r + "]"; }
template<class T> S s3(const triple<T>& t) { return "[" + i32(t.a) + "," + i32(t.b) + "," + i32(t.c) + "]"; }
template<class T> S t3(V<triple<T>> v) { std::sort(v.begin(), v.end()); S r = "["; for (auto& t : v) r += (r.size() > 1 ? "," : "") + s3(t); return r + "]"; }
template<class I> V<std::pair<I, int>> fac(I n) { V<std::pair<I, int>> v; n = n < 0 ? -n : n; for (I p = 2; p * p <= n; p++) { int e = 0; while (n % p == 0) n /= p, e++; if (e) v.push_back({p, e}); } if (n > 1) v.push_back({n, 1}); return v; }
bool sq(ll d) { ll r = (ll)std::sqrt((double)d); while (r * r > d) r--; while ((r + 1) * (r + 1) <= d) r++; return r * r == d; }
// ---- continued fractions
template<class I> void conv(Rng& g, ll lim) { auto R = [&] { return (I)(g() % (ull)lim); }; { I a = R(), b = R(); if (g() % 3 == 0) a = -a; if (b || g() % 5 == 0) { auto v = continued_fraction<I>(a, b); P("cf", s(a), s(b), s(v)); I sm = g() % 3 ? (I)(g() % 4) : (I)1000000000; S w = "["; bool small = true; for (auto x : v) if (x > 50 && sm > 50) small = false; if (small) { auto c = convergents<I>(v, sm); for (auto& x : c) w += (w.size() > 1 ? "," : "") + s(x); P("conv", s(v), s(sm), w + "]"); } } }
    { V<I> v; int n = g() % 8; for (int i = 0; i < n; i++) v.push_back((I)(1 + g() % (g() % 3 ? 4 : 20))); if (n) v[0] = (I)(g() % 9) - 4; I sm = g() % 3 ? (I)(g() % 4) : (I)1000000000; auto c = convergents<I>(v, sm); S w = "["; for (auto& x : c) w += (w.size() > 1 ? "," : "") + s(x); P("conv", s(v), s(sm), w + "]"); auto c0 = convergents<I>(v); w = "["; for (auto& x : c0) w += (w.size() > 1 ? "," : "") + s(x); P("conv", s(v), s((I)0), w + "]"); } }
template<class I> void sqc(Rng& g, ll S_, ll Q) { auto r = sqrt_convergent<I>((I)S_, (I)Q); P("sqc", i32(S_), s(Q), s(r)); }
template<class I> void lines(Rng& g, int w) { auto R = [&](int m) { return (I)((int)(g() % (2 * m + 1)) - m); }; I a = R(w), b = R(w), c = R(w * 3), x0 = R(w), x1 = x0 + (I)(g() % 40); P("line", i32(a), i32(b), i32(c), i32(x0), i32(x1), i32(line_closest_lattice_point<I>(a, b, c, x0, x1))); I d = R(w * 2), e = R(w); if (e == 0) e = 1; P("ladder", i32(a), i32(b), i32(c), i32(d), i32(e), i32(x0), i32(x1), i32(minimize_floor_ladder<I>(a, b, c, d, e, x0, x1))); }
// ---- Farey fractions, expansions
template<class I> void farey(Rng& g, int n) { typedef fraction<I> F; auto fr = [](F f) { return "[" + i32((ll)f.p) + "," + i32((ll)f.q) + "]"; }; for (int i = 0; i < 4; i++) { I q = (I)(1 + g() % n), p = (I)(g() % (4 * q + 1)) - 2 * q; F f(p, q); F r = farey_neighbour<I>((I)n, F(-1, 0), f), l = farey_neighbour<I>((I)n, F(1, 0), f); P("farey", i32(n), fr(f), i32(1), fr(r)); P("farey", i32(n), fr(f), i32(-1), fr(l)); P("farey", i32(n), fr(f), i32(1), fr(farey_neighbour<I>((I)n, l, f))); P("farey", i32(n), fr(f), i32(-1), fr(farey_neighbour<I>((I)n, r, f))); } }
template<class I> void digits(Rng& g, int lim) { int b = 2 + g() % 15; I q = (I)(2 + g() % lim), p = (I)(1 + g() % (ull)(q - 1)); if (q < 3000) { auto d = repeating_decimal<I>(b, p, q); P("repd", i32(b), i32((ll)p), i32((ll)q), is(d.first), i32((ll)d.second)); } I n = (I)(g() >> std::min<int>(63, g() % 60 + (sizeof(I) == 4 ? 34 : 2))); I r = 0; int dd = rational_digit<I>(n, b, p, q, &r); P("digit", s(n), i32(b), s(p), s(q), i32(dd), s(r)); P("digit", s(n), i32(b), s(p), s(q), i32(rational_digit<I>(n, b, p, q)), s(r)); int len = g() % 20; P("digits", s(n), i32(len), i32(b), s(p), s(q), is(rational_digits<I>(n, len, b, p, q))); }
// ---- Pell
template<class I> S qs(const V<quadraticX<I>>& v) { S r = "["; for (auto& x : v) r += (r.size() > 1 ? "," : "") + tup(s((L)x.a), s((L)x.b)); return r + "]"; }
template<class I> bool small1(I D, L lim, L& x1, L& y1) { // fundamental solution, if small
    L m = 0, d = 1, a0 = 0; while ((a0 + 1) * (a0 + 1) <= D) a0++; L a = a0, p1 = 1, p = a, q1 = 0, q = 1; while (p * p - D * q * q != 1) { m = d * a - m; d = (D - m * m) / d; a = (a0 + m) / d; L t = a * p + p1; p1 = p; p = t; t = a * q + q1; q1 = q; q = t; if (p > lim) return false; } x1 = p; y1 = q; return true; }
void pells(Rng& g, ll D) { if (sq(D)) return; L x1, y1; if (!small1(D, (L)1 << 61, x1, y1)) return;
    { V<ll> P_{0}, Q_{1}, a, A, B, G; int l = pell_PQa<ll>(D, P_, Q_, a, A, B, G); P("pqa", i32(D), i32(0), i32(1), i32(l), s(P_), s(Q_), s(a), s(A), s(B), s(G)); }
    for (ll N : {1ll, -1ll}) { ll x = -1, y = -1; int l = pell1<ll>(D, N, x, y); P("pell1", i32(D), i32(N), i32(l), s(x), s(y)); if (x1 > 1000000000) continue; ll xm = g() % 3 ? 1 + g() % 1000000000 : 0, ym = g() % 3 ? 1 + g() % 100000000 : 0; int ct = xm || ym ? g() % 3 : 1; if (!xm && !ym) ct = 1; auto v = pell1<ll>(D, N, xm, ym, ct); P("p1l", i32(D), i32(N), s(xm), s(ym), i32(ct), qs(v)); }
    if (x1 > 100000) return; for (int i = 0; i < 3; i++) { ll Q0 = 1 + g() % 40; if (g() % 3 == 0) Q0 = -Q0; V<ll> c; for (ll z = 0; z < std::abs(Q0); z++) if ((z * z - D) % Q0 == 0) c.push_back(z); if (c.empty()) continue; ll P0 = c[g() % c.size()] + Q0 * ((ll)(g() % 3) - 1); V<ll> P_{P0}, Q_{Q0}, a, A, B, G; int l = pell_PQa<ll>(D, P_, Q_, a, A, B, G); if (g() % 2) l = pell_PQa<ll>(D, P_, Q_, a, A, B, G); P("pqa", i32(D), i32(P0), i32(Q0), i32(l), s(P_), s(Q_), s(a), s(A), s(B), s(G)); }
    { ll r = 0; while ((r + 1) * (r + 1) < D) r++; ll N = 1 + g() % r; if (g() % 2) N = -N; if (N * N < D) { V<ll> xs, ys; pellS<ll>(D, N, xs, ys); P("pellS", i32(D), i32(N), s(xs), s(ys)); } } }
void pellN(Rng& g, ll D, ll N) { if (sq(D) || !N) return; L x1, y1; if (!small1(D, 200000, x1, y1)) return; auto f = fac(N); auto v = pell<ll, ll>(D, N, f); L yb = 1; while (2 * D * yb * yb <= (x1 + 1) * (N < 0 ? -N : N)) yb++; ll Y = (ll)std::min(yb + 1, (L)1200); P("pell", i32(D), i32(N), i32(Y), qs(v)); if (x1 > 20000) return; ll xm = 1 + g() % 3000, ym = 1 + g() % 300; int w = g() % 3; if (w == 0) xm = 0; if (w == 1) ym = 0; auto u = pell<ll, ll>(D, N, f, xm, ym, 0); P("plist", i32(D), i32(N), i32(xm), i32(ym), i32(0), qs(u)); int ct = 1 + g() % 4; auto u2 = pell<ll, ll>(D, N, f, xm, ym, ct); P("plist", i32(D), i32(N), i32(xm), i32(ym), i32(ct), qs(u2)); }
// ---- sums of squares
template<class I> S pr(const V<std::pair<I, I>>& v) { S r = "["; for (auto& x : v) r += (r.size() > 1 ? ",[" : "[") + i32((ll)x.first) + "," + i32((ll)x.second) + "]"; return r + "]"; }
bool prime(ll n) { if (n < 2) return false; for (ll p = 2; p * p <= n; p++) if (n % p == 0) return false; return true; }
template<class I> void sqr(Rng& g, I n) { auto f = fac(n); for (int u = 0; u < 2; u++) { std::unordered_map<I, std::pair<I, I>> t; if (g() % 2) t = squares_r_prime_table<I>((I)(g() % 60)); P("sqr", i32(n), i32(u), i32((ll)squares_r<I, ll>(f, u))); P("sql", i32(n), i32(u), i32(0), pr(squares_r_list<I>(f, u))); P("sql", i32(n), i32(u), i32(0), pr(squares_r_list<I, I>(f, u, t))); I mb = (I)(1 + g() % 60); P("sql", i32(n), i32(u), i32(mb), pr(squares_r_list<I, I>(f, u, t, mb))); } if (prime(n) && n % 4 == 1) { auto p = squares_r_prime<I>(n); P("sqp", s(n), s(p.first), s(p.second)); }
    if (prime(n) && n > 2) for (I d = 1; d < 8; d++) { bool ok = false; for (I y = 1; d * y * y <= n; y++) if (sq(n - d * y * y)) ok = true; if (ok) { auto r = cornacchia<I>(d, n); P("corn", s(d), s(n), s(r.first), s(r.second)); } } if (prime(n) && n > 2 && n < 400) for (I d = 8; d <= n; d++) { bool ok = false; for (I y = 1; d * y * y <= n; y++) if (sq(n - d * y * y)) ok = true; if (ok) { auto r = cornacchia<I>(d, n); P("corn", s(d), s(n), s(r.first), s(r.second)); } } }
void sqbig(Rng& g) { for (;;) { ll x = g() % 30000, d = 1 + g() % 50, y = 1 + g() % 4000, p = x * x + d * y * y; if (p > 2 && prime(p)) { auto r = cornacchia<ll>(d, p); P("corn", s(d), s(p), s(r.first), s(r.second)); if (p < 1000000000) { auto q = cornacchia<int>((int)d, (int)p); P("corn", s(d), s(p), s(q.first), s(q.second)); } if (d == 1) { auto q = squares_r_prime<ll>(p); P("sqp", s(p), s(q.first), s(q.second)); } break; } } }
template<class I> void sqtab(I n) { auto t = squares_r_prime_table<I>(n); V<std::pair<I, std::pair<I, I>>> v(t.begin(), t.end()); std::sort(v.begin(), v.end()); S r = "["; for (auto& x : v) r += (r.size() > 1 ? ",[" : "[") + i32(x.first) + "," + i32(x.second.first) + "," + i32(x.second.second) + "]"; P("sqt", i32(n), r + "]"); }
// ---- triples
template<class I> void trips(Rng& g, I n) { for (int p = 0; p < 2; p++) { P("trip", k("pyt"), i32(n), i32(p), t3(pythagorean_triples<I>(n, p))); P("trip", k("e60"), i32(n), i32(p), t3(eisenstein_triples60<I>(n, p))); P("trip", k("e120"), i32(n), i32(p), t3(eisenstein_triples120<I>(n, p))); } P("trip", k("alm"), i32(n), i32(0), t3(almost_pythagorean_triples<I>(n))); P("leg", i32(n), t3(pythagorean_triples_fixed_leg<I>(n, fac<I>(n)))); }
void gens(Rng& g, int kk) { auto v = pythagorean_triples_generators<int>(kk); int n = 10 + g() % 50; auto t = generate_pythagorean_triples<int>(n, v); P("gen", i32(kk), i32(n), t3(v), t3(t)); triple<int> a{(int)(g() % 20), (int)(g() % 20), (int)(g() % 30)}; P("tmin", s3(a), i32(altruct::math::min_element(a)), i32(altruct::math::max_element(a)), i32(is_primitive(a)), i32(is_pythagorean_triple_generator(a))); }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); bool th = n > 100;
    switch (part) {
    case 0: for (int i = 0; i < n * 12; i++) { conv<ll>(g, 60); conv<int>(g, 1000); conv<ll>(g, i % 2 ? 100000 : 1000000000000000ll); } for (int S_ = 0; S_ < (th ? 400 : 120); S_++) for (int j = 0; j < 4; j++) { sqc<ll>(g, S_, j < 2 ? j : g() % (g() % 2 ? 100 : 1000000000)); sqc<int>(g, S_, g() % 1000); } break;
    case 1: for (int i = 0; i < (th ? 40000 : 6000); i++) { lines<ll>(g, i % 3 ? 8 : 60); lines<int>(g, i % 3 ? 12 : 300); } break;
    case 2: for (int i = 1; i < (th ? 80 : 40); i++) { farey<ll>(g, i); farey<int>(g, i); } for (int i = 0; i < n * 10; i++) { digits<ll>(g, g() % 3 ? 300 : 1000000000); digits<int>(g, 20000); } break;
    case 3: for (ll D = 2; D < (th ? 800 : 140); D++) pells(g, D); break;
    case 4: for (ll D = 2; D < (th ? 60 : 24); D++) for (ll N = -(th ? 60 : 25); N <= (th ? 60 : 25); N++) pellN(g, D, N); for (int i = 0; i < n * 4; i++) pellN(g, 2 + g() % 100, (ll)(g() % 400) - 200); break;
    case 5: for (int i = 1; i < (th ? 1500 : 300); i++) { sqr<ll>(g, i); if (i % 3 == 0) sqr<int>(g, i); } for (int i = 0; i < n; i++) { int x = 1; while (x < 3000) x *= (int[]){2, 3, 5, 5, 13, 17, 9, 29, 25}[g() % 9]; sqr<ll>(g, x); sqr<int>(g, 1 + g() % 20000); } for (int i = 0; i < n * 5; i++) sqbig(g); for (int i = 0; i < 100; i++) { sqtab<int>(i); if (i % 10 == 0) sqtab<ll>(i * 20); } break;
    case 6: for (int i = 1; i < (th ? 120 : 50); i++) { trips<int>(g, i); trips<ll>(g, 1 + g() % 100); } for (int i = 0; i < (th ? 200 : 60); i++) gens(g, i); break;
    }
    flushall(); }
