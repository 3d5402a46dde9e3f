#include "bt.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/structure/math/prime_holder.h"
using namespace vf; using namespace altruct::math; typedef unsigned __int128 UL;
#include "hard_composites.h"
template<class T> using FS = V<std::pair<T, int>>;
template<class T> S sf(const FS<T>& f) { S r = "["; for (size_t i = 0; i < f.size(); i++) r += (i ? ",[" : "[") + s(f[i].first) + "," + i32(f[i].second) + "]"; return r + "]"; }
S bu(ull x) { return bigu((UL)x, false); }
template<class T> void mr(T n) { P("mr", s(n), i32(miller_rabin(n))); }
template<class T> void mrb(T n, V<T> b) { V<T> z = b; z.push_back(0); P("mrb", s(n), b, i32(miller_rabin(n, z.data()))); }
template<class T> void allT(ull n) { if ((n >> 31) == 0) mr<int>(n); if ((n >> 32) == 0) mr<unsigned>(n); if ((n >> 63) == 0) mr<ll>(n); mr<uint64_t>(n); }
template<class T> T rnd(Rng& g, int bits) { return (T)(g() >> (64 - bits)); } ull gg(ull a, ull b) { return b ? gg(b, a % b) : a; }
ull pm(ull a, ull k, ull n) { ull r = 1; for (a %= n; k; k >>= 1, a = (UL)a * a % n) if (k & 1) r = (UL)r * a % n; return r; } bool pr(ull n) { if (n < 2) return 0; for (ull p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n == p) return 1; if (n % p == 0) return 0; ull d = n - 1; int r = 0; while (d % 2 == 0) d /= 2, r++; ull x = pm(p, d, n); bool ok = x == 1; for (int i = 0; i < r; i++, x = (UL)x * x % n) ok |= x == n - 1; if (!ok) return 0; } return 1; }
ull prime(Rng& g, int bits) { for (;;) { ull n = rnd<ull>(g, bits) | 1 | (bits > 3 ? 1ull << (bits - 1) : 0); if (bits <= 2) n = 2 + g() % 2; if (pr(n)) return n; } }
// a random factorization with value below lim
FS<ull> rf(Rng& g, ull lim) { FS<ull> f; ull n = 1; int k = g() % 6; for (int i = 0; i < k; i++) { int b = g() % 2 ? 2 + g() % 5 : 2 + g() % 40; ull p = prime(g, b); if (p > lim / n) continue; bool dup = false; for (auto& x : f) dup |= x.first == p; if (dup) continue; int e = 0; do n *= p, e++; while (p <= lim / n && g() % 2); f.push_back({p, e}); } if (g() % 2) std::sort(f.begin(), f.end()); return f; }
template<class T, class D> void fromfac(Rng& g, ull lim) { auto u = rf(g, lim); FS<T> f; ull n = 1, nd = 1; for (auto& x : u) { f.push_back({(T)x.first, x.second}); nd *= x.second + 1; for (int i = 0; i < x.second; i++) n *= x.first; } P("sig0", sf(f), divisor_sigma0<T, D>(f)); P("phi", sf(f), euler_phi<T, D>(f)); P("lam", sf(f), carmichael_lambda<T, D>(f)); P("unfac", sf(f), from_factorization<T, D>(f)); { V<int> e = prime_exponents(f); S l = "["; for (int x : e) l += (l.size() > 1 ? "," : "") + i32(x); P("parts", sf(f), prime_factors(f), l + "]"); }
    if (nd > 600) return; D m = g() % 2 ? 0 : (D)(1 + g() % n); if (g() % 4 == 0) m = (D)n; V<D> d; divisors(d, f, m); P("divs", sf(f), m, i32(0), d); P("divs", sf(f), m, i32(1), divisors<D, T>(f, m)); if (std::is_signed<T>::value) { V<D> q; squarefree_signed_divisors(q, f); P("sfd", sf(f), q); } }
template<class I> void fac(I n) { P("fac", n, sf(factor_integer(n))); } template<class I> void facs(I n) { P("facs", n, sf(factor_integer_slow(n))); }
template<class I> void rho(Rng& g, I n) { if (g() % 2) P("rho", n, pollard_rho<I>(n)); else { I k = g() % 20, a = 1 + g() % 10; if (n > 40) P("rho", n, pollard_rho<I>(n, k, a, 1 + g() % 2000)); } P("rho", n, pollard_rho_repeated<I>(n)); }
S codes(const S& v) { S r = "["; for (char c : v) r += (r.size() > 1 ? "," : "") + i32((unsigned char)c); return r + "]"; }
template<class I, class D> void dig(Rng& g, int bits) { I n = rnd<I>(g, 1 + g() % bits); if (g() % 9 == 0) n = 0; if (g() % 9 == 0) n = std::numeric_limits<I>::max(); D b = g() % 3 == 0 ? 10 : g() % 2 ? (D)(2 + g() % 35) : (D)(2 + (g() >> 1) % (ull)(std::numeric_limits<D>::max() / 2)); if (std::is_signed<I>::value == false && sizeof(D) > sizeof(I)) b = 2 + b % 1000; int len = g() % 2 ? 0 : g() % 20; V<D> d = integer_digits(n, b, len); P("dig", n, b, i32(len), d); P("undig", d, b, from_digits<I>(d, b)); if (b <= 36) { V<int> e(d.begin(), d.end()); P("str", n, b, i32(len), codes(integer_string(e))); P("str", n, b, i32(len), codes(integer_string(n, b, len))); } }
template<class I, class E> void fout(Rng& g, I lim) { I n = 1, p = g() % 3 ? 2 + g() % 10 : 2 + g() % 1000; int k = g() % 12; while (k-- && n <= lim / p) n *= p; I m = 1 + g() % 1000; if (n <= lim / m) n *= m; E e = g() % 5, e0 = e; I r = factor_out(n, p, e); P("fout", n, p, i32((ll)e0), i32((ll)e), r); }
template<class I> void smooth(Rng& g, int nm) { V<int> all{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 97, 101}; V<I> ps; for (int p : all) if (g() % 3 == 0) ps.push_back(p); if (g() % 2) std::reverse(ps.begin(), ps.end()); if (g() % 5 == 0) { ps.assign(all.begin(), all.end()); } S o = "[", pl = "["; for (I p : ps) pl += (pl.size() > 1 ? "," : "") + i32(p); from_primes<I>(ps, (I)nm, [&](const FS<I>& f, I n) { S t = "["; for (auto& x : f) t += (t.size() > 1 ? ",[" : "[") + i32(x.first) + "," + i32(x.second) + "]"; o += (o.size() > 1 ? ",[" : "[") + t + "]," + i32(n) + "]"; }); P("smooth", pl + "]", i32(nm), o + "]"); }
template<class I, class D> void fred(Rng& g) { auto v = [&](int k) { V<ull> r; for (int i = 0; i < k; i++) { ull x = 1; for (int j = g() % 5; j--;) { ull p = g() % 3 ? 2 + g() % 6 : 1 + g() % 3000; if (x * p < 2000000000) x *= p; } r.push_back(x); } return r; }; auto a0 = v(g() % 6), b0 = v(g() % 6); if (g() % 4 == 0) { b0 = a0; std::reverse(b0.begin(), b0.end()); } V<I> a(a0.begin(), a0.end()); V<D> b(b0.begin(), b0.end()); V<I> x = a; V<D> y = b; fraction_reduce(x, y, [](ull p, ull q) { return (D)gg(p, q); }); P("fred", a, b, x, y); }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); bool th = n > 100;
    switch (part) {
    case 0: for (int i = 0; i <= (th ? 12000 : 2600); i++) { int k = i + (g() % 8 ? 0 : 2048); switch (g() % 4) { case 0: mr<int>(k); break; case 1: mr<ll>(k); break; case 2: mr<unsigned>(k); break; case 3: mr<uint64_t>(k); } } for (ull b : {2046ull, 9080190ull, 4759123140ull, 1122004669632ull, 341550071728320ull, 3825123056546413050ull, 2147483646ull, 4294967295ull, 9223372036854775807ull}) for (int d = -3; d <= 4; d++) if (b + d > 2000) allT<int>(b + d); break;
    case 1: for (ull x : hard_composites) if (th || g() % 2) allT<int>(x); for (int i = 0; i < n * 6; i++) { ull x = g() % 3 ? prime(g, 3 + g() % 62) : rnd<ull>(g, 10 + g() % 55) | 1; allT<int>(x); } for (int i = 0; i < n * 2; i++) { ull p = prime(g, 3 + g() % 30), r = 2 + g() % 8, q = r * (p - 1) + 1; if (pr(q) && (UL)p * q < ~0ull) allT<int>(p * q); if ((UL)p * p < ~0ull) allT<int>(p * p); } break;
    case 2: for (int i = 2; i < (th ? 900 : 300); i++) mrb<int>(i, {2 + (int)(g() % 9), 11 + (int)(g() % 20)}); for (ull x : hard_composites) if ((th || g() % 4 == 0) && x >> 63 == 0) { V<ll> b; for (ll p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 73}) if (g() % 2) b.push_back(p); mrb<ll>(x, b); mrb<ll>(x, V<ll>(b.begin(), b.begin() + b.size() / 3)); } for (int i = 0; i < n * 4; i++) { V<uint64_t> b; int k = g() % 4; for (int j = 0; j < k; j++) b.push_back(2 + g() % 300); std::sort(b.begin(), b.end()); mrb<uint64_t>(g() % 2 ? rnd<ull>(g, 12) : g() % 2 ? prime(g, 8 + g() % 56) : rnd<ull>(g, 60) | 1, b); } break;
    case 3: for (int i = 0; i <= (th ? 3000 : 700); i++) { switch (g() % 4) { case 0: fac<int>(i); break; case 1: fac<ll>(i); break; case 2: fac<unsigned>(i); break; case 3: fac<uint64_t>(i); } if (g() % 2) facs<int>(i); else facs<uint64_t>(i); } for (int i = 0; i < n * 4; i++) { ull x = rnd<ull>(g, 5 + g() % 58); fac<ll>(x); if (x < 1u << 31) fac<int>(x); if (x < 1ll << 36) facs<ll>(x); x = 1; for (auto& f : rf(g, ~0ull >> (g() % 40 + 1))) for (int k = 0; k < f.second; k++) x *= f.first; fac<uint64_t>(x); if (x >> 31 == 0) { fac<int>(x); facs<int>(x); } } for (int i = 0; i < n / 2; i++) { ull p = prime(g, 3 + g() % 22), q = prime(g, 3 + g() % 22); fac<ll>(p * q); fac<ll>(p * p); if (p < 2000000) fac<ll>(p * p * p); fac<uint64_t>(p * p * (p < 40000 ? q : 1)); }
            { prime_holder ph(4000); for (int i = 0; i < n; i++) { int x = 1 + g() % 3999; std::map<int, int> m; factor_integer_to_map(m, x, ph.pf().data()); FS<int> f(m.begin(), m.end()); P("facs", x, sf(f)); V<std::pair<int, int>> v; altruct::math::factor_integer(v, x, ph.pf().data()); P("fac", x, sf(v)); } } fac<ll>(1ll << 62); fac<uint64_t>(1ull << 63); fac<ll>(4052555153018976267ll); fac<int>(2147483647); fac<int>(46341 * 46340); fac<int>(46337 * 46337); facs<int>(2147483647); facs<int>(46337 * 46337); break;
    case 4: for (int i = 0; i < n * 4; i++) { fromfac<ll, ll>(g, 1ull << (g() % 62)); fromfac<int, int>(g, 1u << (g() % 31)); fromfac<int, ll>(g, 1u << (g() % 31)); fromfac<uint64_t, uint64_t>(g, ~0ull >> (g() % 30)); } break;
    case 5: for (int i = 0; i < n * 3; i++) { dig<int, int>(g, 31); dig<ll, int>(g, 62); dig<uint64_t, int>(g, 64); dig<ll, ll>(g, 60); dig<unsigned, unsigned>(g, 32); fout<int, int>(g, 2000000000); fout<ll, int>(g, 9000000000000000000ll); fout<uint64_t, ll>(g, ~0ull); fred<ll, ll>(g); fred<int, int>(g); fred<uint64_t, int>(g); }
            for (int i = 0; i < n * 2; i++) { int k = g() % 12; V<int> d; int b = (int)(g() % 21) - 10; for (int j = 0; j < k; j++) d.push_back((int)(g() % 41) - 20); P("undig", d, b, from_digits<ll>(d, b)); } break;
    case 6: for (int i = 1; i < 130; i++) smooth<int>(g, i); for (int i = 0; i < n / 3; i++) smooth<int>(g, 1 + g() % 2000); for (int i = 0; i < n / 3; i++) smooth<ll>(g, 1 + g() % 2000); for (int i = 0; i < n; i++) { rho<ll>(g, 4 + g() % 3000); rho<int>(g, g() % 300); ull p = prime(g, 4 + g() % 14), q = prime(g, 3 + g() % 16); rho<ll>(g, p * q); rho<uint64_t>(g, p * p); } break; }
    flushall(); }
