#include "vf.h"
#include <algorithm>
#include <list>
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/algorithm/hash/std_hash_combine.h"
#include "altruct/algorithm/hash/std_tuple_hash.h"
#include "altruct/structure/graph/graph.h"
#include "altruct/structure/math/modulo.h"
#include <unordered_map>
using namespace vf; using namespace altruct::hash; typedef __int128 L;
typedef polynomial_hash1<758986603, 36759071, 366621061> A1; typedef polynomial_hash1<11, 3, 4> A2;
typedef polynomial_hash<1> K1; typedef polynomial_hash<2> K2; typedef polynomial_hash<3, int64_t, __int128> K3; typedef polynomial_hash<2, uint32_t, uint64_t> K4;
template<> int32_t K1::M[1] = {10007}; template<> int32_t K1::B[1] = {10006}; template<> int32_t K1::BI[1] = {10006};
template<> int32_t K2::M[2] = {758986603, 1000000007}; template<> int32_t K2::B[2] = {36759071, 32547971}; template<> int32_t K2::BI[2] = {366621061, 624567078};
template<> int64_t K3::M[3] = {1000000000000000003LL, 998244353, 7}; template<> int64_t K3::B[3] = {2, 3, 5}; template<> int64_t K3::BI[3] = {500000000000000002LL, 332748118, 3};
template<> uint32_t K4::M[2] = {1000000007, 101}; template<> uint32_t K4::B[2] = {500000004, 100}; template<> uint32_t K4::BI[2] = {2, 100};
std::vector<L> mk(std::initializer_list<L> l) { return l; }
template<class H> struct Tr { static std::vector<L> M() { std::vector<L> r; for (auto x : H::M) r.push_back(x); return r; } static std::vector<L> B() { std::vector<L> r; for (auto x : H::B) r.push_back(x); return r; } static std::vector<L> get(const H& h) { std::vector<L> r; for (auto x : h.h) r.push_back(x); return r; }
    static H make(Rng& g) { H h; auto m = M(); for (size_t k = 0; k < m.size(); k++) h.h[k] = g() % 5 == 0 ? (ll)m[k] - 1 : g() % 5 == 0 ? 0 : rnd(g, 0, (ll)m[k] - 1); return h; } };
template<int32_t M_, int32_t B_, int32_t I_> struct Tr<polynomial_hash1<M_, B_, I_>> { typedef polynomial_hash1<M_, B_, I_> H; static std::vector<L> M() { return mk({M_}); } static std::vector<L> B() { return mk({B_}); } static std::vector<L> get(const H& h) { return mk({h.h}); } static H make(Rng& g) { return H(g() % 4 == 0 ? M_ - 1 : (int)rnd(g, 0, M_ - 1)); } };
template<class H> void both(Rng& g) {
    typedef Tr<H> T; Ev("open").bv("M", T::M()).bv("B", T::B()).put(); cumulative_hash<H> c; std::vector<int> s; L mm = T::M()[0]; for (L x : T::M()) mm = std::min(mm, x);
    auto el = [&](int k) { return k == 0 ? (int)rnd(g, 0, 3) : k == 1 ? (int)rnd(g, 97, 122) : k == 2 ? (int)rnd(g, 0, 2147483647) : (int)std::min<L>(mm - 1, 2147483647); };
    int k = rnd(g, 0, 3), n = rnd(g, 5, 30);
    if (g() % 2) { std::vector<int> q; for (int j = rnd(g, 0, 20); j > 0; j--) q.push_back(el(k)); c = cumulative_hash<H>(q.begin(), q.end()); s = q; Ev("assign").bv("q", q).put(); }
    for (int i = 0; i < n; i++) switch (rnd(g, 0, 9)) {
        case 0: { std::vector<int> q; for (int j = rnd(g, 0, 25); j > 0; j--) q.push_back(el(k)); if (g() % 2) c.assign(q.begin(), q.end()); else { std::list<int> p(q.begin(), q.end()); c.assign(p.begin(), p.end()); } s = q; Ev("assign").bv("q", q).put(); } break;
        case 1: case 2: case 3: { int x = el(k); c.push_back(x); s.push_back(x); Ev("push").b("x", x).put(); } break;
        case 4: if (!s.empty()) { c.pop_back(); s.pop_back(); Ev("pop").put(); } break;
        case 5: Ev("size").i("n", c.size()).put(); break;
        default: { int e = rnd(g, 0, std::min<int>(s.size(), c.size())), b = g() % 4 == 0 ? 0 : rnd(g, 0, e); Ev("get").i("b", b).i("e", e).bv("h", T::get(c.get(b, e))).put(); } }
    // concatenation
    { std::vector<int> p, q; for (int j = rnd(g, 0, 8); j > 0; j--) q.push_back(el(k)); for (int j = rnd(g, 0, 8); j > 0; j--) p.push_back(el(k)); cumulative_hash<H> a(q.begin(), q.end()), b(p.begin(), p.end()); H r = a.get(0, q.size()); r.add(b.get(0, p.size()), q.size()); Ev("cat").bv("q", q).bv("p", p).bv("r", T::get(r)).put(); }
}
template<class H> void arith(Rng& g, int n) {
    typedef Tr<H> T; for (int i = 0; i < n; i++) { H x = T::make(g), y = g() % 6 ? T::make(g) : x; int k = g() % 4 ? rnd(g, 0, 12) : rnd(g, 0, 80); auto X = T::get(x), Y = T::get(y);
        switch (i % 8) { case 0: Ev("add").bv("x", X).bv("y", Y).bv("r", T::get(x + y)).put(); break; case 1: Ev("sub").bv("x", X).bv("y", Y).bv("r", T::get(x - y)).put(); break; case 2: Ev("mul").bv("x", X).bv("y", Y).bv("r", T::get(x * y)).put(); break;
            case 3: Ev("shl").bv("x", X).i("n", k).bv("r", T::get(x << k)).put(); break; case 4: Ev("shr").bv("x", X).i("n", k).bv("r", T::get(x >> k)).put(); break;
            case 5: { H r = x; r.add(y, k); Ev("addat").bv("x", X).bv("y", Y).i("n", k).bv("r", T::get(r)).put(); } break; case 6: { H r = x; r.sub_shr(y, k); Ev("subshr").bv("x", X).bv("y", Y).i("n", k).bv("r", T::get(r)).put(); } break;
            case 7: Ev("cmp").bv("x", X).bv("y", Y).i("lt", x < y).i("eq", x == y).b("h", (L)x.hash()).put(); } }
}
template<class H> void scalar(Rng& g, int n) {
    typedef Tr<H> T; L mm = T::M()[0]; for (L x : T::M()) mm = std::min(mm, x);
    for (int i = 0; i < n; i++) { H x = T::make(g); ll y = rnd(g, 0, (ll)mm - 1); int k = rnd(g, 0, 20); auto X = T::get(x); typedef typename std::decay<decltype(x.h[0])>::type I;
        switch (i % 5) { case 0: Ev("adds").bv("x", X).b("y", y).bv("r", T::get(x + (I)y)).put(); break; case 1: Ev("subs").bv("x", X).b("y", y).bv("r", T::get(x - (I)y)).put(); break; case 2: Ev("muls").bv("x", X).b("y", y).bv("r", T::get(x * (I)y)).put(); break;
            case 3: { H r = x; r.add((I)y, k); Ev("addats").bv("x", X).b("y", y).i("n", k).bv("r", T::get(r)).put(); } break; case 4: { H r = x; r.sub_shr((I)y, k); Ev("subshrs").bv("x", X).b("y", y).i("n", k).bv("r", T::get(r)).put(); } } }
}
template<class T> uint64_t hs(const T& x) { return std::hash<T>()(x); }
std::string ev(std::initializer_list<uint64_t> l) { std::string r = "["; for (auto x : l) r += (r.size() > 1 ? "," : "") + bigu(x, false); return r + "]"; }
void stdh(Rng& g) {
    Ev("open").raw("M", "[]").raw("B", "[]").put();
    for (int i = 0; i < 30; i++) { int a = (int)g(); ll b = g(); std::string c(rnd(g, 0, 12), 'a'); for (auto& x : c) x = rnd(g, 0, 255); unsigned d = g() % 3; std::string c2 = c + "z"; c2.pop_back(); c2.reserve(100);
        switch (i % 6) {
            case 0: Ev("fold").raw("eh", ev({hs(a), hs(b)})).bu("h", hs(std::make_pair(a, b))).bu("h2", hs(std::make_pair(a, b))).put(); break;
            case 1: Ev("fold").raw("eh", ev({hs(c), hs(a), hs(d)})).bu("h", hs(std::make_tuple(c, a, d))).bu("h2", hs(std::make_tuple(c2, a, d))).put(); break;
            case 2: Ev("fold").raw("eh", ev({hs(d)})).bu("h", hs(std::make_tuple(d))).bu("h2", hs(std::make_tuple(d))).put(); break;
            case 3: Ev("nest").raw("e1", ev({hs(a), hs(c)})).raw("e2", ev({hs(b), hs(d), hs(a), hs(b)})).bu("h", hs(std::make_pair(std::make_pair(a, c), std::make_tuple(b, d, a, b)))).bu("h2", hs(std::make_pair(std::make_pair(a, c2), std::make_tuple(b, d, a, b)))).put(); break;
            case 4: { size_t h = g() >> (g() % 64), h0 = h; std::hash_combine(h, b); Ev("comb").bu("h", h0).bu("v", hs(b)).bu("r", h).put(); } break;
            default: { altruct::graph::full_edge e{(int)d, a % 100}; alignas(8) unsigned char raw[sizeof e]; memset(raw, (int)(g() & 255), sizeof raw); auto* e2 = new (raw) altruct::graph::full_edge{(int)d, a % 100}; Ev("same").bu("h", hs(e)).bu("h2", hs(*e2)).put();
                typedef altruct::math::modulo<int, 1009, altruct::math::modulo_storage::CONSTANT> md; md x(a % 1009), y((int)(a % 1009 + 1009)); Ev("same").bu("h", altruct::math::hasherT<md>()(x)).bu("h2", altruct::math::hasherT<md>()(y)).put(); } } }
}
int main(int argc, char** argv) {
    Rng g(atoll(argv[1])); int n = atoi(argv[2]); setvbuf(stdout, 0, _IOLBF, 0);
    for (int i = 0; i < n; i++) switch (i % 7) { case 0: both<A1>(g); arith<A1>(g, 16); break; case 1: both<A2>(g); arith<A2>(g, 16); break; case 2: both<K1>(g); arith<K1>(g, 16); scalar<K1>(g, 10); break; case 3: both<K2>(g); arith<K2>(g, 16); scalar<K2>(g, 10); break;
        case 4: both<K3>(g); arith<K3>(g, 16); scalar<K3>(g, 10); break; case 5: both<K4>(g); arith<K4>(g, 16); scalar<K4>(g, 10); break; default: stdh(g); }
}
