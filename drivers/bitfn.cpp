#include "vf.h"
#include "altruct/algorithm/math/bits.h"
using namespace vf; using namespace altruct::math; typedef __int128 L; typedef unsigned __int128 U;
struct Bt { std::string s; int n = 0; std::string f; int w; Bt(const std::string& f, int w) : f(f), w(w) {} void add(const std::vector<L>& l) { std::string r; for (L x : l) r += (r.empty() ? "" : ",") + big(x); s += (n++ ? ",[" : "[") + r + "]"; if (n >= 64) put(); } void put() { if (n) F(f.c_str()).i("w", w).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
std::map<std::pair<std::string, int>, Bt> bts; int W; void P(const char* f, std::vector<L> l) { auto k = std::make_pair(std::string(f), W); auto it = bts.find(k); if (it == bts.end()) it = bts.emplace(k, Bt(f, W)).first; it->second.add(l); }
template<class I> void one(I x) { typedef typename std::make_signed<I>::type S; L v = x;
    P("ilog2", {v, ilog2(x)}); P("ilog2", {v, ilog2((S)x)}); P("bit_cnt1", {v, bit_cnt1(x)}); P("bit_reverse", {v, bit_reverse(x)}); P("or_down", {v, or_down(x)}); P("xor_down", {v, xor_down(x)}); P("gray_to_bin", {v, gray_to_bin(x)}); P("bin_to_gray", {v, bin_to_gray(x)});
    P("hi_bit", {v, hi_bit(x)}); P("lo_bit", {v, lo_bit(x)}); P("lo_bit", {v, (L)(I)lo_bit((S)x)}); P("neg", {v, neg(x)}); P("neg", {v, (L)(I)neg((S)x)}); P("sign_mag", {v, sign_mag(x)}); P("sign_mag", {v, (L)(I)sign_mag((S)x)}); P("next_pow2", {v, next_pow2(x)}); P("lzc", {v, lzc(x)}); P("tzc", {v, tzc(x)}); P("is_pow2", {v, is_pow2(x)}); P("is_not_pow2", {v, is_not_pow2(x)}); }
template<class I> void pos(I x, int p) { P("get_bit", {x, p, (L)get_bit(x, p)}); P("set_bit", {x, p, set_bit(x, p)}); P("flip_bit", {x, p, flip_bit(x, p)}); P("clear_bit", {x, p, clear_bit(x, p)}); P("erase_bit", {x, p, erase_bit(x, p)}); }
template<class I> void mix(I a, I b, I m) { P("mix_bits", {a, b, m, mix_bits(a, b, m)}); }
template<class I> void comb(I x, int n) { I y = x; bool m = next_combination(y, n); P("next_combination", {x, n, m, y}); }
template<class I> I any(Rng& g) { I x = (I)g(); switch (g() % 5) { case 0: x &= (I)g() & (I)g(); break; case 1: x |= (I)g() | (I)g(); break; case 2: x = (I)(x >> (g() % W)); break; case 3: x = (I)(x << (g() % W)); break; } return x; }
template<class I> I ones(int n) { return n == (int)sizeof(I) * 8 ? (I)~(I)0 : (I)(((U)1 << n) - 1); }
template<class I> void all(Rng& g, int n) { W = sizeof(I) * 8;
    for (int p = 0; p < W; p++) { P("make_bit", {p, make_bit<I>(p)}); P("make_ones", {p, make_ones<I>(p)}); I b = (I)((U)1 << p); for (I x : {b, (I)(b - 1), (I)(b + 1), (I)~b, (I)(0 - b)}) { one<I>(x); for (int k = 0; k < 3; k++) pos<I>(x, rnd(g, 0, W - 1)); } }
    P("make_ones", {W, make_ones<I>(W)});
    if (W == 8) { for (int x = 0; x < 256; x++) { one<I>(x); for (int p = 0; p < 8; p++) pos<I>(x, p); for (int m = 0; m < 256; m += 17) mix<I>(x, any<I>(g), m); for (int k = 1; k <= 8; k++) if (x < 1 << k) comb<I>(x, k); } }
    else for (int i = 0; i < n; i++) { one<I>(any<I>(g)); pos<I>(any<I>(g), rnd(g, 0, W - 1)); mix<I>(any<I>(g), any<I>(g), any<I>(g)); int k = g() % 3 ? W - rnd(g, 0, 2) : rnd(g, 1, W); I x = any<I>(g); x &= ones<I>(k); if (g() % 6 == 0) { int c = rnd(g, 0, k); x = (I)(ones<I>(k) ^ ones<I>(c)); } comb<I>(x, k); }
}
int main(int argc, char** argv) {
    Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    if (part == 0) all<uint8_t>(g, n); else if (part == 1) all<uint16_t>(g, n); else if (part == 2) all<uint32_t>(g, n); else if (part == 3) all<uint64_t>(g, n);
    else if (part == 4) { W = 16; int lo = atoi(argv[4]), hi = atoi(argv[5]); for (int x = lo; x < hi; x++) { one<uint16_t>(x); comb<uint16_t>(x, 16); } }
    else { for (int w = 3; w <= 9; w++) for (int k = 0; k <= w; k++) { W = 32; uint32_t x = ones<uint32_t>(k); bool more = true; while (more) { uint32_t y = x; more = next_combination(y, w); P("next_combination", {(L)x, w, more, (L)y}); x = y; } } }
    for (auto& b : bts) b.second.put();
}
