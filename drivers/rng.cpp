#include "vf.h"
#include <climits>
#include <cmath>
#include <sstream>
#include "altruct/algorithm/random/mersenne_twister.h"
#include "altruct/algorithm/random/xorshift.h"
using namespace vf; using namespace altruct::random; typedef std::vector<uint64_t> U;
Ev& bu(Ev& e, const char* k, const U& v) { std::string r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + bigu(x, false); return e.raw(k, r + "]"); }
void range(Rng& g, uint64_t& lo, uint64_t& hi) { int k = rnd(g, 0, 6); lo = g() >> (g() % 64); hi = g() >> (g() % 64); if (k == 0) { lo = 0; hi = ~0ULL; } if (k == 1) lo = 0; if (k == 2) hi = ~0ULL; if (k == 3) hi = lo; if (k == 4) { lo = 0; hi = (1ULL << 63) + g() % 5; } if (lo > hi) std::swap(lo, hi); }
template<class X> void xs(Rng& g, X& x, const char* sfx, int n) {
    std::string s = sfx; auto nm = [&](const char* p) { return Ev((p + s).c_str()); };
    for (int i = 0; i < n; i++) { uint64_t lo, hi; range(g, lo, hi); switch (rnd(g, 0, 6)) {
        case 0: case 1: { U v; int k = rnd(g, 1, 20); for (int j = 0; j < k; j++) v.push_back(g() % 2 ? x.next() : x()); Ev e = nm("next"); e.i("n", k); bu(e, "v", v).put(); } break;
        case 2: case 3: nm("range").bu("lo", lo).bu("hi", hi).bu("v", x.next(lo, hi)).put(); break;
        case 4: case 5: nm("uni").bu("lo", lo).bu("hi", hi).bu("v", x.next_uniform(lo, hi)).put(); break;
        default: { double d = x.next_0_1(); nm("dbl").b("v", (__int128)std::floor(d * 1099511627776.0)).i("inside", 0 <= d && d <= 1).put(); } } }
}
template<class T, class V> void tor(Rng& g, int b) { // V: target type wide enough for the width
    __int128 mn = std::numeric_limits<V>::min(), mx = std::numeric_limits<V>::max(); for (int i = 0; i < 6; i++) { T x = (T)g(); V lo, hi; __int128 w; do { lo = (V)(g() >> (g() % 64)); hi = g() % 4 ? (V)(g() >> (g() % 64)) : (V)(lo + (V)(g() % 9)); if (lo > hi) std::swap(lo, hi); w = (__int128)hi - lo + 1; } while (w > mx || w < 1);
        if (i == 5) x = (T)-1; Ev("tor").i("b", b).bu("x", x).b("lo", lo).b("hi", hi).b("r", integer_to_range<T, V>(x, lo, hi)).put(); } (void)mn;
}
template<class T> void word(Rng& g, int b) {
    for (int i = 0; i < 10; i++) { T w = (T)(g() >> (g() % b)); if (i == 0) w = 0; if (i == 1) w = 1; if (i == 2) w = (T)-1; if (i == 3) w = (T)(T(1) << (g() % b)); Ev("mult").i("b", b).bu("w", w).bu("r", biggest_multiple<T>(w)).put(); }
    for (int i = 0; i < 10; i++) { T lo = (T)(g() >> (g() % 64)), hi = (T)(g() >> (g() % 64)); if (i < 3) { lo = 0; hi = (T)((T(1) << (b - 1)) + i); } if (i == 3) { lo = 0; hi = (T)-1; } if (lo > hi) std::swap(lo, hi); U vs; int bad = i % 3 ? 0 : rnd(g, 0, 25); for (int j = 0; j < 22; j++) vs.push_back(j < bad ? (T)((T)-1 - (T)(g() % 2)) : (T)g()); size_t used = 0;
        T r = uniform_next<T>([&]() { return (T)vs.at(used++); }, lo, hi); Ev e("uni"); e.i("b", b).bu("lo", lo).bu("hi", hi).i("used", used).bu("r", r); bu(e, "vs", vs).put(); }
    for (int i = 0; i < 6; i++) { T x = i == 0 ? (T)-1 : i == 1 ? (T)0 : (T)g(); double d = integer_to_double_0_1<T>(x); Ev("unit").i("b", b).bu("x", x).b("v", (__int128)std::floor(d * 1048576.0)).i("inside", 0 <= d && d <= 1).i("one", d == 1).put(); }
}
struct mtx : mtrand { using mtrand::mtrand; };
int main(int argc, char** argv) {
    Rng g(atoll(argv[1])); int n = atoi(argv[2]); setvbuf(stdout, 0, _IOLBF, 0); typedef mtrand::uint32 u32;
    for (int it = 0; it < n; it++) {
        Ev("open").put();
        if (it % 2 == 0) {
            std::vector<u32> key; int L = it % 8 == 0 ? rnd(g, 1, 5) : it % 8 == 4 ? rnd(g, 600, 700) : it % 8 == 6 ? 624 : 0; u32 s = g() % 4 == 0 ? (u32)(g() % 3) : (u32)g(); for (int j = 0; j < L; j++) key.push_back((u32)g() >> (g() % 32));
            mtrand a = L ? (L == 624 && g() % 2 ? mtrand(key.data()) : mtrand(key.data(), L)) : mtrand(s);
            auto seed = [&] { if (L) { U k(key.begin(), key.end()); Ev e("seeda"); bu(e, "key", k).put(); } else Ev("seed").bu("s", s).put(); };
            seed(); u32 buf[mtrand::SAVE]; std::string text; int saved = 0;
            auto ints = [&](int k) { U v; for (int j = 0; j < k; j++) v.push_back(a.randInt()); Ev e("ints"); e.i("n", k); bu(e, "v", v).put(); };
            if (it % 4 == 0) ints(rnd(g, 600, 660)); // across the renewal of the block
            for (int i = 0; i < 14; i++) switch (rnd(g, 0, 11)) {
                case 0: ints(g() % 6 ? rnd(g, 1, 30) : rnd(g, 600, 1300)); break;
                case 1: case 2: { u32 m = g() % 5 == 0 ? 0 : (u32)g() >> (g() % 32); if (g() % 6 == 0) m = ~0u; u32 v = a.randInt(m); Ev("below").bu("n", m).bu("v", v).put(); } break;
                case 3: { double d = a.rand(), w = d; Ev("real").str("k", "inc").b("v", (__int128)std::floor(w * 4294967295.0 + .5)).i("inside", 0 <= d && d <= 1).put(); } break;
                case 4: { bool f = g() % 2; double d = f ? a.randExc() : a.randExc(16.0) / 16; Ev("real").str("k", "exc").b("v", (__int128)(d * 4294967296.0)).i("inside", 0 <= d && d < 1 && d * 4294967296.0 == std::floor(d * 4294967296.0)).put(); } break;
                case 5: { bool f = g() % 2; double d = f ? a.randDblExc() : a.randDblExc(0.25) * 4; Ev("real").str("k", "dbl").b("v", (__int128)(d * 8589934592.0)).i("inside", 0 < d && d < 1).put(); } break;
                case 6: { double d = a.rand53(); Ev("real").str("k", "53").b("v", (__int128)(d * 9007199254740992.0)).i("inside", 0 <= d && d < 1).put(); } break;
                case 7: { double d = g() % 2 ? a() : a.rand(32.0) / 32; Ev("real").str("k", "inc").b("v", (__int128)std::floor(d * 4294967295.0 + .5)).i("inside", 0 <= d && d <= 1).put(); } break;
                case 8: if (g() % 2) { a.save(buf); saved = 1; } else { std::ostringstream o; o << a; text = o.str(); saved = 2; } Ev("save").put(); break;
                case 9: if (saved) { if (g() % 2) { mtrand b(123u); b.randInt(); a = b; a.randInt(); } if (saved == 1) a.load(buf); else { std::istringstream i(text); i >> a; } Ev("load").put(); } break;
                case 10: { double d = a.randNorm(5, 2); Ev("norm").i("finite", std::isfinite(d)).put(); } break;
                default: if (g() % 3 == 0) { s = (u32)g(); if (L) a.seed(key.data(), L); else a.seed(s); seed(); } }
        } else if (it % 4 == 1) {
            uint64_t s = g() % 5 == 0 ? 1 : g() | 1; xorshift_64star x(s); if (g() % 4 == 0) { x = xorshift_64star(); s = 1; } Ev("seed64").bu("s", s).put(); xs(g, x, "64", 20);
            if (g() % 2) { s = g() | 2; x.seed(s); Ev("seed64").bu("s", s).put(); xs(g, x, "64", 5); }
            U k; for (int j = 0; j < 16; j++) k.push_back(g()); xorshift_1024star y(k.data()); { Ev e("seed16a"); bu(e, "key", k).put(); } xs(g, y, "16", 20);
            s = g() | 1; y.seed(s); Ev("seed16").bu("s", s).put(); xs(g, y, "16", 12); y = xorshift_1024star(); Ev("seed16").bu("s", 1).put(); xs(g, y, "16", 3);
            k[3] ^= 5; y.seed(k.data()); { Ev e("seed16a"); bu(e, "key", k).put(); } xs(g, y, "16", 3);
        } else {
            word<uint8_t>(g, 8); word<uint16_t>(g, 16); word<uint32_t>(g, 32); word<uint64_t>(g, 64);
            tor<uint8_t, int>(g, 8); tor<uint32_t, int>(g, 32); tor<uint64_t, int64_t>(g, 64); tor<uint64_t, int>(g, 64); tor<uint32_t, uint64_t>(g, 32); tor<uint64_t, uint64_t>(g, 64); tor<uint64_t, short>(g, 64); tor<uint16_t, int8_t>(g, 16);
        }
    }
}
