#include "vf.h"
#include <limits>
#include "altruct/algorithm/math/base.h"
using namespace vf; using namespace altruct::math; typedef __int128 L;
struct Bt { std::string s; int n = 0; const char* f; int w, sg; Bt(const char* f, int w, int sg) : f(f), w(w), sg(sg) {}
    void add(std::initializer_list<L> l) { std::string r; for (L x : l) r += (r.empty() ? "" : ",") + big(x); s += (n++ ? ",[" : "[") + r + "]"; if (n >= 40) put(); }
    void put() { if (n) F(f).i("w", w).i("sg", sg).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } ~Bt() { put(); } };
template<class I> struct W { static const int w = sizeof(I) * 8, sg = std::numeric_limits<I>::is_signed; static L lo() { return std::numeric_limits<I>::min(); } static L hi() { return std::numeric_limits<I>::max(); } static bool fits(L x) { return lo() <= x && x <= hi(); } };
L root(L x, int k) { L lo = 0, hi = k == 2 ? (L)5000000000LL : (L)3000000; while (hi - lo > 1) { L m = (lo + hi) / 2; L p = k == 2 ? m * m : m * m * m; if (p <= x) lo = m; else hi = m; } return lo; }
template<class I> I any(Rng& g) { L lo = W<I>::lo(), hi = W<I>::hi(), x; 
    switch (g() % 8) { case 0: x = g() % 2 ? hi - (L)(g() % 5) : lo + (L)(g() % 5); break; case 1: x = rnd(g, -4, 4); break; case 2: case 3: x = (L)g() >> (g() % 64); if (g() % 2) x = -x; break;
        case 4: { L r = root(hi, 2), t = r - (L)(g() % 3); if (g() % 2) t = (L)(g() % (uint64_t)(r + 1)); x = t * t + rnd(g, -1, 1); if (g() % 3 == 0) x = -x; } break;
        case 5: { L r = root(hi, 3), t = r - (L)(g() % 3); if (g() % 2) t = (L)(g() % (uint64_t)(r + 1)); x = t * t * t + rnd(g, -1, 1); if (g() % 3 == 0) x = -x; } break;
        case 6: x = ((L)1 << (g() % 64)) + rnd(g, -1, 1); if (g() % 2) x = -x; break; default: x = (L)(I)g(); }
    return x < lo || x > hi ? (I)(W<I>::sg ? (L)(I)x : (x < 0 ? -x : x)) : (I)x; }
template<class I> L gmax(I x, I y) { typedef typename std::conditional<(sizeof(I) < 4), int, I>::type T; return gcd_max<T>(x, y); }
template<class I> void one(Rng& g, I x, Bt* b) { typedef W<I> w;
    b[0].add({(L)x, (L)sqrtT<I>(x)}); b[1].add({(L)x, (L)cbrtT<I>(x)}); b[2].add({(L)x, (L)is_square<I>(x)}); b[3].add({(L)x, (L)is_cube<I>(x)});
    if (x != std::numeric_limits<I>::min() || !w::sg) b[4].add({(L)x, (L)absT<I>(x)});
    L a = x < 0 ? -(L)x : (L)x; if (a <= root(w::hi(), 2)) b[5].add({(L)x, (L)sqT<I>(x)}); if (a <= root(w::hi(), 3)) b[6].add({(L)x, (L)cbT<I>(x)}); }
template<class I> void two(Rng& g, I x, I y, Bt* b) { typedef W<I> w; L lo = w::lo();
    if (y != 0 && !(w::sg && y == (I)-1 && (L)x == lo)) { b[7].add({(L)x, (L)y, (L)div_floor<I>(x, y)}); b[8].add({(L)x, (L)y, (L)div_ceil<I>(x, y)}); b[9].add({(L)x, (L)y, (L)div_round<I>(x, y)});
        if (y > 0) { L q = (L)x / (L)y, m = (q + (q * y < x ? 1 : 0)) * y; if (w::fits(m)) b[10].add({(L)y, (L)x, (L)multiple<I>(y, x)}); } }
    bool mn = w::sg && ((L)x == lo || (L)y == lo); if (!mn) { b[x >= 0 && y >= 0 ? 16 : 11].add({(L)x, (L)y, (L)gcd<I>(x, y)}); }
    if (x >= 0 && y >= 0) {
        if (x > 0 || y > 0) { L A = x, B = y; while (A) { L t = B % A; B = A; A = t; } unsigned __int128 m = (unsigned __int128)x * (y / (uint64_t)B); if (m <= (unsigned __int128)w::hi()) b[12].add({(L)x, (L)y, (L)lcm<I>(x, y)}); }
        if (y > 0 && (unsigned __int128)x * y <= (unsigned __int128)w::hi()) b[13].add({(L)x, (L)y, gmax(x, y)}); }
    if (w::sg && !mn) { I u = 77, v = 77; int s = -1; I gg = gcd_ex<I>(x, y, &u, &v, &s); b[17].add({(L)x, (L)y, (L)u, (L)v, (L)gg, (L)s}); I u2, v2; I g1 = gcd_ex<I>(x, y, &u2), g2 = gcd_ex<I>(x, y, (I*)nullptr, &v2); if (u2 != u || v2 != v || g1 != gg || g2 != gg) b[17].add({(L)x, (L)y, (L)u2, (L)v2, (L)g1, (L)s}); }
    b[14].add({(L)x, (L)y, (L)minT<I>(x, y)}); b[15].add({(L)x, (L)y, (L)maxT<I>(x, y)}); I z = any<I>(g), l = x < y ? x : y, r = x < y ? y : x; b[18].add({(L)z, (L)l, (L)r, (L)boundT<I>(z, l, r)}); }
template<class I> void pw(Rng& g, Bt& b) { typedef W<I> w; int y; L x = 0; int k = g() % 8;
    if (k == 0) { x = rnd(g, 0, 2); y = g() % 70; } else { y = k == 1 ? rnd(g, 0, 1) : rnd(g, 2, w::w); L lo = 0, hi = (L)1 << 40; if (y == 1) hi = w::hi(); auto p = [&](L m) { L r = 1; for (int i = 0; i < y; i++) { r *= m; if (r > w::hi()) return false; } return true; }; if (y == 0) x = (L)any<I>(g); else { while (hi - lo > 1) { L m = (lo + hi) / 2; if (p(m)) lo = m; else hi = m; } x = g() % 2 ? lo : (L)(g() % (uint64_t)(lo + 1)); } }
    if (w::sg && g() % 2) x = -x; L r = 1; for (int i = 0; i < y; i++) { r *= x; if (!w::fits(r)) return; } if (!w::fits(x)) return;
    switch (g() % 4) { case 0: b.add({x, (L)y, (L)powT<I>((I)x, y)}); break; case 1: b.add({x, (L)y, (L)powT<I>((I)x, (uint64_t)y)}); break; case 2: b.add({x, (L)y, (L)powT<I>((I)x, (int8_t)y)}); break; default: b.add({x, (L)y, (L)powT<I>((I)x, (uint16_t)y)}); } }
template<class I> void all(Rng& g, int n) { typedef W<I> w; static const char* nm[] = {"sqrt", "cbrt", "is_square", "is_cube", "abs", "sq", "cb", "div_floor", "div_ceil", "div_round", "multiple", "gcd", "lcm", "gcd_max", "min", "max", "gcd0", "gcd_ex", "bound", "pow"};
    std::vector<Bt> b; for (auto s : nm) b.emplace_back(s, (int)w::w, (int)w::sg);
    if (w::w == 8) for (int x = w::lo(); x <= w::hi(); x++) one<I>(g, (I)x, b.data());
    for (int x = (w::sg ? -70 : 0); x <= 70; x++) one<I>(g, (I)x, b.data());
    for (L e : {w::lo(), w::lo() + 1, w::hi() - 1, w::hi()}) { one<I>(g, (I)e, b.data()); for (L e2 : {w::lo(), w::lo() + 1, w::hi() - 1, w::hi(), (L)1, (L)2, (L)3, w::hi() / 2, w::hi() / 2 + 1, w::lo() / 2, w::sg ? (L)-1 : (L)1, w::sg ? (L)-2 : (L)2}) { two<I>(g, (I)e, (I)e2, b.data()); if (e2) two<I>(g, (I)e2, (I)e, b.data()); } }
    for (int i = 0; i < n; i++) { one<I>(g, any<I>(g), b.data()); I x = any<I>(g), y = any<I>(g); if (g() % 3 == 0 && y) { I q = any<I>(g); q = q >> (g() % w::w); L p = (L)(q % 1000) * y + rnd(g, -1, 1); if (w::fits(p)) x = (I)p; } two<I>(g, x, y, b.data()); pw<I>(g, b[19]); }
    for (int i = 0; i < n; i++) { I x = (I)rnd(g, w::sg ? -40 : 0, 40), y = (I)rnd(g, w::sg ? -40 : 0, 40); two<I>(g, x, y, b.data()); } }
int main(int argc, char** argv) {
    Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    switch (part) { case 0: all<int8_t>(g, n); all<uint8_t>(g, n); break; case 1: all<int16_t>(g, n); all<uint16_t>(g, n); break; case 2: all<int32_t>(g, n); break; case 3: all<uint32_t>(g, n); break;
        case 4: all<int64_t>(g, n); break; case 5: all<uint64_t>(g, n); break; case 6: all<long long>(g, n); all<unsigned long long>(g, n / 2); break;
        default: { Bt s("sqrt", 32, 1), sc("sqrtc", 32, 1), c("cbrt", 32, 1), cc("cbrtc", 32, 1), q("sq", 64, 1), k("cb", 64, 1); 
            auto f = [&](int64_t x) { L a = x < 0 ? -(L)x : x; if (a < (L)1 << 62) s.add({x, isqrt(x)}); if (a <= (L)2147483647 * 2147483647) sc.add({x, isqrtc(x)}); c.add({x, icbrt(x)}); cc.add({x, icbrtc(x)}); if (a <= 3037000499LL) q.add({x, isq(x)}); if (a <= 2097151) k.add({x, icb(x)}); };
            for (int x = -130; x <= 130; x++) f(x);
            for (int i = 0; i < 3 * n; i++) f(any<int64_t>(g)); for (int i = 0; i < 60; i++) { L t = 2097152 - i % 20; for (int d = -1; d <= 1; d++) { L x = t * t * t + d; if (x < (L)1 << 63) f((int64_t)x), f((int64_t)-x); t = 2147483648LL - i % 20; x = t * t + d; if (x < (L)1 << 62) f((int64_t)x), f((int64_t)-x); t = 2097152 - i % 20; } }
            f(INT64_MAX); f(INT64_MIN); f(INT64_MIN + 1); f(INT64_MAX - 1); } }
}
