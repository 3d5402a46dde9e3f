#include "vf.h"
#include <limits>
#include "altruct/structure/math/modulo.h"
using namespace vf; using namespace altruct::math; typedef __int128 L;
struct Bt { std::string s; int n = 0; std::string f; Bt(const char* f) : f(f) {} void add(const std::vector<L>& l) { std::string r; for (L x : l) r += (r.empty() ? "" : ",") + big(x); s += (n++ ? ",[" : "[") + r + "]"; if (n >= 40) put(); } void put() { if (n) F(f.c_str()).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
std::map<std::string, Bt> bts; void P(const char* f, std::vector<L> l) { auto it = bts.find(f); if (it == bts.end()) it = bts.emplace(f, Bt(f)).first; it->second.add(l); }
void flush() { for (auto& b : bts) b.second.put(); }
template<class I> L lo() { return std::numeric_limits<I>::min(); } template<class I> L hi() { return std::numeric_limits<I>::max(); }
template<class I> I any(Rng& g) { switch (g() % 6) { case 0: return (I)(hi<I>() - (L)(g() % 4)); case 1: return (I)(lo<I>() + (L)(g() % 4)); case 2: return (I)((L)(g() >> (g() % 64))); case 3: return (I)(-(L)(g() >> (g() % 64))); case 4: return (I)(((L)1 << (g() % 64)) - (L)(g() % 2)); default: return (I)g(); } }
template<class T> T mod_(Rng& g) { L h = hi<T>(), r; switch (g() % 8) { case 0: r = h - (L)(g() % 4); break; case 1: r = h / 2 + (L)(g() % 5) - 2; break; case 2: r = 1 + g() % 3; break; case 3: r = 1 + g() % 40; break; case 4: r = (L)1 << (g() % (sizeof(T) * 8 - 1)); break; case 5: r = (L)g() % h; break; case 6: r = h / (1 + g() % 300); break; default: { L k = 1 + g() % (sizeof(T) * 4); r = ((L)1 << k) * (1 + g() % (1 << std::min<L>(k, 20))); } } if (r < 1 || r > h) r = 1 + (L)(g() % (uint64_t)h); return (T)r; }
template<class T> T res(Rng& g, T M) { L m = M, r; switch (g() % 6) { case 0: r = m - 1 - (L)(g() % 3); break; case 1: r = g() % 4; break; case 2: r = m / 2 + (L)(g() % 3) - 1; break; case 3: { L d = 1 + g() % 30; r = m / d; } break; default: r = (L)(g() % (uint64_t)m); } return (T)(r < 0 ? 0 : r >= m ? r % m : r); }
inline L agree(bool v, bool ok) { return ok ? (L)v : (L)2; }
// Md(x): makes an element; Mo: an element of another modulus whose representative is below M
template<class Md, class T, class Mk, class Mk2> void ring(Rng& g, T M, Mk mk, Mk2 mk2, int n) {
    for (int i = 0; i < n; i++) { T x = res(g, M), y = g() % 8 ? res(g, M) : x; Md a = mk(x), b = g() % 3 ? mk(y) : mk2(y); L m = M;
        auto ck = [&](const Md& r) { return (L)r.M() == m ? (L)r.v : (L)-999; };
        P("add", {m, x, y, ck(a + b)}); P("sub", {m, x, y, ck(a - b)}); P("mul", {m, x, y, ck(a * b)}); P("neg", {m, x, ck(-a)}); P("neg", {m, x, ck(a.neg())}); P("inv", {m, y, ck(mk(y).inv())}); P("div", {m, x, y, ck(a / b)});
        { Md c = a; c *= b; P("div", {m, (L)c.v, y, ck(c / b)}); if (y != 0) { Md t = a; t %= b; P("rem", {m, x, y, ck(t)}); P("rem", {m, x, y, ck(a % b)}); } }
        { Md c = a; switch (i % 4) { case 0: c += c; P("add", {m, x, x, ck(c)}); break; case 1: c -= c; P("sub", {m, x, x, ck(c)}); break; case 2: c *= c; P("mul", {m, x, x, ck(c)}); break; default: c /= c; P("div", {m, x, x, ck(c)}); } }
        P("cmp", {m, x, y, agree(a == b, !(a != b) == (a == b) && (b == a) == (a == b) && !(b != a) == (a == b)), agree(a < b, (b > a) == (a < b) && !(b <= a) == (a < b) && !(a >= b) == (a < b)), agree(a <= b, (b >= a) == (a <= b) && !(b < a) == (a <= b) && !(a > b) == (a <= b))});
        uint64_t e = g() >> (g() % 64); P("pow", {m, x, (L)e, ck(powT(a, e))}); P("pow", {m, x, (L)(e % 100), (L)modulo_power<T>(x, (int)(e % 100), M)}); if (i % 7 == 0) P("pow", {m, x, 0, ck(powT(a, 0))});
        P("one", {m, ck(identityOf(a))}); P("zero", {m, ck(zeroOf(a))}); L s = (L)any<T>(g); P("norm", {m, s, ck(castOf(a, (T)s))});
        if (hasherT<Md>()(a) != hasherT<Md>()(mk(x))) P("cmp", {m, 0, 0, 0, 0, 0}); }
}
template<class Md, class T, class J> void conv(Rng& g, T M, int n) { for (int i = 0; i < n; i++) { J v = i == 0 ? std::numeric_limits<J>::min() : i == 1 ? std::numeric_limits<J>::max() : any<J>(g); Md a(v, M); P("norm", {(L)M, (L)v, (L)a.v}); P("norm", {(L)M, (L)v, (L)modulo_normalize(v, M)}); P("norm", {(L)M, (L)v, (L)castOf(Md(T(0), M), v).v}); } }
template<class T> void inst(Rng& g, int n) { typedef moduloX<T> Md; for (int i = 0; i < n; i++) { T M = mod_<T>(g); ring<Md>(g, M, [&](T x) { return Md(x, M); }, [&](T x) { if (g() % 2) return Md(x); T M2 = mod_<T>(g); Md r(x, x < M2 ? M2 : std::numeric_limits<T>::max()); if (r.v != x) r = Md(x); return r; }, 8);
        conv<Md, T, int8_t>(g, M, 3); conv<Md, T, uint8_t>(g, M, 3); conv<Md, T, int16_t>(g, M, 3); conv<Md, T, uint16_t>(g, M, 3); conv<Md, T, int32_t>(g, M, 4); conv<Md, T, uint32_t>(g, M, 4); conv<Md, T, int64_t>(g, M, 4); conv<Md, T, uint64_t>(g, M, 4); conv<Md, T, long long>(g, M, 3); conv<Md, T, unsigned long long>(g, M, 3);
        T v = any<T>(g); P("norm", {(L)M, (L)v, (L)modT(v, M)});
        { T a = std::is_signed<T>::value || g() % 2 ? (T)(any<T>(g) & std::numeric_limits<T>::max()) : any<T>(g), b = g() % 4 == 0 ? (T)0 : (T)(any<T>(g) & std::numeric_limits<T>::max()), x, y; if (g() % 4 == 0) a = b; if (g() % 8 == 0) a = 0; if (a || b) { T d = modulo_gcd_ex(a, b, x, y); P("gcdex", {(L)a, (L)b, (L)x, (L)y, (L)d}); } } } }
template<class T, uint64_t ID> void stat(Rng& g, int n) { typedef modulo<T, ID> Md; for (int i = 0; i < n; i++) { T M = mod_<T>(g); Md::M() = M; ring<Md>(g, M, [&](T x) { return Md(x); }, [&](T x) { return Md(x, M); }, 6); P("norm", {(L)M, (L)any<T>(g), 0}); bts.at("norm").s.clear(); bts.at("norm").n = 0; } }
template<class T, uint64_t ID> void cst(Rng& g, int n) { typedef modulo<T, ID, modulo_storage::CONSTANT> Md; T M = (T)ID; for (int i = 0; i < n; i++) { ring<Md>(g, M, [&](T x) { return Md(x); }, [&](T x) { return Md((T)(x % M)); }, 6);
        { int64_t v = any<int64_t>(g); P("norm", {(L)M, v, (L)Md(v).v}); } { int32_t v = i ? any<int32_t>(g) : INT32_MIN; P("norm", {(L)M, v, (L)Md(v).v}); } { uint64_t v = any<uint64_t>(g); P("norm", {(L)M, (L)v, (L)Md(v).v}); } { int8_t v = any<int8_t>(g); P("norm", {(L)M, v, (L)Md(v).v}); } } P("zero", {(L)M, (L)Md().v}); }
int main(int argc, char** argv) {
    Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    switch (part) { case 0: inst<int8_t>(g, n); inst<uint8_t>(g, n); inst<int16_t>(g, n); inst<uint16_t>(g, n); break; case 1: inst<int32_t>(g, n); inst<uint32_t>(g, n); break; case 2: inst<int64_t>(g, n); break; case 3: inst<uint64_t>(g, n); inst<long long>(g, n / 2); break;
        case 4: stat<int, 1>(g, n); stat<int64_t, 5>(g, n); stat<uint32_t, 7>(g, n); stat<uint64_t, 9>(g, n); stat<uint16_t, 3>(g, n / 2); break;
        case 5: cst<int, 1000000007>(g, n); cst<int, 2147483647>(g, n); cst<int, 2147483646>(g, n); cst<int, 1>(g, n); cst<int, 2>(g, n); cst<uint32_t, 4294967291u>(g, n); cst<uint32_t, 4294967295u>(g, n); cst<uint64_t, 18446744073709551557ull>(g, n); cst<int64_t, 9223372036854775783ll>(g, n); cst<int64_t, 9223372036854775807ll>(g, n); cst<int64_t, 1000000007>(g, n); cst<uint8_t, 251>(g, n); cst<int8_t, 127>(g, n); cst<uint16_t, 65535>(g, n); cst<int16_t, 12>(g, n); break;
        default: // every pair of residues for every small modulus, and narrow types exhaustively at their limits
            for (int M = 1; M <= 16; M++) for (int x = 0; x < M; x++) for (int y = 0; y < M; y++) { typedef moduloX<int> A; typedef moduloX<uint8_t> C; A a(x, M), b(y, M); C c(x, M), d(y, M); P("mul", {M, x, y, (L)(a * b).v}); P("div", {M, x, y, (L)(a / b).v}); P("div", {M, x, y, (L)(c / d).v}); P("sub", {M, x, y, (L)(a - b).v}); P("add", {M, x, y, (L)(c + d).v}); if (x == 0) { P("inv", {M, y, (L)b.inv().v}); P("inv", {M, y, (L)d.inv().v}); P("neg", {M, y, (L)d.neg().v}); } if (y < 12) P("pow", {M, x, y, (L)powT(a, y).v}); int u, v; if (x || y) { int h = modulo_gcd_ex(x, y, u, v); P("gcdex", {x, y, u, v, h}); } }
            for (int k = 0; k < n; k++) { int8_t M = 127 - k % 3; int x = rnd(g, 0, M - 1), y = rnd(g, 0, M - 1); typedef moduloX<int8_t> A; P("add", {M, x, y, (L)(A((int8_t)x, M) + A((int8_t)y, M)).v}); P("mul", {M, x, y, (L)(A((int8_t)x, M) * A((int8_t)y, M)).v}); P("sub", {M, x, y, (L)(A((int8_t)x, M) - A((int8_t)y, M)).v}); P("div", {M, x, y, (L)(A((int8_t)x, M) / A((int8_t)y, M)).v}); } }
    flush();
}
