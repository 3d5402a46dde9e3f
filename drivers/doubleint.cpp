// Integers of twice the word width (double_int.h over prim_int) and add_overflow (intrinsic.h). argv: seed n part
#include "bt.h"
#include "altruct/structure/math/double_int.h"
#include "altruct/algorithm/math/intrinsic.h"
using namespace altruct::math;
template<class U, class W> struct Intr {
    U adc(U x, U y, int& c) const { W r = (W)x + y + c; c = (int)(r >> (sizeof(U) * 8)); return (U)r; }
    U sbb(U x, U y, int& b) const { W r = (W)x - y - b; b = (int)((r >> (sizeof(U) * 8)) & 1); return (U)r; }
    U umul(U x, U y, U* hi) const { W r = (W)x * y; *hi = (U)(r >> (sizeof(U) * 8)); return (U)r; }
};
typedef prim_int<int8_t, uint8_t, Intr<uint8_t, uint32_t>> P8; typedef prim_int<int16_t, uint16_t, Intr<uint16_t, uint64_t>> P16;
typedef prim_int<int32_t, uint32_t, Intr<uint32_t, uint64_t>> P32; typedef prim_int<int64_t, uint64_t, Intr<uint64_t, unsigned __int128>> P64;
typedef std::vector<uint8_t> By; // little endian bytes
static std::mt19937_64 g;
static ull rnd(ull n) { return n ? g() % n : 0; }
static S bys(By b) { // Big
    V<int> d; for (;;) { bool nz = false; int r = 0; for (int i = (int)b.size() - 1; i >= 0; i--) { int x = r * 256 + b[i]; b[i] = (uint8_t)(x / 10000); r = x % 10000; nz |= b[i] != 0; } d.push_back(r); if (!nz) break; }
    while (!d.empty() && d.back() == 0) d.pop_back();
    S o = d.empty() ? "[0,[" : "[1,["; for (size_t i = 0; i < d.size(); i++) o += (i ? "," : "") + std::to_string(d[i]); return o + "]]";
}
template<class T> struct Is { static const bool prim = false; };
template<class A, class B, class C> struct Is<prim_int<A, B, C>> { static const bool prim = true; };
template<class A, class B, class C> void put(const prim_int<A, B, C>& x, By& o) { B u = (B)x.v; for (size_t i = 0; i < sizeof(B); i++) { o.push_back((uint8_t)u); u = (B)((ull)u >> 8); } }
template<class T> void put(const double_int<T>& x, By& o) { put(x.lo, o); put(x.hi, o); }
template<class T> S z(const T& x) { By o; put(x, o); return bys(o); }
template<class A, class B, class C> void get(prim_int<A, B, C>& x, const By& b, size_t& p) { ull u = 0; for (size_t i = 0; i < sizeof(B); i++) u |= (ull)b[p++] << (8 * i); x.v = (A)u; }
template<class T> void get(double_int<T>& x, const By& b, size_t& p) { get(x.lo, b, p); get(x.hi, b, p); }
template<class T> T mk(const By& b) { T x; size_t p = 0; get(x, b, p); return x; }
static By rb(int w, int unit) { // words at the edges
    int n = w / 8, k = unit / 8; By b(n, 0); int style = (int)rnd(7);
    if (style == 0) { int v = (int)rnd(4); b[0] = (uint8_t)v; if (rnd(2)) for (auto& x : b) x = (uint8_t)~x; return b; }
    if (style == 1) { int i = (int)rnd(w); b[i / 8] = (uint8_t)(1 << (i % 8)); if (rnd(3) == 0) { int j = (int)rnd(w); b[j / 8] |= (uint8_t)(1 << (j % 8)); } return b; }
    if (style == 2) { int i = (int)rnd(w + 1); for (int j = 0; j < i; j++) b[j / 8] |= (uint8_t)(1 << (j % 8)); if (rnd(2)) for (auto& x : b) x = (uint8_t)~x; return b; }
    if (style == 3) { int m = 1 + (int)rnd(n); for (int i = 0; i < m; i++) b[i] = (uint8_t)g(); return b; }
    if (style == 4) { for (auto& x : b) x = (uint8_t)g(); return b; }
    for (int i = 0; i < n; i += k) { int t = (int)rnd(6); for (int j = 0; j < k; j++) b[i + j] = t == 0 ? 0 : t == 1 ? 255 : t == 2 ? (j == k - 1 ? 128 : 0) : t == 3 ? (j == k - 1 ? 127 : 255) : t == 4 ? (j == 0) : (uint8_t)g(); }
    return b;
}
static bool nz(const By& b) { for (auto x : b) if (x) return true; return false; }
static bool min1(const By& a, const By& b) { for (auto x : b) if (x != 255) return false; for (size_t i = 0; i + 1 < a.size(); i++) if (a[i]) return false; return a.back() == 128; }
template<class T> S nibs(const T& x) { S h = x.to_string16(), r = "["; for (size_t i = 0; i < h.size(); i++) r += (i ? "," : "") + std::to_string(h[i] >= 'a' ? h[i] - 'a' + 10 : h[i] - '0'); return r + "]"; }
template<class T> int sh() { int w = T::type_bits; int e[] = {0, 1, w / 2 - 1, w / 2, w / 2 + 1, w - 1, w, w + 1, 2 * w, 3 * w / 4, w / 4}; return rnd(2) ? e[rnd(11)] : (int)rnd(w + 1); }
// what both kinds have
template<class T> void common(int unit) {
    const int w = T::type_bits; By ba = rb(w, unit), bb = rnd(8) ? rb(w, unit) : ba; T a = mk<T>(ba), b = mk<T>(bb); S A = z(a), B = z(b);
    switch (rnd(12)) {
    case 0: { static const char* o[] = {"+", "-", "*", "&", "|", "^"}; int k = (int)rnd(6); T r; S q;
        if (rnd(2)) r = k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : k == 3 ? (a & b) : k == 4 ? (a | b) : (a ^ b);
        else if (rnd(6) == 0) { T c = a; B = A; T* y; switch (k) { case 0: y = &(c += c); break; case 1: y = &(c -= c); break; case 2: y = &(c *= c); break; case 3: y = &(c &= c); break; case 4: y = &(c |= c); break; default: y = &(c ^= c); } r = y == &c ? c : T(); }
        else { T c = a; T* y; switch (k) { case 0: y = &(c += b); break; case 1: y = &(c -= b); break; case 2: y = &(c *= b); break; case 3: y = &(c &= b); break; case 4: y = &(c |= b); break; default: y = &(c ^= b); } r = y == &c ? c : T(); }
        P("bin", i32(w), S("\"") + o[k] + "\"", A, B, z(r)); break; }
    case 1: { if (!nz(bb) || (Is<T>::prim && w >= 32 && min1(ba, bb))) break; bool m = rnd(2); T r; if (rnd(2)) r = m ? a % b : a / b; else { r = a; if (m) r %= b; else r /= b; } P("bin", i32(w), S(m ? "\"%\"" : "\"/\""), A, B, z(r)); break; }
    case 2: { auto r = T::unsigned_mul_full(a, b); P("full", i32(w), A, B, z(r)); P("bin", i32(w), S("\"*\""), A, B, z(T::unsigned_mul(a, b))); break; }
    case 3: { if (!nz(bb)) break; T r, q = T::unsigned_div(a, b, &r), q2 = T::unsigned_div(a, b); P("udiv", i32(w), A, B, tup(z(q), z(r))); P("udiv", i32(w), A, B, tup(z(q2), z(r))); break; }
    case 4: { int c = (int)rnd(2); S C = i32(c); T r = a; T* y = &r.assign_adc(b, c); P("adc", i32(w), A, B, C, tup(z(*y), s((L)c))); break; }
    case 5: { int c = (int)rnd(2); S C = i32(c); T r = a; T* y = &r.assign_sbb(b, c); P("sbb", i32(w), A, B, C, tup(z(*y), s((L)c))); break; }
    case 6: { P("neg", i32(w), A, z(-a)); T c = a; T d = c.negate(); P("neg", i32(w), A, z(c)); P("neg", i32(w), A, z(d)); P("not", i32(w), A, z(~a)); P("same", i32(w), A, z(+a)); T e(a); P("same", i32(w), A, z(e)); break; }
    case 7: { T c = a; if (rnd(2)) { S r = z(++c); P("pre", i32(w), A, i32(1), tup(r, z(c))); } else { S r = z(--c); P("pre", i32(w), A, i32(-1), tup(r, z(c))); }
        c = a; if (rnd(2)) { S r = z(c++); P("post", i32(w), A, i32(1), tup(r, z(c))); } else { S r = z(c--); P("post", i32(w), A, i32(-1), tup(r, z(c))); } break; }
    case 8: { P("lzc", i32(w), A, i32(a.leading_zeros_count())); P("isneg", i32(w), A, i32(a.is_negative())); P("u64", i32(w), A, s((ull)a.to_uint64())); P("hex", i32(w), A, nibs(a)); break; }
    case 9: { P("cmp", i32(w), A, B, tup(a == b, a != b, a < b, a > b, a <= b, a >= b)); P("ucmp", i32(w), A, B, tup(a.unsigned_lt(b), a.unsigned_gt(b), a.unsigned_lte(b), a.unsigned_gte(b))); break; }
    case 10: { int n = sh<T>(); if (Is<T>::prim) n = (int)rnd(w); T c = a; bool f = rnd(2); if (f) c <<= n; P("shl", i32(w), A, i32(n), z(f ? c : a << n)); c = a; if (f) c >>= n; P("shr", i32(w), A, i32(n), z(f ? c : a >> n)); break; }
    default: { int n = sh<T>(), e = -(int)rnd(2); if (Is<T>::prim) n = 1 + (int)rnd(w - 1); T c = a; c.assign_extended_shr(n, e); P("eshr", i32(w), A, i32(n), i32(e), z(c)); c = a; c.assign_unsigned_shr(n); P("eshr", i32(w), A, i32(n), i32(0), z(c)); }
    }
}
static int ri() { int e[] = {0, 1, -1, 2, -2, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, 2147483647, -2147483647 - 1, 65280, -65536, 16777216}; return rnd(2) ? e[rnd(22)] : (int)(uint32_t)g() >> rnd(31); }
template<class T> void twice(int unit) { typedef double_int<T> D; const int w = D::type_bits;
    common<D>(unit);
    if (rnd(8)) return;
    int v = ri(); P("ofint", i32(w), i32(v), z(D(v))); D x = mk<D>(rb(w, unit)); x = v; P("ofint", i32(w), i32(v), z(x));
    T h = mk<T>(rb(w / 2, unit)), l = mk<T>(rb(w / 2, unit)); P("ofhalf", i32(w), z(h), z(D(h))); D y(h, l); P("halves", i32(w), z(y), tup(z(h), z(l))); P("halves", i32(w), z(y), tup(z(y.hi), z(y.lo)));
    P("ofint", i32(w), i32(0), z(D())); P("ofint", i32(w), i32(1), z(identityT<D>::of(y))); P("ofint", i32(w), i32(0), z(zeroT<D>::of(y)));
}
template<class T> double_int<T>* up(T*) { return 0; }
template<class P, int N> struct Tower { typedef double_int<typename Tower<P, N - 1>::T> T; }; template<class P> struct Tower<P, 0> { typedef P T; };
template<class I> void ovf() { const int w = sizeof(I) * 8; By b = rb(2 * w, w); I x = 0, y = 0; memcpy(&x, &b[0], sizeof(I)); memcpy(&y, &b[sizeof(I)], sizeof(I)); if (rnd(4) == 0) y = (I)(0 - (ull)x + rnd(3) - 1); I r = 0; bool o = add_overflow(x, y, &r); P("ovf", i32(w), s((L)x), s((L)y), i32(std::is_signed<I>::value), tup(o, s((L)r))); }
int main(int c, char** v) {
    g.seed(atoll(v[1])); int n = atoi(v[2]), part = atoi(v[3]);
    for (int i = 0; i < n; i++) switch (part) {
    case 0: common<P8>(8); common<P16>(16); common<P32>(32); common<P64>(64); ovf<int8_t>(); ovf<uint8_t>(); ovf<int16_t>(); ovf<uint16_t>(); ovf<int32_t>(); ovf<uint32_t>(); ovf<int64_t>(); ovf<uint64_t>(); twice<P8>(8); break;
    case 1: twice<P8>(8); twice<Tower<P8, 1>::T>(8); twice<Tower<P8, 2>::T>(8); break;
    case 2: twice<Tower<P8, 3>::T>(8); twice<Tower<P8, 4>::T>(8); break;
    case 3: twice<P16>(16); twice<Tower<P16, 1>::T>(16); twice<Tower<P16, 2>::T>(16); break;
    case 4: twice<P32>(32); twice<Tower<P32, 1>::T>(32); break;
    case 5: twice<P64>(64); twice<Tower<P64, 1>::T>(64); break;
    default: twice<Tower<P64, 2>::T>(64); }
    flushall(); return 0;
}
