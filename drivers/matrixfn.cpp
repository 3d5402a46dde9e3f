#include "vf.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/matrix.h"
using namespace vf; using namespace altruct::math; typedef __int128 L; typedef std::string S;
struct Bt { S s; int n = 0; S f; Bt(const char* f) : f(f) {} void add(const S& r) { s += (n++ ? ",[" : "[") + r + "]"; if (n >= 40 || s.size() > 40000) put(); } void put() { if (n) F(f.c_str()).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
std::map<S, Bt> bts; template<class... A> void P(const char* f, const S& a, A... l) { auto it = bts.find(f); if (it == bts.end()) it = bts.emplace(f, Bt(f)).first; S r = a; int d[] = {0, (r += "," + S(l), 0)...}; it->second.add(r); }
S s(int v) { return num(v); } S s(bool v) { return v ? "1" : "0"; } S s(int64_t v) { return big(v); } S s(long long v) { return big(v); }
template<class T, uint64_t ID, int ST> S s(const modulo<T, ID, ST>& v) { return big((L)v.v); } template<class T> S s(const fraction<T>& v) { return "[" + big(v.p) + "," + big(v.q) + "]"; }
template<class T> S s(const std::vector<T>& v) { S r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + s(v[i]); return r + "]"; } template<class T> S s(const matrix<T>& m) { return s(m.a); }
template<class T> using V = std::vector<T>;
template<class T> struct R { S d; std::function<T(ll)> mk; bool field; ll cap; };
template<class T> T el(R<T>& r, Rng& g) { switch (g() % 4) { case 0: return r.mk(0); case 1: return r.mk(rnd(g, -1, 2)); default: return r.mk(rnd(g, -r.cap, r.cap)); } }
template<class T> matrix<T> mat(R<T>& r, Rng& g, int n, int m, int k) { matrix<T> a(n, m, r.mk(0)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = el(r, g);
    switch (k) { case 0: break; case 1: { int q = g() % m; for (int i = 0; i < n; i++) a[i][q] = r.mk(0); break; } case 2: if (n > 1) { int x = g() % n, y = g() % n; a[x] = a[y]; } break; case 3: if (n > 2) { T c = el(r, g); for (int j = 0; j < m; j++) a[0][j] = a[1][j] * c + a[2][j]; } break;
        case 4: for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (g() % 3) a[i][j] = r.mk(0); break; case 5: for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = r.mk(j == i + 1); break; case 6: for (int i = 0; i < n; i++) for (int j = 0; j < std::min(m, i + 1); j++) a[i][j] = r.mk(0); break; case 7: { for (auto& q : a.a) for (auto& x : q) x = r.mk(0); V<int> p; for (int i = 0; i < n; i++) p.push_back(i); std::shuffle(p.begin(), p.end(), g); for (int i = 0; i < n && i < m; i++) if (p[i] < m) a[i][p[i]] = r.mk(g() % 5 ? 1 : 0); break; } }
    return a; }
template<class T> void sq(R<T>& r, matrix<T> a, Rng& g, bool pw) { int n = a.rows(); T z = r.mk(0); P("det", r.d, s(a), s(a.det())); P("rank", r.d, s(a), s(a.rank())); matrix<T> m = a, inv; T d; int k = matrix<T>::gauss(m, inv, d); P("rank", r.d, s(a), s(k)); P("det", r.d, s(a), s(d)); if (k == n) { P("inv", r.d, s(a), s(inv)); P("inv", r.d, s(a), s(a.inverse())); if (pw) { P("pow", r.d, s(a), s((int64_t)-1), s(a.pow(-1))); int64_t e = rnd(g, 1, 9); P("pow", r.d, s(a), s(-e), s(a.pow(-e))); } } }
template<class T> void all(R<T> r, Rng& g, int n, int mx) { bool q = r.cap < 10; for (int it = 0; it < n; it++) { int x = 1 + g() % mx, y = 1 + g() % mx, w = 1 + g() % mx; matrix<T> a = mat(r, g, x, y, g() % 9), b = mat(r, g, x, y, 0), c = mat(r, g, y, w, g() % 9), e = mat(r, g, x, x, it % 9), e2 = mat(r, g, x, x, 0); T k = el(r, g);
        P("add", r.d, s(a), s(b), s(a + b)); P("sub", r.d, s(a), s(b), s(a - b)); P("neg", r.d, s(a), s(-a)); P("mul", r.d, s(a), s(c), s(a * c)); { matrix<T> m = e; m *= m; P("mul", r.d, s(e), s(e), s(m)); m = e; m += m; P("add", r.d, s(e), s(e), s(m)); m = e; m *= e2; P("mul", r.d, s(e), s(e2), s(m)); m = a; m -= m; P("sub", r.d, s(a), s(a), s(m)); m = a; m -= b; P("sub", r.d, s(a), s(b), s(m)); }
        P("smul", r.d, s(a), s(k), s(a * k)); { matrix<T> m = a; T v = m[x / 2][y / 2]; m *= m[x / 2][y / 2]; P("smul", r.d, s(a), s(v), s(m)); } P("tr", r.d, s(a), s(a.transpose()));
        if (r.field) { if (!(k == r.mk(0))) P("sdiv", r.d, s(a), s(k), s(a / k)); { matrix<T> m = a; T v = m[0][0]; if (!(v == r.mk(0))) { m /= m[0][0]; P("sdiv", r.d, s(a), s(v), s(m)); } } sq(r, q && x > 4 ? matrix<T>(e, 0, 0, 4, 4) : e, g, !q || x < 4); if (x < 5 && e2.rank() == x && (!q || x < 4)) { matrix<T> m = mat(r, g, w, x, 0); P("div", r.d, s(m), s(e2), s(m / e2)); m /= e2; } }
        { int64_t p = q ? (int64_t)(g() % 4) : r.field ? (int64_t)((g() >> 1) >> (g() % 63)) : (int64_t)(g() % 5); if (x < 5) P("pow", r.d, s(e), s(p), s(e.pow(p))); P("pow", r.d, s(e), s((int64_t)0), s(e.pow(0))); }
        P("make", r.d, s(a), s(identityOf(a)), s(zeroOf(a)), s(k), s(castOf(e, k)), s(+a), s(a.rows()), s(a.cols())); { int i = g() % x, j = g() % y, p = 1 + g() % (x - i), t = 1 + g() % (y - j); P("sub_", r.d, s(a), s(i), s(j), s(p), s(t), s(matrix<T>(a, i, j, p, t))); P("sub_", r.d, s(a), s(i), s(j), s(x - i), s(y - j), s(matrix<T>(a, i, j))); }
        { matrix<T> m = b; if (g() % 3) { m = a; if (g() % 2) m[g() % x][g() % y] = el(r, g); } P("cmp", r.d, s(a), s(m), cmp3(a, m)); matrix<T> u = a; u.swap(m); P("cmp", r.d, s(a), s(m), s(true), s(false), s(true)); } } }
template<class T> void every(R<T> r, Rng& g, int n, int M) { int cells = n * n; ll tot = 1; for (int i = 0; i < cells; i++) tot *= M; for (ll v = 0; v < tot; v++) { matrix<T> a(n, n, r.mk(0)); ll u = v; for (int i = 0; i < cells; i++, u /= M) a[i / n][i % n] = r.mk(u % M); sq(r, a, g, false); } }
template<class I> R<moduloX<I>> rx(I M) { return R<moduloX<I>>{"[2," + big(M) + "]", [M](ll v) { return moduloX<I>((I)(((L)v % (L)M + (L)M) % (L)M), M); }, true, (ll)1 << 40}; }
template<class Md> R<Md> rm() { return R<Md>{"[2," + big((L)Md::M()) + "]", [](ll v) { L M = Md::M(); return Md((decltype(Md().v))(((L)v % M + M) % M)); }, true, (ll)1 << 40}; }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]), part = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0);
    typedef modulo<int, 1000000007, modulo_storage::CONSTANT> A; typedef modulo<int, 9> D; D::M() = 5; R<int64_t> rz{"[0]", [](ll v) { return (int64_t)v; }, false, 300}; R<fraction<int64_t>> rq{"[1]", [](ll v) { return fraction<int64_t>(v); }, true, 3};
    switch (part) { case 0: all(rm<A>(), g, n, 5); break; case 1: all(rx<int>(2), g, n, 6); break; case 2: all(rx<int64_t>(3), g, n, 6); all(rm<D>(), g, n / 2, 6); break; case 3: all(rq, g, n, 4); all(rz, g, n, 4); break; case 4: all(rx<int64_t>(1000000000039ll), g, n, 6); break;
    case 5: every(rx<int>(2), g, 1, 2); every(rx<int>(2), g, 2, 2); every(rx<int>(2), g, 3, 2); every(rx<int>(3), g, 2, 3); if (n > 1) every(rx<int>(3), g, 3, 3); break; }
    for (auto& b : bts) b.second.put(); }
