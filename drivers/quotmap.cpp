#include "vf.h"
#include <stdexcept>
#include <memory>
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/container/lohi_map.h"
using namespace vf; using namespace altruct::container;
template<class M> struct Sq { // sqrt_map only operations
    template<class T> static void raw(T& m, ll k, ll v, ll lo, ll mx, Ev& e) { const T& c = m; ll r = c(k); bool ok = c[k] == r && c.el(k) == r && (k <= lo ? c.lo(k) : c.hi(mx / k)) == r; e.i("r", ok ? r : -9);
        if (v & 1) m.el(k) = v; else if (k <= lo) m.lo(k) = v; else m.hi(mx / k) = v; }
    template<class T> static void reset(T& m, ll n) { m.reset_max(n); }
    template<class T> static void swap(T& a, T& b) { a.swap(b); }
    static M* make(ll lo, ll n) { return new M(lo, n); }
};
template<class I> struct Sq<lohi_map<I, int>> {
    template<class T> static void raw(T&, ll, ll, ll, ll, Ev&) {}
    template<class T> static void reset(T&, ll) {}
    template<class T> static void swap(T&, T&) {}
    static lohi_map<I, int>* make(ll lo, ll) { return new lohi_map<I, int>(lo); }
};
struct Bs { virtual ~Bs() {} virtual void op(const J&) = 0; };
ll MAXN = 0;
template<class M> struct D : Bs {
    std::unique_ptr<M> s[3]; ll lo, mx[3]; bool sq;
    D(ll lo, ll n, bool sq) : lo(lo), sq(sq) { s[1].reset(Sq<M>::make(lo, n)); s[2].reset(Sq<M>::make(lo, n)); mx[1] = mx[2] = n; }
    std::vector<std::vector<ll>> dump(int m) {
        std::vector<std::vector<ll>> r; const M& c = *s[m]; std::vector<ll> ks;
        for (ll k = 0; k <= lo; k++) ks.push_back(k);
        if (sq) { std::vector<ll> h; for (ll j = 1; j <= mx[m]; j++) { ll x = mx[m] / j; if (x > lo && (h.empty() || h.back() != x)) h.push_back(x); } ks.insert(ks.end(), h.rbegin(), h.rend()); }
        else for (ll k = lo + 1; k <= MAXN; k++) ks.push_back(k);
        for (ll k : ks) { ll a; try { a = c.at(k); } catch (std::out_of_range&) { a = -1; } r.push_back({k, c.count(k), a}); }
        return r;
    }
    void op(const J& j) override {
        std::string o = j.str("op"); Ev e(o.c_str()); int m = j.has("m") ? (int)j("m") : 1; ll k = j.has("k") ? j("k") : 0, v = j.has("v") ? j("v") : 0;
        for (auto f : {"m", "k", "v", "n"}) if (j.has(f)) e.i(f, j(f));
        M& a = *s[m];
        if (o == "start") e.str("impl", j.str("impl")).i("lo", lo);
        if (o == "ins") { auto r = a.insert({(typename M::key_type)k, (int)v}); e.v("r", std::vector<ll>{(ll)r.first, r.second}); }
        if (o == "sub") { ll r; if (v == -1) r = a[k]; else { int& x = a[k]; r = x; x = (int)v; } e.i("r", r); }
        if (o == "era") e.i("r", a.erase(k));
        if (o == "atw") { int r = 1; try { a.at(k) = (int)v; } catch (std::out_of_range&) { r = 0; } e.i("r", r); }
        if (o == "raw") Sq<M>::raw(a, k, v, lo, mx[m], e);
        if (o == "reset") { Sq<M>::reset(a, j("n")); mx[m] = j("n"); }
        if (o == "swap") { Sq<M>::swap(*s[m], *s[3 - m]); std::swap(mx[1], mx[2]); }
        if (o == "copy") { if (k & 1) { M t(a); *s[3 - m] = t; } else s[3 - m].reset(new M(a)); mx[3 - m] = mx[m]; }
        e.vv("d", dump(m)).put();
    }
};
int main(int argc, char** argv) {
    MAXN = atoi(argv[1]); std::unique_ptr<Bs> b;
    each([&](const J& j) {
        if (j.str("op") == "start") { std::string im = j.str("impl"); ll lo = j("lo"), n = j("n");
            if (im == "sqrt") b.reset(new D<sqrt_map<int, int>>(lo, n, true)); else if (im == "sqrt64") b.reset(new D<sqrt_map<int64_t, int>>(lo, n, true)); else b.reset(new D<lohi_map<int, int>>(lo, n, false)); }
        b->op(j);
    });
}
