#include "vf.h"
#include <algorithm>
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/math/fenwick_tree.h"
#include <memory>
using namespace vf; using namespace altruct::container;
typedef std::vector<int> W;
static W cat(W a, const W& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static W bag(W a, const W& b) { a = cat(a, b); std::sort(a.begin(), a.end()); return a; }
static W one(ll x) { return x ? W{(int)x} : W{}; }
struct Nd { W s; int a = 1, c = 0; Nd(W s = W()) : s(s) {} };
static void apply(Nd& n, int a, int c) { for (auto& x : n.s) x = ((x - 1) * a + c) % 11 + 1; n.a = n.a * a % 11; n.c = (n.c * a + c) % 11; }
static void up(Nd& p, const Nd& l, const Nd& r) { W t = cat(l.s, r.s); p.s = t; }
static void down(Nd& p, Nd& l, Nd& r) { apply(l, p.a, p.c); apply(r, p.a, p.c); p.a = 1; p.c = 0; }
struct B { virtual ~B() {} virtual void op(const J& j, Ev& e) = 0; };
struct Seg : B {
    typedef segment_tree<W> T; std::unique_ptr<T> t;
    Seg(int n, const std::vector<ll>& vs) { if (vs.empty()) t.reset(new T(n, cat, W())); else { std::vector<W> v; for (ll x : vs) v.push_back(one(x)); t.reset(new T(v.begin(), v.end(), cat, W())); } }
    void op(const J& j, Ev& e) override {
        std::string o = j.str("op"); size_t b = j.has("b") ? j("b") : 0; const T& c = *t;
        if (o == "get") e.v("r", c.get(b, j("e")));
        if (o == "getat") e.v("r", c.get(b) == c[b] ? c.get(b) : W{-1});
        if (o == "set") t->set(b, one(j("v")));
        if (o == "write") { auto v = j.vec("vs"); for (size_t i = 0; i < v.size(); i++) (*t)[b + i] = one(v[i]); std::string h = j.str("how"); if (h == "all") t->rebuild(); else if (h == "range") t->rebuild(b, b + v.size()); else t->rebuild(b); }
    }
};
struct Lazy : B {
    typedef lazy_segment_tree<Nd> T; std::unique_ptr<T> t;
    Lazy(int n, const std::vector<ll>& vs) { if (vs.empty()) { t.reset(new T(n, up, down, Nd())); t->rebuild(); } else { std::vector<Nd> v; for (ll x : vs) v.push_back(Nd(one(x))); t.reset(new T(v.begin(), v.end(), up, down, Nd())); } }
    void op(const J& j, Ev& e) override {
        std::string o = j.str("op"); size_t b = j.has("b") ? j("b") : 0;
        if (o == "get") e.v("r", t->get(b, j("e")).s);
        if (o == "aff") { int a = (int)j("a"), c = (int)j("c"); t->update(b, j("e"), [=](Nd& n) { apply(n, a, c); return true; }); }
        if (o == "min") { int c = (int)j("c"); t->update(b, j("e"), [=](Nd& n) {
            if (n.s.empty() || *std::max_element(n.s.begin(), n.s.end()) <= c) return true;
            if (*std::min_element(n.s.begin(), n.s.end()) != *std::max_element(n.s.begin(), n.s.end())) return false;
            apply(n, 0, c - 1); return true; }); }
        if (o == "write") { auto v = j.vec("vs"); size_t en = b + v.size(); if (v.size()) t->restore(b, en); if (j.str("how") == "all") t->restore(0, t->size()); for (size_t i = 0; i < v.size(); i++) (*t)[b + i] = Nd(one(v[i])); if (j.str("how") == "all") t->rebuild(); else t->rebuild(b, en); }
    }
};
struct Fen : B {
    typedef altruct::math::fenwick_tree<W> T; T t; Fen(int n) : t(n, bag, W()) {}
    void op(const J& j, Ev& e) override {
        std::string o = j.str("op");
        if (o == "add") t.add(j("b"), W{(int)j("v")});
        if (o == "sum") e.v("r", t.get_sum(j("b"), W()));
        if (o == "reset") t.reset(W());
    }
};
int main() {
    std::unique_ptr<B> b;
    each([&](const J& j) {
        std::string o = j.str("op"); Ev e(o.c_str());
        if (o == "start") { std::string im = j.str("impl"); auto vs = j.vec("vs"); int n = (int)j("n"); if (im == "seg") b.reset(new Seg(n, vs)); else if (im == "lazy") b.reset(new Lazy(n, vs)); else b.reset(new Fen(n)); e.str("impl", im).i("n", n).v("vs", vs).put(); return; }
        for (auto f : {"b", "e", "v", "a", "c"}) if (j.has(f)) e.i(f, j(f));
        if (j.has("vs")) e.v("vs", j.vec("vs"));
        if (j.has("how")) e.str("how", j.str("how"));
        b->op(j, e); e.put();
    });
}
