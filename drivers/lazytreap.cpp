#include "vf.h"
#include <memory>
#include "altruct/structure/container/lazy_treap.h"
using namespace vf; using namespace altruct::container;
const int M = 97;
struct A { int k, own, n, h, one, pw, la, lc, tag = 0; A(int k = 0, int v = 0, bool el = false) : k(k), own(v), n(el), h(el ? v : 0), one(el), pw(el ? 5 : 1), la(1), lc(0) {} };
bool operator<(const A& a, const A& b) { return a.k < b.k; }
void app(A& x, int a, int c) { x.own = (a * x.own + c) % M; x.h = (a * x.h + c * x.one) % M; x.lc = (a * x.lc + c) % M; x.la = a * x.la % M; }
struct Up { int tag; Up(int t) : tag(t) {} void operator()(A& p, const A& l, const A& r) const { p.tag = tag; p.n = l.n + 1 + r.n; p.pw = l.pw * 5 * r.pw % M; p.h = (l.h + l.pw * (p.own + 5 * r.h)) % M; p.one = (l.one + l.pw * (1 + 5 * r.one)) % M; } };
struct Down { void operator()(A& p, A& l, A& r) const { app(l, p.la, p.lc); app(r, p.la, p.lc); p.la = 1; p.lc = 0; } };
typedef std::function<void(A&, const A&, const A&)> FU; typedef std::function<void(A&, A&, A&)> FD;
typedef lazy_treap<A> T;
int main() {
    std::unique_ptr<T> s, t; unsigned st = 12345;
    auto rnd = [&st] { st = st * 1103515245u + 12345u; return (int)((st >> 16) % 200); };
    auto mk = [&](int t) { return new T(FU(Up(t)), FD(Down()), std::less<A>(), rnd); };
    each([&](const J& j) {
        std::string o = j.str("op"); Ev e(o.c_str()); for (auto f : {"p", "k", "v", "b", "e", "a", "c"}) if (j.has(f)) e.i(f, j(f));
        int p = j.has("p") ? (int)j("p") : 0, k = j.has("k") ? (int)j("k") : 0, v = j.has("v") ? (int)j("v") : 0, b = j.has("b") ? (int)j("b") : 0, q = j.has("e") ? (int)j("e") : 0;
        if (o == "start") { s.reset(mk(1)); t.reset(mk(2)); for (int v : {3, 4, 5}) t->insert(A(1, v, true)); e.put(); return; }
        if (o == "xchg") { if (st & 64) s->swap(*t); else { T x(std::move(*s)); *s = std::move(*t); *t = std::move(x); } }
        if (o == "copy") { if (st & 64) t.reset(new T(*s)); else *t = *s; }
        auto at = [&](int i) { return i == s->size() ? s->end() : s->begin().add(i); };
        auto push = [&](int i) { if (i >= 0 && i < s->size()) s->propagate_down_to(at(i)); };
        if (o == "ins") e.i("p", s->insert(A(k, v, true)).pos());
        if (o == "insb") { push(p); push(p - 1); auto it = s->insert_before(at(p), A(k, v, true)); if (it.pos() != p) e.i("bad", it.pos()); }
        if (o == "erak") s->erase(A(k));
        if (o == "era") { push(p); s->erase(at(p)); }
        if (o == "erar") { push(b); push(q); push(q - 1); s->erase(at(b), at(q)); }
        if (o == "upd") { int a = (int)j("a"), c = (int)j("c"); push(b); push(q - 1); s->update(at(b), at(q), [&](A& x) { app(x, a, c); }); if (b < q) { s->propagate_up(at(b)); s->propagate_up(at(q - 1)); } }
        if (o == "get") { push(b); push(q - 1); A r = s->get(at(b), at(q)); e.v("r", std::vector<int>{r.n, r.h}); }
        if (o == "val") { push(p); auto it = at(p); e.v("r", std::vector<int>{it->k, it->own}); }
        if (o == "find") { auto r = s->equal_range(A(k)); e.v("r", std::vector<int>{s->find(A(k)).pos(), r.first.pos(), r.second.pos()}); }
        if (o == "dump") {
            for (int i = 0; i < s->size(); i++) push(i);
            const T& cs = *s; std::vector<std::vector<int>> d; std::vector<int> rs; auto put = [&](const A& x) { d.push_back({x.k, x.own}); }; int way = st >> 8 & 3;
            if (way == 0) { for (auto it = s->begin(); it != s->end(); ++it) put(*it); for (auto it = s->end(); it != s->begin();) { --it; rs.push_back(it->k); } }
            if (way == 1) { for (auto it = s->begin(); it != s->end();) { auto old = it++; put(*old); } for (auto it = s->end(); it != s->begin();) { auto old = it--; if (old == it) break; rs.push_back((*it).k); } }
            if (way == 2) { for (auto it = cs.begin(); it != cs.end();) { auto old = it++; put(*old); } for (auto it = s->cend(); it != s->cbegin();) { auto old = it--; if (old == it) break; rs.push_back(it->k); } }
            if (way == 3) { for (auto it = s->cbegin(); it != s->cend(); ++it) put(*it); for (auto it = s->rbegin(); it != s->rend(); ++it) rs.push_back(it->k); int i = 0; for (auto it = cs.rbegin(); it != cs.rend(); ++it, i++) if (it->k != rs[i]) rs[i] = -9; if (i != (int)rs.size()) rs.push_back(-8); }
            int mix = 0; for (auto& x : *s) mix += x.tag != s->begin()->tag; e.vv("s", d).v("rs", rs).i("mix", mix).raw("cmp", "[" + cmp3(*s, *t) + "," + cmp3(*t, *s) + "]");
        }
        if (o == "clear") s->clear();
        A r = s->empty() ? A() : *s->root();
        e.i("n", s->size()).v("root", std::vector<int>{r.n, r.h}).put();
    });
}
