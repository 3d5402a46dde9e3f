#include "vf.h"
#include <memory>
#include "altruct/structure/container/link_cut_tree.h"
using namespace vf; using namespace altruct::container;
struct A { ll own; std::vector<ll> q; ll sum; };
A mk(ll v) { return A{v, {v}, v}; }
int main() {
    typedef link_cut_tree<A> T; std::unique_ptr<T> t;
    auto up = [](A& p, const A& l, const A& r) { std::vector<ll> q = l.q; q.push_back(p.own); q.insert(q.end(), r.q.begin(), r.q.end()); p.q = q; p.sum = l.sum + p.own + r.sum; };
    A id{0, {}, 0};
    each([&](const J& j) {
        std::string o = j.str("op"); Ev e(o.c_str()); for (auto f : {"x", "y", "k", "v", "t"}) if (j.has(f)) e.i(f, j(f));
        int x = j.has("x") ? (int)j("x") : 0;
        if (o == "start") { auto vs = j.vec("vs"); e.v("vs", vs); std::vector<A> a; for (ll v : vs) a.push_back(mk(v));
            if (vs.size() % 2) t.reset(new T(a.begin(), a.end(), up, id));
            else { t.reset(new T(vs.size(), up, id)); for (size_t i = 0; i < vs.size(); i++) t->get((int)i + 1).own = vs[i]; }
            e.i("n", t->size()); }
        if (o == "add") e.i("r", t->add(mk(j("v"))));
        if (o == "link") t->link(x, (int)j("y"));
        if (o == "cut") t->cut(x);
        if (o == "root") e.i("r", t->find_root(x));
        if (o == "parent") e.i("r", t->find_parent(x));
        if (o == "lca") e.i("r", t->find_lca(x, (int)j("y")));
        if (o == "depth") e.i("r", t->depth(x));
        if (o == "get") { A& a = t->get(x); e.i("own", a.own).v("r", a.q); }
        if (o == "set") t->get(x).own = j("v");
        if (o == "anc") { ll k = j("k"); e.i("r", t->traverse(x, [&](const A&, const A&, const A&, int d) { return k < d ? -1 : k > d ? 1 : 0; })); }
        if (o == "first") { ll s = j("t"); e.i("r", t->traverse(x, [&](const A& v, const A& l, const A&, int) { if (l.sum >= s) return -1; s -= l.sum; if (v.own >= s) return 0; s -= v.own; return 1; })); }
        e.put();
    });
}
