#include "vf.h"
#include <algorithm>
#include "altruct/structure/container/binary_heap.h"
#include <memory>
using namespace vf; using namespace altruct::container;
struct X { int k, t; }; struct C { int d; C(int d = 0) : d(d) {} C(std::less<X>) : d(0) {} bool operator()(const X& a, const X& b) const { return d ? b.k < a.k : a.k < b.k; } };
typedef binary_heap<X, C> H;
static std::string xs(const std::vector<X>& v) { std::string r = "["; for (auto& x : v) { if (r.size() > 1) r += ","; r += "[" + num(x.k) + "," + num(x.t) + "]"; } return r + "]"; }
int main() {
    std::unique_ptr<H> h; int nt = 1;
    each([&](const J& j) {
        std::string o = j.str("op"); Ev e(o.c_str());
        if (o == "init") { h.reset(); e.put(); return; }
        if (o == "start") {
            auto ks = j.vec("ks"); std::vector<X> v; int d = (int)j("d"); nt = 1; for (ll k : ks) v.push_back({(int)k, nt++}); std::string im = j.str("impl");
            if (im == "range") h.reset(new H(v.begin(), v.end(), C(d)));
            else if (im == "vec") h.reset(new H(v, C(d)));
            else { h.reset(new H(C(d))); for (auto& x : v) h->insert(x); }
            e.str("impl", im).i("d", d).v("ks", ks);
        }
        if (o == "push") { e.i("k", j("k")).i("t", nt); h->insert({(int)j("k"), nt++}); }
        if (o == "pop") h->pop_front();
        if (o == "sort") { H g = *h; g.sort(); e.raw("r", xs(g.v)); }
        if (o == "drain") { H g = *h; std::vector<X> r; while (g.size()) { r.push_back(g.front()); g.pop_front(); if (r.size() > 10000) break; } e.raw("r", xs(r)); }
        if (o == "rekey") { auto ks = j.vec("ks"); std::vector<X*> p; for (auto& x : h->v) p.push_back(&x); std::sort(p.begin(), p.end(), [](X* a, X* b) { return a->t < b->t; }); for (size_t i = 0; i < p.size() && i < ks.size(); i++) p[i]->k = (int)ks[i]; h->rebuild(); e.v("ks", ks); }
        e.i("size", h->size()); if (h->size()) e.v("front", std::vector<int>{h->front().k, h->front().t}); else e.v("front", std::vector<int>());
        e.put();
    });
}
