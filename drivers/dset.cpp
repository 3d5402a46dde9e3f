#include "vf.h"
#include <memory>
#include "altruct/structure/graph/disjoint_set.h"
using namespace vf; using altruct::graph::disjoint_set;
int main() {
    disjoint_set d;
    each([&](const J& j) {
        std::string o = j.str("op"); Ev e(o.c_str()); for (auto f : {"sz", "x", "y", "k", "dir"}) if (j.has(f)) e.i(f, j(f));
        ll x = j.has("x") ? j("x") : 0;
        if (o == "start") d = j("sz") ? disjoint_set(j("sz")) : disjoint_set();
        if (o == "clear") d.clear(j("sz"));
        if (o == "unite") e.i("r", d.unite(x, j("y")));
        if (o == "find") e.i("r", d.find(x));
        if (o == "count") e.i("r", d.count(x));
        if (o == "add") d.add_count(x, j("k"));
        if (o == "copy") { disjoint_set t(d); t.unite(0, 1); t.unite(1, 2); disjoint_set u(d); d = u; }
        if (o == "reps") { ll n = d.size(); std::vector<ll> r(n), c(n), s(n);
            for (ll t = 0; t < n; t++) { ll i = j("dir") ? n - 1 - t : t; r[i] = d.find(i); c[i] = d.count(i); }
            for (ll i = 0; i < n; i++) if ((ll)d.find(i) != r[i] || (ll)d.count(i) != c[i]) r[i] = -1;
            e.v("rep", r).v("cnt", c); }
        e.i("dist", d.distinct()).i("n", d.size()).put();
    });
}
