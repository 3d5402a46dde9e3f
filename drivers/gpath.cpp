// C15 shortest paths and spanning trees; C16 order, closure, 2-SAT
#include "graphgen.h"
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include "altruct/algorithm/graph/sat2.h"
using namespace altruct::graph;
const int INF = 1000000;
template<class R> VV rows(const R& r) { VV q; for (auto& e : r) q.push_back({e.v, e.w}); return q; }
// the same graph with other weight types: every distance must be the integer one scaled (checked here, reported unscaled)
template<class T> V unscale(const std::vector<weighted_edge<T>>& r, T sc, T off) { V q; for (auto& e : r) { T w = e.w; bool inf = e.v == -1; ll z = inf ? INF : (ll)(w / sc); q.push_back(e.v); q.push_back((inf ? w == sc * INF : sc * (T)z == w) ? z : -999983); } return q; }
template<class T> altruct::graph::graph<weighted_edge<T>> gs(const VVV& a, T sc) { altruct::graph::graph<weighted_edge<T>> g((int)a.size()); for (int u = 0; u < (int)a.size(); u++) for (auto& x : a[u]) g.add_edge(u, {(int)x[0], sc * (T)x[1]}); return g; }
VV pairs(const V& q) { VV r; for (size_t i = 0; i < q.size(); i += 2) r.push_back({q[i], q[i + 1]}); return r; }
template<class T> void wide(const VVV& a, T sc, int what, int src) {
    auto g = gs<T>(a, sc);
    if (what == 0) F("dijkstra").raw("a", js(a)).i("src", src).i("inf", INF).vv("r", pairs(unscale<T>(dijkstra(g, src, sc * INF), sc, 0))).put();
    if (what == 1) { VVV q; for (auto& r : floyd_warshall(g, sc * INF)) q.push_back(pairs(unscale<T>(r, sc, 0))); F("floyd").raw("a", js(a)).i("inf", INF).raw("r", js(q)).put(); }
    if (what == 2) F("prim").raw("a", js(a)).i("root", src).i("inf", INF).vv("r", pairs(unscale<T>(prim_spanning_tree(g, src, sc * INF), sc, 0))).put();
}
void wide(Rng& g, const VVV& a, int what) { int src = rnd(g, 0, (int)a.size() - 1); switch (g() % 3) { case 0: wide<ll>(a, 1LL << rnd(g, 31, 40), what, src); break; case 1: wide<ll>(a, 3000000019LL, what, src); break; default: wide<double>(a, 1.0 / 64, what, src); } }
void dij(const VVV& a) { auto g = g1(a); for (int s = 0; s < (int)a.size(); s++) F("dijkstra").raw("a", js(a)).i("src", s).i("inf", INF).vv("r", rows(dijkstra(g, s, INF))).put(); }
void floyd(const VVV& a) { VVV q; for (auto& r : floyd_warshall(g1(a), INF)) q.push_back(rows(r)); F("floyd").raw("a", js(a)).i("inf", INF).raw("r", js(q)).put(); }
void prim(const VVV& a, int n) { auto g = g1(a); for (int s = 0; s < (int)a.size() && s < n; s++) F("prim").raw("a", js(a)).i("root", s).i("inf", INF).vv("r", rows(prim_spanning_tree(g, s, INF))).put(); }
void order(const VVV& a) {
    auto g = g0(a); VV cs; for (auto& c : tarjan_scc(g)) cs.push_back(V(c.begin(), c.end()));
    F("scc").raw("a", js(a)).vv("r", cs).put();
    F("topo").raw("a", js(a)).v("deg", in_degrees(g)).v("r", topological_sort(g)).put();
    F("closure").raw("a", js(a)).vv("r", heads(transitive_closure(g))).put();
    F("reduction").raw("a", js(a)).vv("r", heads(transitive_reduction(g))).put();
}
void sat(Rng& g) {
    int nv = rnd(g, 1, 6), m = rnd(g, 0, g() % 3 ? nv + 1 : 3 * nv + 2); std::vector<std::pair<int, int>> cl; bool half = g() % 3 == 0;
    for (int i = 0; i < m; i++) { int x = rnd(g, 0, 2 * nv - 1), y = rnd(g, 0, 2 * nv - 1); if (half) { if (g() % 5 == 0) x = -1; else if (g() % 5 == 0) y = -1; else if (g() % 50 == 0) x = y = -1; } cl.push_back({x, y}); }
    std::vector<int> sol; int k = g() % 2 ? 0 : rnd(g, 0, nv + 1); int pd = rnd(g, 1, 3); for (int i = 0; i < k; i++) sol.push_back(rnd(g, 0, pd) ? -1 : rnd(g, 0, 1));
    if (g() % 4 == 0) { // chains of implications with one end prefilled
        cl.clear(); V p = perm(g, nv); V sg; for (int i = 0; i < nv; i++) sg.push_back(g() % 2); for (int i = 0; i + 1 < nv; i++) { int x = 2 * p[i] + sg[i], y = 2 * p[i + 1] + sg[i + 1]; if (g() % 2) cl.push_back({x ^ 1, y}); else cl.push_back({y, x ^ 1}); }
        sol.assign(nv, -1); int e = g() % 2 ? 0 : nv - 1; sol[p[e]] = g() % 2; if (g() % 2) { int z = g() % nv; sol[p[z]] = g() % 2; } }
   
    V pre(sol.begin(), sol.end()); bool r = sat2(sol, cl);
    F("sat2").pv("cl", cl).v("pre", pre).i("r", r).v("sol", sol).put();
    F("sat2v").pv("cl", cl).v("sol", sat2(cl)).put();
}
int main(int c, char** v) {
    std::string m = v[1]; Rng g(atoi(v[2])); int n = atoi(v[3]), part = atoi(v[4]);
    if (m == "path") {
        for (int t = 0; t < n; t++) {
            int k = rnd(g, 1, t % 8 == 0 ? 14 : 7), d = rnd(g, 10, 60);
            if (t % 20 == 11) { int b = rnd(g, 20, 45); auto a = digraph(g, b, rnd(g, 4, 12), true, false, 0, 9); int s = rnd(g, 0, b - 1); F("dijkstra").raw("a", js(a)).i("src", s).i("inf", INF).vv("r", rows(dijkstra(g1(a), s, INF))).put(); wide(g, a, 0); auto u = ugraph(g, b, rnd(g, 4, 15), false, 1, rnd(g, 2, 9)); prim(u, 1); if (t % 40 == 11) floyd(b > 30 ? u : a); }
            if (t % 3 == 0) wide(g, t % 2 ? digraph(g, k, d, true, g() % 2, 0, 9) : ugraph(g, k, d, g() % 2, 1, 9), t % 2 ? (int)(g() % 2) : rnd(g, 0, 2));
            if (t % 4 == 0) dij(digraph(g, k, d, true, g() % 2, 0, 9));
            else if (t % 4 == 1) { // negative arcs, no negative cycle: potentials
                auto a = digraph(g, k, d, true, g() % 2, 0, 5); V p(k); for (auto& x : p) x = rnd(g, -9, 9);
                for (int u = 0; u < k; u++) for (auto& x : a[u]) x[1] += p[x[0]] - p[u]; floyd(a); if (t % 3 == 0) wide(g, a, 1);
            } else if (t % 4 == 2) prim(ugraph(g, k, d, g() % 2, 1, rnd(g, 1, 9)), 3);
            else { auto a = ugraph(g, k, d, g() % 2, 0, 9); floyd(a); dij(a); }
        }
        // all weightings of small complete graphs
        int idx = 0;
        for (int w = 0; w < 729; w++) { if (idx++ % 4 != part) continue; VVV a(4); int x = w; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { if (x % 3) link(a, i, j, x % 3); x /= 3; } prim(a, 1); }
    } else {
        for (int x = 0; x < 512; x++) if (x % 4 == part) order(dmask(3, x));
        for (int t = 0; t < n; t++) { int k = rnd(g, 1, t % 8 == 0 ? 12 : 7), d = rnd(g, 5, 50); order(t % 3 ? digraph(g, k, d / 2, t % 2, t % 5 == 0, 0, 0) : dag(g, k, d, t % 2)); }
        for (int t = 0; t < n / 12; t++) { int k = rnd(g, 20, 40); VVV a = t % 3 == 0 ? dag(g, k, rnd(g, 3, 10), false) : digraph(g, k, rnd(g, 2, 5), true, false, 0, 0); if (t % 3 == 1) { VVV b = forest(g, k, 1); for (int u = 0; u < k; u++) for (auto& x : b[u]) a[u].push_back(x); shuf(g, a); if (t % 2) for (int u = 0; u < k; u++) a[u].resize(std::min<size_t>(a[u].size(), 1)); } order(a); }
        for (int t = 0; t < n * 4; t++) sat(g);
    }
}
