// C17: depth-first search, lowest common ancestors, heavy-light decomposition
#include "graphgen.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
using namespace altruct::graph;
template<class G> void hld(const VVV& a, G g) {
    int n = a.size(); heavy_light_decomposition h(g); V pos, node, cp, sz; for (int u = 0; u < n; u++) { pos.push_back(h.position(u)); node.push_back(h.node(u)); cp.push_back(h.parent(u)); sz.push_back(h.subtree_size(u)); }
    F("hld").raw("a", js(a)).raw("b", js(un(g))).v("pos", pos).v("node", node).v("cpar", cp).v("sz", sz).put();
}
void tree(Rng& r, VVV a, bool connected) {
    int n = a.size(); auto g = g0(a);
    auto pa = parents(g); F("parents").raw("a", js(a)).v("r", pa).put();
    { lowest_common_ancestor l(g); V dep; VV q; for (int u = 0; u < n; u++) dep.push_back(l.depth(u)); if (l.depth(-1) != -1) dep.push_back(-99);
      for (int i = 0; i < 2 * n + 6; i++) { int u = rnd(r, i ? 0 : -1, n - 1), v = rnd(r, i == 1 ? -1 : 0, n - 1); q.push_back({u, v, l.ancestor(u, v), l.distance(u, v)}); }
      if (n <= 6) for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) q.push_back({u, v, l.ancestor(u, v), l.distance(u, v)});
      F("lca").raw("a", js(a)).v("dep", dep).vv("q", q).put(); }
    VVV z = a; for (auto& l : z) for (auto& x : l) x[1] = 0;
    if (r() % 2) hld(a, g1(a)); else hld(z, g);
    auto gg = g0(a); heavy_light_decomposition_ex h(gg); V node, kpv; VV kp; std::string ws = "[";
    for (int u = 0; u < n; u++) node.push_back(h.node(u));
    for (int i = 0; i < n + 4; i++) { int u = rnd(r, 0, n - 1), k = rnd(r, -1, std::min(n + 1, 8)); if (i < n) { u = i; k = std::min(h.depth(u), (int)rnd(r, 0, 30)); } kp.push_back({u, k, h.parent(u, k)}); }
    for (int i = 0; i < (n <= 5 ? 2 * n * n : 24); i++) {
        int u = rnd(r, 0, n - 1), v = rnd(r, 0, n - 1), nodes = i % 2; if (n <= 5) { u = i / 2 % n; v = i / 2 / n; }
        if (h.ancestor(u, v) < 0) continue; VV s;
        auto f = [&](int b, int e, int pf, int pl, int len, bool d) { s.push_back({b, e, pf, pl, len, d}); };
        int ret = nodes ? h.walk_nodes(u, v, f) : h.walk_edges(u, v, f);
        if (ws.size() > 1) ws += ","; ws += "{\"u\":" + num(u) + ",\"v\":" + num(v) + ",\"nodes\":" + num(nodes) + ",\"ret\":" + num(ret) + ",\"segs\":" + arr2(s) + "}";
    }
    F("hldex").raw("a", js(a)).v("node", node).vv("kp", kp).raw("walks", ws + "]").put();
}
// ancestors and distances in larger trees
void bigtree(Rng& r, const VVV& a) {
    int n = a.size(); auto g = g0(a); lowest_common_ancestor l(g); V dep; VV q; for (int u = 0; u < n; u++) dep.push_back(l.depth(u));
    for (int i = 0; i < 120; i++) { int u = rnd(r, 0, n - 1), v = rnd(r, 0, n - 1); q.push_back({u, v, l.ancestor(u, v), l.distance(u, v)}); }
    F("lca").raw("a", js(a)).v("dep", dep).vv("q", q).put();
    heavy_light_decomposition_ex h(g); VV kp; for (int i = 0; i < 120; i++) { int u = rnd(r, 0, n - 1), k = r() % 4 ? rnd(r, 0, h.depth(u)) : h.depth(u) + rnd(r, 0, 1); kp.push_back({u, k, h.parent(u, k)}); }
    F("hldex").raw("a", js(a)).v("node", V()).vv("kp", kp).raw("walks", "[]").put();
}
void dfs(Rng& r, const VVV& a) {
    auto g = g0(a); int n = a.size(); V rej; for (int u = 0; u < n; u++) if (r() % 6 == 0) rej.push_back(u); if (r() % 2) rej.clear();
    int src = r() % 3 == 0 ? rnd(r, 0, n - 1) : -1; VV ev;
    auto f = [&](int o, int p, int u, int d) { ev.push_back({o, p, u, d}); return u < 0 || std::find(rej.begin(), rej.end(), u) == rej.end(); };
    if (src < 0 && r() % 2) iterative_dfs(g, f); else iterative_dfs(g, f, src);
    F("dfs").raw("a", js(a)).v("rej", rej).i("src", src).vv("ev", ev).put();
}
int main(int c, char** v) {
    Rng g(atoi(v[2])); int n = atoi(v[3]), part = atoi(v[4]);
    for (int k = 1; k <= 4; k++) for (int x = 0; x < (1 << k * (k - 1) / 2); x++) { auto a = umask(k, x); int e = 0; for (auto& l : a) e += l.size(); e /= 2;
        // forests only: n - components edges
        std::vector<int> p(k); std::iota(p.begin(), p.end(), 0); std::function<int(int)> fd = [&](int q) { return p[q] == q ? q : p[q] = fd(p[q]); }; bool ok = true;
        for (int u = 0; u < k; u++) for (auto& y : a[u]) if (u < y[0]) { int s = fd(u), t = fd(y[0]); if (s == t) ok = false; p[s] = t; }
        if (ok && x % 4 == part) tree(g, a, false); }
    for (int t = 0; t < n; t++) { int k = rnd(g, 2, t % 10 == 0 ? 40 : 12); tree(g, forest(g, k, t % 3 ? 1 : rnd(g, 1, 4)), t % 3); }
    for (int t = 0; t < std::max(1, n / 20); t++) bigtree(g, forest(g, rnd(g, 64, 270), rnd(g, 1, 2)));
    for (int t = 0; t < n * 2; t++) dfs(g, t % 2 ? digraph(g, rnd(g, 1, 8), rnd(g, 5, 50), true, g() % 2, 0, 0) : ugraph(g, rnd(g, 1, 8), rnd(g, 5, 50), false, 0, 0));
}
