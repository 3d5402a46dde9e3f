#pragma once
#include "vf.h"
#include <algorithm>
#include <numeric>
#include "altruct/structure/graph/graph.h"
using namespace vf;
typedef std::vector<ll> V; typedef std::vector<V> VV; typedef std::vector<VV> VVV;
typedef altruct::graph::edge E0; typedef altruct::graph::weighted_edge<int> E1; typedef altruct::graph::full_edge FE;
// adjacency lists of {v, w}
inline std::string js(const VVV& a) { std::string r = "["; bool f = true; for (auto& x : a) { if (!f) r += ","; f = false; r += arr2(x); } return r + "]"; }
inline altruct::graph::graph<E0> g0(const VVV& a) { altruct::graph::graph<E0> g((int)a.size()); for (int u = 0; u < (int)a.size(); u++) for (auto& x : a[u]) g.add_edge(u, {(int)x[0]}); return g; }
inline altruct::graph::graph<E1> g1(const VVV& a) { altruct::graph::graph<E1> g((int)a.size()); for (int u = 0; u < (int)a.size(); u++) for (auto& x : a[u]) g.add_edge(u, {(int)x[0], (int)x[1]}); return g; }
inline VVV un(const altruct::graph::graph<E0>& g) { VVV r(g.size()); for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) r[u].push_back({e.v, 0}); return r; }
inline VVV un(const altruct::graph::graph<E1>& g) { VVV r(g.size()); for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) r[u].push_back({e.v, e.w}); return r; }
inline VV heads(const altruct::graph::graph<E0>& g) { VV r(g.size()); for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) r[u].push_back(e.v); return r; }
inline void shuf(Rng& g, VVV& a) { for (auto& l : a) std::shuffle(l.begin(), l.end(), g); }
inline V perm(Rng& g, int n) { V p(n); std::iota(p.begin(), p.end(), 0); std::shuffle(p.begin(), p.end(), g); return p; }
inline VVV relabel(const VVV& a, const V& p) { VVV r(a.size()); for (size_t u = 0; u < a.size(); u++) for (auto x : a[u]) { x[0] = p[x[0]]; r[p[u]].push_back(x); } return r; }
// directed: density d percent; loops, parallel arcs
inline VVV digraph(Rng& g, int n, int d, bool loops, bool par, ll wlo, ll whi) {
    VVV a(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v || loops) for (int k = 0; k < (par ? 2 : 1); k++) if (rnd(g, 1, 100) <= d) a[u].push_back({v, rnd(g, wlo, whi)});
    shuf(g, a); return a;
}
inline VVV dag(Rng& g, int n, int d, bool par) {
    VVV a(n); for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) for (int k = 0; k < (par ? 2 : 1); k++) if (rnd(g, 1, 100) <= d) a[u].push_back({v, 0});
    a = relabel(a, perm(g, n)); shuf(g, a); return a;
}
inline void link(VVV& a, int u, int v, ll w) { a[u].push_back({v, w}); a[v].push_back({u, w}); }
inline bool adj(const VVV& a, int u, int v) { for (auto& x : a[u]) if (x[0] == v) return true; return false; }
inline VVV ugraph(Rng& g, int n, int d, bool par, ll wlo, ll whi) {
    VVV a(n); for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) for (int k = 0; k < (par ? 2 : 1); k++) if (rnd(g, 1, 100) <= d) link(a, u, v, rnd(g, wlo, whi));
    shuf(g, a); return a;
}
// undirected simple graph number mask on n nodes
inline VVV umask(int n, ll mask) { VVV a(n); int b = 0; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, b++) if (mask >> b & 1) link(a, u, v, 1); return a; }
inline VVV dmask(int n, ll mask) { VVV a(n); int b = 0; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++, b++) if (mask >> b & 1) a[u].push_back({v, 1}); return a; }
// forests: path, star, caterpillar, random, binary
inline VVV forest(Rng& g, int n, int comps) {
    VVV a(n); int sh = rnd(g, 0, 4);
    for (int v = 1; v < n; v++) {
        if (v < comps) continue; int u = 0;
        if (sh == 0) u = v - 1; else if (sh == 1) u = rnd(g, 0, std::min(v - 1, std::max(0, comps - 1))); else if (sh == 2) u = rnd(g, std::max(0, v - 3), v - 1); else if (sh == 3) u = rnd(g, 0, v - 1); else u = (v - 1) / 2;
        link(a, u, v, rnd(g, 1, 99));
    }
    a = relabel(a, perm(g, n)); shuf(g, a); return a;
}
// glued blocks: cycles, cliques, bridges, theta graphs hung on random nodes
inline VVV cactus(Rng& g, int n) {
    VVV a(1);
    while ((int)a.size() < n) {
        int r = rnd(g, 0, (int)a.size() - 1), room = n - (int)a.size(), sh = rnd(g, 0, 5);
        if (sh == 0) { a.push_back({}); continue; }                                   // a new component
        if (sh == 1 || room == 1) { a.push_back({}); link(a, r, (int)a.size() - 1, 1); continue; } // bridge
        int k = rnd(g, 2, std::min(room, 4)); V c{r}; for (int i = 0; i < k; i++) { c.push_back(a.size()); a.push_back({}); }
        for (int i = 0; i <= k; i++) link(a, c[i], c[(i + 1) % (k + 1)], 1);
        if (sh == 3 && k == 3 && !adj(a, c[0], c[2])) link(a, c[0], c[2], 1);
        if (sh == 4 && k >= 3) { for (int i = 0; i <= k; i++) for (int j = 0; j < i; j++) if (!adj(a, c[i], c[j])) link(a, c[i], c[j], 1); }
    }
    a = relabel(a, perm(g, n)); shuf(g, a); return a;
}
