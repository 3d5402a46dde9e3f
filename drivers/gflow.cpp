// C18: maximum flow, matching, assignment
#include "graphgen.h"
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/hungarian.h"
using namespace altruct::graph;
template<class T> void flows(Rng& g, const VV& cap, int s, int t) {
    int n = cap.size(); std::vector<std::vector<T>> c(n); for (int i = 0; i < n; i++) c[i].assign(cap[i].begin(), cap[i].end());
    T tot = 1; for (auto& r : cap) for (auto x : r) tot += (T)x;
    dinic_flow<T> d(c); if (g() % 4 == 0) d.calc_max_flow(t, s); if (g() % 3 == 0) { auto d2 = d; d = d2; } T f = d.calc_max_flow(s, t);
    F("dinic").vv("c", cap).i("s", s).i("t", t).vv("flow", d.flow).i("val", f).put();
    push_relabel_flow<T> p(c, g() % 2 ? tot : (T)1000000); if (g() % 4 == 0) p.calc_max_flow(t, s, g() % 2);
    f = p.calc_max_flow(s, t, g() % 2 ? push_relabel_flow<T>::RELABEL_TO_FRONT : push_relabel_flow<T>::LARGEST_LABEL);
    F("pushrelabel").vv("c", cap).i("s", s).i("t", t).vv("flow", p.flow).i("val", f).put();
}
// larger capacities and costs: every number must be the small one scaled (checked here, reported unscaled)
template<class T> ll un1(T w, T sc) { ll z = (ll)(w / sc); return sc * (T)z == w ? z : -999983; }
template<class T> VV un2(const std::vector<std::vector<T>>& m, T sc) { VV r; for (auto& l : m) { V q; for (auto w : l) q.push_back(un1<T>(w, sc)); r.push_back(q); } return r; }
template<class T> void flows_scaled(Rng& g, const VV& cap, int s, int t, T sc) {
    std::vector<std::vector<T>> c; T tot = sc; for (auto& l : cap) { std::vector<T> q; for (auto x : l) { q.push_back(sc * (T)x); tot += sc * (T)x; } c.push_back(q); }
    dinic_flow<T> d(c, tot); T f = d.calc_max_flow(s, t); F("dinic").vv("c", cap).i("s", s).i("t", t).vv("flow", un2<T>(d.flow, sc)).i("val", un1<T>(f, sc)).put();
    push_relabel_flow<T> p(c, tot); f = p.calc_max_flow(s, t, g() % 2 ? push_relabel_flow<T>::RELABEL_TO_FRONT : push_relabel_flow<T>::LARGEST_LABEL);
    F("pushrelabel").vv("c", cap).i("s", s).i("t", t).vv("flow", un2<T>(p.flow, sc)).i("val", un1<T>(f, sc)).put();
}
template<class T> void assign_scaled(Rng& g, int k, T sc) {
    hungarian<T> h; h.resize(k); VV c(k, V(k)); bool mn = g() % 2; ll lo = g() % 2 ? 0 : -30, hi = lo + (g() % 2 ? 60 : 4);
    for (int x = 0; x < k; x++) for (int y = 0; y < k; y++) { c[x][y] = rnd(g, lo, hi); h.cost(x, y) = sc * (T)c[x][y]; }
    T val = mn ? h.calc_min_cost() : h.calc_max_cost(); V xy(h.get_matches_for_x().begin(), h.get_matches_for_x().begin() + k), yx(h.get_matches_for_y().begin(), h.get_matches_for_y().begin() + k);
    F("assign").vv("c", c).i("min", mn).i("val", un1<T>(val, sc)).v("xy", xy).v("yx", yx).put();
}
struct CE { int u, v, tag; };
int main(int c, char** v) {
    Rng g(atoi(v[2])); int n = atoi(v[3]);
    for (int t = 0; t < n; t++) {
        int k = rnd(g, 2, t % 25 == 3 ? 26 : t % 6 == 0 ? 12 : 6); VV cap(k, V(k)); int d = rnd(g, 20, 80), hi = t % 3 == 0 ? 1 : t % 3 == 1 ? 4 : 50;
        int sh = g() % 4;
        if (sh < 2) { for (int u = 0; u < k; u++) for (int w = 0; w < k; w++) if (u != w && rnd(g, 1, 100) <= d) cap[u][w] = rnd(g, 1, hi); }
        else { int L = rnd(g, 2, 4); for (int u = 0; u < k; u++) for (int w = 0; w < k; w++) { int a = u * L / k, b = w * L / k; if (u != w && (b == a + 1 || (sh == 3 && b <= a && rnd(g, 0, 3) == 0)) && rnd(g, 1, 100) <= d + 20) cap[u][w] = rnd(g, 1, hi); } }
        if (g() % 5 == 0) cap[g() % k][g() % k] += rnd(g, 1, hi);
        int s = sh < 2 ? rnd(g, 0, k - 1) : 0, e = sh < 2 ? rnd(g, 0, k - 1) : k - 1; if (s == e) e = (s + 1) % k;
        if (g() % 2) { V p = perm(g, k); VV q(k, V(k)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) q[p[i]][p[j]] = cap[i][j]; cap = q; s = p[s]; e = p[e]; }
        if (t % 5 == 2) { switch (g() % 3) { case 0: flows_scaled<ll>(g, cap, s, e, 3000000019LL); break; case 1: flows_scaled<ll>(g, cap, s, e, 1LL << 32); break; default: flows_scaled<double>(g, cap, s, e, 1.0 / 16); } }
        if (g() % 2) flows<int>(g, cap, s, e); else flows<long long>(g, cap, s, e);
    }
    for (int t = 0; t < n; t++) {
        int big = t % 12 == 5 ? 20 : 6, l = rnd(g, 1, big), r = rnd(g, 1, big), d = rnd(g, big == 6 ? 10 : 4, big == 6 ? 70 : 20); V p = perm(g, l + r + 1); VV el; std::vector<FE> es;
        for (int i = 0; i < l; i++) for (int j = 0; j < r; j++) if (rnd(g, 1, 100) <= d) { es.push_back({(int)p[i], (int)p[l + j]}); if (g() % 9 == 0) es.push_back(es.back()); }
        std::shuffle(es.begin(), es.end(), g); for (auto& e : es) el.push_back({e.u, e.v});
        VV sel; for (auto& e : bipartite_matching(l + r + 1, es)) sel.push_back({e.u, e.v});
        F("matching").vv("e", el).vv("sel", sel).put();
    }
    hungarian<int> shared; hungarian<long long> hl;
    for (int t = 0; t < n / 6; t++) { int k = rnd(g, t % 2 ? 6 : 1, t % 2 ? 16 : 6); switch (g() % 3) { case 0: assign_scaled<int>(g, k, 1); break; case 1: assign_scaled<ll>(g, k, 5000000029LL); break; default: assign_scaled<double>(g, k, 0.125); } }
    for (int t = 0; t < n; t++) {
        int k = rnd(g, 1, t % 10 == 0 ? 6 : 5), lo = g() % 2 ? 0 : -20, hi = g() % 3 ? 20 : lo + 2; VV c(k, V(k)); bool mn = g() % 2; hungarian<int> own; auto& h = g() % 2 ? shared : own; h.resize(k);
        for (int x = 0; x < k; x++) for (int y = 0; y < k; y++) h.cost(x, y) = c[x][y] = rnd(g, lo, hi);
        if (g() % 3 == 0) { if (g() % 2) h.calc_max_cost(); else h.calc_min_cost(); }
        int val = mn ? h.calc_min_cost() : h.calc_max_cost(); V xy(h.get_matches_for_x().begin(), h.get_matches_for_x().begin() + k), yx(h.get_matches_for_y().begin(), h.get_matches_for_y().begin() + k);
        F("assign").vv("c", c).i("min", mn).i("val", val).v("xy", xy).v("yx", yx).put();
    }
}
