// C20: editing operations and the chromatic polynomial
#include "graphgen.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::graph;
template<class P> V coef(const P& p, int n) { V r; for (int i = 0; i <= std::max(n, p.deg()); i++) r.push_back(p[i]); return r; }
void chrom(const VVV& a, int ty) {
    auto g = g0(a); V p = ty ? coef(chromatic_polynomial<long long>(g), a.size()) : coef(chromatic_polynomial<int>(g), a.size());
    F("chromatic").raw("a", js(a)).v("p", p).put();
}
template<class Ed> altruct::graph::graph<Ed> mk(const VVV& a);
template<> altruct::graph::graph<E0> mk<E0>(const VVV& a) { return g0(a); }
template<> altruct::graph::graph<E1> mk<E1>(const VVV& a) { return g1(a); }
template<class Ed> Ed me(ll v, ll w);
template<> E0 me<E0>(ll v, ll w) { return E0((int)v); }
template<> E1 me<E1>(ll v, ll w) { return E1((int)v, (int)w); }
template<class Ed> void edit(const J& j, altruct::graph::graph<Ed>& g) {
    const std::string& op = j.str("op"); int ret = 0;
    if (op == "new") g = altruct::graph::graph<Ed>((int)j("n"));
    if (op == "add_node") ret = g.add_node();
    if (op == "add_edge") g.add_edge(j("u"), me<Ed>(j("v"), j("w")));
    if (op == "add_edge2") g.add_edge2(j("u"), me<Ed>(j("v"), j("w")));
    if (op == "dup_edge2") { if (!g[j("u")].empty()) g.add_edge2(j("u"), g[j("u")][0]); }
    if (op == "delete_edge") g.delete_edge(j("u"), j("v"));
    if (op == "delete_node") g.delete_node(j("u"));
    if (op == "contract") g.contract(j("u"), j("v"));
    if (op == "dedup") g.deduplicate_edges(j("u"));
    if (op == "copy") { auto h = g; altruct::graph::graph<Ed> k(h.adjl); g.adjl.clear(); g = k; ret = (h == g) && !(h < g); }
    auto a = un(g); auto raw = a; for (auto& l : a) std::sort(l.begin(), l.end());
    std::string o = "{\"op\":\"" + op + "\""; for (const char* k : {"n", "w", "u", "v", "ty"}) if (j.has(k)) o += std::string(",\"") + k + "\":" + num(j(k));
    o += ",\"ret\":" + num(ret) + ",\"size\":" + num(g.size()) + ",\"edges\":" + num(g.num_edges()) + ",\"a\":" + js(a) + "}\n"; fwrite(o.data(), 1, o.size(), stdout);
}
int main(int c, char** v) {
    if (c == 1) { altruct::graph::graph<E0> a; altruct::graph::graph<E1> b; bool w = false; each([&](const J& j) { if (j.str("op") == "new") w = j("ty"); if (w) edit(j, b); else edit(j, a); }); return 0; }
    Rng g(atoi(v[2])); int n = atoi(v[3]), part = atoi(v[4]);
    for (int k = 0; k <= 4; k++) for (int x = 0; x < (1 << k * (k - 1) / 2); x++) if (x % 4 == part) chrom(umask(k, x), x & 1);
    for (int t = 0; t < n; t++) { VVV a = t % 3 ? ugraph(g, rnd(g, 5, t % 6 == 1 ? 7 : 6), rnd(g, 20, 90), false, 1, 1) : cactus(g, rnd(g, 5, 7)); chrom(a, t & 1); }
    if (part == 0) for (int k = 1; k <= 6; k++) { // named families
        VVV tr = forest(g, k, 1), cy(k), co(k); for (int i = 0; i < k; i++) link(cy, i, (i + 1) % k, 1); for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) link(co, i, j, 1);
        F("chromatic").raw("a", js(tr)).v("p", coef(chromatic_polynomial_T<int>(k), k)).put();
        if (k >= 2) F("chromatic").raw("a", js(cy)).v("p", coef(chromatic_polynomial_C<int>(k), k)).put();
        F("chromatic").raw("a", js(co)).v("p", coef(chromatic_polynomial_K<int>(k), k)).put();
    }
    for (int t = 0; t < n * 2; t++) { VVV a = digraph(g, rnd(g, 0, 3), rnd(g, 0, 60), true, false, 0, 2), b = g() % 3 ? digraph(g, rnd(g, 0, 3), rnd(g, 0, 60), true, false, 0, 2) : a; if (g() % 2) for (auto& l : b) for (auto& x : l) x[1] = 5;
        if (g() % 2) F("gcmp").raw("a", js(a)).raw("b", js(b)).i("eq", g0(a) == g0(b)).i("lt", g0(a) < g0(b)).put(); else F("gcmp").raw("a", js(a)).raw("b", js(b)).i("eq", g1(a) == g1(b)).i("lt", g1(a) < g1(b)).put(); }
}
