// C19: bridges, cut vertices, blocks
#include "graphgen.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
using namespace altruct::graph;
template<class Ed, class G> void bic(const VVV& a, const G& g) {
    biconnectivity<Ed> b(g); VV ce, bc; for (auto& e : b.cut_edges) ce.push_back({e.u, e.v}); for (auto& q : b.components) bc.push_back(V(q.begin(), q.end()));
    std::string dec = "["; bool f1 = true; for (auto& x : b.decomposition) { if (!f1) dec += ","; f1 = false; dec += "["; bool f2 = true; for (auto& y : x) { if (!f2) dec += ","; f2 = false; dec += arr2(y); } dec += "]"; } dec += "]";
    F("chains").raw("a", js(a)).raw("dec", dec).put();
    F("bicon").raw("a", js(a)).vv("ce", ce).v("cv", b.cut_vertices).vv("bc", bc).raw("t", js(un(b.block_cut_tree))).v("idx", b.bc_tree_idx).put();
}
int main(int c, char** v) {
    Rng g(atoi(v[2])); int n = atoi(v[3]), part = atoi(v[4]);
    for (int k = 1; k <= 4; k++) for (int x = 0; x < (1 << k * (k - 1) / 2); x++) if (x % 4 == part) bic<E0>(umask(k, x), g0(umask(k, x)));
    for (int t = 0; t < n; t++) {
        VVV a; if (t % 4 == 0) { int k = 5; a = umask(k, g() % 1024); shuf(g, a); } else if (t % 4 == 1) a = ugraph(g, rnd(g, 5, 8), rnd(g, 15, 50), false, 1, 1); else a = cactus(g, rnd(g, 5, t % 16 == 2 ? 18 : t % 8 == 2 ? 12 : 9));
        bic<E0>(a, g0(a));
    }
}
