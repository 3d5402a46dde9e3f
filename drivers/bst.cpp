// Drives binary_search_tree and treap through their public API.
#include "vf.h"
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include <memory>
using namespace vf;
using namespace altruct::container;

struct Cmp { int d; Cmp(int d = 0) : d(d) {} bool operator()(int a, int b) const { return d ? b < a : a < b; } };
static uint32_t seed_ = 1; static int rnd_mode = 0; static int ctr = 0;
static int my_rand() {
    switch (rnd_mode) {
    case 1: return ++ctr;             // degenerate priorities
    case 2: return 1000000 - ++ctr;
    case 3: return 7;                 // all equal
    default: seed_ = seed_ * 1664525u + 1013904223u; return int(seed_ >> 8) & 0xffff;
    }
}
struct Base { virtual ~Base() {} virtual void op(const J& e) = 0; };

template<class TREE, bool MAP> struct Val;
template<class TREE> struct Val<TREE, true> {
    static typename TREE::value_type mk(int k, int v) { return {k, v}; }
    static int k(const typename TREE::value_type& t) { return t.first; }
    static int v(const typename TREE::value_type& t) { return t.second; }
};
// set flavour: the value is packed below the key so that equal keys stay distinguishable
struct PK { int k, v; };
struct CmpP { int d; CmpP(int d = 0) : d(d) {} bool operator()(const PK& a, const PK& b) const { return d ? b.k < a.k : a.k < b.k; } };
template<class TREE> struct Val<TREE, false> {
    static PK mk(int k, int v) { return {k, v}; }
    static int k(const PK& t) { return t.k; }
    static int v(const PK& t) { return t.v; }
};
template<class TREE, class KEY, bool MAP, class CM>
struct D : Base {
    typedef Val<TREE, MAP> V; typedef typename TREE::iterator It; typedef typename TREE::const_iterator CIt;
    TREE t; int mode, desc; CM cm;
    D(TREE&& t, int mode, int desc) : t(t), mode(mode), desc(desc), cm(desc) {}
    KEY key(int k) { return mkkey(k, (KEY*)0); }
    static int mkkey(int k, int*) { return k; }
    static PK mkkey(int k, PK*) { return {k, -1}; }
    int idx(CIt it) { int n = 0; for (CIt i = ((const TREE&)t).begin(); i != it; ++i) if (++n > 100000) return -1; return n; }
    It nth(int i) { It it = t.begin(); while (i--) ++it; return it; }
    std::string ent(CIt it) { return "[" + num(V::k(*it)) + "," + num(V::v(*it)) + "," + num(it.count()) + "]"; }
    void obs(Ev& e) {
        const TREE& c = t;
        std::string s = "[", r = "[", p = "[", k = "["; int n = 0;
        for (auto it = t.begin(); it != t.end(); it++) { if (n++) s += ","; s += ent(it); if (n > 100000) break; }
        int m = 0;
        for (auto it = c.end(); it != c.begin();) { --it; if (m++) r += ","; r += ent(it); if (m > 100000) break; }
        if (mode != 1) { for (auto it = c.cbegin(); it != c.cend(); ++it) { p += num(it.pos()) + ","; } p += num(c.cend().pos()); }
        for (int i = 0; i < c.size(); i++) { auto it = c.find_kth(i); if (i) k += ","; k += it == c.end() ? "-1" : num(V::v(*it)); }
        e.raw("items", s + "]").raw("rev", r + "]").i("size", c.size()).i("empty", c.empty()).raw("kth", k + "]");
        e.i("kthend", c.find_kth(c.size()) == c.end() && t.find_kth(t.size()) == t.end()).raw("pos", p + "]");
        // the root iterator spans the whole container, reverse iterators agree with the reversed walk
        int rr = 0; bool ok = true; auto ri = c.crbegin();
        for (auto it = c.cend(); it != c.cbegin();) { --it; if (ri == c.crend() || V::v(*ri) != V::v(*it)) { ok = false; break; } ++ri; if (++rr > 100000) break; }
        e.i("root", (c.size() == 0 ? c.root() == c.end() : c.root().size() == c.size()) && ok && ri == c.crend()).i("lens", n);
    }
    void op(const J& j) override {
        const std::string& o = j.str("op"); Ev e(o.c_str()); const TREE& c = t;
        if (o == "ins") { It it = t.insert(V::mk(j("k"), j("v")), (int)j("c")); e.i("k", j("k")).i("v", j("v")).i("c", j("c")).raw("r", ent(it)).i("ri", idx(it)); obs(e); }
        else if (o == "insb") { It it = t.insert_before(nth(j("p")), V::mk(j("k"), j("v"))); e.i("p", j("p")).i("k", j("k")).i("v", j("v")).raw("r", ent(it)).i("ri", idx(it)); obs(e); }
        else if (o == "ers") { t.erase(key(j("k")), (int)j("c")); e.i("k", j("k")).i("c", j("c")); obs(e); }
        else if (o == "ersall") { t.erase(key(j("k"))); e.i("k", j("k")); obs(e); }
        else if (o == "ersat") { t.erase(nth(j("i")), (int)j("c")); e.i("i", j("i")).i("c", j("c")); obs(e); }
        else if (o == "ersr") { t.erase(nth(j("i")), nth(j("j"))); e.i("i", j("i")).i("j", j("j")); obs(e); }
        else if (o == "clr") { t.clear(); obs(e); }
        else if (o == "q") {
            KEY k = key(j("k")); auto er = c.equal_range(k); auto er2 = t.equal_range(k);
            bool same = er.first == CIt(er2.first) && er.second == CIt(er2.second) && CIt(t.find(k)) == c.find(k) && CIt(t.lower_bound(k)) == c.lower_bound(k) && CIt(t.upper_bound(k)) == c.upper_bound(k);
            e.i("k", j("k")).i("cl", c.count_less(k)).i("cle", c.count_less_or_equal(k)).i("cnt", c.count(k)).i("find", same ? idx(c.find(k)) : -2).i("lb", idx(c.lower_bound(k))).i("ub", idx(c.upper_bound(k))).v("er", std::vector<int>{idx(er.first), idx(er.second)});
        }
        else if (o == "add") { e.i("i", j("i")).i("off", j("off")).i("r", idx(nth(j("i")).add(j("off")))); }
        else if (o == "cmp") {
            TREE u = mk(cm); for (ll k : j.vec("ks")) u.insert(V::mk(k, 0)); const TREE& a = t, & b = u;
            e.v("ks", j.vec("ks")).i("eq", a == b).i("ne", a != b).i("lt", a < b).i("gt", a > b).i("le", a <= b).i("ge", a >= b);
        }
        else if (o == "take") {
            std::string how = j.str("how"); CM m2((int)j("desc")); cm = m2; TREE u = mk(m2); int v = (int)j("v"); for (ll k : j.vec("ks")) u.insert(V::mk((int)k, v++));
            std::string oth = "[";
            if (how == "asg") t = u; else if (how == "mov") t = std::move(u); else if (how == "swp") t.swap(u); else if (how == "ctr") reborn(TREE(u)); else { TREE w(std::move(u)); reborn(std::move(w)); }
            if (how == "swp" || how == "asg" || how == "ctr") { int n = 0; for (auto it = u.begin(); it != u.end(); ++it) { if (n++) oth += ","; oth += ent(it); if (n > 100000) break; } }
            if (how == "swp") for (ll k : j.vec("ks")) u.insert(V::mk((int)k, -5)); // what was swapped out lives on by itself
            if (how == "asg") u.clear();
            e.v("ks", j.vec("ks")).i("desc", j("desc")).str("how", how).i("v", j("v")).raw("other", oth + "]"); obs(e);
        }
        e.put();
    }
    void reborn(TREE&& w) { t.~TREE(); new (&t) TREE(std::move(w)); }
    static TREE mk(CM cm) { return mk2(cm, (TREE*)0); }
    template<class K, class T, int DUP, class C, class A> static TREE mk2(CM cm, binary_search_tree<K, T, DUP, C, A>*) { return TREE(cm); }
    template<class K, class T, int DUP, class C, class R, class A> static TREE mk2(CM cm, treap<K, T, DUP, C, R, A>*) { return TREE(cm, my_rand); }
};
template<int DUP> Base* make(const std::string& im, int mode, int d) {
    typedef std::pair<const int, int> P;
    typedef binary_search_tree<int, P, DUP, Cmp> BM; typedef treap<int, P, DUP, Cmp> TM;
    typedef binary_search_tree<PK, PK, DUP, CmpP> BS; typedef treap<PK, PK, DUP, CmpP> TS;
    ctr = 0; rnd_mode = im == "treap1" ? 1 : im == "treap2" ? 2 : im == "treap3" ? 3 : 0;
    if (im == "bst") return new D<BM, int, true, Cmp>(BM(Cmp(d)), mode, d);
    if (im == "bstset") return new D<BS, PK, false, CmpP>(BS(CmpP(d)), mode, d);
    if (im == "treapset") return new D<TS, PK, false, CmpP>(TS(CmpP(d), my_rand), mode, d);
    return new D<TM, int, true, Cmp>(TM(Cmp(d), my_rand), mode, d);
}
int main() {
    std::unique_ptr<Base> b;
    each([&](const J& j) {
        if (j.str("op") == "new") {
            std::string m = j.str("mode"); int d = (int)j("desc");
            b.reset(m == "ignore" ? make<bst_duplicate_handling::IGNORE>(j.str("impl"), 0, d) : m == "count" ? make<bst_duplicate_handling::COUNT>(j.str("impl"), 1, d) : make<bst_duplicate_handling::STORE>(j.str("impl"), 2, d));
            Ev("new").str("impl", j.str("impl")).str("mode", m).i("desc", d).put();
        } else b->op(j);
    });
}
