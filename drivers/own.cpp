// Several containers of one type: copies, moves, swaps; counts live elements and outstanding memory.
#include "vf.h"
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/container/rope.h"
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include <memory>
using namespace vf; using namespace altruct::container;
static ll live = 0, mem = 0; static bool corrupt = false;
struct E { // counted element that knows its own address
    int k; const E* self; std::unique_ptr<int> own;
    E(int k = 0) : k(k), self(this), own(new int(k)) { live++; }
    E(const E& o) : k(o.k), self(this), own(new int(o.k)) { o.chk(); live++; }
    E& operator=(const E& o) { chk(); o.chk(); k = o.k; *own = o.k; return *this; }
    ~E() { chk(); self = nullptr; live--; }
    void chk() const { if (self != this || *own != k) corrupt = true; }
};
struct Cmp { int d; Cmp(int d = 0) : d(d) {} bool operator()(const E& a, const E& b) const { return d ? b.k < a.k : a.k < b.k; } };
template<class T> struct CA { // std-like counting allocator
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
    template<class U> struct rebind { typedef CA<U> other; };
    CA() {} template<class U> CA(const CA<U>&) {}
    T* allocate(size_t n) { mem += n; return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t n) { mem -= n; free(p); }
    template<class... A> void construct(T* p, A&&... a) { ::new ((void*)p) T(std::forward<A>(a)...); }
    void destroy(T* p) { p->~T(); }
    bool operator==(const CA&) const { return true; } bool operator!=(const CA&) const { return false; }
};
static uint32_t sd = 7; static int prnd() { sd = sd * 1664525u + 1013904223u; return int(sd >> 8) & 0xffff; }
typedef std::pair<const E, int> M;
static std::vector<int> ent(const E& x, int) { x.chk(); return {x.k, 0, 1}; } static std::vector<int> ent(const M& x, int c) { x.first.chk(); return {x.first.k, x.second, c}; }
template<class C> struct Mp { static const bool is = std::is_same<typename C::value_type, M>::value; };
struct Base { virtual ~Base() {} virtual void op(const J&) = 0; };
template<class C, bool SEQ> struct D : Base {
    std::unique_ptr<C> s[8]; int n; std::function<C*(int)> mk;
    D(int n, std::function<C*(int)> mk) : n(n), mk(mk) {}
    static void ins(C& c, int k, int p, std::true_type) { c.insert(p % (c.size() + 1), E(k)); }
    static void put(C& c, int k, int p, std::true_type) { c.insert(M(E(k), p), p % 4); }
    static void put(C& c, int k, int, std::false_type) { c.insert(E(k)); }
    static void ins(C& c, int k, int p, std::false_type) { put(c, k, p, std::integral_constant<bool, Mp<C>::is>()); }
    static typename C::iterator at(C& c, int p) { int n = 0; for (auto it = c.begin(); it != c.end(); ++it) n++; auto it = c.begin(); for (p %= n; p > 0; p--) ++it; return it; }
    static void setv(C& c, int p, int v, std::true_type) { (*at(c, p)).second = v; }
    static void setv(C&, int, int, std::false_type) {}
    static void delc(C& c, int p, int n, std::true_type) { c.erase(at(c, p), n); }
    static void delc(C&, int, int, std::false_type) {}
    template<class I> static int cnt(I it, std::true_type) { return it.count(); }
    template<class I> static int cnt(I, std::false_type) { return 1; }
    static void del(C& c, int p, std::true_type) { c.erase(p % c.size()); }
    static void del(C& c, int p, std::false_type) { if (Mp<C>::is) c.erase(at(c, p)); else c.erase(c.find_kth(p % c.size())); }
    static void many(C& c, int, std::true_type) { c.erase(c.size() / 3, 2 * c.size() / 3); }
    static void many(C& c, int k, std::false_type) { c.erase(E(k)); }
    void op(const J& j) override {
        typedef std::integral_constant<bool, SEQ> Q; const std::string& o = j.str("op"); Ev e(o.c_str());
        auto& a = s[j.has("i") ? j("i") - 1 : 0]; auto& b = s[j.has("j") ? j("j") - 1 : 0];
        for (auto f : {"i", "j", "k", "p", "d"}) if (j.has(f)) e.i(f, j(f));
        if (o == "make") a.reset(mk((int)j("d")));
        else if (o == "destroy") a.reset();
        else if (o == "copynew") a.reset(new C(*b));
        else if (o == "copyasg") *a = *b;
        else if (o == "movenew") a.reset(new C(std::move(*b)));
        else if (o == "moveasg") *a = std::move(*b);
        else if (o == "swap") a->swap(*b);
        else if (o == "clear") a->clear();
        else if (o == "ins") ins(*a, (int)j("k"), (int)j("p"), Q());
        else if (o == "setv") setv(*a, (int)j("p"), (int)j("k"), std::integral_constant<bool, Mp<C>::is>());
        else if (o == "delc") delc(*a, (int)j("p"), (int)j("k"), std::integral_constant<bool, Mp<C>::is>());
        else if (o == "del") del(*a, (int)j("p"), Q());
        else if (o == "delmany") many(*a, (int)j("k"), Q());
        else if (o == "end") for (auto& x : s) x.reset();
        std::vector<std::string> con(n);  std::vector<int> al(n); bool any = false;
        for (int i = 0; i < n; i++) { al[i] = !!s[i]; if (s[i]) { any = true; int tot = 0, k = 0; for (auto it = s[i]->begin(); it != s[i]->end(); ++it) { auto v = ent(*it, cnt(it, std::integral_constant<bool, !SEQ>())); tot += v[2]; con[i] += (k ? "," : "") + arr(v); if (++k > 1000) break; } if (tot != s[i]->size()) con[i] += ",[-99,0,0]"; } con[i] = "[" + con[i] + "]"; }
        std::string cs; for (auto& x : con) cs += (cs.empty() ? "" : ",") + x; e.raw("con", "[" + cs + "]").v("alive", al).i("live", corrupt ? -1 : live).i("mem", any ? -1 : mem); e.put();
    }
};
int main() {
    std::unique_ptr<Base> b;
    typedef bst_node<E> N; typedef bounded_contiguous_allocator<N> BA; const int ST = bst_duplicate_handling::STORE;
    typedef std::function<int()> R;
    each([&](const J& j) {
        if (j.str("op") == "start") {
            b.reset(); live = 0; mem = 0; corrupt = false; std::string im = j.str("impl");
            if (im == "bst") { typedef binary_search_tree<E, E, ST, Cmp, CA<N>> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d)); })); }
            if (im == "treap") { typedef treap<E, E, ST, Cmp, R, CA<N>> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d), prnd); })); }
            if (im == "rope") { typedef rope<E, R, CA<N>> C; b.reset(new D<C, true>(3, [](int) { return new C(prnd); })); }
            if (im == "bst_b") { typedef binary_search_tree<E, E, ST, Cmp, BA> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d), BA(40)); })); }
            if (im == "treap_b") { typedef treap<E, E, ST, Cmp, R, BA> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d), prnd, BA(40)); })); }
            if (im == "rope_b") { typedef rope<E, R, BA> C; b.reset(new D<C, true>(3, [](int) { return new C(prnd, BA(40)); })); }
            typedef bst_node<M> NM; const int CT = bst_duplicate_handling::COUNT, IG = bst_duplicate_handling::IGNORE;
            if (im == "bst_c") { typedef binary_search_tree<E, M, CT, Cmp, CA<NM>> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d)); })); }
            if (im == "treap_c") { typedef treap<E, M, CT, Cmp, R, CA<NM>> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d), prnd); })); }
            if (im == "bst_i") { typedef binary_search_tree<E, M, IG, Cmp, CA<NM>> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d)); })); }
            if (im == "treap_i") { typedef treap<E, M, IG, Cmp, R, CA<NM>> C; b.reset(new D<C, false>(3, [](int d) { return new C(Cmp(d), prnd); })); }
            Ev("start").str("impl", im).put();
        } else b->op(j);
    });
}
