#include "vf.h"
#include <memory>
#include "altruct/structure/container/prefix_tree.h"
using namespace vf; using namespace altruct::container;
struct Bs { virtual ~Bs() {} virtual void op(const J&) = 0; };
typedef std::vector<ll> V;
template<class T, class W, class O, class L> struct D : Bs {
    std::unique_ptr<T> t; O ord; L let; int flip = 0;
    D(O o, L l) : t(new T()), ord(o), let(l) {}
    W w(const V& v) { W r; for (ll x : v) r.push_back(let((uint8_t)x)); return r; }
    V u(const W& s) { V r; for (auto c : s) r.push_back((ll)ord(c)); return r; }
    void op(const J& j) override {
        std::string o = j.str("op"); Ev e(o.c_str()); flip++;
        W x; int i = 0; if (j.has("w")) { e.v("w", j.vec("w")); x = w(j.vec("w")); } if (j.has("i")) { i = (int)j("i"); e.i("i", i); }
        if (o == "clear") t->clear();
        if (o == "add") e.i("r", flip & 1 ? t->add(x, ord) : t->add(x.begin(), x.end(), ord));
        if (o == "append") e.i("r", flip & 1 ? t->append(i, x, ord) : t->append(i, x.begin(), x.end(), ord));
        if (o == "find") e.i("r", flip & 1 ? t->find(x, ord) : t->find(x.begin(), x.end(), ord));
        if (o == "get") e.v("r", u(t->get(i, let)));
        if (o == "erase") e.i("r", t->erase(i));
        if (o == "erasew") e.i("r", flip & 1 ? t->erase(x, ord) : t->erase(x.begin(), x.end(), ord));
        if (o == "each") { V ids; std::vector<V> ws; auto vis = [&](const W& s, int id) { ids.push_back(id); ws.push_back(u(s)); };
            if (i == 0 && (flip & 1)) t->for_each(vis, let); else t->for_each(i, vis, let); e.v("ids", ids).vv("ws", ws); }
        e.i("n", t->num_words()).i("letters", t->num_letters()).put();
    }
};
template<class T, class W, class O, class L> Bs* mk(O o, L l) { return new D<T, W, O, L>(o, l); }
int main() {
    std::unique_ptr<Bs> b; int n = 0;
    each([&](const J& j) {
        if (j.str("op") == "start") switch (n++ % 3) {
            case 0: { typedef prefix_tree<3> T; b.reset(mk<T, std::string>(T::ordinal_lower_alpha, T::letter_lower_alpha)); break; }
            case 1: { typedef prefix_tree<10, int64_t, uint16_t, std::vector<int>> T; b.reset(mk<T, std::vector<int>>([](int c) { return uint16_t(c - 1000); }, [](uint16_t c) { return int(c) + 1000; })); break; }
            case 2: { typedef prefix_tree<10> T; b.reset(mk<T, std::string>(T::ordinal_digit, T::letter_digit)); break; }
        }
        b->op(j);
    });
}
