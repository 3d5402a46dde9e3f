#include "vf.h"
#include <algorithm>
#include "altruct/structure/container/bit_vector.h"
#include <memory>
using namespace vf; using namespace altruct::container;
struct Bs { virtual ~Bs() {} virtual void op(const J& j) = 0; };
template<class W> struct D : Bs {
    typedef bit_vector<W> V; V a, b;
    D(const std::vector<ll>& x, const std::vector<ll>& y) : a(x.begin(), x.end()), b(y.size()) { for (size_t i = 0; i < y.size(); i++) b.set(i, (int)y[i]); }
    static std::vector<int> bits(const V& v) { std::vector<int> r; for (size_t i = 0; i < v.size(); i++) r.push_back(v.bit_at(i)); return r; }
    typedef W (*U1)(W, size_t, int); typedef W (*U2)(W, W, int);
    void op(const J& j) override {
        std::string o = j.str("op"), k = j.has("k") ? j.str("k") : ""; Ev e(o.c_str()); const V& c = a;
        ll p = j.has("p") ? j("p") : 0, q = j.has("q") ? j("q") : 0, n = j.has("n") ? j("n") : 0, p2 = j.has("p2") ? j("p2") : 0, q2 = j.has("q2") ? j("q2") : 0, s = j.has("s") ? j("s") : 0;
        for (auto f : {"p", "q", "p2", "q2", "n", "v", "s"}) if (j.has(f)) e.i(f, j(f));
        if (j.has("k")) e.str("k", k);
        bool same = true;
        if (o == "cmp") { e.i("eq", a == b).i("ne", a != b).i("lt", a < b).i("gt", a > b).i("le", a <= b).i("ge", a >= b).put(); return; }
        if (o == "cmpr") { e.i("r", V::compare(a, p, q, b, p2, q2)).put(); return; }
        if (o == "ham") { e.i("r", V::hamming_distance(a, p, b, q, n)).put(); return; }
        if (o == "str") { std::vector<int> r; for (char ch : c.to_string(p, q)) r.push_back(ch - '0'); e.v("r", r).put(); return; }
        if (o == "scan") { std::vector<int> r(q - p, -1); bool ok = true; c.scan(p, q, [&](W w, size_t pos, int l) { for (int i = 0; i < l; i++) { if ((ll)pos + i >= q - p) { ok = false; break; } r[pos + i] = (w >> i) & 1; } return true; }); if (!ok) r.push_back(-2); e.v("r", r).put(); return; }
        if (o == "set") a.set(p, (int)j("v"));
        if (o == "prox") { int v = (int)j("v"); if (k == "eq") a[p] = v; if (k == "xor") a[p] ^= v; if (k == "or") a[p] |= v; if (k == "and") a[p] &= v; if (int(a[p]) != a.bit_at(p)) same = false; }
        if (o == "app1") { U1 f = k == "set0" ? V::op_set0 : k == "set1" ? V::op_set1 : k == "nop" ? V::op_nop : V::op_flip; a.apply(p, q, f); }
        if (o == "app2") { U2 f = k == "set" ? V::op_set : k == "setn" ? V::op_setn : k == "and" ? V::op_and : k == "or" ? V::op_or : k == "xor" ? V::op_xor : k == "nand" ? V::op_nand : k == "nor" ? V::op_nor : V::op_eq; V::apply(a, p, s ? a : b, q, n, f); }
        if (o == "rev") a.reverse(p, q);
        if (o == "swap") { if (s) a.swap(p2, q2, p, q); else a.swap(p, q, p2, q2); }
        if (o == "rotl") a.rotate_left(p, q, n);
        if (o == "rotr") a.rotate_right(p, q, n);
        if (o == "shr") { V t = c >> (int)n; a >>= (int)n; same = bits(t) == bits(a); }
        if (o == "shl") { V t = c << (int)n; a <<= (int)n; same = bits(t) == bits(a); }
        if (o == "comb") { V t = k == "and" ? (c & b) : k == "or" ? (c | b) : (c ^ b); if (k == "and") a &= b; else if (k == "or") a |= b; else a ^= b; same = bits(t) == bits(a); }
        if (o == "not") a = ~a;
        if (o == "resize") a.resize(n);
        if (o == "reserve") a.reserve(n);
        if (o == "push") a.push_back((int)j("v"));
        if (o == "pop") a.pop_back();
        if (o == "copy") b = a.clone();
        if (o == "xchg") std::swap(a, b);
        e.v("a", bits(a)).v("b", bits(b)).i("na", a.size()).i("same", same).put();
    }
};
int main() {
    std::unique_ptr<Bs> b;
    each([&](const J& j) {
        if (j.str("op") == "start") {
            std::string im = j.str("impl"); auto x = j.vec("x"), y = j.vec("y");
            if (im == "w8") b.reset(new D<uint8_t>(x, y)); else if (im == "w16") b.reset(new D<uint16_t>(x, y)); else if (im == "w32") b.reset(new D<uint32_t>(x, y)); else b.reset(new D<uint64_t>(x, y));
            Ev("start").str("impl", im).v("x", x).v("y", y).put();
        } else b->op(j);
    });
}
