#include "vf.h"
#include "altruct/structure/container/rope.h"
#include <memory>
using namespace vf; using namespace altruct::container;
static uint32_t sd = 7; static int ctr = 0;
static int r0() { sd = sd * 1664525u + 1013904223u; return int(sd >> 8) & 0xffff; }
static int r1() { return ++ctr; } static int r2() { return 1000000 - ++ctr; } static int r3() { return 7; }
typedef rope<int, std::function<int()>> R;
int main() {
    std::unique_ptr<R> r; std::function<int()> rf;
    each([&](const J& j) {
        std::string o = j.str("op"); Ev e(o.c_str());
        if (o == "start") {
            std::string im = j.str("impl"); auto v = j.vec("init"); rf = im == "inc" ? r1 : im == "dec" ? r2 : im == "eq" ? r3 : r0; ctr = 0;
            r.reset(new R(v.begin(), v.end(), rf)); e.str("impl", im).v("init", std::vector<int>(v.begin(), v.end())).put(); return;
        }
        R& a = *r; const R& c = a;
        for (auto f : {"p", "v", "e", "i", "j"}) if (j.has(f)) e.i(f, j(f));
        if (o == "iter") {
            int i = (int)j("i"), k = (int)j("j"); auto x = a.find_kth(i), y = a.find_kth(k); auto cx = c.find_kth(i), cy = c.find_kth(k);
            auto p = a.begin(); for (int q = 0; q < i; q++) p++;
            auto pl = p + (k - i), mi = p - (i - k); auto cp = c.begin() + i; auto z = cp; z += k - i; auto w = cp; w -= i - k;
            bool same = pl == y && z == cy && w == cy && x == p && cx == cp && (cy - cx) == (y - x);
            auto d = a.end(); for (int q = a.size(); q > k; q--) { auto o = d--; auto f = d; if (!(++f == o) || !(o - d == 1)) same = false; }   // walk back from the end
            auto dc = c.end(); for (int q = c.size(); q > k; q--) { auto o = dc; --dc; auto f = dc; if (f++ != dc || f != o) same = false; }
            if (!(d == y) || dc != cy) same = false;
            if (k < c.size()) { if (&x[k - i] != &*y || &cx[k - i] != &*cy || d.operator->() != &*y || dc.operator->() != &*cy || *(a.rend() - (k + 1)) != *y || *(c.rend() - (k + 1)) != *y || *(c.crbegin() + (c.size() - 1 - k)) != *y || &*y != &a[k]) same = false; }
            typename R::const_iterator conv(y); if (conv != cy || conv.pos() != k || y.pos() != k) same = false;
            e.i("diff", y - x).i("plus", same ? pl.pos() : -9).i("minus", mi.pos()).i("lt", !same || (x < y) != (cx < cy) ? 2 : x < y).i("le", (x <= y) != (cx <= cy) ? 2 : x <= y).i("gt", (x > y) != (cx > cy) ? 2 : x > y).i("ge", (x >= y) != (cx >= cy) ? 2 : x >= y).i("eq", (x == y) != (cx == cy) || (x != y) == (x == y) || (cx != cy) == (cx == cy) ? 2 : x == y);
            if (k < c.size()) e.v("deref", std::vector<int>{*pl == cp[k - i] ? *pl : -7}); else e.v("deref", std::vector<int>());
            e.put(); return;
        }
        if (o == "cmp") { auto v = j.vec("b"); std::vector<int> vi(v.begin(), v.end()); const R b(vi.begin(), vi.end(), r0); e.v("b", vi).i("eq", c == b).i("ne", c != b).i("lt", c < b).i("gt", c > b).i("le", c <= b).i("ge", c >= b).put(); return; }
        if (j.has("b")) e.i("b", j("b"));
        if (o == "push") a.push_back((int)j("v"));
        if (o == "ins") a.insert((int)j("p"), (int)j("v"));
        if (o == "insit") a.insert(a.begin() + j("p"), (int)j("v"));
        if (o == "del") { int p = (int)j("p"); if (a.size() % 2) a.erase(a.cbegin() + p); else a.erase(p); }
        if (o == "delr") { int b = (int)j("b"), f = (int)j("e"); if (b % 2) a.erase(a.cbegin() + b, a.cend() - (a.size() - f)); else a.erase(b, f); }
        if (o == "set") a[(int)j("p")] = (int)j("v");
        if (o == "setit") *a.find_kth((int)j("p")) = (int)j("v");
        if (o == "clr") a.clear();
        std::vector<int> it, rv, at, ps;
        for (auto q = a.begin(); q != a.end(); ++q) { it.push_back(*q); ps.push_back(q.pos()); if (it.size() > 100000) break; } ps.push_back(a.end().pos());
        for (auto q = c.crbegin(); q != c.crend(); ++q) { rv.push_back(*q); if (rv.size() > 100000) break; }
        for (int i = 0; i < c.size(); i++) at.push_back(c.at(i) == a.at(i) && c[i] == a[i] ? c[i] : -7);
        e.v("items", it).v("rev", rv).v("at", at).i("size", c.size()).i("empty", c.empty()).v("pos", ps).put();
    });
}
