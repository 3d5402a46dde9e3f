#include "vf.h"
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include <memory>
#include <set>
using namespace vf; using namespace altruct::container;
typedef bounded_contiguous_allocator<ll> A;
int main() {
    struct H { ll* p; ll tag; int owner; }; std::vector<std::unique_ptr<A>> as; std::map<ll, H> hs;
    // block address is learnt from the cells handed out: all cells of one allocator lie within capacity cells
    each([&](const J& j) {
        std::string o = j.str("op"); Ev e(o.c_str());
        for (auto f : {"i", "j", "c", "h"}) if (j.has(f)) e.i(f, j(f));
        int i = j.has("i") ? (int)j("i") - 1 : 0, k = j.has("j") ? (int)j("j") - 1 : 0;
        if (o == "start") { as.clear(); hs.clear(); e.put(); return; }
        if (o == "make") as.emplace_back(new A(j("c")));
        if (o == "copy") as.emplace_back(new A(*as[i]));
        if (o == "swap") { std::swap(*as[i], *as[k]); for (auto& h : hs) h.second.owner = h.second.owner == i ? k : h.second.owner == k ? i : h.second.owner; }
        if (o == "asg") *as[i] = *as[k];
        if (o == "get") { int ok = 1; try { ll* p = as[i]->allocate(1); as[i]->construct(p, 1000 + j("h")); hs[j("h")] = {p, 1000 + j("h"), i}; } catch (std::bad_alloc&) { ok = 0; } e.i("ok", ok); }
        if (o == "put") { auto& h = hs[j("h")]; as[i]->destroy(h.p); as[i]->deallocate(h.p, 1); hs.erase(j("h")); }
        std::set<ll*> d; bool inb = true, intact = true; 
        for (auto& h : hs) { d.insert(h.second.p); if (*h.second.p != h.second.tag) intact = false; }
        std::vector<ll> fr, caps;
        for (size_t x = 0; x < as.size(); x++) {
            ll* lo = 0, * hi = 0; for (auto& h : hs) if (h.second.owner == (int)x) { if (!lo || h.second.p < lo) lo = h.second.p; if (!hi || h.second.p > hi) hi = h.second.p; }
            if (lo && hi - lo >= (ptrdiff_t)as[x]->capacity()) inb = false;
            caps.push_back(as[x]->capacity());
            // free cells: take them all, then give them back
            std::vector<ll*> t; try { for (;;) { t.push_back(as[x]->allocate(1)); if (t.size() > 100) break; } } catch (std::bad_alloc&) {}
            for (auto p : t) { if (d.count(p)) intact = false; *p = -1; }
            fr.push_back(t.size()); for (auto p : t) as[x]->deallocate(p, 1);
        }
        for (auto& h : hs) if (*h.second.p != h.second.tag) intact = false;
        e.v("free", fr).v("caps", caps).i("distinct", d.size() == hs.size()).i("inblock", inb).i("intact", intact); e.put();
    });
}
