#include "vf.h"
#include <cmath>
#include <stdexcept>
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/structure/math/modulo.h"
using namespace vf; namespace sy = altruct::parser::shunting_yard;
typedef std::mt19937_64 Rng; typedef std::vector<sy::infix_token> Tk; typedef std::vector<sy::operator_desc> Od; typedef std::vector<sy::postfix_token> Pf;
int rnd(Rng& g, int a, int b) { return a + (int)(g() % (uint64_t)(b - a + 1)); }
using IT = sy::infix_token::type_t;
struct Gen { Rng& g; const Od& T; int nx, maxx; std::vector<std::pair<int, int>> fun; int budget; std::vector<int> pre, suf, bin; Tk out; bool reuse;
    Gen(Rng& g, const Od& T, int maxx, std::vector<std::pair<int, int>> fun, int budget, bool reuse) : g(g), T(T), nx(0), maxx(maxx), fun(fun), budget(budget), reuse(reuse) {
        for (int i = 0; i < (int)T.size(); i++) if (T[i].arity == sy::operator_desc::arity_t::BINARY) bin.push_back(i); else if (T[i].associativity == sy::operator_desc::assoc_t::RIGHT) pre.push_back(i); else suf.push_back(i); }
    void put(IT t, int id = 0) { out.push_back({t, id}); }
    int pick(const std::vector<int>& v) { return v[g() % v.size()]; }
    void expr(int d) {
        for (;;) {
            while (!pre.empty() && g() % 4 == 0) put(IT::OPERATOR, pick(pre));
            int k = rnd(g, 0, 9);
            if (d > 0 && budget > 0 && k < 2) { put(IT::LEFT_PARENTHESIS); expr(d - 1); put(IT::RIGHT_PARENTHESIS); }
            else if (d > 0 && budget > 0 && k < 4 && !fun.empty()) { auto f = fun[g() % fun.size()]; int n = f.second >= 0 ? f.second : rnd(g, 0, 3); put(IT::FUNCTION, f.first); put(IT::LEFT_PARENTHESIS); for (int i = 0; i < n; i++) { if (i) put(IT::SEPARATOR); expr(d - 1); } put(IT::RIGHT_PARENTHESIS); }
            else { int x = reuse && nx && g() % 3 == 0 ? rnd(g, 0, nx - 1) : nx++; put(IT::OPERAND, x); budget--; }
            while (!suf.empty() && g() % 4 == 0) put(IT::OPERATOR, pick(suf));
            if (bin.empty() || budget <= 0 || g() % 5 == 0) return;
            put(IT::OPERATOR, pick(bin)); budget--;
        } }
};
std::string tks(const Tk& s) { std::string r = "["; for (auto& t : s) { const char* n = t.type == IT::OPERAND ? "x" : t.type == IT::OPERATOR ? "o" : t.type == IT::FUNCTION ? "f" : t.type == IT::SEPARATOR ? "," : t.type == IT::LEFT_PARENTHESIS ? "(" : ")"; r += (r.size() > 1 ? ",[\"" : "[\"") + std::string(n) + "\"," + num(t.id) + "]"; } return r + "]"; }
std::string pfs(const Pf& s) { std::string r = "["; for (auto& t : s) r += (r.size() > 1 ? ",[\"" : "[\"") + std::string(t.type == sy::postfix_token::type_t::OPERAND ? "x" : "f") + "\"," + num(t.id) + "," + num(t.num_args) + "]"; return r + "]"; }
std::string tab(const Od& T) { std::string r = "["; for (auto& t : T) r += (r.size() > 1 ? ",[" : "[") + num(t.precedence) + ",\"" + (t.associativity == sy::operator_desc::assoc_t::LEFT ? "L" : "R") + "\"," + num(t.num_args()) + "]"; return r + "]"; }
void conv(const Od& T, Tk s) {
    Pf q = sy::infix_to_postfix<>(s, T); int nx = 0, nf = 0; for (auto& t : s) { if (t.type == IT::OPERAND) nx = std::max(nx, t.id + 1); if (t.type == IT::OPERATOR || t.type == IT::FUNCTION) nf = std::max(nf, t.id + 1); }
    // free algebra: a value is the text of a term; the function gets its arguments from the stack, so each arity has an own evaluator
    int depth = 0; for (auto& t : q) { if (t.type == sy::postfix_token::type_t::OPERAND) depth++; else { if (t.num_args > depth) { F("conv").raw("T", tab(T)).raw("s", tks(s)).raw("post", pfs(q)).raw("terms", "[\"stack underflow\"]").put(); return; } depth += 1 - t.num_args; } }
    std::vector<std::string> v; for (int i = 0; i < nx; i++) v.push_back("x" + std::to_string(i));
    // evaluators see only a pointer: number of arguments by position in the postfix sequence
    std::vector<int> na; for (auto& t : q) if (t.type == sy::postfix_token::type_t::FUNCTION) na.push_back(t.num_args);
    size_t cur = 0; std::vector<std::function<std::string(std::string*)>> ev;
    for (int i = 0; i < nf; i++) ev.push_back([&, i](std::string* a) { int k = na[cur++]; std::string r = "f" + std::to_string(i) + "("; for (int j = 0; j < k; j++) r += (j ? "," : "") + a[j]; return r + ")"; });
    auto r = sy::evaluate_postfix(q, v, ev); std::string t = "["; for (auto& x : r) t += (t.size() > 1 ? "," : "") + esc(x);
    F("conv").raw("T", tab(T)).raw("s", tks(s)).raw("post", pfs(q)).raw("terms", t + "]").put();
}
Od table(Rng& g) {
    Od T; int n = rnd(g, 1, 6); bool left[7]; for (auto& x : left) x = g() % 3 != 0;
    for (int i = 0; i < n; i++) { int p = rnd(g, -2, 4); int k = rnd(g, 0, 9); using O = sy::operator_desc;
        if (k < 6) T.push_back({p, left[p + 2] ? O::assoc_t::LEFT : O::assoc_t::RIGHT, O::arity_t::BINARY});
        else if (k < 9) T.push_back({p, O::assoc_t::RIGHT, O::arity_t::UNARY}); else T.push_back({10, O::assoc_t::LEFT, O::arity_t::UNARY}); }
    return T;
}
struct bad {};
ll chk(ll v, ll lim) { if (v > lim || v < -lim) throw bad(); return v; }
template<class T, class M> void value(Rng& g, const char* nm, Tk s, const std::vector<ll>& v, const M& ev, const Od& T0, ll lim) {
    Pf q = sy::infix_to_postfix<>(s, T0); std::vector<T> w; for (ll x : v) w.push_back(T(x));
    int depth = 0; for (auto& t : q) { if (t.type == sy::postfix_token::type_t::OPERAND) depth++; else { if (t.num_args > depth || t.id >= (int)ev.size()) { F(nm).raw("T", tab(T0)).raw("s", tks(s)).raw("post", pfs(q)).v("v", v).v("val", std::vector<ll>()).put(); return; } depth += 1 - t.num_args; } }
    try { auto r = sy::evaluate_postfix(q, w, ev); std::vector<ll> o; for (auto& x : r) o.push_back(chk((ll)x, lim)); F(nm).raw("T", tab(T0)).raw("s", tks(s)).raw("post", pfs(q)).v("v", v).v("val", o).put(); } catch (bad) {}
}
typedef altruct::math::modulo<int, 10007, altruct::math::modulo_storage::CONSTANT> mod;
struct mv { mod m; mv(ll x = 0) : m((int)x) {} mv(mod m) : m(m) {} operator ll() const { return m.v; } };
int main(int argc, char** argv) {
    std::string m = argv[1]; Rng g(atoll(argv[2])); int n = atoi(argv[3]); setvbuf(stdout, 0, _IOLBF, 0); using O = sy::operator_desc; typedef long long I;
    if (m == "all") { // every arrangement of up to three operators of every table of two binary and two prefix operators
        int part = atoi(argv[4]); Tk s;
        for (int x = part; x < 3 * 3 * 3 * 2 * 2; x += n) { int a = x % 3, b = x / 3 % 3, c = x / 9 % 3; bool l1 = x / 27 % 2, l2 = x / 54; if (a == b && l1 != l2) continue;
            Od T{{a, l1 ? O::assoc_t::LEFT : O::assoc_t::RIGHT, O::arity_t::BINARY}, {b, l2 ? O::assoc_t::LEFT : O::assoc_t::RIGHT, O::arity_t::BINARY}, {c, O::assoc_t::RIGHT, O::arity_t::UNARY}, {3, O::assoc_t::LEFT, O::arity_t::UNARY}};
            std::function<void(int, int, bool)> rec = [&](int ops, int nx, bool need) {
                if (need) { s.push_back({IT::OPERAND, nx}); rec(ops, nx + 1, false); s.pop_back(); if (ops) { s.push_back({IT::OPERATOR, 2}); rec(ops - 1, nx, true); s.pop_back(); } }
                else { conv(T, s); if (ops) for (int o : {0, 1, 3}) { s.push_back({IT::OPERATOR, o}); rec(ops - 1, nx, o != 3); s.pop_back(); } } };
            rec(3, 0, true); } }
    if (m == "conv") for (int i = 0; i < n; i++) { Od T = table(g); std::vector<std::pair<int, int>> fun; for (int k = rnd(g, 0, 3); k > 0; k--) fun.push_back({(int)T.size() + k, rnd(g, -1, 3)});
            Gen G(g, T, 99, fun, rnd(g, 1, 14), true); int k = g() % 5 ? 1 : rnd(g, 2, 4); for (int j = 0; j < k; j++) { if (j) G.put(IT::SEPARATOR); G.expr(3); } conv(T, G.out); }
    if (m == "val") {
        auto& BT = sy::basic_math<I>::operators(); std::vector<std::function<I(I*)>> be, ie, raw; auto lim = 1 << 30;
        auto B0 = sy::basic_math<I>::evaluators(); auto I0 = sy::integer_math<I>::evaluators(); typedef sy::integer_math<I> IM; typedef sy::basic_math<I> BM;
        for (int k = 0; k < (int)B0.size(); k++) be.push_back([=](I* a) { if (k == BM::DIV && a[1] == 0) throw bad(); return chk(B0[k](a), lim); });
        for (int k = 0; k < (int)I0.size(); k++) ie.push_back([=](I* a) { if ((k == IM::DIV || k == IM::MOD) && a[1] == 0) throw bad(); if ((k == IM::SHL || k == IM::SHR) && (a[1] < 0 || a[1] > 17 || a[0] < 0)) throw bad();
            if (k == IM::ROL || k == IM::ROR) throw bad(); if (k == IM::SQRT && a[0] < 0) throw bad(); if (k == IM::POW && (a[1] < 0 || a[1] > 8 || std::abs(a[0]) > 9)) throw bad(); return chk(I0[k](a), 500000); });
        std::vector<std::function<mv(mv*)>> me; auto M0 = sy::basic_math<mod>::evaluators();
        for (int k = 0; k < (int)M0.size(); k++) me.push_back([=](mv* a) { mod x[2] = {a[0].m, k == BM::NEG ? a[0].m : a[1].m}; if (k == BM::NEG) return mv(M0[k](x)); if (k == BM::DIV && a[1].m.v == 0) throw bad(); return mv(M0[k](x)); });
        for (int i = 0; i < n; i++) { int w = rnd(g, 0, 4); std::vector<ll> v;
            std::vector<std::pair<int, int>> fun; if (w >= 2) fun = {{IM::SQRT, 1}, {IM::POW, 2}};
            Gen G(g, w < 2 ? BT : sy::integer_math<I>::operators(), 99, fun, rnd(g, 1, w < 2 ? 10 : 7), true); int k = g() % 6 ? 1 : 2; for (int j = 0; j < k; j++) { if (j) G.put(IT::SEPARATOR); G.expr(2); }
            for (int j = 0; j < 60; j++) v.push_back(w == 1 ? rnd(g, 0, 10006) : g() % 3 ? rnd(g, 0, 9) : rnd(g, -60, 200)); v.resize(std::max(1, G.nx));
            if (w == 0) value<I>(g, "basic", G.out, v, be, BT, lim); else if (w == 1) value<mv>(g, "mod", G.out, v, me, sy::basic_math<mod>::operators(), lim); else value<I>(g, "int", G.out, v, ie, sy::integer_math<I>::operators(), lim); }
        // each integer operator alone
        typedef sy::integer_math<I> IM2; auto& T0 = sy::integer_math<I>::operators();
        for (int k = 0; k < (int)I0.size(); k++) for (int i = 0; i < 12; i++) { Tk s; std::vector<ll> v{rnd(g, -20, 20), rnd(g, -4, 9)}; if (i % 3 == 0) v[1] = v[0]; if (i % 4 == 1) v[0] = 0;
            if (k >= (int)T0.size()) { s = {{IT::FUNCTION, k}, {IT::LEFT_PARENTHESIS}, {IT::OPERAND, 0}}; if (k == IM::POW) { s.push_back({IT::SEPARATOR}); s.push_back({IT::OPERAND, 1}); } s.push_back({IT::RIGHT_PARENTHESIS}); }
            else if (T0[k].num_args() == 1) s = {{IT::OPERATOR, k}, {IT::OPERAND, 0}}; else s = {{IT::OPERAND, 0}, {IT::OPERATOR, k}, {IT::OPERAND, 1}};
            value<I>(g, "int", s, v, ie, T0, lim); }
        { typedef sy::floating_point_math<double> FM; auto E = FM::evaluators(); double A[][2] = {{3, 0}, {2, 3}, {3, 2}, {2, 3}, {3, 2}, {3, 0}, {3, 2}, {1, 0}, {2, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {.5, 0}, {1, 0}, {1, -2}, {1, 0}, {2, 0}, {.5, 0}};
          std::vector<ll> r; for (int k = 0; k < (int)E.size() && k < 22; k++) r.push_back((ll)std::floor(1000 * E[k](A[k]) + .5)); F("flt").raw("T", tab(FM::operators())).v("vals", r).put(); }
    }
}
