#include "bt.h"
#include "altruct/structure/math/symbolic.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/algorithm/math/reduce.h"
using namespace vf; using namespace altruct::math;
typedef symbolic Y;
S ch(const std::string& t) { S r = "["; for (char c : t) r += (r.size() > 1 ? "," : "") + esc(S(1, c)); return r + "]"; }
S ch(const Y& y) { return ch(y.v); }
S chs(const V<Y>& v) { S r = "["; for (auto& y : v) r += (r.size() > 1 ? "," : "") + ch(y); return r + "]"; }
const char* names[] = {"x", "y", "ab", "k2", "z", "alpha"};
Y atom(Rng& g) { switch (g() % 8) { case 0: return Y((int)(g() % 41) - 20); case 1: return castOf<Y>((int)(g() % 2000)); case 2: return identityOf(Y("q")); case 3: return zeroOf(Y(7)); case 4: return castOf(Y("w"), (int)(g() % 9)); default: return Y(std::string(names[g() % 6])); } }
Y un(char o, const Y& x) { switch (o) { case '+': return +x; case '-': return -x; case '~': return ~x; default: return !x; } }
Y bin(const std::string& o, const Y& x, const Y& y) { if (o == "+") return x + y; if (o == "-") return x - y; if (o == "*") return x * y; if (o == "/") return x / y; if (o == "%") return x % y; if (o == "&") return x & y; if (o == "|") return x | y; if (o == "^") return x ^ y; if (o == "<<") return x << y; if (o == ">>") return x >> y; if (o == "&&") return x && y; return x || y; }
Y& asg(const std::string& o, Y& x, const Y& y) { if (o == "+") return x += y; if (o == "-") return x -= y; if (o == "*") return x *= y; if (o == "/") return x /= y; if (o == "%") return x %= y; if (o == "&") return x &= y; if (o == "|") return x |= y; if (o == "^") return x ^= y; if (o == "<<") return x <<= y; return x >>= y; }
const char* ops[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||"};
void prog(Rng& g, int len) { V<Y> st; S p = "["; auto add = [&](const S& k, const S& l) { p += (p.size() > 1 ? ",[" : "[") + esc(k) + "," + l + "]"; };
    for (int i = 0; i < len; i++) { int c = g() % 12; size_t n = st.size();
        if (n == 0 || c < 4) { Y a = atom(g); add("p", ch(a)); st.push_back(a); }
        else if (c < 6) { char o = "+-~!"[g() % 4]; Y b = st.back(), k = b; Y r = un(o, b); st.back() = r; if (b.v != k.v) st.back() = Y(std::string("operand changed")); add("u", ch(S(1, o))); }
        else if (c == 6 && n < 6 && st.back().v.size() < 60) { st.push_back(st.back()); add("d", "[]"); }
        else if (c == 7 && n > 1) { std::swap(st[n - 1], st[n - 2]); add("s", "[]"); }
        else if (n > 1) { std::string o = ops[g() % 12]; Y x = st[n - 2], y = st[n - 1]; st.pop_back(); add("b", S("[") + esc(o.c_str()) + "]");
            if (o != "&&" && o != "||" && g() % 2) { Y* q = &asg(o, st.back(), y); if (q != &st.back()) st.back() = Y(std::string("wrong reference")); } else { Y kx = x, ky = y; st.back() = bin(o, x, y); if (x.v != kx.v || y.v != ky.v) st.back() = Y(std::string("operand changed")); } }
        else if (n == 1 && st[0].v.size() < 60) { // both operands the same object
            std::string o = ops[g() % 10]; add("d", "[]"); add("b", S("[") + esc(o.c_str()) + "]"); if (g() % 2) asg(o, st[0], st[0]); else st[0] = bin(o, st[0], st[0]); } }
    P("run", p + "]", chs(st)); }
S envs(Rng& g, int lim) { S r = "["; for (int e = 0; e < 3; e++) { r += e ? ",[" : "["; for (int i = 0; i < 6; i++) r += (i ? ",[" : "[") + ch(std::string(names[i])) + "," + i32((int)(g() % (2 * lim + 1)) - lim) + "]"; r += "]"; } return r + "]"; }
Y ring(Rng& g, int depth) { if (depth == 0 || g() % 3 == 0) return g() % 4 ? Y(std::string(names[g() % 6])) : Y((int)(g() % 7) - 3); Y x = ring(g, depth - 1), y = ring(g, depth - 1); switch (g() % 4) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return -x; } }
void algs(Rng& g) { { int k = g() % 14; Y x{std::string(names[g() % 6])}; S e = envs(g, 3); P("pow", e, ch(x), i32(k), ch(powT(x, k))); P("pow", e, ch(x), i32(k), ch(powT(x, (ll)k))); }
    V<Y> v; int n = g() % 6; for (int i = 0; i < n; i++) v.push_back(ring(g, 1)); { S e = envs(g, 3); P("sum", e, chs(v), ch(reduce_sum(v))); P("prod", e, chs(v), ch(reduce_product(v))); }
    { int a = 1 + g() % 3, b = 1 + g() % 3, d = 1 + g() % 3; matrix<Y> A(a, b, Y(0)), B(b, d, Y(0)); auto tab = [&](const matrix<Y>& M, int r, int c) { S t = "["; for (int i = 0; i < r; i++) { t += i ? ",[" : "["; for (int j = 0; j < c; j++) t += (j ? "," : "") + ch(M[i][j]); t += "]"; } return t + "]"; };
        for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) A[i][j] = ring(g, 1); for (int i = 0; i < b; i++) for (int j = 0; j < d; j++) B[i][j] = ring(g, 1); auto C = A * B; P("matmul", envs(g, 5), tab(A, a, b), tab(B, b, d), tab(C, a, d)); }
    { Y a = ring(g, 2), b = ring(g, 2), c = ring(g, 2), d = ring(g, 2); vector2d<Y> p(a, b), q(c, d); P("dot", envs(g, 5), ch(a), ch(b), ch(c), ch(d), S("[") + ch(p & q) + "," + ch(p ^ q) + "]"); } }
int main(int argc, char** argv) { Rng g(atoll(argv[1])); int n = atoi(argv[2]); setvbuf(stdout, 0, _IOLBF, 0);
    for (int i = 0; i < n; i++) { prog(g, 1 + i % 24); if (i % 4 == 0) algs(g); }
    flushall(); }
