#include "vf.h"
#include <array>
#include <memory>
#include <set>
#include <map>
#include <sstream>
#include <unordered_set>
#include <unordered_map>
#include "altruct/io/iostream_overloads.h"
#include "altruct/io/stream_tokenizer.h"
using namespace vf; using namespace altruct::math; namespace tk = altruct::io::stream_tokenizer;
typedef std::vector<ll> V;
struct scope { virtual ~scope() {} };
template<class M> struct scoped : scope { M m; scoped(bool v) : m(v) {} };
static std::vector<std::unique_ptr<scope>> stk;
typedef modulo<int, 7, modulo_storage::CONSTANT> mod7; typedef moduloX<int> modx; typedef fraction<int> fr;
static std::string bytes(const std::string& s) { V v; for (unsigned char c : s) v.push_back(c); return arr(v); }
static std::string text(const std::string& ty, const V& b, int n) {
    std::vector<int> a(b.begin(), b.end()); std::ostringstream os; auto nz = [](int x) { return x ? x : 1; }; std::vector<int> v(a.begin(), a.begin() + n);
    typedef vector3d<int> v3; using namespace altruct::math::pga; auto F = [&](int i) { return fr(a[i], nz(a[i + 1])); };
    auto B0 = [&](int i) { return blade0<int>(a[i]); }; auto B1 = [&](int i) { return blade1<int>(a[i], v3(a[i + 1], a[i + 2], a[i + 3])); };
    auto BE = [&](int i) { return blade2E<int>(v3(a[i], a[i + 1], a[i + 2])); }; auto Be = [&](int i) { return blade2e<int>(v3(a[i], a[i + 1], a[i + 2])); };
    auto B3 = [&](int i) { return blade3<int>(a[i], v3(a[i + 1], a[i + 2], a[i + 3])); }; auto B4 = [&](int i) { return blade4<int>(a[i]); };
    auto M024 = [&]() { return blade024<int>(blade02E<int>(B0(0), BE(1)), blade2e4<int>(Be(4), B4(7))); };
    if (ty == "pair") os << std::make_pair(a[0], a[1]);
    if (ty == "vector") os << v;
    if (ty == "array3") os << std::array<int, 3>{{a[0], a[1], a[2]}};
    if (ty == "set") os << std::set<int>(v.begin(), v.end());
    if (ty == "map") { std::map<int, int> m; for (int i = 0; i + 1 < n; i += 2) m.insert({a[i], a[i + 1]}); os << m; }
    if (ty == "uset") { std::unordered_set<int> m; if (n) m.insert(a[0]); os << m; }
    if (ty == "umap") { std::unordered_map<int, int> m; if (n) m[a[0]] = a[1]; os << m; }
    if (ty == "triple") os << triple<int>{a[0], a[1], a[2]};
    if (ty == "frac") os << F(0);
    if (ty == "mod7") os << mod7(a[0]);
    if (ty == "modx") os << modx(a[0], std::abs(a[1]) + 1);
    if (ty == "poly") os << polynom<int>(std::vector<int>(a.begin(), a.begin() + n + 1));
    if (ty == "vec2") os << vector2d<int>(a[0], a[1]);
    if (ty == "mat") os << matrix<int>{{a[0], a[1], a[2]}, {a[3], a[4], a[5]}};
    if (ty == "sym") os << (symbolic(a[0]) + symbolic(a[1])) * symbolic(std::to_string(a[2]));
    if (ty == "rotor") os << cl3::rotor<int>(a[0], a[1], a[2], a[3]);
    if (ty == "cl3vec") os << cl3::vector<int>(a[0], a[1], a[2], a[3]);
    if (ty == "cl3mv") os << cl3::multivector<int>(cl3::rotor<int>(a[0], a[1], a[2], a[3]), cl3::vector<int>(a[4], a[5], a[6], a[7]));
    if (ty == "zero") os << pga::zero<int>();
    if (ty == "b0") os << B0(0); if (ty == "b1") os << B1(0); if (ty == "b2E") os << BE(0); if (ty == "b2e") os << Be(0); if (ty == "b3") os << B3(0); if (ty == "b4") os << B4(0);
    if (ty == "b02E") os << blade02E<int>(B0(0), BE(1)); if (ty == "b02e") os << blade02e<int>(B0(0), Be(1)); if (ty == "b22") os << blade22<int>(BE(0), Be(3));
    if (ty == "b2E4") os << blade2E4<int>(BE(0), B4(3)); if (ty == "b2e4") os << blade2e4<int>(Be(0), B4(3)); if (ty == "b024") os << M024(); if (ty == "b13") os << blade13<int>(B1(0), B3(4));
    if (ty == "pgamv") os << pga::multivector<int>(M024(), blade13<int>(B1(8), B3(12)));
    if (ty == "fracraw") { fr f; f.p = a[0] * (n % 2); f.q = a[1]; os << f; }
    if (ty == "vecfrac") { std::vector<fr> w; for (int i = 0; i + 1 < n; i += 2) w.push_back(F(i)); os << w; }
    if (ty == "mapvec") { std::map<int, std::vector<int>> m; for (int i = 0; i + 1 < n; i += 2) m.insert({a[i], {a[i + 1], a[0]}}); os << m; }
    if (ty == "polyfrac") { std::vector<fr> w; for (int i = 0; i <= n / 2; i++) w.push_back(F(2 * i)); os << polynom<fr>(w); }
    if (ty == "polymod") { std::vector<mod7> w; for (int i = 0; i <= n; i++) w.push_back(mod7(a[i])); os << polynom<mod7>(w); }
    if (ty == "pairs") os << std::make_pair(std::make_pair(mod7(a[0]), F(1)), std::make_pair(a[3], std::make_pair(a[4], a[5])));
    if (ty == "matmod") os << matrix<mod7>{{mod7(a[0]), mod7(a[1])}};
    if (ty == "vec2frac") os << vector2d<fr>(F(0), F(2));
    if (ty == "setpair") os << std::set<std::pair<int, int>>{{a[0], a[1]}};
    return os.str();
}
template<class TS> static void toks(const std::string& s, Ev& o, bool ws) { TS t; std::istringstream is(s); if (!ws) is >> std::noskipws; is >> t; auto v = tk::unbox_tokens(t); auto w = tk::unbox_tokens<size_t>(t, [](const std::string& x) { return x.size(); });
    std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + bytes(w[i] == v[i].size() ? v[i] : "??"); o.raw("toks", r + "]").i("skipws", (is.flags() & std::ios_base::skipws) ? 1 : 0); }
template<class T> static void tok(const std::string& s, Ev& o) { T t; std::istringstream is(s); is >> t; bool good = bool(is); is.clear(); std::string rest; char c; while (is.get(c)) rest += c; o.raw("tok", bytes(t.s)).raw("rest", bytes(rest)).i("good", good); }
static void step(const J& e) {
    std::string op = e.str("op"); Ev o(op.c_str());
    if (op == "begin") stk.clear();
    if (op == "push") { std::string f = e.str("fld"); bool v = e("val"); scope* s = 0; if (f == "den") s = new scoped<io_fraction_denominator>(v); if (f == "fpair") s = new scoped<io_fraction_as_pair>(v); if (f == "mmod") s = new scoped<io_modulo_modulus>(v); if (f == "mpair") s = new scoped<io_modulo_as_pair>(v); if (f == "pvec") s = new scoped<io_polynom_as_vector>(v); stk.emplace_back(s); o.str("fld", f).i("val", v); }
    if (op == "pop") stk.pop_back();
    if (op == "fmt") o.str("ty", e.str("ty")).v("a", e.vec("a")).i("n", e("n")).str("text", text(e.str("ty"), e.vec("a"), e("n")));
    if (op == "toks") { std::string s, k = e.str("k"); for (ll c : e.vec("s")) s += (char)c; bool ws = e("ws0"); o.v("s", e.vec("s")).str("k", k).i("ws0", ws);
        if (k == "space") toks<tk::tokens_delimited_space>(s, o, ws); if (k == "comma") toks<tk::tokens_delimited_comma>(s, o, ws); if (k == "semi") toks<tk::tokens_delimited_semicolon>(s, o, ws); if (k == "cs") toks<tk::tokens_delimited<',', ';'>>(s, o, ws);
        if (k == "sc") toks<tk::tokens_delimited<' ', ','>>(s, o, ws); if (k == "alnum") toks<tk::tokens_allowed<tk::alphanum_p>>(s, o, ws); if (k == "binary") toks<tk::tokens_allowed<tk::allowed_p<'0', '1'>>>(s, o, ws); }
    if (op == "tok") { std::string s, k = e.str("k"); for (ll c : e.vec("s")) s += (char)c; o.v("s", e.vec("s")).str("k", k);
        if (k == "comma") tok<tk::token_delimited_comma>(s, o); if (k == "semi") tok<tk::token_delimited_semicolon>(s, o); if (k == "alnum") tok<tk::token_alphanum>(s, o); if (k == "binary") tok<tk::token_binary>(s, o); }
    if (op == "ints") { std::string s; for (ll c : e.vec("s")) s += (char)c; std::istringstream is(s); V v; if (s.size() % 2) { tk::ints_delimited_space t; is >> t; v.assign(t.v.begin(), t.v.end()); } else { tk::int64s_delimited_space t; is >> t; v.assign(t.v.begin(), t.v.end()); } o.v("s", e.vec("s")).v("vals", v).i("skipws", (is.flags() & std::ios_base::skipws) ? 1 : 0); }
    o.put();
}
int main(int argc, char** argv) {
    if (argc == 1) { each(step); return 0; }
    Rng g(atoll(argv[2])); int n = atoi(argv[3]);
    auto doit = [&](const std::string& js) { const char* p = js.c_str(); step(parse(p)); fflush(stdout); };
    static const char* K[] = {"space", "comma", "semi", "cs", "sc", "alnum", "binary"}; static const char* T[] = {"comma", "semi", "alnum", "binary"};
    for (int i = 0; i < n; i++) {
        doit("{\"op\":\"begin\"}"); std::string s; int L = rnd(g, 0, 14); static const char pool[] = " ,;\t\n01az9-_";
        int hi = rnd(g, 2, 11); while (L--) s += pool[g() % 3 ? rnd(g, 0, hi) : rnd(g, 0, 11)];
        int k = rnd(g, 0, 6); if (k < 5 && g() % 4 == 0) for (auto& c : s) if (g() % 5 == 0) c = (char)rnd(g, 1, 255);
        doit("{\"op\":\"toks\",\"k\":\"" + std::string(K[k]) + "\",\"ws0\":" + num(g() % 4 != 0) + ",\"s\":" + bytes(s) + "}");
        k = rnd(g, 0, 3); if (k > 1) for (auto& c : s) c &= 127; doit("{\"op\":\"tok\",\"k\":\"" + std::string(T[k]) + "\",\"s\":" + bytes(s) + "}");
        s.clear(); L = rnd(g, 1, 6); for (int j = 0; j < L; j++) { if (j) { s += " ,;x"[rnd(g, 0, 3)]; } while (g() % 4 == 0) s += " \t\n"[rnd(g, 0, 2)]; s += std::to_string(g() % 3 ? rnd(g, -30, 30) : rnd(g, -999999999, 999999999)); }
        doit("{\"op\":\"ints\",\"s\":" + bytes(s) + "}");
    }
}
