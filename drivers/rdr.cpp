#include "vf.h"
#include <memory>
#include <sstream>
#include <string.h>
#include "altruct/io/reader.h"
#include "altruct/io/fast_io.h"
using namespace vf; using namespace altruct::io;
typedef std::vector<ll> V;
// hands out at most `chunk` bytes at a time
struct chunky : reader {
    std::string s; size_t p = 0, chunk; bool bad = false;
    chunky(const std::string& s, size_t c) : s(s), chunk(c) {}
    int read_char() override { if (p >= s.size()) { bad = true; return -1; } return (unsigned char)s[p++]; }
    size_t read(char* b, size_t n) override { size_t k = std::min(std::min(n, chunk), s.size() - p); if (k < n) bad = true; memcpy(b, s.data() + p, k); p += k; return k; }
    operator bool() const override { return !bad; }
};
struct Sess {
    std::string s; int kind = 0; FILE* f = 0; std::unique_ptr<std::istringstream> is; std::unique_ptr<reader> base, top; std::unique_ptr<simple_reader_stream> st; std::unique_ptr<fast_read> fr;
    ~Sess() { st.reset(); fr.reset(); top.reset(); base.reset(); if (f) fclose(f); }
    FILE* file() { f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
    void mk(int u, int cap) { if (u == 0) base.reset(new file_reader(file())); else if (u == 1) { is.reset(new std::istringstream(s)); base.reset(new stream_reader(*is)); } else if (u == 2) base.reset(new string_reader(s.data(), s.size())); else base.reset(new chunky(s, 1 + (s.size() + cap) % 3)); }
    reader& r() { return top ? *top : *base; }
    buffered_reader& b() { return (buffered_reader&)*top; }
    simple_reader& sr() { return (simple_reader&)*top; }
};
static std::unique_ptr<Sess> S; static int lastr; // the last read_char
static std::string bytes(const std::string& s) { V v; for (unsigned char c : s) v.push_back(c); return arr(v); }
static std::string text(ll v) { return bytes(std::to_string(v)); }
static void flt(Ev& o, double v, int prec) { // significant digits and exponent
    char t[64]; snprintf(t, 64, "%.*e", prec, std::fabs(v)); std::string d; char* q = t; for (; *q && *q != 'e'; q++) if (*q >= '0' && *q <= '9') d += *q;
    o.i("neg", v < 0).raw("dig", bytes(d)).i("exp", *q ? atoi(q + 1) : 0); }
template<class T> static void buf(T& b, const std::string& op, int n, Ev& o) {
    if (op == "reserve") o.i("r", b.reserve(n));
    else if (op == "data") { const char* d = b.data(n); int k = b.reserve(0); std::string x; int term = 0; if (d) { if (d != b.data(0)) k = -1; x.assign(d, k < 0 ? 0 : k); term = d[x.size()]; } else { d = b.data(0); x.assign(d, k); term = d[k]; if (k < 0) term = 1; } o.i("null", b.data(n) == nullptr).raw("bytes", bytes(x)).i("term", term); }
    else if (op == "advance") { int k = std::min<int>(n, b.reserve(0)); o.i("have", b.reserve(0)); b.counter() = k; b.advance(); o.i("r", b.counter()); o.i("n", k); }
}
template<class T> static void parse_(T& b, const std::string& op, Ev& o) {
    if (op == "read_string") o.raw("bytes", bytes(b.read_string()));
    else if (op == "skip_ws") b.skip_whitespaces();
    else if (op == "read_sign") o.i("r", b.read_sign());
    else if (op == "read_digits") { int c = -7; ll v = b.template read_digits<ll>(0, &c); o.raw("r", text(v)).i("cnt", c); }
    else if (op == "read_int") o.raw("r", text(b.read_int()));
    else if (op == "read_l") o.raw("r", text(b.read_l()));
    else if (op == "read_ll") o.raw("r", text(b.read_ll()));
    else if (op == "read_double") flt(o, b.read_double(), 9);
    else if (op == "read_float") flt(o, b.read_float(), 5);
}
static bool can; // an unread is allowed only right after a successful read_char
static void step(const J& e) {
    std::string op = e.str("op"); if (op == "unread" && !can) op = "read_char"; lastr = -1; Ev o(op.c_str());
    if (op == "open") {
        S.reset(); S.reset(new Sess()); for (ll c : e.vec("inp")) S->s += (char)c; int k = S->kind = e("kind"), cap = e("cap");
        if (k == 7) S->fr.reset(new fast_read(S->file(), cap));
        else if (k == 3) S->base.reset(S->s.find('\0') == std::string::npos ? new string_reader(S->s.c_str()) : new string_reader(S->s.c_str(), S->s.size()));
        else S->mk(k <= 2 ? k : e("under"), cap);
        if (k == 4) S->top.reset(new buffered_reader(*S->base, cap)); if (k == 5 || k == 6) S->top.reset(new simple_reader(*S->base, cap));
        if (k == 6) S->st.reset(new simple_reader_stream(S->sr()));
        o.i("kind", k).i("under", e("under")).i("cap", cap).v("inp", e.vec("inp"));
    } else if (S->kind == 7) {
        fast_read& b = *S->fr;
        if (op == "read_char") { o.i("r", lastr = b.read_char()); }
        else if (op == "unread") b.unread_char();
        else if (op == "skip") { b.skip(e("n")); o.i("n", e("n")); }
        else if (op == "reserve" || op == "data" || op == "advance") { buf(b, op, e("n"), o); if (op != "advance") o.i("n", e("n")); if (op == "reserve" && b.available() != b.reserve(0)) o.i("n", -1); }
        else if (op == "read_string" && (e("n") & 1)) { std::string s; b >> s; o.raw("bytes", bytes(s)); }
        else if (op == "read_int" && (e("n") & 1)) { int v; b >> v; o.raw("r", text(v)); }
        else if (op == "read_l" && (e("n") & 1)) { long v; b >> v; o.raw("r", text(v)); }
        else if (op == "read_ll" && (e("n") & 1)) { ll v; b >> v; o.raw("r", text(v)); }
        else if (op == "read_double" && (e("n") & 1)) { double v; b >> v; flt(o, v, 9); }
        else if (op == "read_float" && (e("n") & 1)) { float v; b >> v; flt(o, v, 5); }
        else parse_(b, op, o);
    } else if (S->kind == 6) {
        simple_reader_stream& b = *S->st;
        if (op == "read_char") { char c; bool end = !(S->sr().reserve(1)); b >> c; o.i("r", end ? (c == (char)-1 ? -1 : -2) : (unsigned char)c); }
        else if (op == "read_string") { std::string s; b >> s; o.raw("bytes", bytes(s)); }
        else if (op == "read_line") { o.raw("bytes", bytes(e("c") == 10 ? b.read_line() : b.read_line((char)e("c")))).i("c", e("c")); }
        else if (op == "read_int") { int v; b >> v; o.raw("r", text(v)); }
        else if (op == "read_l") { long v; b >> v; o.raw("r", text(v)); }
        else if (op == "read_ll") { ll v; b >> v; o.raw("r", text(v)); }
        else if (op == "read_double") { double v; b >> v; flt(o, v, 9); }
        else if (op == "read_float") { float v; b >> v; flt(o, v, 5); }
    } else {
        if (op == "read_char") o.i("r", lastr = S->r().read_char());
        else if (op == "read") { int n = e("n"); std::unique_ptr<char[]> t(new char[n]); size_t k = S->r().read(t.get(), n); o.i("n", n).raw("bytes", k <= (size_t)n ? bytes(std::string(t.get(), k)) : "[-1]"); }
        else if (op == "unread") S->b().unread_char();
        else if (op == "skip") o.i("n", e("n")).i("r", S->b().skip(e("n")));
        else if (op == "reserve" || op == "data" || op == "advance") { buf(S->b(), op, e("n"), o); if (op != "advance") o.i("n", e("n")); }
        else if (op == "read_line") o.raw("bytes", bytes(e("c") == 10 ? S->sr().read_line() : S->sr().read_line((char)e("c")))).i("c", e("c"));
        else parse_(S->sr(), op, o);
    }
    can = op == "read_char" && lastr >= 0;
    o.i("fl", S->kind == 7 ? -1 : S->kind == 6 ? (int)bool(*S->st) : (int)bool(S->r())).put();
}
static std::string token(Rng& g, bool ext) {
    auto digs = [&](int n) { std::string s; while (n-- > 0) s += char('0' + rnd(g, 0, 9)); return s; };
    std::string sg = g() % 2 ? "" : g() % 3 ? "-" : "+";
    switch (rnd(g, 0, ext ? 7 : 5)) {
        case 0: return sg + digs(rnd(g, 1, 9));
        case 1: return sg + digs(rnd(g, 1, 4)) + "." + digs(rnd(g, 0, 4));
        case 2: { std::string s = sg + digs(rnd(g, 0, 3)) + "." + digs(rnd(g, 1, 4)) + (g() % 2 ? "e" : "E"); s += g() % 3 ? "-" : g() % 2 ? "+" : ""; return s + digs(rnd(g, 1, 2)); }
        case 3: { std::string s; int n = rnd(g, 1, 8); while (n--) s += (char)rnd(g, 33, 255); return s; }
        case 4: { std::string s; int n = rnd(g, 1, 6); while (n--) s += "+-.e09\xff\x01\0 \n"[rnd(g, 0, 10)]; return s; }
        case 5: return sg + digs(1);
        case 6: { static const char* x[] = {"-2147483648", "2147483647", "+2147483647", "-2147483647", "00000000000002147483647", "-0"}; return x[rnd(g, 0, 5)]; }
        default: { static const char* x[] = {"-9223372036854775808", "9223372036854775807", "-9223372036854775807", "999999999999999999", "-1000000000000000000"}; return x[rnd(g, 0, 4)]; }
    }
}
int main(int argc, char** argv) {
    if (argc == 1) { each(step); return 0; }
    Rng g(atoll(argv[2])); int n = atoi(argv[3]);
    static const char* b0[] = {"read_char", "read"};
    static const char* b4[] = {"read_char", "read", "skip", "reserve", "data", "advance", "unread"};
    static const char* b5[] = {"read_string", "read_int", "read_ll", "read_double", "read_float", "read_l", "skip_ws", "read_sign", "read_digits", "read_line", "read_char", "read", "skip", "reserve", "data", "advance", "unread"};
    static const char* b6[] = {"read_string", "read_int", "read_ll", "read_l", "read_double", "read_float", "read_char", "read_line"};
    for (int h = 0; h < n; h++) {
        int k = g() % 3 ? rnd(g, 5, 7) : rnd(g, 0, 4), cap = g() % 3 ? rnd(g, 1, 8) : rnd(g, 9, 70); bool ext = g() % 3 == 0 && k >= 5;
        std::string s; std::vector<std::string> toks; int T = rnd(g, 0, 14);
        while (T--) { std::string t = token(g, ext); if (ext && t.size() < 10) continue; toks.push_back(t); s += t; if (ext || g() % 5) s += " \n\t\r\0\x1f "[rnd(g, 0, 6)]; if (g() % 4 == 0) s += "  \n"; else if (ext) s += ' '; }
        if (k < 5 && g() % 2) { s.clear(); int L = rnd(g, 0, 150); while (L--) s += (char)g(); }
        V in; for (unsigned char c : s) in.push_back(c);
        auto doit = [&](const std::string& js) { const char* p = js.c_str(); step(parse(p)); fflush(stdout); };
        doit("{\"op\":\"open\",\"kind\":" + num(k) + ",\"under\":" + num(rnd(g, 0, 3)) + ",\"cap\":" + num(cap) + ",\"inp\":" + arr(in) + "}");
        std::string last; int ops = rnd(g, 4, 40);
        if (ext) { for (auto& t : toks) { bool wide = t.size() > 12 && t[0] != '0'; const char* op = wide ? (g() % 2 ? "read_ll" : "read_l") : (g() % 3 == 0 ? "read_int" : g() % 2 ? "read_ll" : "read_l"); if (t.find('.') != std::string::npos || t[0] > '9' || t[0] < '+' ) op = "read_string"; for (char c : t) if (!(c >= '0' && c <= '9') && c != '-' && c != '+') op = "read_string"; for (size_t q = 1; q < t.size(); q++) if (t[q] == '-' || t[q] == '+') op = "read_string"; if (t.find_first_of("\n\x01 ") != std::string::npos || t.find('\0') != std::string::npos) break; doit("{\"op\":\"" + std::string(op) + "\",\"n\":" + num(g() % 2) + ",\"c\":0}"); } continue; }
        bool dense = g() % 2; int left = 1 << 20;
        for (int i = 0; i < ops && left > 0; i++) {
            const char* op; if (k <= 3) op = b0[rnd(g, 0, 1)]; else if (k == 4) op = b4[rnd(g, 0, 6)]; else if (k == 6) op = b6[rnd(g, 0, 7)]; else op = b5[rnd(g, 0, dense ? 9 : 16)];
            if (k == 7 && (!strcmp(op, "read") || !strcmp(op, "read_line"))) op = "read_char";
            if (!strcmp(op, "unread") && last != "read_char") op = "read_char";
            int m = g() % 2 ? rnd(g, 0, 4) : rnd(g, 0, cap + 3); int c = g() % 2 ? 10 : s.empty() ? 32 : (unsigned char)s[g() % s.size()];
            doit("{\"op\":\"" + std::string(op) + "\",\"n\":" + num(m) + ",\"c\":" + num(c) + "}");
            last = lastr >= 0 && k != 6 ? op : ""; // an unread is allowed only right after a successful read_char
        }
    }
}
