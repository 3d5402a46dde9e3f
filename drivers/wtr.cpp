#include "vf.h"
#include <memory>
#include <sstream>
#include <string.h>
#include <unistd.h>
#include "altruct/io/reader.h"
#include "altruct/io/writer.h"
#include "altruct/io/fast_io.h"
using namespace vf; using namespace altruct::io;
typedef std::vector<ll> V;
// a stream that hands on what it holds only when it is flushed
struct LateBuf : std::streambuf { std::string held, out; int overflow(int c) override { if (c != EOF) held += (char)c; return 0; } std::streamsize xsputn(const char* p, std::streamsize n) override { held.append(p, n); return n; } int sync() override { out += held; held.clear(); return 0; } };
struct Sess {
    int kind = 0, under = 0, lim = -1; FILE* f = 0; LateBuf lb; std::ostream os{&lb}; std::vector<char> mem; std::unique_ptr<writer> base, top; std::unique_ptr<simple_writer_stream> st; std::unique_ptr<fast_write> fw; std::string fin;
    ~Sess() { close(); if (f) fclose(f); }
    void close() { st.reset(); fw.reset(); top.reset(); base.reset(); }
    std::string content() {
        if (f) { std::string s; char q[4096]; ssize_t n; while ((n = pread(fileno(f), q, sizeof q, s.size())) > 0) s.append(q, n); return s; } // what reached the file, past its stdio buffer
        if (under == 1) return lb.out;
        std::string s; for (size_t i = 0; i < mem.size(); i++) s += mem[i]; // unwritten places hold 0x5a
        size_t n = s.size(); while (n && (unsigned char)s[n - 1] == 0x5a) n--; return s.substr(0, n);
    }
    writer& w() { return top ? *top : *base; }
    buffered_writer& b() { return (buffered_writer&)*top; }
    simple_writer& sw() { return (simple_writer&)*top; }
};
static std::unique_ptr<Sess> S;
static std::string bytes(const std::string& s) { V v; for (unsigned char c : s) v.push_back(c); return arr(v); }
static std::string str(const V& v) { std::string s; for (ll c : v) s += (char)c; return s; }
static V vec(const std::string& s) { V v; for (unsigned char c : s) v.push_back(c); return v; }
template<class T> static bool common(T& w, const std::string& op, const J& e, Ev& o) {
    if (op == "fmt") { std::string t = str(e.vec("bytes")); int n = e("n"); char* p = w.data(n); if (p) { if (w.available() < (size_t)n) t += "?"; if (t.size() > w.available()) t = t.substr(0, w.available()); memcpy(p, t.data(), t.size()); p[t.size()] = 0; w.advance(); } else t = "";
        o.i("n", n).raw("bytes", bytes(t)).i("null", !p); return true; }
    if (op == "reserve") { size_t r = w.reserve(e("n")); o.i("n", e("n")).i("r", r == w.available() ? (ll)r : -1); return true; }
    return false;
}
template<class T> static bool values(T& w, const std::string& op, const J& e, Ev& o) {
    if (op == "string") { w.write_string(str(e.vec("bytes"))); o.v("bytes", e.vec("bytes")); return true; }
    if (op == "cstr") { w.write_string(str(e.vec("bytes")).c_str()); o.v("bytes", e.vec("bytes")); return true; }
    if (op == "int") { ll v = atoll(str(e.vec("v")).c_str()); int len = e("len"), k = e("w"); bool fits = v >= -2147483647LL - 1 && v <= 2147483647LL;
        if (len == 1 && k == 0 && fits) w.write_int((int)v); else if (len == 1 && k == 1) w.write_ll(v); else if (fits && k == 0) w.template write_integral_number<int>((int)v, len); else w.template write_integral_number<ll>(v, len);
        o.v("v", e.vec("v")).i("len", len); return true; }
    return false;
}
static std::string lit(const J& e) { // the literal of a decimal number
    std::string d = str(e.vec("d")); return (e("neg") ? "-0." : "0.") + (d.empty() ? "0" : d) + "e" + std::to_string(e("x")); }
// what was appended by a floating-point write is found by flushing before and after
static std::string other(fast_write*, double v, bool f, int p, bool sci) { char* m = 0; size_t z = 0; FILE* q = open_memstream(&m, &z); { fast_write x(q, 3); if (f) x.write_float((float)v, p, sci); else x.write_double(v, p, sci); } fclose(q); std::string t(m, z); free(m); return t; }
static std::string other(simple_writer*, double v, bool f, int p, bool sci) { std::ostringstream os; stream_writer sw(os); { simple_writer x(sw, 3); if (f) x.write_float((float)v, p, sci); else x.write_double(v, p, sci); } return os.str(); }
template<class T> static bool flt(T& w, const J& e, Ev& o) {
    double v = strtod(lit(e).c_str(), 0); int p = e("prec"); bool sci = e("sci");
    // the text is found by writing the same number to a writer of its own
    std::string t = other(&w, v, e("fl"), p, sci);
    if (e("fl")) w.write_float((float)v, p, sci); else if (p == 6 && !sci) w.write_double(v); else w.write_double(v, p, sci);
    o.i("neg", e("neg")).v("d", e.vec("d")).i("x", e("x")).i("prec", p).i("sci", sci).i("fl", e("fl")).raw("text", bytes(t)); return true;
}
static void step(const J& e) {
    std::string op = e.str("op"); Ev o(op.c_str());
    if (op == "none") { o.put(); return; }
    if (op == "open") {
        S.reset(); S.reset(new Sess()); int k = S->kind = e("kind"), cap = e("cap"); int u = S->under = k == 7 ? 0 : k <= 2 ? k : e("under"); S->lim = e("lim");
        if (u == 0) S->f = tmpfile();
        if (k == 7) S->fw.reset(new fast_write(S->f, cap));
        else { if (u == 0) S->base.reset(new file_writer(S->f)); else if (u == 1) S->base.reset(new stream_writer(S->os)); else { S->mem.assign(S->lim, 0x5a); S->base.reset(new string_writer(S->mem.data(), S->lim)); }
            if (k == 4) S->top.reset(new buffered_writer(*S->base, cap)); if (k == 5 || k == 6) S->top.reset(new simple_writer(*S->base, cap)); if (k == 6) S->st.reset(new simple_writer_stream(S->sw())); }
        o.i("kind", k).i("under", u).i("cap", cap).i("lim", S->lim).put(); return;
    }
    int k = S->kind;
    if (op == "flush") { if (k == 7) S->fw->flush(); else S->w().flush(); }
    else if (op == "close") S->close();
    else if (op == "char") { char c = e("c"); o.i("c", e("c")); if (k == 7) { if (c & 1) *S->fw << c; else S->fw->write_char(e("c")); } else if (k == 6) *S->st << c; else S->w().write_char(e("c")); }
    else if (op == "write") { std::string t = str(e.vec("bytes")); S->w().write(t.data(), t.size()); o.v("bytes", e.vec("bytes")); }
    else if (k == 6) {
        if (op == "string") { *S->st << str(e.vec("bytes")); o.v("bytes", e.vec("bytes")); }
        if (op == "int") { ll v = atoll(str(e.vec("v")).c_str()); int w = e("w"); bool fits = v >= -2147483647LL - 1 && v <= 2147483647LL; if (w == 0 && fits) *S->st << (int)v; else if (w == 1) *S->st << (long)v; else *S->st << v; o.v("v", e.vec("v")).i("len", 1); }
        if (op == "flt") { double v = strtod(lit(e).c_str(), 0); std::string t; { std::ostringstream os; stream_writer sw(os); { simple_writer x(sw, 3); x.write_double(v); } t = os.str(); } if (e("fl")) *S->st << (float)v; else *S->st << v; o.i("neg", e("neg")).v("d", e.vec("d")).i("x", e("x")).i("prec", 6).i("sci", 0).i("fl", e("fl")).raw("text", bytes(t)); }
    } else if (k == 7) {
        fast_write& w = *S->fw; bool st = e.has("w") && e("w") == 2 && e("len") == 1;
        if (op == "int" && st) { ll v = atoll(str(e.vec("v")).c_str()); if (v % 3 == 0 && v < 2147483648LL && v >= -2147483648LL) w << (int)v; else if (v & 1) w << (long)v; else w << v; o.v("v", e.vec("v")).i("len", 1); }
        else if (op == "string" && e.vec("bytes").size() % 2) { w << str(e.vec("bytes")); o.v("bytes", e.vec("bytes")); }
        else if (op == "flt" && e("prec") == 6 && !e("sci")) flt(w, e, o);
        else if (op == "flt") flt(w, e, o); else common(w, op, e, o) || values(w, op, e, o);
    } else {
        if (op == "flt") flt(S->sw(), e, o); else if (common(S->b(), op, e, o)) ; else values(S->sw(), op, e, o);
    }
    if (op == "flush" || op == "close") o.raw("out", bytes(S->content()));
    o.put();
}
static std::string dec(Rng& g) { // digits (first not zero), point
    int n = rnd(g, 1, 12); std::string d; int sh = rnd(g, 0, 4);
    for (int i = 0; i < n; i++) d += sh == 0 ? '9' : sh == 1 ? (i == 0 ? '1' : '0') : char('0' + rnd(g, 0, 9));
    if (d[0] == '0') d[0] = '1' + rnd(g, 0, 8); if (sh == 3 && n > 1) d[n - 1] = '5'; return d; }
int main(int argc, char** argv) {
    if (argc == 1) { each(step); return 0; }
    std::string m = argv[1]; Rng g(atoll(argv[2])); int n = atoi(argv[3]);
    auto doit = [&](const std::string& js) { const char* p = js.c_str(); step(parse(p)); fflush(stdout); };
    auto fl = [&](bool f, const std::string& d, int x, int neg, int prec, int sci) { doit("{\"op\":\"flt\",\"neg\":" + num(neg) + ",\"d\":" + bytes(d) + ",\"x\":" + num(x) + ",\"prec\":" + num(prec) + ",\"sci\":" + num(sci) + ",\"fl\":" + num(f) + "}"); };
    static const char* W[] = {"-2147483648", "2147483647", "-9223372036854775808", "9223372036854775807", "0", "-1", "10", "-10", "1000000000000000000", "4294967296", "-999999999"};
    if (m == "rand") for (int h = 0; h < n; h++) {
        static const int ks[] = {0, 1, 2, 4, 5, 5, 6, 6, 7, 7}; int k = ks[rnd(g, 0, 9)], u = rnd(g, 0, 2), cap = g() % 3 ? rnd(g, 1, 8) : rnd(g, 9, 60);
        int lim = (k == 2 || (k >= 4 && k <= 6 && u == 2)) ? (int)(g() % 2 ? rnd(g, 0, 30) : 2000) : -1;
        doit("{\"op\":\"open\",\"kind\":" + num(k) + ",\"under\":" + num(u) + ",\"cap\":" + num(k <= 2 ? 0 : cap) + ",\"lim\":" + num(lim) + "}");
        auto text = [&](int lo) { std::string s; int L = g() % 3 ? rnd(g, 0, 5) : rnd(g, 0, cap * 3); while (L--) { int c = rnd(g, lo, 255); if (c == 0x5a) c = 'Y'; s += (char)c; } return s; };
        int ops = rnd(g, 1, 30);
        while (ops--) { int r = rnd(g, 0, 11); std::string q;
            if (r == 0) { doit("{\"op\":\"flush\"}"); continue; }
            if (r <= 2 || (k <= 2 && r > 6)) { int c = rnd(g, 0, 255); if (c == 0x5a) c = 1; doit("{\"op\":\"char\",\"c\":" + num(c) + "}"); continue; }
            if ((k <= 5 && r == 3) || k <= 2 || (k == 4 && r > 5)) { doit("{\"op\":\"write\",\"bytes\":" + bytes(text(0)) + "}"); continue; }
            if (k >= 5 && r <= 5) { bool cs = k != 6 && g() % 2; doit(std::string("{\"op\":\"") + (cs ? "cstr" : "string") + "\",\"bytes\":" + bytes(text(cs ? 1 : 0)) + "}"); continue; }
            if (k >= 5 && r <= 7) { std::string v = g() % 3 == 0 ? W[rnd(g, 0, 10)] : std::to_string(g() % 2 ? rnd(g, -1000, 1000) : (ll)(g() >> (g() % 60)) * (g() % 2 ? 1 : -1)); doit("{\"op\":\"int\",\"v\":" + bytes(v) + ",\"len\":" + num(k == 6 || g() % 2 ? 1 : rnd(g, 0, 25)) + ",\"w\":" + num(rnd(g, 0, 2)) + "}"); continue; }
            if (k >= 5 && r <= 9) { bool f = g() % 3 == 0; if (k == 6) { if (f) { int a = rnd(g, 1, 800000); char t[40]; snprintf(t, 40, "%06d%03d", a / 8, a % 8 * 125); std::string d = t; int x = 6; while (d.size() && d[0] == '0') d = d.substr(1), x--; fl(true, d, x, g() % 2, 6, 0); } else { std::string d = dec(g); fl(false, d, rnd(g, -5, 8), g() % 2, 6, 0); } continue; }
                if (f) { int a = rnd(g, 1, 800000); char t[40]; snprintf(t, 40, "%06d%03d", a / 8, a % 8 * 125); std::string d = t; int x = 6; while (d.size() && d[0] == '0') d = d.substr(1), x--; fl(true, d, x, g() % 2, rnd(g, 0, 6), g() % 2); continue; }
                std::string d = dec(g); if (g() % 16 == 0) d = ""; int sci = g() % 2; int x = d.empty() ? 0 : sci ? rnd(g, g() % 4 ? -20 : -290, g() % 4 ? 20 : 290) : rnd(g, -6, 12); int prec = sci ? rnd(g, 0, 12) : rnd(g, 0, 14 - std::max(x, 1)); if (g() % 4 == 0 && (sci || x <= 8)) prec = 6; fl(false, d, x, d.empty() ? 0 : g() % 2, prec, sci); continue; }
            if (k != 6 && k >= 4) { if (g() % 2) doit("{\"op\":\"reserve\",\"n\":" + num(rnd(g, 0, cap + 2)) + "}"); else doit("{\"op\":\"fmt\",\"n\":" + num(rnd(g, 0, cap + 2)) + ",\"bytes\":" + bytes(text(1)) + "}"); }
        }
        doit("{\"op\":\"close\"}");
    }
    if (m == "back") for (int h = 0; h < n; h++) { // values written, read back by the matching reader
        std::ostringstream os; FILE* f = 0; int fast = g() % 2, cap = rnd(g, 1, 40), L = rnd(g, 1, 8); std::vector<int> ty; std::vector<std::string> want, got;
        auto sig = [](double v) { char t[64]; snprintf(t, 64, "%.11e", v); return std::string(t); };
        {   stream_writer sw(os); std::unique_ptr<simple_writer> w; std::unique_ptr<fast_write> fw; if (fast) { f = tmpfile(); fw.reset(new fast_write(f, cap)); } else w.reset(new simple_writer(sw, cap));
            for (int i = 0; i < L; i++) { int t = rnd(g, 0, 3); ty.push_back(t);
                if (t == 0) { int v = g() % 4 ? (int)(g() >> (g() % 32)) : (int)atoll(W[rnd(g, 0, 1)]); want.push_back(std::to_string(v)); if (fast) fw->write_int(v); else w->write_int(v); }
                if (t == 1) { ll v = g() % 4 ? (ll)(g() >> (g() % 60)) : atoll(W[rnd(g, 0, 10)]); if (g() % 2 && v > 0) v = -v; want.push_back(std::to_string(v)); if (fast) fw->write_ll(v); else w->write_ll(v); }
                if (t == 2) { double v = strtod(("0." + dec(g) + "e" + std::to_string(rnd(g, -30, 30))).c_str(), 0); if (g() % 2) v = -v; want.push_back(sig(v)); if (fast) fw->write_double(v, 13, true); else w->write_double(v, 13, true); }
                if (t == 3) { std::string s; int z = rnd(g, 1, 9); while (z--) s += (char)rnd(g, 33, 255); want.push_back(s); if (fast) fw->write_string(s); else w->write_string(s); }
                char c = " \n\t"[rnd(g, 0, 2)]; if (fast) fw->write_char(c); else w->write_char(c); } }
        std::istringstream is(os.str()); stream_reader br(is); int c2 = rnd(g, 1, 40); std::unique_ptr<simple_reader> r; std::unique_ptr<fast_read> fr; if (fast) { rewind(f); fr.reset(new fast_read(f, c2)); } else r.reset(new simple_reader(br, c2));
        for (int t : ty) { if (t == 0) got.push_back(std::to_string(fast ? fr->read_int() : r->read_int())); if (t == 1) got.push_back(std::to_string(fast ? fr->read_ll() : r->read_ll())); if (t == 2) got.push_back(sig(fast ? fr->read_double() : r->read_double())); if (t == 3) got.push_back(fast ? fr->read_string() : r->read_string()); }
        std::string a = "[", b = "["; for (size_t i = 0; i < want.size(); i++) a += (i ? "," : "") + bytes(want[i]); for (size_t i = 0; i < got.size(); i++) b += (i ? "," : "") + bytes(got[i]);
        fr.reset(); if (f) fclose(f);
        Ev("open").i("kind", fast ? 7 : 5).i("cap", cap).i("lim", -1).i("under", 0).put(); Ev("back").raw("want", a + "]").raw("got", b + "]").put();
    }
}
