// Shared by all drivers: reads JSON events from stdin, writes JSON events to stdout.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <random>
#include <unistd.h>

namespace vf {
typedef long long ll;
struct J { // minimal JSON value
    enum T { NUL, INT, STR, ARR, OBJ } t = NUL;
    ll i = 0; std::string s; std::vector<J> a; std::map<std::string, J> o;
    ll operator()(const char* k) const { return o.at(k).i; }
    const J& operator[](const char* k) const { return o.at(k); }
    bool has(const char* k) const { return o.count(k); }
    const std::string& str(const char* k) const { return o.at(k).s; }
    std::vector<ll> vec(const char* k) const { std::vector<ll> r; for (auto& x : o.at(k).a) r.push_back(x.i); return r; }
    std::vector<std::vector<ll>> mat(const char* k) const { std::vector<std::vector<ll>> r; for (auto& x : o.at(k).a) { r.push_back({}); for (auto& y : x.a) r.back().push_back(y.i); } return r; }
};
inline J parse(const char*& p) {
    auto ws = [&] { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; };
    J j; ws();
    if (*p == '{') { j.t = J::OBJ; p++; ws(); while (*p != '}') { J k = parse(p); ws(); p++; j.o[k.s] = parse(p); ws(); if (*p == ',') p++; ws(); } p++; }
    else if (*p == '[') { j.t = J::ARR; p++; ws(); while (*p != ']') { j.a.push_back(parse(p)); ws(); if (*p == ',') p++; ws(); } p++; }
    else if (*p == '"') { j.t = J::STR; p++; while (*p != '"') { if (*p == '\\') { p++; if (*p == 'n') j.s += '\n'; else if (*p == 't') j.s += '\t'; else if (*p == 'r') j.s += '\r'; else if (*p == 'u') { j.s += (char)strtol(std::string(p + 1, p + 5).c_str(), 0, 16); p += 4; } else j.s += *p; p++; } else j.s += *p++; } p++; }
    else if (!strncmp(p, "true", 4)) { j.t = J::INT; j.i = 1; p += 4; }
    else if (!strncmp(p, "false", 5)) { j.t = J::INT; j.i = 0; p += 5; }
    else if (!strncmp(p, "null", 4)) { p += 4; }
    else { char* e; j.t = J::INT; j.i = strtoll(p, &e, 10); if (e == p) { fprintf(stderr, "bad json at %s\n", p); exit(90); } p = e; }
    return j;
}
inline std::string esc(const std::string& s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
// TLC integers are 32 bit: anything wider must go through big()
inline std::string num(ll v) {
    if (v > 2147483647LL || v < -2147483647LL - 1) return "\"WIDE" + std::to_string(v) + "\"";
    return std::to_string(v);
}
template<class V> std::string arr(const V& v) { std::string r = "["; bool f = true; for (const auto& x : v) { if (!f) r += ","; f = false; r += num((ll)x); } return r + "]"; }
template<class V> std::string arr2(const V& v) { std::string r = "["; bool f = true; for (const auto& x : v) { if (!f) r += ","; f = false; r += arr(x); } return r + "]"; }
template<class V> std::string prs(const V& v) { std::string r = "["; bool f = true; for (const auto& x : v) { if (!f) r += ","; f = false; r += "[" + num((ll)x.first) + "," + num((ll)x.second) + "]"; } return r + "]"; }
// Big integers: [sign, [limbs base 10^4 little endian, no trailing zero limbs]]
inline std::string bigu(unsigned __int128 u, bool neg) {
    std::string r = neg ? "[-1,[" : (u == 0 ? "[0,[" : "[1,["); bool f = true;
    while (u) { if (!f) r += ","; f = false; r += std::to_string((int)(u % 10000)); u /= 10000; }
    return r + "]]";
}
inline std::string big(__int128 v) { return v < 0 ? bigu((unsigned __int128)0 - (unsigned __int128)v, true) : bigu(v, false); }
struct Ev {
    std::string s; 
    Ev(const char* op, const char* key = "op") { s = std::string("{\"") + key + "\":\"" + op + "\""; }
    Ev& raw(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":" + v; return *this; }
    Ev& i(const char* k, ll v) { return raw(k, num(v)); }
    Ev& str(const char* k, const std::string& v) { return raw(k, esc(v)); }
    template<class V> Ev& v(const char* k, const V& x) { return raw(k, arr(x)); }
    template<class V> Ev& vv(const char* k, const V& x) { return raw(k, arr2(x)); }
    template<class V> Ev& pv(const char* k, const V& x) { return raw(k, prs(x)); }
    Ev& b(const char* k, __int128 v) { return raw(k, big(v)); }
    Ev& bu(const char* k, unsigned __int128 v) { return raw(k, bigu(v, false)); }
    template<class V> Ev& bv(const char* k, const V& x) { std::string r = "["; bool f = true; for (const auto& y : x) { if (!f) r += ","; f = false; r += big((__int128)y); } return raw(k, r + "]"); }
    void put() { s += "}\n"; fwrite(s.data(), 1, s.size(), stdout); }
    void flush() { put(); fflush(stdout); }
};
inline Ev F(const char* f) { return Ev(f, "f"); }
// runs fn on each input event; output is flushed per event so that a crash names its event
inline void each(const std::function<void(const J&)>& fn) {
    std::string line;
    static char buf[1 << 16]; setvbuf(stdout, buf, _IOFBF, sizeof buf);
    while (std::getline(std::cin, line)) { if (line.empty()) continue; const char* p = line.c_str(); fn(parse(p)); fflush(stdout); }
}
inline void str_append(std::string& d, const std::string& s) { d += s; }
typedef std::mt19937_64 Rng;
inline ll rnd(Rng& g, ll lo, ll hi) { return lo + (ll)(g() % (unsigned long long)(hi - lo + 1)); }
// <<equal, less, less or equal>>, each 2 where the operators contradict each other
template<class X, class Y> std::string cmp3(const X& x, const Y& y) { bool eq = x == y, lt = x < y, le = x <= y; auto o = [](bool v, bool ok) { return std::string(!ok ? "2" : v ? "1" : "0"); };
    return o(eq, eq == !(x != y) && eq == (y == x) && eq == !(y != x)) + "," + o(lt, lt == (y > x) && lt == !(x >= y)) + "," + o(le, le == (y >= x) && le == !(x > y)); }
} // vf
