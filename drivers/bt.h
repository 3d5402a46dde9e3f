// Batches of calls of one function: {"f":f,"q":[[args...,result],...]}
#pragma once
#include "vf.h"
typedef __int128 L; typedef std::string S; typedef unsigned long long ull; template<class T> using V = std::vector<T>;
struct Bt { S s; int n = 0; S f; Bt(const char* f) : f(f) {} void add(const S& r) { s += (n++ ? ",[" : "[") + r + "]"; if (n >= 40 || s.size() > 40000) put(); } void put() { if (n) vf::F(f.c_str()).raw("q", "[" + s + "]").put(); s.clear(); n = 0; } };
inline std::map<S, Bt>& bts() { static std::map<S, Bt> m; return m; }
inline S s(const S& v) { return v; } inline S s(const char* v) { return v; } template<class I> typename std::enable_if<std::is_integral<I>::value, S>::type s(I v) { return std::is_signed<I>::value ? vf::big((L)v) : vf::bigu((unsigned __int128)v, false); } inline S s(bool v) { return v ? "1" : "0"; } inline S s(L v) { return vf::big(v); }
inline S i32(vf::ll v) { return vf::num(v); }
template<class T> S s(const V<T>& v) { S r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + s(v[i]); return r + "]"; }
template<class A, class B> S s(const std::pair<A, B>& p) { return "[" + s(p.first) + "," + s(p.second) + "]"; }
template<class... A> S tup(A... l) { S r; int d[] = {0, (r += (r.empty() ? "" : ",") + s(l), 0)...}; (void)d; return "[" + r + "]"; }
template<class... A> void P(const char* f, A... l) { auto it = bts().find(f); if (it == bts().end()) it = bts().emplace(f, Bt(f)).first; S r = tup(l...); it->second.add(r.substr(1, r.size() - 2)); }
inline void flushall() { for (auto& b : bts()) b.second.put(); }
