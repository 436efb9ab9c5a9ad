// Shared by the conformance harnesses: reads commands (one JSON object per line), writes events.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace vh {
// ---------------------------------------------------------------- a tiny JSON value
struct J {
    enum T { Null, Num, Str, Arr, Obj, Bool } t = Null;
    double n = 0; std::string s; std::vector<J> a; std::map<std::string, J> o;
    const J& operator[](const std::string& k) const {
        static J none; auto it = o.find(k); return it == o.end() ? none : it->second; }
    const J& operator[](size_t i) const { return a.at(i); }
    bool has(const std::string& k) const { return o.count(k) > 0; }
    size_t size() const { return a.size(); }
    int i() const { return t == Bool ? int(n) : int(std::lround(n)); }
    double d() const { return n; }
};
inline void ws(const char*& p) { while (*p && isspace((unsigned char)*p)) ++p; }
inline J parse(const char*& p) {
    ws(p); J r;
    if (*p == '{') { r.t = J::Obj; ++p; ws(p);
        while (*p != '}') { J k = parse(p); ws(p); if (*p == ':') ++p; r.o[k.s] = parse(p); ws(p); if (*p == ',') { ++p; ws(p); } if (!*p) exit(3); }
        ++p; }
    else if (*p == '[') { r.t = J::Arr; ++p; ws(p);
        while (*p != ']') { r.a.push_back(parse(p)); ws(p); if (*p == ',') { ++p; ws(p); } if (!*p) exit(3); }
        ++p; }
    else if (*p == '"') { r.t = J::Str; ++p; while (*p && *p != '"') { if (*p == '\\') ++p; r.s += *p++; } ++p; }
    else if (!strncmp(p, "true", 4)) { r.t = J::Bool; r.n = 1; p += 4; }
    else if (!strncmp(p, "false", 5)) { r.t = J::Bool; r.n = 0; p += 5; }
    else if (!strncmp(p, "null", 4)) { p += 4; }
    else { char* e; r.t = J::Num; r.n = strtod(p, &e); if (e == p) { std::cerr << "bad json\n"; exit(3); } p = e; }
    return r;
}
inline J parse(const std::string& s) { const char* p = s.c_str(); return parse(p); }

// ---------------------------------------------------------------- writing
// A real number as an exact scaled integer. Sentinels lie outside anything a specification can predict.
constexpr long INEXACT = 2000000001L, TOOBIG = 2000000002L, NOTFINITE = 2000000003L;
inline long scaled(double v, double scale = 1.0, double tol = 1e-6) {
    double x = v * scale;
    if (!std::isfinite(x)) return NOTFINITE;
    if (std::fabs(x) > 1.9e9) return TOOBIG;
    double r = std::round(x);
    if (std::fabs(x - r) > tol * std::max(1.0, std::fabs(x) * 1e-3)) return INEXACT;
    return long(r);
}
// fixed point: rounded, no exactness demanded
inline long fixedp(double v, double scale) {
    double x = v * scale;
    if (!std::isfinite(x)) return NOTFINITE;
    if (std::fabs(x) > 1.9e9) return TOOBIG;
    return long(std::round(x));
}
inline std::string str(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
template <class V> std::string nums(const V& v, size_t n, double scale = 1.0) {
    std::string r = "["; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string(scaled(v[i], scale)); } return r + "]"; }
template <class F> std::string list(size_t n, F f) {
    std::string r = "["; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += f(i); } return r + "]"; }

struct Out {
    std::string raw;
    Out& k(const std::string& key, const std::string& json) { if (!raw.empty()) raw += ","; raw += str(key) + ":" + json; return *this; }
    Out& k(const std::string& key, long v) { return k(key, std::to_string(v)); }
    Out& k(const std::string& key, int v) { return k(key, std::to_string(v)); }
    Out& k(const std::string& key, bool v) { return k(key, std::to_string(int(v))); }
    Out& k(const std::string& key, size_t v) { return k(key, std::to_string(long(v))); }
    std::string obj() const { return "{" + raw + "}"; }
};
// the trace goes where standard output used to go; chatter of the code under test ends up on standard error
inline FILE* traceFile() { static FILE* f = nullptr; if (!f) { fflush(stdout); f = fdopen(dup(1), "w"); dup2(2, 1); } return f; }
// one event: the command as it was read, plus what was observed
inline void event(const std::string& cmdLine, const Out& o) {
    std::string s = "{\"cmd\":" + cmdLine + (o.raw.empty() ? "" : ",") + o.raw + "}\n";
    fwrite(s.data(), 1, s.size(), traceFile()); fflush(traceFile());
}
template <class F> int run(int argc, char** argv, F f) {
    if (argc < 2) return 3;
    std::ifstream in(argv[1]); if (!in) return 3;
    traceFile();
    std::string line;
    while (std::getline(in, line)) { if (line.empty()) continue; Out o; f(parse(line), o); event(line, o); }
    return 0;
}
}
