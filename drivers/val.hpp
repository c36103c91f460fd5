// Nested values exchanged with the Python side: ints, floats, byte strings, lists, None, bool.
#pragma once
#include "drv.hpp"
namespace drv {
struct Val {
    enum T { N, I, F, S, L, B } t;
    long n; double f; std::string str_; std::vector<Val> v;
    Val() : t(N), n(0), f(0) {}
    long i() const { if (t != I && t != B) throw BadRequest("int expected"); return n; }
    bool b() const { if (t != I && t != B) throw BadRequest("bool expected"); return n != 0; }
    double d() const { if (t == I) return (double)n; if (t != F) throw BadRequest("float expected"); return f; }
    const std::string& s() const { if (t != S) throw BadRequest("string expected"); return str_; }
    size_t size() const { if (t != L) throw BadRequest("list expected"); return v.size(); }
    const Val& operator[](size_t k) const { if (t != L || k >= v.size()) throw BadRequest("index"); return v[k]; }
    bool none() const { return t == N; }
};
inline Val parseVal(const std::string& x, size_t& p) {
    Val r;
    char c = x.at(p++);
    size_t e;
    switch (c) {
    case 'n': return r;
    case 'b': r.t = Val::B; r.n = x.at(p++) == '1'; return r;
    case 'i': e = x.find(';', p); r.t = Val::I; r.n = strtol(x.substr(p, e - p).c_str(), 0, 10); p = e + 1; return r;
    case 'f': e = x.find(';', p); r.t = Val::F; r.f = strtod(x.substr(p, e - p).c_str(), 0); p = e + 1; return r;
    case 's': { e = x.find(':', p); size_t l = strtoul(x.substr(p, e - p).c_str(), 0, 10); r.t = Val::S;
        r.str_ = x.substr(e + 1, l); p = e + 1 + l; return r; }
    case '[': r.t = Val::L; while (x.at(p) != ']') r.v.push_back(parseVal(x, p)); ++p; return r;
    }
    throw BadRequest("bad value");
}
inline Val parseVal(const std::string& x) { size_t p = 0; return parseVal(x, p); }
struct Out {
    std::string o;
    Out& i(long x) { o += 'i'; o += std::to_string(x); o += ';'; return *this; }
    Out& b(bool x) { o += 'b'; o += x ? '1' : '0'; return *this; }
    Out& d(double x) { char t[64]; snprintf(t, sizeof t, "%.17g", x); o += 'f'; o += t; o += ';'; return *this; }
    Out& s(const std::string& x) { o += 's'; o += std::to_string(x.size()); o += ':'; o += x; return *this; }
    Out& n() { o += 'n'; return *this; }
    Out& open() { o += '['; return *this; }
    Out& close() { o += ']'; return *this; }
    V ret() const { V r; r.push_back(o); return r; }
};
// Runs f; on a C++ exception writes ["!", type, what] instead of f's output.
std::string excName();
template <typename F> void guarded(Out& o, F f) {
    size_t mark = o.o.size();
    try { f(); }
    catch (BadRequest&) { throw; }
    catch (std::exception& e) { o.o.resize(mark); o.open().s("!").s(excName()).s(e.what()).close(); }
    catch (const char* e) { o.o.resize(mark); o.open().s("!").s("const char*").s(e).close(); }
    catch (...) { o.o.resize(mark); o.open().s("!").s(excName()).s("").close(); }
}
}
using drv::Val; using drv::Out; using drv::guarded; using drv::parseVal;
// A command taking one Val and filling an Out.
#define VCMD(name) static void vcmd_##name(const Val& a, Out& o); \
  static V vh_##name(const V& x) { Out o; if (x.empty()) throw drv::BadRequest("no value"); Val a = parseVal(x[0]); vcmd_##name(a, o); return o.ret(); } \
  static drv::Reg reg_##name(#name, vh_##name); static void vcmd_##name(const Val& a, Out& o)
