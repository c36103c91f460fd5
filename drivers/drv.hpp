// Request/response protocol of the check drivers.
// request:  u32 n, then n strings (u32 length + bytes); first string is the command
// response: u8 status (0 ok, 1 C++ exception, 2 unknown command), u32 n, n strings
#pragma once
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <sstream>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <iostream>

namespace drv {
typedef std::vector<std::string> V;
typedef V (*Handler)(const V&);
std::map<std::string, Handler>& registry();
struct Reg { Reg(const char* n, Handler h) { registry()[n] = h; } };

// thrown for a malformed request: a bug of the harness
struct BadRequest : std::runtime_error { BadRequest(const std::string& s) : std::runtime_error(s) {} };

struct Args {
    const V& v; size_t p;
    Args(const V& v_, size_t p_ = 0) : v(v_), p(p_) {}
    bool more() const { return p < v.size(); }
    const std::string& s() { if (p >= v.size()) throw BadRequest("args"); return v[p++]; }
    long i() { return strtol(s().c_str(), 0, 10); }
    double d() { return strtod(s().c_str(), 0); }
};
template <typename T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
inline std::string b(bool x) { return x ? "1" : "0"; }
}
using drv::V; using drv::Args; using drv::str;
#define CMD(name) static V cmd_##name(const V&); static drv::Reg reg_##name(#name, cmd_##name); static V cmd_##name(const V& a)
