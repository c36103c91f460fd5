// main() of a driver; included by exactly one file of each.
#pragma once
#include "drv.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <sys/time.h>
#include <sys/resource.h>
#include <typeinfo>
#include <cxxabi.h>
#include <boost/exception/diagnostic_information.hpp>
#include <boost/exception/exception.hpp>

namespace drv {
std::map<std::string, Handler>& registry() { static std::map<std::string, Handler> r; return r; }

std::string excName() {
    const std::type_info* t = abi::__cxa_current_exception_type();
    int st = 0; char* d = t ? abi::__cxa_demangle(t->name(), 0, 0, &st) : 0;
    std::string r = d ? d : "unknown"; free(d); return r;
}
static bool readAll(int fd, void* p, size_t n) {
    char* c = (char*)p;
    while (n) { ssize_t r = read(fd, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } c += r; n -= r; }
    return true;
}
static void writeAll(int fd, const void* p, size_t n) {
    const char* c = (const char*)p;
    while (n) { ssize_t r = write(fd, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(96); } c += r; n -= r; }
}
static void put32(std::string& o, uint32_t x) { o.append((const char*)&x, 4); }

static void onCpu(int) {
    static const char m[] = "DRIVER-CPU-LIMIT\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
}
static int cpuLimit = 60;
static void arm(int s) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, 0);
}
static std::string typeName(const std::type_info& t) {
    int st = 0; char* d = abi::__cxa_demangle(t.name(), 0, 0, &st);
    std::string r = d ? d : t.name(); free(d); return r;
}
int mainLoop() {
    int in = dup(0), out = dup(1);
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0); dup2(2, 1);
    signal(SIGPROF, onCpu);
    signal(SIGPIPE, SIG_IGN);
    if (getenv("DRV_CPU")) cpuLimit = atoi(getenv("DRV_CPU"));
    for (;;) {
        uint32_t n;
        if (!readAll(in, &n, 4)) return 0;
        V req(n);
        for (uint32_t i = 0; i < n; ++i) {
            uint32_t l; if (!readAll(in, &l, 4)) return 0;
            req[i].resize(l); if (l && !readAll(in, &req[i][0], l)) return 0;
        }
        V res; char status = 0;
        std::map<std::string, Handler>::iterator h = registry().find(req.at(0));
        if (h == registry().end()) { status = 2; res.push_back("unknown command " + req[0]); }
        else {
            V args(req.begin() + 1, req.end());
            arm(cpuLimit);
            try { res = h->second(args); }
            catch (BadRequest& e) { status = 2; res = V(); res.push_back(e.what()); }
            catch (std::exception& e) {
                status = 1; res = V(); res.push_back(typeName(typeid(e))); res.push_back(e.what());
                res.push_back(boost::diagnostic_information(e));
            }
            catch (boost::exception& e) {
                status = 1; res = V(); res.push_back(typeName(typeid(e))); res.push_back("");
                res.push_back(boost::diagnostic_information(e));
            }
            catch (const char* e) { status = 1; res = V(); res.push_back("const char*"); res.push_back(e); }
            catch (std::string& e) { status = 1; res = V(); res.push_back("std::string"); res.push_back(e); }
            catch (...) {
                status = 1; res = V();
                const std::type_info* t = abi::__cxa_current_exception_type();
                res.push_back(t ? typeName(*t) : "unknown"); res.push_back("");
            }
            arm(0);
        }
        std::string o; o += status; put32(o, res.size());
        for (size_t i = 0; i < res.size(); ++i) { put32(o, res[i].size()); o += res[i]; }
        writeAll(out, o.data(), o.size());
    }
}
}
int main() { return drv::mainLoop(); }
