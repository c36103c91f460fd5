// The web server: request parser, request handler, sessions, forms, inclusions.
#include "drv_main.hpp"
#include "val.hpp"
#include "server/request_parser.hpp"
#include "server/request_handler.hpp"
#include "server/connection.hpp"
#include "server/mime_types.hpp"
#include "psi_server.hpp"
#include "session_manager.hpp"
#include "mpfd-parser/Parser.h"
#include "site/json_site.hpp"
#include "site/pipe_site.hpp"
#include "site/index_site.hpp"
#include "pipe_runner.hpp"
#include "logging.hpp"
#include <boost/bind.hpp>
#include <boost/thread.hpp>
using namespace http::server3;
namespace {
struct Quiet { Quiet() { SET_LOGGING_LEVEL("FATAL"); } };
struct Web {
    Quiet quiet;
    PsiServer s; PsiRequestHandler h; JsonSite j; PipeSite* p; boost::thread* t;
    std::map<std::string, std::string> seen;    // the session's data when the action was called
    std::map<std::string, std::string> inc;
    int calls;
    char* copy(const std::string& x) { char* r = new char[x.size() + 1]; memcpy(r, x.c_str(), x.size() + 1); return r; }
    char* action(PsiServer*) { seen = s.session()->data; ++calls; return copy("/page.html"); }
    char* serveAction(PsiServer*) { return copy("/dump.html"); }    // keeps nothing: it may run in several threads
    char* dump() {
        Out o; Session* x = s.session();
        o.open(); for (auto& p : x->data) o.open().s(p.first).s(p.second).close(); o.close();
        std::string r; char t[4];
        for (unsigned char c : o.o) { snprintf(t, sizeof t, "%02x", c); r += t; }
        return copy(r);
    }
    char* include(std::string k) { return copy(inc[k]); }
    Web(const std::string& root, const std::string& port, const std::string& threads, bool pipe)
        : s("127.0.0.1", port, threads, root), h(root, &s), j(s), p(0), t(0), calls(0) {
        s.registerActionCode("test", boost::bind(&Web::action, this, _1));
        s.registerActionCode("dir/test", boost::bind(&Web::action, this, _1));
        if (pipe) p = new PipeSite(s, "tokenize --lang pl ! simple-writer", "Ala ma kota.");
        new IndexSite(s);
    }
};
std::map<std::string, Web*> webs;
Web& web(const std::string& root) {
    if (!webs.count(root)) webs[root] = new Web(root, "0", "1", false);
    return *webs[root];
}
void outReq(const request& r, Out& o) {
    o.open().s(r.method).s(r.uri).i(r.http_version_major).i(r.http_version_minor).open();
    for (auto& h : r.headers) o.open().s(h.name).s(h.value).close();
    o.close().s(r.post_data).close();
}
// feeds the pieces as a connection does; the number of bytes taken until the verdict
int feed(request& r, const Val& chunks, boost::tribool& res, long& used) {
    request_parser p; res = boost::indeterminate; used = 0;
    size_t k = 0;
    for (; k < chunks.size() && boost::indeterminate(res); ++k) {
        const std::string& c = chunks[k].s();
        const char* e;
        boost::tie(res, e) = p.parse(r, c.data(), c.data() + c.size());
        used += e - c.data();
    }
    return k;
}
void outReply(reply& r, Out& o) {
    std::string w;
    for (auto& b : r.to_buffers()) w.append((const char*)b.data(), b.size());
    o.s(w);
}
}
CMD(ping) { return a; }
// chunks -> [verdict, used, request]
VCMD(parse) {
    guarded(o, [&] {
        request r; boost::tribool res; long used;
        r.http_version_major = r.http_version_minor = -1;
        feed(r, a, res, used);
        o.open().i(res ? 1 : !res ? 0 : -1).i(used);
        outReq(r, o);
        o.close();
    });
}
// root raw -> reply bytes (or null: the request is not complete)
VCMD(plain) {
    guarded(o, [&] {
        request r; boost::tribool res; long used;
        feed(r, a[1], res, used);
        if (boost::indeterminate(res)) { o.n(); return; }
        reply rep;
        if (res) request_handler(a[0].s()).handle_request(r, rep); else rep = reply::stock_reply(reply::bad_request);
        outReply(rep, o);
    });
}
// root, {include code: text}, chunks -> [reply, calls of the action, [[name, value]...] seen by it]
VCMD(psi) {
    guarded(o, [&] {
        Web& w = web(a[0].s());
        w.inc.clear(); w.seen.clear(); w.calls = 0;
        for (size_t i = 0; i < a[1].size(); ++i) {
            std::string k = a[1][i][0].s();
            w.inc[k] = a[1][i][1].s();
            w.s.includes_[k] = boost::bind(&Web::include, &w, k);
        }
        request r; boost::tribool res; long used;
        feed(r, a[2], res, used);
        if (boost::indeterminate(res)) { o.n(); return; }
        reply rep;
        if (res) w.h.handle_request(r, rep); else rep = reply::stock_reply(reply::bad_request);
        for (size_t i = 0; i < a[1].size(); ++i) w.s.includes_.erase(a[1][i][0].s());
        o.open(); outReply(rep, o); o.i(w.calls).open();
        for (auto& p : w.seen) o.open().s(p.first).s(p.second).close();
        o.close().close();
    });
}
VCMD(drop) { o.n(); }
// text -> decoded or null
VCMD(urldecode) { std::string r; if (request_handler::url_decode(a.s(), r)) o.s(r); else o.n(); }
// content type, chunks, max -> [[name, type, content, file name, mime]...]
VCMD(mpfd) {
    guarded(o, [&] {
        MPFD::Parser p;
        p.SetUploadedFilesStorage(MPFD::Parser::StoreUploadedFilesInMemory);
        p.SetTempDirForFileUpload("/nonexistent");
        try {
            p.SetContentType(a[0].s());
            for (size_t i = 0; i < a[1].size(); ++i) p.AcceptSomeData(a[1][i].s().data(), a[1][i].s().size());
        } catch (MPFD::Exception& e) { o.open().s("!").s("MPFD").s(e.GetError()).close(); return; }
        o.open();
        for (auto& f : p.GetFieldsMap()) {
            o.open().s(f.first);
            if (f.second->GetType() == MPFD::Field::FileType) {
                size_t n = f.second->GetFileContentSize();
                o.s("file").s(n ? std::string(f.second->GetFileContent(), n) : "").s(f.second->GetFileName()).s(f.second->GetFileMimeType());
            } else o.s("text").s(f.second->GetTextTypeContent());
            o.close();
        }
        o.close();
    });
}
VCMD(run) {     // pipeline, input
    guarded(o, [&] { std::istringstream i(a[1].s()); std::ostringstream s; PipeRunner p(a[0].s()); p.run(i, s); o.s(s.str()); });
}
// root port threads: serves on a socket until the process ends
VCMD(serve) {
    guarded(o, [&] {
        Web* w = new Web(a[0].s(), a[1].s(), a[2].s(), false);
        w->s.actions_["test"] = boost::bind(&Web::serveAction, w, _1);
        w->s.registerIncludeCode("dump", boost::bind(&Web::dump, w));
        w->t = new boost::thread(boost::bind(&http::server3::server::run, &w->s.server_));
        o.n();
    });
}
