// Finite automata: algebra, regular expressions, dictionaries.
#include "latops.hpp"
#include "fsa_ndfsa.hpp"
#include "fsa_dfsa.hpp"
#include "fsa_bindfsa.hpp"
#include "fsa_algorithms.hpp"
#include "fsa_query_grammers.hpp"
#include "fsa_multi_store.hpp"
#include <fstream>

namespace {
typedef fsa::StringFSA NFA;
typedef fsa::DFSA<fsa::Arc<unsigned char, unsigned> > DFA;
void eval(const Val& e, NFA& r) {
    const std::string& n = e[0].s();
    if (n == "str") { NFA t(e[1].s()); r.swap(t); return; }
    if (n == "sym") { NFA t((unsigned char) e[1].s()[0]); r.swap(t); return; }
    if (n == "it") { const std::string& s = e[1].s(); NFA t(s.begin(), s.end()); r.swap(t); return; }
    NFA x; eval(e[1], x);
    if (n == "cat" || n == "or" || n == "and") {
        NFA y; eval(e[2], y);
        if (n == "cat") fsa::concatenate(x, y); else if (n == "or") fsa::unify(x, y); else fsa::intersect(x, y);
    }
    else if (n == "opt") fsa::kleene_option(x);
    else if (n == "plus") fsa::kleene_plus(x);
    else if (n == "star") fsa::kleene_star(x);
    else if (n == "min") fsa::minimize(x);
    else if (n == "eps") fsa::epsRemove(x);
    else if (n == "det") { fsa::epsRemove(x); fsa::determinize(x); }
    else if (n == "rev") fsa::reverse(x);
    else if (n == "prune") fsa::prune(x);
    else if (n == "reach") fsa::reachable(x);
    else if (n == "copy") { NFA y; y = x; x.swap(y); }
    else if (n == "over") { NFA y("abc"); y = x; x.swap(y); }
    r.swap(x);
}
template <typename A> void arcsOut(A& f, Out& o) {
    o.open();
    o.open(); for (auto p : f.getStartStates()) o.i(p); o.close();
    o.open(); for (auto p : f.getEndStates()) o.i(p); o.close();
    o.open();
    for (size_t p = 0; p < f.size(); ++p) { o.open(); auto r = f.getArcs(p); for (auto it = r.first; it != r.second; ++it) { o.open(); o.i(it->getSymbol()); o.i(it->getDest()); o.close(); } o.close(); }
    o.close();
    o.close();
}
template <typename A> void inOut(A& f, const Val& q, Out& o) { o.open(); for (size_t i = 0; i < q.size(); ++i) { const std::string& s = q[i].s(); o.b(f.in(s.begin(), s.end())); } o.close(); }
struct Words { std::vector<std::string>& w; void operator()(const std::string& s) const { w.push_back(s); } };
template <typename A> void langOut(A& f, Out& o, size_t max) {
    std::vector<std::string> w; Words ws = {w};
    fsa::language<A, boost::function_output_iterator<Words>, std::string>(f, boost::make_function_output_iterator(ws), max);
    o.open(); for (auto& s : w) o.s(s); o.close();
}
template <typename A> void dictOut(const Val& a, Out& o) {
    std::vector<std::string> w;
    for (size_t i = 0; i < a[1].size(); ++i) w.push_back(a[1][i].s());
    A f; fsa::minimize_incremental(f, w.begin(), w.end());
    o.open(); inOut(f, a[2], o); arcsOut(f, o); langOut(f, o, 10000); o.close();
}
}

// ['expr', tree, [query...], max] | ['regex', text, [query...], max] | ['dict', [word...], [query...], file] | ['multi', [line...], [key...], file]
VCMD(fsa) {
    const std::string& n = a[0].s();
    guarded(o, [&] {
        if (n == "expr" || n == "regex") {
            NFA f;
            o.open();
            if (n == "expr") eval(a[1], f);
            else {
                fsa::CharGrammar<std::string::const_iterator, NFA> g;
                const std::string& s = a[1].s();
                std::string::const_iterator b = s.begin(), e = s.end();
                bool ok = fsa::qi::parse(b, e, g, f) && b == e;
                o.b(ok);
                if (!ok) { o.close(); return; }
            }
            fsa::epsRemove(f);
            inOut(f, a[2], o);
            langOut(f, o, a[3].i());
            NFA m; m = f;
            fsa::minimize(m);
            DFA d; d = m;
            inOut(d, a[2], o);
            arcsOut(d, o);
            o.close();
        } else if (n == "dict") {
            o.open();
            dictOut<fsa::StringBinFSA>(a, o);
            dictOut<DFA>(a, o);
            std::vector<std::string> w;
            for (size_t i = 0; i < a[1].size(); ++i) w.push_back(a[1][i].s());
            fsa::StringBinFSA f; fsa::minimize_incremental(f, w.begin(), w.end());
            f.save(a[3].s());
            fsa::StringBinFSA g(a[3].s());
            o.open(); inOut(g, a[2], o); arcsOut(g, o); langOut(g, o, 10000); o.close();
            o.close();
        } else {
            std::vector<std::string> l;
            for (size_t i = 0; i < a[1].size(); ++i) l.push_back(a[1][i].s());
            fsa::FSAMultiStore::Builder b;
            b.createFromSeparatedLines(l.begin(), l.end());
            boost::scoped_ptr<fsa::FSAMultiStore> s(b.build());
            o.open();
            for (int k = 0; k < 2; ++k) {
                o.open();
                for (size_t i = 0; i < a[2].size(); ++i) { o.open(); for (auto& v : s->get(a[2][i].s())) o.s(v); o.close(); }
                o.close();
                if (k) break;
                s->save(a[3].s());
                s.reset(new fsa::FSAMultiStore());
                s->load(a[3].s());
            }
            o.close();
        }
    });
}
