// Lexica: key-value stores, perfect hashes, string vectors, monotonic vectors.
#include "latops.hpp"
#include "key_value_store.hpp"
#include "lexicon_base.hpp"
#include <boost/scoped_ptr.hpp>
#include <map>
#include <fstream>

namespace {
template <typename V> void monoOut(const V& v, Out& o) { o.open(); for (size_t i = 0; i < v.size(); ++i) o.i((long long) v[i]); o.close(); }
template <typename V> void mono(const Val& a, Out& o) {
    V v;
    for (size_t i = 0; i < a[2].size(); ++i) v.push_back((typename V::value_type) a[2][i].i());
    o.open();
    monoOut(v, o);
    std::FILE* f = std::fopen(a[3].s().c_str(), "w"); v.save(f); std::fclose(f);
    V w;
    f = std::fopen(a[3].s().c_str(), "r"); w.load(f); std::fclose(f);
    monoOut(w, o);
    V x; x.swap(w);
    monoOut(x, o);
    o.close();
}
template <typename V> void strvecOut(const V& v, const Val& q, Out& o) {
    o.open();
    o.b(v.is_sorted());
    o.open(); for (size_t i = 0; i < v.size(); ++i) o.s(v[i].str()); o.close();
    o.open(); for (typename V::iterator it = v.begin(); it != v.end(); ++it) o.s((*it).str()); o.close();
    o.open(); for (typename V::string_iterator it = v.template begin<typename V::string_iterator>(); it != v.template end<typename V::string_iterator>(); ++it) o.s(*it); o.close();
    o.open(); for (size_t i = 0; i < q.size(); ++i) { std::string s = q[i].s(); o.i(v.find(s)); } o.close();
    o.close();
}
void storeOut(const KeyValueStore& s, const Val& q, Out& o) {
    o.open();
    for (size_t i = 0; i < q.size(); ++i) { boost::optional<std::string> r = s.get(q[i].s()); if (r) o.s(r.get()); else o.n(); }
    o.close();
}
void baseOut(LexiconBase& b, const Val& q, Out& o) {
    o.open();
    for (size_t i = 0; i < q.size(); ++i) { o.open(); for (auto& r : b.getRecords(q[i].s())) o.s(r); o.close(); }
    o.close();
}
}

// ['store', [[key, value]...], [query...], file] | ['vec', [string...], [query...], file] | ['mono', kind, [number...], file]
// | ['base', text file, [query...], file] | ['hash', [key...], [query...], file]
VCMD(lex) {
    const std::string& n = a[0].s();
    guarded(o, [&] {
        if (n == "store") {
            KeyValueStore::Builder b;
            for (size_t i = 0; i < a[1].size(); ++i) b.add(a[1][i][0].s(), a[1][i][1].s());
            boost::scoped_ptr<KeyValueStore> s(b.build());
            o.open();
            storeOut(*s, a[2], o);
            s->save(a[3].s());
            KeyValueStore t; t.load(a[3].s());
            storeOut(t, a[2], o);
            t.save(a[3].s() + "2");
            KeyValueStore u; u.load(a[3].s() + "2");
            storeOut(u, a[2], o);
            o.close();
        } else if (n == "hash") {
            PerfectHashIndex h;
            for (size_t i = 0; i < a[1].size(); ++i) h.addKey(a[1][i].s());
            h.create();
            h.save(a[3].s());
            PerfectHashIndex g; g.load(a[3].s());
            o.open().i(h.getSize()).i(g.getSize());
            for (PerfectHashIndex* x : {&h, &g}) { o.open(); for (size_t i = 0; i < a[2].size(); ++i) o.i(x->getHash(a[2][i].s())); o.close(); }
            o.close();
        } else if (n == "vec") {
            StringVector<> v;
            for (size_t i = 0; i < a[1].size(); ++i) v.push_back(a[1][i].s());
            o.open();
            strvecOut(v, a[2], o);
            v.save(a[3].s());
            StringVector<> w; w.load(a[3].s());
            strvecOut(w, a[2], o);
            o.close();
        } else if (n == "mono") {
            const std::string& k = a[1].s();
            if (k == "c25") mono<MonotonicVector<> >(a, o);
            else if (k == "s20") mono<MonotonicVector<unsigned int, unsigned short, 20> >(a, o);
            else if (k == "c2") mono<MonotonicVector<unsigned int, unsigned char, 2> >(a, o);
            else mono<MonotonicVector<size_t, unsigned int, 7> >(a, o);
        } else if (n == "base") {
            LexiconBase b;
            o.open().b(b.isEmpty());
            b.readPlainText(a[1].s());
            o.b(b.isEmpty());
            baseOut(b, a[2], o);
            b.saveBinary(a[3].s());
            LexiconBase c; c.loadBinary(a[3].s());
            baseOut(c, a[2], o);
            o.close();
        } else throw drv::BadRequest("lex op");
    });
}
