// Lattice sessions driven by lists of operations.
#pragma once
#include "latdump.hpp"
#include "cutter.hpp"
#include "string_helpers.hpp"
namespace {
struct Sess {
    AnnotationItemManager aim;
    Lattice l;
    std::vector<Lattice::EdgeDescriptor> h;
    Sess(const std::string& t) : l(aim, t) {}
    Lattice::EdgeDescriptor edge(const Val& v) { return h.at(v.i()); }
    Lattice::EdgeSequence seq(const Val& v) {
        Lattice::EdgeSequence::Builder b(l);
        for (size_t i = 0; i < v.size(); ++i) {     // a handle or [handle, role]
            if (v[i].t == Val::L) b.addEdge(edge(v[i][0]), aim.stringToZvalue(v[i][1].s()));
            else b.addEdge(edge(v[i]));
        }
        return b.build();
    }
};
// Cuts pieces of a fixed list of lengths (cyclic), ending at symbol borders.
class ListCutter : public Cutter {
public:
    std::vector<long> lens; size_t k; std::list<std::string> tags; size_t hard, soft;
    ListCutter() : k(0), hard(0), soft(0) {}
private:
    template <typename T> AnnotationItem cut(const T& text, size_t& pos) {
        size_t p = pos; long n = lens[k++ % lens.size()];
        while (n-- > 0 && p < text.length()) p += symbolLength(text, p);
        size_t from = pos; pos = p;
        if (pos >= text.length()) pos = std::string::npos;
        return AnnotationItem("c" + std::to_string(k % 3), StringFrag(text, from, p - from));
    }
    AnnotationItem doCutOff(const std::string& t, size_t& p) { return cut(t, p); }
    AnnotationItem doCutOff(const StringFrag& t, size_t& p) { return cut(t, p); }
    void doReset() { k = 0; }
    size_t doSegmentLengthHardLimit() { return hard; }
    size_t doSegmentLengthSoftLimit() { return soft; }
    std::list<std::string> doLayerTags() { return tags; }
};
}
inline void runOp(Sess& s, const Val& op, Out& o) {
    Lattice& l = s.l;
    const std::string& n = op[0].s();
    auto edges = [&](Lattice::InOutEdgesIterator it) { o.open(); while (it.hasNext()) outEdge(l, it.next(), o); o.close(); };
    if (n == "append") { l.appendString(op[1].s()); o.n(); }
    else if (n == "appendsym") { l.appendStringWithSymbols(op[1].s()); o.n(); }
    else if (n == "symbols") { l.addSymbols(op[1].i(), op[2].i()); o.n(); }
    else if (n == "add") {   // from to item tags seq score rule tree
        Lattice::EdgeDescriptor e = l.addEdge(op[1].i(), op[2].i(), mkItem(l, op[3]),
            l.getLayerTagManager().createTagCollection(strList(op[4])), s.seq(op[5]), op[6].d(), op[7].i(), op[8].i());
        s.h.push_back(e); outEdge(l, e, o);
    }
    else if (n == "part") {  // handle tags seq score rule tree
        Lattice::EdgeDescriptor e = l.addPartitionToEdge(s.edge(op[1]), l.getLayerTagManager().createTagCollection(strList(op[2])),
            s.seq(op[3]), op[4].d(), op[5].i(), op[6].i());
        s.h.push_back(e); outEdge(l, e, o);
    }
    else if (n == "discard") { l.discard(s.edge(op[1])); o.n(); }
    else if (n == "isdisc") o.b(l.isDiscarded(s.edge(op[1])));
    else if (n == "loose") o.i(l.addLooseVertex());
    else if (n == "grab") { Lattice::EdgeDescriptor e = l.firstOutEdge(op[1].i(), mkMask(l, op[2])); s.h.push_back(e); outEdge(l, e, o); }
    else if (n == "out") edges(l.outEdges(op[1].i(), mkMask(l, op[2])));
    else if (n == "in") edges(l.inEdges(op[1].i(), mkMask(l, op[2])));
    else if (n == "cursor") {   // vertex mask in? queries: a query before each step of an open iteration
        Lattice::InOutEdgesIterator it = op[3].i() ? l.inEdges(op[1].i(), mkMask(l, op[2])) : l.outEdges(op[1].i(), mkMask(l, op[2]));
        o.open();
        for (size_t k = 0; ; ++k) {
            if (k < op[4].size()) {
                const Val& q = op[4][k];
                Lattice::InOutEdgesIterator j = q[2].i() ? l.inEdges(q[0].i(), mkMask(l, q[1])) : l.outEdges(q[0].i(), mkMask(l, q[1]));
                while (j.hasNext()) j.next();
            }
            if (!it.hasNext() || k > 200) break;
            outEdge(l, it.next(), o);
        }
        o.close();
    }
    else if (n == "allout") edges(l.allOutEdges(op[1].i()));
    else if (n == "allin") edges(l.allInEdges(op[1].i()));
    else if (n == "firstout") outEdge(l, l.firstOutEdge(op[1].i(), mkMask(l, op[2])), o);
    else if (n == "firstin") outEdge(l, l.firstInEdge(op[1].i(), mkMask(l, op[2])), o);
    else if (n == "src" || n == "tgt") {
        o.open();
        if (n == "src") { Lattice::EdgesSortedBySourceIterator it(l.edgesSortedBySource(mkMask(l, op[1]))); while (it.hasNext()) outEdge(l, it.next(), o); }
        else { Lattice::EdgesSortedByTargetIterator it(l.edgesSortedByTarget(mkMask(l, op[1]))); while (it.hasNext()) outEdge(l, it.next(), o); }
        o.close();
    }
    else if (n == "path" || n == "skippath") {
        Lattice::VertexDescriptor v = op[1].i();
        Lattice::EdgeSequence q = n == "path" ? l.getPath(v, mkMask(l, op[2])) : l.getPathSkippingBlanks(v, mkMask(l, op[2]));
        o.open().i(v); outSeq(l, q, o); guarded(o, [&] { o.s(l.getSequenceText(q)); });
        guarded(o, [&] { o.s(l.getSequenceTextAsStringFrag(q).str()); });
        o.i(q.size(l)); o.b(q.empty()); o.close();
    }
    else if (n == "nth") {   // nth edges of a sequence of handles
        Lattice::EdgeSequence q = s.seq(op[1]);
        o.open(); size_t m = q.size(l); for (size_t i = 0; i < m; ++i) guarded(o, [&] { outEdge(l, q.nthEdge(l, i), o); }); o.close();
    }
    else if (n == "children") { auto c = l.getChildren(s.edge(op[1]), mkMask(l, op[2])); o.open(); for (auto e : c) outEdge(l, e, o); o.close(); }
    else if (n == "parent") { auto p = l.getParent(s.edge(op[1]), mkMask(l, op[2])); if (p) outEdge(l, *p, o); else o.n(); }
    else if (n == "origin") { auto p = l.getEdgeOrigin(op[2].s(), s.edge(op[1])); if (p) outEdge(l, *p, o); else o.n(); }
    else if (n == "lemma") { auto p = l.getEdgeLemma(s.edge(op[1])); if (p) o.s(*p); else o.n(); }
    else if (n == "count") o.i(l.countEdges(op[1].i(), op[2].i()));
    else if (n == "edge") outEdgeFull(l, s.edge(op[1]), o);
    else if (n == "first") o.i(l.getFirstVertex());
    else if (n == "last") o.i(l.getLastVertex());
    else if (n == "vertex") o.i(l.getVertexForRawCharIndex(op[1].i()));
    else if (n == "insert") { l.correctionInsert(op[1].i(), op[2].s()); o.n(); }
    else if (n == "erase") { l.correctionErase(op[1].i(), op[2].i()); o.n(); }
    else if (n == "replace") { l.correctionReplace(op[1].i(), op[2].i(), op[3].s()); o.n(); }
    else if (n == "cut") {   // lens tags mask supermask hard soft
        ListCutter c; for (size_t i = 0; i < op[1].size(); ++i) c.lens.push_back(op[1][i].i());
        c.tags = strList(op[2]); c.hard = op[5].i(); c.soft = op[6].i();
        l.runCutter(c, mkMask(l, op[3]), mkMask(l, op[4])); o.n();
    }
    else if (n == "vertices") { o.open(); Lattice::VertexIterator vi(l, op[1].b()); while (vi.hasNext()) o.i(vi.next()); o.close(); }
    else if (n == "dump") outLattice(l, o);
    else throw drv::BadRequest("op " + n);
}
