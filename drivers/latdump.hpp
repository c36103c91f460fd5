// Structural dumps of a lattice shared by several drivers.
#pragma once
#include "val.hpp"
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "layer_tag_manager.hpp"
#include <algorithm>

inline void outTags(Lattice& l, const LayerTagCollection& t, Out& o) {
    std::list<std::string> n = l.getLayerTagManager().getTagNames(t);
    std::vector<std::string> v(n.begin(), n.end());
    std::sort(v.begin(), v.end());
    o.open(); for (auto& s : v) o.s(s); o.close();
}
inline void outAvs(Lattice& l, const AnnotationItem& it, Out& o) {
    auto vs = l.getAnnotationItemManager().getValues(it);
    std::vector<std::pair<std::string, std::string> > v(vs.begin(), vs.end());
    std::sort(v.begin(), v.end());
    o.open(); for (auto& p : v) o.open().s(p.first).s(p.second).close(); o.close();
}
// [src, tgt, category, text, tags, avs, score]
inline void outEdge(Lattice& l, Lattice::EdgeDescriptor e, Out& o) {
    guarded(o, [&] {
        AnnotationItem it = l.getEdgeAnnotationItem(e);
        o.open().i(l.getEdgeSource(e)).i(l.getEdgeTarget(e)).s(it.getCategory()).s(it.getText());
        outTags(l, l.getEdgeLayerTags(e), o);
        outAvs(l, it, o);
        o.d(l.getEdgeScore(e)).close();
    });
}
inline void outSeq(Lattice& l, const Lattice::EdgeSequence& s, Out& o) {
    guarded(o, [&] {
        o.open();
        Lattice::EdgeSequence::Iterator it(l, s);
        int n = 0;
        while (it.hasNext()) { outEdge(l, it.next(), o); if (++n > 100000) throw std::runtime_error("endless sequence"); }
        o.close();
    });
}
// edge + [hidden, edge text, [[tags, score, rule, tree, seq]...]]
inline void outEdgeFull(Lattice& l, Lattice::EdgeDescriptor e, Out& o) {
    o.open();
    outEdge(l, e, o);
    o.b(l.isEdgeHidden(e));
    guarded(o, [&] { o.s(l.getEdgeText(e)); });
    o.open();
    const std::list<Lattice::Partition>& ps = l.getEdgePartitions(e);
    for (auto& p : ps) {
        o.open();
        outTags(l, p.getTagList(), o);
        o.d(p.getScore()).i(p.getRuleId()).i(p.getTreeChoice());
        outSeq(l, p.getSequence(), o);
        o.close();
    }
    o.close();
    o.close();
}
// [text, n vertices, [vertices], [edges]]
inline void outLattice(Lattice& l, Out& o) {
    o.open();
    o.s(l.getAllText());
    o.i(l.countAllVertices());
    guarded(o, [&] {
        o.open(); Lattice::VertexIterator vi(l); while (vi.hasNext()) o.i(vi.next()); o.close();
    });
    guarded(o, [&] {
        o.open();
        Lattice::EdgesSortedBySourceIterator it(l.allEdgesSortedBySource());
        while (it.hasNext()) outEdgeFull(l, it.next(), o);
        o.close();
    });
    o.close();
}
inline std::list<std::string> strList(const Val& v) {
    std::list<std::string> r;
    for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i].s());
    return r;
}
// None = any tag; a list of lists = alternative of conjunctions; a string = specification
inline LayerTagMask mkMask(Lattice& l, const Val& v) {
    if (v.none()) return l.getLayerTagManager().anyTag();
    if (v.t == Val::S) return l.getLayerTagManager().getMask(v.s());
    std::list<std::list<std::string> > a;
    for (size_t i = 0; i < v.size(); ++i) a.push_back(strList(v[i]));
    return l.getLayerTagManager().getAlternativeMaskFromTagNames(a);
}
// [category, text or None, [[attr, value]...]]
inline AnnotationItem mkItem(Lattice& l, const Val& v) {
    AnnotationItem it = v[1].none() ? AnnotationItem(v[0].s()) : AnnotationItem(v[0].s(), StringFrag(v[1].s()));
    for (size_t i = 0; i < v[2].size(); ++i)
        l.getAnnotationItemManager().setValue(it, v[2][i][0].s(), v[2][i][1].s());
    return it;
}
// [text, n vertices, [edges]] with edge = [src,tgt,cat,text,tags,avs,score, [[tags,score,rule,[[edge number or tuple, role or None]...]]...]]
inline void outLatticeIdx(Lattice& l, Out& o) {
    std::map<Lattice::EdgeDescriptor, long> idx;
    std::vector<Lattice::EdgeDescriptor> es;
    Lattice::EdgesSortedBySourceIterator it(l.allEdgesSortedBySource());
    while (it.hasNext()) { Lattice::EdgeDescriptor e = it.next(); if (idx.insert(std::make_pair(e, (long)es.size())).second) es.push_back(e); }
    o.open().s(l.getAllText()).i(l.countAllVertices()).open();
    for (auto e : es) {
        AnnotationItem item = l.getEdgeAnnotationItem(e);
        o.open().i(l.getEdgeSource(e)).i(l.getEdgeTarget(e)).s(item.getCategory()).s(item.getText());
        outTags(l, l.getEdgeLayerTags(e), o);
        outAvs(l, item, o);
        o.d(l.getEdgeScore(e)).open();
        std::list<Lattice::Partition> ps = l.getEdgePartitions(e);
        for (auto& p : ps) {
            o.open(); outTags(l, p.getTagList(), o); o.d(p.getScore()).i(p.getRuleId()).open();
            Lattice::Partition::Iterator pi(l, p);
            while (pi.hasNext()) {
                Lattice::EdgeUsage u = pi.nextUsage();
                o.open();
                auto f = idx.find(u.getEdge());
                if (f != idx.end()) o.i(f->second); else outEdge(l, u.getEdge(), o);
                if (NULLP(u.getRole())) o.n(); else o.s(l.getAnnotationItemManager().zvalueToString(u.getRole()));
                o.close();
            }
            o.close().close();
        }
        o.close().close();
    }
    o.close().close();
}
