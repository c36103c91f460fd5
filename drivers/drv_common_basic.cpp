// Tags and masks, annotation items, string frags, quoters, small utilities.
#include "latdump.hpp"
#include "psi_quoter.hpp"
#include "utt_like_quoter.hpp"
#include "string_frag.hpp"
#include "string_helpers.hpp"
#include "string_inflection.hpp"
#include "edit_distance.hpp"
#include "limit_checker.hpp"
#include "md5.hpp"
#include "escaping.hpp"
#include "segment_glob.hpp"
#include "ant_like_path_glob.hpp"
#include "morfologik_tags_parser.hpp"
#include "stream_helpers.hpp"
#include "guid_generator.hpp"

static void outNames(LayerTagManager& m, const LayerTagCollection& c, Out& o) {
    o.open(); for (auto& s : m.getTagNames(c)) o.s(s); o.close();
}
static void outLL(const std::list<std::list<std::string> >& x, Out& o) {
    o.open(); for (auto& l : x) { o.open(); for (auto& s : l) o.s(s); o.close(); } o.close();
}
static std::list<std::list<std::string> > listList(const Val& v) {
    std::list<std::list<std::string> > r;
    for (size_t i = 0; i < v.size(); ++i) r.push_back(strList(v[i]));
    return r;
}

// a list of operations over collections c0, c1, ... and masks m0, m1, ...
VCMD(tags) {
    LayerTagManager m;
    std::vector<LayerTagCollection> C;
    std::vector<LayerTagMask> M;
    o.open();
    for (size_t k = 0; k < a.size(); ++k) {
        const Val& op = a[k];
        const std::string& n = op[0].s();
        auto c = [&](size_t i) -> LayerTagCollection& { return C.at((size_t)op[i].i()); };
        auto mm = [&](size_t i) -> LayerTagMask& { return M.at((size_t)op[i].i()); };
        guarded(o, [&] {
            if (n == "new") { C.push_back(m.createTagCollectionFromList(strList(op[1]))); outNames(m, C.back(), o); }
            else if (n == "newvec") { auto l = strList(op[1]); C.push_back(m.createTagCollectionFromVector(std::vector<std::string>(l.begin(), l.end()))); outNames(m, C.back(), o); }
            else if (n == "spec") { C.push_back(m.createTagCollection(op[1].s())); outNames(m, C.back(), o); }
            else if (n == "one") { C.push_back(m.createSingletonTagCollection(op[1].s())); outNames(m, C.back(), o); }
            else if (n == "empty") { C.push_back(m.createEmptyTagCollection()); outNames(m, C.back(), o); }
            else if (n == "lang") { C.push_back(m.createTagCollectionFromListWithLangCode(strList(op[1]), op[2].s())); outNames(m, C.back(), o); }
            else if (n == "union") { C.push_back(createUnion(c(1), c(2))); outNames(m, C.back(), o); }
            else if (n == "inter") { C.push_back(createIntersection(c(1), c(2))); outNames(m, C.back(), o); }
            else if (n == "names") outNames(m, c(1), o);
            else if (n == "cmp") o.open().b(c(1) == c(2)).b(c(1) != c(2)).b(isSubset(c(1), c(2))).b(c(1).isEmpty()).b(c(1).isNonempty()).b(c(1).getHash() == c(2).getHash()).close();
            else if (n == "there") o.b(m.isThere(op[1].s(), c(2)));
            else if (n == "planes") outNames(m, m.onlyPlaneTags(c(1)), o);
            else if (n == "sameplane") o.b(m.areInTheSamePlane(c(1), c(2)));
            else if (n == "mspec") { M.push_back(m.getMask(op[1].s())); o.n(); }
            else if (n == "mlist") { M.push_back(m.getMaskFromList(strList(op[1]))); o.n(); }
            else if (n == "malt") { M.push_back(m.getAlternativeMaskFromTagNames(listList(op[1]))); o.n(); }
            else if (n == "malt2") { M.push_back(m.getAlternativeMask(c(1), c(2))); o.n(); }
            else if (n == "malt3") { M.push_back(m.getAlternativeMask(c(1), c(2), c(3))); o.n(); }
            else if (n == "mcoll") { M.push_back(m.getMask(c(1))); o.n(); }
            else if (n == "mlang") { M.push_back(m.getMaskWithLangCode(strList(op[1]), op[2].s())); o.n(); }
            else if (n == "mmul") { M.push_back(m.getAlternativeMaskFromTagNames(LayerTagManager::multiplyMaskListByLangCode(listList(op[1]), op[2].s()))); o.n(); }
            else if (n == "many") { M.push_back(m.anyTag()); o.n(); }
            else if (n == "match") o.b(matches(c(1), mm(2)));
            else if (n == "meq") o.open().b(mm(1) == mm(2)).b(mm(1).getHash() == mm(2).getHash()).b(mm(1).isAny()).close();
            else if (n == "msym") o.b(m.canBeAppliedToImplicitSymbol(mm(1)));
            else if (n == "split") { o.open(); for (auto& s : LayerTagManager::splitCollectionSpecification(op[1].s())) o.s(s); o.close(); }
            else if (n == "splitm") outLL(LayerTagManager::splitMaskSpecification(op[1].s()), o);
            else throw drv::BadRequest("tags op");
        });
    }
    o.close();
}

static void outItem(AnnotationItemManager& m, const AnnotationItem& it, Out& o) {
    o.open().s(it.getCategory()).s(it.getText());
    o.open(); for (auto& p : m.getValues(it)) o.open().s(p.first).s(p.second).close(); o.close();
    o.close();
}
// operations over items i0, i1, ...
VCMD(items) {
    AnnotationItemManager m;
    std::vector<AnnotationItem> I;
    std::string text("zażółć gęślą jaźń");
    o.open();
    for (size_t k = 0; k < a.size(); ++k) {
        const Val& op = a[k];
        const std::string& n = op[0].s();
        auto it = [&](size_t i) -> AnnotationItem& { return I.at((size_t)op[i].i()); };
        guarded(o, [&] {
            if (n == "new") { I.push_back(op[2].none() ? AnnotationItem(op[1].s()) : AnnotationItem(op[1].s(), StringFrag(op[2].s()))); o.n(); }
            else if (n == "newfrag") { I.push_back(AnnotationItem(op[1].s(), StringFrag(text, op[2].i(), op[3].i()))); o.n(); }
            else if (n == "copy") { I.push_back(AnnotationItem(it(1))); outItem(m, I.back(), o); }
            else if (n == "copycat") { I.push_back(AnnotationItem(it(1), op[2].s())); outItem(m, I.back(), o); }
            else if (n == "copytext") { I.push_back(AnnotationItem(it(1), StringFrag(op[2].s()))); outItem(m, I.back(), o); }
            else if (n == "copyboth") { I.push_back(AnnotationItem(it(1), op[2].s(), StringFrag(op[3].s()))); outItem(m, I.back(), o); }
            else if (n == "assign") { it(1) = it(2); outItem(m, it(1), o); }
            else if (n == "cat") { m.setCategory(it(1), op[2].s()); outItem(m, it(1), o); }
            else if (n == "set") { m.setValue(it(1), op[2].s(), op[3].s()); outItem(m, it(1), o); }
            else if (n == "seti") { m.setValue(it(1), op[2].s(), (int)op[3].i()); outItem(m, it(1), o); }
            else if (n == "sets") { m.setStringValue(it(1), op[2].s(), op[3].s()); outItem(m, it(1), o); }
            else if (n == "setb") { m.setValue(it(1), op[2].s(), m.from_bool(op[3].b())); outItem(m, it(1), o); }
            else if (n == "add") { m.addValues(it(1), it(2)); outItem(m, it(1), o); }
            else if (n == "show") outItem(m, it(1), o);
            else if (n == "get") {
                zvalue z = m.getValue(it(1), op[2].s());
                o.open().s(m.getValueAsString(it(1), op[2].s())).b(m.is_int(z)).b(m.is_false(z)).b(m.is_any(z)).i(m.is_int(z) ? m.to_int(z) : 0).close();
            }
            else if (n == "map") { o.open(); for (auto& p : m.getAVMap(it(1))) o.open().s(p.first).s(p.second).close(); o.close(); }
            else if (n == "eq") o.open().b(it(1) == it(2)).b(it(1) != it(2)).b(it(1).getHash() == it(2).getHash()).close();
            else throw drv::BadRequest("items op");
        });
    }
    o.close();
}

// [text, operations] over frags f0, f1, ...
VCMD(frags) {
    std::string text = a[0].s();
    std::vector<StringFrag> F;
    F.reserve(1000);
    o.open();
    for (size_t k = 0; k < a[1].size(); ++k) {
        const Val& op = a[1][k];
        const std::string& n = op[0].s();
        auto f = [&](size_t i) -> StringFrag& { return F.at((size_t)op[i].i()); };
        guarded(o, [&] {
            if (n == "new") F.push_back(StringFrag());
            else if (n == "str") F.push_back(StringFrag(op[1].s()));
            else if (n == "of") F.push_back(StringFrag(text, op[1].i(), op[2].i()));
            else if (n == "sub") F.push_back(StringFrag(f(1), op[2].i(), op[3].i()));
            else if (n == "copy") F.push_back(f(1));
            else if (n == "assign") f(1) = f(2);
            else if (n == "append") f(1).append(f(2));
            else if (n == "find") { size_t p = f(1).find((char)op[2].i(), op[3].i()); o.i(p == std::string::npos ? -1 : (long)p); return; }
            else if (n == "at") { o.i((unsigned char)f(1)[op[2].i()]); return; }
            else if (n == "substr") { o.s(f(1).substr(op[2].i(), op[3].i() < 0 ? std::string::npos : op[3].i())); return; }
            else if (n == "data") { o.s(std::string(f(1).data(), f(1).length())); return; }
            else throw drv::BadRequest("frags op");
            o.open(); for (auto& x : F) o.open().s(x.str()).i(x.length()).close(); o.close();
        });
    }
    o.close();
}

// ["psi"|"utt", additional, string] -> [escaped, unescape(escaped), unescape(string)]
VCMD(quote) {
    std::unique_ptr<Quoter> q(a[0].s() == "psi" ? (Quoter*)new PsiQuoter() : (Quoter*)new UTTLikeQuoter(a[1].s()));
    const std::string s = a[2].s();
    o.open();
    guarded(o, [&] { o.s(q->escape(s)); });
    guarded(o, [&] { o.s(q->unescape(q->escape(s))); });
    guarded(o, [&] { o.s(q->unescape(s)); });
    o.close();
}

VCMD(util) {
    const std::string& n = a[0].s();
    guarded(o, [&] {
        if (n == "lev") o.i(levenshteinDistance(a[1].s(), a[2].s()));
        else if (n == "similar") o.s(findTheMostSimilarString<std::string, std::list<std::string> >(a[1].s(), strList(a[2])));
        else if (n == "plural") o.s(pluralizeRegularWord(a[1].s()));
        else if (n == "md5") o.s(md5(a[1].s()));
        else if (n == "md5parts") {
            MD5 m; for (size_t i = 0; i < a[1].size(); ++i) m.update(a[1][i].s().data(), a[1][i].s().size());
            m.finalize(); o.s(m.hexdigest());
        }
        else if (n == "escaped") { o.open(); for (size_t i = 0; i < a[1].s().size(); ++i) o.b(Escaping::isEscaped(a[1].s(), i)); o.close(); }
        else if (n == "glob") { SegmentGlob g(a[1].s()); o.open().b(g.isFixed()); for (size_t i = 0; i < a[2].size(); ++i) o.b(g.matches(a[2][i].s())); o.close(); }
        else if (n == "antglob") {
            AntLikePathGlob g(a[1].s()); std::set<boost::filesystem::path> r;
            g.allMatchingFiles(a[2].s(), r);
            o.open(); for (auto& p : r) o.s(p.string()); o.close();
        }
        else if (n == "limit") {
            LimitChecker l; if (!a[1].none()) l = LimitChecker(a[1].i());
            o.open();
            for (size_t i = 0; i < a[2].size(); ++i) {
                const Val& op = a[2][i];
                if (op[0].s() == "spec") l.addLimitSpec(op[1].i(), op[2].i());
                else if (op[0].s() == "unlim") l.addUnlimitedSpec(op[1].i());
                else if (op[0].s() == "abs") l.setAbsoluteLimit(op[1].i());
                else o.b(l.isAllowed(op[1].i(), op[2].i()));
            }
            o.close();
        }
        else if (n == "symlen") o.i(symbolLength(a[1].s(), a[2].i()));
        else if (n == "lemma") o.s(getLemmaFromLexeme(a[1].s()));
        else if (n == "morfologik") {
            MorfologikTagsParser p; std::string t = a[1].s();
            auto maps = [&](const std::vector<std::map<std::string, std::string> >& v) {
                o.open(); for (auto& m : v) { o.open(); for (auto& x : m) o.open().s(x.first).s(x.second).close(); o.close(); } o.close(); };
            o.open(); maps(p.parse(t)); maps(p.getFormAttributes(t));
            maps(std::vector<std::map<std::string, std::string> >(1, p.getLexemeAttributes(t))); o.close();
        }
        else if (n == "peek") {
            // start of a stream, then everything
            std::istringstream in(a[1].s());
            if (a[3].i() > 0) { std::string skip(a[3].i(), 0); in.read(&skip[0], a[3].i()); }
            std::string h = getStartingDataWithoutTouchingStream(in, a[2].i());
            std::ostringstream rest; rest << in.rdbuf();
            o.open().s(h).s(rest.str()).close();
        }
        else if (n == "data") {
            std::istringstream in(a[1].s());
            std::string h = getDataWithoutTouchingIStream(in);
            std::string again = getDataFromIStream(in);
            o.open().s(h).s(again).close();
        }
        else throw drv::BadRequest("util op");
    });
}
