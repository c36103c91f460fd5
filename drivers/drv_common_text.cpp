// case conversion and regular expressions
#include "latdump.hpp"
#include "case_converter_factory.hpp"
#include "simple_convert.hpp"
#include "regexp.hpp"

VCMD(cases) {
    static CaseConverterFactory<std::string::const_iterator, std::back_insert_iterator<std::string> > f;
    guarded(o, [&] {
        const std::string& k = a[0].s();
        boost::shared_ptr<StringGeneralCaseConverter> c = k == "lower" ? f.getLowerCaseConverter(a[1].s()) : k == "upper" ? f.getUpperCaseConverter(a[1].s()) : f.getTitleCaseConverter(a[1].s());
        o.open();
        for (size_t i = 0; i < a[2].size(); ++i) {
            const std::string& s = a[2][i].s();
            o.open().s(simpleConvert(*c, s)).s(simpleHeadConvert(*c, s)).s(simpleTailConvert(*c, s));
            o.b(simpleWillBeTouchedWhenConverted(*c, s)).b(simpleWillBeTouchedWhenHeadConverted(*c, s)).b(simpleWillBeTouchedWhenTailConverted(*c, s)).close();
        }
        o.close();
    });
}

VCMD(regexp) {
    guarded(o, [&] {
        PerlRegExp re(a[1].s());
        const std::string& op = a[0].s();
        const std::string& text = a[2].s();
        int n = a[3].i();
        std::vector<std::string> got(n);
        std::vector<PerlArg> args; for (int i = 0; i < n; ++i) args.push_back(PerlArg(&got[i]));
        std::vector<const PerlArg*> ptr; for (int i = 0; i < n; ++i) ptr.push_back(&args[i]);
        auto groups = [&] { o.open(); for (auto& s : got) o.s(s); o.close(); };
        o.open().b(re.ok()).i(re.NumberOfCapturingGroups()).s(re.pattern());
        if (op == "full" || op == "partial") {
            bool r = op == "full" ? PerlRegExp::FullMatchN(text, re, ptr.data(), n) : PerlRegExp::PartialMatchN(text, re, ptr.data(), n);
            o.b(r); if (r) groups();
        } else if (op == "consume" || op == "find") {
            PerlStringPiece p(text);
            for (int k = 0; k < 50; ++k) {
                size_t before = p.size();
                bool r = op == "find" ? PerlRegExp::FindAndConsumeN(&p, re, ptr.data(), n) : PerlRegExp::ConsumeN(&p, re, ptr.data(), n);
                o.open().b(r); if (r) groups(); o.s(p.as_string()).close();
                if (!r || (size_t)p.size() == before) break;
            }
        } else if (op == "variadic") {            // the same through the interface with separate arguments
            bool r = n == 0 ? PerlRegExp::PartialMatch(text, re) : n == 1 ? PerlRegExp::PartialMatch(text, re, args[0])
                : n == 2 ? PerlRegExp::PartialMatch(text, re, args[0], args[1]) : n == 3 ? PerlRegExp::PartialMatch(text, re, args[0], args[1], args[2])
                : n == 4 ? PerlRegExp::PartialMatch(text, re, args[0], args[1], args[2], args[3])
                : n == 5 ? PerlRegExp::PartialMatch(text, re, args[0], args[1], args[2], args[3], args[4])
                : n == 6 ? PerlRegExp::PartialMatch(text, re, args[0], args[1], args[2], args[3], args[4], args[5])
                : n == 7 ? PerlRegExp::PartialMatch(text, re, args[0], args[1], args[2], args[3], args[4], args[5], args[6])
                : PerlRegExp::PartialMatch(text, re, args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7]);
            o.b(r); if (r) groups();
        } else {
            std::string s = text;
            if (op == "replace") { bool r = PerlRegExp::Replace(&s, re, a[4].s()); o.b(r).s(s); }
            else if (op == "global") { int r = PerlRegExp::GlobalReplace(&s, re, a[4].s()); o.i(r).s(s); }
            else { std::string out; bool r = PerlRegExp::Extract(text, re, a[4].s(), &out); o.b(r); o.s(r ? out : ""); }
        }
        o.close();
    });
}
