// The agenda parser and its chart over a plain context-free grammar.
#include "latops.hpp"
#include "agenda.hpp"
#include "agenda_parser.tpl"
#include "av_ai_converter.hpp"
#include "chart.tpl"
#include "limit_checker.hpp"
#include "registrar.tpl"
#include "simple_cfg_combinator.tpl"

// ['', ops, [[lhs, [rhs...], score]...], terminal tag, limit or -1, agenda ("fifo"|"score")]
namespace {
typedef std::string Category;
typedef simple_cfg_rule<Category> Rule;
typedef simple_cfg_combinator<Category, Rule> Combinator;
typedef chart<Category, Lattice::Score, std::string, Rule, simple_marked_edges_index> Chart;
template <typename A> void run(Chart& ch, Combinator& c, A& agenda) {
    agenda_parser<Category, Lattice::Score, std::string, Rule, Combinator, A, simple_marked_edges_index> p(ch, c, agenda);
    p.run();
}
}
VCMD(cfg) {
    Sess s("");
    o.open();
    o.open();
    for (size_t k = 0; k < a[0].size(); ++k) guarded(o, [&] { runOp(s, a[0][k], o); });
    o.close();
    outLattice(s.l, o);
    guarded(o, [&] {
        Combinator c;
        for (size_t i = 0; i < a[1].size(); ++i) {
            const Val& r = a[1][i];
            Rule rule(r[0].s(), r[2].d());
            if (r[1].size() == 1) c.add_unary_rule(r[1][0].s(), rule);
            else c.add_binary_rule(r[1][0].s(), r[1][1].s(), rule);
        }
        registrar<std::string> reg;
        AV_AI_Converter conv(s.aim, reg, reg);
        LimitChecker lim;
        if (a[3].i() >= 0) lim.setAbsoluteLimit(a[3].i());
        for (size_t i = 0; i < a[5].size(); ++i) lim.addLimitSpec(a[5][i][0].i(), a[5][i][1].i());
        Chart ch(s.l, conv, a[2].s(), lim);
        if (a[4].s() == "fifo") { fifo_agenda<Lattice::EdgeDescriptor> g; run(ch, c, g); }
        else { priority_agenda<Chart> g(ch); run(ch, c, g); }
        o.n();
    });
    outLattice(s.l, o);
    o.close();
}
