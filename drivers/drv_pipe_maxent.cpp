// Maximum entropy models: training, evaluation and files.
#include "latops.hpp"
#include "maxentmodel.hpp"

namespace {
typedef maxent::MaxentModel::context_type Ctx;
Ctx ctx(const Val& v) { Ctx c; for (size_t i = 0; i < v.size(); ++i) c.push_back(std::make_pair(v[i][0].s(), (float) v[i][1].d())); return c; }
void ask(const maxent::MaxentModel& m, const Val& queries, const Val& outcomes, Out& o) {
    o.open();
    for (size_t i = 0; i < queries.size(); ++i) {
        Ctx c = ctx(queries[i]);
        o.open();
        for (int k = 0; k < 2; ++k) {       // sorted and in the order of the model
            std::vector<std::pair<std::string, double> > r;
            m.eval_all(c, r, k == 0);
            o.open(); for (auto& p : r) o.open().s(p.first).d(p.second).close(); o.close();
        }
        o.open(); for (size_t j = 0; j < outcomes.size(); ++j) o.d(m.eval(c, outcomes[j].s())); o.close();
        o.s(m.predict(c));
        bool binary = true; std::vector<std::string> names;
        for (auto& p : c) { names.push_back(p.first); if (p.second != 1) binary = false; }
        o.s(binary ? m.predict(names) : m.predict(c));
        o.close();
    }
    o.close();
}
}
// events iterations cutoff tolerance sigma2 path queries outcomes -> answers of the model, of that read from a text file, of that read from a binary file
VCMD(maxent) {
    guarded(o, [&] {
        o.open();
        maxent::MaxentModel m;
        m.begin_add_event();
        for (size_t i = 0; i < a[0].size(); ++i) m.add_event(ctx(a[0][i][0]), a[0][i][1].s(), a[0][i][2].i());
        m.end_add_event(a[2].i());
        guarded(o, [&] { m.train(a[1].i(), "gis", a[4].d(), a[3].d()); o.n(); });
        ask(m, a[6], a[7], o);
        for (int b = 0; b < 2; ++b) guarded(o, [&] {
            std::string p = a[5].s() + (b ? ".bin" : ".txt");
            m.save(p, b);
            maxent::MaxentModel n;
            n.load(p);
            ask(n, a[6], a[7], o);
        });
        o.close();
    });
}
// path queries outcomes
VCMD(maxentload) {
    guarded(o, [&] { maxent::MaxentModel n; n.load(a[0].s()); ask(n, a[1], a[2], o); });
}
