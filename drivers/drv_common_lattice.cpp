#include "latops.hpp"
// [text, [ops]] -> [result per op]
VCMD(lattice) {
    Sess s(a[0].s());
    o.open();
    for (size_t i = 0; i < a[1].size(); ++i) guarded(o, [&] { runOp(s, a[1][i], o); });
    o.close();
}
