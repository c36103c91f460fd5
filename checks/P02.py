from checks._lat import *
from checks import _lat
from lib.pbt import Test

DRIVERS = ['drv_common']
RULE = ('a history of lattice operations with queries by tag mask at random points (out-/in-edges, first edges, iterations left open while other masks are asked about, whole-lattice iteration by '
        'source and by target, best path) compared with filtering all edges of a reference model, then every mask at every vertex; '
        'non-trivial: some mask is used both before and after an operation that changes what it matches')


def queries(ctx, case):
    r = play(case)
    n = len(r.ops)
    used = {repr(o[-1]) for o in r.ops if o[0] in ('out', 'in', 'src', 'tgt', 'path', 'firstout', 'firstin', 'grab')}
    for m in MASKS:
        for k in range(len(r.m.bounds()) + r.m.loose):
            r.step(('out', k, m))
            r.step(('in', k, m))
        r.step(('src', m))
        r.step(('tgt', m))
    r.run(ctx)
    ctx.nontrivial(len(used) > 0 and (r.merged or r.converted))
    ctx.event(*(['merged'] if r.merged else []), 'masks used early %d' % min(3, len(used)))


TESTS = [
    Test('queries', histories(mut + [again_op] * 4 + qry * 2 + [cursor] * 3, 28, 24), queries, quick=4000),
    Test('queries-loose', histories(mut + [again_op] * 3 + loose_ops * 2 + qry + [cursor], 24, 20), queries, quick=1600),
]
