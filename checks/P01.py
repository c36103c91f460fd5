from checks._lat import *
from lib.pbt import Test

DRIVERS = ['drv_common']
RULE = ('a random history of lattice operations (text appended with or without symbols, edges added in 4-way overlapping spans with '
        'colliding items and planes, partitions, discards, loose vertices) compared operation by operation and in a full final dump with a '
        'reference multigraph; non-trivial: at least one addition was merged into an existing edge, made an implicit symbol edge explicit, '
        'or was kept apart by its plane')


def history(ctx, case):
    r = play(case)
    r.dump()
    r.run(ctx)
    live = r.m.live()
    keys = [(e.src, e.tgt, e.cat, e.text, e.avs) for e in live]
    apart = len(keys) != len(set(keys))
    ctx.nontrivial(r.merged or r.converted or apart)
    ctx.event(*(['merged'] if r.merged else []), *(['made explicit'] if r.converted else []), *(['plane'] if apart else []),
              *(['refused'] if r.errors else []), *(['loose'] if r.m.loose else []))


TESTS = [
    Test('history', histories(mut + [again_op] * 2 + rel, 30, 24), history, quick=14000),
    Test('loose', histories(mut + loose_ops * 3 + rel[:4], 26, 20), history, quick=4000),
]
