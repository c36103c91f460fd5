"""Tag collections and masks against Python sets."""
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst

DRIVERS = ['drv_common']
RULE = ('a sequence of operations making tag collections (from lists, specifications, unions, intersections, language codes) and masks '
        '(from specifications, lists, alternatives, with language codes), compared with Python sets of names, then all masks against all '
        'collections; non-trivial: a mask with two alternatives or two tags in a conjunction decides differently for two collections')
POOL = ['symbol', 'token', 'a', 'ab', 'b', '!pl', '!en', '!', 'lexeme', 'sym bol', 'ż', 'symbol ', 'A', '_', 'x-y', 't9', 'normalization'] + ['t%d' % i for i in range(10, 40)]
tag = st.one_of(st.sampled_from(POOL[:8]), st.sampled_from(POOL))
tags = st.lists(tag, max_size=5)
tags1 = st.lists(tag, min_size=1, max_size=5)
ll = st.lists(st.lists(tag, max_size=4), min_size=1, max_size=4)
ll1 = st.lists(tags1, min_size=1, max_size=4)
N = st.integers(0, 99)
LC = st.sampled_from(['pl', 'en', 'de'])
ops = st.one_of(
    st.tuples(st.sampled_from(['new', 'newvec']), tags), st.tuples(st.just('spec'), tags1), st.tuples(st.just('one'), tag), st.tuples(st.just('empty')),
    st.tuples(st.just('lang'), tags, LC), st.tuples(st.sampled_from(['union', 'inter']), N, N),
    st.tuples(st.just('there'), tag, N), st.tuples(st.just('planes'), N), st.tuples(st.just('sameplane'), N, N),
    st.tuples(st.just('cmp'), N, N),
    st.tuples(st.just('mspec'), ll1), st.tuples(st.just('mlist'), tags), st.tuples(st.just('malt'), ll), st.tuples(st.just('malt2'), N, N),
    st.tuples(st.just('malt3'), N, N, N), st.tuples(st.just('mcoll'), N), st.tuples(st.just('mlang'), tags, LC), st.tuples(st.just('mmul'), ll, LC),
    st.tuples(st.just('many')), st.tuples(st.just('msym'), N), st.tuples(st.just('meq'), N, N), st.tuples(st.just('split'), tags1),
    st.tuples(st.just('splitm'), ll1))


def b(s):
    return sorted(x.encode() for x in s)


def algebra(ctx, case):
    C, M, req, want = [frozenset()], [None], [['empty'], ['many']], [[], None]

    def put(op, w):
        req.append(op)
        want.append(w)

    def coll(op, s):
        s = frozenset(s)
        C.append(s)
        put(op, b(s))

    def mask(op, alts):
        M.append(alts)
        put(op, None)
    for op in case:
        n = op[0]
        ci = [x % len(C) if isinstance(x, int) else x for x in op]
        mi = [x % len(M) if isinstance(x, int) else x for x in op]
        if n in ('new', 'newvec'):
            coll(list(op), op[1])
        elif n == 'spec':
            coll(['spec', ','.join(op[1])], op[1])
        elif n == 'one':
            coll(list(op), [op[1]])
        elif n == 'empty':
            coll(['empty'], [])
        elif n == 'lang':
            coll(list(op), op[1] + ['!' + op[2]])
        elif n == 'union':
            coll(ci, C[ci[1]] | C[ci[2]])
        elif n == 'inter':
            coll(ci, C[ci[1]] & C[ci[2]])
        elif n == 'there':
            put(ci, op[1] in C[ci[2]])
        elif n == 'planes':
            put(ci, b(t for t in C[ci[1]] if t.startswith('!')))
        elif n == 'sameplane':
            p = [{t for t in C[i] if t.startswith('!')} for i in ci[1:]]
            put(ci, p[0] == p[1])
        elif n == 'cmp':
            x, y = C[ci[1]], C[ci[2]]
            put(ci, (x, y))
        elif n == 'mspec':
            mask(['mspec', ';'.join(','.join(l) for l in op[1])], [frozenset(l) for l in op[1]])
        elif n == 'mlist':
            mask(list(op), [frozenset(op[1])])
        elif n == 'malt':
            mask(list(op), [frozenset(l) for l in op[1]])
        elif n in ('malt2', 'malt3'):
            mask(ci, [C[i] for i in ci[1:]])
        elif n == 'mcoll':
            mask(ci, [C[ci[1]]])
        elif n == 'mlang':
            mask(list(op), [frozenset(op[1] + ['!' + op[2]])])
        elif n == 'mmul':
            mask(list(op), [frozenset(l + ['!' + op[2]]) for l in op[1]])
        elif n == 'many':
            mask(['many'], None)
        elif n == 'msym':
            m = M[mi[1]]
            put(mi, m is None or frozenset(['symbol']) in m)
        elif n == 'meq':
            put(mi, (M[mi[1]], M[mi[2]]))
        elif n == 'split':
            put(['split', ','.join(op[1])], [t.encode() for t in op[1]])
        elif n == 'splitm':
            put(['splitm', ';'.join(','.join(l) for l in op[1])], [[t.encode() for t in l] for l in op[1]])
    if len({t for c in C for t in c} | {t for m in M if m for c in m for t in c}) > 55:
        return
    mixed = False
    base = len(req)
    for i, m in enumerate(M):
        row = []
        for j, c in enumerate(C):
            w = m is None or any(x <= c for x in m)
            put(['match', j, i], w)
            row.append(w)
        mixed |= m is not None and (len(m) > 1 or any(len(x) > 1 for x in m)) and len(set(row)) == 2
    for j in range(len(C)):
        put(['names', j], b(C[j]))
    got = ctx.v('drv_common', 'tags', req)
    for op, g, w in zip(req, got, want):
        if op[0] == 'cmp':
            x, y = w
            check(g[:5] == [x == y, x != y, x <= y, not x, bool(x)], '%r: %r for %r %r', op, g, sorted(x), sorted(y))
            check(x != y or g[5], '%r: equal collections with different hashes', op)
        elif op[0] == 'meq':
            x, y = w
            if (x is None) == (y is None) and (x is None or x == y):
                check(g[0] and g[1], '%r: equal masks differ: %r', op, g)
            elif x is None or y is None or set(x) != set(y):
                check(not g[0], '%r: different masks are equal: %r %r', op, x, y)
            check(g[2] == (x is None), '%r: isAny %r', op, g)
        else:
            equal(g, w, repr(op))
    ctx.nontrivial(mixed)


TESTS = [Test('algebra', lst(ops, 1, 22, 16), algebra, quick=8000)]
