"""Annotation items: attribute-value store against a dictionary."""
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
import re

DRIVERS = ['drv_common']
RULE = ('a sequence of operations making, copying, assigning and setting values of annotation items, compared with dictionaries after every '
        'step, with equality and hash of all pairs at the end; non-trivial: at least two items with values and one of them copied or merged')
ATTRS = ['num', 'case', 'a', 'b', 'g', 'ż', 'x y', '', 'discontinuous'] + ['at%d' % i for i in range(40)]
VALS = ['sg', 'pl', 'any', 'nil', 'fail', 'false', 'empty', '0', '1', '-3', '42', '2147483647', '-2147483648', '99999999999', 'x', 'żółw', 'a b', '12a', '1.5', '1 ',
        '1e3', '-', '_', '*', '?', 'Any', 'nilx', 'true', '0x1', 'inf']
attr = st.one_of(st.sampled_from(ATTRS[:4]), st.sampled_from(ATTRS))
val = st.one_of(st.sampled_from(VALS), st.integers(-10**6, 10**6).map(str),
                st.text(alphabet='abż -19.,=', max_size=5).filter(lambda s: not re.match(r'^\s*[+-]?\d+$', s) or s == str(int(s))))
cat = st.sampled_from(['word', 'N', '', "'a", 'ż'])
text = st.one_of(st.none(), st.sampled_from(['', 'a', 'ala', 'ż']))
N = st.integers(0, 99)
ops = st.one_of(
    st.tuples(st.just('new'), cat, text), st.tuples(st.just('newfrag'), cat, st.integers(0, 26), st.integers(0, 8)),
    st.tuples(st.just('copy'), N), st.tuples(st.just('copycat'), N, cat), st.tuples(st.just('copytext'), N, text.map(lambda t: t or '')),
    st.tuples(st.just('copyboth'), N, cat, text.map(lambda t: t or 'z')), st.tuples(st.just('assign'), N, N), st.tuples(st.just('cat'), N, cat),
    *[st.tuples(st.just('set'), N, attr, val)] * 4, st.tuples(st.just('seti'), N, attr, st.integers(-2**31, 2**31 - 1)),
    st.tuples(st.just('sets'), N, attr, st.sampled_from(['sg', '7', 'any', 'fail', 'x'])), st.tuples(st.just('setb'), N, attr, st.booleans()),
    *[st.tuples(st.just('add'), N, N)] * 2, st.tuples(st.just('get'), N, attr), st.tuples(st.just('map'), N))
TEXT = 'zażółć gęślą jaźń'.encode()


def canon(v):
    """the value a string given to 'set' stands for: an int, True (any), False (fail) or bytes"""
    if re.match(r'^-?\d+$', v) and -2**31 <= int(v) < 2**31:
        return int(v)
    if v in ('any', 'nil'):
        return True
    if v in ('fail', 'false', 'empty'):
        return False
    return v.encode()


def shown(v):
    return b'nil' if v is True else b'fail' if v is False else str(v).encode() if isinstance(v, int) else v


def store(ctx, case):
    I = [[b'N', b'', {}]]
    order = []      # attributes in order of first use
    req, want = [['new', 'N', None]], [None]
    copied = False

    def show(i):
        return [i[0], i[1], [[a, shown(i[2][a])] for a in order if a in i[2]]]

    def use(a):
        if a.encode() not in order:
            order.append(a.encode())
        return a.encode()

    def put(op, w):
        req.append(op)
        want.append(w)
    for op in case:
        n = op[0]
        o = list(op)
        if n not in ('new', 'newfrag'):
            o[1] %= len(I)
            it = I[o[1]]
        if n == 'new':
            I.append([op[1].encode(), (op[2] or '').encode(), {}])
            put(o, None)
        elif n == 'newfrag':
            I.append([op[1].encode(), TEXT[op[2]:op[2] + op[3]], {}])
            o[3] = len(I[-1][1])
            put(o, None)
        elif n.startswith('copy'):
            copied |= bool(it[2])
            new = [it[0], it[1], dict(it[2])]
            if n in ('copycat', 'copyboth'):
                new[0] = o[2].encode()
            if n in ('copytext', 'copyboth'):
                new[1] = o[-1].encode()
            I.append(new)
            put(o, show(new))
        elif n == 'assign':
            o[2] %= len(I)
            x = I[o[2]]
            I[o[1]] = [x[0], x[1], dict(x[2])]
            put(o, show(I[o[1]]))
        elif n == 'cat':
            it[0] = o[2].encode()
            put(o, show(it))
        elif n in ('set', 'seti', 'sets', 'setb'):
            it[2][use(o[2])] = canon(o[3]) if n == 'set' else o[3].encode() if n == 'sets' else o[3]
            put(o, show(it))
        elif n == 'add':
            o[2] %= len(I)
            copied |= bool(I[o[2]][2])
            it[2].update(I[o[2]][2])
            put(o, show(it))
        elif n == 'get':
            v = it[2].get(o[2].encode(), False)
            isint = isinstance(v, int) and not isinstance(v, bool)
            put(o, [shown(v), isint, v is False, v is True, v if isint else 0])
        elif n == 'map':
            put(o, sorted([a, shown(v)] for a, v in it[2].items()))
    if len(order) > 100:
        return
    for i, x in enumerate(I):
        put(['show', i], show(x))
        for j, y in enumerate(I):
            put(['eq', i, j], (x, y))
    got = ctx.v('drv_common', 'items', req)

    def key(i):
        return [i[0], i[1], {a: (type(v).__name__, v) for a, v in i[2].items()}]
    for op, g, w in zip(req, got, want):
        if op[0] == 'eq':
            same = key(w[0]) == key(w[1])
            check(g[0] == same and g[1] != same, '%r: %r but items are %r and %r', op, g, w[0], w[1])
            check(not same or w[0][2] != w[1][2] or g[2], '%r: equal items with different hashes: %r', op, w)
        else:
            equal(g, w, repr(op))
    ctx.nontrivial(copied and sum(1 for i in I if i[2]) >= 2)


TESTS = [Test('store', lst(ops, 1, 24, 18), store, quick=8000)]
