"""Cutting a layer of the lattice into segments."""
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst

DRIVERS = ['drv_common']
RULE = ('blocks of text with symbols, some separated by text without them, some blocks (or their ends) marked by units in different languages; a '
        'cutter with random piece lengths and hard and soft limits is run over them; the new edges are compared with the expected pieces, '
        'the rest of the lattice must not change; non-trivial: at least two units or a limit that breaks a piece')
ch = st.text(alphabet='ab ż€𝄞ab  ', min_size=1, max_size=14)
case = st.tuples(lst(st.tuples(ch, st.one_of(st.text(alphabet='\n-ż', min_size=1, max_size=2), st.text(alphabet='\n-ż', min_size=1, max_size=2), st.just('')), st.sampled_from([None, '!pl', '!en', '', 'x']), st.integers(0, 5), st.booleans()), 1, 4, 3),
                 st.lists(st.integers(1, 9), min_size=1, max_size=4), st.sampled_from([0, 0, 0, 4, 5, 6, 8, 1, 2, 3, 11]), st.sampled_from([0, 0, 0, 1, 2, 3, 5, 7, 10]),
                 st.sampled_from([[['text']], [['text', '!pl']], [['text', '!en'], ['x']], [['x']]]), st.sampled_from([['token'], ['segment', 'own'], ['token', '!pl']]), st.booleans())


def pieces(text, lens, hard, soft):
    """[(from, to, number of the piece)] or None when a character does not fit the hard limit"""
    r, p, k = [], 0, 0
    B = [len(text[:i].encode()) for i in range(len(text) + 1)]
    T = text.encode()
    while p < len(T):
        i = B.index(p)
        z = B[min(len(B) - 1, i + lens[k % len(lens)])]
        k += 1
        while p < z:
            c = z
            if soft and z - p >= soft:
                s = [j for j in range(p + soft, z) if T[j:j + 1] == b' ']
                c = s[0] if s else z
            if hard and z - p >= hard:
                h = max(b for b in B if b <= p + hard)
                if h <= p:
                    return None
                c = min(c, h)
            r.append((p, c, k))
            p = c
    return r


def cut(ctx, case):
    blocks, lens, hard, soft, sup, tags, before = case
    req, units, n = [], [], 0
    for num, (text, gap, mark, skip, other) in enumerate(blocks):
        rest, k = '', num           # a unit goes on to the end of the symbols
        while not blocks[k][1] and k + 1 < len(blocks):
            k += 1
            rest += blocks[k][0]
        T = text.encode()
        req.append(['appendsym', text])
        if mark is not None:
            a = n + len(text[:skip % len(text)].encode())
            t = ['text'] + ([mark] if mark else [])
            req.append(['add', a, n + len(T), ['TEXT', None, []], t, [], 0.0, -1, -1])
            if any(set(m) <= set(t) for m in sup):
                units.append((a, text[skip % len(text):] + rest))
        if other:
            req.append(['add', n, n + len(T), ['O', None, []], ['other'], [], 1.0, -1, -1])
        n += len(T)
        if gap:
            req.append(['append', gap])
        n += len(gap.encode())
    if before:
        req += [['src', sup], ['src', [['symbol']]]]
    req += [['dump'], ['cut', lens, tags, [['symbol']], sup, hard, soft], ['dump'], ['src', [tags]]]
    res = ctx.v('drv_common', 'lattice', ['', req])
    want, fails, broken = [], False, False
    for a, text in sorted(units):
        ps = pieces(text, lens, hard, soft)
        if ps is None:
            fails = True
            break
        T = text.encode()
        broken |= len(ps) != len({k for _, _, k in ps})
        for p, c, k in ps:
            sym, x = [], p
            for s in T[p:c].decode():
                sym.append([a + x, a + x + len(s.encode()), b"'" + s.encode(), s.encode(), [b'symbol'], [], 0.0])
                x += len(s.encode())
            tg = sorted(t.encode() for t in tags)
            w = ([a + p, a + c, b'c%d' % (k % 3), T[p:c], tg, [], 0.0], [tg, 0.0, -1, -1, sym])
            if w not in want:
                want.append(w)
    d1, r, d2, q = res[-4:]
    exc = isinstance(r, list) and r and r[0] == b'!'
    check(exc == fails, 'cut %r: got %r, expected %s', req[-3], r, 'an exception' if fails else 'success')
    if exc:
        return
    old = [e[0] for e in d1[3]]
    new = [e for e in d2[3] if e[0] not in old]
    gone = [e for e in old if e not in [x[0] for x in d2[3]]]
    equal(d2[0], d1[0], 'text')
    equal(gone, [], 'edges lost by cutting')
    got = [(e[0], e[3][0]) for e in new]
    equal(sorted(got, key=repr), sorted(want, key=repr), 'pieces of %r cut by %r hard %d soft %d' % (units, lens, hard, soft))
    for e in new:
        check(all(p == e[3][0] for p in e[3]), 'partitions of a piece: %r', e)
    equal(sorted(q, key=repr), sorted([w[0] for w in want], key=repr), 'query by the tags of the pieces')
    ctx.nontrivial(len(units) > 1 or broken)
    ctx.event('units %d' % len(units), *(['limit broke a piece'] if broken else []))


TESTS = [Test('cut', case, cut, quick=8000)]
