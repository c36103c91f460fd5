"""Finite automata: algebra, regular expressions, dictionaries, and the lemmatizer that uses them."""
import itertools
import os
from hypothesis import strategies as st
from lib.latmodel import mask_matches
from lib.pbt import Test, check, equal, lst
from checks.P16 import scratch
from checks.P19 import build, convert, adds

DRIVERS = ['drv_pipe']
RULE = ('expr, regex: automata made by random sequences of operations, or from regular expressions, accept exactly the words (of a few letters) that a model with finite sets of words accepts, and the '
        'minimized automaton is deterministic and has no two equivalent, no unreachable and no dead states; dict: the same for automata of sets of words, built, saved and loaded; multi: keys with several '
        'values; lamerlemma: a random lattice is lemmatized with a generated dictionary (text, saved, loaded), compared with a model; non-trivial: three words accepted, three lines, or two edges added')
N = 4
ALPHA = [b'a', b'b', b'\xc5']
WORDS = [b''.join(w) for n in range(N + 1) for w in itertools.product(ALPHA, repeat=n)]
ODD = [b'c', b'ca', b'\0', b'a\0']

leaf = st.one_of(st.tuples(st.sampled_from(['str', 'it']), st.lists(st.sampled_from(ALPHA), max_size=3).map(b''.join)), st.tuples(st.just('sym'), st.sampled_from(ALPHA)))
un = st.sampled_from(['opt', 'plus', 'star', 'star', 'rev', 'opt', 'plus', 'min', 'eps', 'det', 'prune', 'reach', 'copy', 'over'])
tree = st.recursive(leaf, lambda t: st.one_of(st.tuples(st.sampled_from(['cat', 'or', 'or', 'and', 'cat']), t, t), st.tuples(un, t)), max_leaves=6)


def cut(ws):
    return frozenset(w for w in ws if len(w) <= N)


def lang(t):
    """the words of at most N letters"""
    n = t[0]
    if n in ('str', 'it', 'sym'):
        return cut([t[1]])
    x = lang(t[1])
    if n in ('cat', 'or', 'and'):
        y = lang(t[2])
        return cut(u + v for u in x for v in y) if n == 'cat' else x | y if n == 'or' else x & y
    if n == 'opt':
        return x | {b''}
    if n in ('plus', 'star'):
        r = x
        while True:
            s = r | cut(u + v for u in r for v in x)
            if s == r:
                break
            r = s
        return r | {b''} if n == 'star' else r
    return frozenset(w[::-1] for w in x) if n == 'rev' else x


def minimal(aut, what):
    """a description of an automaton is deterministic, trim and minimal"""
    start, end, arcs = aut
    equal(len(start), 1, 'starts of ' + what)
    n = len(arcs)
    for a in arcs:
        check(len({s for s, _ in a}) == len(a), '%s is not deterministic: %r', what, aut)
    seen, todo = set(start), list(start)
    while todo:
        for _, d in arcs[todo.pop()]:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    check(len(seen) == n, '%s has states out of reach: %r', what, aut)
    live = set(end)
    while True:
        more = {p for p in range(n) if p not in live and any(d in live for _, d in arcs[p])}
        if not more:
            break
        live |= more
    check(len(live) == n or (n == 1 and not end), '%s has dead states: %r', what, aut)
    cls = [p in end for p in range(n)]
    while True:
        keys = [(cls[p], tuple(sorted((s, cls[d]) for s, d in arcs[p]))) for p in range(n)]
        ids = {k: i for i, k in enumerate(dict.fromkeys(keys))}
        new = [ids[k] for k in keys]
        if len(ids) == len(set(cls)):
            break
        cls = new
    check(len(set(cls)) == n, '%s has equivalent states: %r', what, aut)


def accepts(ctx, r, want, what, short):
    q = WORDS + ODD
    for w, g, m in zip(q, r[0], r[2]):
        check(bool(g) == (w in want), '%s, %r: accepted %r, expected %r', what, w, g, w in want)
        check(bool(m) == (w in want), '%s minimized, %r: accepted %r, expected %r', what, w, m, w in want)
    equal({w for w in r[1]}, {w for w in want if len(w) <= short}, 'words of ' + what)
    minimal(r[3], what + ' minimized')
    ctx.nontrivial(len(want) >= 3)
    ctx.event('empty language' if not want else 'few' if len(want) < 20 else 'many')


def size(t):
    return 1 if t[0] in ('str', 'it', 'sym') else 1 + sum(size(x) for x in t[1:])


def dead(t):
    """an operand with no words at all is not concatenated or repeated"""
    return t[0] not in ('str', 'it', 'sym') and (any(dead(x) for x in t[1:]) or t[0] == 'and')


def expr(ctx, t):
    def ok(t):
        if t[0] in ('str', 'it', 'sym'):
            return True
        return all(ok(x) for x in t[1:]) and not (t[0] != 'and' and any(dead(x) for x in t[1:]) and t[0] in ('cat',))
    if not ok(t):
        return
    r = ctx.v('drv_pipe', 'fsa', ['expr', t, WORDS + ODD, 2])
    check(r[0] != b'!', '%r: %r', t, r)
    accepts(ctx, r, lang(t), repr(t), 2)


# regular expressions

letter = st.sampled_from(['a', 'b', '\xc5'])
rx = st.recursive(letter, lambda t: st.one_of(st.lists(t, min_size=1, max_size=3).map(''.join), st.lists(t, min_size=2, max_size=3).map(lambda x: '(' + '|'.join(x) + ')'), st.tuples(t, st.sampled_from('*+?')).map(lambda x: '(' + x[0] + ')' + x[1]), st.tuples(letter, st.sampled_from('*+?')).map(''.join)), max_leaves=5)
rcase = st.one_of(rx, rx, st.lists(rx, min_size=1, max_size=3).map('|'.join), st.text(alphabet='ab()|*+?', max_size=7), rx.flatmap(lambda s: st.tuples(st.integers(0, len(s)), st.sampled_from('()|*+?')).map(lambda x: s[:x[0]] + x[1] + s[x[0]:])))


def parse(s):
    """the tree of an expression, or None"""
    def alt(i):
        t, i = seq(i)
        while t is not None and i < len(s) and s[i] == '|':
            u, j = seq(i + 1)
            if u is None:
                break
            t, i = ('or', t, u), j
        return t, i

    def seq(i):
        t, i = rep(i)
        while t is not None:
            u, j = rep(i)
            if u is None:
                break
            t, i = ('cat', t, u), j
        return t, i

    def rep(i):
        t, i = factor(i)
        if t is not None and i < len(s) and s[i] in '*+?':
            return ({'*': 'star', '+': 'plus', '?': 'opt'}[s[i]], t), i + 1
        return t, i

    def factor(i):
        if i < len(s) and s[i] not in '()|+*?':
            return ('sym', s[i].encode('latin-1')), i + 1
        if i < len(s) and s[i] == '(':
            t, j = alt(i + 1)
            if t is not None and j < len(s) and s[j] == ')':
                return t, j + 1
        return None, i
    t, i = alt(0)
    return t if i == len(s) else None


def regex(ctx, s):
    if s.count('(') > 6:
        return
    t = parse(s)
    r = ctx.v('drv_pipe', 'fsa', ['regex', s.encode('latin-1'), WORDS + ODD, 2])
    equal(bool(r[0]), t is not None, 'is %r an expression' % s)
    if t is not None:
        accepts(ctx, r[1:], lang(t), repr(s), 2)
    else:
        ctx.event('not an expression')


# dictionaries

byte = st.integers(0, 252).map(lambda i: bytes([i]))
word = st.one_of(st.lists(st.sampled_from([b'a', b'b', b'c', b'\xc5', b'\0']), max_size=5).map(b''.join), st.lists(st.sampled_from([b'a', b'b']), max_size=9).map(b''.join), st.lists(byte, max_size=3).map(b''.join), st.integers(0, 999).map(lambda i: b'%d' % i),
                 st.tuples(st.sampled_from([b'pre', b'po', b'']), st.sampled_from([b'kot', b'lot', b'k']), st.sampled_from([b'', b'a', b'em', b'owi', b'ami'])).map(b''.join), st.integers(1, 300).map(lambda n: b'z' * n))
words = st.one_of(st.lists(word, max_size=40), lst(word, 1, 12, 5), st.just([]), st.just([b'']), st.just([bytes([i]) for i in range(253)]), st.sampled_from([200, 700]).map(lambda n: [b'%d' % (i * 7) for i in range(n)]))


def around(ws):
    r = []
    for w in ws[:60]:
        r += [w, w + b'a', w[:-1], w[1:], w[:1]]
    return list(dict.fromkeys(r + [b'', b'nie']))


def dct(ctx, case):
    ws, twice = case
    ws = sorted(ws + ws[:3]) if twice else sorted(set(ws))
    q = around(ws)
    want = set(ws)
    for r, what in zip(ctx.v('drv_pipe', 'fsa', ['dict', ws, q, os.path.join(scratch(), 'a.bin')]), ['binary', 'ordinary', 'loaded']):
        for w, g in zip(q, r[0]):
            check(bool(g) == (w in want), '%s automaton of %r, %r: accepted %r', what, ws[:50], w, g)
        minimal(r[1], '%s automaton of %r' % (what, ws[:50]))
        equal(r[2], sorted(want), 'words')
    ctx.nontrivial(len(want) >= 3)


mkey = st.one_of(st.sampled_from(['kot', 'kota', 'ko', 'k', 'żółw', 'a b', '', 'Kot', 'x' * 200]), st.text(alphabet='abż ', max_size=4))
mval = st.one_of(st.sampled_from(['v', 'w', 'v1', 'v12', '1', '\t', 'a\tb', 'ż', 'y' * 250, ' ', 'kot\tv']), st.text(alphabet='abż ', min_size=1, max_size=3))
mcase = lst(st.tuples(mkey, st.one_of(st.just('\t'), st.just('\t'), st.just('\t'), st.just('')), mval), 1, 25, 9)


def multi(ctx, case):
    lines = [''.join(x).encode() for x in case]
    q = list(dict.fromkeys([x[0].encode() for x in case] + [b'', b'ko', b'kotami', b'a', b'kot\tv', b'x' * 199, b'a\t']))
    r = ctx.v('drv_pipe', 'fsa', ['multi', lines, q, os.path.join(scratch(), 'm.bin')])
    for res, what in zip(r, ['built', 'loaded']):
        for k, g in zip(q, res):
            w = sorted({x[len(k) + 1:] for x in lines if x.startswith(k + b'\t') and len(x) > len(k) + 1})
            check(g == w, '%s store of %r, key %r: got %r, expected %r', what, lines, k, g, w)
    ctx.nontrivial(len(lines) >= 3)


# the lemmatizer

LTEXT = st.text(alphabet='aAbBżŻ ', min_size=1, max_size=7)
FORM = ['a', 'A', 'ab', 'Ab', 'AB', 'aB', 'ż', 'Ż', 'żab', 'Żab', 'kota', 'KOTA', 'Kota', 'b', 'ba', 'Ba', 'mam', 'ÓW', 'ów', 'najdłuższego', 'x' * 70, 'a' * 62 + 'b', 'y' * 100 + 'ż', 'z' * 180]
LEMMA = ['a', 'ab', 'kot', 'kota', 'mieć:v', 'mieć:s', 'ż', 'żab', 'długi', 'x', 'x' * 70, 'x' * 69 + 'y', 'y' * 99, 'z' * 179, 'b' * 80, 'mama', ':', 'b']
POS = ['subst', 'subst,gender=f', 'verb,aspect=imperf,x=1', 'adj', 'gender=f', 'subst,gender=m', 'a,b,c=', 'x=y=z', 'adv']
MORPHO = ['number=sg', 'number=pl,case=inst', 'case=acc', 'neg', 'neg,case=acc', 'x=', 'sub', 'number=sg,number=pl', 'deg=5']
lsep = st.sampled_from(['\t', '\t', '\t', ' '])
lline = st.one_of(st.tuples(st.sampled_from(FORM), st.sampled_from(LEMMA), st.sampled_from(POS), st.sampled_from(MORPHO), lsep), st.tuples(st.sampled_from(FORM), st.sampled_from(LEMMA), st.sampled_from(POS), st.sampled_from(MORPHO), lsep), st.tuples(st.sampled_from(FORM), st.sampled_from(LEMMA), st.sampled_from(POS), st.none(), lsep),
                  st.tuples(st.sampled_from(FORM), st.sampled_from(LEMMA), st.none(), st.none(), lsep), st.just(()))
l_item = st.tuples(st.sampled_from(['T', 'T', 'word', 'B', 'N']), st.one_of(st.none(), st.sampled_from(FORM)), st.sampled_from([(), (('num', 'sg'),)]))
l_tags = st.sampled_from([['token', '!pl'], ['token', '!pl'], ['token', '!pl'], ['token', '!en'], ['token'], ['tok', '!pl'], ['token', 'x', '!pl'], ['lemma', '!pl']])
fill = st.tuples(st.integers(0, 9), st.sampled_from(['as', 'as', 'lower', 'head', 'tail']), st.sampled_from(LEMMA), st.sampled_from(POS), st.one_of(st.none(), st.sampled_from(MORPHO)))
l_case = st.tuples(LTEXT, adds(l_item, l_tags), lst(lline, 0, 12, 5), lst(fill, 0, 8, 4), st.sampled_from([3, 3, 3, None, 2, 1, 0]), st.booleans(), st.sampled_from([None, None, None]), st.sampled_from(['plain', 'plain', 'save', 'binary']), st.booleans())


def head(s):
    return s[:1].lower() + s[1:]


def tail(s):
    return s[:1] + s[1:].lower()


def lamer(ctx, case):
    text, ad, lines, more, level, ids, _, how, end = case
    m0, _ = build(text, ad)
    es = [e for e in m0.edges if not e.implicit and mask_matches([['token', '!pl']], e.tags) and e.cat in (b'T', b'word') and len(e.text) <= 180]
    lines = list(lines)
    for i, f, lemma, pos, mor in more if es else []:
        w = es[i % len(es)].text.decode()
        w = {'as': w, 'lower': w.lower(), 'head': head(w), 'tail': tail(w)}[f]
        if ' ' not in w and w:
            lines.append((w, lemma, pos, mor, '\t'))
    content = '\n'.join(x[4].join([f for f in x[:4] if f is not None]) if x else '' for x in lines) + ('\n' if end else '')
    path, binary = os.path.join(scratch(), 'd.txt'), os.path.join(scratch(), 'd.bin')
    open(path, 'w').write(content)
    args = ['--lang', 'pl'] + (['--level', str(level)] if level is not None else []) + (['--lexeme-ids'] if ids else [])
    src = ['--plain-text-lexicon', path]
    if how == 'save':
        src += ['--save-binary-lexicon', binary]
    if how == 'binary':
        r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ann', '=lamerlemma', ['--lang', 'pl'] + src + ['--save-binary-lexicon', binary]]]])
        equal(r[1], None, 'saving')
        os.remove(path)
        src = ['--binary-lexicon', binary]
    level = 3 if level is None else level
    d = {}
    for x in dict.fromkeys(x[:4] for x in lines if x):
        d.setdefault(x[0], []).append(x[1:])

    def features(s):
        r = {}
        for p in s.split(','):
            k, e, v = p.partition('=')
            r[k if e else 'pos'] = v if e else p
        return r

    def morpho(s):
        return {p.partition('=')[0]: p.partition('=')[2] if '=' in p else '1' for p in s.split(',')}

    def word(m, e, w):
        recs = d.get(w)
        if not recs or not level:
            return
        ctx.event('known')
        own = ['lamerlemma', 'morfologik-tagset']
        norm = m.add(e.src, e.tgt, ('term', w, ()), ['normalization'] + own, [e])
        for lem in sorted({r[0] for r in recs}, key=str.encode):
            shown = lem if ids else lem.split(':')[0]
            le = m.add(e.src, e.tgt, ('word', shown, ()), ['lemma'] + own, [norm])
            if level < 2:
                continue
            for tag in sorted({r[1] for r in recs if r[0] == lem and r[1] is not None}, key=str.encode):
                f = features(tag)
                pos = f.pop('pos', '')
                lx = m.add(e.src, e.tgt, (pos, shown + '+' + pos, tuple(sorted(f.items()))), ['lexeme'] + own, [le])
                if level < 3:
                    continue
                # in the order of the dictionary, which is sorted by bytes
                for mor in sorted((r[2] for r in recs if r[0] == lem and r[1] == tag), key=lambda x: b'' if x is None else b'\t' + x.encode()):
                    m.add(e.src, e.tgt, (pos, w, tuple(sorted((morpho(mor) if mor is not None else {}).items()))), ['form'] + own, [lx])

    def model(m):
        for v in m.vertices():
            for e in m.inn(v, [['token', '!pl']]):
                if e.cat not in (b'T', b'word'):
                    continue
                w = e.text.decode()
                word(m, e, w)
                if tail(w) != w:
                    word(m, e, tail(w))
                if head(w) != w:
                    word(m, e, head(w))
    convert(ctx, text, ad, '=lamerlemma', args + src, model)
    if how == 'save':
        r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ann', '=lamerlemma', ['--lang', 'pl', '--binary-lexicon', binary]]]])
        equal(r[1], None, 'loading')
    ctx.event('level %d' % level)


def options(ctx, case):
    kind, at, cut_at = case
    at = os.path.join(scratch(), at)
    p, b, e, x = [os.path.join(scratch(), n) for n in ('o.txt', 'o.bin', 'e.txt', 'x.txt')]
    open(p, 'w').write('kot\tkot\tsubst\n')
    open(e, 'w').write('')
    open(x, 'w').write('kot\tkot\tsubst\nsam\n')
    base = ['--lang', 'pl']
    ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ann', '=lamerlemma', base + ['--plain-text-lexicon', p, '--save-binary-lexicon', b]]]])
    data = open(b, 'rb').read()
    open(b + 't', 'wb').write(data[:cut_at % (len(data) - 9)])
    args = {'both': ['--plain-text-lexicon', p, '--binary-lexicon', b], 'unwritable': ['--plain-text-lexicon', p, '--save-binary-lexicon', at], 'missing': ['--plain-text-lexicon', at], 'missing binary': ['--binary-lexicon', at], 'broken': ['--plain-text-lexicon', x],
            'not binary': ['--binary-lexicon', p], 'truncated': ['--binary-lexicon', b + 't'], 'fine': ['--binary-lexicon', b], 'fine plain': ['--plain-text-lexicon', p], 'empty': ['--plain-text-lexicon', e], 'resaved': ['--binary-lexicon', b, '--save-binary-lexicon', b + '2']}[kind]
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', [['appendsym', 'kot'], ['add', 0, 3, ['T', 'kot', []], ['token', '!pl'], [], 0.0, -1, -1]]], ['ann', '=lamerlemma', base + args], ['write', 'simple-writer', ['--tags', 'lexeme']]]])
    if kind in ('fine', 'fine plain', 'empty', 'resaved'):
        equal(r[2], None, 'lamerlemma with %r' % args)
        equal(r[3].strip(), b'' if kind == 'empty' else b'kot+subst', 'lemmatized')
        if kind == 'resaved':
            equal(open(b, 'rb').read()[8:], open(b + '2', 'rb').read()[8:], 'saved again')
    else:
        check(isinstance(r[2], list) and b'xception' in r[2][1] or isinstance(r[2], list) and b'rror' in r[2][1], 'lamerlemma with %r is not refused: %r', args, r[2])
        ctx.event(kind)
    ctx.nontrivial()


KINDS = ['both', 'unwritable', 'missing', 'missing binary', 'broken', 'not binary', 'truncated', 'truncated', 'fine', 'fine plain', 'empty', 'resaved']
TESTS = [Test('options', st.tuples(st.sampled_from(KINDS), st.sampled_from(['nie/ma/takiej', 'o.txt/x', '/dev/null/x']), st.integers(0, 400)), options, quick=200), Test('expr', tree, expr, quick=3000), Test('regex', rcase, regex, quick=2000),
         Test('dict', st.tuples(words, st.booleans()), dct, quick=1500), Test('multi', mcase, multi, quick=1500), Test('lamerlemma', l_case, lamer, quick=3000)]
