"""The chart parser: the chart is closed under the rules and holds nothing else."""
import os
from collections import Counter
from hypothesis import strategies as st
from lib.latmodel import Lattice, ModelError, planes
from lib.pbt import Test, check, equal, lst
from checks.P16 import scratch

DRIVERS = ['drv_pipe']
RULE = ('a random lattice of tokens, blanks, forms with lemmas and terminal edges is parsed with random rules and the whole chart (edges and their derivations) is compared with the closure '
        'computed independently; non-trivial: the closure adds at least three edges, one of them over two tokens or more')
IN = [b'normalization', b'term', b'token', b'form', b'gobio', b'parse-aux']


def build(units, adds):
    """units: words (letters) and blanks; adds: (first word, number of words, category, tags, text?, lemma)"""
    text = ''.join(units)
    m, ops, h, words = Lattice(''), [], [], []
    m.text = text.encode()
    m.add_symbols(0, len(m.text))
    ops.append(['appendsym', text])

    def add(src, tgt, it, tags, seq=(), score=0.0):
        try:
            e = m.add(src, tgt, it, tags, list(seq), score)
        except ModelError:
            return None
        ops.append(['add', src, tgt, [it[0], it[1], [list(x) for x in it[2]]], list(tags), [h.index(x) for x in seq], score, -1, -1])
        h.append(e)
        return e
    p = 0
    for u in units:
        n = len(u.encode())
        add(p, p + n, ('B' if u.isspace() else 'T', u, ()), ['token'])
        if not u.isspace():
            words.append((p, p + n))
        p += n
    for i, n, cat, tags, txt, lemma, score in adds:
        if not words:
            break
        i %= len(words)
        j = min(len(words) - 1, i + n - 1)
        src, tgt = words[i][0], words[j][1]
        seq = []
        if lemma is not None:
            l = add(src, tgt, ('L', lemma, ()), ['lemma'])
            seq = [l] if l else []
        if not ({b'term'} | set(IN)) & {t.encode() for t in tags} and 'myterm' not in tags:
            txt = txt or 'z'
        add(src, tgt, ('F' if 'form' in tags else cat, txt, ()), tags, seq, score)
    return m, ops


def lemma(m, e):
    """the text of the nearest ancestor that is a lemma"""
    while True:
        kids = [p[4][0] for p in e.parts if p[4]]
        if not kids:
            return None
        e = kids[0]
        if b'lemma' in e.tags:
            return e.text


def category(m, e):
    if e.tags & {b'normalization', b'term', b'token'}:
        return b"'" + e.text + b"'"
    if b'form' in e.tags:
        l = lemma(m, e)
        return b'' if l is None else b"'$" + l + b"'"
    return e.cat


def key(e):
    return (e.src, e.tgt, e.cat, e.text, e.avs, tuple(sorted(planes(e.tags))))


def closure(m, rules, terminal):
    takes = lambda e: not e.implicit and (e.tags & set(IN) or terminal.encode() in e.tags)
    blanks = [e for e in m.live() if e.cat == b'B' and b'token' in e.tags]
    skip = {}
    for b in blanks:
        skip[b.src] = b.tgt

    def after(v):
        while v in skip:
            v = skip[v]
        return v
    agenda = [e for e in m.live() if takes(e)]
    seen = []
    while agenda:
        e = agenda.pop()
        new = []
        for lhs, rhs, score in rules:
            r = [x.encode() for x in rhs]
            if len(r) == 1 and r[0] == category(m, e):
                new.append((lhs, [e]))
        for f in seen:
            for x, y in ((f, e), (e, f)):
                if y.src != x.tgt and y.src != after(x.tgt):
                    continue
                for lhs, rhs, score in rules:
                    if len(rhs) == 2 and (rhs[0].encode(), rhs[1].encode()) == (category(m, x), category(m, y)):
                        new.append((lhs, [x, y]))
        for lhs, seq in new:
            n = len(m.live())
            try:
                k = m.add(seq[0].src, seq[-1].tgt, (lhs, '', ()), ['gobio', 'parse-aux'], seq)
            except ModelError:
                continue
            if len(m.live()) > n:
                agenda.append(k)
        seen.append(e)
        if len(m.live()) > 3000:
            return False
    return True


def shape(full):
    """an edge of a dump: what it is, its tags, and its derivations"""
    t, parts = full[0], full[3]
    what = lambda t: (t[0], t[1], t[2], t[3], tuple(map(tuple, t[5])), tuple(x for x in t[4] if x.startswith(b'!')))
    return what(t), (tuple(t[4]), tuple(sorted(tuple(what(c) for c in p[4]) for p in parts)))


def span(specs, limit, n):
    for a, l in sorted(specs, key=lambda x: x[0]):
        if a >= n:
            return l
    return limit if limit >= 0 else 1 << 40


NT = ['S', 'N', 'V']
SYM = st.sampled_from(NT + NT + ["'a'", "'b'", "'$b'", "'$aż'", "'ż'"])
rule = st.tuples(st.sampled_from(NT), st.one_of(SYM.map(lambda x: [x]), st.tuples(SYM, SYM).map(list), st.tuples(SYM, SYM).map(list)), st.sampled_from([0.0, 0.0, 0.5, 1.0]))
unit = st.sampled_from(['a', 'a', 'a', 'b', 'b', 'ż', 'ab', ' ', ' ', '  '])
tags = st.sampled_from([['myterm'], ['myterm'], ['form'], ['form'], ['parse-aux'], ['gobio'], ['x'], ['normalization'], ['term'], ['myterm', '!pl'], ['form', 'myterm'], ['x', 'lemma']])
add = st.tuples(st.integers(0, 8), st.sampled_from([1, 1, 1, 2]), st.sampled_from(NT + ['F']), tags, st.sampled_from(['', '', 'a', 'b']), st.sampled_from([None, None, 'b', 'aż']), st.sampled_from([0.0, 0.0, 0.25, 2.0]))
case = st.tuples(lst(unit, 1, 12, 7), lst(add, 0, 7, 5), lst(rule, 1, 9, 7), st.sampled_from(['myterm', 'myterm', 'myterm', 'parse-terminal']), st.sampled_from([-1, -1, -1, 3, 6, 0]),
                 st.sampled_from(['fifo', 'fifo', 'score']), st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(1, 6), st.integers(0, 6)), min_size=1, max_size=3)))


def chart(ctx, c):
    units, adds, rules, terminal, limit, agenda, specs = c
    m, ops = build(units, adds)
    before, n = m.dump(), len(m.live())
    counts = Counter((e.src, e.tgt) for e in m.live())
    if not closure(m, rules, terminal):
        ctx.event('too large')
        return
    r = ctx.v('drv_pipe', 'cfg', [ops, [list(x) for x in rules], terminal, limit, agenda, [list(x) for x in specs]])
    equal(r[1], before, 'the lattice of %r' % ops)
    check(r[2] is None, 'parser on %r with %r: %r', ops, rules, r[2])
    got, want = dict(map(shape, r[3][3])), dict(map(shape, m.dump()[3]))
    check(len(got) == len(r[3][3]), 'edges repeat: %r', r[3][3])
    full = Counter((e.src, e.tgt) for e in m.live())
    limited = any(full[s] > span(specs, limit, s[1] - s[0]) for s in full)
    says = 'chart of %r, rules %r, limits %r %r:' % (ops, rules, limit, specs)
    extra = [k for k in got if k not in want]
    check(not extra, '%s not derivable: %r', says, extra)
    if limited:
        ctx.event('limited')
        now = Counter((k[0], k[1]) for k in got)
        for s in now:
            check(now[s] <= max(counts[s], span(specs, limit, s[1] - s[0]) + 1), '%s %d edges over %r', says, now[s], s)
        for k, (t, ds) in got.items():
            x = Counter(ds) - Counter(want[k][1])
            check(not x, '%s derivations of %r: %r', says, k, x)
    else:
        miss = [k for k in want if k not in got]
        check(not miss, '%s missing %r', says, miss)
        for k in want:
            check(got[k] == want[k], '%s\n  edge %r\n  got      %r\n  expected %r', says, k, got[k], want[k])
    final = {shape(f)[0]: f[0][6] for f in r[3][3]}
    top = max(x[2] for x in rules)
    for f in r[3][3]:
        if b'parse-aux' not in f[0][4]:
            continue
        check(f[0][6] == max(p[1] for p in f[3]), '%s score of %r: partitions %r', says, f[0], f[3])
        for p in f[3]:
            if p[2] == 0:
                ch = sum(final[shape([c, 0, 0, []])[0]] for c in p[4])
                check(p[1] <= ch + top + 1e-9, '%s score of a derivation of %r: %r', says, f[0], p)
    ctx.nontrivial(len(m.live()) - n > 2 and any(e.parts and len(e.parts[0][4]) == 2 for e in m.live()))


# rules of the gobio parser: what they say, evaluated as they are written

ANY = ('any',)


def cond_text(c):
    k = c[0]
    if k == 'attr':
        return c[1]
    if k == 'sub':
        return '%s%s.%s' % (c[1], '[%d]' % c[2] if c[2] else '', c[3])
    if k == 'const':
        return c[1]
    if k == 'set':
        return '(%s := %s)' % (c[1], cond_text(c[2]))
    if k == 'uset':
        return '(%s :== %s)' % (c[1], cond_text(c[2]))
    if k == 'true':
        return '{%s}' % cond_text(c[1])
    if k == 'if' and len(c) == 4:
        return '(%s ==> %s :: %s)' % tuple(map(cond_text, c[1:]))
    return '(%s %s %s)' % (cond_text(c[1]), {'and': ',', 'or': ';', 'if': '==>'}.get(k, k), cond_text(c[2]))


def evaluate(c, lhs, rhs):
    """the value of a condition (None: false); assignments change lhs"""
    k = c[0]
    ev = lambda x: evaluate(x, lhs, rhs)
    if k == 'attr':
        return lhs.get(c[1])
    if k == 'sub':
        return rhs.get((c[1], c[2]), {}).get(c[3])
    if k == 'const':
        return c[1]
    if k == 'set':
        v = ev(c[2])
        lhs.pop(c[1], None)
        if v is not None:
            lhs[c[1]] = v
        return v
    if k == 'uset':
        v, w = ev(c[2]), lhs.get(c[1])
        if v == w:
            return v
        if w == ANY:
            lhs[c[1]] = v
            if v is None:
                del lhs[c[1]]
            return v
        return w if v == ANY else None
    if k == 'true':
        ev(c[1])
        return ANY
    if k == 'and':
        a = ev(c[1])
        return a if a is None else ev(c[2])
    if k == 'or':
        a = ev(c[1])
        return a if a is not None else ev(c[2])
    if k == 'if':
        if ev(c[1]) is not None:
            return ev(c[2])
        return ev(c[3]) if len(c) == 4 else ANY
    a, b = ev(c[1]), ev(c[2])
    if k == '==':
        return a if a == b or b == ANY else b if a == ANY else None
    if k == '=':
        return ANY if a == b else None
    if k == '!=':
        return ANY if a != b else None
    raise AssertionError(c)


def rhs_text(seq):
    out = []
    for x in seq:
        if x[0] == 'sym':
            out.append(x[1] + '*' * x[2] + '?' * x[3])
        else:
            out.append('(' + ' | '.join(map(rhs_text, x[1])) + ')' + '?' * x[2])
    return ' '.join(out)


def number(seq, counts, slots, place=0):
    """give every symbol its place (alternatives share places); slots: (symbol, number among its namesakes) -> place"""
    out = []
    for x in seq:
        if x[0] == 'sym':
            slots[x[1], counts[x[1]]] = place
            counts[x[1]] += 1
            out.append(x + (place,))
            place += 1
        else:
            alts = [number(s, counts, slots, place) for s in x[1]]
            out.append(('alt', [s for s, _ in alts], x[2]))
            place = max(p for _, p in alts)
    return out, place


def linear(seq):
    """every sequence of (symbol, place, head?) that the right side stands for"""
    res = [()]
    for x in seq:
        ways = [((x[1], x[4], x[2]),)] if x[0] == 'sym' else [y for s in x[1] for y in linear(s)]
        if x[3] if x[0] == 'sym' else x[2]:
            ways = ways + [()]
        res = [a + b for a in res for b in ways]
    return list(dict.fromkeys(res))


def ready(rule):
    lhs, seq, c = rule
    slots = {}
    seq, _ = number(seq, Counter(), slots)
    return lhs, [l for l in linear(seq) if l], c, slots


def rules_closure(rules, leaves, limit=400):
    """edges (from, to, category, attributes) that the rules build over the leaves"""
    rules = list(map(ready, rules))
    have = dict.fromkeys(leaves)
    while True:
        new = []
        at = {}
        for e in have:
            at.setdefault((e[0], e[2]), []).append(e)
        for lhs, lins, c, slots in rules:
            for lin in lins:
                paths = [(s, ()) for s in sorted({e[0] for e in have})]
                for name, no, head in lin:
                    paths = [(e[1], p + (e,)) for v, p in paths for e in at.get((v, name), [])]
                    if len(paths) > 5000:
                        return None
                for v, p in paths:
                    attrs, at_place = {}, {}
                    for (name, no, head), e in zip(lin, p):
                        at_place[no] = dict(e[3])
                        if head:
                            attrs = dict(e[3])
                    if c is None or evaluate(c, attrs, {k: at_place[v] for k, v in slots.items() if v in at_place}) is not None:
                        new.append((p[0][0], v, lhs, frozenset(attrs.items())))
        n = len(have)
        have.update(dict.fromkeys(new))
        if len(have) == n:
            return have
        if len(have) > limit:
            return None


SYMS = ['a', 'b', 's', 'r', 'q']
ATTRS = ['X', 'Y', 'Z']
VALS = ['u', 'w', 't']


@st.composite
def grule(draw, conds=True, long=True):
    lhs = draw(st.sampled_from(['s', 's', 'r', 'q']))
    sym = st.tuples(st.just('sym'), st.sampled_from(['a', 'a', 'b', 'b', 's', 'r', 'q']), st.just(False), st.sampled_from([False, False, False, True]))
    plain = sym.map(lambda x: x[:3] + (False,))
    alt = st.tuples(st.just('alt'), st.lists(st.lists(plain, min_size=1, max_size=2), min_size=2, max_size=3), st.sampled_from([False, False, True]))
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4] if long else [1, 2, 2]))
    seq = [draw(st.one_of(sym, sym, sym, sym, alt) if long else plain) for _ in range(n)]
    if all(x[2] if x[0] == 'alt' else x[3] for x in seq):
        seq[0] = ('sym', draw(st.sampled_from(['a', 'b'])), False, False)
    heads = [i for i, x in enumerate(seq) if x[0] == 'sym' and not x[3]]
    if heads and draw(st.sampled_from([True, True, False])):
        i = draw(st.sampled_from(heads))
        seq[i] = ('sym', seq[i][1], True, False)
    names = list(ready((lhs, seq, None))[3])
    c = None
    if conds and draw(st.sampled_from([True, True, False])):
        const = st.tuples(st.just('const'), st.sampled_from(VALS))
        sub = st.tuples(st.sampled_from(names), st.sampled_from(ATTRS)).map(lambda x: ('sub', x[0][0], x[0][1], x[1]))
        attr = st.tuples(st.just('attr'), st.sampled_from(ATTRS))
        val = st.one_of(sub, sub, sub, attr, const)
        simple = st.one_of(
            st.tuples(st.sampled_from(['==', '==', '=', '!=']), st.one_of(sub, sub, sub, attr, const), val),
            st.tuples(st.sampled_from(['set', 'set', 'uset']), st.sampled_from(ATTRS), val), sub)
        cond = st.recursive(simple, lambda k: st.one_of(
            st.tuples(st.sampled_from(['and', 'and', 'or', 'if']), k, k), st.tuples(st.just('if'), k, k, k), st.tuples(st.just('true'), k)), max_leaves=3)
        cs = draw(st.lists(cond, min_size=1, max_size=4))
        c = cs.pop()
        left = draw(st.sampled_from([False, False, True]))
        while cs:
            c = ('and', c, cs.pop()) if left else ('and', cs.pop(), c)
    return (lhs, seq, c)


leaf = st.tuples(st.sampled_from(['a', 'a', 'b', 's']), st.lists(st.tuples(st.sampled_from(ATTRS), st.sampled_from(VALS)), max_size=3, unique_by=lambda x: x[0]))


@st.composite
def grammar(draw):
    out = []
    for lhs, seq, c in draw(lst(grule(), 1, 4, 3)):
        out.append((lhs, seq, c))
        if draw(st.sampled_from([False, False, True])):          # the same rule with more symbols: both may use the same helper rules
            out.append((lhs, seq + [('sym', draw(st.sampled_from(['a', 'b', 's'])), False, False)], c))
    return out


gcase = st.tuples(lst(leaf, 1, 5, 4), lst(leaf, 0, 2, 1), grammar(), st.one_of(st.none(), st.none(), st.none(), st.integers(0, 400)))


def rules(ctx, c):
    words, more, rs, junk = c
    text = 'x' * len(words)
    leaves, ops = [], [['appendsym', text]]
    for i, (cat, avs) in [(i, w) for i, w in enumerate(words)] + [(i % len(words), w) for i, w in enumerate(more)]:
        e = (i, i + 1, cat, frozenset(avs))
        if e not in leaves:
            leaves.append(e)
            ops.append(['add', i, i + 1, [cat, 'x', [list(x) for x in sorted(avs)]], ['myterm'], [], 0.0, -1, -1])
    want = rules_closure(rs, leaves)
    if want is None:
        ctx.event('too large')
        return
    path = os.path.join(scratch(), 'rules.g')
    g = ''.join('%s = %s\n%s\n' % (lhs, rhs_text(seq), '\t%s\n' % cond_text(k) if k else '') for lhs, seq, k in rs) + '\n'
    if junk is not None:                  # a file with an error leaves nothing behind
        at = junk % len(g)
        with open(path, 'w') as f:
            f.write(g[:at] + '@' + g[at:])
        r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops], ['ann', '=gobio', ['--lang', 'xx', '--rules', path, '--terminal-tag', 'myterm']]]])
        check(r[2] is not None, '@ within the rules at %d:\n%s', at, g)
    with open(path, 'w') as f:
        f.write(g)
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops], ['ann', '=gobio', ['--lang', 'xx', '--rules', path, '--terminal-tag', 'myterm', '--edge-number-limit', '1000000']], ['dump']]])
    says = 'leaves %r\n%s' % ([(e[0], e[2], sorted(e[3])) for e in leaves], g)
    check(r[2] is None, '%s parser: %r', says, r[2])
    got = []
    for f in r[3][3]:
        t = f[0]
        if b'parse-aux' in t[4] and b'<' not in t[2]:
            got.append((t[0], t[1], t[2].decode(), frozenset((k.decode(), v.decode()) for k, v in t[5] if not k.startswith(b'!'))))
    want = {e for e in want if e not in leaves}
    miss, extra = want - set(got), set(got) - want - set(leaves)
    check(not miss and not extra, '%smissing %r\nunexpected %r', says, sorted(map(repr, miss)), sorted(map(repr, extra)))
    ctx.nontrivial(len(want) > 2 and any(len(l) > 1 for _, s, k in rs for l in ready((_, s, k))[1]) and any(k for _, _, k in rs))


TESTS = [Test('chart', case, chart, quick=5000),
         Test('rules', gcase, rules, quick=2000)]
