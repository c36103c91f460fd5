"""The shallow parser: a cascade of rules over the tokens of a sentence."""
import itertools
import os
import re
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from checks.P16 import scratch

DRIVERS = ['drv_pipe']
RULE = ('random sentences (tokens with zero to three interpretations) are parsed with random cascades of rules, and all the groups, with their attributes and derivations, and all the discarded '
        'interpretations are compared with a model that matches the rules over a string with a letter for each element; non-trivial: two groups made, or one interpretation discarded and one kept')

ORTHS = ['ala', 'ma', 'kota', 'kot', 'Żółw', 'go']
BASES = ['ał', 'mieć', 'kocur', 'kocurek', 'on']
POS = ['subst', 'adj', 'verb', 'sub']
NUM, GEN = ['sg', 'pl'], ['m', 'f', 'm1']
TAGSET = '[POS]\n\nsubst = [number] [gender]\nadj = [number] [gender]\nverb = [number]\nsub = \n\n[ATTR]\n\nnumber = sg pl\ngender = m f m1\n'


@st.composite
def interpretation(draw):
    pos = draw(st.sampled_from(POS + POS[:3]))
    avs = []
    if pos != 'sub' and draw(st.integers(0, 5)):
        avs.append(('number', draw(st.sampled_from(NUM))))
    if pos in ('subst', 'adj') and draw(st.integers(0, 5)):
        avs.append(('gender', draw(st.sampled_from(GEN))))
    return pos, draw(st.sampled_from(BASES)), tuple(avs)


token = st.tuples(st.sampled_from(ORTHS), lst(interpretation(), 0, 3, 2), st.sampled_from(['', ' ', ' ', ' ']))
sentence = st.tuples(st.sampled_from(['', '', ' ']), lst(token, 1, 9, 5), st.booleans())

GROUPS = ['NP', 'NP', 'NP', 'VP']
value = {'pos': st.lists(st.sampled_from(POS), min_size=1, max_size=3, unique=True), 'orth': st.lists(st.sampled_from(ORTHS), min_size=1, max_size=2, unique=True),
         'base': st.lists(st.sampled_from(BASES), min_size=1, max_size=2, unique=True), 'number': st.lists(st.sampled_from(NUM), min_size=1, max_size=2, unique=True),
         'gender': st.lists(st.sampled_from(GEN), min_size=1, max_size=2, unique=True)}
KEYS = ['pos'] * 7 + ['orth', 'base', 'number', 'gender']


@st.composite
def condition(draw):
    k = draw(st.sampled_from(KEYS))
    return k, draw(st.sampled_from(['~', '~', '~', '~', '~', '~~', '!~'])), tuple(draw(value[k])), k in ('orth', 'base') and draw(st.booleans())


def sound(cs):
    """at most one condition on an attribute; the universal conditions are not mixed with the others"""
    keys = [c[0] for c in cs]
    ops = {c[1] for c in cs if c[0] != 'orth'}
    return len(set(keys)) == len(keys) and len(ops) < 2 and not any(c[3] for c in cs[:-1])      # /i only at the end


conditions = lst(condition(), 1, 3, 1.2).filter(sound)
element = st.one_of(conditions, conditions, conditions, st.sampled_from(GROUPS))
TOKEN, ANY = st.tuples(lst(conditions, 1, 2, 1.2), st.sampled_from(['', '', '', '?', '*', '+'])), None
item = st.tuples(lst(element, 1, 2, 1.1), st.sampled_from(['', '', '', '?', '*', '+']))


def norm(e):
    return e if len(e[0]) == 1 else (e[0], '')


@st.composite
def fitting(draw, tok):
    """an element that matches a token of the sentence"""
    w, ints, _ = tok
    pos = sorted({i[0] for i in ints}) or ['ign']
    k = draw(st.integers(0, 9))
    if k == 0 or pos == ['ign']:
        return [(('orth', '~', (w,), False),)], ''
    if k == 1:
        return [(('base', '~', tuple(sorted({i[1] for i in ints})[:2]), False),)], draw(st.sampled_from(['', '+', '?']))
    if k == 2:
        return [(('pos', '~~', tuple(pos), False),)], draw(st.sampled_from(['', '+', '*']))
    if k == 3 and any(i[2] for i in ints):
        a, v = draw(st.sampled_from([x for i in ints for x in i[2]]))
        return [((a, '~', (v,), False),)], ''
    return [(('pos', '~', tuple(sorted({draw(st.sampled_from(pos)), draw(st.sampled_from(pos))})), False),)], draw(st.sampled_from(['', '', '', '+', '?', '*']))


@st.composite
def parts(draw, sent):
    toks = sent[1]
    if draw(st.integers(0, 9)) < 4:
        return tuple([norm(x) for x in draw(lst(item, *a))] for a in ((0, 2, 0.6), (1, 3, 1.9), (0, 2, 0.4)))
    n = min(len(toks), draw(st.sampled_from([1, 2, 2, 2, 3, 3])))
    i = draw(st.integers(0, len(toks) - n))
    j = i - draw(st.integers(0, min(1, i))) if draw(st.booleans()) else i
    e = min(len(toks), i + n + draw(st.integers(0, 3)) // 3)
    res = [[draw(fitting(t)) for t in toks[a:b]] for a, b in ((j, i), (i, i + n), (i + n, e))]
    if draw(st.integers(0, 4)) == 0:
        x = draw(st.sampled_from([x for y in res for x in y] or [res[1][0]]))
        x[0].append(draw(element))
        if x[1] == '':
            return res[0], res[1], res[2]
        x[0].pop()
    return res[0], res[1], res[2]


@st.composite
def rule(draw, sent):
    kind = draw(st.sampled_from(['group', 'group', 'group', 'delete', 'unify', 'unify']))
    left, match, right = draw(parts(sent))
    if left and all(q in '?*' and q for _, q in left):
        left[0] = (left[0][0], '')
    uni = None
    if kind == 'unify':
        words = lambda x: all(not isinstance(e, str) for e in x[0])
        for i in range(draw(st.integers(min(2, len(match)), len(match)))):
            if not words(match[i]):
                match[i] = norm(draw(TOKEN))
        match[-1] = (match[-1][0], '')
        uni = tuple(draw(st.sampled_from([('number',), ('number',), ('gender',), ('number', 'gender'), ('gender', 'number')]))), tuple(len(left) + i + 1 for i, x in enumerate(match) if words(x))
        if draw(st.booleans()):
            return left, match, right, ('unify',) + uni
    if kind != 'delete':
        head = draw(st.integers(0, len(match) - 1))
        if match[head][1] in ('?', '*'):
            match[head] = (match[head][0], '+')
        return left, match, right, ('group', draw(st.sampled_from(GROUPS)), len(left) + head + 1) + (uni or ())
    n = draw(st.integers(0, len(match) - 1))
    match[n] = norm(draw(TOKEN))
    k = draw(st.sampled_from(['pos', 'pos', 'number', 'gender', 'base', 'two']))
    neg = draw(st.booleans())
    if k == 'two':
        cs = [('pos', '~', tuple(draw(value['pos']))), ('base', '!~' if neg else '~', tuple(draw(value['base'])))]
    else:
        vs = draw(value[k])
        cs = [(k, '!~' if neg and k != 'base' and len(vs) < len({'number': NUM}.get(k, POS)) else '~', tuple(vs))]
    if all(q in '?*' and q for _, q in match):
        match[n] = (match[n][0], '+')
    return left, match, right, ('delete', tuple(cs), len(left) + n + 1)


def vals(k, vs):
    return '|'.join(vs) if k in ('pos', 'number', 'gender', 'base') else vs[0] if len(vs) == 1 else '(%s)' % '|'.join(vs)


def cond_text(c):
    k, op, vs, ic = c
    v = vals(k, vs)
    if ic:
        v = v.swapcase() if v.isascii() else v
        if k == 'base' and len(vs) > 1:
            v = '(%s)' % v
    return '%s%s"%s"%s' % (k, op, v, '/i' if ic else '')


def element_text(e):
    return '[type="%s"]' % e if isinstance(e, str) else '[%s]' % ' && '.join(cond_text(c) for c in e)


def part_text(items):
    return ' '.join((element_text(es[0]) if len(es) == 1 else '(%s)' % '|'.join(element_text(e) for e in es)) + q for es, q in items)


def rule_text(i, r, noise):
    left, match, right, act = r
    s = 'Rule "r%d"\n' % i
    if left:
        s += 'Left: %s;\n' % part_text(left)
    s += 'Match: %s;\n' % part_text(match)
    if noise:
        s += '  # a comment\n\n'
    if right:
        s += 'Right: %s;\n' % part_text(right)
    if act[0] == 'unify' or len(act) > 3:
        s += 'Eval: unify(%s, %s);\n' % (' '.join(act[-2]), ', '.join(map(str, act[-1])))
    if act[0] == 'unify':
        pass
    elif act[0] == 'group':
        s += ('      ' if len(act) > 3 else 'Eval: ') + 'group(%s, %d);\n' % act[1:3]
    else:
        s += 'Eval: delete(%s, %d);\n' % (' && '.join('%s%s"%s"' % (k, op, '|'.join(vs)) for k, op, vs in act[1]), act[2])
    return s


class Outside(Exception):
    """a group would contain itself, or the words agree in each attribute but not in all: not in the domain"""


class Edge:
    def __init__(self, src, tgt, cat, text, tags, avs, pos, base):
        self.src, self.tgt, self.cat, self.text, self.tags, self.avs, self.pos, self.base = src, tgt, cat, text, tags, dict(avs), pos, base
        self.parts, self.kids, self.discarded = [], [], False

    def key(self):
        return self.src, self.tgt, self.cat.encode(), self.text.encode(), tuple(sorted((k.encode(), v.encode()) for k, v in self.avs.items()))


FORM, GROUP, TOK = 'form', 'group', 'token'


def same(k, vs, ic, x):
    return x is not None and (any(v.lower() == x.lower() for v in vs) if ic and all(v.isascii() for v in vs) else x in vs)


def holds(c, e):
    k, vs, ic = c[0], c[2], len(c) > 3 and c[3]
    return same(k, vs, ic, e.pos if k == 'pos' else e.base if k == 'base' else e.avs.get(k))


class Model:
    def __init__(self, sent):
        lead, toks, trail = sent
        self.text, self.ops, self.elements, self.all = lead, [], [], []
        h = p = 0
        self.ops.append(None)
        if lead:
            self.ops.append(['add', 0, 1, ['B', ' ', []], ['token', '!pl'], [], 0.0, -1, -1])
            h, p = 1, 1
        for i, (w, ints, sep) in enumerate(toks):
            n = len(w.encode())
            self.ops.append(['add', p, p + n, ['T', w, []], ['token', '!pl'], [], 0.0, -1, -1])
            tok = h
            h += 1
            lem, lex, forms = {}, {}, []
            for pos, base, avs in dict.fromkeys(ints):
                if base not in lem:
                    self.ops.append(['add', p, p + n, ['word', base, []], ['lemma', '!pl'], [tok], 0.0, -1, -1])
                    lem[base] = h
                    h += 1
                if (base, pos) not in lex:
                    self.ops.append(['add', p, p + n, [pos, base + '+' + pos, []], ['lexeme', '!pl'], [lem[base]], 0.0, -1, -1])
                    lex[base, pos] = h
                    h += 1
                self.ops.append(['add', p, p + n, [pos, base, [list(a) for a in avs]], ['form', '!pl'], [lex[base, pos]], 0.0, -1, -1])
                h += 1
                forms.append(Edge(p, p + n, pos, base, FORM, avs, pos, base))
            self.elements.append(('t', p, p + n, w, forms, Edge(p, p + n, 'T', w, TOK, (), 'ign', w)))
            self.all += forms
            p += n
            self.text += w
            if sep and (i < len(toks) - 1 or trail):
                self.ops.append(['add', p, p + 1, ['B', ' ', []], ['token', '!pl'], [], 0.0, -1, -1])
                h += 1
                p += 1
                self.text += sep
        self.ops[0] = ['appendsym', self.text]
        self.groups = []
        self.unified = False

    def tops(self, el):
        live = [e for e in el[4] if not e.discarded]
        return live or [el[5]]

    def matches(self, e, el):
        """does an element of a rule match an element of the sentence?"""
        if isinstance(e, str):
            return el[0] == 'g' and el[4][0].cat == e
        if el[0] != 't':
            return False
        tops = self.tops(el)
        some = []
        for c in e:
            if c[0] == 'orth':
                ok = same('orth', c[2], c[3], el[3])
                if ok == (c[1] == '!~'):
                    return False
            elif c[1] == '~':
                some.append(c)
            elif not all(holds(c, x) == (c[1] == '~~') for x in tops):
                return False
        return not some or any(all(holds(c, x) for c in some) for x in tops)

    def apply(self, rule):
        left, match, right, act = rule
        after = 0
        while True:
            els = [x for x in self.elements if x[1] >= after]
            chars = [chr(0x100 + i) for i in range(len(els))]

            def pat(items):
                r = ''
                for es, q in items:
                    cls = ''.join(c for c, el in zip(chars, els) if any(self.matches(e, el) for e in es))
                    r += '(%s%s)' % ('[%s]' % cls if cls else '(?!x)x', q)
                return '(%s)' % r
            m = re.search((pat(left) if left else '()') + pat(match) + (pat(right) if right else ''), ''.join(chars))
            if not m:
                return
            nl = len(left)
            sizes = [len(m.group(2 + i)) for i in range(nl)] + [len(m.group(3 + nl + i)) for i in range(len(match))]
            first = len(m.group(1)) if left else len(m.group(2 + nl))
            nxt = m.start() + first
            after = els[nxt][1] if nxt < len(els) else len(self.text.encode())
            start = m.start() + sum(sizes[:nl])
            n = sum(sizes[nl:])
            keep = None
            if act[0] == 'unify' or len(act) > 3:
                at = [m.start() + sum(sizes[:i - 1]) + j for i in act[-1] for j in range(sizes[i - 1])]
                keep = self.unify([els[i] for i in at], act[-2])
                if keep is False:
                    continue
                keep = [dict(zip([i - start for i in at], x)) for x in keep]
            if act[0] == 'unify':
                pass
            elif act[0] == 'group':
                self.group(els[start:start + n], act[1], sum(sizes[nl:act[2] - 1]), keep)
            else:
                i = m.start() + sum(sizes[:act[2] - 1])
                for el in els[i:i + sizes[act[2] - 1]]:
                    for e in self.tops(el):
                        if e.tags == FORM and all(holds(c, e) == (c[1] == '~') if c[0] in ('pos', 'base') else c[0] in e.avs and holds(c, e) == (c[1] == '~') for c in act[1]):
                            e.discarded = True

    def unify(self, els, attrs):
        for a in attrs:
            common = None
            for el in els:
                vs = {e.avs[a] for e in self.tops(el) if a in e.avs}
                if vs:
                    common = vs if common is None else common & vs
            if not common:
                return False
        tops = [self.tops(el) for el in els]
        val = lambda e: tuple(e.avs.get(a) for a in attrs)
        keep = []
        for p in {val(e) for t in tops for e in t}:
            cands = [[e for e in t if all(x is None or x == y for x, y in zip(p, val(e)))] for t in tops]
            if all(cands):
                keep += itertools.product(*cands)
        if not keep:
            raise Outside()
        for i, t in enumerate(tops):
            ok = {(x[i].pos, tuple(sorted(x[i].avs.items()))) for x in keep}
            for e in t:
                if (e.pos, tuple(sorted(e.avs.items()))) not in ok:
                    e.discarded = self.unified = True
        return keep

    def reaches(self, e, key, seen=None):
        return e.key() == key or any(self.reaches(k, key) for s in e.kids for k in s)

    def group(self, els, cat, head, keep=None):
        seqs = [()]
        for el in els:
            seqs = [s + (e,) for e in self.tops(el) for s in seqs]
        if keep is not None:
            seqs = [s for s in seqs if any(all(s[i] is e for i, e in k.items()) for k in keep)]
        made = {}
        for h in self.tops(els[head]):
            avs = dict(h.avs)
            avs['head'] = str(head)
            g = Edge(els[0][1], els[-1][2], cat, '', GROUP, avs, h.pos, h.base)
            if g.key() == h.key():
                made.setdefault(h.key(), h)     # a group of itself
                continue
            if any(self.reaches(x, g.key()) for s in seqs for x in s):
                raise Outside()
            g = made.setdefault(g.key(), g)
            for s in seqs:
                if s[head].key() == h.key():
                    part = tuple(e.key() for e in s)
                    if part not in g.parts:
                        g.parts.append(part)
                        g.kids.append(s)
        old = {g.key(): g for g in self.groups}
        new = []
        for k, g in made.items():
            if k in old:
                if old[k] is not g:
                    old[k].kids += g.kids
                    old[k].parts += [p for p in g.parts if p not in old[k].parts]
                g = old[k]
            else:
                self.groups.append(g)
            new.append(g)
        i = self.elements.index(els[0])
        self.elements[i:i + len(els)] = [('g', els[0][1], els[-1][2], None, new, None)]


def avs_of(x):
    return tuple(sorted((k, str(v).encode() if isinstance(v, int) else v) for k, v in x))


def cascade(ctx, case):
    sent, rules, noise = case
    m = Model(sent)
    d = scratch()
    with open(os.path.join(d, 'tagset'), 'w') as f:
        f.write(TAGSET)
    path = os.path.join(d, 'rules')
    txt = '\n'.join(rule_text(i, r, noise) for i, r in enumerate(rules))
    with open(path, 'w') as f:
        f.write(('# rules\n\n' if noise else '') + txt)
    try:
        for rl in rules:
            m.apply(rl)
    except Outside:
        ctx.event('group in itself')
        return
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', m.ops], ['ann', '=puddle', ['--lang', 'pl', '--tagset', os.path.join(d, 'tagset'), '--rules', path]], ['dump']]])
    for x in r:
        check(not (isinstance(x, list) and x and x[0] == b'!'), 'the parser failed: %r\n%s', x, txt)
    got, dead = {}, set()
    for e, _, _, parts in r[3][3]:
        k = (e[0], e[1], e[2], e[3], avs_of(e[5]))
        if b'parse' in e[4]:
            equal(sorted(e[4]), [b'!pl', b'parse', b'puddle'], 'tags of a group')
            check(k not in got, 'a group twice: %r', k)
            got[k] = {tuple((c[0], c[1], c[2], c[3], avs_of(c[5])) for c in p[4]) for p in parts}
        elif b'discarded' in e[4]:
            check(b'form' in e[4], 'an edge that is not a form was discarded: %r', k)
            dead.add(k)
    exp = {g.key(): set(g.parts) for g in m.groups}
    want = {e.key() for e in m.all if e.discarded}
    check(dead == want, 'discarded: %r, expected %r\ntext: %r\n%s', sorted(dead), sorted(want), m.text, txt)
    check(got == exp, 'groups: %r\nexpected: %r\ntext: %r\n%s', sorted(got.items()), sorted(exp.items()), m.text, txt)
    if len(exp) > 1:
        ctx.event('groups')
    if any(len(g) > 1 for g in exp.values()):
        ctx.event('several derivations')
    if any(any(len(c[2]) < 3 and c[0] for c in p) for g in m.groups for p in g.parts):
        ctx.event('nested')
    if m.unified:
        ctx.event('unified')
    if want:
        ctx.event('discarded')
    ctx.nontrivial(len(exp) > 1 or bool(want) and any(not e.discarded for e in m.all))


case = sentence.flatmap(lambda s: st.tuples(st.just(s), lst(rule(s), 1, 5, 2.5), st.booleans()))
TESTS = [Test('cascade', case, cascade, quick=4000, thorough=40000)]
