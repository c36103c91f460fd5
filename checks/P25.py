"""Remaining formats: DOT graphs, morphology tables and the reader of NKJP documents."""
import re
from xml.sax.saxutils import escape, quoteattr
from hypothesis import strategies as st
from lib import latmodel
from lib.latmodel import Lattice
from lib.pbt import Test, check, equal, lst
from checks.P19 import build, adds, TEXT
from checks.P24 import morf

DRIVERS = ['drv_pipe']
RULE = ('dot: the graph written by dot-writer (read back by the lexical rules of DOT) has the edges of the model of a random layered lattice, for every option; table: rows of morphology-writer and phrases-writer '
        'against the same model; nkjp: generated NKJP documents against a model of the lattice that they describe; non-trivial: at least three edges shown, two rows, or two segments')


def quoted(s):
    return ''.join({' ': '_', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, '\\' + c if c in '_*\\#' else c) for c in s)


TOKEN = re.compile(r'\s*("(?:[^"\\]|\\.)*"|->|[A-Za-z_\x80-\U0010ffff][\w]*|-?\d+|[{}\[\],;=])', re.S)


def parse_dot(s):
    """([graph attributes], [(node, attributes)], [(from, to, attributes)])"""
    toks, p = [], 0
    while s[p:].strip():
        m = TOKEN.match(s, p)
        check(m, 'not DOT at %r', s[p:p + 60])
        toks.append(m.group(1))
        p = m.end()
    check(toks[:3] == ['digraph', 'G', '{'] and toks[-1] == '}', 'not a digraph: %r', s)
    body, i = toks[3:-1], 0
    ident = lambda t: t[1:-1].replace('\\"', '"') if t[0] == '"' else t
    attrs, nodes, arrows = [], [], []
    while i < len(body):
        a = body[i]
        check(re.match(r'["\w]', a), 'no name at %r', body[i:i + 5])
        i += 1
        if body[i:i + 1] == ['=']:
            attrs.append((a, body[i + 1]))
            i += 2
            continue
        b = None
        if body[i:i + 1] == ['->']:
            b = body[i + 1]
            i += 2
        at = {}
        if body[i:i + 1] == ['[']:
            i += 1
            while body[i] != ']':
                check(body[i + 1] == '=', 'no value at %r', body[i:i + 5])
                at[body[i]] = ident(body[i + 2])
                i += 3
                if body[i] == ',':
                    i += 1
            i += 1
        if b is None:
            nodes.append((a, at))
        else:
            arrows.append((a, b, at))
    return attrs, nodes, arrows


wtext = st.text(alphabet='ab żc_\\"#', min_size=1, max_size=7)
ditem = st.tuples(st.sampled_from(['N', 'V', 'B', 'T', "'x", '"', 'a"b', 'C\\', '<x>', 'ż']), st.sampled_from([None, None, 'ala', 'b"', 'a+b', 'ż\n']), st.sampled_from([(), (('num', 'sg'),), (('num', '7'), ('case', 'acc'))]))
dtags = st.sampled_from([['token'], ['token'], ['form'], ['form', 'x'], ['lexeme'], ['x', '!pl'], ['discarded', 'form'], ['token', '!pl'], ['form'], ['form', 'gobio']] + [[t] for t in 'abcdefghij'])
dcase = st.tuples(wtext, adds(ditem, dtags), st.booleans(), st.booleans(), st.sampled_from([[], [], ['form'], ['token', 'x'], ['symbol'], ['no']]), st.booleans(), st.booleans(), st.booleans(), st.booleans())


def late(m, ops, on):
    """some edges get one more way, through edges that are younger"""
    h = [e for e in m.edges if not e.implicit]
    if on:
        for i, e in enumerate(h):
            for j in range(len(h) - 1, i, -1):
                y = h[j]
                if (y.src, y.tgt) == (e.src, e.tgt) and not y.dead and not any(q for p in y.parts for q in p[4]) and not e.dead:
                    try:
                        m.add_part(e, e.tags, [y])
                    except latmodel.ModelError:
                        return
                    ops.append(['part', [x for x in range(len(h))].index(i), sorted(t.decode() for t in e.tags), [j], 0.0, -1, -1])
                    return


def dot(ctx, c):
    text, ad, show, color, filt, tree, align, symbols, more = c
    m, ops = build(text, ad)
    late(m, ops, more and len([e for e in m.edges if not e.implicit]) == sum(o[0] == 'add' for o in ops))
    args = [a for a, on in (('--show-tags', show), ('--color', color), ('--tree', tree), ('--align', align), ('--show-symbol-edges', symbols)) if on] + (['--tags'] + filt if filt else [])
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops], ['dump'], ['write', 'dot-writer', args]]])
    equal(r[2], m.dump(), 'the lattice of %r' % ops)
    check(isinstance(r[3], bytes), 'dot-writer %r on %r: %r', args, ops, r[3])
    what = 'dot-writer %r of %r:\n%s\n' % (args, ops, r[3].decode())
    ga, nodes, arrows = parse_dot(r[3].decode())
    equal(ga, [('rankdir', 'TB' if tree else 'LR')], what)
    shown = [e for e in m.by_target(None) if b'discarded' not in e.tags and (symbols or e.tags != {b'symbol'}) and (not filt or any(f.encode() in e.tags for f in filt))]
    colours = {}

    def label(e):
        tags = sorted(t.decode() for t in e.tags if not filt or t.decode() in filt)
        return (quoted(m.edge_text(e).decode()), ','.join(tags) if show else None, e.cat.decode().replace('\\', '\\\\'))

    def key(at, n):
        lab = at['label']
        tags = None
        if show:
            g = re.fullmatch(r'(.*) \(([^()]*)\) (.*)', lab, re.S)
            check(g, '%slabel %r', what, lab)
            t, tags, cat = g.groups()
            tags = ','.join(sorted(tags.split(','))) if tags else ''
        else:
            t, cat = lab.split(' ', 1)
        if color:
            check(re.fullmatch('#[0-9a-f]{6}(:#[0-9a-f]{6})*|', at['color']), '%scolour %r', what, at['color'])
        equal(sorted(at), ['color', 'label'] if color else ['label'], what)
        if color and show:
            check(len(at['color'].split(':')) == len(tags.split(',')), '%scolours %r of %r', what, at['color'], tags)
            if ',' not in tags:
                check(colours.setdefault(tags, at['color']) == at['color'], '%scolours of %s', what, tags)
        return (t, tags, cat)
    if not tree:
        equal(nodes, [], what)
        vis = [a for a in arrows if a[2] != {'style': 'invis'}]
        inv = [a for a in arrows if a[2] == {'style': 'invis'}]
        equal([(a, b) + key(at, a) for a, b, at in vis], [(str(e.src), str(e.tgt)) + label(e) for e in shown], what)
        if align:       # every node but the last one has a way on
            V = sorted({v for e in shown for v in (e.src, e.tgt)})
            outs = {e.src for e in shown}
            equal([(a, b) for a, b, _ in inv], [(str(a), str(b)) for a, b in zip(V, V[1:]) if a not in outs], what)
        else:
            equal(inv, [], what)
    else:
        equal([key(at, n) for n, at in nodes], [label(e) for e in shown], what)
        equal(len({n for n, _ in nodes}), len(nodes), what)
        node = {id(e): n for e, (n, _) in zip(shown, nodes)}
        want = []
        for e in shown:
            for k, p in enumerate(e.parts or [(0, 0, 0, 0, [])]):
                want += [(node[id(e)], node[id(q)], {'label': str(k + 1)} if len(e.parts) > 1 else {}) for q in p[4] if id(q) in node]
        k = lambda x: (x[0], x[1], sorted(x[2].items()))
        equal(sorted(arrows, key=k), sorted(want, key=k), what)
    ctx.nontrivial(len(shown) >= 3)


def pad(s, n):
    return s + ' ' * (n - len(s))


forms = st.lists(st.tuples(st.integers(0, 9), st.integers(1, 2), st.sampled_from(['N', 'V', 'subst']), st.sampled_from([(), (('num', 'sg'),), (('num', '7'), ('case', 'acc'))]),
                           st.lists(st.sampled_from(['kot+subst', 'kota+subst', 'mieć+verb', 'a+b+c', 'mam']), min_size=1, max_size=4, unique=True)), max_size=3)
tcase = st.tuples(TEXT, adds(ditem, dtags), st.booleans(), st.sampled_from(['morphology-writer', 'phrases-writer']), forms)


def table(ctx, c):
    text, ad, more, writer, fs = c
    m, ops = build(text, ad)
    B = m.bounds()
    for i, n, cat, avs, lexemes in fs if len(B) > 1 else []:       # forms of several lexemes
        i %= len(B) - 1
        src, tgt = B[i], B[min(len(B) - 1, i + n)]
        for x in lexemes:
            k = sum(o[0] == 'add' for o in ops)
            le = m.add(src, tgt, ('L', x, ()), ['lexeme'], [])
            ops.append(['add', src, tgt, ['L', x, []], ['lexeme'], [], 0.0, -1, -1])
            m.add(src, tgt, (cat, text.encode()[src:tgt].decode(), avs), ['form', 'lam'], [le])
            ops.append(['add', src, tgt, [cat, text.encode()[src:tgt].decode(), [list(y) for y in avs]], ['form', 'lam'], [k], 0.0, -1, -1])
        if len(lexemes) > 1:
            ctx.event('ambiguous')
    late(m, ops, more and len([e for e in m.edges if not e.implicit]) == sum(o[0] == 'add' for o in ops))
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops], ['dump'], ['write', writer, []]]])
    equal(r[2], m.dump(), 'the lattice of %r' % ops)
    check(isinstance(r[3], bytes), '%s on %r: %r', writer, ops, r[3])
    want = []
    for e in m.by_target(None):
        if b'form' in e.tags:
            for p in e.parts:
                for q in p[4]:
                    head = pad(pad(m.edge_text(e).decode(), 13) + ' ' + q.text.decode().split('+')[0], 26) + ' ' + e.cat.decode()
                    vals = [v.decode() for _, v in e.avs]
                    want.append({head + ''.join(':' + v for v in o) + '\n' for o in (vals, vals[::-1])})
    got = r[3].decode()
    for w in want:
        f = [x for x in w if got.startswith(x)]
        check(f, '%s on %r: expected one of %r at %r', writer, ops, w, got)
        got = got[len(f[0]):]
    equal(got, '', '%s on %r' % (writer, ops))
    ctx.nontrivial(len(want) > 1)


# NKJP
word = st.sampled_from(['Za', 'swe', 'mam', 'ó', '.', '7', 'a&b', '<', '"', "żółw'", 'x—y', 'Ala ma', '€'])
nospace = word.filter(lambda w: ' ' not in w)
MSD = ['sg:nom:m1', 'pl:acc:f', 'sg:gen:n:pos', 'fin:sg:pri:imperf', 'gen', 'acc', '', 'pos', 'sg:nom:f']
lexs = lst(st.tuples(st.sampled_from(['mieć', 'mamić', 'za', 'a&']), st.sampled_from(['verb', 'prep', 'subst', 'adj', 'qub']), st.lists(st.sampled_from(MSD), min_size=1, max_size=4, unique=True), st.booleans()), 1, 3, 2)
seg = st.tuples(word, st.sampled_from(['none', 'corresp', 'comment', 'comment', 'fscomment']), st.sampled_from([0, 0, 1, 1, 1, 3]), st.sampled_from([None, None, None, 'attr', 'f']),
                st.sampled_from([None, 'morph', 'morph', 'group', 'words']), st.lists(st.tuples(st.sampled_from(['type', 'sense', 'derived']), st.sampled_from(['symbol', 'string', 'binary', 'fVal']), st.sampled_from(['NG', 'x&y', 'true', '#s1'])), max_size=2, unique_by=lambda x: x[0]),
                st.one_of(st.none(), lexs), st.one_of(st.none(), st.integers(0, 9)))
sent = lst(seg, 1, 6, 3)
para = st.tuples(st.sampled_from(['p', 'p', 'ab', 'u']), lst(sent, 1, 3, 2))
div = st.tuples(st.sampled_from(['div', 'div', 'front']), lst(st.tuples(st.sampled_from(['ab', 'p', 'head']), word), 1, 3, 2))
ncase = st.tuples(st.lists(st.one_of(para, para, para, div), min_size=1, max_size=3), st.sampled_from(['', '\n', '\n  ']), st.sampled_from(['<!-- xxx -->', '', '<!-- a [1,2] -->']))
TAGS = lambda t: ['nkjp-reader', t, '!pl']


def nkjp(ctx, c):
    parts, ws, note = c
    m = Lattice('')
    x = []
    out = lambda s: x.append(s + ws)
    prev = [None]
    nseg = 0

    def append(s):
        a = len(m.text)
        m.text += s.encode()
        m.add_symbols(a, len(m.text))
        z = len(m.text)
        return a, z, [m.out(i, [['symbol']])[0] for i in m.bounds() if a <= i < z]

    def span(a, z):
        return m.text[a:z].decode()
    for kind, content in parts:
        out('<%s xml:id="i">' % kind)
        out(note)
        if kind in ('div', 'front'):
            s0, kids = len(m.text), []
            for tag, t in content:
                a, z, sy = append(t)
                kids.append(m.add(a, z, (tag, t, ()), TAGS('paragraph'), sy))
                out('<%s n="1">%s</%s>' % (tag, escape(t), tag))
            m.add(s0, len(m.text), (kind, span(s0, len(m.text)), ()), TAGS('div'), kids)
        else:
            p0, pk, at = len(m.text), [], 0
            for s in content:
                out('<s xml:id="x">')
                s0, sk = len(m.text), []
                for word_, hint, gap, nps, typ, attrs, lex, choice in s:
                    nseg += 1
                    at += gap
                    if hint != 'none' and hint != 'corresp' and ' ' in word_:
                        hint = 'corresp'
                    space = False
                    if hint != 'none':
                        space = prev[0] is not None and at > prev[0]
                        prev[0] = at + len(word_)
                    at += len(word_)
                    pos = '[%d,%d]' % (at - len(word_), len(word_))
                    cm = ('<!-- %s %s -->' % (word_.replace('--', ''), pos))
                    fs = typ is not None or attrs or lex or nps == 'f' or hint == 'fscomment'
                    if not fs and hint in ('none', 'comment', 'fscomment'):
                        fs = True
                    at_ = ' corresp=%s' % quoteattr('text.xml#string-range(txt_1.1-ab,%d,%d)' % (at - len(word_), len(word_))) if hint == 'corresp' else ' corresp="ann_segmentation.xml#s"'
                    if nps == 'attr':
                        at_ += ' nkjp:nps="true"'
                    if not fs:
                        out('<!-- %s -->' % word_)
                        out('<seg%s xml:id="s"/>' % at_)
                    else:
                        out('<seg%s xml:id="s">' % at_)
                        if hint == 'comment':
                            out(cm)
                        out('<fs%s>' % (' type="%s"' % typ if typ else ''))
                        out('<f name="orth"><string>%s</string></f>' % escape(word_))
                        if hint == 'fscomment':
                            out(cm)
                        if nps == 'f':
                            out('<f name="nps"><binary value="true"/></f>')
                        for k, how, v in attrs:
                            out('<f name="%s" fVal=%s/>' % (k, quoteattr(v)) if how == 'fVal' else '<f name="%s"><string>%s</string></f>' % (k, escape(v)) if how == 'string' else '<f name="%s"><%s value=%s/></f>' % (k, how, quoteattr(v)))
                    if space:
                        a, z, sy = append(' ')
                        m.add(a, z, ('B', ' ', ()), TAGS('token' if typ in (None, 'morph') else typ), sy)
                    a, z, sy = append(word_)
                    avs = {k: v for k, how, v in attrs}
                    if nps:
                        avs['nps'] = 'true'
                    e = m.add(a, z, ('T', word_, tuple(avs.items())), TAGS('token' if typ in (None, 'morph') else typ), sy)
                    sk.append(e)
                    if fs:
                        if lex:
                            ids = [(i, j) for i, l in enumerate(lex) for j in range(len(l[2]))]
                            chosen = ids[choice % len(ids)] if choice is not None else None
                            out('<f name="interps">')
                            good, bad, other = [], [], []
                            for i, (base, ctag, msds, alt) in enumerate(lex):
                                alt = alt or len(msds) > 1
                                out('<fs type="lex" xml:id="l%d"><f name="base"><string>%s</string></f><f name="ctag"><symbol value="%s"/></f><f name="msd">%s%s%s</f></fs>' % (
                                    i, escape(base), ctag, '<vAlt>' if alt else '', ''.join('<symbol value="%s" xml:id="m%d.%d"/>' % (v, i, j) for j, v in enumerate(msds)), '</vAlt>' if alt else ''))
                                le = m.add(a, z, ('word', base, ()), TAGS('lemma'), [e])
                                ce = m.add(a, z, (ctag, base + '+' + ctag, ()), TAGS('lexeme'), [le])
                                for j, v in enumerate(msds):
                                    av = {}
                                    for mm in morf(v)[0] if v else []:
                                        for k, w in mm:
                                            av[k] = w
                                    fe = m.add(a, z, (ctag, word_, tuple(av.items())), TAGS('form'), [ce])
                                    ctx.exclude('F115', chosen and any(fe is f for f in good + bad + other))
                                    other.append(fe)
                                    if (i, j) == chosen:
                                        good.append(fe)
                                    elif alt:
                                        bad.append(fe)
                            out('</f>')
                            if chosen:
                                for f in bad:
                                    if not any(f is g for g in good) and b'discarded' not in f.tags:
                                        m.add_part(f, ['discarded'], [], -latmodel.DBL_MAX)
                                out('<f name="disamb"><fs feats="#an" type="tool_report"><f fVal="#m%d.%d" name="choice"/><f name="interpretation"><string>x</string></f></fs></f>' % chosen)
                        out('</fs></seg>')
                out('</s>')
                se = m.add(s0, len(m.text), ('s', span(s0, len(m.text)), ()), TAGS('sentence'), sk)
                pk.append(se)
            m.add(p0, len(m.text), (kind, span(p0, len(m.text)), ()), TAGS('paragraph'), pk)
        out('</%s>' % kind)
    doc = '<?xml version="1.0" encoding="UTF-8"?>%s<teiCorpus xmlns:nkjp="http://n"><xi:include href="h.xml"/><TEI><text xml:lang="pl"><body>%s</body></text></TEI></teiCorpus>\n' % (ws, ''.join(x))
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['read', 'nkjp-reader', [], doc], ['dump']]])
    check(r[1] is None, 'reading %s: %r', doc, r[1])
    w = m.dump()
    equal(r[2][0].decode(), w[0].decode(), 'text of %s' % doc)
    for a, b in zip(r[2][3], w[3]):
        check(a == b, '%s:\n  got      %r\n  expected %r', doc, a, b)
    equal(r[2], w, doc)
    ctx.nontrivial(nseg > 1)


TESTS = [Test('dot', dcase, dot, quick=1500), Test('table', tcase, table, quick=1000), Test('nkjp', ncase, nkjp, quick=1500)]
