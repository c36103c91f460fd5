"""srx-segmenter: rule files and sentences."""
import os, re, tempfile
from xml.sax.saxutils import escape
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from checks.P04 import pieces
from checks.P16 import scratch, put

DRIVERS = ['drv_pipe']
RULE = ('rules: an SRX file (versions 1 and 2, cascade or not, several maps, languages and rule sets, comments) and what it means are generated, a text is '
        'segmented and compared with a Python segmenter (the first rule that matches at a place decides; limits); languages: texts of '
        'natural-looking fragments with the rules of every language (tiling, tags, limits); non-trivial: at least two sentences')
BEFORE = ['\\.', '\\.', '[.!?]', '[a-z]\\.', '[A-Z]\\.', '\\bdr\\.', '\\bz\\.b\\.', 'ż', '\\?', 'a(b)\\.', '(?:a|b)\\.', '\\)', '[()]', '[^(]\\.', '[(.]', '\\(', '', '', '[.?]+', '\\.\\s', '.', '\\d\\.', '[])]', '[^](]\\.', '[[:lower:](]', '\\\\', ' +', '\\.[()]*', '<', '&']
AFTER = ['', '', '\\s', '\\s', ' ', '\\s[A-Z]', '\\s+[a-z]', '[A-Z]', ' (A|ż)', 'ż', '$', '(?=A)', '(?!a)', '[()]', '\\(', '\\)', '\\s*[(a]', '\\n', '\\S', '[^ (]', '>', '"']
rule = st.tuples(st.booleans(), st.one_of(st.sampled_from(BEFORE), st.sampled_from(['\\.', '[.!?]', 'a', 'dr\\.'])), st.sampled_from(AFTER))
LANGS = ['en', 'pl', 'xx', 'fr']
PATS = ['en', 'pl', '(en|pl)', '.*', 'e.', 'EN', 'pl|xx', 'x+', 'e', '[^e].*', 'en.?', '']
NAMES = ['one', 'two', 'Def ault', 'ż']
langrule = st.tuples(st.sampled_from(NAMES), lst(rule, 0, 6, 4))
maps = lst(st.tuples(st.sampled_from(PATS), st.sampled_from(NAMES)), 0, 4, 2)
TEXT = st.one_of(st.text(alphabet='ab. Aż.( )\n.? 1', min_size=1, max_size=30), lst(st.sampled_from(['Ala ma', ' ', ' ', '. ', '. ', '.', 'a', 'dr.', 'z.b.', '\n', '? ', 'X. ', '(', ')', '1. ', 'żab.', '?!', 'ab', 'b. A', '\\', '<a> & "b"', ':', '?:']), 1, 12, 7).map(''.join))
case = st.tuples(st.booleans(), st.sampled_from(['', ' cascade="yes"', ' cascade="yes"', ' cascade="no"', None]), st.lists(maps, min_size=1, max_size=2), st.lists(lst(langrule, 1, 3, 2), min_size=1, max_size=2), st.booleans(), st.sampled_from(LANGS),
                 lst(TEXT, 1, 4, 3), st.sampled_from([None, None, None, (5, 3), (12, 5), (7, 7), (30, 10)]), st.booleans())


def xml(c):
    two, casc, ms, ls, force, lang, texts, lm, comments = c
    com = '<!-- <rule break="yes"/> x -->' if comments else ''
    o = '<?xml version="1.0"?>\n%s<srx version="%s">\n' % (com, '2.0' if two else '1.0')
    if casc is not None:
        o += '<header segmentsubflows="yes"%s>%s</header>\n' % (casc, com)
    o += '<body>\n'
    for k, l in enumerate(ls):
        o += '<languagerules>\n' + com
        for name, rs in l:
            o += '<languagerule languagerulename="%s">\n' % name
            for b, x, y in rs:
                o += '%s<rule break="%s">%s<beforebreak>%s</beforebreak><afterbreak>%s</afterbreak></rule>\n' % (com, 'yes' if b else 'no', com, escape(x), escape(y))
            o += '</languagerule>'
        o += '</languagerules>\n'
    for m in ms:
        o += '<maprules>' + com
        for p, n in m:
            t = '<languagemap languagepattern="%s" languagerulename="%s"/>' % (p, n)
            o += t if two else '<maprule maprulename="m">%s</maprule>' % t
        o += '</maprules>\n'
    return o + '</body>\n</srx>\n'


def applicable(c):
    two, casc, ms, ls, force, lang = c[:6]
    cascade = force or casc == ' cascade="yes"'
    names = [n for m in ms for p, n in m if re.fullmatch(p, lang)]
    names = set(names if cascade else names[:1])
    return [r for l in ls for name, rs in l if name in names for r in rs], cascade


def sentences(rules, text):
    """the ends of the sentences, None when a rule is not made for looking at one place at a time, [] when matches reach over breaks"""
    at = []
    for b, x, y in rules:
        x, y = [z.replace('[[:lower:]', '[a-z') for z in (x, y)]
        p = re.compile('(?:%s)(?P<after>%s)' % (x, y), re.A)
        ps = {}
        last = 0
        for s in range(len(text)):
            m = p.match(text, s)
            if m:
                e = m.start('after')
                if e < last:
                    return None
                last = e
                ps.setdefault(e, []).append(s)
        at.append(ps)
    r, P = [], 0
    for p in range(1, len(text)):
        for (b, x, y), ps in zip(rules, at):
            m = ps.get(p, [])
            if any(s >= P for s in m) != bool(m):
                return []           # a match that reaches over the beginning of the sentence
            if m:
                if b:
                    r.append(p)
                    P = p
                break
    return r + [len(text)]


def got(dump, text, lang):
    t, nv, es = dump
    equal(t, text.encode(), 'the text')
    r = sorted((e[0], e[1]) for e in es if b'segment' in e[4])
    pos = 0
    for a, z in r:
        check(a == pos and z > a, 'segments %r do not tile %r', r, text)
        pos = z
    equal(pos, len(t), 'the end of the segments %r of %r' % (r, text))
    for e in es:
        if b'segment' in e[4]:
            equal(sorted(e[4]), [b'!' + lang.encode(), b'segment'], 'tags')
            equal((e[2], e[3]), (b'sen', t[e[0]:e[1]]), 'category and text')
    return r


def rules(ctx, c):
    two, casc, ms, ls, force, lang, texts, lm, comments = c
    d = scratch()
    with open(d + '/r.srx', 'w') as f:
        f.write(xml(c))
    args = ['--lang', lang, '--rules', d + '/r.srx'] + (['--cascade'] if force else [])
    if lm:
        args += ['--sentence-length-hard-limit', str(lm[0]), '--sentence-length-soft-limit', str(lm[1])]
    rs, cascade = applicable(c)
    steps = []
    for t in texts:
        steps += [['new', ''], put(t, lang), ['ann', 'srx-segmenter', args], ['dumpi']]
    ctx.v('drv_pipe', 'forget', [])
    try:
        res = ctx.v('drv_pipe', 'chain', ['', steps])
    finally:
        ctx.v('drv_pipe', 'forget', [])
    for k, t in enumerate(texts):
        x = res[4 * k + 2:4 * k + 4]
        check(x[0] is None, 'threw %r\n%s', x[0], xml(c))
        g = got(x[1], t, lang)
        if lm:
            for a, z in g:
                check(z - a <= lm[0], 'segment longer than the limit: %r', g)
        w = sentences(rs, t)
        if not w:
            ctx.event('unordered' if w is None else 'crossing')
            continue
        w = [0] + w
        lens = [z - a for a, z in zip(w, w[1:])]
        p = pieces(t, lens, lm[0] if lm else 1000, lm[1] if lm else 600)
        equal(g, [(a, z) for a, z, n in p], 'segments of %r with the rules %r (limits %r)\n%s' % (t, rs, lm, xml(c)))
        ctx.nontrivial(len(lens) > 1)
        ctx.event(*(['cascade'] if cascade and len(rs) else []), *(['limits'] if lm and len(p) > len(lens) else []), *(['breaks'] if len(lens) > 1 else []))
        ctx.event(*(['not broken'] if any(not b for b, x, y in rs) and sentences([r for r in rs if r[0]], t) != w[1:] else []))


ALL = ['de', 'en', 'es', 'fi', 'fr', 'it', 'pl', 'ru', 'tr', 'xx']
FR = ['Ala ma kota', ' ', ' ', ' ', '. ', '. ', '.', ',', '!', '? ', '?! ', '1st', '12', '1. ', 'prof. ', 'e.g. ', 'np. ', 'z o.o. ', 'U.S.A. ', 'J. ', 'Kowalski', 'dr hab. ', 'ul. ', 'Mr. ', 'z. B. ', 'usw. ', 'т. е. ', 'Привет', 'г. ', 'i tak dalej itd. ', 'Y', 'él', '¿Qué? ', '¡', '... ', '… ', '"', '”', '«', '»', ')', '(', ':', '; ', '\n', '\n\n', '\t', 'a', 'Ż', 'ł', '1.5', '10.', 'XIV w. ', '\u00a0', '日本。', '。', '𝄞', '\u0085', '- ', '– ']
lcase = st.tuples(st.sampled_from(ALL), st.one_of(lst(st.sampled_from(FR), 1, 30, 15).map(''.join), st.text(alphabet=''.join(sorted(set(''.join(FR)))), min_size=1, max_size=40)), st.sampled_from([None, None, (6, 3), (20, 10), (4, 4)]))


def languages(ctx, c):
    lang, text, lm = c
    args = ['--lang', lang] + (['--sentence-length-hard-limit', str(lm[0]), '--sentence-length-soft-limit', str(lm[1])] if lm else [])
    x = ctx.v('drv_pipe', 'chain', ['', [['new', ''], put(text, lang), ['ann', 'srx-segmenter', args], ['dumpi'], ['new', ''], put(text + text, lang), put('', lang), ['ann', 'srx-segmenter', args], ['dumpi']]])
    check(x[2] is None, 'threw %r', x[2])
    g = got(x[3], text, lang)
    for a, z in g:
        check(not lm or z - a <= lm[0], 'segment longer than the limit: %r of %r', g, text)
        check(lm or text.encode()[a:z].decode() is not None, 'a character is split')
    if lm:
        # a segment that fits the limits stays whole
        y = ctx.v('drv_pipe', 'chain', ['', [['new', ''], put(text, lang), ['ann', 'srx-segmenter', ['--lang', lang]], ['dumpi']]])
        h = got(y[3], text, lang)
        want = []
        for a, z in h:
            want += [(a + p, a + q) for p, q, k in pieces(text.encode()[a:z].decode(), [z - a], lm[0], lm[1])]
        equal(g, want, 'segments of %r with limits %r' % (text, lm))
    ctx.nontrivial(len(g) > 1)
    ctx.event(lang)


# matches that overlap, some of them forbidden
B2, A2 = ['aa', 'aa', 'ab', 'ba', 'a.', 'xaa', 'xaa', 'xa', 'baa', 'aab', 'a+', '[ab]{2}', 'żaa', '.aa'], ['', '', 'a', 'b', '[^x]', 'x', 'ż']
rule2 = st.tuples(st.booleans(), st.sampled_from(B2), st.sampled_from(A2))
T2 = st.one_of(st.text(alphabet='aabxż', min_size=3, max_size=14), lst(st.sampled_from(['xaaa', 'b', 'xx', 'aab', 'xaab', 'żaa', 'baaa', 'x']), 1, 5, 3).map(''.join))
overlap_case = st.tuples(lst(rule2, 2, 5, 3), lst(T2, 2, 6, 4)).map(lambda c: (True, None, [[('.*', 'one')]], [[('one', c[0])]], False, 'pl', c[1], None, False))

TESTS = [Test('overlap', overlap_case, rules, quick=3000), Test('rules', case, rules, quick=5000), Test('languages', lcase, languages, quick=4000)]
