"""Text readers: txt-reader and apertium-reader keep the text."""
import os, re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from lib.drvclient import R
from checks.P16 import scratch

DRIVERS = ['drv_pipe']
RULE = ('txt: any text read line by line or as a whole gives that text, its symbols and one fragment per line; formats: documents of markup, comments, entities '
        'and text in the formats of apertium-reader, and spec: random format specifications; the markup and the text between are compared (up to white space '
        'next to markup) with a Python deformatter, with and without the tags kept; non-trivial: markup and text, or several lines')
TXT = st.text(alphabet='ab żα€𝄞\t.\\"<&', max_size=8)
tcase = st.tuples(lst(TXT, 0, 6, 3), st.booleans(), st.sampled_from(['\n', '\n', '\n', '\r\n']), st.booleans())


def edges(dump):
    return dump[0], dump[2]


def txt(ctx, c):
    lines, last, nl, whole = c
    text = nl.join(lines) + (nl if last and lines else '')
    x = ctx.v('drv_pipe', 'chain', ['', [['read', 'txt-reader', ['--whole-text'] if whole else ['--line-by-line'], text], ['dumpi']]])
    check(x[0] is None, 'threw %r', x[0])
    t, es = edges(x[1])
    ls = text.split('\n')
    if ls[-1] == '':
        ls = ls[:-1]
    want = ''.join(l + '\n' for l in ls)
    equal(t, want.encode(), 'text read from %r' % text)
    frags = sorted((e[0], e[1], e[3].decode()) for e in es if b'frag' in e[4])
    pos, w = 0, []
    for l in ls:
        if l and not whole:
            w.append((pos, pos + len(l.encode()), l))
        pos += len(l.encode()) + 1
    if whole and want:
        w = [(0, len(want.encode()), want)]
    equal(frags, w, 'fragments')
    for e in es:
        if b'frag' in e[4]:
            equal((e[2], sorted(e[4])), (b'FRAG', [b'frag', b'txt-reader']), 'fragment')
    sym = sorted((e[0], e[1]) for e in es if e[4] == [b'symbol'])
    w, pos = [], 0
    for ch in want:
        if whole or ch != '\n':
            w.append((pos, pos + len(ch.encode())))
        pos += len(ch.encode())
    if not whole:       # the ends of lines have no symbols
        equal(sym, w, 'symbols of %r' % want)
    else:
        equal(sym, w, 'symbols of %r' % want)
    ctx.nontrivial(len(ls) > 1)


class Spec:
    def __init__(self, f):
        t = ET.parse(f).getroot()
        self.rules, self.repl = [], {}
        un = lambda s: re.sub(r'(?<!\\)"', '', s or '')
        for r in t.find('rules'):
            if r.tag == 'format-rule':
                b = r.find('begin')
                if b is not None:
                    p = '(?:%s)(?:\\s|.)*?(?:%s)' % (un(b.get('regexp')), un(r.find('end').get('regexp')))
                else:
                    p = '|'.join('(?:%s)' % un(x.get('regexp')) for x in r.findall('tag'))
                self.rules.append((int(r.get('priority')), r.get('type'), r.get('eos') == 'yes', '(?:' + p + ')'))
            else:
                for x in r.findall('replace'):
                    self.repl.setdefault(x.get('target'), []).append(x.get('source'))
        self.rules.sort(key=lambda r: r[0])
        self.re = re.compile('|'.join('(%s)' % re.sub(r'(?<!\\)\((?!\?)', '(?:', p) for _, _, _, p in self.rules), re.A)
        self.cased = t.find('options/case-sensitive').get('value') == 'yes'

    def run(self, text):
        text = '\n'.join(l for l in text.split('\n') if l.strip(' \t\n\r\v\f'))
        for target in sorted(self.repl, key=lambda s: s.encode()):
            text = re.sub('|'.join(self.repl[target]), lambda m: target, text, flags=0 if self.cased else re.I)
        out, pos = [], 0
        for m in self.re.finditer(text):
            if m.start() > pos:
                out.append(('text', text[pos:m.start()]))
            _, typ, eos, _ = self.rules[m.lastindex - 1]
            out.append((typ.upper() + '-TAG', m.group(), eos))
            pos = m.end()
        if pos < len(text):
            out.append(('text', text[pos:]))
        return out


WS = ' \t\n\r\v\f'


def seq(dump):
    t, es = edges(dump)
    r = sorted((e for e in es if b'frag' in e[4] or b'tag' in e[4]), key=lambda e: e[0])
    pos, out = 0, []
    for e in r:
        check(e[0] == pos and e[3] == t[e[0]:e[1]], 'fragments and tags do not tile the text %r: %r', t, r)
        pos = e[1]
        if b'frag' in e[4]:
            equal((e[2], sorted(e[4])), (b'FRAG', [b'apertium-reader', b'frag']), 'a fragment')
            out.append(('text', e[3].decode()))
        else:
            equal(sorted(e[4]), [b'apertium-reader', b'tag'], 'a tag')
            out.append((e[2].decode(), e[3].decode(), dict(e[5])[b'eos'] == b'yes'))
    equal(pos, len(t), 'the fragments and tags of %r' % t)
    return out


def norm(s):
    r = []
    for x in s:
        y = (x[0], x[1].strip(WS)) + tuple(x[2:])
        if y[0] == 'text' and r and r[-1][0] == 'text':
            r[-1] = ('text', (r[-1][1] + x[1]).strip(WS))
        elif y[1]:
            r.append(y)
    return [x for x in r if x[1]]


def compare(ctx, spec, args, text, info=''):
    want = spec.run(text)
    name = '=apertium-reader' if info else 'apertium-reader'
    x = ctx.v('drv_pipe', 'chain', ['', [['read', name, args + ['--keep-tags'], text], ['dumpi'], ['new', ''], ['read', name, args, text], ['dumpi']]])
    x = x[:2] + x[3:]
    tags = [w for w in want if w[0] != 'text']
    if not tags:
        for y in (x[0], x[2]):
            check(isinstance(y, list) and y[1].endswith(b'ApertiumException'), 'no markup in %r, but %r %s', text, y, info)
        ctx.event('no markup')
        return
    check(x[0] is None and x[2] is None, 'threw %r for %r %s', x[0], text, info)
    a, b = seq(x[1]), seq(x[3])
    equal(norm(a), norm(want), 'reading %r keeping tags %s' % (text, info))
    # without tags: the same fragments
    equal([y for y in b], [y for y in a if y[0] == 'text'], 'fragments of %r without tags %s' % (text, info))
    ctx.nontrivial(len(tags) > 0 and len(want) > len(tags))


HT = ['<b>', '</b>', '<p>', '</p>', '<p class="x">', '<br>', '<br/>', '<hr />', '<img src="a.png">', '<link>', '<!DOCTYPE html>', '<h1>', '</h1>', '<h7>', '<td a>', '</td>', '<title>', '</title>', '<a href="x&amp;y">', '</a>', '<P>', '<1>', '< b>', '<', '>', '<pre>', '<div\nid="ż">', '</div >', '<option>',
      '<!-- com <b> -->', '<!---->', '<!-- a\n\nb -->', '<!--', '-->', '<script>var a = "<b>";</script>', '<script x="y">\nż</script>', '<script>', '</script>', '<style>p { }</style>', '<apertium-notrans>a b</apertium-notrans>', '<?php x>']
ENT = ['&eacute;', '&#233;', '&#xE9;', '&EACUTE;', '&laquo;', '&rsquo;', '&#39;', '&foo;', '&', '&#264;', '&szlig;']
WORDS = ['ala', ' ', ' ', 'ma kota', 'ż', '€', '.', '\n', '\n\n', '\t', ' \t ', 'x < y', '"',  "'", '{', '\\', '日本']
LT = ['<section/><CONTENTS>', '<section_STAR/> <CONTENTS>', '</CONTENTS>', '<CONTENTS>', '<PARAM>', '</PARAM>', '<item/>', '<item/><PARAM>', '<itemize>', '</itemize>', '<MATH_DOLLAR>x</MATH_DOLLAR>', '<COMMENT>c</COMMENT>', '<VERB>v <b></VERB>', '<emph/><CONTENTS>', '</CONTENTS-noeos>', '<x>', '</x>', '<equation>a</equation>', '<cite/><CONTENTS>q</CONTENTS>', '<CONTENTS> <bf/>', '<!-- c -->', '<subsubsubsection/><PARAM>', '</PARAM> <CONTENTS>', '<parbox/><CONTENTS>a</CONTENTS><CONTENTS>', '<caption/><CONTENTS>']
OT = ['<text:p>', '</text:p>', '<text:span text:style-name="T1">', '</text:span>', '<text:s/>', '<office:text>', '<!-- x -->', '<style:a/>', '<w:p>', '<w:t>', '</w:t>', '<w:r w:x="1">', '</w:r>', '</w:p>', '<w:tab/>', '<w:instrText>x</w:instrText>', '<a:t>', '</a:t>', '<a:p>', '</a:p>', '<si>', '</si>', '<t>', '</t>', '<?xml version="1.0"?>', '<sst count="1">', '<x/>']
doc = st.one_of(st.tuples(st.just('html'), lst(st.one_of(*[st.sampled_from(x) for x in (HT, HT, WORDS, WORDS, ENT)]), 1, 20, 9)), st.tuples(st.just('latex'), lst(st.one_of(st.sampled_from(LT), st.sampled_from(WORDS)), 1, 14, 7)),
                st.tuples(st.sampled_from(['odt', 'docx', 'pptx', 'xlsx']), lst(st.one_of(st.sampled_from(OT), st.sampled_from(WORDS)), 1, 14, 7)))
_specs = {}


def formats(ctx, c):
    fmt, parts = c
    if fmt not in _specs:
        _specs[fmt] = Spec(os.path.join(R, 'formats/apertium/apertium_reader/data/%s-format.xml' % fmt))
    compare(ctx, _specs[fmt], ['--format', fmt, '--unzip-data', 'false'], ''.join(parts))
    ctx.event(fmt)


POOL = [('tag', '"<a>"'), ('tag', '"["[a-z]+"]"'), ('tag', '"[b]"'), ('tag', '"#"(x|yy)?'), ('pair', '"{{"', '"}}"'), ('pair', '"%"', '\\n'), ('tag2', '"<b>"', '"</b>"'), ('tag', '"ż"+'), ('tag', '\\"q"z"'), ('tag', '"("(a|b)")"'.replace('"("', '\\(').replace('")"', '\\)')), ('pair', '"(1"|"(2"'.replace('(', '\\('), '"1)"|"2)"'.replace(')', '\\)')), ('tag2', '"&a"|"&b"', '"&c"'), ('tag', '"<"[^>]*">"'), ('pair', '"<c>"', '"</c>"'), ('tag', '"*"|"!"'.replace('*', '\\*'))] + [('tag', '"@%s"' % c) for c in 'abcdefghijkl']
srule = st.tuples(st.sampled_from(POOL), st.sampled_from(['open', 'close', 'empty', 'comment']), st.booleans())
scase = st.tuples(st.one_of(lst(srule, 1, 6, 3), st.permutations([(p, 'open', False) for p in POOL]).map(lambda x: x[:20]), lst(srule, 12, 34, 18)), st.lists(st.tuples(st.sampled_from(['&amp;x;', 'qq', 'Ż', 'z{2}']), st.sampled_from(['ó', 'Q', '\u20ac', 'x'])), max_size=3, unique_by=lambda x: x[0]),
                  st.booleans(), lst(lst(st.sampled_from(['<a>', '[b]', '[abc]', '[', ']', '#', '#x', '#yy', '{{', '}}', '%', '\n', '\n\n', '<b>', '</b>', 'ż', 'żż', '<zz>', '<c>', '</c>', '*', '!', '@a', '@b', '@c', '"qz', '"z', '(a)', '(b)', '(1', '(2', '1)', '2)', '&a', '&b', '&c', '@k', '@l', '@e', '@', 'tekst', 'a b', ' ', '&amp;x;', '&x;', 'qq', 'QQ', 'zz', '€']), 1, 14, 8).map(''.join), 1, 3, 2))


def spec(ctx, c):
    rules, repl, cased, texts = c
    o = '''<?xml version="1.0" encoding="UTF-8"?>\n<format name="x"><options><largeblocks size="8192"/><input encoding="UTF-8"/><output encoding="UTF-8"/><tag-name regexp=''/><escape-chars regexp='x'/>
<space-chars regexp='x'/><case-sensitive value="%s"/></options>\n<rules>\n''' % ('yes' if cased else 'no')
    for k, ((kind, *x), typ, eos) in enumerate(rules):
        o += '<format-rule type="%s" eos="%s" priority="%d">' % (typ, 'yes' if eos else 'no', k * 7 % 101 + 1)
        if kind == 'pair':
            o += '<begin regexp=%s/><end regexp=%s/>' % tuple(map(quoteattr, x))
        else:
            o += ''.join('<tag regexp=%s/>' % quoteattr(y) for y in x)
        o += '</format-rule>\n'
    if repl:
        o += '<replacement-rule regexp="x">' + ''.join('<replace source="%s" target="%s"/>' % r for r in repl) + '</replacement-rule>'
    o += '</rules></format>\n'
    f = scratch() + '/spec.xml'
    with open(f, 'w') as h:
        h.write(o)
    ctx.v('drv_pipe', 'forget', [])
    s = Spec(f)
    for t in texts:
        compare(ctx, s, ['--specification-file', f], t, o)
    ctx.v('drv_pipe', 'forget', [])
    ctx.event('many rules' if len(rules) > 16 else 'rules')


TESTS = [Test('txt', tcase, txt, quick=3000), Test('formats', doc, formats, quick=8000, explicit=[('html', ['<p>', '<!--', 'd0142ugi ' * 20000, '-->', 'a'])]), Test('spec', scase, spec, quick=4000)]
