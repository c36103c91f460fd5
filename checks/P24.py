"""Helpers of texts, paths and formats against their definitions."""
import hashlib, itertools, os, re, shutil
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from checks.P16 import scratch

DRIVERS = ['drv_common', 'drv_pipe']
RULE = ('cases: strings of any characters in lower, upper and title case against the Unicode tables of Python; regexp: random patterns of the common subset against Python; glob, paths: patterns against '
        'a reference matcher over strings and directory trees; numbers: distances, digests, limits, escapes, peeking; tags: Morfologik tags against a reference; guess: what guessing-reader makes of a file is what '
        'the right reader makes of it; non-trivial: something is converted, matched, limited or expanded')

# characters cased later than the tables of the toolkit (Unicode 6.0)
LATER = [(0x25c, 0x25c), (0x261, 0x261), (0x266, 0x266), (0x26a, 0x26c), (0x282, 0x282), (0x287, 0x287), (0x29d, 0x29e), (0x37f, 0x37f), (0x3f3, 0x3f3), (0x528, 0x52f), (0x10c7, 0x10c7), (0x10cd, 0x10cd),
         (0x10d0, 0x10ff), (0x13a0, 0x13ff), (0x1c80, 0x1cbf), (0x1d8e, 0x1d8e), (0x2c2f, 0x2c2f), (0x2c5f, 0x2c5f), (0x2cf2, 0x2cf3), (0x2d27, 0x2d2d), (0xa698, 0xa69b), (0xa792, 0xa79f), (0xa7aa, 0xa7ff),
         (0xab53, 0xab53), (0xab70, 0xabbf), (0x104b0, 0x104ff), (0x10570, 0x105bf), (0x10c80, 0x10cff), (0x118a0, 0x118df), (0x16e40, 0x16e7f), (0x1e900, 0x1e943)]
KNOWN = [chr(c) for c in range(1, 0x10500) if not 0xd800 <= c < 0xe000 and not any(a <= c <= b for a, b in LATER)]
CASED = [c for c in KNOWN if len({c, c.lower(), c.upper(), c.title()}) > 1]
char = st.one_of(st.sampled_from(CASED), st.sampled_from(CASED), st.sampled_from('aAżŻßŉİıiIǆ. 1'), st.sampled_from(KNOWN))
ccase = st.tuples(st.sampled_from(['lower', 'upper', 'title']), st.sampled_from(['pl', 'en', 'pl', 'tr', 'az']), lst(st.lists(char, max_size=6).map(''.join), 1, 12, 8))


def convert(kind, lang, s):
    if lang in ('tr', 'az'):
        if kind == 'lower':
            s2, out = s, []
            for i, c in enumerate(s2):
                nxt, prev = s2[i + 1:i + 2], s2[i - 1:i] if i else ''
                if c == 'I' and nxt != '\u0307':
                    out.append('ı')
                elif c == 'İ':
                    out.append('i')
                elif c == '\u0307' and prev == 'I':
                    pass
                else:
                    out.append(c.lower())
            return ''.join(out)
        return ''.join('İ' if c == 'i' else getattr(c, kind)() for c in s)
    return ''.join(getattr(c, kind)() for c in s)


def cases(ctx, c):
    kind, lang, strings = c
    for s, r in zip(strings, ctx.v('drv_common', 'cases', [kind, lang, strings])):
        cv = lambda x: convert(kind, lang, x)
        head = s[:1] if s else ''
        want = [cv(s), cv(head) + s[1:], head + cv(s[1:])]
        equal([x.decode() for x in r[:3]], want, '%s %s %r' % (kind, lang, s))
        if lang not in ('tr', 'az'):
            touched = lambda x: any(getattr(ch, kind)() != ch for ch in x)
            equal(r[3:], [touched(s), touched(head), touched(s[1:])], 'touched %s %r' % (kind, s))
        if want[0] != s:
            ctx.nontrivial()


lit = st.sampled_from(['a', 'b', 'c', 'ż', '€', '.', '[ab]', '[^a]', '[a-cż]', '\\.', '\\d', '1', '\\w', '-'])


@st.composite
def pattern(draw, depth=2):
    """a pattern that does not match the empty string, and its number of groups"""
    kind = draw(st.sampled_from(['lit', 'lit', 'seq', 'seq', 'alt', 'group', 'group', 'rep', 'opt'])) if depth else 'lit'
    if kind == 'lit':
        return draw(lit)
    a = draw(pattern(depth - 1))
    if kind == 'group':
        return '(%s)' % a
    if kind == 'rep':
        return '(?:%s)%s' % (a, draw(st.sampled_from(['+', '+?', '{2}', '{1,2}', '{2,}?'])))
    b = draw(pattern(depth - 1))
    if kind == 'opt':
        return '(?:%s)%s%s' % (a, draw(st.sampled_from(['?', '*', '*?', '??'])), b)
    return '%s%s' % (a, b) if kind == 'seq' else '(?:%s|%s)' % (a, b)


WIDE = [('(a)', 'a'), ('(a)', 'a'), ('(b)?', 'b'), ('(b)?', ''), ('([ab])', 'b'), ('(ż)', 'ż'), ('(c|1)', '1'), ('(c|1)', 'c'), ('(.)', '€'), ('a', 'a')]
OPS = ['full', 'full', 'partial', 'partial', 'consume', 'find', 'find', 'variadic', 'replace', 'global', 'extract']
wide = st.tuples(lst(st.sampled_from(WIDE), 8, 18, 13), st.sampled_from(['', '', 'a', 'ż']), st.integers(1, 2)).map(lambda x: (''.join(p for p, _ in x[0]), x[1] + (x[1] + ''.join(s for _, s in x[0])) * x[2]))
ptext = st.one_of(st.tuples(st.one_of(pattern(3), pattern(2), lst(st.sampled_from(['(a)', '(b)?', '([ab])', '(ż)', '(c|1)', 'a']), 6, 18, 10).map(''.join)), lst(st.sampled_from('aabbcż€.1-'), 0, 22, 9).map(''.join)), wide)
rcase = st.tuples(ptext, st.integers(0, 20), st.sampled_from(OPS), st.lists(st.one_of(st.integers(0, 9), st.sampled_from('xż')), max_size=4))


def regexp(ctx, c):
    (pat, text), n, op, rewrite = c
    p = re.compile(pat, re.A)
    if op == 'full' and n % 2:                   # make it match sometimes
        m = p.search(text)
        text = m.group() if m else text
    if op in ('replace', 'global', 'extract') and any(None in m.groups() for m in p.finditer(text)):
        return                                   # PCRE does not rewrite with groups that took no part
    n = min(n, p.groups, 16 if op != 'variadic' else 8)
    rw = [x if isinstance(x, str) else min(x, p.groups) for x in rewrite]
    r = ctx.v('drv_common', 'regexp', [op, pat, text, n, ''.join(x if isinstance(x, str) else '\\%d' % x for x in rw)])
    groups = lambda m: [(m.group(i) or '').encode() for i in range(1, n + 1)]
    expand = lambda m: ''.join(x if isinstance(x, str) else m.group(x) or '' for x in rw)
    want = [True, p.groups, pat.encode()]
    if op in ('full', 'partial', 'variadic'):
        m = p.fullmatch(text) if op == 'full' else p.search(text)
        want += [bool(m)] + ([groups(m)] if m else [])
        hit = m and n
    elif op in ('consume', 'find'):
        hit = False
        for k in range(50):
            m = p.match(text) if op == 'consume' else p.search(text)
            if not m:
                want.append([False, text.encode()])
                break
            text = text[m.end():]
            want.append([True, groups(m), text.encode()])
            hit = k > 0
    else:
        m = p.search(text)
        hit = m and rw
        if op == 'replace':
            want += [bool(m), (text[:m.start()] + expand(m) + text[m.end():] if m else text).encode()]
        elif op == 'global':
            out, k = p.subn(expand, text)
            want += [k, out.encode()]
        else:
            want += [bool(m), (expand(m) if m else '').encode()]
    equal(r, want, 'regexp %r' % (c,))
    ctx.nontrivial(bool(hit))


# file name patterns

def fits(glob, s):
    return re.fullmatch(''.join('.*' if x == '*' else '.' if x == '?' else re.escape(x) for x in glob), s, re.S) is not None


name = lst(st.sampled_from('aabbcż€.['), 1, 6, 3).map(''.join)
gl = lst(st.sampled_from('aabbcż€.[**??'), 0, 8, 4).map(''.join)


def glob(ctx, c):
    g, names = c
    names = names + [g.replace('*', x).replace('?', y) for x in ('', 'a', 'ż€') for y in ('b', '€')] + [g.replace('*', 'żb').replace('?', 'ż')[1:]]
    r = ctx.v('drv_common', 'util', ['glob', g, names])
    equal(r, [not set('*?') & set(g)] + [fits(g, s) for s in names], 'glob %r of %r' % (g, names))
    ctx.nontrivial('*' in g and any(r[1:]) and not all(r[1:]))


seg = st.sampled_from(['a', 'b', 'ab', 'c.g', 'aż', '.h'])
tree = st.none()
for _ in range(4):
    tree = st.one_of(st.none(), st.dictionaries(seg, tree, min_size=1, max_size=4), st.dictionaries(seg, tree, min_size=2, max_size=4)) if _ < 3 else st.dictionaries(seg, tree, min_size=2, max_size=5)
gseg = st.sampled_from(['a', 'b', 'ab', 'c.g', 'aż', '*', '*', '**', '**', '?', 'a*', '*.g', '?b', 'a?', '*b*'])


def listing(t, pre=()):
    for k, v in t.items():
        yield pre + (k,), isinstance(v, dict)
        if isinstance(v, dict):
            yield from listing(v, pre + (k,))


def path_fits(globs, path):
    if not globs:
        return not path
    if globs[0] == '**':
        return path_fits(globs[1:], path) or (bool(path) and path_fits(globs, path[1:]))
    return bool(path) and fits(globs[0], path[0]) and path_fits(globs[1:], path[1:])


def paths(ctx, c):
    t, globs, absolute = c
    root = os.path.join(scratch(), 'tree')
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    files = []
    for p, isdir in listing(t):
        full = os.path.join(root, *p)
        if isdir:
            os.mkdir(full)
        else:
            open(full, 'w').close()
            files.append(p)
    g = '/'.join(globs)
    eff = globs + ['*'] if globs[-1] == '**' else globs
    want = sorted(os.path.join(root, *p).encode() for p in files if path_fits(eff, p))
    r = ctx.v('drv_common', 'util', ['antglob', os.path.join(root, g) if absolute else g, '/nonexistent' if absolute else root])
    equal(sorted(r), want, 'paths %r in %r' % (g, t))
    ctx.nontrivial(bool(want) and len(want) < len(files))


# distances, digests, limits, escapes, peeking

def lev(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        new = [i + 1]
        for j, y in enumerate(b):
            new.append(min(new[j] + 1, row[j + 1] + 1, row[j] + (x != y)))
        row = new
    return row[-1]


word = lst(st.sampled_from('aabc'), 0, 9, 5).map(''.join)
small = st.integers(-3, 12)
limop = st.one_of(st.tuples(st.just('spec'), small, small), st.tuples(st.just('unlim'), small), st.tuples(st.just('abs'), small), st.tuples(st.just('ask'), small, small), st.tuples(st.just('ask'), small, small))
ncase = st.one_of(
    st.tuples(st.just('lev'), word, word),
    st.tuples(st.just('similar'), word, lst(word, 1, 6, 4)),
    st.tuples(st.just('md5'), st.lists(st.tuples(st.binary(max_size=6), st.sampled_from([1, 1, 7, 8, 9, 20, 64, 1000])).map(lambda x: x[0] * x[1]), max_size=5)),
    st.tuples(st.just('escaped'), lst(st.sampled_from(b'\\\\a"'), 1, 12, 7).map(bytes)),
    st.tuples(st.just('limit'), st.one_of(st.none(), small), lst(limop, 1, 25, 12)),
    st.tuples(st.just('peek'), st.binary(max_size=40), st.integers(1, 3), st.integers(1, 90), st.integers(0, 20)),
    st.tuples(st.just('data'), st.binary(max_size=40), st.sampled_from([1, 3, 500])),
    st.tuples(st.just('symlen'), lst(char, 1, 6, 4).map(''.join)),
    st.tuples(st.just('lemma'), lst(st.sampled_from('ab++_ż'), 0, 8, 5).map(''.join)))


def numbers(ctx, c):
    k = c[0]
    u = lambda *a: ctx.v('drv_common', 'util', list(a))
    if k == 'lev':
        equal(u('lev', c[1], c[2]), lev(c[1], c[2]), 'distance %r' % (c,))
        ctx.nontrivial(c[1] != c[2])
    elif k == 'similar':
        best = min(c[2], key=lambda w: lev(w, c[1]))
        equal(u('similar', c[1], c[2]), best.encode(), 'most similar %r' % (c,))
        ctx.nontrivial(best != c[1])
    elif k == 'md5':
        want = hashlib.md5(b''.join(c[1])).hexdigest().encode()
        equal(u('md5parts', c[1]), want, 'md5 of parts')
        equal(u('md5', b''.join(c[1])), want, 'md5')
        ctx.nontrivial(sum(map(len, c[1])) > 64)
    elif k == 'escaped':
        want, odd = [], False
        for ch in c[1]:
            want.append(odd)
            odd = ch == 92 and not odd if ch == 92 else False
        # a character is escaped when an odd number of backslashes precede it
        want = [(len(c[1][:i]) - len(c[1][:i].rstrip(b'\\'))) % 2 == 1 for i in range(len(c[1]))]
        equal(u('escaped', c[1]), want, 'escaped %r' % c[1])
        ctx.nontrivial(any(want))
    elif k == 'limit':
        specs, limit, want, asked = [], c[1] if c[1] is not None else 1 << 31, [], False
        for op in c[2]:
            if op[0] == 'spec':
                if any(a == op[1] for a, _ in specs):
                    return                    # two limits for the same argument
                specs.append((op[1], op[2]))
            elif op[0] == 'unlim':
                if any(a == op[1] for a, _ in specs):
                    return
                specs.append((op[1], 1 << 31))
            elif op[0] == 'abs':
                limit = op[1]
            else:
                want.append(op[2] <= next((l for a, l in sorted(specs) if a >= op[1]), limit))
        equal(u('limit', c[1], [list(x) for x in c[2]]), want, 'limits %r' % (c,))
        ctx.nontrivial(len(specs) > 1 and len(set(want)) > 1)
    elif k == 'peek':
        data = c[1] * c[2]
        skip = min(c[4], len(data))
        if skip == len(data):
            skip = 0
        rest = data[skip:]
        equal(u('peek', data, c[3], skip), [rest[:c[3]], rest], 'peek %r' % (c,))
        ctx.nontrivial(0 < c[3] < len(rest))
    elif k == 'data':
        data = c[1] * c[2]
        equal(u('data', data), [data, data], 'all data')
        ctx.nontrivial(len(data) > 1)
    elif k == 'symlen':
        b = c[1].encode()
        i = 0
        for ch in c[1]:
            equal(u('symlen', b, i), len(ch.encode()), 'symbol length %r at %d' % (c[1], i))
            i += len(ch.encode())
        ctx.nontrivial(len(b) > len(c[1]))
    else:
        equal(u('lemma', c[1]), re.split(r'\+', c[1])[0].encode(), 'lemma of %r' % c[1])
        ctx.nontrivial('+' in c[1])


# tags of Morfologik
POS = 'adj adja adjp adv num ppron12 ppron3 pred prep siebie subst verb conj qub burk interj interp xxx brev nie ign'.split()
TAGS = {t: k for k, ts in {'number': 'sg pl pltant', 'case': 'nom gen acc dat inst loc voc', 'degree': 'pos comp sup', 'gender': 'm m1 m2 m3 m4 n f n1 n2 p1 p2 p3', 'person': 'pri sec ter', 'depreciativity': 'depr',
                           'winien-like': 'winien', 'negation': 'aff neg', 'aspect': 'perf imperf ?perf', 'accentability': 'nakc akc', 'post-prepositionality': 'praep npraep',
                           'tense': 'ger imps inf fin bedzie praet refl pact pant pcon ppas', 'mode': 'impt pot', 'uninflected': 'indecl', 'irregularity': 'irreg', 'fullstoppedness': 'pun npun', 'vocalicity': 'wok nwok',
                           'agglutination': 'agl nagl', 'accommodability': 'congr rec', 'unknown': '_'}.items() for t in ts.split()}
TAGS.update(dict.fromkeys(POS, 'pos'))
TAGS['pos'] = 'degree'
LEX = {'subst': 'gender', 'verb': 'aspect'}
t1 = st.sampled_from(sorted(TAGS) + ['zz', 'subst', 'verb', 'subst', 'verb'])
same = st.sampled_from([g.split() for g in ['nom gen acc', 'm1 m2 f', 'perf imperf', 'sg pl', 'pri ter sec', 'subst adj', 'zz xx', 'aff neg']]).flatmap(lambda g: st.permutations(g)).flatmap(lambda g: st.integers(1, len(g)).map(lambda n: '.'.join(g[:n])))
mtag = st.tuples(st.sampled_from(POS + ['verb', 'subst', 'subst', 'zz', 'depr', 'fin']), st.lists(st.one_of(t1, same, same), max_size=5)).map(lambda x: ':'.join([x[0]] + x[1]))


def morf(tag):
    d = {}
    for a in tag.split(':'):
        k = TAGS.get(a.split('.')[0])
        if k and k not in d:
            d[k] = a
    every = lambda d: [sorted(x) for x in itertools.product(*[[(k, v) for v in d[k].split('.')] for k in sorted(d)])]
    form = {k: v for k, v in d.items() if k != 'pos' and k != LEX.get(d.get('pos'))}
    pos = next((d[k] for k in ('pos', 'depreciativity', 'tense', 'mode') if d.get(k)), '')
    if pos in ('pact', 'pant', 'pcon', 'ppas'):
        pos = 'verb'
    lex = {'pos': pos}
    if pos in LEX:
        lex[LEX[pos]] = d.get(LEX[pos], '').replace('.', '-')
    return every(d), every(form), [sorted(lex.items())]


def tags(ctx, tag):
    r = ctx.v('drv_common', 'util', ['morfologik', tag])
    got = [[[(k.decode(), v.decode()) for k, v in m] for m in x] for x in r]
    equal(got, list(map(list, morf(tag))), 'tag %r' % tag)
    ctx.nontrivial(len(got[0]) > 1)


# guessing the format
body = lst(st.sampled_from(['Ala', ' ', 'ma', '\n', 'kota', '.', 'żółw', '5', '-', '(x)']), 1, 12, 7).map(''.join)
fcase = st.tuples(st.sampled_from(['psi', 'psi', 'utt', 'html', 'rtf', 'txt']), body, st.lists(st.sampled_from(['# c', '## beg', '', '#']), max_size=3), st.sampled_from([20, 64, 512, 512, 4000, 100000]), st.sampled_from([0, 0, 0, 30, 300]))


def guess(ctx, c):
    kind, text, comments, block, more = c
    args, reader = [], {'psi': 'psi-reader', 'utt': 'utt-reader', 'txt': 'txt-reader'}.get(kind, 'apertium-reader')
    block = max(block, 16)
    if kind == 'psi':
        w = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['read', 'txt-reader', [], text], ['ann', 'tp-tokenizer', ['--lang', 'pl']], ['write', 'psi-writer', ['--no-header']]]])[-1].decode()
        if not w.startswith('01 0000 '):
            return
        data = ''.join(x + '\n' for x in comments) + w + '# end\n' * more
        block = max(block, 60)
    elif kind == 'utt':
        data, p = '0000 00 BOS *\n', 0
        for x in text.split():
            n = len(x)
            data += '%04d %02d W %s\n%04d 01 S _\n' % (p, n, x, p + n)
            p += n + 1
        data += '%04d 00 EOS *\n' % p
    elif kind == 'html':
        args = ['--format', 'html']
        data = '<html><head></head><body>%s</body></html>' % text + ' Ala <b>ma</b>' * more
        block = max(block, 64)
    elif kind == 'rtf':
        args = ['--format', 'rtf']
        data = '{\\rtf1 %s}' % text.encode('ascii', 'ignore').decode() + ' Ala \\b ma' * more
        block = max(block, 64)
    else:
        text = re.sub('[.()-]', '', text)        # libmagic takes some of these for troff
        data = 'Ala ma\n' + text + '\nkota' * more
        block = max(block, 64)
    data = data.encode()
    try:
        data[:block].decode()
    except UnicodeDecodeError:
        data[:block + 1].decode()
        block += 1
    run = lambda name, a: ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['read', name, a, data], ['dump']]])
    r, w = run('guessing-reader', ['--block-size', str(block)]), run(reader, args)
    equal(r, w, '%s in blocks of %d: %r' % (kind, block, data[:300]))
    check(r[-1][0] or not text.strip(), '%r: nothing read', data[:300])
    ctx.nontrivial(kind != 'txt')


TESTS = [Test('cases', ccase, cases, quick=1500),
         Test('regexp', rcase, regexp, quick=6000),
         Test('glob', st.tuples(gl, lst(name, 0, 8, 5)), glob, quick=3000),
         Test('paths', st.tuples(tree, lst(gseg, 1, 5, 3), st.booleans()), paths, quick=3000),
         Test('numbers', ncase, numbers, quick=6000),
         Test('tags', mtag, tags, quick=3000),
         Test('guess', fcase, guess, quick=300)]
