"""Lexica: stores, lexicon files, the mapper and the bilingual lexicon."""
import os
from hypothesis import strategies as st
from lib.latmodel import mask_matches
from lib.pbt import Test, check, equal, lst
from checks.P16 import scratch
from checks.P19 import build, convert, adds, TEXT

DRIVERS = ['drv_pipe']
RULE = ('store: key-value stores of generated entries (a dictionary in Python says what they hold), asked for every key and for strings near the keys, before and after saving and loading; vector: '
        'string vectors and number vectors against lists; base: lexicon files (comments, escapes, blanks, several records of a key anywhere, broken lines) against a Python reading; mapper, bilexicon: '
        'a random lattice is mapped with a generated lexicon (plain, binary, saved and loaded) and options and compared as a whole with a reference model; non-trivial: three entries, or two edges added')
key = st.one_of(st.text(alphabet='abż', max_size=3), st.text(alphabet='ab', max_size=6), st.text(max_size=5).filter(lambda s: '\0' not in s), st.integers(0, 400).map(str)).filter(lambda s: not any(0xd800 <= ord(c) < 0xe000 for c in s))
val = st.one_of(key, key, st.tuples(st.sampled_from(['x', 'ż', 'ab']), st.sampled_from([255, 256, 1000, 65535, 65536, 70000])).map(lambda x: x[0] * x[1]))
entries = st.one_of(lst(st.tuples(key, val), 1, 60, 8), st.tuples(st.sampled_from([1, 2, 3, 20, 127, 128, 1000, 5000]), st.sampled_from(['k', 'kluczż', '']), st.sampled_from(['v', '', 'żółw'])).map(lambda x: [('%s%d' % (x[1], i), x[2] * (i % 7)) for i in range(x[0])]))


def near(keys):
    r = []
    for k in keys[:80]:
        r += [k, k + 'a', k[:-1], k[1:], k + ' ', k.upper()]
    return list(dict.fromkeys(r + ['', 'brak', 'x' * 300]))


def store(ctx, case):
    d = dict(case)
    q = list(d) + near(list(d))
    path = os.path.join(scratch(), 's.bin')
    r = ctx.v('drv_pipe', 'lex', ['store', [list(x) for x in d.items()], q, path])
    want = [d[k].encode() if k in d else None for k in q]
    for i, what in enumerate(['built', 'loaded', 'saved and loaded again']):
        for k, g, w in zip(q, r[i], want):
            check(g == w, 'key %r of a store of %d entries, %s: got %r, expected %r', k, len(d), what, g, w)
    r = ctx.v('drv_pipe', 'lex', ['hash', list(d), q, path])
    equal(r[:2], [len(d)] * 2, 'size')
    equal(r[2], r[3], 'loaded')
    equal(sorted(r[2][:len(d)]), list(range(len(d))), 'hashes of the keys')
    for k, h in zip(q, r[2]):
        check((h < len(d)) == (k in d), 'hash of %r', k)
    ctx.nontrivial(len(d) >= 3)
    ctx.event('big' if len(d) > 100 else 'small')


strings = st.one_of(st.lists(val, max_size=70), st.lists(key, max_size=50).map(sorted), st.lists(key, max_size=50, unique=True).map(lambda x: sorted(x, key=str.encode)))
steps = st.sampled_from([0, 0, 1, 1, 2, 10, 254, 255, 256, 257, 511, 65534, 65535, 65536, 131071, 1000000])
vcase = st.tuples(strings, st.lists(steps, max_size=120), st.sampled_from(['c25', 's20', 'c2', 'i7']))


def vector(ctx, case):
    ss, ds, kind = case
    path = os.path.join(scratch(), 'v.bin')
    b = [s.encode() for s in ss]
    q = b + [b'zzz', b'', b'a', b'ab']
    srt = all(x < y for x, y in zip(b, b[1:]))
    for r in ctx.v('drv_pipe', 'lex', ['vec', ss, q, path]):
        equal(r[1], b, 'strings')
        equal(r[2], b, 'iterated')
        equal(r[3], b, 'iterated as strings')
        check(not r[0] or all(x <= y for x, y in zip(b, b[1:])), 'said to be sorted: %r', b)
        for s, i in zip(q, r[4]):
            if s in b:
                check(i < len(b) and b[i] == s, '%r found at %d of %r', s, i, b)
            elif not r[0]:
                equal(i, len(b), '%r not found' % s)
    ns, x = [], 0
    for d in ds:
        x += d
        ns.append(x)
    for r in ctx.v('drv_pipe', 'lex', ['mono', kind, ns, path]):
        equal(r, ns, 'numbers')
    ctx.nontrivial(len(ss) > 2 and len(ns) > 2)
    ctx.event(*(['sorted'] if srt else []))


# lexicon files

KEYS = ['kot', 'pies', 'kot+subst', 'ala', 'b', 'a', 'duży kot', 'ab', 'żab', 'N', 'ala,N', 'ala,N,num=sg', 'N,case=acc,num=sg', 'a*b', 'c\\d', 'x_y', 'b,N', 'a,V', 'num=sg', 'case=acc,num=sg']
FIELD = st.sampled_from(['cat+subst', 'dog', 'V', 'Ala', 'x=1', 'x', 'a=b,c', 'x,y=z=q', 'num=pl', 'big cat', 'a*b', 'a_b', 'c\\d', 'kot', 'żółw+N+x', '+', 'x+', 'r;s', 'm+x;n+y'])
GAP = st.sampled_from([' ', '\t', '  ', ' \t '])
entry = st.tuples(st.just('entry'), st.sampled_from(KEYS), st.lists(FIELD, min_size=1, max_size=4), GAP, st.sampled_from(['', '', '', ' ', '\t', '\t \t']), st.sampled_from(['', '', '', ' ', '# koment', ' # a b', '\t']))
lexline = st.one_of(entry, entry, entry, entry, st.sampled_from([('raw', ''), ('raw', '# komentarz'), ('raw', '  # x y'), ('raw', '   '), ('raw', '\t')]))
broken = st.sampled_from([('bad', 'samo'), ('bad', 'samo # x y'), ('bad', '  samo'), ('bad', 'a\\q b'), ('bad', 'a b\\')])
lexicon = lst(lexline, 1, 14, 6)
lcase = st.tuples(lexicon, st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 20), broken)), st.booleans())


def esc(s):
    return s.replace('\\', '\\\\').replace('_', '\\_').replace(' ', '_')


def lexfile(lines, end=True):
    """the text of the file, and what it means"""
    out, d = [], {}
    for ln in lines:
        if ln[0] == 'entry':
            _, k, fs, gap, lead, trail = ln
            out.append(lead + gap.join([esc(k)] + [esc(f) for f in fs]) + trail)
            d.setdefault(k, []).append('\t'.join(fs))
        else:
            out.append(ln[1])
    return '\n'.join(out) + ('\n' if end else ''), {k: ';'.join(v).split(';') for k, v in d.items()}


def base(ctx, case):
    lines, bad, end = case
    if bad is not None:
        i = bad[0] % (len(lines) + 1)
        lines = lines[:i] + [bad[1]] + lines[i:]
    text, d = lexfile(lines, end)
    p = os.path.join(scratch(), 'l.txt')
    open(p, 'w').write(text)
    q = list(dict.fromkeys(KEYS + near(list(d))))
    r = ctx.v('drv_pipe', 'lex', ['base', p, q, os.path.join(scratch(), 'l.bin')])
    if bad is not None:
        check(r[0] == b'!', 'a broken file is taken: %r', text)
        ctx.event('refused')
        return
    check(r[0] != b'!', 'refused %r: %r', text, r)
    equal([r[0], r[1]], [True, False], 'emptiness')
    for k, g, h in zip(q, r[2], r[3]):
        w = [x.encode() for x in d.get(k, [])]
        check(g == w, 'key %r of %r: got %r, expected %r', k, text, g, w)
        equal(h, w, 'loaded: key %r of %r' % (k, text))
    ctx.nontrivial(len(d) >= 3)


# the mapper

m_item = st.tuples(st.sampled_from(['N', 'V', 'B']), st.sampled_from(['ala', 'b', 'a', 'kot', 'kot+subst', 'duży kot', None, 'x_y']), st.sampled_from([(), (), (('num', 'sg'),), (('num', 'sg'), ('case', 'acc')), (('x', '3'),), (('num', 'sg'), ('a', 'b'), ('case', 'acc')), (('num', 'pl'), ('x', 'ż'), ('case', 'acc'), ('a', '2'))]))
m_tags = st.sampled_from([['t'], ['t'], ['t', 'u'], ['u'], ['t', '!pl'], ['out'], ['lexeme', '!pl'], ['t', 'out']])
opt = lambda xs: st.one_of(st.none(), st.none(), st.sampled_from(xs))
flag = st.sampled_from([False, False, False, True])
m_case = st.tuples(TEXT, adds(m_item, m_tags), lexicon, st.sampled_from(['t', 't,u', 'u', 't,!pl']), st.sampled_from(['out', 'out', 'out,u', 't,out', 't', '!en,out']), st.tuples(st.booleans(), st.booleans(), st.booleans()),
                   st.tuples(flag, flag, flag), st.tuples(opt(['T', 'x y']), opt(['C']), opt(['p=q,r', 'num=5'])), st.tuples(flag, flag, flag), st.tuples(opt(['UT']), opt(['UC']), opt(['u=v,w', 'num'])), st.booleans(), st.sampled_from(['plain', 'binary']), lst(st.tuples(st.integers(0, 9), st.lists(FIELD, min_size=1, max_size=4)), 1, 6, 3), st.sampled_from([False] * 19 + [True]))


def attrs(s):
    return [(p.split('=', 1) if '=' in p else [p, '1']) for p in s.split(',')]


def mkey(e, ct, cc, ca):
    return ','.join(([e.text.decode()] if ct else []) + ([e.cat.decode()] if cc else []) + (sorted(('%s=%s' % (k.decode(), x.decode()) for k, x in e.avs), key=str.encode) if ca else []))


def mapper(ctx, case):
    text, ad, lines, inn, out, (ct, cc, ca), clone, sets, uclone, usets, addattr, how, fill, conflict = case
    if not conflict:
        ct = ct or not (cc or ca)
        sets = [None if c else x for c, x in zip(clone, sets)]
        usets = [None if c else x for c, x in zip(uclone, usets)]
    m0, _ = build(text, ad)
    for i, fs in fill:
        es = [e for e in m0.edges if not e.implicit and mask_matches([inn.split(',')], e.tags)]
        if es:
            k = mkey(es[i % len(es)], ct, cc, ca)
            if k and k[0] != '#':
                lines = lines + [('entry', k, fs, ' ', '', '')]
    content, d = lexfile(lines)
    path, binary = os.path.join(scratch(), 'm.txt'), os.path.join(scratch(), 'm.bin')
    open(path, 'w').write(content)
    args = ['--lang', 'pl', '--in-tags', inn, '--out-tags', out]
    names = ['text', 'category', 'attributes']
    args += ['--consider-' + n for n, x in zip(names, (ct, cc, ca)) if x] + ['--clone-' + n for n, x in zip(names, clone) if x] + ['--unknown-clone-' + n for n, x in zip(names, uclone) if x]
    for pre, vs in (('--set-', sets), ('--unknown-set-', usets)):
        for n, v in zip(names, vs):
            args += [pre + n, v] if v is not None else []
    args += ['--add-attributes'] if addattr else []
    refused = not (ct or cc or ca) or any(x and y is not None for x, y in list(zip(clone, sets)) + list(zip(uclone, usets)))
    src = ['--plain-text-lexicon', path]
    if not refused and how != 'plain':
        r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ann', '=mapper', args + src + ['--save-binary-lexicon', binary]]]])
        equal(r[1], None, 'saving')
        os.remove(path)
        src = ['--binary-lexicon', binary]
    if refused:
        r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ann', '=mapper', args + src]]])
        check(isinstance(r[1], list) and b'xception' in r[1][1], '%r is not refused: %r', args, r)
        ctx.event('refused')
        return
    outt = out.split(',')

    def model(m):
        for v in m.vertices():
            for e in m.inn(v, [inn.split(',')]):
                own = [(k.decode(), x.decode()) for k, x in e.avs]
                recs = d.get(mkey(e, ct, cc, ca))
                if recs is None and not (any(uclone) or any(x is not None for x in usets)):
                    continue
                ctx.event('known' if recs else 'unknown')
                for rec in recs or [None]:
                    av = {}
                    if rec is None:
                        t = e.text.decode() if uclone[0] else usets[0] if usets[0] is not None else 'unknown'
                        c = e.cat.decode() if uclone[1] else usets[1] if usets[1] is not None else 'unknown'
                        av.update(own if uclone[2] else [])
                        av.update(attrs(usets[2]) if usets[2] is not None else [])
                    else:
                        f = rec.split('\t')
                        t = e.text.decode() if clone[0] else sets[0] if sets[0] is not None else f[0]
                        c = e.cat.decode() if clone[1] else sets[1] if sets[1] is not None else f[1] if len(f) > 1 else rec
                        av.update(own if clone[2] else [])
                        av.update(attrs(sets[2]) if sets[2] is not None else [])
                        av.update(attrs(f[2]) if addattr and len(f) > 2 else [])
                    m.add(e.src, e.tgt, (c, t, tuple(av.items())), outt, [e])
    convert(ctx, text, ad, '=mapper', args + src, model)


b_case = st.tuples(TEXT, adds(m_item, st.sampled_from([['lexeme', '!pl'], ['lexeme', '!pl'], ['lexeme', '!en'], ['t', '!pl'], ['lexeme', 'morfologik', '!pl']])), lexicon, st.sampled_from(['plain', 'binary']), st.sampled_from(['en', 'xx']))


def bilexicon(ctx, case):
    text, ad, lines, how, trg = case
    content, d = lexfile(lines)
    path, binary = os.path.join(scratch(), 'b.txt'), os.path.join(scratch(), 'b.bin')
    open(path, 'w').write(content)
    args = ['--lang', 'pl', '--trg-lang', trg]
    src = ['--plain-text-lexicon', path]
    if how != 'plain':
        r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ann', '=bilexicon', args + src + ['--save-binary-lexicon', binary]]]])
        equal(r[1], None, 'saving')
        os.remove(path)
        src = ['--binary-lexicon', binary]

    def model(m):
        for v in m.vertices():
            for e in m.inn(v, [['lexeme', '!pl']]):
                for rec in d.get(e.text.decode(), []):
                    ctx.event('translated')
                    m.add(e.src, e.tgt, (rec.split('+', 1)[1] if '+' in rec else rec, rec, ()), ['lexeme', 'bilexicon', '!translation', '!' + trg], [e])
    convert(ctx, text, ad, '=bilexicon', args + src, model)


def options(ctx, case):
    """what cannot be done is refused"""
    name, kind, at = case
    at = os.path.join(scratch(), at)
    p = os.path.join(scratch(), 'o.txt')
    open(p, 'w').write('kot cat+subst\npies dog+subst\n')
    common = ['--lang', 'pl', '--trg-lang', 'en'] if name == 'bilexicon' else ['--lang', 'pl', '--in-tags', 't', '--out-tags', 'out', '--consider-text']
    plain = ['--plain-text-lexicon', p]
    binary = os.path.join(scratch(), 'o.bin')
    ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ann', '=' + name, common + plain + ['--save-binary-lexicon', binary]]]])
    args = {'both': plain + ['--binary-lexicon', binary], 'unwritable': plain + ['--save-binary-lexicon', at], 'missing': ['--plain-text-lexicon', at], 'missing binary': ['--binary-lexicon', at],
            'fine': ['--binary-lexicon', binary], 'fine plain': plain, 'resaved': ['--binary-lexicon', binary, '--save-binary-lexicon', binary + '2']}[kind]
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', [['appendsym', 'kot'], ['add', 0, 3, ['N', 'kot', []], ['lexeme', 't', '!pl'], [], 0.0, -1, -1]]], ['ann', '=' + name, common + args], ['write', 'simple-writer', ['--tags', 'bilexicon' if name == 'bilexicon' else 'out']]]])
    if 'fine' in kind or kind == 'resaved':
        equal(r[2], None, '%s with %r' % (name, args))
        equal(r[3].strip(), b'cat+subst', 'mapped')
        if kind == 'resaved':
            equal(open(binary, 'rb').read(), open(binary + '2', 'rb').read(), 'saved again')
    else:
        check(isinstance(r[2], list) and b'xception' in r[2][1], '%s with %r is not refused: %r', name, args, r[2])
        ctx.event(kind)
    ctx.nontrivial()


ocase = st.tuples(st.sampled_from(['bilexicon', 'mapper']), st.sampled_from(['both', 'unwritable', 'missing', 'missing binary', 'fine', 'fine plain', 'resaved']), st.sampled_from(['nie/ma/takiej', 'o.txt/x', '/dev/null/x']))
TESTS = [Test('options', ocase, options, quick=150), Test('store', entries, store, quick=900), Test('vector', vcase, vector, quick=1500), Test('base', lcase, base, quick=2500), Test('mapper', m_case, mapper, quick=4000), Test('bilexicon', b_case, bilexicon, quick=1500)]
