"""Converters: selector, antiselector, joiner and tagset converter against reference models."""
import os
from hypothesis import strategies as st
from lib.latmodel import Lattice, ModelError, planes, mask_matches
from lib.pbt import Test, check, equal, lst
from checks.P06 import canon, shown
from checks.P16 import scratch

DRIVERS = ['drv_pipe']
RULE = ('a random layered lattice (edges over words with parents, conditions, tags of several planes, edges that coincide after conversion) is converted by selector, antiselector, joiner or '
        'by the tagset converter with generated rules, and the whole lattice is compared with that of a reference model; non-trivial: the converter added at least two edges')
TEXT = st.text(alphabet='ab żc', min_size=1, max_size=7)


def build(text, adds):
    """the model and the operations that make the lattice"""
    m, ops, h = Lattice(''), [], []
    m.text = text.encode()
    m.add_symbols(0, len(m.text))
    ops.append(['appendsym', text])
    B = m.bounds()
    for i, n, item, tags, par, two in adds:
        i %= len(B) - 1
        j = min(len(B) - 1, i + n)
        src, tgt = B[i], B[j]
        it = (item[0], item[1] if item[1] is not None else text.encode()[src:tgt].decode(), item[2])
        seq = []
        cand = [e for e in h if (e.src, e.tgt) == (src, tgt)]
        if par is not None and cand:
            seq = [cand[par % len(cand)]]
            if two is not None:         # a longer way: a piece and what follows it
                a = [e for e in h if e.src == src and e.tgt < tgt]
                if a:
                    a = a[two % len(a)]
                    b = [e for e in h if (e.src, e.tgt) == (a.tgt, tgt)]
                    if b:
                        seq = [a, b[two % len(b)]]
        try:
            e = m.add(src, tgt, it, tags, seq)
        except ModelError:
            continue
        ops.append(['add', src, tgt, [it[0], it[1], [list(x) for x in it[2]]], list(tags), [h.index(x) for x in seq], 0.0, -1, -1])
        h.append(e)
    return m, ops


def mask(spec):
    return [[t.strip() for t in a.split(',')] for a in spec.split(';')]


def convert(ctx, text, adds, name, args, model):
    m, ops = build(text, adds)
    before, n = m.dump(), len(m.live())
    tags = [e.tags for e in m.edges]
    exc = None
    try:
        model(m)
    except ModelError as e:
        exc = e.typ
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops], ['dump'], ['ann', name, args], ['dump']]])
    equal(r[2], before, 'the lattice of %r' % ops)
    if exc:
        check(isinstance(r[3], list) and r[3][0:1] == [b'!'] and exc in r[3][1].decode(), '%s %r on %r: expected %s, got %r', name, args, ops, exc, r[3])
        ctx.event('refused')
        return
    check(r[3] is None, '%s %r on %r: %r', name, args, ops, r[3])
    w = m.dump()
    for a, b in zip(r[4][3], w[3]):
        check(a == b, '%s %r on %r:\n  got      %r\n  expected %r', name, args, ops, a, b)
    equal(r[4], w, '%s %r on %r' % (name, args, ops))
    ctx.nontrivial(len(m.live()) - n + sum(a != e.tags for a, e in zip(tags, m.edges)) > 1)


CONDS = ['*', 'N', 'N|V', 'num=sg', 'N&num=sg', 'V|N&num=sg', 'num=sg&case=acc|X', 'X', 'N&', '|', 'num=sg=x', 'X|*', 'fail']
sel_item = st.tuples(st.sampled_from(['N', 'V', 'B', 'T', 'B']), st.sampled_from([None, 'ala', 'b', 'a']),
                     st.one_of(st.just(()), st.sampled_from(CONDS).map(lambda c: (('condition', c),)), st.sampled_from(CONDS).map(lambda c: (('condition', c),)), st.sampled_from([(('num', 'sg'),), (('num', 'sg'), ('case', 'acc')), (('num', '7'),)])))
sel_tags = st.sampled_from([['token'], ['token'], ['conditional'], ['conditional'], ['conditional', 'form'], ['form'], ['form', 'x'], ['morfologik', 'token'], ['x'], ['token', '!pl'], ['conditional', '!pl'], ['iayko', '!pl'], ['selected', 'x']])
adds = lambda item, tags: lst(st.tuples(st.integers(0, 9), st.sampled_from([1, 1, 1, 2, 2, 3]), item, tags, st.one_of(st.none(), st.integers(0, 5)), st.one_of(st.none(), st.none(), st.integers(0, 5))), 1, 14, 8)
opt = lambda xs: st.one_of(st.none(), st.sampled_from(xs))
sel_case = st.tuples(TEXT, adds(sel_item, sel_tags), opt(['form', 'conditional,form', 'conditional;form', 'conditional', 'x']), opt(['form', 'token;form', 'x;iayko', 'token,morfologik', 'token']), opt(['form', 'token', 'x;form', 'no']),
                     opt(['selected', 'selected,token', '!pl,out', 'out,selected']), st.booleans())


def selector(ctx, case):
    text, ad, inn, fb, test, out, blank = case
    args = []
    for k, v in (('--in-tag', inn), ('--fallback-tag', fb), ('--test-tag', test), ('--out-tags', out)):
        args += [k, v] if v else []
    args += ['--with-blank'] if blank else []
    inm, fbm, tm, outt = mask(inn or 'conditional'), mask(fb or 'token'), mask(test) if test else None, (out or 'selected,token').split(',')

    def satisfied(m, e):
        cond = dict(e.avs).get(b'condition')
        if cond is None or cond in (b'fail', b'*'):
            return True
        for t in m.out(e.src, tm):
            if t.tgt != e.tgt:
                continue
            facts = {t.cat} | {k + b'=' + v for k, v in t.avs}
            if any(all(c in facts for c in alt.split(b'&')) for alt in cond.split(b'|')):
                return True
        return False

    def model(m):
        for v in m.vertices():
            f = m.out(v, fbm)
            if not f:
                continue
            f = f[0]
            res = []
            for e in m.out(v, inm):
                seq, ok = [], True
                while True:
                    if not satisfied(m, e):
                        ok = False
                        break
                    seq.append(e)
                    if e.tgt == f.tgt:
                        break
                    nxt = m.out(e.tgt, inm)
                    if not nxt:
                        break
                    e = nxt[0]
                if ok:
                    res += seq
            ctx.event('selected' if res else 'fallback')
            new = [(e.src, e.tgt, e.cat, e.text, e.avs) for e in res] or [(f.src, f.tgt, f.cat, m.text[f.src:f.tgt] if b'morfologik' in f.tags else f.text, f.avs)]
            for a, z, c, t, avs in new:
                if blank or c != b'B':
                    m.add(a, z, (c, t, avs), outt)
    convert(ctx, text, ad, 'selector', args, model)


anti_case = st.tuples(TEXT, adds(sel_item, sel_tags), opt(['form', 'conditional;form', 'x', 'conditional,form']), opt(['form', 'token;x', 'x', 'token,!pl']), opt(['tonorm', '!pl,tonorm', 'selected,tonorm']), st.booleans())


def antiselector(ctx, case):
    text, ad, inn, fb, out, blank = case
    args = []
    for k, v in (('--in-tag', inn), ('--fallback-tag', fb), ('--out-tags', out)):
        args += [k, v] if v else []
    args += ['--with-blank'] if blank else []
    if not out:
        args += ['--out-tags', 'selected,out']

    def model(m):
        for v in m.vertices():
            i = 0
            while True:         # the edges found may grow as edges are added
                es = m.out(v, mask(fb or 'token'))
                if i >= len(es):
                    break
                e = es[i]
                i += 1
                if not any(x.tgt == e.tgt for x in m.out(v, mask(inn or 'conditional'))) and (blank or e.cat != b'B'):
                    m.add(e.src, e.tgt, (e.cat, e.text, e.avs), (out or 'selected,out').split(','))
    convert(ctx, text, ad, 'antiselector', args, model)


j_item = st.tuples(st.sampled_from(['lexeme', 'N', 'V', 'prep']), st.sampled_from([None, 'ala', 'w+prep', 'a']), st.sampled_from([(), (), (('num', 'sg'),), (('num', 'pl'), ('case', 'acc')), (('P', 'bier'),), (('num', '3'), ('Typ', 'w')), (('a', 'nil'),)]))
j_tags = st.sampled_from([['lexeme', '!pl'], ['lexeme', '!pl'], ['form', '!pl'], ['form', '!pl'], ['form', 'g', '!pl'], ['valency', '!pl'], ['valency', '!pl'], ['valency', 'g', '!pl'], ['form', '!en'], ['valency', '!en'], ['form', 'valency', '!pl']])
j_case = st.tuples(TEXT, adds(j_item, j_tags), st.sampled_from(['form', 'form,g', 'form;valency', 'form', 'g']), st.sampled_from(['valency', 'valency', 'g,valency', 'valency;g', 'form']),
                   st.sampled_from(['out,!parse', 'parse-terminal,!parse,!pl', 'out,!pl', 'out', 'out,!xx']), st.booleans(), st.booleans(), st.sampled_from([None, '--take-left-attributes', '--take-right-attributes']), st.booleans(), st.booleans())


def joiner(ctx, case):
    text, ad, lm, rm, out, rtext, rcat, attrs, noouter, ext = case
    args = ['--lang', 'pl', '--left-mask', lm, '--right-mask', rm, '--out-tags', out] + (['--take-right-text'] if rtext else []) + (['--take-right-category'] if rcat else []) + ([attrs] if attrs else []) \
        + (['--no-outer-join'] if noouter else []) + (['--extended-outer-join'] if ext else [])
    L, R, O = [a + ['!pl'] for a in mask(lm)], [a + ['!pl'] for a in mask(rm)], out.split(',')
    seen = []

    def model(m):
        for v in m.vertices():
            i = 0
            while True:
                es = m.out(v, L)
                if i >= len(es):
                    break
                e = es[i]
                i += 1
                par = next((x for p in e.parts for x in p[4]), None)
                right = []
                if par is not None:
                    if (par.src, par.tgt) != (e.src, e.tgt):
                        seen.append(1)          # whose brothers are not those of its span
                        return
                    right = [c for c in m.out(par.src, R) if c.tgt == par.tgt for p in c.parts for x in p[4] if x is par]
                for r in right:
                    avs = dict((r if attrs == '--take-right-attributes' else e).avs)
                    if not attrs:
                        avs.update(r.avs)
                    ctx.event('joined')
                    m.add(e.src, e.tgt, ((r if rcat else e).cat, (r if rtext else e).text, tuple(avs.items())), O, [e, r])
                if ext or not right and not noouter:
                    ctx.event('outer')
                    if planes(e.tags) == planes(frozenset(t.encode() for t in O)):
                        m.add_part(e, O)
                    else:
                        m.add(e.src, e.tgt, (e.cat, e.text, e.avs), O, [e])
    m0, _ = build(text, ad)
    try:
        model(m0)
    except ModelError:
        pass
    if seen:
        return
    convert(ctx, text, ad, 'joiner', args, model)


CATS, ATTRS, VALS = ['subst', 'adj', 'N', 'V', 'noun'], ['number', 'case', 'L', 'P', 'gender'], ['sg', 'pl', '1', '2', 'nil', 'acc', 'bier', 'x y', 'fail']
WORDS = ['ala', 'b', 'kot', 'żaba']
t_item = st.tuples(st.sampled_from(CATS), st.sampled_from(['ala', 'b', 'kot+subst', 'żaba', 'ala+adj', None]), st.lists(st.tuples(st.sampled_from(ATTRS), st.sampled_from(VALS)), max_size=3, unique_by=lambda x: x[0]).map(tuple))
t_tags = st.sampled_from([['src'], ['src', 'lexeme'], ['src', 'form'], ['src', 'form', '!pl'], ['lexeme'], ['src', 'tgt'], ['form', '!pl'], ['src', 'x']])
word = st.sampled_from(['subst', 'noun', 'sg', 'one', 'acc', 'bier', 'x'])
mapping = st.one_of(st.tuples(st.just('cat'), st.sampled_from(CATS), st.sampled_from(CATS + ['noun', 'rzecz'])), st.tuples(st.just('attr'), st.sampled_from(ATTRS), st.sampled_from(['L', 'P', 'Rp'])),
                    st.tuples(st.just('val'), st.sampled_from(['sg', 'pl', '1', 'acc', 'x']), st.sampled_from(['1', 'bier', 'sg', 'any', '-1', 'ż'])))
cond = st.one_of(st.tuples(st.just('CAT'), st.sampled_from(CATS)), st.tuples(st.sampled_from(ATTRS + ['Rp', 'R']), st.sampled_from(VALS)), st.lists(st.sampled_from(WORDS), min_size=1, max_size=3, unique=True).map(tuple).map(lambda w: ('words',) + w))
cval = st.sampled_from(['sg', 'pl', '0', '-1', '$L', '$P', '$CAT', 'nowy', '7', 'any', 'x y'])
command = st.tuples(st.sampled_from(['CAT', 'CAT'] + ATTRS + ['R', 'Rp']), st.lists(cval, min_size=1, max_size=1))
breed = st.tuples(st.sampled_from(['CAT'] + ATTRS + ['R']), st.lists(cval, min_size=2, max_size=3))
commands = st.one_of(st.just('SKIP'), st.lists(command, min_size=1, max_size=3), st.tuples(st.lists(command, max_size=2), breed, st.lists(command, max_size=2)).map(lambda x: x[0] + [x[1]] + x[2]))
t_rule = st.tuples(st.just('rule'), st.lists(cond, min_size=1, max_size=3, unique_by=lambda c: c[0]), commands, st.sampled_from([' ', '', '  ']))
line = st.one_of(mapping, mapping, t_rule, t_rule, t_rule, st.sampled_from([('#', 'komentarz'), ('#', 'CAT = N >> SKIP'), ('',), ('',)]))
t_case = st.tuples(TEXT, adds(t_item, t_tags), st.lists(st.sampled_from(['lexeme', 'form', 'x', '!pl']), max_size=3, unique=True), lst(line, 1, 9, 5), st.booleans())


def tagset(ctx, case):
    text, ad, keep, lines, endl = case
    out = ['@source src', '@target tgt'] + (['@tags ' + ' '.join(keep)] if keep else [])
    maps, rules = {'cat': {}, 'attr': {}, 'val': {}}, []
    for ln in lines:
        if ln[0] in maps:
            out.append('@%s\t%s  %s' % ln)
            maps[ln[0]].setdefault(ln[1], ln[2])
        elif ln[0] == 'rule':
            _, conds, cmds, sp = ln
            out.append((sp + ',' + sp).join(' '.join(c[1:]) if c[0] == 'words' else c[0] + sp + '=' + sp + c[1] for c in conds) + sp + '>>' + sp
                       + (cmds if cmds == 'SKIP' else (sp + ',' + sp).join(c + sp + '=' + sp + '|'.join(v) for c, v in cmds)))
            rules.append((conds, cmds))
        else:
            out.append(''.join(ln))
    path = os.path.join(scratch(), 'rules.u')
    open(path, 'w').write('\n'.join(out) + ('\n' if endl else ''))
    target = ['tagset-converter', 'tgt']
    clash = []

    def sval(avs, a):
        return shown(avs[a]).decode() if a in avs else 'fail'

    def apply(conds, cmds, items):
        new = []
        for it in items:
            if it is None:
                continue
            words = [c for c in conds if c[0] == 'words']
            if words and it[1].split('+')[0] not in [w for c in words for w in c[1:]]:
                continue
            if not all(it[0] == c[1] if c[0] == 'CAT' else sval(it[2], c[0]) == c[1] for c in conds if c[0] != 'words'):
                continue
            if cmds == 'SKIP':
                it[3] = True
                continue
            ctx.event('rule')
            all_ = [it]
            for c, vs in cmds:
                copies = [[x[0], x[1], dict(x[2]), False] for _ in vs[1:] for x in all_]
                if copies:
                    ctx.event('alternatives')
                n = len(all_)
                new += copies
                all_ = all_ + copies
                for k, x in enumerate(all_):
                    v = vs[k // n]
                    if c == 'CAT':
                        x[0] = sval(x[2], v[1:]) if v[0] == '$' else v
                    else:
                        x[2][c] = x[2].get(v[1:], False) if v[0] == '$' else True if v == '0' else False if v == '-1' else canon(v)
        return [x for x in items + new]

    def model(m):
        repl = {}
        for v in m.vertices():
            i = 0
            while True:
                es = m.out(v, [['src']])
                if i >= len(es):
                    break
                e = es[i]
                i += 1
                tags = [t.decode() for t in e.tags if t.decode() in keep] + target
                avs = {}
                for a, x in e.avs:
                    a, x = a.decode(), canon(x.decode())
                    a2 = maps['attr'].get(a, a)
                    if a2 in avs:
                        clash.append(1)         # which one stays depends on which attribute was ever seen first
                    s = shown(x).decode()
                    avs[a2] = canon(maps['val'][s]) if s in maps['val'] and x is not False else x
                items = [[maps['cat'].get(e.cat.decode(), e.cat.decode()), e.text.decode(), avs, False]]
                for conds, cmds in rules:
                    items = [x and (None if x[3] else x) for x in apply(conds, cmds, items)]
                alone = len(items) == 1         # only such edges replace the ones they were made from
                items = [x for x in items if x]
                if len(items) > 200:
                    clash.append(1)
                    return
                parts = list(e.parts)
                for p in parts:
                    seq = [repl.get(id(x), x) for x in p[4]]
                    for it in items:
                        n = m.add(e.src, e.tgt, (it[0], it[1], tuple((k, shown(y)) for k, y in it[2].items())), tags, seq)
                        if alone:
                            repl.setdefault(id(e), n)
    m0, _ = build(text, ad)
    try:
        model(m0)
    except ModelError:
        pass
    if clash:
        return
    convert(ctx, text, ad, '=tagset-converter', ['--lang', 'pl', '--rules', path], model)


TESTS = [Test('selector', sel_case, selector, quick=4000), Test('antiselector', anti_case, antiselector, quick=2500), Test('joiner', j_case, joiner, quick=4000), Test('tagset', t_case, tagset, quick=4000)]
