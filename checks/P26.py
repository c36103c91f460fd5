"""Statistical models and small annotators: maxent, metagger, lang-guesser, simplenorm, detok."""
import math, os, re, shutil, unicodedata
from functools import lru_cache
from hypothesis import strategies as st
from lib import latmodel
from lib.latmodel import Lattice, ModelError
from lib.pbt import Test, check, equal, lst
from checks.P16 import scratch
from checks.P19 import build, convert, adds

DRIVERS = ['drv_pipe']
RULE = ('maxent: distributions of a trained model (also saved and read back, as text and binary) against a direct implementation of generalized iterative scaling; weights: the same for models with weights of any '
        'size; metagger: a tagger trained on one lattice and applied to another against a model of both; langguess, norm, detok: against reference models; non-trivial: two outcomes or edges')


# --- generalized iterative scaling
def gis(events, iters, cutoff=1, tol=0.0, sigma2=0.0):
    """(outcomes, weights {predicate: {outcome: weight}}); events: [(((predicate, value)...), outcome, count)]"""
    outs, count = [], {}
    for c, o, n in events:
        if o not in outs:
            outs.append(o)
        k = (tuple(sorted(c)), o)
        count[k] = count.get(k, 0) + n
    evs = [(c, o, n) for (c, o), n in count.items() if n >= cutoff]
    w, obs = {}, {}
    for c, o, n in evs:
        for p, v in c:
            w.setdefault(p, {})[o] = 0.0
            obs[p, o] = obs.get((p, o), 0.0) + n * v
    C = max(sum(v for _, v in c) for c, _, _ in evs)
    N = sum(n for _, _, n in evs)
    old = 99999.0
    for _ in range(iters):
        exp, ll = {}, 0.0
        for c, o, n in evs:
            d = dist(outs, w, c)
            for p, v in c:
                for q in w[p]:
                    exp[p, q] = exp.get((p, q), 0.0) + d[q] * n * v
            ll += math.log(d[o]) * n
        for p in w:
            for q in w[p]:
                if sigma2:
                    w[p][q] += newton(exp[p, q], obs[p, q], w[p][q], C, N, sigma2)
                elif exp[p, q]:
                    w[p][q] += (math.log(obs[p, q]) - math.log(exp[p, q])) / C
        if old and abs((old - ll) / old) < tol:
            break
        old = ll
    return outs, w


def newton(fq, fref, theta, C, N, s2):
    x0 = 0.0
    for _ in range(50):
        t = fq * math.exp(C * x0)
        x = x0 - (t + N * (theta + x0) / s2 - fref) / (t * C + N / s2)
        if abs(x - x0) < 1e-6:
            return x
        x0 = x
    raise ModelError('newton')


def dist(outs, w, c):
    s = {o: 0.0 for o in outs}
    for p, v in c:
        for o, t in w.get(p, {}).items():
            s[o] += t * v
    top = max(s.values())
    e = {o: math.exp(x - top) for o, x in s.items()}
    z = sum(e.values())
    return {o: x / z for o, x in e.items()}


PREDS = ['curr_word=Ala', 'a', 'b', 'ż c', 'd=1,x=2', 'len=3', 'UpperCaseFirst', '12', '#x', 'e']
OUTS = ['subst,case=nom', 'fin', 'ign', 'x y', '7']
value = st.sampled_from([1.0, 1.0, 1.0, 0.5, 2.0, 0.25])
mctx = st.one_of(st.lists(st.tuples(st.sampled_from(PREDS), st.just(1.0)), min_size=1, max_size=5, unique_by=lambda x: x[0]), st.lists(st.tuples(st.sampled_from(PREDS), value), min_size=1, max_size=5, unique_by=lambda x: x[0]))
qctx = st.lists(st.tuples(st.sampled_from(PREDS + ['unseen', '']), st.one_of(st.just(1.0), value)), max_size=6, unique_by=lambda x: x[0])
mcase = st.tuples(lst(st.tuples(mctx, st.sampled_from(OUTS), st.sampled_from([1, 1, 1, 2, 5])), 1, 10, 5), st.sampled_from([0, 1, 2, 5, 15, 60]), st.sampled_from([1, 1, 1, 2]), st.sampled_from([0.0, 0.0, 1e-3, 1e-2]), st.sampled_from([0.0, 0.0, 0.0, 1.0, 10.0]), lst(qctx, 1, 4, 2),
                  st.sampled_from([0, 0, 0, 150, 200]))


def same_answers(got, queries, want, what):
    check(isinstance(got, list) and got[:1] != [b'!'], '%s: %r', what, got)
    for q, d, r in zip(queries, want, got):
        w = '%s, context %r: ' % (what, q)
        ask = OUTS + ['never']
        inorder = [(o.decode(), p) for o, p in r[1]]
        equal({o for o, _ in inorder}, set(d), w + 'outcomes')
        for o, p in inorder:
            check(abs(p - d[o]) <= 1e-6 + 1e-5 * d[o], '%sp(%s) is %r, expected %r', w, o, p, d[o])
        check(abs(sum(p for _, p in inorder) - 1) < 1e-9, '%ssum of %r', w, inorder)
        srt = [(o.decode(), p) for o, p in r[0]]
        check(sorted(srt) == sorted(inorder) and all(a[1] >= b[1] for a, b in zip(srt, srt[1:])), '%snot in order: %r', w, srt)
        p = dict(inorder)
        equal(r[2], [p.get(o, 0.0) for o in ask], w + 'single outcomes')
        for x in r[3:]:
            equal(p[x.decode()], max(p.values()), w + 'the best of %r is not %r' % (p, x))


def maxent(ctx, c):
    events, iters, cutoff, tol, sigma2, queries, many = c
    events = list(events) + [([('o%d' % i, 1.0)], 'o%d' % i, 3) for i in range(many)]
    if not any(sum(n for d, p, n in events if (sorted(d), p) == (sorted(c_), o)) >= cutoff for c_, o, n in events):
        cutoff = 1
    events = events + [([('q' * 5000, 1.0)], 'fin', 1)] if iters == 5 else events
    try:
        outs, w = gis(events, min(iters, 5) if many else iters, cutoff, tol, sigma2)
    except (ModelError, OverflowError):
        ctx.event('no convergence')
        return
    queries = list(queries) + ([[('o3', 1.0), ('a', 1.0)]] if many else [])
    want = [dist(outs, w, q) for q in queries]
    with_dir = scratch()
    os.makedirs(with_dir, exist_ok=True)
    r = ctx.v('drv_pipe', 'maxent', [[[[list(x) for x in c_], o, n] for c_, o, n in events], min(iters, 5) if many else iters, cutoff, tol, sigma2, os.path.join(with_dir, 'm'), [[list(x) for x in q] for q in queries], OUTS + ['never']])
    equal(r[0], None, 'training')
    for a, what in zip(r[1:], ('trained', 'read from text', 'read from a binary file')):
        same_answers(a, queries, want, '%s: events %r, %d iterations' % (what, events[:12], iters))
    equal(r[2], r[1], 'model read from a text file')
    equal(r[3], r[1], 'model read from a binary file')

    ctx.nontrivial(len(outs) > 1 and iters > 0)


wcase = st.tuples(st.lists(st.tuples(st.sampled_from(PREDS + ['p' * 5000]), st.lists(st.tuples(st.sampled_from(OUTS), st.sampled_from([0.5, -0.5, 3.25, -1000.0, -2000.0, 900.0, 1e-3, -745.5])), min_size=0, max_size=5, unique_by=lambda x: x[0]).map(lambda l: l if len(l) != 4 else [(o, dict(l).get(o, -850.0)) for o in OUTS])), min_size=1, max_size=5, unique_by=lambda x: x[0]),
                  lst(qctx, 1, 4, 2))


def weights(ctx, c):
    preds, queries = c
    outs = sorted(OUTS)
    queries = list(queries) + [[(preds[0][0], 1.0)]]
    d = scratch()
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'm')
    text = '#txt,maxent\n%d\n%s%d\n%s%s' % (len(preds), ''.join(p + '\n' for p, _ in preds), len(outs), ''.join(o + '\n' for o in outs),
                                            ''.join('%d %s\n' % (len(ws), ''.join('%d ' % outs.index(o) for o, _ in ws)) for _, ws in preds))
    th = [x for _, ws in preds for _, x in ws]
    text += '%d\n%s' % (len(th), ''.join('%r\n' % x for x in th))
    open(path, 'w').write(text)
    w = {p: dict(ws) for p, ws in preds}
    r = ctx.v('drv_pipe', 'maxentload', [path, [[list(x) for x in q] for q in queries], OUTS + ['never']])
    same_answers(r, queries, [dist(outs, w, q) for q in queries], 'model %r' % text)

    ctx.nontrivial(len(th) > 1)


# --- metagger
WORDS = ['Ala', 'ma', 'kota', 'żółty', '15', '3,5', 'IBM', '.', '-', 'przeczytałem', 'A1']
POS = [('subst', (('case', 'nom'), ('number', 'sg'))), ('subst', (('case', 'acc'), ('number', 'sg'))), ('fin', (('number', 'sg'),)), ('interp', ()), ('ign', ()), ('qub', ()), ('adj', (('case', 'nom'), ('number', 'sg'))), ('adj', (('case', 'nom'),)),
       ('card', ()), ('name', ())]
form = st.tuples(st.sampled_from(['ala', 'mieć', 'kot', 'x']), st.integers(0, len(POS) - 1), st.sampled_from([0, 0, 0, 0, 1]))
mtok = st.tuples(st.sampled_from(WORDS), st.lists(form, max_size=3), st.sampled_from([1, 1, 1, 0]), st.sampled_from(['T', 'T', 'T', 'I']), st.sampled_from(['', '', '', '', 'end']))
mtoks = lst(mtok, 1, 6, 4)
gcase = st.tuples(mtoks, mtoks, st.sampled_from([1, 3, 8]), st.sampled_from([[], [], ['subst', 'adj'], ['qub']]), st.booleans(), st.booleans())


def tagged(toks, segments):
    """the lattice with forms: model and operations"""
    m, ops, h = Lattice(''), [], []
    text = ''.join(w + ' ' * sp for w, _, sp, _, _ in toks)
    m.text = text.encode()
    m.add_symbols(0, len(m.text))
    ops.append(['appendsym', text])

    def add(a, z, item, tags, seq):
        e = m.add(a, z, item, tags, seq)
        ops.append(['add', a, z, [item[0], item[1], [list(x) for x in item[2]]], tags, [next(i for i, x in enumerate(h) if x is y) for y in seq], 0.0, -1, -1])
        h.append(e)
        return e
    # the attributes are seen in the same order in every lattice
    add(0, len(m.text), ('all', '', (('case', 'x'), )), ['frag'], [])
    add(0, len(m.text), ('all', '', (('number', 'x'), )), ['frag'], [])
    pos, seg = 0, 0
    for k, (w, forms, sp, cat, end) in enumerate(toks):
        z = pos + len(w.encode())
        t = add(pos, z, (cat, w, ()), ['token', '!pl'], [])
        for lemma, f, disc in forms:
            p, avs = POS[f]
            le = add(pos, z, ('word', lemma, ()), ['lemma', '!pl'], [t])
            lx = add(pos, z, (p, lemma + '+' + p, ()), ['lexeme', '!pl'], [le])
            fe = add(pos, z, (p, w, avs), ['form', '!pl'], [lx])
            if disc and b'discarded' not in fe.tags:
                m.add_part(fe, ['discarded'], [], -latmodel.DBL_MAX)
                ops.append(['discard', next(i for i, x in enumerate(h) if x is fe)])
        if sp:
            add(z, z + 1, ('B', ' ', ()), ['token', '!pl'], [])
            z += 1
        pos = z
        if segments and (end or k == len(toks) - 1):
            add(seg, pos, ('sen', '', ()), ['segment', '!pl'], [])
            seg = pos
    return m, ops


class Tagger:
    def __init__(self, m, open_classes=(), inflector=False):
        self.m, self.open, self.inf = m, list(open_classes), inflector

    def segments(self):
        s = [(e.src, e.tgt) for e in self.m.by_source([['segment', '!pl']])] or [(0, len(self.m.text))]
        return [self.tokens(a, z) for a, z in s]

    def tokens(self, v, end):
        r = []
        while v < end:
            t = self.m.out(v, [['token', '!pl']])
            if not t:
                v += 1
                continue
            if t[0].cat != b'B':
                r.append(t[0])
            v = t[0].tgt
        return r

    def forms(self, t, discarded=False):
        return [f for f in self.m.out(t.src, [['form', '!pl']]) if discarded or b'discarded' not in f.tags]

    def lexeme(self, f):
        x = f.parts[0][4][0]
        return x.text.decode() if b'lexeme' in x.tags else None

    def pos(self, f):
        if self.inf:
            return f.cat.decode()
        x = self.lexeme(f)
        return x.split('+', 1)[1] if x and '+' in x else 'ign'

    def tag(self, f):
        return ','.join([self.pos(f)] + ['%s=%s' % (k.decode(), v.decode()) for k, v in f.avs])

    def word(self, t):
        return self.m.edge_text(t)

    def context(self, toks, i):
        t = toks[i]
        w = self.word(t)
        s = w.decode()
        c = {b'curr_word=' + w, b'curr_word_length=%d' % len(w)}

        def forms(t, p):
            for f in [] if self.inf else self.forms(t):
                c.add(('%s_has_tag=%s' % (p, self.tag(f))).encode())
                c.add(('%s_has_lemma=%s' % (p, self.lexeme(f).split('+')[0])).encode())
        forms(t, 'curr')
        lu = lambda x: unicodedata.category(x) == 'Lu'
        letter = any(unicodedata.category(x)[0] == 'L' for x in s)
        digit = re.search('[0-9]', s)
        for on, n in ((lu(s[0]), 'UpperCaseFirst'), (all(map(lu, s)), 'UpperCaseAll'), (digit, 'ContainsNumber'), (re.match(r'[0-9]+[.,][0-9]+%?$', s), 'IsNumber'), (letter, 'ContainsLetter'),
                      (digit and self.punct(s), 'ContainsPunctAndNumber'), (not letter and not digit, 'ContainsNoLetterAndNoNumber')):
            if on:
                c.add(n.encode())
        if len(w) > 6:
            c |= {b'curr_prefix=' + w[:n] for n in (1, 2, 3)} | {b'curr_suffix=' + w[-n:] for n in (1, 2, 3, 4)}
        for p, j in (('prev1', max(i - 1, 0)), ('next1', min(i + 1, len(toks) - 1))):
            c.add(p.encode() + b'_word=' + self.word(toks[j]))
            forms(toks[j], p)
        return c

    def punct(self, s):
        return re.search(r'[.,;:?!<>%&\'\-"/()\[\]+=_*$#@~|{}\\]', s)

    def events(self):
        r = []
        for toks in self.segments():
            for i, t in enumerate(toks):
                c = self.context(toks, i)
                if i and self.forms(toks[i - 1]):
                    c.add(('prevtag=' + self.tag(self.forms(toks[i - 1])[-1])).encode())
                if self.forms(t):
                    r.append(([(p, 1.0) for p in c], self.tag(self.forms(t)[0]), 1))
        return r

    def run(self, outs, w):
        for toks in self.segments():
            tags = []
            for i, t in enumerate(toks):
                c = self.context(toks, i)
                if i and tags[-1]:
                    c.add(('prevtag=' + tags[-1]).encode())
                d = dist(outs, w, [(p, 1.0) for p in c])
                cands = []
                for f in self.forms(t):
                    if self.pos(f) == 'ign':
                        if self.inf:
                            continue
                        s = self.word(t).decode()
                        cands += ['card', 'name'] if self.punct(s) or re.search('[0-9]', s) else self.open
                    else:
                        cands.append(self.tag(f))
                cands = [x for x in dict.fromkeys(cands) if x in d] or list(outs)
                best = max(d[x] for x in cands)
                top = [x for x in cands if d[x] > best * (1 - 1e-6)]
                if len(top) > 1:
                    raise ModelError('tie')
                tags.append(top[0])
            for t, tag in zip(toks, tags):
                self.apply(t, tag)

    def apply(self, t, tag):
        m = self.m
        pos, avs = tag.split(',')[0], [tuple(x.split('=', 1)) for x in tag.split(',')[1:]]
        kept = False
        fits = lambda e: all((k.decode(), v.decode()) in avs for k, v in e.avs)
        for f in self.forms(t):
            if self.pos(f) == pos and (fits(f) if f.avs else not avs):
                kept = True
            else:
                m.add_part(f, ['discarded'], [], -latmodel.DBL_MAX)
        if kept or t.cat != b'T' or self.inf:
            return
        lex = [x for x in m.out(t.src, [['lexeme', '!pl']]) if x.cat.decode() == pos and fits(x)]
        if lex:
            x = lex[0]
        else:
            w = self.word(t)
            has = lambda: [y for y in m.out(t.src, [['lemma', '!pl']]) if y.text == w]
            if not has():
                m.add(t.src, t.tgt, ('word', w, ()), ['lemma'], [t])
            x = m.add(t.src, t.tgt, (pos, w.decode() + '+' + pos, ()), ['lexeme'], [has()[0]])
        m.add(t.src, t.tgt, (x.cat, w_ if (w_ := self.word(t)) else '', tuple(avs)), ['form'], [x])


def metagger(ctx, c, name='metagger'):
    train, test, iters, openc, segs, text = c
    m1, ops1 = tagged(train, segs)
    m2, ops2 = tagged(test, segs)
    inf = name == 'inflector'
    ev = Tagger(m1, (), inf).events()
    if not ev:
        ctx.event('nothing to learn')
        return
    outs, w = gis(ev, iters)
    before = m2.dump()
    tr = Tagger(m2, openc, inf)
    try:
        tr.run(outs, w)
    except ModelError as e:
        ctx.event(e.typ)
        return
    d = scratch()
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'm')
    args = ['--lang', 'pl', '--model', path]
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops1], ['ann', '=' + name, args + ['--train', '--iterations', str(iters)] + (['--save-text-model-files'] if text else [])],
                                         ['new', ''], ['ops', ops2], ['dump'], ['ann', '=' + name, args + (['--open-class-labels'] + openc if openc else [])], ['dump']]])
    check(r[2] is None, 'training on %r: %r', train, r[2])
    equal(r[5], before, 'the lattice of %r' % (test,))
    check(r[6] is None, 'tagging %r: %r', test, r[6])
    want = m2.dump()
    what = '%s trained on %r and applied to %r' % (name, train, test)
    for a, b in zip(r[7][3], want[3]):
        check(a == b, '%s:\n  got      %r\n  expected %r', what, a, b)
    equal(r[7], want, what)

    ctx.nontrivial(len(outs) > 1 and want != before)


def inflector(ctx, c):
    metagger(ctx, c, 'inflector')


# --- lang-guesser
LETTERS = [('de', 'äöüßÄÖÜ'), ('en', ''), ('pl', 'ąćęłńóśźżĄĆĘŁŃÓŚŹŻ'), ('ru', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюяАБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ')]
SIZE, FACTOR = 512, 509


@lru_cache(None)
def table(repo, lang):
    return [float(x) for x in open('%s/tools/recognizers/langguesser/data/%slang.i' % (repo, lang)).read().split()]


lword = st.sampled_from(['ala', 'żółw', 'über', 'кот', 'the', 'ma', 'ąę', 'Straße', 'é', 'kota', 'zażółć', 'and', 'und', 'który', 'не', '€', 'x'])
lmixed = st.text(alphabet='aaäżяé', min_size=1, max_size=3)         # letters of several languages in one word
lfrag = st.tuples(st.one_of(lst(lword, 0, 9, 3), lst(lmixed, 1, 5, 2.5)), st.sampled_from([' ', ' ', ' ', '  ', '']), st.sampled_from(['', '', ' ']), st.sampled_from(['', '', '', ' ', '  ', '.']))
lcase = st.tuples(lst(lfrag, 1, 4, 2), st.booleans(), st.sampled_from([None, None, 'none', 'en', 'zz']), st.sampled_from([None, None, None, ['pl', 'en'], ['en', 'de'], ['ru'], ['de', 'ru', 'pl'], ['hsb'], ['en']]))


def frequencies(text):
    cp = [ord(c.lower()) if c.isascii() else ord(c) for c in text]
    n = [0] * SIZE
    if len(text.encode()) >= 2:
        for a, b in list(zip(cp, cp[1:]))[:-1]:         # the last pair of a text isn't counted
            n[(a * FACTOR + b * FACTOR * FACTOR) % 2 ** 32 % SIZE] += 1
    return [x / (sum(n) or 1) for x in n]


def guess(text, langs, force, default, forced):
    if forced:
        return forced

    def bigrams():
        if not text:
            return None
        f = frequencies(text)
        d = sorted((sum((x - y) ** 2 for x, y in zip(f, table(os.environ.get('PSI_REPO', '/repo'), lang))), lang) for lang, _ in langs)
        if len(d) > 1 and d[1][0] - d[0][0] < 1e-12:
            raise ModelError('tie')
        return d[0][1]

    def letters():
        words = [w for w in text.split(' ') if w]
        for lang, ls in langs:
            if ls and words and all(any(c in ls for c in w) for w in words):
                return lang
    short = len(text.encode()) < 24
    g = letters() if short else bigrams()
    if not g and force:
        g = langs[0][0] if len(langs) == 1 else short and bigrams() or langs[0][0] if short else None
    return g or (None if default == 'none' else default or 'xx')


def langguess(ctx, c):
    frags, force, default, only = c
    texts = [p + sep.join(ws) + q for ws, sep, p, q in frags]
    text = '\n'.join(texts)
    if not text:
        return
    forced = only[0] if only and force and len(only) == 1 else None
    langs = LETTERS if not only or forced else [(x, dict(LETTERS).get(x)) for x in only]
    args = (['--force'] if force else []) + (['--default-language', default] if default else []) + (['--only-langs'] + only if only else [])
    m, ops, h, pos = Lattice(''), [], [], 0
    m.text = text.encode()
    m.add_symbols(0, len(m.text))
    ops.append(['appendsym', text])
    for t in texts:
        z = pos + len(t.encode())
        if t:
            h.append((m.add(pos, z, ('FRAG', t, ()), ['frag'], []), t))
            ops.append(['add', pos, z, ['FRAG', t, []], ['frag'], [], 0.0, -1, -1])
        pos = z + 1
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops], ['ann', 'lang-guesser', args], ['dump']]])
    if any(ls is None for _, ls in langs):
        check(r[2] is not None, '%r accepted', args)
        return
    check(r[2] is None, 'lang-guesser %r on %r: %r', args, texts, r[2])
    n = set()
    try:
        for e, t in h:
            g = guess(t, langs, force, default, forced)
            n.add(g)
            if g:
                m.add(e.src, e.tgt, ('TEXT', t, ()), ['!' + g, 'text', 'lang-guesser'], [e])
    except ModelError:
        ctx.event('tie')
        return
    equal(r[3], m.dump(), 'lang-guesser %r on %r' % (args, texts))
    ctx.nontrivial(len(n) > 1)


# --- simplenorm
nword = st.sampled_from(['a', 'ż', 'b', 'ab', 'aż', 'nie', ' ', 'bb'])
nrule = st.tuples(nword, st.sampled_from(['a', 'B', 'że', 'n i', '', 'nie', 'ab']), st.sampled_from(['', '', '', '\tx']))
ntok = st.tuples(st.integers(0, 6), st.sampled_from([1, 1, 1, 2, 3]), st.tuples(st.sampled_from(['T'] * 6 + ['B', 'I']), st.sampled_from([None, None, 'q', 'B', '']), st.just(())), st.sampled_from([['token', '!pl']] * 8 + [['token', '!en'], ['token'], ['form', '!pl'],
                 ['simplenorm', 'normalization', '!pl'], ['token', 'x', '!pl']]), st.none(), st.none())
ncase = st.tuples(st.text(alphabet='abż ', min_size=1, max_size=7), lst(ntok, 1, 12, 7), lst(nrule, 0, 9, 6), st.booleans())


def norm(ctx, c):
    text, toks, rules, last = c
    d = scratch()
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'rules.tsv')
    s = '\n'.join('%s\t%s%s' % x for x in rules) + ('\n' if last and rules else '')
    open(path, 'w').write(s)
    table = {a.encode(): b for a, b, _ in rules}

    def model(m):
        for e in m.by_source([['token', '!pl']]):
            t = m.edge_text(e)
            if e.cat == b'T' and t in table:
                m.add(e.src, e.tgt, ('T', table[t], ()), ['simplenorm', 'normalization', '!pl'], [])
    convert(ctx, text, toks, '=simplenorm-normalizer', ['--lang', 'pl', '--rules', path], model)



# --- detok
dtok = st.tuples(st.sampled_from(['Ala', 'ma', '.', ',', '(', ')', '!?', '...', '-', '[a', 'żó', '', '}', '5', 'x(']), st.sampled_from([['token', '!pl'], ['token', '!pl'], ['token', '!pl'], ['token', '!pl', 'transferer'], ['token', '!en'], ['ttoken', '!pl']]))
dcase = st.tuples(st.sampled_from(['', 'ab c']), lst(dtok, 0, 12, 5), st.integers(0, 10 ** 6), st.sampled_from([0, 1, -3, 400]), st.booleans())


def detok(ctx, c):
    text, toks, order, base, spans = c
    m, ops = Lattice(''), []
    if text:
        m.text = text.encode()
        m.add_symbols(0, len(m.text))
        ops.append(['appendsym', text])
    where = list(range(len(toks)))
    for i in range(len(where) - 1, 0, -1):
        order, j = divmod(order, i + 1)
        where[i], where[j] = where[j], where[i]
    out = {}
    for (t, tags), w in zip(toks, where):
        p = base + w * 2
        avs = (('SurfacePosition', str(p)),)
        if spans and text:
            a, z = w % 3, w % 3 + 1
            if any(e.src == a and e.text == t.encode() and e.cat == b'T' and e.avs == avs for e in m.edges):
                continue
        else:
            ops += [['loose'], ['loose']]
            a, z = m.add_loose(m.loose + 0.25), m.add_loose(m.loose + 0.5)
        ops.append(['add', a, z, ['T', t, [list(x) for x in avs]], tags, [], 0.0, -1, -1])
        m.add(a, z, ('T', t, avs), tags, [])
        if 'token' in tags and '!pl' in tags:
            out[p] = t
    s = ''
    for k, p in enumerate(sorted(out)):
        t = out[p]
        if k and t and s and t[0] not in '.,;:)]}!?' and s[-1] not in '([{':
            s += ' '
        s += t
    r = ctx.v('drv_pipe', 'chain', ['', [['new', ''], ['ops', ops], ['ann', 'detok', ['--lang', 'pl']], ['dump']]])
    check(r[2] is None, 'detok on %r: %r', toks, r[2])
    texts = [e[0] for e in r[3][3] if e[0][2] == b'TEXT']
    equal(len(r[3][3]), len(m.edges) + 1, 'number of edges')
    equal(texts, [[-m.loose - 1, -m.loose - 2, b'TEXT', s.encode(), [b'!pl', b'text'], [], 0.0]], 'detok on %r in the order %r' % (toks, where))
    ctx.nontrivial(len(out) > 1)


TESTS = [
    Test('maxent', mcase, maxent, quick=1500),
    Test('weights', wcase, weights, quick=1500),
    Test('metagger', gcase, metagger, quick=1500),
    Test('inflector', gcase, inflector, quick=1500),
    Test('langguess', lcase, langguess, quick=1500),
    Test('norm', ncase, norm, quick=1000),
    Test('detok', dcase, detok, quick=1000),
]
