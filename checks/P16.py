"""tp-tokenizer: rule files and tokens."""
import os, re, tempfile, shutil, atexit
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from lib.drvclient import R

DRIVERS = ['drv_pipe']
RULE = ('rules: a rule file (definitions, definitions in definitions, conditionals, includes, comments, here-documents) is generated together with what it means, '
        'a text is tokenized and compared with a Python tokenizer (last rule first, longest alternative as the pattern has it); languages: texts of '
        'natural-looking fragments with the rules of every language (tiling, categories, restart at each token boundary); broken: rule files with '
        'mistakes are refused or used, never worse; non-trivial: at least two rules or three tokens took part')
_dir = [None]


def scratch():
    if _dir[0] is None or _dir[0][0] != os.getpid():
        _dir[0] = (os.getpid(), tempfile.mkdtemp(prefix='tp', dir='/dev/shm'))
        import multiprocessing.util
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(_dir[0][1], True), exitpriority=10)
    return _dir[0][1]


NAMES = ['CYFRA', 'LITERA', 'ZNAK', 'ABA', 'CYF']        # CYF begins CYFRA
ATOMS = [('[0-9]', '[0-9]'), ('[a-z]', '[a-z]'), ('[A-Z]', '[A-Z]'), ('a', 'a'), ('b', 'b'), ('1', '1'), ('ż', 'ż'), ('\\.', '\\.'), ('-', '-'), ('\\ ', ' '),
         ('(?:a|bb)', '(?:a|bb)'), ('(?:ab|a)', '(?:ab|a)'), ('[ab]', '[ab]'), ('€', '€')]
HARD = [('\\#', '\\#'), ('\\@', '@'), ('\\\\', '\\\\')]
LOOK = [('(?=b)', '(?=b)'), ('(?!a)', '(?!a)'), ('(?=\\.)', '(?=\\.)')]
quant = st.sampled_from(['', '', '', '+', '?', '*', '{2}'])
atom = st.sampled_from(ATOMS)
piece = st.one_of(st.tuples(atom, quant), st.tuples(atom, quant), st.tuples(st.sampled_from(NAMES), st.sampled_from(['', '', '', '+', '?', '{2}'])), st.tuples(st.sampled_from(LOOK), st.just('')))
rpiece = st.one_of(piece, piece, piece, st.tuples(st.sampled_from(HARD), quant))
body = st.lists(piece, min_size=1, max_size=3)
words = st.lists(st.sampled_from(['ab', 'ba', 'Ab', 'b', 'żb']), min_size=1, max_size=3, unique=True)
rule = st.tuples(st.just('rule'), st.sampled_from(['T', 'I', 'X', 'Long_cat']), atom, st.lists(rpiece, max_size=3), st.booleans(), st.one_of(st.none(), st.none(), st.none(), words), st.sampled_from([' ', '  ', '\n\t', '']))
define = st.tuples(st.just('def'), st.sampled_from(NAMES), body)
leaf = st.one_of(rule, rule, define, define, st.tuples(st.just('comment'), st.sampled_from(['komentarz', '@rule zzz/Q := a', 'x @ y # z', '<<END'])), st.tuples(st.just('include'), st.sampled_from(['f1', 'f2']), st.booleans()))
node = st.recursive(leaf, lambda ch: st.tuples(st.just('if'), st.booleans(), st.sampled_from(NAMES + ['BRAK']), st.lists(ch, max_size=3), st.one_of(st.none(), st.lists(ch, max_size=3))), max_leaves=6)
program = lst(node, 1, 8, 5)
TEXT = st.text(alphabet='aab1 2AB.-ż€#@\\\n', min_size=1, max_size=14)
case = st.tuples(program, st.lists(leaf.filter(lambda x: x[0] != 'include'), max_size=3), st.lists(leaf.filter(lambda x: x[0] != 'include'), max_size=3), lst(TEXT, 1, 4, 3))


def src(p, q):
    return '(?:%s)%s' % (p, q) if isinstance(p, str) and q else (p if isinstance(p, str) else p[0]) + q


class Sim:
    def __init__(self, files):
        self.files, self.defs, self.rules, self.names, self.incl = files, {}, [], 0, set()
        self.loop = self.nodes = 0

    def sub(self, body, depth=0):
        """the meaning of a body with the definitions of now"""
        r = ''
        for p, q in body:
            if isinstance(p, str):
                # the longest name that is defined, the rest stays as it is
                if q:
                    r += '(?:' + self.sub([(p, '')], depth) + ')' + q
                    continue
                k = [n for n in self.defs if p.startswith(n)]
                if not k:
                    # some name inside?
                    r += self.inside(p, depth) + q
                else:
                    n = max(k, key=len)
                    if depth > 12:
                        self.loop = 1
                        return ''
                    r += self.sub(self.defs[n], depth + 1) + p[len(n):] + q
            else:
                r += p[1] + q
        return r

    def inside(self, p, depth):
        return p

    def write(self, nodes, live):
        out = ''
        for x in nodes:
            self.nodes += 1
            if x[0] == 'comment':
                out += '# %s\n' % x[1]
            elif x[0] == 'def':
                if x[1] in self.defs and live or live and any(isinstance(p, str) and (p == x[1] or p not in self.defs) for p, q in x[2]):
                    continue            # the first definition counts; names of names must be defined before
                out += '@def %s %s%s\n' % (x[1], ''.join(src(p, q) for p, q in x[2]), ' # uwaga' if len(x[2]) > 1 else '')
                if live:
                    self.defs[x[1]] = x[2]
            elif x[0] == 'rule':
                _, cat, first, rest, par, hd, sp = x
                body = [(first, '')] + list(rest)
                self.names += 1
                pat = sp.join(src(p, q) for p, q in body)
                py = self.sub(body)
                if hd:
                    pat += ' <<END\n%s\nEND\n' % '\n'.join(hd)
                    py += '(?i:%s)\\.(?![^\\W\\d_])' % '|'.join(hd)
                out += '@rule regula%d/%s := %s%s\n' % (self.names, cat, pat, [' # uwaga', '# u@w"a', '#\\'][(len(rest) + len(cat)) % 3] if par and not hd else '')
                if live:
                    self.rules.append((cat, py))
            elif x[0] == 'include':
                if x[1] in self.incl:
                    continue
                out += '@include "%s"\n' % x[1] if x[2] else '@include %s\n' % x[1]
                if live:
                    self.incl.add(x[1])
                    self.out[x[1]] = self.write(self.files[x[1]], True)
            elif x[0] == 'if':
                cond = (x[2] in self.defs) == x[1]
                out += '@%s %s\n' % ('ifdef' if x[1] else 'ifndef', x[2])
                out += self.write(x[3], live and cond)
                if x[4] is not None:
                    out += '@else\n' + self.write(x[4], live and not cond)
                out += '@endif\n'
        return out


def tokens(rules, text):
    res = [(c, re.compile('(?:' + p + ')')) for c, p in reversed(rules)]
    r, i = [], 0
    while i < len(text):
        for c, p in res:
            m = p.match(text[i:])
            if m and m.end() > 0:
                r.append((c, m.group()))
                i += m.end()
                break
        else:
            r.append(('X', text[i]))
            i += 1
    return r



def got_tokens(dump, lang):
    text, nv, es = dump
    t = sorted((e[0], e[1], e[2].decode(), e[3].decode('utf-8')) for e in es if b'token' in e[4])
    for e in es:
        if b'token' in e[4]:
            equal(sorted(e[4]), sorted([b'token', b'!' + lang.encode()]), 'tags of %r' % (e,))
            check(text[e[0]:e[1]] == e[3], 'text of %r is not %r', e, text[e[0]:e[1]])
    return t


def put(t, lang):
    return ['ops', [['appendsym', t], ['add', 0, len(t.encode()), ['TEXT', t, []], ['text', '!' + lang], [], 0.0, -1, -1]]]


def tile(t, text, what):
    pos = 0
    for a, z, c, x in t:
        check(a == pos and z > a, '%s: tokens %r do not tile %r', what, t, text)
        pos = z
    check(pos == len(text.encode()), '%s: tokens %r do not reach the end of %r', what, t, text)


def rules(ctx, case):
    prog, f1, f2, texts = case
    s = Sim({'f1': f1, 'f2': f2})
    s.out = {'f1': '', 'f2': ''}
    main = '@rule main_regex/main_regex := .+\n' + s.write(prog, True)
    if s.loop:
        return
    d = scratch()
    for n, c in (('main', main), ('f1', s.out['f1']), ('f2', s.out['f2'])):
        with open(os.path.join(d, n + '.rgx'), 'w') as f:
            f.write(c)
    lang = 'en'
    args = ['--lang', 'en', '--rules', d + '/main.rgx', '--mapping', 'f1=%s/f1.rgx;f2=%s/f2.rgx' % (d, d)]
    steps = []
    ctx.v('drv_pipe', 'forget', [])
    for t in texts:
        steps += [['new', ''], put(t, lang), ['ann', 'tp-tokenizer', args], ['dumpi']]
    try:
        res = ctx.v('drv_pipe', 'chain', ['', steps])
    finally:
        ctx.v('drv_pipe', 'forget', [])
    info = 'rules:\n%s\nf1:\n%s\nf2:\n%s' % (main, s.out['f1'], s.out['f2'])
    for k, t in enumerate(texts):
        x = res[4 * k + 2:4 * k + 4]
        for y in x:
            check(not (isinstance(y, list) and y[:1] == [b'!']), 'threw %r\n%s', y, info)
        g = got_tokens(x[1], 'en')
        equal([(c, w) for a, z, c, w in g], tokens(s.rules, t), 'tokens of %r with %s\nmeaning %r' % (t, info, s.rules))
        tile(g, t, info)
    ctx.nontrivial(len(s.rules) > 1)
    ctx.event(*(['definitions'] if s.defs else []), *(['included'] if s.incl else []), *(['here-document'] if '<<END\n' in main else []), *(['else'] if '@else' in main else []))


LANGS = ['de', 'en', 'es', 'fi', 'fr', 'it', 'pl', 'ru', 'se', 'tr', 'xx']
FRAGS = ['Ala', 'ma', 'kota', ' ', ' ', ' ', '.', ',', '!', '?!', '1st', '12', '1.000', '3,14', 'prof.', 'e.g.', 'np.', 'z o.o.', 'U.S.A.', 'http://a.bc/d', 'a@b.pl', '10:30', '2011-01-02', '12.04.2011', 'I\'m',
         'l\'été', 'd\'', 'привет', 'ĄĆŻ', 'ß', '€', '$5', '%', '(', ')', '"', '„', '”', '-', ' - ', '--', '–', '...', '…', 'C:\\x.txt', 'XIV', 'x86', '+48 61 829', '<b>', '</b>', '\n', '\t', '𝄞', '日本', '\u00a0', '\u0301',
         'aaa-bbb', 'don\'t', 'km/h', 'AT&T', '#1', '½', '²', '\u200b', '\x01', '<=', '=>', 'z\'', '1/2', 'III.', 'zł', 'Mr.', 'Dr.', 'ul.', '5-6', 'a', 'B']
ltext = st.one_of(lst(st.sampled_from(FRAGS), 1, 14, 9).map(''.join), st.text(alphabet=''.join(sorted(set(''.join(FRAGS)))), min_size=1, max_size=20))
lim = st.sampled_from([None, None, None, (5, 3), (10, 6), (4, 4), (30, 10)])
lcase = st.tuples(st.sampled_from(LANGS), ltext, lim)


def languages(ctx, case):
    lang, text, lm = case
    args = ['--lang', lang] + (['--token-length-hard-limit', str(lm[0]), '--token-length-soft-limit', str(lm[1])] if lm else [])
    read = lambda t: [['new', ''], put(t, lang), ['ann', 'tp-tokenizer', args], ['dumpi']]
    x = ctx.v('drv_pipe', 'chain', ['', read(text)])
    check(x[2] is None, 'threw %r', x[2])
    g = got_tokens(x[3], lang)
    tile(g, text, lang)
    for a, z, c, w in g:
        check(lm or (c == 'B') == (not w.strip(' \n\r\t\f\u00a0\u2028\u2029\u3000\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u202f\u205f')), 'blank category: %r in %r', (c, w), g)
        check(c in ('T', 'B', 'I', 'X'), 'category %r in %r', c, g)
        if lm:
            check(z - a <= lm[0], 'token longer than the hard limit: %r', g)
    # the tokens from a token boundary on are the tokens of the rest
    steps, cuts = [], []
    for a, z, c, w in g[1:] if not lm else []:       # the rest of a token that was cut is no token
        cuts.append(a)
        steps += read(text.encode()[a:].decode())
    y = ctx.v('drv_pipe', 'chain', ['', steps]) if steps else []
    for k, a in enumerate(cuts):
        h = got_tokens(y[4 * k + 3], lang)
        equal([(p + a, q + a, c, w) for p, q, c, w in h], [t for t in g if t[0] >= a], 'tokens of %r (%s) from %d on' % (text, lang, a))
    ctx.nontrivial(len(g) > 2)
    ctx.event(lang, *(['cut'] if lm and any(z - a == lm[0] for a, z, c, w in g) else []))


JUNK = ['@rule ', 'ab/', 'T := ', 'a+', '(', '[', '@def ', 'X ', 'X', '@ifdef ', '@ifndef ', '@else\n', '@endif\n', '@include ', '"', 'f1', '\n', '\n', ' ', '#', '\\', '@', '<<END', 'END\n', '\\#', 'main_regex/main_regex := .+\n', '\\@rule ', ')', ':=', '/']
junk = st.tuples(lst(st.sampled_from(JUNK), 1, 16, 10).map(''.join), st.booleans(), st.sampled_from(['', '@rule ab/T := a+\n', '@else\n']))


def broken(ctx, case):
    body, withmain, f1 = case
    d = scratch()
    with open(d + '/main.rgx', 'w') as f:
        f.write(('@rule main_regex/main_regex := .+\n' if withmain else '') + body)
    with open(d + '/f1.rgx', 'w') as f:
        f.write(f1)
    x = ctx.v('drv_pipe', 'chain', ['', [put('aab a#X', 'en'), ['ann', '=tp-tokenizer', ['--lang', 'en', '--rules', d + '/main.rgx', '--mapping', 'f1=%s/f1.rgx' % d]], ['dumpi']]])
    if x[1] is None:
        tile(got_tokens(x[2], 'en'), 'aab a#X', repr(body))
        ctx.event('used')
        ctx.nontrivial(any(k in body for k in ('@rule', '@def', '@if')))
    else:
        check(b'*' not in x[1][1], 'threw something that is not an exception: %r\n%r', x[1], body)
        ctx.event('refused')
        ctx.nontrivial()


TESTS = [Test('rules', case, rules, quick=4000), Test('languages', lcase, languages, quick=4000), Test('broken', junk, broken, quick=4000)]
