"""Pipelines: how they are written, completed and run."""
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from lib.drvclient import Crash

DRIVERS = ['drv_pipe']
RULE = ('spelling: a pipeline is written as a string (with any quoting), as a list, as a command line, with full names and with aliases, with and without its default '
        'parts; each spelling gives what the processors give one after another; plan: the completed form of pipelines of arbitrary processors (reader first, '
        'writer last, given elements in order, every required tag provided before, one language throughout); runs: interleaved runs of several pipelines on many '
        'inputs, each compared with a run of its own, and line-by-line runs with the runs of the lines; broken: malformed pipelines are refused with an '
        'exception; non-trivial: at least two processors besides reader and writer, or an argument that needs quoting')

READ = ['txt-reader', 'read', 'read-txt', 'read-text', 'text-reader']
ANN = {'tok': ('tp-tokenizer', ['tp-tokenizer', 'tokenize', 'tokenise', 'tokenizer', 'tokeniser', 'token-generator', 'tp-tokenize']),
       'seg': ('srx-segmenter', ['srx-segmenter', 'segment', 'segmenter', 'segment-generator']),
       'norm': ('simplenorm-normalizer', ['simplenorm-normalizer', 'simplenorm', 'simple-normalizer']),
       'sel': ('selector', ['selector'])}
WR = {'simple-writer': ['simple-writer', 'write', 'write-simple'], 'psi-writer': ['psi-writer', 'write-psi', 'write-lattice'],
      'json-simple-writer': ['json-simple-writer', 'write-simple-json'], 'bracketing-writer': ['bracketing-writer'], 'dot-writer': ['dot-writer', 'write-dot']}
XML = ['--skip-symbol-edges', '--opening-bracket', '\n<edge tags="%T" category="%c" attrs="%A">', '--closing-bracket', '</edge>\n', '--av-separator', ':', '--av-pairs-separator', ';']
SHALLOW = {'write-tokens': ('simple-writer', ['--tags', 'token']), 'get-tokens': ('simple-writer', ['--tags', 'token']), 'write-segments': ('simple-writer', ['--tags', 'segment']),
           'get-segments': ('simple-writer', ['--tags', 'segment']), 'write-selected': ('simple-writer', ['--tags', 'selected', '--sep', ' ', '--no-alts']),
           'get-selected': ('simple-writer', ['--tags', 'selected', '--sep', ' ', '--no-alts']), 'write-xml': ('bracketing-writer', XML), 'xml-writer': ('bracketing-writer', XML),
           'get-xml': ('bracketing-writer', XML),
           'write-forms': ('bracketing-writer', ['--tags', 'form', '--show-only-tags', '0', '--opening-bracket', '\n', '--closing-bracket', ' %T%*{ }{(%c %*[|][%A])}'])}
LANGS = ['pl', 'en', 'de', 'fr', 'xx']


def okarg(s):
    """a backslash before n is a newline; what more backslashes before n are, nobody knows"""
    return '\\\\n' not in s and not s.startswith('--')


arg = st.one_of(st.sampled_from(['', ' ', '\n', '\\', '"', '\t', ',', ' | ', 'ż', '\\n', ' \\', '\\"', '" "', "'", '-', '%', 'a\\', '""', '\\\\', '!!', '! ', 'write-tokens']),
                st.text(alphabet='ab \\"\n\tż!,-;\'%', max_size=5)).filter(lambda s: okarg(s) and s != '!')
swargs = st.tuples(st.one_of(st.none(), arg), st.one_of(st.none(), arg), st.booleans(), st.booleans(), st.sampled_from([None, 'token', 'segment', 'token;segment', 'selected']),
                   st.one_of(st.none(), arg))
writer = st.one_of(st.tuples(st.just('simple-writer'), swargs), st.tuples(st.just('simple-writer'), swargs),
                   st.tuples(st.sampled_from(['psi-writer', 'json-simple-writer', 'bracketing-writer', 'dot-writer']), st.booleans()),
                   st.tuples(st.sampled_from(sorted(SHALLOW)), st.none()), st.none())
anns = st.lists(st.sampled_from(['tok', 'seg', 'norm', 'sel']), max_size=3, unique=True).map(lambda l: sorted(l, key=['seg', 'tok', 'norm', 'sel'].index))
quoting = st.lists(st.sampled_from(['q', 'n', 'p', 'e']), min_size=30, max_size=30)
TEXTS = ['Ala ma kota. Kot ma Alę!', 'To be, or not to be? That is 1 question.', 'a', 'ż "b" \\n <c>', 'Dzień dobry.\nI co dalej?', '  ', 'x<y & z', 'Mr. Smith went. He is 5.']
scase = st.tuples(st.one_of(st.none(), st.booleans()), anns, writer, st.sampled_from(LANGS), quoting, st.lists(st.integers(0, 6), min_size=8, max_size=8), st.lists(st.sampled_from(TEXTS), min_size=1, max_size=2),
                  st.sampled_from(['stream', 'line', 'other']))


def quote(a, style):
    esc = a.replace('\\n', '\x00').replace('\\', '\\\\').replace('"', '\\"').replace('\x00', '\\\\n')
    if style == 'e':
        esc = esc.replace('\n', '\\n')
    if style == 'q' or a == '' or (' ' in a and style in 'ne'):
        return '"' + esc + '"'
    if style == 'p' and len(esc) > 0:
        return ''.join('"%s"' % c if c == ' ' else c for c in esc)
    return esc


def means(a):
    """what a processor gets for an argument in a pipeline"""
    return a.replace('\\n', '\n').replace('\\', '\\\\')


def spelling(ctx, case):
    rd, an, wr, lang, qs, ns, texts, mode = case
    els = []                     # (names, arguments, real name, real arguments)
    if rd is not None:
        a = ['--whole-text'] if rd else []
        els.append((READ, a, 'txt-reader', a))
    else:
        els.append(None)
    for k in an:
        real, names = ANN[k]
        a = ['--lang', lang]
        if k == 'norm':
            a = ['--lang', 'pl' if lang not in ('pl', 'en') else lang]
        if k == 'sel':
            a = ['--lang', lang, '--in-tag', 'token', '--fallback-tag', 'token', '--with-blank']
        els.append((names, a, real, a))
    langs = set(a[1][1] for a in els[1:])
    if len(langs) > 1:
        return
    if wr is None:
        last = an[-1] if an else None        # each processor says what it is written with
        els.append((None, [], 'simple-writer', ['--tags', 'selected', '--sep', ' ']) if last == 'sel' else (None, [], 'simple-writer' if last == 'tok' else 'psi-writer', []))
    elif wr[0] in SHALLOW:
        real, a = SHALLOW[wr[0]]
        els.append(([wr[0]], [], real, a))
    elif wr[0] == 'simple-writer':
        sep, alt, na, wb, tags, sep2 = wr[1]
        ctx.exclude('F61', 'write-tokens' in wr[1])
        a = (['--sep', sep] if sep is not None else []) + (['--no-alts'] if na else []) + (['--tags', tags] if tags else []) + (['--alt-sep', alt] if alt is not None else []) + (['--with-blank'] if wb else []) \
            + (['--spec', 'segment', sep2] if sep2 and not sep2.startswith('-') else [])
        els.append((WR['simple-writer'], a, 'simple-writer', [means(x) for x in a]))
    else:
        a = ['--skip-symbol-edges'] if wr[0] == 'bracketing-writer' and wr[1] else ['--color'] if wr[0] == 'dot-writer' and wr[1] else ['--no-header'] if wr[0] == 'psi-writer' and wr[1] else []
        els.append((WR[wr[0]], a, wr[0], a))
    # what the processors give
    steps = []
    for t in texts:
        steps += [['new', ''], ['read', 'txt-reader', els[0][3] if els[0] else ['--line-by-line'], t]]
        if langs:
            steps.append(['ann', 'lang-guesser', ['--force', '--only-langs', list(langs)[0]]])
        for k, e in zip(an, els[1:-1]):
            if k == 'norm' and 'tok' not in an:
                steps.append(['ann', 'tp-tokenizer', ['--lang', list(langs)[0]]])     # what they require
            steps.append(['ann', e[2], e[3]])
        steps.append(['write', '=' + els[-1][2], els[-1][3]])
    res = ctx.v('drv_pipe', 'chain', ['', steps])
    want = [r for r, s in zip(res, steps) if s[0] == 'write']
    bad = [r for r in res if isinstance(r, list) and r[:1] == [b'!']]
    given = [e for e in els if e] if wr is not None or len(els) == 1 else [e for e in els[:-1] if e]
    if not given or (els[0] is None and not langs and wr is None):
        return

    def words(pick):
        r = []
        for i, e in enumerate(given):
            r += (['!'] if i else []) + [e[0][ns[i] % len(e[0])] if pick else e[0][0]] + list(e[1])
        return r
    w0, w1 = words(False), words(True)
    string = ' '.join(quote(x, qs[i % len(qs)]) for i, x in enumerate(w1))
    pipes = [w0, w1, ['psi-pipe'] + w1, string]
    out = ctx.v('drv_pipe', 'runs', [pipes, [[k, mode, t] for k in range(4) for t in texts]])
    for k in range(4):
        made = out[k]
        for j in range(len(texts)):
            o = out[4 + k * len(texts) + j]
            if bad:
                check(made is not None or isinstance(o, list), '%r gives %r although the processors throw %r', pipes[k], o, bad)
                continue
            check(made is None, '%r is refused: %r', pipes[k], made)
            check(o == want[j], '%r on %r (%s):\n  gives             %r\n  the processors give %r', pipes[k], texts[j], mode, o, want[j])
    ctx.nontrivial(len(an) > 1 or any(c in x for x in w1 for c in ' \\"\n\t') or '' in w1)
    ctx.event(els[-1][0][ns[len(given) - 1] % len(els[-1][0])] if wr else 'default', *(['default reader'] if els[0] is None else []), *(['default writer'] if wr is None else []), *(['refused'] if bad else []))


PROCS = ['tp-tokenizer', 'tokenize', 'srx-segmenter', 'segment', 'simplenorm', 'selector', 'antiselector', 'joiner', 'detok', 'lang-guesser', 'guess-lang', 'iayko', 'spell', 'aspell', 'metagger', 'lemmatize', 'puddle', 'parse',
         'morfologik', 'lamerlemma', 'inflector', 'bonsai', 'niema']
WRITERS = ['write', 'simple-writer', 'write-psi', 'psi-writer', 'json-simple-writer', 'bracketing-writer', 'write-dot', 'phrases-writer', 'morphology-writer', 'write-tokens', 'write-xml']
READERS = ['read', 'txt-reader', 'psi-reader', 'utt-reader', 'read-lattice', 'nkjp-reader', 'apertium-reader']
REAL = {'tokenize': ['tp-tokenizer'], 'segment': ['srx-segmenter'], 'simplenorm': ['simplenorm-normalizer'], 'guess-lang': ['lang-guesser'], 'spell': ['aspell'], 'lemmatize': None, 'parse': None, 'write': ['simple-writer'],
        'write-psi': ['psi-writer'], 'write-dot': ['dot-writer'], 'write-tokens': ['simple-writer'], 'write-xml': ['bracketing-writer'], 'read': ['txt-reader'], 'read-lattice': ['psi-reader']}
INDEP = ('selector', 'antiselector', 'lang-guesser', 'guess-lang')  # whatever language they are given
elem = st.tuples(st.sampled_from(PROCS), st.sampled_from([None, None, 'pl', 'en', 'pl', 'xx']))
pcase = st.tuples(st.one_of(st.none(), st.sampled_from(READERS)), st.lists(elem, min_size=1, max_size=3), st.one_of(st.none(), st.sampled_from(WRITERS)))


def isreal(given, name):
    r = REAL.get(given, [given])
    return r is None or name in r


def plan(ctx, case):
    rd, an, wr = case
    words = [[rd]] if rd else []
    words += [[n] + (['--lang', l] if l else []) for n, l in an]
    if wr:
        words.append([wr])
    pipe = ' ! '.join(' '.join(w) for w in words)
    r = ctx.v('drv_pipe', 'plan', [pipe])
    if r[0:1] == [b'!']:
        ctx.event('refused')
        check(b'Exception' in r[1] or b'boost' in r[1] or b'std::' in r[1], '%s threw %r', pipe, r)
        # the very same elements with a language each are there, so the refusal must say something
        check(len(r[2]) > 0, '%s is refused without a reason', pipe)
        return
    just, ps = r
    check(not just and len(ps) >= 3, '%s: completed to %r', pipe, ps)
    names = [p[0].decode() for p in ps]
    check(names[0].endswith('-reader'), '%s: begins with %r', pipe, names)
    check(names[-1].endswith('-writer'), '%s: ends with %r', pipe, names)
    check(all(p[3] for p in ps[1:-1]) and not ps[0][3] and not ps[-1][3], '%s: readers or writers inside: %r', pipe, names)
    # required tags are provided by what comes before
    for i, p in enumerate(ps):
        for req in p[1]:
            check(any(set(req) <= set(q[2]) for q in ps[:i]), '%s: %s requires %r, completed to %r', pipe, names[i], req, names)
    # one language throughout
    check(not any(x[4] == 2 for x in ps), '%s: no language chosen: %r', pipe, names)
    said = sorted(set('pl' if n == 'morfologik' else l for n, l in an if (l or n == 'morfologik') and n not in INDEP))
    if len(said) == 1 and not any(n in ('lang-guesser', 'guess-lang') for n, l in an):
        for p in ps[1:-1]:
            if p[5] and p[4] != 0 and p[0] != b'lang-guesser':
                check(said[0].encode() in p[5] and len(p[5]) == 1, '%s: %s works on %r', pipe, p[0], p[5])
    # what was given is there, in order (once for each language where none was given)
    it = iter(names)
    for w in words:
        check(any(isreal(w[0], n) for n in it), '%s: %s is missing or out of order in %r', pipe, w[0], names)
    guess = names.count('lang-guesser')
    check(guess <= 1 or any(n in ('lang-guesser', 'guess-lang') for n, l in an), '%s: %d language guessers', pipe, guess)
    again = ctx.v('drv_pipe', 'plan', [pipe])
    equal(again, r, 'the same pipeline again')
    ctx.nontrivial(len(an) > 1 or len(names) > len(words) + 1)
    ctx.event(*(['completed'] if any(n not in [w[0] for w in words] for n in names[1:-1]) else []))


POOL = ['tokenize --lang pl ! write', 'read --whole-text ! tokenize --lang en ! write-psi', 'segment --lang pl ! write-segments', 'tokenize ! write-simple --sep ,', 'read ! simplenorm --lang pl ! psi-writer',
        'tp-tokenizer --lang xx --token-length-hard-limit 3 --token-length-soft-limit 2 ! write --sep "|"', 'guess-lang ! bracketing-writer --skip-symbol-edges --opening-bracket "[%T " --closing-bracket "]"',
        'psi-reader ! psi-writer', 'utt-reader ! simple-writer --tags token', 'segment --lang en ! tokenize --lang en ! json-simple-writer --tags token', 'guess-lang ! tokenize --lang pl ! tokenize --lang en ! psi-writer',
        'guessing-reader ! simple-writer --tags frag', 'aspell --lang en ! psi-writer']
LPOOL = ['-l tokenize --lang pl ! write', '-l segment --lang en ! write-segments', '--line-by-line read ! tokenize --lang pl ! psi-writer --no-header', '-l read --whole-text ! tokenize --lang en ! write --sep ,', '-l guess-lang ! bracketing-writer']
INPUT = st.one_of(st.sampled_from(TEXTS + ['', '0001 04 W abc\n0005 01 S _\n', '01 0000 01 T token a\n', 'Ich weiß nicht, was soll es bedeuten', 'The quick brown fox jumps over the lazzy dog', 'Zażółć gęślą jaźń, a potem idź spać']),
                  st.text(alphabet='ab. \n!ż"\\<', max_size=12))
rcase = st.tuples(st.lists(st.integers(0, len(POOL) + len(LPOOL) - 1), min_size=1, max_size=3), lst(st.tuples(st.integers(0, 2), st.sampled_from(['stream', 'line', 'other']), INPUT), 2, 8, 5))


def runs(ctx, case):
    which, ops = case
    pipes = [(POOL + LPOOL)[k] for k in which]
    ops = [(k % len(pipes), m, t) for k, m, t in ops]
    out = ctx.v('drv_pipe', 'runs', [pipes, [list(o) for o in ops]])
    if not hasattr(ctx, 'memo'):
        ctx.memo = {}
    n = len(pipes)

    def alone(p, t):
        p = p.replace('-l ', '', 1) if p.startswith('-l ') else p.replace('--line-by-line ', '', 1) if p.startswith('--line') else p
        if (p, t) not in ctx.memo:
            ctx.memo[p, t] = ctx.v('drv_pipe', 'runs', [[p], [[0, 'other', t]]])[1]
        return ctx.memo[p, t]
    for k in range(n):
        check(out[k] is None, '%s: %r', pipes[k], out[k])
    for (k, m, t), o in zip(ops, out[n:]):
        p = pipes[k]
        if p.startswith('-') and m == 'stream':
            ls = t.split('\n')
            if ls[-1] == '':
                ls.pop()
            w = [alone(p, l) for l in ls]
            if any(isinstance(x, list) for x in w):
                check(isinstance(o, list), '%s on %r: %r, but for its lines %r', p, t, o, w)
                continue
            w = b''.join(w)
            ctx.event('lines')
        else:
            w = alone(p, t)
        check(o == w, '%s on %r (%s) after %r:\n  gives %r\n  alone %r', p, t, m, [(pipes[a], b, c) for a, b, c in ops], o, w)
    ctx.nontrivial(len(set(k for k, m, t in ops)) > 1 or len(set(t for k, m, t in ops)) > 1)


TOKENS = ['read', 'txt-reader', 'tokenize', 'write', 'simple-writer', 'psi-writer', 'segment', '!', '!', '!', '--lang', 'pl', 'xx', 'zz', '--sep', '"', '"a b"', '\\', '\\n', '', '--tags', '--no-such', '-x', '-l', '--lang=pl', '--la', 'nosuch', 'tokenizeX',
          'token-generator', 'spell', '-e', '--from-encoding', 'UTF-8', 'write-tokens', 'write-xml', '--spec', 'selector', '--', '-', '\x01', 'ż', '--token-length-hard-limit', '-5', '3', '1000000000000000000000', 'tp-tokenizer --lang pl ! write']
broken = st.tuples(lst(st.sampled_from(TOKENS), 0, 9, 5), st.sampled_from(['string', 'list', 'argv']))


def malformed(ctx, case):
    toks, how = case
    p = ' '.join(toks) if how == 'string' else toks if how == 'list' else ['psi-pipe'] + toks
    try:
        r = ctx.v('drv_pipe', 'runs', [[p], [[0, 'other', 'Ala ma kota.'], [0, 'stream', 'Ala ma kota.']]])
    except Crash as e:
        raise
    if r[0] is not None:
        ctx.event('refused')
        ctx.nontrivial(len(toks) > 2)
        check(not r[0][1].startswith(b'const char') and r[0][1] != b'unknown', 'threw %r', r[0])
    else:
        ctx.event('taken')
        ctx.nontrivial(len(toks) > 2)
        if '-l' not in toks:
            equal(r[2], r[1], 'two runs')


TESTS = [Test('spelling', scase, spelling, quick=3000), Test('plan', pcase, plan, quick=1200), Test('runs', rcase, runs, quick=1500), Test('malformed', broken, malformed, quick=3000)]
