"""simple and JSON writers: a model of what is printed."""
import json
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from checks import _lat
from lib.latmodel import mask_matches, mask_takes_symbol, b

DRIVERS = ['drv_pipe']
RULE = ('a lattice made by a random history (or a text cut into blocks, tokens and blanks with alternatives) written by the simple and JSON '
        'writers with random options and compared with a model over all edges; JSON is parsed by the Python parser; '
        'non-trivial: alternatives, fallback tags, groups or escaped characters are printed')
MASKSPEC = [[['token']], [['symbol']], [['lemma']], [['token'], ['lemma']], [['token', 'x']], [['x'], ['symbol']], [['parse']], [['token', '!pl'], ['x', 'y']]]
SEPS = [('\\n', '\n'), ('_', ' '), (',', ','), ('\\t', '\t'), ('<>', '<>'), ('|', '|'), ('\\\\', '\\'), ('/*', '/*')]
flag = st.integers(0, 3).map(lambda x: x == 0)
opts = st.tuples(flag, flag, st.booleans(), st.sampled_from(MASKSPEC), st.sampled_from(SEPS), st.sampled_from(SEPS),
                 st.one_of(st.just([]), st.lists(st.sampled_from(['symbol', 'x', 'lemma', 'y', 'nosuch']), min_size=1, max_size=3, unique=True)), st.booleans())
TXT = st.text(alphabet='ab ż€𝄞"\\\n\t\x01/', max_size=7)
item = st.tuples(st.sampled_from(['N', 'word', '"', 'ż\\', '\t']), st.one_of(st.sampled_from(['', '=', 'ala']), TXT), st.lists(st.tuples(st.sampled_from(['num', 'a"b', 'ż']), TXT), max_size=2, unique_by=lambda p: p[0]).map(tuple))
seq = st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4))
add_op = st.tuples(st.just('add'), _lat.I, st.sampled_from([1, 2, 3, 5]), item, _lat.tags1, seq, _lat.sc, _lat.rt, _lat.rt)
ops = st.one_of(add_op, add_op, add_op, _lat.again_op, _lat.part_op, st.tuples(st.just('discard'), _lat.I), st.tuples(st.just('append'), TXT), st.tuples(st.just('appendsym'), TXT))


def args_of(mask, fb, linear, noalts, blank):
    a = ['--tags', ';'.join(','.join(c) for c in mask)]
    if fb:
        a += ['--fallback-tags'] + fb
    return a + ['--linear'] * linear + ['--no-alts'] * noalts + ['--with-blank'] * blank


def shown(e):
    return e.text if e.text else e.cat


def blocks(m, mask, fb, linear, noalts, blank):
    """per visited vertex: the edges printed there"""
    r = []
    if linear:
        vs, v = [], 0
        while True:
            vs.append(v)
            o = m.out(v, None)
            if not o:
                break
            v = o[0].tgt
    else:
        vs = m.vertices()
    for v in vs:
        o = [e for e in m.out(v, None) if b'discarded' not in e.tags and (blank or m.text[e.src:e.tgt].strip(b' \t\n\r\v\f'))]
        p = [e for e in o if (mask_takes_symbol(mask) if e.implicit else mask_matches(mask, e.tags))]
        for t in fb:
            if not p:
                p = [e for e in o if t.encode() in e.tags]
        r.append((v, p[:1] if noalts else p))
    return r


def jitem(e, args):
    return {'category': e.cat.decode(), 'text': e.text.decode(), 'values': {k.decode(): v.decode() for k, v in e.avs}} if args else shown(e).decode()


def jalt(p, args):
    x = [jitem(e, args) for e in p]
    return [x[0] if len(x) == 1 else x] if x else []


def leaves(x):
    return [z for y in x for z in leaves(y)] if isinstance(x, list) else [x]


def parse(out):
    try:
        t = out.decode('utf-8')
    except UnicodeDecodeError:
        check(False, 'JSON is not UTF-8: %r', out)
    try:
        return json.loads(t)
    except ValueError as x:
        check(False, 'not JSON (%s): %r', x, t)


def good(*outs):
    for o in outs:
        check(isinstance(o, bytes), 'threw: %r', o)


def flat(ctx, case):
    text, ops, (linear, noalts, blank, mask, sep, alt, fb, wargs) = case
    r = _lat.Runner('')
    r.step(('appendsym', text))
    for op in ops:
        r.step(op)
    m = r.m
    a = args_of(mask, fb, linear, noalts, blank)
    _, s, j = ctx.v('drv_pipe', 'chain', ['', [['ops', r.ops], ['write', 'simple-writer', a + ['--sep', sep[0], '--alt-sep', alt[0]]],
                                               ['write', 'json-simple-writer', a + ['--with-args'] * wargs]]])
    good(s, j)
    bl = blocks(m, mask, fb, linear, noalts, blank)
    equal(s, sep[1].encode().join(alt[1].encode().join(shown(e) for e in p) for v, p in bl if p) + b'\n', 'simple-writer %r on %r' % (a, m.dump()[3]))
    equal(parse(j), [x for v, p in bl for x in jalt(p, wargs)], 'json-simple-writer %r on %r' % (a, m.dump()[3]))
    n = sum(len(p) for v, p in bl)
    ctx.nontrivial(n > 1 and (any(len(p) > 1 for v, p in bl) or bool(fb) or any(x in j for x in (b'\\n', b'\\t', b'\\\\', b'\\"', b'\\u'))))
    ctx.event(*(['alternatives'] if any(len(p) > 1 for v, p in bl) else []), *(['escapes'] if b'\\' in j else []), *(['linear'] if linear else []))


# text cut into pieces: (string, alternatives, ends a segment, ends a sentence)
tok = st.tuples(st.sampled_from(['ab', 'ż', '€a', 'x"', ' ', '\n', '  ', 'b,', '\\']), st.integers(0, 2), st.integers(0, 2), st.integers(0, 5))
groups_case = st.tuples(lst(tok, 1, 12, 7), st.booleans(), st.booleans(), st.booleans(), st.sampled_from([('#', '@'), ('//', '\n'), (' # ', '=='), ('\t', '+')]),
                        st.sampled_from([['segment'], ['sentence'], ['segment', 'sentence'], ['sentence', 'segment']]), st.permutations([0, 1, 2]), st.booleans())


def groups(ctx, case):
    toks, noalts, blank, wargs, (ssep, tsep), spec, order, uncovered = case
    r = _lat.Runner('')
    r.step(('appendsym', ''.join(t[0] for t in toks)))
    m = r.m
    cuts = {'segment': [], 'sentence': []}
    adds = [[], [], []]
    pos = 0
    for k, (t, alts, eseg, esent) in enumerate(toks):
        e = pos + len(t.encode())
        last = k == len(toks) - 1
        adds[0].append((pos, e, ('T', '=', ()), ['token']))
        for i in range(alts):
            adds[0].append((pos, e, ('A%d' % i, '=' if i else 'alt', (('k', 'v'),)), ['token', 'x']))
        if eseg == 0 or esent == 0 or last:
            cuts['segment'].append(e)
        if esent == 0 or last:
            cuts['sentence'].append(e)
        pos = e
    for i, tag in ((1, 'segment'), (2, 'sentence')):
        p = 0
        for e in cuts[tag]:
            adds[i].append((p, e, (tag, '=', ()), [tag]))
            p = e
    for i in order:
        for x in adds[i]:
            r.add(x[0], x[1], x[2], x[3], None, 0.0, -1, -1)
    a = args_of([['token']], [], False, noalts, blank)
    sp = {'segment': ssep, 'sentence': tsep}
    sargs = ['--spec']
    for t in spec:
        sargs += [t, sp[t].replace('\n', '\\n').replace('\t', '\\t').replace(' ', '_')]
    _, s, j = ctx.v('drv_pipe', 'chain', ['', [['ops', r.ops], ['write', 'simple-writer', a + ['--sep', ',', '--alt-sep', '|'] + sargs],
                                               ['write', 'json-simple-writer', a + ['--with-args'] * wargs + ['--spec'] + spec]]])
    good(s, j)
    bl = dict(blocks(m, [['token']], [], False, noalts, blank))
    # JSON
    levels = [t for t in ('sentence', 'segment') if t in spec]

    def nest(lo, hi, lev):
        if not lev:
            return [x for v in sorted(bl) if lo <= v < hi for x in jalt(bl[v], wargs)]
        out, p = [], 0
        for e in cuts[lev[0]]:
            if lo <= p and e <= hi:
                x = nest(p, e, lev[1:])
                if x:
                    out.append(x)
            p = e
        return out
    x, w = parse(j), nest(0, pos, levels)
    if len(levels) > 1 and 'F30' in ctx.known_ids:
        # finding: groups of two levels are nested in the order they happen to be opened and closed; the elements are still all there in order
        equal(leaves(x), leaves(w), 'elements of json-simple-writer %r' % (case,))
        ctx.event('two levels in JSON: elements only')
    else:
        equal(x, w, 'json-simple-writer %r' % (case,))
    # simple: pieces in innermost groups with the separators of the groups that begin
    out, pend, p = '', [], 0
    starts = sorted({0} | {e for t in spec for e in cuts[t]})
    ends = {t: [0] + cuts[t] for t in spec}
    pieces = []
    for v, w in zip(starts, starts[1:]):
        if out:
            for t in spec:
                if v in ends[t] and t not in pend:
                    pend.append(t)
        body = ','.join('|'.join(shown(e).decode() for e in bl[x]) for x in sorted(bl) if v <= x < w and bl[x])
        if body:
            pieces.append(body)
            if out:
                got = s.decode()[len(out):]
                # the separators in any order
                import itertools
                cand = [''.join(sp[t] for t in q) for q in itertools.permutations(pend)]
                hit = [c for c in cand if got.startswith(c + body)]
                check(hit, 'simple-writer: %r, then expected the separators of %r before %r, got %r', out, pend, body, got)
                out += hit[0]
            out += body
            pend = []
    equal(s.decode(), out + '\n', 'simple-writer %r' % (case,))
    ctx.nontrivial(len(pieces) > 1)
    ctx.event(*(['two levels'] if len(spec) > 1 else []), *(['empty groups'] if len(pieces) < len(starts) - 1 else []))


TESTS = [Test('flat', st.tuples(TXT, lst(ops, 1, 12, 8), opts), flat, quick=12000), Test('groups', groups_case, groups, quick=8000)]
