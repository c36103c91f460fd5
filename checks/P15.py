"""Bracketing writer: brackets against a model over all edges."""
import re
from collections import Counter
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from checks import _lat, P14
from checks.P09 import cyclic

DRIVERS = ['drv_pipe']
RULE = ('a lattice made by a random history (or a forest of trees with roles) written by the bracketing writer with random patterns and options; '
        'the output is parsed and compared with a model: text, position, nesting and labels of all brackets; '
        'non-trivial: two brackets over the same span or nested spans')
ATTRS = ['num', 'a"b', 'ż']
piece = st.sampled_from(['%c', '%c', '%t', '%T', '%A', '%s', '%a[num]', '%a{ż}', '%a(none)', '%%', '%', 'x', '<', '>', '%r', '%x', '%a', '%a[n', 'ż', '(', ']'])
plain = lst(piece, 1, 5, 3).map(''.join).map(lambda p: re.sub(r'%a(?![\[{(])', '%z', p).replace('%*', '%x'))
join = st.tuples(st.sampled_from(['%c', '%c:', '']), st.sampled_from(['%*[/][%a{num}]', '%*(,)(%t)', '%*{;}{%c}', '%*[ ][%c-%s]', '%*(+)(%a[num]!%t)']), st.sampled_from(['', '|', '%c'])).map(''.join)
flag = st.integers(0, 3).map(lambda x: x == 0)
opts = st.tuples(st.one_of(plain, plain, join), plain, flag, flag, st.booleans(), st.sampled_from([None, None, ['token'], ['x', 'symbol'], ['lemma', 'token']]),
                 st.sampled_from([None, None, ['token'], ['symbol', 'y']]), st.sampled_from([None, None, ['num'], ['ż', 'num']]), st.sampled_from([',', ' + ', '\\n']), st.sampled_from([',', ' & ']), st.sampled_from(['=', '->']))
TXT = st.text(alphabet='ab ż€𝄞"<]%\\\n', max_size=7)
item = st.tuples(st.sampled_from(['N', 'word', 'B', 'ż%', '(']), st.one_of(st.sampled_from(['', '=', 'ala']), TXT), st.lists(st.tuples(st.sampled_from(ATTRS), st.sampled_from(['sg', 'pl', '%c', 'a b', '7'])), max_size=2, unique_by=lambda p: p[0]).map(tuple))
seq = st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4))
add_op = st.tuples(st.just('add'), _lat.I, st.sampled_from([1, 2, 3, 5]), item, _lat.tags1.filter(bool), seq, _lat.sc, _lat.rt, _lat.rt)
ops = st.one_of(add_op, add_op, add_op, st.tuples(st.just('again'), _lat.I, _lat.tags1.filter(bool), seq, _lat.sc, _lat.rt), st.tuples(st.just('part'), _lat.I, _lat.tags1.filter(bool), seq, _lat.sc, _lat.rt),
                st.tuples(st.just('discard'), _lat.I), st.tuples(st.just('append'), TXT), st.tuples(st.just('appendsym'), TXT))
CLOSE = dict(zip('()[]{}<>', ')(][}{><'))


class D:
    """what can be shown of an edge"""
    def __init__(self, e, tags, avs, role=''):
        self.e, self.tags, self.avs, self.role = e, tuple(sorted(t.decode() for t in tags)), tuple(sorted((k.decode(), v.decode()) for k, v in avs)), role
        self.cat, self.text, self.score = e.cat.decode(), e.text.decode(), e.score

    def key(self):
        return self.cat, self.text, self.score, self.tags, self.avs, self.role


def expand(pats, d, all_, seps, collapse):
    """the printed forms of d under the patterns; all_: the edges a join chooses from"""
    tsep, psep, asep = seps
    used, cond = {}, {}         # what a join goes by
    sub = None
    out = []
    for p in pats:
        r, i = '', 0
        while i < len(p):
            c = p[i + 1:i + 2]
            if p[i] != '%' or not c:
                r, i = r + p[i], i + 1
            elif c == 'T':
                r, i, used['tags'] = r + tsep.join(d.tags), i + 2, 1
            elif c == 'c':
                r, i, used['cat'] = r + d.cat, i + 2, 1
            elif c == 't':
                r, i, used['text'] = r + d.text, i + 2, 1
            elif c == 's':
                r, i, used['score'] = r + '%g' % d.score, i + 2, 1
            elif c == 'r':
                r, i = r + d.role, i + 2
            elif c == 'A':
                r, i, used['avs'] = r + psep.join(k + asep + v for k, v in d.avs), i + 2, 1
                cond = dict(d.avs)
            elif c == 'a' and p[i + 2:i + 3]:
                z = p.find(CLOSE.get(p[i + 2], p[i + 2]), i + 3)
                if z < 0:
                    r, i = r + '%a', i + 2
                else:
                    a = p[i + 3:z]
                    r, i = r + dict(d.avs).get(a, ''), z + 1
                    cond[a] = dict(d.avs).get(a, '')
            elif c == '*' and p[i + 2:i + 3]:
                o, k = p[i + 2], CLOSE.get(p[i + 2], p[i + 2])
                z = p.find(k, i + 3)
                z2 = p.find(k, z + 2) if z >= 0 and p[z + 1:z + 2] == o else -1
                if z2 < 0:
                    r, i = r + '%*', i + 2
                else:
                    sub = (p[i + 3:z], p[z + 2:z2])
                    r, i = r + '\0', z2 + 1
            elif c == '*':
                r, i = r + '%*', i + 2
            elif c == 'a':
                r, i = r + '%a', i + 2
            else:
                r, i = r + '%', i + 1
        out.append(r)
    if sub:
        def agree(x):
            for f in used:
                g = lambda y: getattr(y, f)
                if f != 'avs' and g(d) not in ('', (), 0.0) and g(x) != g(d):     # an empty value puts no condition
                    return False
            return all(dict(x.avs).get(k, '') == v for k, v in cond.items())
        ps = [expand([sub[1]], x, all_, seps, collapse)[0] for x in all_ if agree(x)]
        if collapse:
            ps = sorted(set(ps), key=lambda s: s.encode())
        j = ''
        for x in ps:
            j = j + (sub[0] if j else '') + x
        out = [x.replace('\0', j, 1) for x in out]
        out = [x.replace('\0', '%*****') for x in out]
    return tuple(out)


def verify(text, ds, pats, seps, collapse, got, info):
    """ds: {(i, j): [D]}"""
    want = {}
    for r, l in ds.items():
        if collapse:
            l = list({d.key(): d for d in l}.values())
        w = [(expand(pats, d, l, seps, collapse), d) for d in l]
        if collapse:
            w = list({p: (p, d) for p, d in w}.values())
        want[r] = w
    check(isinstance(got, bytes), 'threw: %r\n%r', got, info)
    # split at positions of the text
    i = pos = 0
    at = {}         # position -> (closes, opens)
    while True:
        m = re.compile(rb'(?:\x04[^\x05]*\x05)*').match(got, i)
        cl = re.findall(rb'\x04([^\x05]*)\x05', m.group())
        i = m.end()
        m = re.compile(rb'(?:\x02[^\x03]*\x03)*').match(got, i)
        op = re.findall(rb'\x02([^\x03]*)\x03', m.group())
        i = m.end()
        at[pos] = (cl, op)
        if pos == len(text):
            break
        n = 1
        while pos + n < len(text) and text[pos + n] & 0xC0 == 0x80:
            n += 1
        check(got[i:i + n] == text[pos:pos + n], 'without its brackets the output is not the text, at %d: %r\n%r', pos, got, info)
        i += n
        pos += n
    check(got[i:] == b'', 'something after the text: %r\n%r', got[i:], info)
    b = lambda x: x.encode()
    opens, closes = {}, {}
    for p, (cl, op) in at.items():
        for j in sorted((r[1] for r in want if r[0] == p), reverse=True):
            n = len(want[p, j])
            opens[p, j], op = op[:n], op[n:]
        check(not op, 'brackets open at %d that should not: %r in %r\n%r', p, op, got, info)
        for j in sorted((r[0] for r in want if r[1] == p), reverse=True):
            n = len(want[j, p])
            closes[j, p], cl = cl[:n], cl[n:]
        check(not cl, 'brackets close at %d that should not: %r in %r\n%r', p, cl, got, info)
    for r, w in want.items():
        pairs = list(zip(opens[r], reversed(closes[r])))
        check(len(opens[r]) == len(closes[r]) == len(w), 'brackets over %r: %r %r, expected %r, in %r\n%r', r, opens[r], closes[r], [x[0] for x in w], got, info)
        equal(Counter(pairs), Counter((b(o), b(c)) for (o, c), d in w), 'brackets over %r in %r\n%r' % (r, got, info))
        # what an edge was made of is inside it
        alone = Counter(expand(pats, d, ds[r], seps, collapse) for d in ds[r])
        if not collapse or max(alone.values(), default=0) == 1:
            where = {}
            for k, (o, c) in enumerate(pairs):
                where.setdefault((o, c), []).append(k)
            for (o, c), d in w:
                for (o2, c2), d2 in w:
                    par = parent(d2.e)
                    if par is d.e:
                        ka, kb = where[b(o), b(c)], where[b(o2), b(c2)]
                        if len(ka) == len(kb) == 1:
                            check(kb < ka, 'the bracket of an edge is inside the bracket of its part: %r in %r\n%r', (o2, o), got, info)


def parent(e):
    for p in e.parts:
        for x in p[4]:
            return x
    return None


def args_of(o):
    op, cl, skip, blank, nocol, filt, show, attrs, tsep, psep, asep = o
    a = ['--opening-bracket', '\x02' + op.replace('\\', '\\\\') + '\x03', '--closing-bracket', '\x04' + cl.replace('\\', '\\\\') + '\x05',
         '--tag-separator', tsep, '--av-pairs-separator', psep, '--av-separator', asep]
    for n, v in (('--tags', filt), ('--show-only-tags', show), ('--show-attributes', attrs)):
        if v:
            a += [n] + v
    return a + ['--skip-symbol-edges'] * skip + ['--with-blank'] * blank + ['--no-collapse'] * nocol


def shown(o, e, role=''):
    """D or None when the edge is skipped"""
    op, cl, skip, blank, nocol, filt, show, attrs, tsep, psep, asep = o
    if b'discarded' in e.tags or not blank and b'token' in e.tags and e.cat == b'B' or skip and e.tags == {b'symbol'} or filt and not ({x.encode() for x in filt} & e.tags):
        return None
    only = show or filt
    return D(e, [t for t in e.tags if not only or t.decode() in only], [(k, v) for k, v in e.avs if not attrs or k.decode() in attrs], role)


def finish(ctx, r, o, ds, extra):
    # without a tag or a value to compare, a join has no condition
    op, cl, skip, blank, nocol, filt, show, attrs, tsep, psep, asep = o
    _, w = ctx.v('drv_pipe', 'chain', ['', [['ops', r.ops], ['write', 'bracketing-writer', args_of(o) + extra]]])
    pats = ['\x02' + op + '\x03', '\x04' + cl + '\x05']
    verify(r.m.text, ds, [op, cl], (tsep.replace('\\n', '\n'), psep, asep), not nocol, w, (r.m.dump()[3], args_of(o) + extra))
    rs = [x for x in ds if ds[x]]
    ctx.nontrivial(any(len(ds[x]) > 1 for x in rs) or any(a != b and a[0] <= b[0] and b[1] <= a[1] for a in rs for b in rs))
    ctx.event(*(['join'] if '%*' in op else []), *(['same span'] if any(len(x) > 1 for x in ds.values()) else []))


def edges(ctx, case):
    text, ops, o = case
    r = _lat.Runner('')
    r.step(('appendsym', text))
    for x in ops:
        r.step(x)
    if cyclic(r.m):
        return
    ds = {}
    for e in r.m.by_source(None):
        d = shown(o, e)
        if d and r.m.hidden(e) is not None:
            ds.setdefault((e.src, e.tgt), []).append(d)
    finish(ctx, r, o, ds, [])


# a forest: words, then trees over them
word = st.sampled_from(['ab', 'ż', '€a', 'x', ' ', 'b%'])
forest_case = st.tuples(lst(word, 1, 7, 4), lst(st.tuples(st.integers(0, 9), st.integers(1, 3), st.sampled_from(['N', 'V', '%c', 'B']), st.sampled_from([['parse'], ['parse', 'x'], ['token']]),
                                                  st.lists(st.sampled_from([None, 'head', 'x y', '7']), min_size=3, max_size=3)), 0, 7, 4), st.booleans(), opts)


def forest(ctx, case):
    words, trees, syms, o = case
    o = list(o)
    o[5] = None if o[5] is None else ['parse', 'token']
    r = _lat.Runner('')
    r.step(('appendsym', ''.join(words)))
    m = r.m
    roots, pos = [], 0
    for w in words:
        e = pos + len(w.encode())
        # the symbols of the word
        n = len(r.h)
        hs, v = [], pos
        if syms or len(w) == 1 and not o[2]:     # else the symbol and the word are two readings
            for c in w:
                r.emit(['grab', v, [['symbol']]], m.out(v, [['symbol']])[0].tup())
                x = m.out(v, [['symbol']])[0]
                r.h.append(x)
                hs.append((x, len(r.h) - 1, None))
                v += len(c.encode())
        new = r.do_add(['add', pos, e, ['T', w, []], ['token'], [h for x, h, _ in hs], 0.0, -1, -1], lambda: m.add(pos, e, ('T', w, ()), ['token'], [x for x, h, _ in hs], 0.0, -1, -1))
        roots.append([new, len(r.h) - 1, hs])
        pos = e
    for at, n, cat, tags, roles in trees:
        i = at % len(roots)
        kids = roots[i:i + n]
        hs = [(k[0], k[1], roles[q]) for q, k in enumerate(kids)]
        a, z = kids[0][0].src, kids[-1][0].tgt
        text = 't%d' % len(r.h)
        new = r.do_add(['add', a, z, [cat, text, []], tags, [[h, ro] if ro else h for x, h, ro in hs], 0.0, 1, -1], lambda: m.add(a, z, (cat, text, ()), tags, [x for x, h, ro in hs], 0.0, 1, -1))
        roots[i:i + n] = [[new, len(r.h) - 1, hs, kids]]
    ds = {}

    def go(node, role):
        e = node[0]
        d = shown(o, e, role or '')
        if d:
            ds.setdefault((e.src, e.tgt), []).append(d)
        if len(node) > 3:
            for k, (x, h, ro) in zip(node[3], node[2]):
                go(k, ro)
        else:
            for x, h, ro in node[2]:
                d = shown(o, x, ro or '')
                if d:
                    ds.setdefault((x.src, x.tgt), []).append(d)
    if any(shown(o, x) is None for x in m.live() if x.tags != {b'symbol'}):
        # where the topmost edge is not to be shown another is chosen
        return
    for k in roots:
        go(k, None)
    finish(ctx, r, tuple(o), ds, ['--disambig'])
    ctx.event('roles', *(['unary'] if any(len(x) > 1 for x in ds.values()) else []))


# edges over one stretch made of one another
chain_case = st.tuples(st.sampled_from(['a', 'żb']), st.lists(st.sampled_from('pqrstuvw'), min_size=2, max_size=6, unique=True), lst(st.sampled_from([0, 0, 0, 1, 2]), 6, 7, 6.5), st.booleans(), st.sampled_from(['%c', '%c:%t', '%T-%c']))


def chains(ctx, case):
    text, cats, back, nocol, pat = case
    r = _lat.Runner('')
    r.step(('appendsym', text))
    m, made = r.m, []
    for k, c in enumerate(cats):
        part = made[max(0, k - 1 - back[k])] if made else None
        hs = [part] if part else []
        e = r.do_add(['add', 0, len(m.text), [c, 't', []], ['x%d' % (k % 2)], [h for x, h in hs], 0.0, -1, -1], lambda: m.add(0, len(m.text), (c, 't', ()), ['x%d' % (k % 2)], [x for x, h in hs], 0.0, -1, -1))
        made.append((e, len(r.h) - 1))
    o = (pat, '', True, False, nocol, ['x0', 'x1'], None, None, ',', ',', '=')
    ds = {}
    for e, h in made:
        ds.setdefault((e.src, e.tgt), []).append(shown(o, e))
    finish(ctx, r, o, ds, [])
    ctx.event(*(['deep'] if len(made) > 3 else []))


TESTS = [Test('chains', chain_case, chains, quick=2500), Test('edges', st.tuples(TXT, lst(ops, 1, 12, 8), opts), edges, quick=12000), Test('forest', forest_case, forest, quick=8000)]
