"""UTT reader: a model of what is read."""
import re
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst

DRIVERS = ['drv_pipe']
RULE = ('read: a UTT file is generated from a text cut into segments (alternatives, annotations, escapes, missing positions and lengths, sentences) and the '
        'lattice read is compared with it; damaged: the same with random edits, which the reader refuses or turns into a usable lattice; '
        'non-trivial: alternatives, annotations, sentences or a form with escapes or multi-byte characters')
ESC = {' ': '_', '\n': '\\n', '\t': '\\t', '\r': '\\r', '_': '\\_', '*': '\\*', '\\': '\\\\'}
form = st.one_of(st.text(alphabet='abcżé€𝄞', min_size=1, max_size=5), st.text(alphabet='ab -ż.', min_size=1, max_size=4), st.text(alphabet='a \n\t_*\\:', min_size=1, max_size=3), st.sampled_from([' ', ' ', '.', '*', 'ala', 'âge']))
name = st.sampled_from(['lem', 'lemma', 'gph', 'x', 'ż'])
val = st.one_of(st.sampled_from(['ala,N', 'a,b;c', 'nowy jork,N', 'a:b', '*', 'ż', '_', 'a\\b']), st.text(alphabet='abż :,_*\\;', min_size=1, max_size=6))
ann = st.lists(st.tuples(name, val), max_size=3, unique_by=lambda x: x[0])
seg = st.tuples(st.sampled_from(['W', 'W', 'P', 'S', 'B']), form, ann, st.one_of(st.none(), st.none(), st.none(), ann), st.sampled_from(['both', 'both', 'both', 'pos', 'none']), st.sampled_from([1, 1, 1, 2]), st.sampled_from([None] * 4 + ['before', 'after']))
sent = st.tuples(lst(seg, 1, 8, 4), st.booleans(), st.booleans())
case = st.tuples(lst(sent, 1, 3, 2), st.sampled_from(['', '', '\n', '   \n']))


def esc(s):
    return ''.join(ESC.get(c, c) for c in s)


def build(c):
    sents, junk = c
    pos, out, edges, text = 0, junk, {}, ''
    order, sens = [], []
    for segs, marked, posd in sents:
        if marked:
            out += ('%04d 00 BOS *\n' % pos) if posd or not text else 'BOS *\n'
        start, toks = pos, []
        far = 0
        for num, (typ, f, an, alt, how, sp, long) in enumerate(segs):
            if far > pos and how == 'none':
                how = 'pos'
            whole = f + segs[num + 1][1] if long and num + 1 < len(segs) else None

            def wide():
                nonlocal out, far
                far = pos + len(whole)
                out += '%04d %02d W %s\n' % (pos, len(whole), esc(whole))
                key = (pos, pos + len(whole), whole, ())
                if key not in edges:
                    edges[key] = 1
                    order.append(key)
                toks.append((pos, pos + len(whole)))
            if whole and long == 'before':
                wide()
            for k, a in enumerate([an] if alt is None or sorted(alt) == sorted(an) else [an, alt]):
                head = {'both': '%04d %02d ' % (pos, len(f)), 'pos': '%04d ' % pos, 'none': ''}[how if (text or far) and not k and not (whole and long == 'before') else ('both' if how == 'none' else how)]
                out += head.replace(' ', ' ' * sp) + typ + ' ' * sp + esc(f) + ''.join(' ' * sp + '%s:%s' % (n, esc(v)) for n, v in a) + '\n'
                key = (pos, pos + len(f), f, tuple(sorted(a)))
                if key not in edges:
                    edges[key] = 1
                    order.append(key)
            toks.append((pos, pos + len(f)))
            if whole and long == 'after':
                wide()
            text += f
            pos += len(f)
        if marked:
            out += ('%04d 00 EOS *\n' % pos) if posd else 'EOS *\n'
            path, p = [], start     # the first token given at each place
            while p < pos:
                path.append(next(t for t in toks if t[0] == p))
                p = path[-1][1]
            sens.append((start, pos, path))
        out += junk
    return out, text, order, sens


def read(ctx, c):
    out, text, order, sens = build(c)
    res = ctx.v('drv_pipe', 'chain', ['', [['read', 'utt-reader', [], out], ['dumpi']]])
    check(res[0] is None, 'threw %r on\n%s', res[0], out)
    t, nv, es = res[1]
    equal(t, text.encode(), 'text of\n' + out)
    off = [len(text[:i].encode()) for i in range(len(text) + 1)]
    sym = [(off[i], off[i + 1]) for i in range(len(text))]
    got = {}
    for e in es:
        if e[4] == [b'token']:
            sq = [(es[i][0], es[i][1]) for p in e[8 - 1] for i, r in p[3]]
            key = (e[0], e[1], e[3].decode(), tuple(sorted((k.decode(), v.decode()) for k, v in e[5])))
            check(key not in got, 'twice: %r', key)
            got[key] = sq
            equal(e[2], b"'" + e[3] + b"'", 'category')
    want = {(off[a], off[z], f, an): [s for s in sym if off[a] <= s[0] and s[1] <= off[z]] for a, z, f, an in order}
    equal(got, want, 'tokens of\n' + out)
    got = []
    for e in es:
        if e[4] == [b'sentence']:
            equal((e[2], e[3]), (b'sen', t[e[0]:e[1]]), 'category and text of the sentence %r in\n%s' % (e, out))
            got.append((e[0], e[1], [(es[i][0], es[i][1]) for p in e[7] for i, r in p[3]]))
            for p in e[7]:
                for i, r in p[3]:
                    equal(es[i][4], [b'token'], 'parts of a sentence')
    equal(sorted(got), sorted((off[a], off[z], [(off[p], off[q]) for p, q in tk]) for a, z, tk in sens), 'sentences of\n' + out)
    equal(len([e for e in es if e[4] not in ([b'token'], [b'sentence'], [b'symbol'])]), 0, 'other edges')
    ctx.nontrivial(len(text.encode()) > len(text) or sens or any(a for _, _, _, a in order) or '\\' in out)
    ctx.event(*(['alternatives'] if len(order) > sum(len(s[0]) for s in c[0]) else []), *(['sentences'] if sens else []), *(['multi-byte'] if off[-1] > len(text) else []))


from checks.P10 import apply, edit, WRITERS
dcase = st.tuples(case, lst(edit, 0, 4, 2))


def damaged(ctx, c):
    W = build(c[0])[0]
    D = apply(W, c[1])
    if any(int(x) > 400 for x in re.findall(rb'[0-9]+', D)):
        return
    res = ctx.v('drv_pipe', 'chain', ['', [['read', 'utt-reader', [], D], ['dumpi']] + [['write'] + w for w in WRITERS]])
    if isinstance(res[0], list):
        ctx.event('refused: ' + res[0][1].decode())
    else:
        check(not (isinstance(res[1], list) and res[1][0] == b'!'), 'accepted, but the lattice cannot be listed: %r\n%s', res[1], D.decode('utf-8', 'replace'))
        ctx.nontrivial(D != W.encode() and len(res[1][2]) > 0)


TESTS = [Test('read', case, read, quick=6000), Test('damaged', dcase, damaged, quick=8000)]
