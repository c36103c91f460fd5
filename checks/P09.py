"""PSI: what is written reads back."""
import re
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from checks import _lat
from checks._lat import Runner, I, rt

DRIVERS = ['drv_pipe']
RULE = ('a lattice made by a random history (texts with escapes and multi-byte characters, gaps without symbols, merged and discarded edges, '
        'partitions with roles and scores, loose vertices) is written in PSI and read back; edges, partitions and text '
        'compared; non-trivial: an edge with a partition of other edges, a gap, or a shortened text')
chars = st.sampled_from('ab ż€𝄞_\\\n\t#*.,[<(=-$ab')
txt = st.text(alphabet=chars, max_size=9)
long_txt = st.text(alphabet=chars, min_size=8, max_size=30)
TAGS = ['token', 'lemma', 'x', 'my_tag', 'parse', '!pl', 'a-b', 'discarded']
tags1 = st.lists(st.sampled_from(TAGS), min_size=1, max_size=3, unique=True)
word = st.text(alphabet="abżA_\\*#.:;!?1 -'", min_size=1, max_size=6).filter(lambda s: s.strip() and s != "'")
CATS = st.one_of(st.sampled_from(['word', 'N', 'FRAG']), word)
TEXTS = st.one_of(st.sampled_from(['=', '', 'ala']), st.text(alphabet=chars, max_size=5))
avs = st.lists(st.tuples(st.sampled_from(['num', 'a_b', 'g', 'ż']), st.sampled_from(['sg', '7', 'a b', '_', 'ż\\', '\n', '-3'])), max_size=2, unique_by=lambda p: p[0])
item = st.tuples(CATS, TEXTS, avs.map(tuple))
seq = st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4))
sc = st.sampled_from([0.0, 0.0, 1.0, -2.5, 0.125, 12345.0, 1e-05, -1e+10, 0.333333])
add_op = st.tuples(st.just('add'), I, st.sampled_from([1, 2, 3, 5, 8, 20]), item, tags1, seq, sc, rt, rt)
part_op = st.tuples(st.sampled_from(['again', 'part']), I, tags1, seq, sc, rt)
ops = st.one_of(add_op, add_op, add_op, part_op, part_op, st.tuples(st.just('discard'), I), st.tuples(st.just('append'), txt), st.tuples(st.just('appendsym'), txt),
                st.tuples(st.just('role'), I, st.lists(st.integers(0, 5), min_size=1, max_size=3), st.sampled_from(['head', 'x y', '7', '_']), tags1))
loose = st.one_of(ops, ops, st.tuples(st.just('loose'), I), st.tuples(st.just('addl'), I, I, item, tags1, sc))
case = lambda o: st.tuples(st.one_of(txt, long_txt), lst(o, 1, 14, 9))


def canon(d, ren=None):
    """{edge: sorted partitions}, set of symbol edges that have no partitions"""
    text, nv, es = d
    ren = ren or {}
    sc = lambda x: float('%g' % x)

    def key(e):
        return (ren.get(e[0], e[0]), ren.get(e[1], e[1]), e[2], e[3], tuple(e[4]), tuple(map(tuple, e[5])), sc(e[6]))
    keys = [key(e) for e in es]
    ex, im = {}, set()
    for k, e in zip(keys, es):
        if not e[7]:
            im.add(k)
            continue
        ps = sorted(((tuple(t), sc(s), tuple((keys[r[0]] if isinstance(r[0], int) else key(r[0]), r[1]) for r in q)) for t, s, rule, q in e[7]), key=repr)
        assert k not in ex
        ex[k] = ps
    return text, ex, im


def add_roles(r, op):
    m = r.m
    live = [e for e in r.h if not e.dead and not e.implicit]
    if not live:
        return
    e = live[op[1] % len(live)]
    seq = [x for x in r.walk(e.src, op[2], m.pos(e.tgt))]
    hs = r.seq_handles(seq) if seq and all(not x.implicit for x in seq) else None
    if hs:
        k = [i for i, x in enumerate(r.h) if x is e][0]
        r.do_add(['part', k, op[4], [[h, op[3]] if i % 2 == 0 else h for i, h in enumerate(hs)], 0.0, -1, -1], lambda: m.add_part(e, op[4], seq, 0.0, -1, -1))


def cyclic(m):
    state = {}

    def go(e):
        if state.get(id(e)):
            return state[id(e)] == 1
        state[id(e)] = 1
        r = any(go(x) for p in e.parts for x in p[4])
        state[id(e)] = 2
        return r
    return any(go(e) for e in m.live())


def roundtrip(ctx, case):
    text, ops = case
    r = Runner('')
    r.step(('appendsym', text))
    for op in ops:
        if op[0] == 'role':
            add_roles(r, op)
        else:
            r.step(op)
    if cyclic(r.m):         # edges that consist of each other cannot be listed
        return
    reqs = r.ops
    d0, w0, w1, d1 = ctx.v('drv_pipe', 'chain', ['', [['ops', reqs], ['dumpi'], ['write', 'psi-writer', []], ['reread', 'psi-writer', [], 'psi-reader', []], ['dumpi']]])[1:]
    for x in (d0, w1, d1):
        check(not (isinstance(x, list) and x[0] == b'!'), 'writing or reading threw: %r\n%s', x, w0.decode('utf-8', 'replace') if isinstance(w0, bytes) else '')
    W = w1.decode('utf-8')
    ren = {}
    for line in W.split('\n'):
        if line and line[0] != '#':
            f = line.split()
            for m in re.findall(r'^\*?@(\d+)$', f[1]) + re.findall(r'^\*?@(\d+)$', f[2]):
                ren.setdefault(-1 - int(m), -1 - len(ren))
    t0, e0, i0 = canon(d0, ren)
    t1, e1, i1 = canon(d1)
    rows = [l for l in W.split('\n') if l and l[0] != '#']
    end = max([k[1] for k in e0] + [k[0] for k in e0] + [k[1] for k in i0] + [0])
    check(t0[:end] == t1[:end] and t0.startswith(t1), 'text: %r read back as %r\n%s', t0, t1, W)
    for k in e0:
        check(k in e1, 'edge %r is lost\n%s', k, W)
        check(e1[k] == e0[k], 'partitions of %r:\n  read back %r\n  were      %r\n%s', k, e1[k], e0[k], W)
    for k in e1:
        check(k in e0, 'edge %r appears\n%s', k, W)
    used = {s[0] for ps in e0.values() for p in ps for s in p[2]} & i0
    check(used <= i1, 'symbols lost: %r\n%s', used - i1, W)
    # a text that some edge covers may get symbols that it did not have
    more = {x for x in i1 - i0 if not any(k[0] <= x[0] and x[1] <= k[1] for k in e0)}
    check(not more, 'symbols appear: %r\n%s', more, W)
    gap = any(len(l.split()) >= 5 and l.split()[4] == '∅' for l in rows)
    ctx.nontrivial(any(p[2] and any(s[0] not in i0 for s in p[2]) for ps in e0.values() for p in ps) or gap or '...' in W)
    ctx.event(*(['gap'] if gap else []), *(['shortened'] if '...' in W else []), *(['partitions'] if any(len(p) > 1 for p in e0.values()) else []), *(['loose'] if ren else []))


TESTS = [Test('roundtrip', case(ops), roundtrip, quick=16000), Test('roundtrip-loose', case(loose), roundtrip, quick=8000)]
