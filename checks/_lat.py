"""Histories over a lattice: strategies and a runner comparing the real lattice with lib.latmodel."""
from hypothesis import strategies as st
from lib.latmodel import Lattice, ModelError, SYMBOL, mask_matches, planes
from lib import latmodel
from lib.pbt import check, equal, Violation, lst

TAGS = ['symbol', 'token', 'lemma', 'form', 'parse', 'x', 'y', 'discarded', '!pl', '!en', 'blank']
CATS = ['word', 'N', "'a", 'frag', 'B', 'FORM']
TEXTS = [None, '', 'a', 'ala', 'ż', 'b c']
AVS = [(), (), (('num', 'sg'),), (('num', 'pl'),), (('num', 'sg'), ('case', '7')), (('g', 'ż'),)]
SCORES = [0.0, 0.0, 1.0, -2.5, 0.125, 3.0, -8.0]
ALPHA = 'ab ż€𝄞ab .'
txt = st.text(alphabet=ALPHA, max_size=7)
txt2 = st.text(alphabet=ALPHA, min_size=2, max_size=6)
I = st.integers(0, 40)
tagset = st.lists(st.sampled_from(TAGS), max_size=3, unique=True)
tags1 = st.one_of(tagset, st.sampled_from([['symbol'], ['token'], ['lemma', 'x'], ['token', '!pl'], ['token', '!en'], ['parse', '!pl']]))
MASKS = [None, [['symbol']], [['token']], [['lemma']], [['token'], ['lemma']], [['token', '!pl']], [['symbol'], ['x']], [['x', 'y']],
         [['discarded']], [['symbol', 'x']], [['token', 'x'], ['y']], [['token'], ['x', 'y']], [['x', 'token', 'y']], [['x'], ['lemma', 'y']], [['x', 'lemma'], ['y']], [['nosuch']]]
mask = st.sampled_from(MASKS)
item = st.tuples(st.sampled_from(CATS + ['=']), st.sampled_from(TEXTS + ['=', '=']), st.sampled_from(AVS))
seq = st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4))
sc = st.sampled_from(SCORES)
rt = st.sampled_from([-1, -1, 0, 3, 17])

add_op = st.tuples(st.just('add'), I, st.sampled_from([1, 1, 2, 3, 5, 0, -1]), item, tags1, seq, sc, rt, rt)
again_op = st.tuples(st.just('again'), I, tags1, seq, sc, rt)
part_op = st.tuples(st.just('part'), I, tags1, seq, sc, rt)
mut = [add_op, add_op, add_op, again_op, again_op, part_op, st.tuples(st.just('discard'), I), st.tuples(st.just('grab'), I, mask),
       st.tuples(st.just('append'), txt), st.tuples(st.just('appendsym'), txt), st.tuples(st.just('symbols'), I, I)]
loose_ops = [st.tuples(st.just('loose'), I), st.tuples(st.just('addl'), I, I, item, tags1, sc)]
qry = [st.tuples(st.sampled_from(['out', 'in', 'path', 'firstout', 'firstin']), I, mask),
       st.tuples(st.sampled_from(['src', 'tgt']), mask), st.tuples(st.just('allout'), I), st.tuples(st.just('allin'), I)]
cursor = st.tuples(st.just('cursor'), I, mask, st.booleans(), st.lists(st.tuples(I, mask, st.booleans()), min_size=1, max_size=4))
rel = [st.tuples(st.just('children'), I, mask), st.tuples(st.just('parent'), I, mask), st.tuples(st.just('origin'), I, st.sampled_from(TAGS)),
       st.tuples(st.just('lemma'), I), st.tuples(st.just('count'), I, st.integers(0, 5)), st.tuples(st.just('isdisc'), I),
       st.tuples(st.just('edge'), I), st.tuples(st.just('nth'), I, st.lists(st.integers(0, 5), min_size=1, max_size=4)),
       st.tuples(st.just('vertices'), st.booleans()), st.tuples(st.just('ends')), st.tuples(st.just('vertex'), st.integers(-3, 60))]


def histories(ops, n, avg=None):
    return st.tuples(st.one_of(txt, txt2, txt2), st.booleans(), lst(st.one_of(*ops), 1, n, avg))


class Runner:
    """Translates abstract operations to concrete ones, predicting each outcome with the model."""

    def __init__(self, text):
        self.m = Lattice(text)
        self.text0 = text
        self.ops, self.want, self.kind = [], [], []
        self.h = []
        self.merged = self.planes = self.converted = self.errors = 0

    def emit(self, op, want, kind='eq'):
        self.ops.append(op)
        self.want.append(want)
        self.kind.append(kind)

    def walk(self, v, choice, upto):
        """a contiguous sequence of existing edges starting at v"""
        r, i = [], 0
        while self.m.pos(v) < upto and i < 12:
            o = [e for e in self.m.out(v, None) if self.m.pos(e.tgt) <= upto]
            if not o:
                break
            e = o[choice[i % len(choice)] % len(o)]
            r.append(e)
            v, i = e.tgt, i + 1
        return r

    def seq_handles(self, seq):
        """handles of the edges of seq (grabbing them through add results is not always possible)"""
        r = []
        for e in seq:
            k = [i for i, x in enumerate(self.h) if x is e]
            if not k:
                if e.implicit:
                    self.emit(['grab', e.src, [['symbol']]], e.tup())
                    self.h.append(e)
                    k = [len(self.h) - 1]
                else:
                    return None
            r.append(k[0])
        return r

    def do_add(self, conc, fn):
        before = len(self.m.edges)
        nlive = len(self.m.live())
        try:
            e = fn()
        except ModelError as x:
            self.emit(conc, x.typ, 'exc')
            self.errors += 1
            return None
        if len(self.m.edges) == before:
            self.merged += 1
        elif len(self.m.live()) == nlive:
            self.converted += 1
        self.emit(conc, e.tup())
        self.h.append(e)
        return e

    def would_convert_used(self, src, tgt, it, tags):
        """adding would make explicit an implicit edge that some sequence refers to"""
        m = self.m
        i = m.implicit_at(src)
        if not i or not i.used or i.tgt != tgt:
            return False
        return latmodel.b(it[0]) == i.cat

    def mk(self, it, src, tgt):
        cat, text, avs = it
        own = self.m.text[src:tgt] if src >= 0 and tgt >= 0 else b'?'
        if cat == '=':
            cat = b"'" + own
        if text == '=':
            text = own
        return (cat, text, avs)

    def add(self, src, tgt, it, tags, choice, score, rule, tree):
        m = self.m
        it = self.mk(it, src, tgt)
        seq = self.walk(src, choice, m.pos(tgt)) if choice and m.pos(src) < m.pos(tgt) else []
        if self.would_convert_used(src, tgt, it, tags):
            return
        hs = self.seq_handles(seq)
        if hs is None:
            seq, hs = [], []
        for e in seq:
            e.used = True
        item = [it[0], it[1], [list(x) for x in it[2]]]
        return self.do_add(['add', src, tgt, item, tags, hs, score, rule, tree],
                           lambda: m.add(src, tgt, it, tags, seq, score, rule, tree))

    def step(self, op):
        m, n = self.m, op[0]
        B = m.bounds()
        live = [e for e in self.h if not e.dead]
        V = B + sorted(m.loose_pos)
        if n == 'append':
            m.text += op[1].encode()
            self.emit(['append', op[1]], None)
        elif n == 'appendsym':
            a = len(m.text)
            m.text += op[1].encode()
            m.add_symbols(a, len(m.text))
            self.emit(['appendsym', op[1]], None)
        elif n == 'symbols':
            i, j = sorted((op[1] % len(B), op[2] % len(B)))
            # adding symbols where a sequence of such edges exists would only repeat them
            m.add_symbols(B[i], B[j])
            self.emit(['symbols', B[i], B[j]], None)
        elif n == 'loose':
            p = B[op[1] % len(B)]
            v = m.add_loose(p + 0.25 + 0.001 * m.loose)
            self.emit(['loose'], v)
        elif n == 'addl':
            a, z = V[op[1] % len(V)], V[op[2] % len(V)]
            if a == z or (a >= 0 and z >= 0):
                return
            if m.pos(a) > m.pos(z):
                a, z = z, a
            self.add(a, z, op[3], op[4], None, op[5], -1, -1)
        elif n == 'add':
            i = op[1] % len(B)
            j = i + op[2]
            if j < 0 or j >= len(B):
                return
            self.add(B[i], B[j], op[3], op[4], op[5], op[6], op[7], op[8])
        elif n == 'again':      # the same span and item as an existing edge
            if not live:
                return
            e = live[op[1] % len(live)]
            text = e.text
            self.add(e.src, e.tgt, (e.cat, text, e.avs), op[2], op[3], op[4], op[5], -1)
        elif n in ('part', 'discard', 'isdisc', 'edge', 'children', 'parent', 'origin', 'lemma'):
            if not live:
                return
            e = live[op[1] % len(live)]
            k = [i for i, x in enumerate(self.h) if x is e][0]
            if n == 'part':
                if e.implicit and e.used:
                    return
                seq = self.walk(e.src, op[3], m.pos(e.tgt)) if op[3] else []
                hs = self.seq_handles(seq)
                if hs is None:
                    seq, hs = [], []
                for x in seq:
                    x.used = True
                if e.implicit and e.used:
                    return
                self.do_add(['part', k, op[2], hs, op[4], op[5], -1], lambda: m.add_part(e, op[2], seq, op[4], op[5], -1))
            elif n == 'discard':
                if e.implicit and e.used:
                    return
                new = m.add_part(e, ['discarded'], [], -latmodel.DBL_MAX)
                self.emit(['discard', k], None)
                if new is not e:
                    # the edge became explicit: reach it through a query
                    self.emit(['count', e.src, e.tgt], sum(1 for x in m.live() if (x.src, x.tgt) == (e.src, e.tgt)))
            elif n == 'isdisc':
                self.emit(['isdisc', k], b'discarded' in e.tags)
            elif n == 'edge':
                self.emit(['edge', k], m.full(e))
            elif n == 'children':
                want = []
                for c in m.out(e.src, op[2]):
                    if c.tgt == e.tgt:
                        want += [c.tup() for p in c.parts for x in p[4] if x is e]
                self.emit(['children', k, op[2]], want)
            else:
                def parent(c, msk):
                    for p in c.parts:
                        for x in p[4]:
                            if mask_matches(msk, x.tags):
                                return x
                    return None
                if n == 'parent':
                    p = parent(e, op[2])
                    self.emit(['parent', k, op[2]], p.tup() if p else None)
                else:
                    tag = 'lemma' if n == 'lemma' else op[2]
                    p, steps = parent(e, None), 0
                    while p is not None and tag.encode() not in p.tags:
                        p, steps = parent(p, None), steps + 1
                        if steps > 50:
                            return
                    if n == 'lemma':
                        self.emit(['lemma', k], p.text if p else None)
                    else:
                        self.emit(['origin', k, tag], p.tup() if p else None)
        elif n == 'count':
            i = op[1] % len(B)
            j = min(len(B) - 1, i + op[2])
            self.emit(['count', B[i], B[j]], sum(1 for x in m.live() if (x.src, x.tgt) == (B[i], B[j])))
        elif n == 'nth':
            s = self.walk(B[op[1] % len(B)], op[2], 1e9)
            hs = self.seq_handles(s)
            if hs:
                self.emit(['nth', hs], [x.tup() for x in s])
        elif n == 'vertices':
            if not m.loose:
                self.emit(['vertices', op[1]], m.vertices(op[1]))
        elif n == 'ends':
            if not m.loose:
                self.emit(['first'], 0)
                self.emit(['last'], len(m.text))
        elif n == 'vertex':
            if 0 <= op[1] <= len(m.text):
                self.emit(['vertex', op[1]], op[1])
            else:
                self.emit(['vertex', op[1]], 'NoVertexException', 'exc')
        elif n == 'grab':
            v = V[op[1] % len(V)]
            o = m.out(v, op[2])
            if o:
                self.emit(['grab', v, op[2]], o[0].tup())
                self.h.append(o[0])
            else:
                self.emit(['grab', v, op[2]], 'NoEdgeException', 'exc')
        elif n in ('out', 'in', 'firstout', 'firstin', 'path', 'allout', 'allin'):
            v = V[op[1] % len(V)]
            if n in ('out', 'in'):
                self.emit([n, v, op[2]], [e.tup() for e in (m.out if n == 'out' else m.inn)(v, op[2])])
            elif n in ('allout', 'allin'):
                self.emit([n, v], [e.tup() for e in (m.out if n == 'allout' else m.inn)(v, None)])
            elif n == 'path':
                z, p = m.path(v, op[2])
                self.emit(['path', v, op[2]], (z, p), 'path')
            else:
                o = (m.out if n == 'firstout' else m.inn)(v, op[2])
                if o:
                    self.emit([n, v, op[2]], o[0].tup())
                else:
                    self.emit([n, v, op[2]], 'NoEdgeException', 'exc')
        elif n == 'cursor':     # other questions are asked while an iteration is open
            v = V[op[1] % len(V)]
            self.emit([n, v, op[2], int(op[3]), [[V[q[0] % len(V)], q[1], int(q[2])] for q in op[4]]], [e.tup() for e in (m.inn if op[3] else m.out)(v, op[2])])
        elif n in ('src', 'tgt'):
            if m.loose:
                self.emit([n, op[1]], sorted([e.tup() for e in m.live() if (mask_takes_symbol(op[1]) if e.implicit else mask_matches(op[1], e.tags))]), 'sorted')
            else:
                self.emit([n, op[1]], [e.tup() for e in (m.by_source if n == 'src' else m.by_target)(op[1])])
        else:
            raise AssertionError(n)

    def dump(self):
        m = self.m
        if not m.loose:
            self.emit(['dump'], m.dump())
        else:
            self.emit(['dump'], None, 'loosedump')

    def run(self, ctx):
        m = self.m
        res = ctx.v('drv_common', 'lattice', [self.text0, self.ops])
        for i, (op, want, kind, got) in enumerate(zip(self.ops, self.want, self.kind, res)):
            where = 'operation %d %r of %r on %r' % (i, op, [o[:9] for o in self.ops[:i + 1]][-6:], self.text0)
            isexc = isinstance(got, list) and len(got) == 3 and got[0] == b'!'
            if kind == 'exc':
                check(isexc and got[1].decode() == want, '%s: expected %s, got %r', where, want, got)
                continue
            if kind == 'path':
                z, p = want
                text = b''.join(m_text(self, e) for e in p)
                if not isexc:
                    # the texts of edges at the time of the call; '@' for an edge at a loose vertex
                    equal(got, [z, [e for e in self.snap[i]], text, text, len(p), not p], where)
                else:
                    raise Violation('%s: threw %r' % (where, got))
                continue
            if kind == 'sorted':
                check(not isexc, '%s: threw %r', where, got)
                equal(sorted(got), want, where)
                continue
            if kind == 'loosedump':
                text, nv, vs, es = got
                equal(text, m.text, where)
                equal(nv, len(m.bounds()) + m.loose, where + ' (vertices)')
                equal(sorted(es, key=repr), sorted([m.full(e) for e in m.live()], key=repr), where)
                order = {v: k for k, v in enumerate(vs)}
                check(len(order) == len(vs), '%s: a vertex is listed twice: %r', where, vs)
                need = set(m.touched) | {v for e in m.live() for v in (e.src, e.tgt)}
                check(need <= set(vs), '%s: vertices missing: %r', where, need - set(vs))
                for e in m.live():
                    check(order[e.src] < order[e.tgt], '%s: vertex %d listed after %d', where, e.src, e.tgt)
                continue
            equal(got, want, where)
        check(len(res) == len(self.ops), 'lost replies')


from lib.latmodel import mask_takes_symbol


def m_text(r, e):
    return r.m.edge_text(e)


def path_snapshots(r):
    pass


def play(case, final=()):
    text, sym, ops = case
    r = Runner('' if sym else text)
    r.snap = {}
    if sym:
        r.step(('appendsym', text))
    for op in list(ops) + list(final):
        r.step(op)
        if r.ops and r.kind[-1] == 'path':
            r.snap.setdefault(len(r.ops) - 1, [e.tup() for e in r.want[-1][1]])
    return r
