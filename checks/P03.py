"""Corrections of the text: alternative paths of symbols."""
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst, Violation
from checks._lat import txt2, ALPHA
from lib.latmodel import Lattice

DRIVERS = ['drv_common']
RULE = ('a text with symbols and up to 4 corrections (insert, erase, replace; overlapping or not); the spellings of all symbol paths through '
        'the corrected lattice compared with those of a reference automaton, the raw text and the original symbols must stay; '
        'non-trivial: at least two corrections that were not refused')
N = st.integers(0, 12)
rep = st.text(alphabet=ALPHA, max_size=4)
case = st.tuples(st.text(alphabet=ALPHA, min_size=1, max_size=7),
                 st.lists(st.one_of(st.tuples(st.just('insert'), N, rep), st.tuples(st.just('erase'), N, N),
                                    st.tuples(st.just('replace'), N, N, rep)), min_size=1, max_size=4))
CAP = 2000


class Nfa:
    def __init__(self, text):
        self.text, self.loose = text, 0
        self.e = {i: [(text[i], i + 1)] for i in range(len(text))}     # in the order a query returns them
        self.end = len(text)

    def add(self, a, c, z):
        l = self.e.setdefault(a, [])
        if (c, z) not in l:
            l.append((c, z))

    def fresh(self):
        self.loose += 1
        return -self.loose

    def insert(self, v, t):
        if not t:
            return True
        a = v
        nxt = self.e.get(v, [None])[0]
        for c in t:
            z = self.fresh()
            self.add(a, c, z)
            a = z
        if nxt:
            self.add(a, nxt[0], nxt[1])
        return True

    def erase(self, a, z):
        if a == z:
            return True
        if not self.e.get(z):
            return False
        c, t = self.e[z][0]
        self.add(a, c, t)
        return True

    def replace(self, a, z, t):
        for i, c in enumerate(t):
            if a == z:
                return self.insert(a, t[i:])
            self.add(a, c, a + 1)
            a += 1
        return self.erase(a, z)


def spell(edges, start):
    """all spellings of maximal paths from start, None if too many"""
    memo = {}

    def go(v):
        if v not in memo:
            r = set() if edges.get(v) else {''}
            for c, z in edges.get(v, []):
                r |= {c + x for x in go(z)}
                if len(r) > CAP:
                    raise OverflowError
            memo[v] = r
        return memo[v]
    try:
        return go(start)
    except OverflowError:
        return None


def corrections(ctx, case):
    text, ops = case
    n = Nfa(text)
    off = [len(text[:i].encode()) for i in range(len(text) + 1)]
    req, want, done = [['appendsym', text]], [None], 0
    for op in ops:
        a = op[1] % (len(text) + 1)
        if op[0] == 'insert':
            req.append(['insert', off[a], op[2]])
            want.append(n.insert(a, op[2]))
        else:
            a, z = sorted((a, op[2] % (len(text) + 1)))
            if op[0] == 'erase':
                req.append(['erase', off[a], off[z]])
                want.append(n.erase(a, z))
            else:
                req.append(['replace', off[a], off[z], op[3]])
                want.append(n.replace(a, z, op[3]))
        done += want[-1]
    res = ctx.v('drv_common', 'lattice', ['', req + [['dump'], ['first'], ['last']]])
    for r, w, q in zip(res[1:], want[1:], req[1:]):
        exc = isinstance(r, list) and r and r[0] == b'!'
        check(exc == (not w), '%r on %r: %s, got %r', q, text, 'expected to be done' if w else 'expected to be refused', r)
        if exc:
            equal(r[1], b'WrongVertexException', 'refusal of %r' % (q,))
    t, nv, vs, es = res[-3]
    equal(t, text.encode(), 'raw text')
    equal(nv, len(text) + 1 + n.loose, 'number of vertices')
    equal(res[-2], 0, 'first vertex')
    edges = {}
    for e in es:
        s, z, c, x, tags, av, sc = e[0]
        equal(tags, [b'symbol'], 'tags')
        equal(c, b"'" + x, 'category of the symbol')
        edges.setdefault(s, []).append((x.decode(), z))
    for i, c in enumerate(text):
        check((c, off[i + 1]) in edges.get(off[i], []), 'the original symbol %r at %d is gone after %r', c, off[i], req)
    if not n.e.get(n.end):
        equal(res[-1], len(t), 'last vertex')
    check(not edges.get(res[-1]), 'the last vertex %r has out-edges', res[-1])
    w = spell(n.e, 0)
    if w is None:
        return
    g = spell(edges, 0)
    check(g is not None, 'too many spellings')
    check(g == w, 'spellings after %r on %r:\n  missing %r\n  unexpected %r', req, text, sorted(w - g)[:5], sorted(g - w)[:5])
    ctx.nontrivial(done >= 2)
    ctx.event(*[o[0] for o in ops], *(['refused'] if False in want else []))


TESTS = [Test('corrections', case, corrections, quick=12000)]
