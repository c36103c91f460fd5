"""Reference model of the lattice: a multigraph over text positions and loose vertices."""
SYMBOL = frozenset([b'symbol'])
DBL_MAX = 1.7976931348623157e308


class ModelError(Exception):
    """The exception class the lattice is expected to throw."""
    def __init__(self, typ):
        self.typ = typ


def b(x):
    return x.encode('utf-8') if isinstance(x, str) else x


class Edge:
    __slots__ = ('src', 'tgt', 'cat', 'text', 'avs', 'tags', 'score', 'parts', 'implicit', 'dead', 'used')

    def __init__(self, src, tgt, cat, text, avs, tags, score, implicit=False):
        self.src, self.tgt, self.cat, self.text, self.avs = src, tgt, cat, text, avs
        self.tags, self.score, self.implicit = tags, score, implicit
        self.parts = []      # (tags, score, rule, tree, [Edge])
        self.dead = self.used = False

    def tup(self):
        return [self.src, self.tgt, self.cat, self.text, sorted(self.tags), [list(x) for x in sorted(self.avs)], float(self.score)]


def planes(tags):
    return frozenset(t for t in tags if t.startswith(b'!'))


def mask_matches(mask, tags):
    """mask: None (any) or a list of lists of tag names."""
    return mask is None or any(set(map(b, alt)) <= tags for alt in mask)


def mask_takes_symbol(mask):
    return mask is None or any(frozenset(map(b, alt)) == SYMBOL for alt in mask)


class Lattice:
    def __init__(self, text):
        self.text = b(text)
        self.edges = []          # in order of addition; includes implicit ones (flag)
        self.loose = 0
        self.loose_pos = {}      # virtual position used by generators to keep loose paths acyclic
        self.visible = set()
        self.covered = set()
        self.touched = set()     # vertices ever used by an explicit edge, and loose ones

    # --- positions
    def bounds(self):
        """character boundaries"""
        r, t = [], self.text
        for i in range(len(t) + 1):
            if i == len(t) or (t[i] & 0xC0) != 0x80:
                r.append(i)
        return r

    def symlen(self, i):
        c = self.text[i]
        return 1 if c < 0x80 else 2 if c < 0xE0 else 3 if c < 0xF0 else 4

    def symbol(self, i):
        return self.text[i:i + self.symlen(i)]

    # --- edges
    def live(self):
        return [e for e in self.edges if not e.dead]

    def implicit_at(self, v):
        for e in self.edges:
            if e.implicit and not e.dead and e.src == v:
                return e
        return None

    def out(self, v, mask):
        imp = [e for e in self.edges if e.implicit and not e.dead and e.src == v and mask_takes_symbol(mask)]
        return imp + [e for e in self.edges if not e.implicit and not e.dead and e.src == v and mask_matches(mask, e.tags)]

    def inn(self, v, mask):
        imp = [e for e in self.edges if e.implicit and not e.dead and e.tgt == v and mask_takes_symbol(mask)]
        return imp + [e for e in self.edges if not e.implicit and not e.dead and e.tgt == v and mask_matches(mask, e.tags)]

    def add(self, src, tgt, item, tags, seq=(), score=0.0, rule=-1, tree=-1):
        tags = frozenset(map(b, tags))
        cat, text, avs = b(item[0]), b(item[1]) if item[1] is not None else b'', tuple(sorted((b(k), b(v)) for k, v in item[2]))
        if not planes(tags):
            for e in seq:
                tags = tags | planes(e.tags)
        if src == tgt:
            raise ModelError('LoopEdgeException')
        if src >= 0 and tgt >= 0 and src > tgt:
            raise ModelError('ReversedEdgeException')
        one = src >= 0 and tgt >= 0 and src < len(self.text) and src + self.symlen(src) == tgt
        default = False
        if one and cat == b"'" + self.symbol(src) and not avs:
            if text == b'' and tags == SYMBOL:
                text = self.symbol(src)
            default = text == self.symbol(src)
        old = None
        same = [e for e in self.live() if (e.src, e.tgt, e.cat, e.text, e.avs) == (src, tgt, cat, text, avs)
                and planes(e.tags) == planes(tags)]
        if same:
            e = same[0]
            if any(x is e for x in seq):
                raise ModelError('EdgeSelfReferenceException')
            tags = tags | e.tags
            if not e.implicit:
                e.tags = tags
                e.score = max(e.score, score)
                e.parts.append((tags, float(score), rule, tree, list(seq)))
                return e
            e.dead = True
            old = e
        if tags == SYMBOL:
            sm = [['symbol']]
            if self.out(src, sm):
                if src >= 0:
                    self.visible.add(src)
                ins = self.inn(tgt, sm)
                if ins and ins[0].src >= 0:
                    self.visible.add(ins[0].src)
        if default and tags == SYMBOL and score == 0 and not seq and not self.implicit_at(src):
            if old:
                old.dead = False
                return old
            e = Edge(src, tgt, cat, text, avs, tags, 0.0, True)
            self.edges.append(e)
            return e
        e = Edge(src, tgt, cat, text, avs, tags, score)
        e.parts.append((tags, float(score), rule, tree, list(seq)))
        self.edges.append(e)
        self.touched.update((src, tgt))
        if src >= 0 and tgt >= 0:
            self.covered.update(range(src, tgt))
        return e

    def add_part(self, e, tags, seq=(), score=0.0, rule=-1, tree=-1):
        tags = frozenset(map(b, tags)) | planes(e.tags)
        return self.add(e.src, e.tgt, (e.cat, e.text, e.avs), tags, seq, score, rule, tree)

    def hidden(self, e):
        return e.implicit and e.src in self.covered and e.src not in self.visible

    def add_symbols(self, a, z):
        if a < 0 or z < 0:
            raise ModelError('WrongVertexException')
        while a != z:
            n = self.symlen(a)
            self.add(a, a + n, (b"'" + self.symbol(a), self.symbol(a), ()), [b'symbol'])
            a += n

    def add_loose(self, pos):
        self.loose += 1
        self.loose_pos[-self.loose] = pos
        self.touched.add(-self.loose)
        return -self.loose

    def pos(self, v):
        return float(v) if v >= 0 else self.loose_pos[v]

    # --- reading
    def vertices(self, skip=True):
        assert not self.loose
        r = []
        for v in self.bounds():
            if not skip or v in self.touched or self.out(v, None) or self.inn(v, None):
                r.append(v)
        return r

    def by_source(self, mask):
        return [e for v in self.vertices() for e in self.out(v, mask)]

    def by_target(self, mask):
        return [e for v in self.vertices() for e in self.inn(v, mask)]

    def path(self, v, mask):
        r = []
        while True:
            o = self.out(v, mask)
            if not o:
                return v, r
            r.append(o[-1])
            v = o[-1].tgt

    def edge_text(self, e):
        return b'@' if e.src < 0 or e.tgt < 0 else self.text[e.src:e.tgt]

    def full(self, e):
        return [e.tup(), self.hidden(e), self.edge_text(e),
                [[sorted(t), s, r, c, [x.tup() for x in q]] for t, s, r, c, q in e.parts]]

    def dump(self):
        return [self.text, 1 + len(self.bounds()) - 1 + self.loose, self.vertices(), [self.full(e) for e in self.by_source(None)]]
