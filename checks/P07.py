"""StringFrag against byte strings."""
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst

DRIVERS = ['drv_common']
RULE = ('a text and a sequence of operations making fragments (of the text, of fragments, own strings), copying, assigning and appending '
        'them, with all fragments compared with plain byte strings after each step; non-trivial: an append to a fragment of the text')
N = st.integers(0, 30)
txt = st.text(alphabet='abcż ab', max_size=14)
ops = st.one_of(st.tuples(st.just('new')), st.tuples(st.just('str'), st.text(alphabet='abż', max_size=6)), *[st.tuples(st.just('of'), N, N)] * 3,
                st.tuples(st.just('next'), N, N),
                st.tuples(st.just('sub'), N, N, N), st.tuples(st.just('copy'), N), st.tuples(st.just('assign'), N, N),
                *[st.tuples(st.just('append'), N, N)] * 3, st.tuples(st.just('find'), N, st.sampled_from('abcz'), N), st.tuples(st.just('at'), N, N),
                st.tuples(st.just('substr'), N, N, st.integers(-1, 6)), st.tuples(st.just('data'), N))


def frags(ctx, case):
    text, ops = case
    T = text.encode()
    F, kind, req, want = [], [], [], []
    nt = False

    def state():
        return [[f, len(f)] for f in F]
    ends = []
    for op in ops:
        n = op[0]
        o = list(op)
        if n in ('new', 'str', 'of', 'next'):
            if n == 'next':         # the fragment right after another one
                last = [e for e in ends if e is not None]
                if not last:
                    continue
                o = ['of', last[op[1] % len(last)], op[2]]
            if o[0] == 'of':
                o[1] %= len(T) + 1
                o[2] %= len(T) - o[1] + 1
                F.append(T[o[1]:o[1] + o[2]])
                ends.append(o[1] + o[2])
            else:
                F.append(b'' if n == 'new' else op[1].encode())
                ends.append(None)
            req.append(o)
            want.append(state())
            continue
        if not F:
            continue
        o[1] %= len(F)
        f = F[o[1]]
        if n == 'sub':
            o[2] %= len(f) + 1
            o[3] %= len(f) - o[2] + 1
            F.append(f[o[2]:o[2] + o[3]])
            ends.append(None)
        elif n == 'copy':
            F.append(f)
            ends.append(ends[o[1]])
        elif n == 'assign':
            o[2] %= len(F)
            F[o[1]] = F[o[2]]
            ends[o[1]] = ends[o[2]]
        elif n == 'append':
            o[2] %= len(F)
            nt |= ends[o[1]] is not None
            F[o[1]] = f + F[o[2]]
            ends[o[1]] = ends[o[2]] if ends[o[1]] is not None else None
        elif n == 'find':
            p = f.find(op[2].encode(), o[3])
            o[2] = ord(op[2])
            req.append(o)
            want.append(p)
            continue
        elif n == 'at':
            if not f:
                continue
            o[2] %= len(f)
            req.append(o)
            want.append(f[o[2]])
            continue
        elif n == 'substr':
            o[2] %= len(f) + 1
            req.append(o)
            want.append(f[o[2]:] if o[3] < 0 else f[o[2]:o[2] + o[3]])
            continue
        elif n == 'data':
            req.append(o)
            want.append(f)
            continue
        req.append(o)
        want.append(state())
    got = ctx.v('drv_common', 'frags', [text, req])
    for o, g, w in zip(req, got, want):
        equal(g, w, '%r in %r' % (o, text))
    ctx.nontrivial(nt)


TESTS = [Test('frags', st.tuples(txt, lst(ops, 1, 16, 10)), frags, quick=10000)]
