"""PSI reader on damaged input."""
import re
from hypothesis import strategies as st
from lib.pbt import Test, check, lst
from checks import P09
from checks._lat import Runner

DRIVERS = ['drv_pipe']
RULE = ('a PSI file (written for a random lattice, or random rows) with up to 4 random edits (characters, numbers, columns, lines swapped, dropped, '
        'repeated) is read; the reader accepts or refuses with an exception, and what it accepted can be dumped and written in every format; '
        'non-trivial: an edit changed the file and a row was read')
num = st.sampled_from(['0', '1', '2', '3', '7', '12', '99', '-1', '0000', '@0', '@1', '*@0', '*3', '*@2', '300', 'x', ''])
cell = st.one_of(num, st.sampled_from(['ab', 'a_b', '∅', 'symbol', 'token', 'symbol,token', "'a", "',", "'[", 'N[1-2]', 'N[]', 'N<0.5>[1$head$-2]', 'N,a=b[1,2(x)<3>]', 'N[-]', 'N[0]', 'N[9]',
                                       'N[', 'N<', 'N<x>', 'N,', 'N,a', 'N,a=', '\\', 'a\\', 'ab...yz', '[', ']', '<', ',', '=', '"', '$', 'N[1$', 'N[1$$]', 'N[1(', '∅∅', '…', 'ż']),
                 st.text(alphabet="ab\\_<>[](),=$-'ż∅.", min_size=1, max_size=8))
edit = st.tuples(st.sampled_from(['cell', 'cell', 'cell', 'char', 'drop', 'dup', 'swap', 'cut', 'insert', 'bytes']), st.integers(0, 400), st.integers(0, 400), cell)
row = st.tuples(st.integers(1, 5), st.integers(0, 6), st.integers(0, 4), st.sampled_from(['ab', 'abcd', 'a', 'ż', '\\n', '_', 'a\\nb', '∅']), st.sampled_from(['token', 'symbol', 'x,token', '∅', 'symbol,x']),
                st.sampled_from(['', 'ab', 'a_b']), st.sampled_from(['N', "'a", 'N[]', 'N[1]', 'N[-]', 'N[1-2]', 'N,a=b', 'N<2>', '∅', 'N[1,2]', 'N[--]']))
rows = lst(row, 1, 6, 4).map(lambda rs: '\n'.join('%02d %04d %02d %s %s %s %s' % r for r in rs) + '\n')
case = st.tuples(st.one_of(P09.case(P09.ops).map(lambda c: ('lattice',) + c), P09.case(P09.loose).map(lambda c: ('lattice',) + c), rows.map(lambda r: ('rows', r))), lst(edit, 0, 4, 2))
WRITERS = [['psi-writer', []], ['simple-writer', []], ['json-simple-writer', []], ['bracketing-writer', []], ['dot-writer', []]]


def apply(W, edits):
    lines = W.split('\n')
    for kind, a, b, c in edits:
        if not lines:
            lines = ['']
        i = a % len(lines)
        f = lines[i].split(' ')
        if kind == 'cell':
            k = [j for j, x in enumerate(f) if x]
            if k:
                f[k[b % len(k)]] = c
                lines[i] = ' '.join(f)
        elif kind == 'char':
            if lines[i]:
                b %= len(lines[i])
                lines[i] = lines[i][:b] + c[:1] + lines[i][b + 1:]
        elif kind == 'drop':
            del lines[i]
        elif kind == 'dup':
            lines.insert(i, lines[i])
        elif kind == 'swap':
            j = b % len(lines)
            lines[i], lines[j] = lines[j], lines[i]
        elif kind == 'cut':
            lines[i] = lines[i][:b % (len(lines[i]) + 1)]
        elif kind == 'insert':
            b %= len(lines[i]) + 1
            lines[i] = lines[i][:b] + c + lines[i][b:]
    r = '\n'.join(lines).encode('utf-8')
    for kind, a, b, c in edits:
        if kind == 'bytes' and r:
            i = a % len(r)
            r = r[:i] + bytes([b % 256]) + r[i + 1:]
    return r


def damaged(ctx, case):
    src, edits = case
    if src[0] == 'rows':
        W = src[1]
    else:
        r = Runner('')
        r.step(('appendsym', src[1]))
        for op in src[2]:
            if op[0] != 'role':
                r.step(op)
        if P09.cyclic(r.m):
            return
        W = ctx.v('drv_pipe', 'chain', ['', [['ops', r.ops], ['write', 'psi-writer', []]]])[1].decode()
    D = apply(W, edits)
    if any(int(x) > 400 for x in re.findall(rb'[0-9]+', D)):
        return
    res = ctx.v('drv_pipe', 'chain', ['', [['read', 'psi-reader', [], D], ['dumpi']] + [['write'] + w for w in WRITERS]])
    bad = isinstance(res[0], list)
    if bad:
        ctx.event('refused: ' + res[0][1].decode())
    else:
        check(not (isinstance(res[1], list) and res[1][0] == b'!'), 'accepted, but the lattice cannot be listed: %r\n%s', res[1], D.decode('utf-8', 'replace'))
        for w, x in zip(WRITERS, res[2:]):
            if isinstance(x, list):
                ctx.event('%s refused: %s' % (w[0], x[1].decode()))
        ctx.nontrivial(D != W.encode() and len(res[1][2]) > 0)


TESTS = [Test('damaged', case, damaged, quick=32000)]
