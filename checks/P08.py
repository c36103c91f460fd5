"""Quoters: escape and unescape."""
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst

DRIVERS = ['drv_common']
RULE = ('random byte strings rich in special characters; escaping compared with the documented table, unescaping of the result gives the '
        'string back, unescaping any string gives what the table says or an exception; non-trivial: a special character inside')
s = st.one_of(st.text(alphabet=' _\\*#\n\t\rnt a#ż<|', max_size=20), st.binary(max_size=12).map(lambda x: x.decode('latin1')))
TABLE = {' ': '_', '\n': '\\n', '\t': '\\t', '\r': '\\r', '_': '\\_', '*': '\\*', '\\': '\\\\'}


def esc(x, add):
    return ''.join(TABLE.get(c, '\\' + c if c in add else c) for c in x)


def unesc(x, add):
    r, i = [], 0
    while i < len(x):
        c = x[i]
        if c == '_':
            r.append(' ')
        elif c == '\\':
            i += 1
            if i == len(x):
                return None
            d = {'n': '\n', 't': '\t', 'r': '\r', '_': '_', '*': '*', '\\': '\\'}.get(x[i], x[i] if x[i] in add else None)
            if d is None:
                return None
            r.append(d)
        else:
            r.append(c)
        i += 1
    return ''.join(r)


def quote(ctx, case):
    kind, add, x = case
    b = x.encode()
    got = ctx.v('drv_common', 'quote', [kind, add, x])
    a = '#' if kind == 'psi' else add
    equal(got[0], esc(x, a).encode(), 'escape')
    equal(got[1], b, 'unescape(escape)')
    u = unesc(x, a)
    if u is None:
        check(isinstance(got[2], list) and got[2][0] == b'!' and b'QuoterException' in got[2][1], 'unescape of a bad string gave %r', got[2])
    else:
        equal(got[2], u.encode(), 'unescape')
    e = got[0]
    check(not any(c in e for c in b' \n\t\r'), 'white space left after escaping: %r', e)
    ctx.nontrivial(any(c in ' _\\*#\n\t\r' for c in x))


TESTS = [Test('quote', st.tuples(st.sampled_from(['psi', 'utt']), st.sampled_from(['', '#', '<>|', '.,']), s), quote, quick=10000)]
