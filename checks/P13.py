"""Conversion of character encodings."""
import functools, unicodedata
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst

DRIVERS = ['drv_common', 'drv_pipe']
RULE = ('known: a text of characters of an encoding, encoded by Python (often longer than any buffer, with NUL characters and characters at buffer borders), is '
        'converted to UTF-8; pair: it is converted to another encoding and decoded by Python; any: bytes of any kind are detected and converted without loss '
        'or crash; late: text detected and converted is so after and before any amount of plain digits, blanks or newlines; pipeline: a pipeline run with -e on encoded input gives what it gives on the UTF-8 text, in every way of running it; non-trivial: the text '
        'has characters outside ASCII')
ENC = {'windows-125%d' % i: 'cp125%d' % i for i in range(9)}
ENC.update({'ISO-8859-%d' % i: 'iso8859_%d' % i for i in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16]})
ENC.update({'GBK': 'gbk', 'CP939': 'gbk', 'ISO-2020-JP': 'iso2022_jp', 'CP866': 'cp866', 'KOI8-R': 'koi8_r', 'KOI8-RU': 'koi8_u', 'KOI8-U': 'koi8_u', 'x-mac-cyrillic': 'mac_cyrillic',
            'UCS-2': 'utf-16-be', 'UTF-7': 'utf-7', 'GB-2312': 'gb2312', 'Big5': 'big5', 'HZ-GB-2312': 'hz', 'UTF-8': 'utf-8', 'ascii/unknown': 'ascii'})
DIFF = {'KOI8-RU': '\u255d\u256c', 'x-mac-cyrillic': '\u0490\u0491\u20ac', 'Big5': '\u02cd\u2574\uffe3', 'ISO-2020-JP': '\x1b\\~¥‾', 'HZ-GB-2312': ''}
del ENC['ascii/unknown']


@functools.lru_cache(None)
def chars(enc):
    r = []
    for cp in range(0, 0x2fa20):
        if 0xd800 <= cp < 0xe000 or chr(cp) in DIFF.get(enc, '') or cp == 0xfeff:
            continue
        try:
            chr(cp).encode(ENC[enc])
        except UnicodeError:
            continue
        r.append(chr(cp))
        if len(r) > 9000 and cp > 0xffff:
            break
    return r


@st.composite
def texts(draw, names=sorted(ENC), scale=True):
    enc = draw(st.sampled_from(names))
    cs = chars(enc)
    hi = [c for c in cs if ord(c) > 127]
    ch = st.one_of(st.sampled_from(cs), st.sampled_from(hi), st.sampled_from('ab c\n1\0'))
    t = draw(st.lists(ch, max_size=12).map(''.join))
    size = draw(st.sampled_from([0, 0, 0, 0, 1, 999, 33333, 49999, 99999, 100000, 100001, 150000])) if scale else 0
    unit = draw(st.lists(ch, min_size=1, max_size=3).map(''.join)) if size else ''
    return enc, t + unit * (size // len(unit) if unit else 0) + draw(st.lists(ch, max_size=4).map(''.join))


def same(got, want, enc, what):
    g = got.decode('utf-8', 'surrogateescape')
    if enc in ('windows-1255', 'windows-1258'):      # the converter composes letters and diacritics
        g, want = unicodedata.normalize('NFD', g), unicodedata.normalize('NFD', want)
    if g != want:
        k = next((i for i, (x, y) in enumerate(zip(g, want)) if x != y), min(len(g), len(want)))
        check(False, '%s: lengths %d and %d, differ at %d: %r, expected %r', what, len(g), len(want), k, g[k:k + 20], want[k:k + 20])


def held(enc, text):
    """the last character is one the converter keeps back for a diacritic"""
    return text != '' and (enc == 'windows-1255' and '\u05b0' <= text[-1] <= '\ufb4f' or enc == 'windows-1258' and ('A' <= text[-1] <= '\u01b0' or unicodedata.combining(text[-1]) > 0))


def known(ctx, case):
    enc, text = case
    hz = enc == 'HZ-GB-2312'
    if hz and (any(ord(c) > 127 for c in text) or '~' in text):
        ctx.exclude('F60')
    ctx.exclude('F62', held(enc, text))
    same(ctx.v('drv_common', 'enc', ['to8', enc, text.encode(ENC[enc])]), text, enc, enc)
    ctx.nontrivial(any(ord(c) > 127 for c in text))
    ctx.event(*(['long'] if len(text) > 50000 else []), *(['NUL'] if '\0' in text else []))


TARGETS = sorted(k for k in ENC if k not in ('ISO-2020-JP', 'UTF-7', 'HZ-GB-2312', 'windows-1255', 'windows-1258', 'UTF-8', 'CP939'))


@st.composite
def pairs(draw):
    a, b = draw(st.sampled_from(TARGETS)), draw(st.sampled_from(TARGETS))
    cs = sorted(set(chars(a)) & set(chars(b)))
    ch = st.one_of(st.sampled_from(cs), st.sampled_from([c for c in cs if ord(c) > 127] or ['a']))
    return a, b, draw(st.lists(ch, max_size=10).map(''.join)) * draw(st.sampled_from([1, 1, 1, 1, 40000]))


def pair(ctx, case):
    a, b, text = case
    r = ctx.v('drv_common', 'enc', ['convert', a, b, text.encode(ENC[a])])
    try:
        g = r.decode(ENC[b])
    except UnicodeError as e:
        check(False, '%s to %s: %s', a, b, e)
    check(g == text, '%s to %s: got %r, expected %r', a, b, g[:50], text[:50])
    ctx.nontrivial(any(ord(c) > 127 for c in text))


anything = st.one_of(st.binary(max_size=40), texts(scale=False).map(lambda x: x[1].encode(ENC[x[0]])), st.text(alphabet='abc xyz.,\n', max_size=60).map(str.encode),
                     st.text(alphabet='zażółć gęślą jaźń', max_size=40).map(str.encode), st.text(alphabet='зaпривет мир', max_size=60).map(str.encode),
                     st.tuples(st.sampled_from([b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'\xff\xfe\0\0', b'\0\0\xfe\xff', b'\x1b$B', b'~{']), st.binary(max_size=20)).map(b''.join))


def any_(ctx, case):
    x = ctx.v('drv_common', 'enc', ['auto', case])
    check(x[0:1] != [b'!'], 'threw %r', x)
    d, r = x
    equal(ctx.v('drv_common', 'enc', ['to8', d, case]), r, 'converted from the detected encoding %r' % d)
    if d in (b'ascii/unknown', b'UTF-8'):
        equal(r, case, 'not converted')
    if not any(c > 127 or c in (27, 126) for c in case):
        equal(d, b'ascii/unknown', 'ASCII')
        ctx.event('ascii')
    if d.decode() in ENC and d not in (b'UTF-8', b'HZ-GB-2312', b'CP939') and r != case:
        ctx.event('converted')
        ctx.nontrivial()
        r.decode('utf-8')
    # an encoding nobody knows leaves the text alone
    equal(ctx.v('drv_common', 'enc', ['to8', 'no-such', case]), case, 'unknown encoding')


LATE = ['koi8_r', 'cp1251', 'iso8859_5', 'cp866', 'mac_cyrillic']
PHRASES = ['Съешь же ещё этих мягких французских булок, да выпей чаю. ', 'В чащах юга жил бы цитрус? Да, но фальшивый экземпляр! ', 'Широкая электрификация южных губерний даст мощный толчок подъёму сельского хозяйства. ']


def late(ctx, case):
    """what is before the letters does not hide them"""
    enc, phrases, size, unit, auto = case
    text = ' ' + ''.join(PHRASES[i] for i in phrases)
    raw = text.encode(enc)
    d0, r0 = ctx.v('drv_common', 'enc', ['auto', raw])
    if d0.decode() not in ENC or r0 != text.encode():
        return
    pre = (unit * size)[:size].encode()
    d, r = ctx.v('drv_common', 'enc', ['auto', pre + raw])
    equal(d, d0, 'detected after %d plain characters' % size)
    equal(r, pre + r0, 'converted after %d plain characters' % size)
    d, r = ctx.v('drv_common', 'enc', ['auto', raw + pre])
    equal(d, d0, 'detected before %d plain characters' % size)
    equal(r, r0 + pre, 'converted before %d plain characters' % size)
    ctx.nontrivial(size > 0)
    ctx.event(d0.decode())


lcase = st.tuples(st.sampled_from(LATE), lst(st.integers(0, 2), 5, 12, 8), st.sampled_from([0, 1, 100, 1000, 1023, 1024, 4095, 4096, 4097, 5000, 8192, 10000, 40000, 65536, 100000, 120000]),
                  st.sampled_from(['7', '12 ', '0.', '\n']), st.booleans())

WHOLE = ['txt-reader --whole-text ! simple-writer --tags frag', 'txt-reader --line-by-line ! simple-writer --tags frag', 'txt-reader ! tp-tokenizer --lang pl ! psi-writer', 'txt-reader ! json-simple-writer --tags symbol']
pcase = st.tuples(texts(names=['ISO-8859-2', 'windows-1250', 'ISO-8859-1', 'ISO-8859-16', 'KOI8-R', 'Big5', 'UTF-7', 'ISO-2020-JP'], scale=False), st.sampled_from(WHOLE), st.sampled_from(['stream', 'line', 'other']),
                  st.sampled_from(['-e %s', '--from-encoding %s', '--from-encoding=%s', '-l -e %s']), st.booleans())


def pipeline(ctx, case):
    (enc, text), pipe, mode, opt, longer = case
    text = text.replace('\0', '')
    if '-l' in opt and '--line' in pipe:
        return                  # the runner takes the option of the reader for its own
    if '-l' in opt:
        if enc in ('UTF-7', 'ISO-2020-JP'):
            return
        text = text.replace('\n', ' ')
    if longer:
        text = text + ' ' + text * 400 if 'whole' in pipe or 'line-by' in pipe else text
    if not text:
        return
    pre = '-l ' if '-l' in opt else ''
    want = ctx.v('drv_pipe', 'pipe', [pre + pipe, [text], mode])
    check(want[0] is None, 'refused %r', want)
    got = ctx.v('drv_pipe', 'pipe', [opt % enc + ' ' + pipe, [text.encode(ENC[enc])] * 2, mode])
    check(got[0] is None, 'refused %r', got)
    for g in got[1:]:
        check(isinstance(g, bytes) and g == want[1], '%s of %r in %s, %s: got %r, expected %r', pipe, text[:60], enc, mode, g[:300], want[1][:300])
    ctx.nontrivial(any(ord(c) > 127 for c in text))
    ctx.event(mode, opt[:2])


TESTS = [Test('known', texts(), known, quick=4000, explicit=[('HZ-GB-2312', '¤'), ('windows-1255', 'ת'), ('windows-1258', 'a')]),
         Test('pair', pairs(), pair, quick=3000), Test('late', lcase, late, quick=400), Test('any', anything, any_, quick=4000),
         Test('pipeline', pcase, pipeline, quick=2500)]
