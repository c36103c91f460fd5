"""Archives: what is packed in them comes out unchanged; damage is noticed."""
import fcntl
import hashlib
import io
import os
import re
import struct
import tempfile
import zipfile
import zlib
from hypothesis import strategies as st
from lib.pbt import Test, check, equal, lst
from checks.P16 import scratch

DRIVERS = ['drv_common', 'drv_pipe']
RULE = ('random zip and gzip archives and plain files are unpacked and compared with what was packed in them, damaged archives must be refused or give only contents that were packed, the kind of a document '
        'is compared with its definition, and reading a packed document with reading what is in it; non-trivial: two files unpacked, or damage noticed, or a kind known, or a document read')

PARTS = ['a', 'b', 'word', 'xl', 'document.xml', 'żółw.txt', 'x y', '.hid', 'a.b.c', 'q' * 60, '+(1)', 'Ala']
OFFICE = ['[Content_Types].xml', 'word/document.xml', 'xl/worksheets/sheet1.xml', 'ppt/slides/slide1.xml', 'ppt/slides/slide2.xml', 'xl/sharedStrings.xml', 'word/document_xml', 'xword/document.xml']
name = st.one_of(lst(st.sampled_from(PARTS), 1, 4, 1.5).map('/'.join), st.sampled_from(OFFICE))
content = st.one_of(st.binary(max_size=40), st.tuples(st.sampled_from([0, 1, 1000, 4095, 4096, 8191, 8192, 12288, 16383, 16384, 16385, 32768, 70000]), st.integers(0, 2), st.integers(0, 255)).map(
    lambda x: bytes([x[2]]) * x[0] if x[1] == 0 else (b'abc%d;' % x[2] * (x[0] // 4 + 1))[:x[0]] if x[1] == 1 else b''.join(hashlib.sha256(b'%d %d' % (x[2], i)).digest() for i in range(x[0] // 32 + 1))[:x[0]]))
extra = st.sampled_from([0, 0, 0, 0, 1, 100, 3000, 12000, 30000])
entry = st.tuples(name, content, st.booleans(), extra, st.sampled_from([0, 0, 0, 5, 300]), st.sampled_from([3, 0]))
archive = st.tuples(lst(entry, 0, 12, 3), st.sampled_from([0, 0, 0, 10, 1000, 4000]), st.booleans(), st.sampled_from([0, 0, 0, 0, 150]), st.booleans())


class Pipe(io.BytesIO):
    def seekable(self):
        return False

    def seek(self, *a):
        raise OSError

    def tell(self):
        raise OSError


def zipped(case):
    """the bytes of a zip archive, and what is in it"""
    entries, comment, stream, many, dirs = case
    b = Pipe() if stream else io.BytesIO()
    want = {}
    with zipfile.ZipFile(b, 'w') as z:
        es = list(dict((e[0], e) for e in entries).values()) + [('m%03d/%s' % (i, 'n' * 40), b'%d' % i, False, 0, 0, 3) for i in range(many)]
        for n, c, deflate, ex, com, system in es:
            if dirs:
                d = zipfile.ZipInfo('dir%d/' % len(want))
                d.create_system = system
                z.writestr(d, b'')
            i = zipfile.ZipInfo(n)
            i.create_system = system
            i.compress_type = zipfile.ZIP_DEFLATED if deflate else zipfile.ZIP_STORED
            i.extra = struct.pack('<HH', 0xcafe, ex) + b'e' * ex if ex else b''
            i.comment = b'c' * com
            z.writestr(i, c)
            if not (system == 3 and n.split('/')[-1].startswith('.')):      # the files in which a Mac puts its own data
                want[n.encode()] = c
        z.comment = b'z' * comment
    return b.getvalue(), want


def gzipped(case):
    data, level, fields = case
    flags, h = 0, b''
    if 'extra' in fields:
        flags, h = flags | 4, h + struct.pack('<H', 7) + b'AB\x03\0xyz'
    if 'name' in fields:
        flags, h = flags | 8, h + b'inside.txt\0'
    if 'comment' in fields:
        flags, h = flags | 16, h + b'a comment\0'
    z = zlib.compressobj(level, zlib.DEFLATED, -15)
    return b'\x1f\x8b\x08' + bytes([flags]) + b'\1\2\3\4\0\3' + h + z.compress(data) + z.flush() + struct.pack('<II', zlib.crc32(data), len(data))


class File:
    def __init__(self, fname, data):
        self.path = os.path.join(scratch(), fname)
        self.temp = '/tmp/psi-toolkit/' + hashlib.md5(data).hexdigest()
        self.data = data

    def __enter__(self):
        self.lock = open(os.path.join(tempfile.gettempdir(), 'psi-p28.lock'), 'w')     # the temporary files are shared with the other processes of this check
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        with open(self.path, 'wb') as f:
            f.write(self.data)
        return self

    def __exit__(self, *a):
        os.remove(self.path)
        if os.path.exists(self.temp):
            os.remove(self.temp)
        self.lock.close()


def failed(x):
    return isinstance(x, list) and x and x[0] == b'!'


def refused(x):
    return failed(x) and x[1].endswith(b'FileExtractionException')


PATTERNS = ['', '', '.*', '.*\\.xml', 'word/.*', '(a|b).*', '[^/]*', 'xl/sharedStrings\\.xml', 'ppt/slides/slide[0-9]+\\.xml', 'document', '.*/.*', 'nothing']


def unpack(ctx, case):
    z, pat, fname = case
    data, want = zipped(z)
    with File(fname, data) as f:
        a = ctx.v('drv_common', 'arch', ['list', f.path])
        equal(a, sorted(want), 'the list of files')
        equal(ctx.v('drv_common', 'arch', ['listdata', data]), a, 'the list of files of the same bytes')
        exp = sorted([n, c] for n, c in want.items() if not pat or re.fullmatch(pat.encode(), n))
        got = ctx.v('drv_common', 'arch', ['get', f.path, pat])
        check(not failed(got), 'unpacking failed: %r', got)
        equal([x[0] for x in got], [x[0] for x in exp], 'the files unpacked')
        for x, y in zip(got, exp):
            check(x == y, 'the file %r (%d bytes) has %d bytes, the first difference at %d', x[0], len(y[1]), len(x[1]), next((i for i, (p, q) in enumerate(zip(x[1], y[1])) if p != q), min(len(x[1]), len(y[1]))))
        check(ctx.v('drv_common', 'arch', ['getdata', data, pat]) == got, 'unpacking the same bytes gives something else')
    ctx.nontrivial(len(exp) > 1)


def single(ctx, case):
    data, level, fields, fname, packed = case
    raw = gzipped((data, level, fields)) if packed else data
    if not packed and (fname.endswith('.gz') or raw[:2] in (b'\x1f\x8b', b'PK')):
        return
    with File(fname, raw) as f:
        n = f.path[:-3] if f.path.endswith('.gz') else f.path
        for k in 'get', 'list':
            got = ctx.v('drv_common', 'arch', [k, f.path, ''])
            check(not failed(got), '%s failed: %r', k, got)
            names = [x[0] for x in got] if k == 'get' else got
            check(len(names) == 1, 'not one file: %r', names)
            if not packed or fname.endswith('.gz'):
                equal(names[0], n.encode(), 'name')
            if k == 'get':
                check(got[0][1] == data, 'the file of %d bytes has %d bytes', len(data), len(got[0][1]))
        got = ctx.v('drv_common', 'arch', ['getdata', raw, ''])
        check(not failed(got) and len(got) == 1 and got[0][1] == data, 'unpacking the same bytes gives something else')
    ctx.nontrivial(packed and len(data) > 0)


ASAN = ('detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:max_allocation_size_mb=2500:'
        'quarantine_size_mb=16:malloc_context_size=8:exitcode=99:handle_segv=1:detect_odr_violation=0')


def damage(ctx, case):
    """allocating too much fails as it does without the sanitizer, with a null pointer"""
    z, gz, cut, flips = case
    if gz is None:
        data, want = zipped(z)
        contents = set(want.values())
    else:
        data = gzipped(gz)
        contents = None         # the sum is not compared
    bad = bytearray(data)
    for w, x in flips:
        bad[w % len(bad)] ^= x
    bad = bytes(bad[:int(len(bad) * cut)]) if cut is not None else bytes(bad)
    if bad == data:
        return
    with File('bad' + ('.zip' if gz is None else '.gz'), bad) as f:
        for op in ['get', f.path, ''], ['getdata', bad, '']:
            n = ctx.drv('drv_common', env={'ASAN_OPTIONS': ASAN}).v('arch', ['fds'])
            got = ctx.drv('drv_common', env={'ASAN_OPTIONS': ASAN}).v('arch', op)
            check(ctx.drv('drv_common', env={'ASAN_OPTIONS': ASAN}).v('arch', ['fds']) <= n, 'files were left open')
            if failed(got):
                check(refused(got), 'threw %r', got)
                ctx.event('refused')
            else:
                ctx.event('accepted')
                for x, c in got:
                    check(contents is None or c in contents or c == bad or not c, 'the damaged archive gives a file that was not in it: %r, %d bytes', x, len(c))
    ctx.nontrivial(failed(got))


def kind(ctx, case):
    names, rest = case
    data, want = zipped(([(n, b'x', False, 0, 0, 3) for n in names], 0, False, 0, False) if rest is None else rest)
    has = lambda n: n.encode() in want
    exp = b'UKNOWN'
    if has('[Content_Types].xml'):
        exp = b'docx' if has('word/document.xml') else b'xlsx' if has('xl/worksheets/sheet1.xml') else b'pptx' if has('ppt/slides/slide1.xml') else exp
    with File('k.zip', data):
        equal(ctx.v('drv_common', 'arch', ['kind', data]), exp, 'the kind of %r' % sorted(want))
    ctx.nontrivial(exp != b'UKNOWN')


def race(ctx, case):
    """several processes unpack the same bytes at once"""
    es, size, n = case
    big = b''.join(hashlib.sha256(b'%d' % i).digest() for i in range(size * 1000))
    data, want = zipped((es + [('big', big, False, 0, 0, 3)], 0, False, 0, False))
    got = []
    for _ in range(12):
        with File('r.zip', data):
            got += ctx.v('drv_common', 'arch', ['race', data, n])
    exp = hashlib.md5(b''.join(b'%s=%s\n' % x for x in sorted(want.items()))).hexdigest().encode()
    for x in got:
        check(x.strip() == exp, 'one of %d processes got %r, expected %r', n, x, exp)
    ctx.nontrivial(len(want) > 1)


XML = ['<w:p>', '</w:p>', '<w:t>', '</w:t>', '<a:t>', '</a:t>', '<t>', '</t>', '<si>', '</si>', '<?xml version="1.0"?>', 'Ala ma', ' kota', '. ', '&lt;b&gt;', '&amp;', 'żółw', '\nx', '<t xml:space="preserve">', '1', '<!-- x -->']
xml = lst(st.sampled_from(XML), 0, 25, 8).map(lambda x: '<w:x>' + ''.join(x).rstrip())
PACKED = {'docx': ['word/document.xml'], 'xlsx': ['xl/sharedStrings.xml'], 'pptx': ['ppt/slides/slide%d.xml' % i for i in (1, 2, 3, 10)]}
OTHER = ['[Content_Types].xml', 'word/styles.xml', 'xl/worksheets/sheet1.xml', 'ppt/slides/_rels/slide1.xml.rels', 'docProps/core.xml', 'word/document.xml.bak', 'ppt/slides/slide.xml']


def office(ctx, case):
    """a packed document is read as what is in it"""
    fmt, texts, others, deflate, keep = case
    names = PACKED[fmt][:len(texts)]
    data, want = zipped(([(n, t.encode(), deflate, 0, 0, 3) for n, t in zip(names, texts)] + [(n, b'<w:t>other</w:t><t>other</t>', deflate, 0, 0, 3) for n in others], 0, False, 0, False))
    inner = b''.join(want[n.encode()] for n in sorted(names))
    args = ['--format', fmt] + (['--keep-tags'] if keep else [])
    with File('o.zip', data):
        r = ctx.v('drv_pipe', 'chain', ['', [['read', '=apertium-reader', args, data], ['dumpi'], ['new', ''], ['read', '=apertium-reader', args + ['--unzip-data', '0'], inner], ['dumpi']]])
    if failed(r[0]) or failed(r[3]):
        check(failed(r[0]) and failed(r[3]) and r[0][1] == r[3][1], 'the packed document: %r, its contents: %r', r[0], r[3])
        ctx.event('no markup')
        return
    equal(r[1], r[4], 'the lattice of the packed document')
    ctx.nontrivial(len(r[1][-1]) > 2)


small = st.tuples(lst(st.tuples(name, st.one_of(st.binary(max_size=60), content), st.booleans(), st.sampled_from([0, 0, 0, 40]), st.just(0), st.sampled_from([3, 0])), 1, 4, 2), st.just(0), st.booleans(), st.just(0), st.booleans())
fields = st.lists(st.sampled_from(['extra', 'name', 'comment']), unique=True)
gz = st.tuples(content, st.sampled_from([0, 1, 6, 9]), fields)
flip = st.tuples(st.integers(0, 1 << 20), st.integers(1, 255))
fnames = st.sampled_from(['x.zip', 'x', 'x.txt', 'x.docx'])
TESTS = [
    Test('unpack', st.tuples(archive, st.sampled_from(PATTERNS), fnames), unpack, quick=700, thorough=10000),
    Test('single', st.tuples(content, st.sampled_from([0, 1, 6, 9]), fields, st.sampled_from(['x.gz', 'x.txt.gz', 'x.txt', 'x', 'x.y.q']), st.booleans()), single, quick=500, thorough=5000),
    Test('damage', st.tuples(small, st.one_of(st.none(), st.none(), gz), st.one_of(st.none(), st.none(), st.floats(0, 1)), lst(flip, 0, 4, 1.5)), damage, quick=1500, thorough=20000),
    Test('race', st.tuples(lst(entry, 0, 3, 1), st.integers(1, 30), st.integers(3, 6)), race, quick=60, thorough=1500),
    Test('office', st.sampled_from(sorted(PACKED)).flatmap(lambda f: st.tuples(st.just(f), lst(xml, 1, len(PACKED[f]), len(PACKED[f]) / 2 + 0.5) if len(PACKED[f]) > 1 else st.tuples(xml), st.lists(st.sampled_from(OTHER), unique=True, max_size=4), st.booleans(), st.booleans())), office, quick=400, thorough=5000),
    Test('kind', st.tuples(lst(st.sampled_from(OFFICE), 0, 5, 3), st.one_of(st.none(), st.none(), small)), kind, quick=400, thorough=4000),
]
