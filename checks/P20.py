"""The web server: requests, files, forms, sessions, inclusions and the JSON interface."""
import os, json, re, socket, threading, time, urllib.parse
from hypothesis import strategies as st
from lib.drvclient import dec
from lib.pbt import Test, Violation, check, equal, lst
from checks.P16 import scratch

DRIVERS = ['drv_server']
RULE = ('generated HTTP requests (GET and POST, forms in every encoding, folded headers, cookies), cut into pieces at random, are given to the request parser and handlers and to a running server, and the request '
        'read, the file served, the data of the session, the included text or the JSON returned is compared with a model; non-trivial: the request came in at least two pieces or carries a form, a cookie, an escape or an inclusion')
TOKEN = 'abzAZ09-_.!#$%&\'*+^`|~'
byte = lambda ex='': st.binary(max_size=1)
URICH = [chr(c) for c in range(33, 127)] + ['ż', '€']
uri = st.lists(st.sampled_from(URICH), max_size=12).map(lambda x: '/' + ''.join(x))
VALCH = [chr(c) for c in range(32, 127)] + ['ż', 'ó']
value = st.text(alphabet=st.sampled_from(VALCH), max_size=12)
hname = st.one_of(st.text(alphabet=TOKEN, min_size=1, max_size=8), st.sampled_from(['Host', 'Accept', 'X-A', 'Referer', 'content-language']))
header = st.tuples(hname, value, st.lists(st.tuples(st.sampled_from([' ', '\t', '  \t']), st.text(alphabet='ab: ;', max_size=5)), max_size=2))
cuts = st.lists(st.integers(0, 2000), max_size=6)
anybytes = st.one_of(st.binary(min_size=0, max_size=40), st.text(alphabet='a=&+%\x00żé"\'<>/\\ \t', max_size=20).map(lambda s: s.encode()))
case_of = st.sampled_from([lambda s: s, str.lower, str.upper, str.swapcase])
letters = st.sampled_from(['keep', 'lower', 'upper', 'swap'])
CASE = {'keep': lambda s: s, 'lower': str.lower, 'upper': str.upper, 'swap': str.swapcase}
version = st.sampled_from(['1.0', '1.1', '0.9', '12.34', '2.0'])


def pieces(raw, cs):
    c = sorted({x % (len(raw) + 1) for x in cs})
    return [raw[a:b] for a, b in zip([0] + c, c + [len(raw)])]


def compose(method, path, ver, headers, body=b'', ctype=None, length='keep', at=0):
    """-> the bytes of a request and its headers as they should be read"""
    hs = [(n, v, f) for n, v, f in headers if n.lower() not in ('content-type', 'content-length', 'cookie')]
    if method == 'POST':
        hs.insert(at % (len(hs) + 1), (CASE[length]('Content-Length'), str(len(body)), []))
        if ctype:
            hs.insert(at // 7 % (len(hs) + 1), (CASE[length]('Content-Type'), ctype, []))
    raw, want = ('%s %s HTTP/%s\r\n' % (method, path, ver)).encode(), []
    for n, v, f in hs:
        raw += ('%s: %s\r\n' % (n, v)).encode()
        for sp, t in f:
            raw += (sp + t + '\r\n').encode()
            v += t.lstrip(' \t')
        want.append([n.encode(), v.encode()])
    return raw + b'\r\n' + body, want


parse_case = st.tuples(st.sampled_from(['GET', 'GET', 'POST', 'POST', 'POST', 'HEAD', 'X-a']), uri, version, st.lists(header, max_size=5), anybytes, st.sampled_from([None, 'application/x-www-form-urlencoded', 'multipart/form-data; boundary=xx', 'text/plain']),
                       letters, st.integers(0, 60), st.sampled_from([b'', b'GET / HTTP/1.0\r\n\r\n', b'\r\n', b'x']), cuts)


def parse(ctx, case):
    method, path, ver, headers, body, ctype, length, at, rest, cs = case
    multi = ctype is not None and ctype.startswith('multipart')
    if method != 'POST':
        body = b''
    elif not multi:
        body = body.replace(b'\r', b'').replace(b'\n', b'')     # such bodies are refused
    raw, want = compose(method, path, ver, headers, body, ctype, length, at)
    chunks = pieces(raw + rest, cs)
    r = ctx.v('drv_server', 'parse', chunks)
    major, minor = map(int, ver.split('.'))
    equal(r, [1, len(raw), [method.encode(), path.encode(), major, minor, want, body]], 'the request %r' % chunks)
    if len(raw) > 1:        # nothing is missing before its last byte
        r = ctx.v('drv_server', 'parse', pieces(raw[:-1], cs))
        equal(r[:2], [-1, len(raw) - 1], 'the request %r without its last byte' % raw)
    ctx.nontrivial(len(chunks) > 1 and len(want) > 0)
    ctx.event(method if method in ('GET', 'POST') else 'other method', *(['multipart'] if multi else []), *(['folded header'] if any(h[2] for h in headers) else []))


T = r"[!#$%&'*+.^_`|~0-9A-Za-z-]"
HEAD = re.compile((r'(?P<m>@+) (?P<u>[^\x00-\x20\x7f]*) HTTP/\d+\.\d+\r\n(?P<h>(?:@+: [^\x00-\x1f\x7f]*\r\n(?:[ \t]+(?:[^\x00-\x20\x7f][^\x00-\x1f\x7f]*)?\r\n)*)*)\r\n').replace('@', T).encode('latin-1'))
BAD = [b' ', b'\r', b'\n', b'\r\n', b'\t', b':', b'/', b'\x00', b'\x7f', b'\xff', b'(', b'H', b'9', b'a', b'', b'HTTP/1.0', b'\x1f', b'\\', b'.']
mal_case = st.tuples(parse_case, st.lists(st.tuples(st.integers(0, 400), st.sampled_from(BAD), st.sampled_from([0, 0, 1, 1, 2])), min_size=1, max_size=3))


def malformed(ctx, case):
    (method, path, ver, headers, body, ctype, length, at, rest, cs), edits = case
    raw, _ = compose('GET' if method == 'POST' else method, path, ver, headers)
    for i, b, n in edits:
        i %= len(raw)
        raw = raw[:i] + b + raw[i + n:]
    r = ctx.v('drv_server', 'parse', [raw])
    s = ctx.v('drv_server', 'parse', pieces(raw, cs))
    equal(s[:2] + [s[2] if s[0] == 1 else 0], r[:2] + [r[2] if r[0] == 1 else 0], 'the request %r in pieces %r' % (raw, pieces(raw, cs)))
    m = HEAD.match(raw)
    if m and m.group('m') != b'POST':
        check(r[0] == 1, '%r is a request, but was refused: %r', raw[:m.end()], r)
        equal(r[1], m.end(), 'the length of %r' % raw)
    else:
        check(r[0] != 1 or m, '%r is no request, but was taken: %r', raw, r)
    ctx.event('still a request' if m else 'refused' if r[0] == 0 else 'incomplete')
    ctx.nontrivial(not m)


# ---- files ----
FILES = {'a.html': b'<p>a</p>', 'index.html': b'home', 'b.txt': b'tekst \x00\xff', 'c d.png': bytes(range(256)) * 7, 'ż.gif': b'G', 'x+y.jpg': b'plus', '100%.htm': b'percent', 'noext': b'', 'dir/index.html': b'in', 'dir/e.f.html': b'ef',
         'dir/sub/z': b'zz', 'q?x.txt': b'question', 'dir.d/none': b'no extension', 'big': b'0123456789' * 120, 'a.HTML': b'upper', '.html': b'dot'}
MIME = {'gif': 'image/gif', 'htm': 'text/html', 'html': 'text/html', 'jpg': 'image/jpeg', 'png': 'image/png'}
_root = [None]


def root():
    if _root[0] != os.getpid():
        _root[0] = os.getpid()
        d = os.path.join(scratch(), 'root')
        for n, c in FILES.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            open(os.path.join(d, n), 'wb').write(c)
        open(os.path.join(scratch(), 'secret.txt'), 'w').write('SECRET')
        os.makedirs(os.path.join(scratch(), 'root2'), exist_ok=True)
        open(os.path.join(scratch(), 'root2', 'secret.txt'), 'w').write('SECRET')
    return os.path.join(scratch(), 'root')


name = st.one_of(st.sampled_from(sorted(FILES)), st.sampled_from(sorted(FILES)), st.sampled_from(['', 'dir/', 'dir', 'dir/sub', 'dir/sub/', 'none.html', '../secret.txt', 'dir/../a.html', '../root2/secret.txt', '..', 'dir/..', '....//secret.txt', 'a.html\0', 'b.txt\0.html', '\0', './a.html', 'dir//e.f.html',
                                                            '2/secret.txt', 'a.html/', 'a.html?x=1', 'nie ma']))
TAMPER = ['', '', '', '', '', '%', '%4', '%zz', '%4g', '%-1', '%+1', '% 1', '%0x', '%g1']
file_case = st.tuples(name, st.lists(st.sampled_from([0, 0, 1, 2]), min_size=1, max_size=6), st.sampled_from(['/', '/', '/', '/', '', '//', '%2f', '%2F']), st.sampled_from(TAMPER), st.integers(0, 30), cuts)


def encode(s, how, plus=True, must=b'% \x7f+', keep=b''):
    out = b''
    for i, c in enumerate(s):
        h = how[i % len(how)]
        if c == 32 and plus and h != 1:
            out += b'+'
        elif c < 33 or c in must or h == 1 and c not in keep:
            out += b'%%%02x' % c if i % 2 else b'%%%02X' % c
        else:
            out += bytes([c])
    return out


def split_reply(w):
    head, _, body = w.partition(b'\r\n\r\n')
    lines = head.split(b'\r\n')
    return lines[0], {k: v for k, v in (l.split(b': ', 1) for l in lines[1:])}, body


def files(ctx, case):
    n, how, lead, bad, at, cs = case
    enc = encode(n.encode(), how)
    path = lead.encode() + enc
    if bad:
        k = at % (len(enc) + 1)
        while k > 0 and (enc[k - 1:k] == b'%' or enc[k - 2:k - 1] == b'%'):
            k -= 1
        if bad in ('%', '%4') and enc[k:k + 2] and re.match(rb'[0-9a-fA-F]{2}|%', enc[k:k + 2]):
            bad = '%zz'
        if bad in ('%', '%4') and enc[k:]:
            k = len(enc)
        if bad == '% 1':
            bad = '%+1'
        path = lead.encode() + enc[:k] + bad.encode() + enc[k:]
    raw = b'GET ' + path + b' HTTP/1.0\r\nHost: x\r\n\r\n'
    w = ctx.v('drv_server', 'plain', [root(), pieces(raw, cs)])
    check(isinstance(w, bytes), '%r: %r', raw, w)
    status, hs, body = split_reply(w)
    code = int(status.split()[1])
    check(b'SECRET' not in body, '%r served a file outside of the root', raw)
    equal(hs.get(b'Content-Length'), str(len(body)).encode(), 'the length of the reply to %r' % raw)
    dec = lead.replace('%2f', '/').replace('%2F', '/') + n
    if bad or not dec.startswith('/') or '..' in dec or '\0' in dec:
        equal(code, 400, 'the status of %r' % raw)
        ctx.event('refused')
        ctx.nontrivial()
        return
    if dec.endswith('/'):
        dec += 'index.html'
    full = root() + dec
    if not os.path.isfile(full):
        equal(code, 404, 'the status of %r' % raw)
        ctx.event('not found')
        return
    equal(code, 200, 'the status of %r' % raw)
    equal(body, open(full, 'rb').read(), 'the content of %r' % raw)
    base = dec.rsplit('/', 1)[1]
    ext = base.rsplit('.', 1)[1] if '.' in base else ''
    equal(hs.get(b'Content-Type'), MIME.get(ext, 'text/plain').encode(), 'the type of %r' % raw)
    ctx.event('served')
    ctx.nontrivial(b'%' in path or b'+' in path)


# ---- forms and sessions ----
NAMES = ['pipe-text', 'input-text', 'a', 'b', 'radio-file', 'x1', 'nazwa ż', 'a=b', 'c&d', '']
fname = st.sampled_from(NAMES)
field = st.tuples(fname, st.one_of(anybytes, st.sampled_from([b'', b'on', b'tokenize --lang pl ! simple-writer', b'a\r\nb\n', b'<!--#psis x -->'])), st.sampled_from(['text', 'text', 'file']))
flat_field = st.tuples(fname, field.map(lambda f: f[1]), st.sampled_from(['text', 'text', 'text', 'bare', 'broken']))
FORM = st.one_of(st.tuples(st.just('get'), st.lists(flat_field, max_size=4), st.lists(st.sampled_from([0, 0, 1, 2]), min_size=1, max_size=6)),
                 st.tuples(st.just('post'), st.lists(flat_field, max_size=4), st.lists(st.sampled_from([0, 0, 1, 2]), min_size=1, max_size=6)),
                 st.tuples(st.just('multi'), st.lists(field, min_size=1, max_size=4), st.tuples(st.sampled_from(['xx', '----WebKitFormBoundary7MA4', '-', 'a b']), st.booleans(), st.booleans())))
BROKEN = [b'%', b'%4', b'%zz', b'a%', b'%g0b', b'%%41', b'100%', b'%\xc5\xbc']


def unquote(s):
    return re.sub(rb'%([0-9a-fA-F]{2})', lambda m: bytes([int(m.group(1), 16)]), s.replace(b'+', b' '))


def urlencoded(fields, how):
    """-> the query and what it says"""
    out, want = [], {}
    esc = b'%+&=\x7f' + bytes(range(128, 256)) if how[0] else b'%+&=\x7f'
    for k, (n, v, kind) in enumerate(fields):
        if kind == 'bare':          # no value
            q = encode(n.encode(), how, must=esc)
            v = b''
            if not q:
                out.append(q)
                continue
        elif kind == 'broken':      # not an escape: taken as it stands
            b = BROKEN[(k + len(v)) % len(BROKEN)]
            q = encode(n.encode(), how, must=esc) + b'=' + b
            v = unquote(b)
        else:
            q = encode(n.encode(), how, must=esc) + b'=' + encode(v, how, must=esc)
        out.append(q)
        want[n.encode()] = v
    return b'&'.join(out), want


def multipart(fields, opts):
    bound, extra, preamble = opts
    bound, want = bound.encode(), {}
    body = b'preamble\r\n' if preamble else b''
    for k, (n, v, kind) in enumerate(fields):
        v = v.replace(b'--' + bound, b'')
        n = n.encode() or b'e'
        body += b'--' + bound + b'\r\n' + (b'Content-Type: text/plain\r\n' if extra and kind == 'text' else b'') + b'Content-Disposition: form-data; name="' + n + b'"'
        if kind == 'file':
            f = b'plik %d.txt' % k
            body += b'; filename="' + f + b'"\r\nContent-Type: application/octet-stream'
            want[n + b'-filename'] = f
        body += b'\r\n\r\n' + v + b'\r\n'
        want[n] = v
    return body + b'--' + bound + b'--\r\n', want


def form(kind, fields, opts, action='test', cookie=None, headers=(), case='keep'):
    if kind == 'multi':
        body, want = multipart(fields, opts)
        ct = b'multipart/form-data; boundary=' + opts[0].encode()
    else:
        q, want = urlencoded(fields, opts)
        body, ct = q, b'application/x-www-form-urlencoded'
    c = b'' if cookie is None else b'Cookie: ' + cookie + b'\r\n'
    C = CASE[case]
    if kind == 'get':
        return b'GET /' + action.encode() + b'.psis?' + body + b' HTTP/1.1\r\nHost: x\r\n' + c + b'\r\n', want
    return b'POST /' + action.encode() + b'.psis HTTP/1.1\r\n' + c + C('Content-Length').encode() + b': %d\r\n' % len(body) + C('Content-Type').encode() + b': ' + ct + b'\r\n\r\n' + body, want


def psi_root():
    d = os.path.join(scratch(), 'web')
    if not os.path.isdir(d):
        os.makedirs(d)
        open(os.path.join(d, 'page.html'), 'w').write('page')
        open(os.path.join(d, 'index.html'), 'w').write('index')
        open(os.path.join(d, 'dump.html'), 'w').write('<!--#psis dump -->')
        open(os.path.join(d, 'json.html'), 'w').write('<!--#psis json_site_output -->\n')
    return d


form_case = st.tuples(FORM, st.sampled_from(['test', 'test', 'dir/test']), letters, cuts)


def forms(ctx, case):
    (kind, fields, opts), action, hc, cs = case
    if kind == 'multi':             # two fields of a name: the last counts
        names = set()
        fields = [f for f in reversed(fields) if not (f[0] in names or names.add(f[0]))][::-1]
    raw, want = form(kind, fields, opts, action, case=hc)
    r = ctx.v('drv_server', 'psi', [psi_root(), [], pieces(raw, cs)])
    check(isinstance(r, list) and len(r) == 3, '%r: %r', raw, r)
    status, hs, body = split_reply(r[0])
    equal(status, b'HTTP/1.0 200 OK', 'the status of %r' % raw)
    equal(body, b'page', 'the page for %r' % raw)
    equal(r[1], 1, 'calls of the action for %r' % raw)
    equal({k: v for k, v in r[2]}, want, 'what the action got from %r' % raw)
    ctx.event(kind)
    ctx.nontrivial(len(want) > 0)


mpfd_case = st.tuples(lst(field, 1, 5, 3), st.tuples(st.sampled_from(['xx', '----WebKitFormBoundary7MA4', 'a']), st.booleans(), st.booleans()), cuts, st.booleans())


def mpfd(ctx, case):
    fields, opts, cs, every = case
    names = set()
    fields = [f for f in fields if not (f[0] in names or names.add(f[0]))]
    body, want = multipart(fields, opts)
    chunks = [body[i:i + 1] for i in range(len(body))] if every else [c for c in pieces(body, cs) if c]
    r = ctx.v('drv_server', 'mpfd', ['multipart/form-data; boundary=' + opts[0], chunks])
    got = {}
    for f in r:
        check(isinstance(f, list), '%r: %r', chunks, r)
        got[f[0]] = f[2]
        if f[1] == b'file':
            got[f[0] + b'-filename'] = f[3]
            equal(f[4], b'application/octet-stream', 'the type of %r in %r' % (f[0], chunks))
    equal(got, want, 'the fields of %r' % chunks)
    ctx.nontrivial(len(chunks) > 1 and len(fields) > 1)


COOKIES = [b'PSISESSIONID', b'PSISESSIONID=', b'PSISESSIONID=x', b'a=b', b'', b'PSISESSIONID=000000-0000-aaaaaaaaaaaaaaaa', b'XPSISESSIONID=1', b'=PSISESSIONID', b'b=PSISESSIONID', b';;', b'PSISESSIONID;a']
AROUND = [b'%s', b'a=b; %s', b'%s; c=d', b'a=b; %s; c=d', b'a=b;%s', b'XPSISESSIONID=zly; %s', b'a=PSISESSIONID; %s']
step = st.tuples(st.integers(0, 3), FORM, st.integers(0, 9), st.sampled_from(AROUND), st.sampled_from([None, None, None, None] + COOKIES))
ses_case = lst(step, 2, 10, 6)


def sessions(ctx, case):
    """clients with their cookies, against a dictionary for each"""
    client, data, ids, shared = {}, {}, set(), 0
    for who, (kind, fields, opts), plain, around, junk in case:
        if kind == 'multi':
            names = set()
            fields = [f for f in reversed(fields) if not (f[0] in names or names.add(f[0]))][::-1]
        cookie = around % client[who] if who in client else junk
        raw, want = form(kind, fields, opts, cookie=cookie)
        if plain == 0:
            raw = b'GET /page.html HTTP/1.0\r\n' + (b'Cookie: ' + cookie + b'\r\n' if cookie is not None else b'') + b'\r\n'
        r = ctx.v('drv_server', 'psi', [psi_root(), [], [raw]])
        check(isinstance(r, list) and len(r) == 3, '%r: %r', raw, r)
        status, hs, body = split_reply(r[0])
        equal(status, b'HTTP/1.0 200 OK', 'the status of %r' % raw)
        c = hs.get(b'Set-Cookie')
        if who in client:
            check(c is None, '%r got another session: %r', raw, c)
            shared += 1
        else:
            check(c is not None and re.match(rb'PSISESSIONID=[0-9a-zA-Z-]+$', c), '%r got no session: %r', raw, c)
            check(c not in ids, '%r got the session of another: %r', raw, c)
            ids.add(c)
            client[who], data[who] = c, {}
        if plain != 0:
            data[who].update(want)
            equal({k: v for k, v in r[2]}, data[who], 'the session of client %d after %r' % (who, raw))
    ctx.nontrivial(len(client) > 1 and shared > 0)


# ---- inclusions ----
CODES = ['alpha', 'beta_2', 'g']
inc_text = st.lists(st.one_of(st.text(alphabet='ab <>-!#\nż', max_size=6), st.sampled_from(['<!--#psis alpha -->', '<!--#psis beta_2 -->', '<!--#psis g -->', '<!--#psis unknown -->', '<!-- comment -->', '<!--#', '-->'])), max_size=6).map(''.join)
inc_case = st.tuples(inc_text, st.booleans(), st.lists(inc_text, min_size=3, max_size=3), cuts)


def includes(ctx, case):
    page, tail, texts, cs = case
    if tail:
        page += '<!--#psis al'
    d = psi_root()
    open(os.path.join(d, 'inc.html'), 'w', newline='').write(page)
    want, pos, n = '', 0, 0
    T = dict(zip(CODES, texts))
    while True:
        p = page.find('<!--#psis', pos)
        q = page.find('-->', p) if p >= 0 else -1
        if q < 0:
            want += page[pos:]
            break
        code = page[p + 10:q - 1]
        if not re.match(r'<!--#psis \w+ -->$', page[p:q + 3]):
            return                  # not an inclusion as they are written
        want += page[pos:p] + T.get(code, '')
        n += 1
        pos = q + 3
    raw = b'GET /inc.html HTTP/1.0\r\n\r\n'
    r = ctx.v('drv_server', 'psi', [d, [[k, v] for k, v in T.items()], pieces(raw, cs)])
    check(isinstance(r, list) and len(r) == 3, '%r: %r', page, r)
    status, hs, body = split_reply(r[0])
    equal(body, want.encode(), 'the page %r with %r' % (page, T))
    equal(hs.get(b'Content-Length'), str(len(body)).encode(), 'the length of the page %r with %r' % (page, T))
    ctx.nontrivial(n > 0 and any(texts))


# ---- JSON ----
PIPES = ['tokenize --lang pl ! simple-writer', 'tokenize --lang pl ! json-simple-writer', 'txt-reader ! psi-writer', 'simple-writer --tags symbol --sep "|"', 'nosuch --x', '', 'tokenize --lang pl', 'tokenize --lang pl ! json-simple-writer --tags nosuch', "simple-writer --tags symbol --sep '\"\\'"]
json_case = st.tuples(st.sampled_from(PIPES), st.text(alphabet='ab żó€"\\/\n\t\r\b\x01\x1f\x7f.{}:,\'<!-', max_size=14), st.booleans(), cuts)


def jsons(ctx, case):
    pipe, text, post, cs = case
    q = urllib.parse.urlencode({'pipe': pipe, 'input': text}).encode()
    raw = (b'POST /json.psis HTTP/1.0\r\nContent-Length: %d\r\n\r\n' % len(q) + q) if post else b'GET /json.psis?' + q + b' HTTP/1.0\r\n\r\n'
    r = ctx.v('drv_server', 'psi', [psi_root(), [], pieces(raw, cs)])
    check(isinstance(r, list) and len(r) == 3, '%r: %r', case, r)
    body = split_reply(r[0])[2]
    try:
        j = json.loads(body.decode())
    except ValueError as e:
        raise Violation('pipe %r, input %r: not JSON (%s): %r' % (pipe, text, e, body))
    want = ctx.v('drv_server', 'run', [pipe, text])
    equal((j.get('pipe'), j.get('input')), (pipe, text), 'what was asked in %r' % body)
    if isinstance(want, bytes):
        check(j.get('error', 1) is None, 'pipe %r, input %r: %r', pipe, text, body)
        equal(j.get('output'), json.loads(want.decode()) if 'json-simple' in pipe else want.decode(), 'the output for %r, %r' % (pipe, text))
        ctx.event('output')
    else:
        check(j.get('output', 1) is None and isinstance(j.get('error'), str) and want[2].decode() in j['error'], 'pipe %r, input %r failing with %r: %r', pipe, text, want, body)
        ctx.event('error')
    ctx.nontrivial(any(c in text for c in '"\\/\n\t\r\b\x01'))


# ---- a running server ----
_srv = {}


def server(ctx, threads):
    d = ctx.drv('drv_server')
    key = (os.getpid(), threads)
    if _srv.get(key, (None,))[0] is not None and d.p is not None and d.p.poll() is None and _srv[key][0] is d.p:
        return _srv[key][1]
    for _ in range(20):
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        port = s.getsockname()[1]
        s.close()
        if d.v('serve', [psi_root(), str(port), str(threads)]) is None:
            break
    _srv[key] = (d.p, port)
    return port


def ask(port, raw, parts):
    s = socket.create_connection(('127.0.0.1', port), 20)
    s.settimeout(20)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    try:
        for k, p in enumerate(parts):
            if k:
                time.sleep(0.001)
            if p:
                s.sendall(p)
        out = b''
        while True:
            b = s.recv(65536)
            if not b:
                break
            out += b
        return out
    except OSError as e:
        return e
    finally:
        s.close()


sock_step = st.tuples(FORM, st.sampled_from(['form', 'form', 'page', 'bad', 'leave']), cuts)
sock_case = st.tuples(st.sampled_from([1, 4]), st.lists(st.lists(sock_step, min_size=1, max_size=6), min_size=1, max_size=6))


def sockets(ctx, case):
    threads, clients = case
    port = server(ctx, threads)
    bad = []

    def client(steps):
        cookie, data = None, {}
        for (kind, fields, opts), what, cs in steps:
            names = set()
            fields = [f for f in reversed(fields) if not (f[0] in names or names.add(f[0]))][::-1]
            raw, form_data = form(kind, fields, opts, cookie=cookie)
            if what != 'form':
                raw = b'GET /dump.html HTTP/1.0\r\n' + (b'Cookie: ' + cookie + b'\r\n' if cookie else b'') + b'\r\n'
            if what == 'bad':
                raw = b'GET /dump.html HTTP/1.0\r\nCookie\x01: PSISESSIONID\r\n\r\n'
            if what == 'leave':             # goes away in the middle
                s = socket.create_connection(('127.0.0.1', port), 20)
                s.sendall(raw[:len(raw) // 2])
                s.close()
                continue
            w = ask(port, raw, pieces(raw, cs))
            if what == 'bad' and isinstance(w, ConnectionError):
                continue                    # refused before all of it was read
            if not isinstance(w, bytes):
                bad.append('%r: %r' % (raw, w))
                return
            status, hs, body = split_reply(w) if b'\r\n\r\n' in w else (w, {}, b'')
            want = (b'HTTP/1.0 400 Bad Request',) if what == 'bad' else (b'HTTP/1.0 200 OK',)
            if what == 'form':
                data.update(form_data)
            if what != 'bad':
                try:
                    got = {k: v for k, v in dec(bytes.fromhex(body.decode()))}
                except ValueError:
                    got = body
                if got != data:
                    bad.append('%r was answered from %r, the client sent %r' % (raw, got, data))
                    return
            if status not in want or hs.get(b'Content-Length') != str(len(body)).encode():
                bad.append('%r was answered with %r' % (raw, w))
                return
            if what != 'bad':
                c = hs.get(b'Set-Cookie')
                if (c is None) != (cookie is not None):
                    bad.append('%r was answered with %r' % (raw, w))
                    return
                cookie = cookie or c
    def safe(steps):
        try:
            client(steps)
        except Exception as e:
            bad.append('%s: %s' % (type(e).__name__, e))
    ts = [threading.Thread(target=safe, args=(c,)) for c in clients]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.call('drv_server', 'ping')          # still there?
    check(not bad, '%d threads: %s', threads, bad[:1])
    ctx.nontrivial(len(clients) > 1)
    ctx.event('%d threads' % threads)


TESTS = [Test('parse', parse_case, parse, quick=4000), Test('malformed', mal_case, malformed, quick=4000), Test('files', file_case, files, quick=4000), Test('forms', form_case, forms, quick=4000), Test('multipart', mpfd_case, mpfd, quick=2500),
         Test('sessions', ses_case, sessions, quick=1200), Test('includes', inc_case, includes, quick=2500), Test('json', json_case, jsons, quick=1600), Test('sockets', sock_case, sockets, quick=400)]
