"""Client side of the driver protocol (see drivers/drv.hpp)."""
import os, struct, subprocess, tempfile, select, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get('PSI_BUILD', os.path.join(HERE, 'build'))
R = os.environ.get('PSI_REPO', '/repo')


class CppException(Exception):
    def __init__(self, typ, what, diag=''):
        super().__init__('%s: %s' % (typ, what))
        self.typ, self.what, self.diag = typ, what, diag


class Crash(Exception):
    """The driver died (abort, sanitizer report, signal) on a request."""


class Hang(Exception):
    """The request used more CPU time than the limit."""


class HarnessError(Exception):
    pass


class Driver:
    def __init__(self, name, cwd=None, env=None, cpu=40, args=()):
        self.name, self.cpu = name, cpu
        self.cwd = cwd or os.path.join(R, 'framework')
        self.env = env or {}
        self.p = None
        self.calls = 0

    def start(self):
        self.errf = tempfile.TemporaryFile()
        env = dict(os.environ)
        env.update(LC_ALL='C.UTF-8', LANG='C.UTF-8', DRV_CPU=str(self.cpu),
                   ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:'
                                'handle_abort=0:allocator_may_return_null=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2500:'
                                'quarantine_size_mb=16:malloc_context_size=8:exitcode=99:'
                                'handle_segv=1:detect_odr_violation=0',
                   PSI_DATA='')
        env.update(self.env)
        self.p = subprocess.Popen([os.path.join(B, self.name)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.errf, cwd=self.cwd, env=env)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def _err_tail(self, n=3000):
        try:
            self.errf.seek(0, 2)
            size = self.errf.tell()
            self.errf.seek(max(0, size - 20000))
            t = self.errf.read().decode('utf-8', 'replace')
        except Exception as e:
            return repr(e)
        for key in ('ERROR: AddressSanitizer', 'DRIVER-CPU-LIMIT', 'Assertion', 'terminate called', 'runtime error'):
            i = t.find(key)
            if i >= 0:
                return t[max(0, i - 200):i + n]
        return t[-n:]

    def call(self, *args):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        self.calls += 1
        out = [struct.pack('<I', len(args))]
        for a in args:
            if isinstance(a, str):
                a = a.encode('utf-8', 'surrogateescape')
            elif isinstance(a, bool):
                a = b'1' if a else b'0'
            elif isinstance(a, (int, float)):
                a = repr(a).encode()
            out.append(struct.pack('<I', len(a)))
            out.append(a)
        try:
            self.p.stdin.write(b''.join(out))
            self.p.stdin.flush()
            st = self._read(1)
            n, = struct.unpack('<I', self._read(4))
            res = []
            for _ in range(n):
                l, = struct.unpack('<I', self._read(4))
                res.append(self._read(l))
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            tail = self._err_tail()
            self.stop()
            if rc == 97 or 'DRIVER-CPU-LIMIT' in tail:
                raise Hang('no answer within %d s of CPU time' % self.cpu)
            raise Crash('driver ended with %d on %s\n%s' % (rc, args[0], tail))
        if st == b'\0':
            return res
        if st == b'\2':
            raise HarnessError(res[0].decode('utf-8', 'replace'))
        d = [x.decode('utf-8', 'replace') for x in res] + ['', '', '']
        raise CppException(d[0], d[1], d[2])

    def v(self, cmd, value):
        """Command taking and returning a nested value."""
        return dec(self.call(cmd, enc(value))[0])

    def _read(self, n):
        if n == 0:
            return b''
        b = self.p.stdout.read(n)
        if len(b) < n:
            raise EOFError
        return b


def enc(x):
    out = []
    _enc(x, out)
    return b''.join(out)


def _enc(x, out):
    if x is None:
        out.append(b'n')
    elif x is True:
        out.append(b'b1')
    elif x is False:
        out.append(b'b0')
    elif isinstance(x, int):
        out.append(b'i%d;' % x)
    elif isinstance(x, float):
        out.append(b'f' + repr(x).encode() + b';')
    elif isinstance(x, str):
        x = x.encode('utf-8', 'surrogateescape')
        out.append(b's%d:' % len(x))
        out.append(x)
    elif isinstance(x, (bytes, bytearray)):
        out.append(b's%d:' % len(x))
        out.append(bytes(x))
    else:
        out.append(b'[')
        for y in x:
            _enc(y, out)
        out.append(b']')


def dec(b):
    v, p = _dec(b, 0)
    if p != len(b):
        raise HarnessError('trailing bytes in a reply')
    return v


def _dec(b, p):
    c = b[p:p + 1]
    p += 1
    if c == b'i':
        e = b.index(b';', p)
        return int(b[p:e]), e + 1
    if c == b's':
        e = b.index(b':', p)
        l = int(b[p:e])
        return b[e + 1:e + 1 + l], e + 1 + l
    if c == b'[':
        r = []
        while b[p:p + 1] != b']':
            v, p = _dec(b, p)
            r.append(v)
        return r, p + 1
    if c == b'b':
        return b[p:p + 1] == b'1', p + 1
    if c == b'n':
        return None, p
    if c == b'f':
        e = b.index(b';', p)
        return float(b[p:e]), e + 1
    raise HarnessError('bad reply %r' % b[p - 1:p + 20])
