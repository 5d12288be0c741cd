"""Sources whose opens, reads and closes are watched and can be made to fail."""
import builtins
import contextlib
import errno
import gc
import io
import os
import tempfile
import urllib.response
import urllib.error
import warnings
from email.message import Message
from unittest import mock

REAL = io.open


class Raw(io.FileIO):
    """A file served in a fixed number of pieces; the piece numbered `at` fails."""

    def __init__(self, path, mode, watch, own, step, at=0, stay=True):
        self.w, self.step, self.at, self.stay, self.n, self.shut = watch, max(1, step), at, stay, 0, False
        self.auto = False
        super().__init__(path, mode)
        self.id = watch.add(self, own)

    def readinto(self, b):
        self.w.log('read', self.id)
        self.n += 1
        if self.at and (self.n == self.at or self.stay and self.n > self.at):
            self.w.log('fault')
            raise OSError(errno.EIO, 'Input/output error')
        got = super().read(min(len(b), self.step))
        b[:len(got)] = got
        return len(got)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def readall(self):
        out = []
        while True:
            x = self.read(65536)
            if not x:
                if self.auto:
                    self.close()
                return b''.join(out)
            out.append(x)

    def write(self, b):
        self.w.log('read', self.id)
        self.n += 1
        if self.at and self.n >= self.at:
            self.w.log('fault')
            raise OSError(errno.ENOSPC, 'No space left on device')
        return super().write(b)

    def close(self):
        if not self.shut:
            self.shut = True
            self.w.log('close', self.id)
        super().close()


class Shut:
    def close(self):
        if not self.closed:
            self.w.log('close', self.id)
        super().close()


class Text(Shut, io.StringIO):
    pass


class Bytes(Shut, io.BytesIO):
    pass


class Watch:
    """Everything opened under `root` while active; plan = {'open', 'read': piece}."""

    def __init__(self, root):
        self.root, self.ev, self.raws, self.plan, self.step, self.quiet, self.keep = root, [], [], {}, 1 << 20, True, []

    def log(self, op, i=None):
        if not self.quiet:
            self.ev.append({'op': op} if i is None else {'op': op, 'id': i})

    def add(self, raw, own):
        self.raws.append(raw)
        if own == 'lib':
            self.log('open', len(self.raws))
        return len(self.raws)

    def mine(self, f):
        try:
            return os.fspath(f).startswith(self.root)
        except TypeError:
            return False

    def layers(self, raw, mode, buffering, encoding, errors, newline):
        b = io.BufferedReader(raw) if 'r' in mode and '+' not in mode else io.BufferedWriter(raw, 64)
        self.keep.append(b)     # so that only an explicit close counts
        if 'b' in mode:
            return b
        t = io.TextIOWrapper(b, encoding, errors, newline)
        t.mode = mode
        self.keep.append(t)
        return t

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if self.quiet or not self.mine(file):
            return REAL(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.plan.get('open'):
            self.log('fault')
            raise PermissionError(errno.EACCES, 'Permission denied', os.fspath(file))
        raw = Raw(os.fspath(file), mode.replace('b', '').replace('t', ''), self, 'lib', self.step, self.plan.get('read', 0), self.plan.get('stay', True))
        return self.layers(raw, mode, buffering, encoding, errors, newline)

    # ---- what a caller hands over
    def handle(self, path, encoding, binary=False):
        raw = Raw(path, 'r', self, 'user', self.step)
        return raw, self.layers(raw, 'rb' if binary else 'r', -1, encoding, None, None)

    def web(self, pages):
        def get(opener, url, data=None, timeout=None):
            full = url if isinstance(url, str) else url.full_url
            if self.plan.get('open'):
                self.log('fault')
                raise urllib.error.URLError('Connection refused')
            raw = Raw(pages[full], 'r', self, 'lib', self.step, self.plan.get('read', 0), self.plan.get('stay', True))
            msg = Message()
            msg['Content-Type'] = 'text/plain'
            raw.auto = full.startswith('http')      # http.client closes a response read to its end
            self.keep.append(urllib.response.addinfourl(io.BufferedReader(raw), msg, full, 200))
            return self.keep[-1]
        return get

    @contextlib.contextmanager
    def active(self, pages=None):
        with mock.patch.object(builtins, 'open', self.open), mock.patch.object(io, 'open', self.open), mock.patch('urllib.request.OpenerDirector.open', self.web(pages or {})):
            self.quiet = False
            try:
                yield
            finally:
                self.quiet = True

    def strays(self):
        """Descriptors under root that are open and are not being watched."""
        n, known = 0, {r.fileno() for r in self.raws if r is not None and not r.closed}
        for x in os.listdir('/proc/self/fd'):
            try:
                if int(x) not in known and os.readlink('/proc/self/fd/' + x).startswith(self.root):
                    n += 1
            except OSError:
                pass
        return n

    def call(self, f, *a, pages=None, **k):
        """One watched call: (status, value or exception name, files dropped without closing)."""
        self.ev = []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('ignore')
            warnings.simplefilter('always', ResourceWarning)
            out, bad = None, 0
            with self.active(pages):
                try:
                    st, out = 'ok', f(*a, **k)
                except Exception as x:
                    st, out = 'exc', type(x).__name__
                    bad = self.strays()
            if st == 'ok':
                bad = self.strays()
            gc.collect(0)
        return st, out, bad + sum(1 for x in w if issubclass(x.category, ResourceWarning) and self.root in str(x.message))

    def clear(self):
        for r in self.raws:
            if r is not None:
                io.FileIO.close(r)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.raws, self.keep = [], []


def wrapper(h, path):
    return tempfile._TemporaryFileWrapper(h, path, delete=False)
