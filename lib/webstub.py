"""A stand-in network: requests, urllib and FTP calls end here, the clock only
moves when somebody sleeps, and every answer comes from a script."""
import base64
import contextlib
import ftplib
import io
import json
import time
import urllib.error
import urllib.request
import urllib.response
from email.message import Message
from unittest import mock
from urllib.parse import parse_qsl, unquote, urlsplit, urlunsplit
from xml.etree import ElementTree
import requests
from requests.adapters import HTTPAdapter
from requests.structures import CaseInsensitiveDict


class Runaway(BaseException):
    pass


def text(x):
    if isinstance(x, float) and x.is_integer() and abs(x) < 1e15:
        return repr(x)
    return str(x)


def flat(x, path=''):
    if isinstance(x, dict):
        return [p for k, v in x.items() for p in flat(v, path + '.' + str(k) if path else str(k))]
    if isinstance(x, (list, tuple)):
        return [p for i, v in enumerate(x) for p in flat(v, '%s.%d' % (path, i) if path else str(i))]
    return [[path, text(x)]]


def local(tag):
    return tag.split('}')[-1]


def xml(body):
    root = ElementTree.fromstring(body)
    out = [[k, v] for k, v in root.attrib.items() if '}' not in k]
    for el in root.iter():
        n = local(el.tag)
        if n == 'site':
            out += [['site.' + k, v] for k, v in el.attrib.items() if k in ('lat', 'lng')]
        elif n == 'processing':
            out += [['processing.' + k, v] for k, v in el.attrib.items()]
        elif n in ('timestampType', 'timeZone'):
            out.append([n, (el.text or '').strip()])
    return out


def body_of(data):
    if data is None or data == b'' or data == '':
        return []
    if isinstance(data, bytes):
        data = data.decode('utf-8')
    try:
        return xml(data) if data.lstrip().startswith('<') else flat(json.loads(data))
    except Exception:
        return [['raw', str(data)]]


class Net:
    """script: response classes in order (the last one repeats); answer(cls, i, n_ok, req)
    gives (status, reason, bytes) or raises."""

    def __init__(self, script, answer):
        self.script, self.answer = list(script) or ['ok'], answer
        self.events, self.n, self.t, self.oks = [], 0, 0., 0

    # ---- one exchange
    def take(self, m, url, h, data, timeout):
        if self.n >= 150:
            raise Runaway('too many requests')
        u = urlsplit(url)
        q, b = [], body_of(data)
        raw = u.query
        rest = []
        for part in raw.split('&') if raw else []:
            if part.startswith('DataInputs='):
                b += [x.split('=', 1) if '=' in x else [x, ''] for x in unquote(part[11:]).split(';')]
            else:
                rest.append(part)
        for k, v in parse_qsl('&'.join(rest), keep_blank_values=True):
            if k == 'location' and v[:1] == '[' and v[-1:] == ']':
                q += [['location.%d' % i, x.strip()] for i, x in enumerate(v[1:-1].split(','))]
            else:
                q.append([k, v])
        hs = []
        for k, v in (h or {}).items():
            if isinstance(v, bytes):
                v = v.decode('latin1')
            if k.lower() == 'authorization' and v.startswith('Basic '):
                v = 'Basic ' + base64.b64decode(v[6:]).decode()
            if k.lower() == 'content-type':
                v = v.split(';')[0].strip()
            hs.append([k.lower(), str(v)])
        if isinstance(timeout, tuple):
            timeout = timeout[-1]
        base = urlunsplit((u.scheme, u.netloc, u.path, '', '')) if u.scheme else url
        return self.step(m, base, q, hs, b, 'none' if timeout is None or not isinstance(timeout, (int, float)) else repr(timeout))

    def step(self, m, url, q, h, b, timeout):
        if self.n >= 150:
            raise Runaway('too many requests')
        r = self.script[min(self.n, len(self.script) - 1)]
        self.events.append({'op': 'req', 'm': m, 'url': url, 'q': q, 'h': h, 'body': b, 'timeout': timeout, 't': repr(self.t)})
        self.events.append({'op': 'resp', 'r': r, 't': repr(self.t)})
        self.n += 1
        try:
            return self.answer(r, self.n - 1, self.oks)
        finally:
            if r == 'ok':
                self.oks += 1

    # ---- the lowest layers
    def send(self, request, timeout):
        got = self.take(request.method, request.url, request.headers, request.body, timeout)
        if got == 'drop':
            raise requests.exceptions.ConnectionError('Connection aborted.')
        status, reason, data, kind = got
        r = requests.Response()
        r.status_code, r.reason, r._content, r.url, r.request = status, reason, data, request.url, request
        r.headers = CaseInsensitiveDict({'Content-Type': kind})
        r.encoding = 'utf-8'
        return r

    def open(self, url, data, timeout):
        if isinstance(url, urllib.request.Request):
            full, h, data, m = url.full_url, dict(url.header_items()), url.data, url.get_method()
        else:
            full, h, m = url, {}, 'GET' if data is None else 'POST'
        got = self.take(m, full, h, data, timeout)
        if got == 'drop':
            raise urllib.error.URLError('Connection aborted.')
        status, reason, raw, kind = got
        msg = Message()
        msg['Content-Type'] = kind
        if status >= 400:
            raise urllib.error.HTTPError(full, status, reason, msg, io.BytesIO(raw))
        out = urllib.response.addinfourl(io.BytesIO(raw), msg, full, status)
        out.msg = reason
        return out


class FakeFTP:
    net = None

    def __init__(self, host='', user='', passwd='', *args, **kw):
        self.said = False
        if host:
            self.connect(host)
        self.host = host
        if user:
            self.login(user, passwd)

    def _go(self, m, url, q=()):
        got = self.net.step(m, url, [list(p) for p in q], [], [], 'none')
        if got == 'drop':
            raise EOFError
        if isinstance(got, ftplib.Error):
            raise got
        return got

    def connect(self, host='', *a, **k):
        self.host = host
        return '220 ready'

    def login(self, user='', passwd='', acct=''):
        self._go('FTP', self.host, [('user', user), ('password', passwd)])
        return '230 ok'

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def cwd(self, d):
        self._go('CWD', d)
        return '250 Directory successfully changed.'

    def retrbinary(self, cmd, callback, blocksize=8192, rest=None):
        data = self._go(*cmd.split(' ', 1))
        line = '226 Transfer complete.'
        if isinstance(data, tuple):
            line, data = data
        for i in range(0, len(data), 100):
            callback(data[i:i + 100])
        return line

    def quit(self):
        return '221 Goodbye.'

    def close(self):
        pass


@contextlib.contextmanager
def network(net):
    t0 = 1.7e9

    def sleep(s):
        net.t += float(s)

    ftp = type('FTP', (FakeFTP,), {'net': net})
    with contextlib.ExitStack() as st:
        P = lambda *a, **k: st.enter_context(mock.patch(*a, **k))
        P('requests.adapters.HTTPAdapter.send', lambda self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None: net.send(request, timeout))
        P('urllib.request.OpenerDirector.open', lambda self, url, data=None, timeout=None: net.open(url, data, timeout))
        P('ftplib.FTP', ftp)
        P('ftplib.FTP_TLS', ftp)
        P('time.sleep', sleep)
        P('time.time', lambda: t0 + net.t)
        P('time.monotonic', lambda: 1e3 + net.t)
        P('time.perf_counter', lambda: 1e3 + net.t)
        yield net
