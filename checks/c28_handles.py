import hashlib
import io
import os
import pathlib
import shutil
import tempfile
import gzip
import ftplib
from unittest import mock
from vh import *
import numpy as np
import pandas as pd
import pvlib
from pvlib import iotools
import wxfiles
import handles

READS = 6
CFG = '''CONSTANTS Reads = %d Calls = %d Care = %s
SPECIFICATION Spec
INVARIANTS Judged Clean %s
PROPERTY Ends
CHECK_DEADLOCK FALSE
'''
NAMES = '''CONSTANTS MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Emit
'''
# what each reader's documentation accepts
FORMS = {
    'read_tmy3': 'path pathlib handle temp buffer', 'read_tmy2': 'path', 'read_epw': 'path pathlib url handle temp buffer', 'read_surfrad': 'path url', 'read_solrad': 'path',
    'read_crn': 'path url handle buffer', 'read_srml': 'path url handle buffer', 'read_midc': 'path url handle buffer', 'read_midc_raw_data_from_nrel': '',
    'read_bsrn': 'path gz handle buffer', 'read_nsrdb_psm4': 'path pathlib handle temp buffer', 'read_pvgis_hourly': 'path pathlib handle buffer', 'read_pvgis_tmy': 'path pathlib handle buffer',
    'read_cams': 'path pathlib handle temp buffer', 'read_solaranywhere': 'path pathlib', 'read_panond': 'path pathlib', 'retrieve_sam': 'path url',
}


def canon(x):
    if isinstance(x, pd.DataFrame):
        return ['frame', canon(x.index), [[str(k), canon(x.iloc[:, i].to_numpy(dtype=object, na_value=None).tolist())] for i, k in enumerate(x.columns)]]
    if isinstance(x, pd.Series):
        return ['series', canon(x.index), canon(x.tolist())]
    if isinstance(x, pd.Index):
        return ['index', str(getattr(x, 'tz', '')), canon(x.tolist())]
    if isinstance(x, dict):
        return ['dict', sorted([[str(k), canon(v)] for k, v in x.items()], key=repr)]
    if isinstance(x, (list, tuple, np.ndarray)):
        return [canon(v) for v in x]
    if isinstance(x, (float, np.floating)):
        return 'NaN' if x != x else repr(float(x))
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return repr(int(x))
    return repr(x)


def sum_of(x):
    return hashlib.sha1(repr(canon(x)).encode()).hexdigest() + '-x'


class Source:
    """One content and the reader that understands it."""

    def __init__(self, reader, data, suffix, encoding='utf-8', kw=None, binary=False, fn=None, need=None):
        self.reader, self.data, self.suffix, self.encoding, self.kw, self.binary = reader, data, suffix, encoding, kw or {}, binary
        self.fn = fn or getattr(iotools, reader, None)
        self.need = need or {}


def sources(rng, names, cases, sam):
    out = []
    for f in sorted(cases):
        full = [x for x in cases[f] if len(x['recs']) > 1]
        x = rng.choice(full)
        F = wxfiles.make(f, dict(x['o'], also=f == 'bsrn' and rng.random() < .4), x['recs'], rng, names)
        need = {'pvgis_format': F.suffix[1:]} if F.reader.startswith('read_pvgis') else {}
        out.append(Source(F.reader, F.text.encode(F.encoding), F.suffix, F.encoding, F.kw, F.reader == 'read_pvgis_tmy' and F.suffix == '.csv', need=need))
    for style in ('csv', 'json'):
        recs = [dict(y=2009, m=t.month, d=t.day, doy=t.day_of_year, h=t.hour, mi=0) for t in pd.date_range('2010', periods=8760, freq='h')]
        F = wxfiles.make('pvgistmy', {'year': 0, 'label': '', 'style': style, 'given': '', 'step': 60}, recs, rng, names)
        out.append(Source(F.reader, F.text.encode(), F.suffix, kw=F.kw, binary=style == 'csv', need={'pvgis_format': style}))
    pan = 'PVObject_=pvModule\n  Version=7.2\n  PVObject_Commercial=pvCommercial\n    Comment=x\n    Model=m 1\n  End of PVObject pvCommercial\n  NCelS=72\n  IAMProfile=TCubicProfile\n    Point_1=20.0,1.00000\n  End of TCubicProfile\nEnd of PVObject pvModule\n'
    out.append(Source('read_panond', pan.encode(), '.PAN'))
    out.append(Source('retrieve_sam', sam, '.csv', fn=lambda p: pvlib.pvsystem.retrieve_sam(path=p)))
    return [s for s in out if s.fn is not None]


def trace(src, form, plan, root, rng):
    d = os.path.join(root, rng.choice(['a', 'a b', 'httpd', 'msn']))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'file' + src.suffix + ('.gz' if form == 'gz' else ''))
    page = rng.choice(['http://data.example/x', 'ftp://data.example/y'] if src.reader in ('read_surfrad',) else ['http://data.example/x', 'https://data.example/y']) + src.suffix
    ev, held, kind = [], None, None
    w = handles.Watch(root)
    try:
        for p in plan:
            data = src.data
            n = len(data)
            if p['k'] == 'cut':
                data = data[:n * p['at'] // READS]
            elif p['k'] == 'junk':
                at = n * p['at'] // READS - 1
                data = data[:at] + b'\xff\xfe\x00' + data[at:]
            whole = p['k'] not in ('cut', 'junk')
            disk = gzip.compress(data, 0) if form == 'gz' else data
            w.step = -(-len(disk) // READS)
            w.plan = {'open': p['k'] == 'open', 'read': p['at'] if p['k'] == 'read' else 0, 'stay': rng.random() < .5}
            kw = dict(src.kw)
            if form in ('handle', 'temp', 'buffer'):
                kw.update(src.need)
                if not (held and kind == whole == True):
                    if form == 'buffer':
                        try:
                            held = handles.Bytes(data) if src.binary else handles.Text(data.decode(src.encoding))
                        except UnicodeDecodeError:
                            return None
                        held.w, held.id, raw = w, w.add(None, 'user'), None
                    else:
                        with open(path, 'wb') as h:
                            h.write(disk)
                        raw, held = w.handle(path, src.encoding, src.binary)
                        held = handles.wrapper(held, path) if form == 'temp' else held
                else:
                    try:
                        held.seek(0)
                    except ValueError:      # already reported as closed
                        break
                kind = whole
                if raw:
                    raw.n, raw.at, raw.stay = 0, w.plan['read'], w.plan['stay']
                arg, users = held, [held.id if raw is None else raw.id]
            else:
                with open(path, 'wb') as h:
                    h.write(disk)
                arg, users = {'path': path, 'gz': path, 'pathlib': pathlib.Path(path), 'url': page}[form], []
                if rng.random() < .2:
                    kw.update(src.need)
            st, out, bad = w.call(src.fn, arg, pages={page: path}, **kw)
            same = held.closed or held.getvalue() == (data if src.binary else io.StringIO(data.decode(src.encoding)).getvalue()) if form == 'buffer' else open(path, 'rb').read() == disk
            ev += [{'op': 'call', 'users': users}] + compress(w.ev) + [{'op': 'ret', 'ok': st == 'ok', 'err': '' if st == 'ok' else out, 'whole': whole, 'sum': sum_of(out) if st == 'ok' else '', 'dropped': bad, 'same': same}]
    finally:
        w.clear()
    return ev


def compress(ev):
    """Repeated reads of one handle say nothing new."""
    return [e for i, e in enumerate(ev) if not (i and e['op'] == 'read' and ev[i - 1] == e)]


# ------------------------------------------------------------- a month a file, over FTP
class Ftp:
    """The connection is a handle too; `plan` names the step that fails."""
    w = plan = blobs = None

    def __init__(self, host='', user='', passwd='', acct='', *a, **k):
        self.up, self.n = False, 0
        if user:
            self.fail('login', 1)       # raised by the constructor: nobody can close it
        if host:
            self.connect(host)

    def connect(self, host='', *a, **k):
        if not self.up:
            self.id, self.up = self.w.add(None, 'lib'), True
        return '220 ready'

    def login(self, user='', passwd='', acct=''):
        self.fail('login', 1)
        return '230 ok'

    def fail(self, k, at):
        if self.plan['k'] == k and self.plan['at'] == at:
            self.w.log('fault')
            raise ftplib.error_perm('530 Login incorrect.') if k == 'login' else EOFError() if self.plan['drop'] else ftplib.error_perm('550 Permission denied.')

    def close(self):
        if self.up:
            self.up = False
            self.w.log('close', self.id)

    def quit(self):
        self.close()
        return '221 Goodbye.'

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def cwd(self, d):
        self.fail('cwd', 1)
        return '250 OK'

    def retrbinary(self, cmd, callback, blocksize=8192, rest=None):
        self.n += 1
        b = self.blobs[cmd.split()[-1]]
        if self.plan['k'] == 'missing' and self.plan['at'] == self.n:
            raise ftplib.error_perm('550 Failed to open file.')
        if self.plan['k'] == 'junk' and self.plan['at'] == self.n:
            b = b[:len(b) // 2]
        h = len(b) // 2
        callback(b[:h])
        self.fail('retr', self.n)
        callback(b[h:])
        return '226 Transfer complete.'


def months(rng, names, cases, root):
    ev = []
    n = rng.randint(1, 3)
    first = pd.Timestamp(rng.randint(1995, 2020), rng.randint(1, 12), 1)
    when = pd.date_range(first, periods=n, freq='MS')
    F = []
    for t in when:
        recs = [dict(y=t.year, m=t.month, d=2, doy=(t + pd.Timedelta('1D')).day_of_year, h=3, mi=i) for i in range(3)]
        F.append(wxfiles.make('bsrn', dict(cases['bsrn'][0]['o'], also=False), recs, rng, names))
    blobs = {t.strftime('tam%m%y.dat.gz'): gzip.compress(f.text.encode('latin1')) for t, f in zip(when, F)}
    steps = [('none', 0), ('login', 1), ('cwd', 1)] + [(k, i) for i in range(1, n + 1) for k in ('retr', 'junk', 'save', 'deny', 'missing')]
    for k, at in [('none', 0)] + steps:
        w = handles.Watch(root)
        d = tempfile.mkdtemp(dir=root)
        save = d if k in ('save', 'deny') or rng.random() < .5 else None
        plan = {'k': k, 'at': at, 'drop': rng.random() < .5}
        w.plan = {}
        ftp = type('FTP', (Ftp,), {'w': w, 'plan': plan, 'blobs': blobs, 'opened': 0})
        if k in ('save', 'deny'):
            real, cnt = w.open, [0]

            def opener(*a, **kw):
                if w.mine(a[0]) and not w.quiet:
                    cnt[0] += 1
                    w.plan = {} if cnt[0] != at else {'open': True} if k == 'deny' else {'read': 1}
                return real(*a, **kw)
            w.open = opener
        with mock.patch('ftplib.FTP', ftp), mock.patch('ftplib.FTP_TLS', ftp):
            st, out, bad = w.call(iotools.get_bsrn, 'tam', first, when[-1], 'u', 'p', save_path=save)
        w.clear()
        whole = k not in ('junk', 'missing')
        ev += [{'op': 'call', 'users': []}] + compress(w.ev) + [{'op': 'ret', 'ok': st == 'ok', 'err': '' if st == 'ok' else out, 'whole': whole, 'sum': sum_of(out) if st == 'ok' else '', 'dropped': bad, 'same': True, 'form': k + str(at)}]
        shutil.rmtree(d)
    return {'meta': {'reader': 'get_bsrn', 'months': n, 'first': str(first)}, 'ev': ev}


def run(c):
    rng = c.rng
    cases, names = {}, {}
    for r in c.model('ReadersMC', NAMES):
        if 'names' in r:
            names[r['f']] = r['names']
        if 'recs' in r:
            cases.setdefault(r['f'], []).append(r)
    c.model('HandlesMC', CFG % (3, c.pick(2, 3), 'FALSE', ''), emit=False)
    plans = {}
    for r in c.model('HandlesMC', CFG % (READS, 2, 'TRUE', 'Emit')):
        plans.setdefault(r['form'], []).append(r['plan'])
    lib = os.path.join(os.path.dirname(pvlib.__file__), 'data')
    with open(os.path.join(lib, 'adr-library-cec-inverters-2019-03-05.csv'), 'rb') as h:
        sam = b''.join(h.readlines()[:9])
    tr = []
    root = os.path.realpath(tempfile.mkdtemp(prefix='c28'))
    try:
        for src in [s for _ in range(c.pick(1, 6)) for s in sources(rng, names, cases, sam)]:
            big = len(src.data) > 100000
            for form in FORMS[src.reader].split():
                one = [p for p in plans[form] if len(p) == 1]
                two = [p for p in plans[form] if len(p) == 2]
                clean = [{'k': 'none', 'at': 0}]
                todo = rng.sample(one, 6) if big and not c.thorough else one
                todo = [clean] + todo + rng.sample(two, min(len(two), c.pick(2 if big else 8, 20 if big else 80)))
                ev = [e for p in todo if (e := trace(src, form, p, root, rng))]
                tr.append((src, form, todo, [x for e in ev for x in e]))
        ftp = [months(rng, names, cases, root) for _ in range(c.pick(8, 80))]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    # one trace per source: all its forms must agree
    by = {}
    for src, form, todo, ev in tr:
        by.setdefault(id(src), (src, []))[1].extend([dict(x, form=form) for x in ev])
    c.cov['calls'] = sum(1 for s, ev in by.values() for x in ev if x['op'] == 'ret')
    c.validate('Handles', [{'meta': {'reader': s.reader, 'suffix': s.suffix, 'kw': str(s.kw)}, 'ev': ev} for s, ev in by.values()] + ftp)


main(run)
