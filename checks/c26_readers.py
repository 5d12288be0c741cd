import io
import json
import os
import shutil
import tempfile
import warnings
from vh import *
import numpy as np
import pandas as pd
import pvlib
from pvlib import iotools
import wxfiles

CFG = '''CONSTANTS MaxLen = %d
INIT Init
NEXT Next
INVARIANTS Placed Steady Distinct NoLeapDay MonthEnds Emit
'''
BUFFERS = {'read_tmy3', 'read_epw', 'read_crn', 'read_srml', 'read_midc', 'read_bsrn', 'read_nsrdb_psm4', 'read_pvgis_hourly', 'read_cams'}


def cell(x):
    if isinstance(x, (bool, np.bool_)):
        return str(x)
    if isinstance(x, (int, float, np.number)):
        return num(x)
    if x is None or x is pd.NaT or x is pd.NA:
        return 'NaN'
    return str(x)


def dig(meta, key, f):
    v = meta
    for k in (key.split('.', 2) if f.startswith('pvgis') else [key]):
        if not isinstance(v, dict) or k not in v:
            if isinstance(v, dict) and f.startswith('pvgis'):
                rest = key[key.index(k):]
                if rest in v:
                    return show(v[rest])
                if '.' in k and k.split('.')[0] in v:
                    a, b = k.split('.', 1)
                    v = v[a]
                    k = b
                    if isinstance(v, dict) and k in v:
                        v = v[k]
                        continue
            return '(missing)'
        v = v[k]
    return show(v)


def show(v):
    if isinstance(v, pd.Series):
        return ' '.join('%d:%d' % p for p in v.items())
    if isinstance(v, list):
        return ' '.join('%d:%d' % (d['month'], d['year']) for d in v)
    return cell(v)


def read(F, d, rng, how):
    d = os.path.join(d, rng.choice(['', 'msn', 'a b.csv', 'httpd', 'x.gz']))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, F.stem + F.suffix)
    with open(path, 'w', encoding=F.encoding, newline='') as h:
        h.write(F.text)
    f = getattr(iotools, F.reader)
    kw = dict(F.kw)
    if F.reader in ('read_tmy3',) and how != 'buffer' and rng.random() < .3:
        kw['encoding'] = 'utf-8'
    if F.reader.startswith('read_pvgis') and (how in ('buffer', 'handle') or rng.random() < .2):
        kw['pvgis_format'] = F.suffix[1:]
    if how == 'buffer':
        src = io.BytesIO(F.text.encode()) if F.reader == 'read_pvgis_tmy' and F.suffix == '.csv' else io.StringIO(F.text)
    elif how == 'handle':
        with open(path, encoding=F.encoding) as src:
            return f(src, **kw)
    else:
        src = path
        if how == 'pathlib':
            import pathlib
            src = pathlib.Path(path)
    return f(src, **kw)


def event(F, d, rng, how):
    e = {'op': 'file', 'f': F.f, 'o': {k: v for k, v in F.o.items() if k != 'also'}, 'recs': F.recs, 'names': F.names, 'cells': F.cells, 'map': F.map, 'vmap': F.vmap, 'tz': F.tz, 'zone': F.zone, 'ok': True, 'err': ''}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        st, out = outcome(read, F, d, rng, how)
    if st != 'ok':
        return dict(e, ok=False, err=out)
    data, meta = out if isinstance(out, tuple) else (out, {})
    ix = data.index
    e['cols'] = [str(c) for c in data.columns]
    e['vals'] = {str(c): [cell(x) for x in data.iloc[:, j]] for j, c in enumerate(data.columns)}
    if isinstance(ix, pd.DatetimeIndex):
        wall = ix.tz_localize(None)
        e['lab'] = [num((t - pd.Timestamp('1970-01-01')).total_seconds() / 60) for t in wall]
        e['offs'] = ['naive' if ix.tz is None else num(t.utcoffset().total_seconds() / 60) for t in ix]
    else:
        e['lab'], e['offs'] = ['NaN'] * len(data), ['naive'] * len(data)
    e['meta'] = [{'key': k, 'kind': kind, 'v': v, 'got': dig(meta, k, F.f)} for k, kind, v in F.meta]
    return e


# ------------------------------------------------------------- PAN / OND
def pan_value(rng):
    k = rng.random()
    if k < .3:
        return [rng.choice(['72', '0', '-5', '1000', '2021'])]
    if k < .6:
        return [rng.choice(['25.0', '-0.500', '0.035', '550.0', '7.2'])]
    if k < .85:
        return [rng.choice(['mtSiMono', '$00900243', 'ET SOLAR', '06/04/22 12:39', 'v1.2.3', 'Manufacturer 2021', 'Eff=20%', 'a=b=c'])]
    return [rng.choice(['20.0', '1.00000', '3', 'x', '-4']) for _ in range(rng.randint(2, 4))]


def pan(rng):
    lines = []

    def group(d, name):
        lines.append((d, name, [rng.choice(['pvModule', 'TCubicProfile', '5'])]))
        n = rng.randint(1, 4)
        for i in range(n):
            if d < 3 and rng.random() < .35:
                group(d + 1, 'Grp%d%d' % (d, i))
            else:
                if rng.random() < .1 and i:
                    lines.append(None)
                lines.append((d + 1, rng.choice(['Key', 'Point_', 'OperPoints, list of', 'Remarks, Count']) + str(i), pan_value(rng)))
        lines.append((d, 'End of ' + name, []))
    group(0, 'PVObject_')
    text = '\n'.join('' if x is None else '  ' * x[0] + x[1] + ('=' + ','.join(x[2]) if x[2] else '') for x in lines) + '\n'
    return [x for x in lines if x is not None], text


def flat(t, path=()):
    out = []
    for k, v in t.items():
        if isinstance(v, dict):
            out += flat(v, path + (k,))
        elif v is not None:
            typ = lambda x: 'float' if isinstance(x, float) else 'int' if isinstance(x, int) else 'str'
            out.append({'path': list(path + (k,)), 'val': {'t': 'list', 'v': [{'t': typ(x), 'v': [cell(x)]} for x in v]} if isinstance(v, list) else {'t': typ(v), 'v': [cell(v)]}})
    return out


def tree(rng, d):
    lines, text = pan(rng)
    path = os.path.join(d, 'x.PAN')
    enc_ = rng.choice(['utf-8', 'utf-8-sig', 'latin1'])
    with open(path, 'w', encoding=enc_, newline=rng.choice(['\n', '\r\n'])) as h:
        h.write(text)
    st, out = outcome(iotools.read_panond, path, encoding=enc_)
    return {'op': 'tree', 'lines': [{'d': a, 'key': k, 'parts': p} for a, k, p in lines], 'ok': st == 'ok', 'err': '' if st == 'ok' else out, 'got': flat(out) if st == 'ok' else []}


def year(rng, names, style):
    recs = [dict(y=rng.choice([2005, 2009, 2013]), m=t.month, d=t.day, doy=t.day_of_year, h=t.hour, mi=0) for t in pd.date_range('2010', periods=8760, freq='h')]
    ys = {m: rng.choice([2005, 2008, 2013, 2016]) for m in range(1, 13)}
    for r in recs:
        r['y'] = ys[r['m']]
    return wxfiles.make('pvgistmy', {'year': 0, 'label': '', 'style': style, 'given': '', 'step': 60}, recs, rng, names)


def run(c):
    rng = c.rng
    recs = c.model('ReadersMC', CFG % c.pick(5, 7))
    names = {r['f']: r['names'] for r in recs if 'names' in r}
    cases = {}
    for r in recs:
        if 'recs' in r:
            cases.setdefault(r['f'], []).append(r)
    tr = []
    d = tempfile.mkdtemp(prefix='c26')
    try:
        for f in sorted(cases):
            full = max(len(x['recs']) for x in cases[f])
            long_ = [x for x in cases[f] if len(x['recs']) == full]
            short = [x for x in cases[f] if len(x['recs']) < full]
            pick = (long_ + short if c.thorough else rng.sample(long_, min(len(long_), 120)) + rng.sample(short, min(len(short), 40)))
            for x in pick:
                o = dict(x['o'], also=f == 'bsrn' and rng.random() < .4)
                F = wxfiles.make(f, o, x['recs'], rng, names)
                if f == 'tmy3':
                    F.map = rng.random() < .7
                    F.kw['map_variables'] = F.map
                if f == 'bsrn' and rng.random() < .2 and not o['also']:
                    F.kw.pop('logical_records')
                how = rng.choice(['path', 'path', 'pathlib'] + (['buffer', 'handle'] if F.reader in BUFFERS else []))
                tr.append({'meta': {'format': f, 'how': how, 'kw': str(F.kw)}, 'ev': [event(F, d, rng, how)]})
        for style in ('csv', 'json'):
            for _ in range(c.pick(1, 2)):
                F = year(rng, names, style)
                e = event(F, d, rng, rng.choice(['path', 'buffer']))
                # rows in blocks
                for a in range(0, 8760, 730):
                    b = slice(a, a + 730)
                    x = dict(e, recs=F.recs[b], cells=F.cells[b])
                    if e['ok']:
                        x.update(lab=e['lab'][b], offs=e['offs'][b], vals={k: v[b] for k, v in e['vals'].items()})
                        if len(e['lab']) != 8760:
                            x['lab'] = e['lab']
                    tr.append({'meta': {'format': 'pvgistmy', 'block': a}, 'ev': [x]})
        for _ in range(c.pick(150, 2000)):
            tr.append({'meta': {'format': 'panond'}, 'ev': [tree(rng, d)]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.cov['files'] = len(tr)
    c.validate('Readers', tr)


main(run)
