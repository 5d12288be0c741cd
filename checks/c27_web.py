import base64
import copy
import datetime as dt
import gzip
import hashlib
import io
import json
import os
import random
import shutil
import tempfile
import warnings
import zipfile
from vh import *
import itertools
import numpy as np
import pandas as pd
from pvlib import iotools
import wxfiles
import webstub

CFG = '''CONSTANTS MaxFiles = %d Budget = %d
SPECIFICATION Spec
INVARIANTS Loud NoData Complete Counted Bounded OnlyFtpEmpty Emit
PROPERTY Ends
'''
NAMES = '''CONSTANTS MaxLen = 0
INIT Init
NEXT Next
INVARIANTS Placed Emit
'''
PSM4 = ['aggregated', 'tmy', 'conus', 'full_disc', 'polar', 'polar_tmy']
SINGLE = (['get_acis_prism', 'get_acis_nrcc', 'get_acis_mpe', 'get_acis_station_data', 'get_acis_available_stations'] +
          ['get_meteonorm_' + x for x in ('forecast_basic', 'forecast_precision', 'observation_realtime', 'observation_training', 'tmy')] +
          ['get_solargis', 'get_nasa_power'] + ['get_solcast_' + x for x in ('tmy', 'historic', 'forecast', 'live')] + ['get_nsrdb_psm4_' + x for x in PSM4] +
          ['get_pvgis_hourly', 'get_pvgis_tmy', 'get_pvgis_horizon', 'get_cams', 'read_midc_raw_data_from_nrel'])
KINDS = {'single': SINGLE, 'many': ['get_merra2'], 'files': ['get_surfrad', 'get_solrad', 'get_srml'], 'job': ['get_solaranywhere'], 'job2': ['get_era5'], 'ftp': ['get_bsrn']}
OLD = dt.datetime(1970, 1, 1)


def cell(x):
    if isinstance(x, (bool, np.bool_)):
        return str(x)
    if isinstance(x, (int, float, np.number)):
        return num(x)
    if x is None or x is pd.NaT or x is pd.NA:
        return 'NaN'
    return str(x)


# ------------------------------------------------------------ what is passed
def stamp(t, off=0, naive=True, rel='', none=False):
    return {'y': t.year, 'm': t.month, 'd': t.day, 'h': t.hour, 'mi': t.minute, 's': t.second, 'off': off, 'naive': naive, 'rel': rel, 'none': none}


NONE = stamp(OLD, none=True)


def zoned(t, off):
    return pd.Timestamp(t).tz_localize(dt.timezone(dt.timedelta(minutes=off)))


def when(rng, t, aware=False, clock=True):
    """t said in one of the ways a caller may say it."""
    if not clock:
        t = t.replace(hour=0, minute=0, second=0)
    ways = ['ts', 'dt', 'str', 'np'] + (['date'] if not (t.hour or t.minute or t.second) else []) + (['zone', 'zone', 'utc'] if aware else [])
    w = rng.choice(ways)
    if w == 'ts':
        return pd.Timestamp(t), stamp(t)
    if w == 'dt':
        return t, stamp(t)
    if w == 'np':
        return np.datetime64(t), stamp(t)
    if w == 'date':
        return t.date(), stamp(t)
    if w == 'str':
        return (t.strftime('%Y-%m-%d') if not (t.hour or t.minute or t.second) else t.isoformat()), stamp(t)
    if w == 'utc':
        return pd.Timestamp(t, tz='UTC'), stamp(t, 0, False)
    off = rng.choice([-600, -420, -300, 60, 330, 345, 600, 720])
    return zoned(t, off), stamp(t, off, False)


def day(rng, lo=2001, hi=2022):
    return rng.choice([dt.datetime(rng.randint(lo, hi), rng.randint(1, 12), rng.randint(1, 28)), dt.datetime(rng.randint(lo, hi), 12, 31), dt.datetime(2020, 2, 28), dt.datetime(2019, 2, 28), dt.datetime(rng.randint(lo, hi), 1, 1)])


def clocked(rng, d):
    return d.replace(hour=rng.choice([0, 0, 1, 12, 22, 23]), minute=rng.choice([0, 0, 30]), second=rng.choice([0, 0, 0, 15]))


def place(rng, k=None):
    la, lo = rng.uniform(-65, 65), rng.uniform(-179, 179)
    if k is None:
        k = rng.choice([1, 2, 4, 6])
    return round(la, k), round(lo, k)


def some(rng, xs, lo=1):
    return rng.sample(xs, rng.randint(lo, len(xs)))


def val(rng, miss=None):
    return miss if miss is not None and rng.random() < .15 else rng.choice([round(rng.uniform(-20, 1000), rng.randint(0, 3)), rng.randint(0, 400), 0, round(rng.uniform(-150, -20), 1)])


BLANK = dict(url='', timeout='', bad='', message='', wait='', every='', fill='', trace='', map=True, zone=0, names=[], start=NONE, end=NONE, lat='', lon='', key='', user='', password='', token='', job='', href='', kw=[], till='', duration='',
             station='', filetype='', grid='', tilt='', azimuth='', horizon=[], step='', situation='', turbidity=[], model='', seed='', scenario='', future='', albedo='', shading=False, label='', tz='', community='', elevation='', windheight='',
             windsurface='', fullname='', email='', affiliation='', year='', leap=False, utc=False, format='', pv=False, tech='', place='', tracking='', components=True, usehorizon=True, optangles=False, opttilt=False, loss='', database='', startyear='',
             endyear='', peak='', altitude='', timeref='', verbose=False, identifier='', spatial='', source='', missing='', poe='', dynamics=False, datasets=[], west='', south='', east='', north='', roll='', coerce='')
BLANK['from'] = ''


class Case:
    """One call and what the service will serve."""

    def __init__(self, f, rng, names):
        self.f, self.rng, self.names = f, rng, names
        self.kw, self.a = {}, copy.deepcopy(BLANK)
        self.a['message'] = 'no luck today %d' % rng.randint(100, 999)
        self.kind = 'application/json'
        self.oks = []          # indices of the files found
        self.tmp = None

    def set(self, key=None, **kw):
        self.a.update(kw)
        return self

    def arg(self, name, value, key=None, as_=None):
        """pass name=value, record it under key."""
        self.kw[name] = value
        if key:
            self.a[key] = str(value) if as_ is None else as_

    def opt(self, p, name, value, key, as_=None):
        if self.rng.random() < p:
            self.arg(name, value, key, as_)

    def address(self, url, p=.25):
        if self.rng.random() < p:
            self.arg('url', url, 'url')

    def mapping(self):
        m = self.rng.random() < .7
        self.kw['map_variables'] = m
        self.a['map'] = m
        return m

    def wait(self, p=.4, name='timeout'):
        if self.rng.random() < p:
            self.arg(name, self.rng.choice([3, 7.5, 45, 120]), 'timeout')

    def span(self, aware=False, clock=True, days=None, given=True):
        rng = self.rng
        d0 = day(rng)
        d1 = d0 + dt.timedelta(days=rng.randint(0, 40) if days is None else days)
        if clock:
            d0, d1 = clocked(rng, d0), clocked(rng, d1)
            d0, d1 = min(d0, d1), max(d0, d1)
        for k, t in (('start', d0), ('end', d1)):
            v, r = when(rng, t, aware, clock)
            if given:
                self.kw[k] = v
            self.a[k] = r
        return d0, d1

    def js(self, x):
        return 200, 'OK', json.dumps(x).encode(), 'application/json'

    def plain(self, x, kind='text/csv'):
        return 200, 'OK', x if isinstance(x, bytes) else x.encode(), kind

    # ---- the service
    def answer(self, r, i, nok):
        M = self.a['message']
        if r == 'ok':
            return self.serve(i, nok)
        if r == 'drop':
            return 'drop'
        if r == 'pending':
            return self.js({'status': self.rng.choice(['accepted', 'running']), 'Status': 'InProgress', 'jobID': self.a['job']})
        if r == 'failed':
            return self.js({'status': 'failed', 'Status': 'Done', 'WeatherDataResults': [{'Status': 'Failure', 'ErrorMessages': [{'Message': M}]}]})
        if self.f == 'get_bsrn':
            import ftplib
            if r == 'missing':
                return ftplib.error_perm('550 Failed to open file.' if i >= 2 else '550 Failed to change directory.')
            if r == 'denied':
                return ftplib.error_perm(self.rng.choice(['530 Login incorrect.', '550 Permission denied.']))
            return self.rng.choice(['426 Connection closed; transfer aborted.', '226 Abort successful.', '451 Local error in processing.']), self.serve(i, nok)
        if r == 'missing':
            return 404, 'Not Found', b'<html><body>404</body></html>', 'text/html'
        if r == 'errtext':
            c = self.rng.choice([(503, 'Service Unavailable'), (403, 'Forbidden'), (500, 'Internal Server Error')])
            if self.f in KINDS['files']:
                c = (503, 'Service Unavailable')
            return c + (b'<html><body>not today</body></html>', 'text/html')
        if r == 'errjson':
            if self.f == 'get_cams':
                return 400, 'Bad Request', ('<?xml version="1.0"?>\n<ows:ExceptionReport><ows:Exception><ows:ExceptionText>%s</ows:ExceptionText></ows:Exception></ows:ExceptionReport>' % M).encode(), 'text/xml'
            return (self.rng.choice([400, 401, 422, 429]), 'Bad Request') + self.js({'error': {'message': M}, 'errors': [M], 'message': M, 'Message': M, 'detail': M})[2:]
        if r == 'payload':
            return self.js({'error': M} if 'acis' in self.f else {'error': M, 'code': 3})
        if r == 'garbage':
            return 200, 'OK', self.rng.choice([b'', b'<html><body>\nWelcome, please log in\n</body></html>\n']), 'text/html'
        raise MachineryError('answer ' + r)

    # ---- results
    def series(self, data, meta, rows, names, cells, every='', dead=None, custom=()):
        e = {'shape': 'series', 'rows': rows, 'names': names, 'cells': cells, 'every': every, 'dead': dead or [False] * len(names)}
        ix = data.index
        e['cols'] = [str(c) for c in data.columns]
        e['vals'] = {str(c): [cell(x) for x in data.iloc[:, j]] for j, c in enumerate(data.columns)}
        e['lab'], e['offs'], e['lab2'] = ['NaN'] * len(data), ['naive'] * len(data), []
        if isinstance(ix, pd.IntervalIndex):
            e['shape'] = 'interval'
            e['lab2'] = clockof(pd.DatetimeIndex(ix.right))[0]
            ix = pd.DatetimeIndex(ix.left)
            if data.index.closed != 'left':
                e['lab2'] = ['NaN'] * len(data)
        if isinstance(ix, pd.DatetimeIndex):
            e['lab'], e['offs'] = clockof(ix)
        e['meta'] = metas(meta, custom)
        return e

    def file(self, F, data, meta, extra=()):
        """the result of reading the files found."""
        Fs = F if isinstance(F, list) else [F]
        G = Fs[-1]
        e = {'shape': 'file', 'f': G.f, 'o': {k: v for k, v in G.o.items() if k not in ('also', 'els')}, 'recs': [r for x in Fs for r in x.recs], 'names': G.names, 'cells': [c for x in Fs for c in x.cells], 'map': G.map, 'vmap': G.vmap, 'tz': G.tz, 'zone': G.zone}
        e['cols'] = [str(c) for c in data.columns]
        e['vals'] = {str(c): [cell(x) for x in data.iloc[:, j]] for j, c in enumerate(data.columns)}
        if isinstance(data.index, pd.DatetimeIndex):
            e['lab'], e['offs'] = clockof(data.index)
        else:
            e['lab'], e['offs'] = ['NaN'] * len(data), ['naive'] * len(data)
        e['meta'] = [{'key': k, 'kind': kind, 'v': v, 'got': dig(meta, k, G.f)} for k, kind, v in G.meta] + metas(meta, extra)
        return e


def metas(meta, want):
    out = []
    for k, kind, v in want:
        g = meta
        for p in k.split('.'):
            g = g[p] if isinstance(g, dict) and p in g else '(missing)'
        if isinstance(g, (list, tuple, np.ndarray)):
            g = ' '.join(str(x) for x in g)
        out.append({'key': k, 'kind': kind, 'v': v, 'got': cell(g)})
    return out


def clockof(ix):
    wall = ix.tz_localize(None)
    return [num((t - pd.Timestamp(OLD)).total_seconds() / 60) for t in wall], ['naive' if ix.tz is None else num(t.utcoffset().total_seconds() / 60) for t in ix]


def dig(meta, key, f):
    v = meta
    for k in (key.split('.', 2) if f.startswith('pvgis') else [key]):
        if not isinstance(v, dict) or k not in v:
            if isinstance(v, dict) and f.startswith('pvgis'):
                rest = key[key.index(k):]
                if rest in v:
                    return show(v[rest])
                if '.' in k and k.split('.')[0] in v:
                    a, b = k.split('.', 1)
                    v = v[a]
                    k = b
                    if isinstance(v, dict) and k in v:
                        v = v[k]
                        continue
            return '(missing)'
        v = v[k]
    return show(v)


def show(v):
    if isinstance(v, pd.Series):
        return ' '.join('%d:%d' % p for p in v.items())
    if isinstance(v, list):
        return ' '.join('%d:%d' % (d['month'], d['year']) for d in v)
    return cell(v)


def rec(t):
    return {'y': t.year, 'm': t.month, 'd': t.day, 'h': t.hour, 'mi': t.minute}


def frec(t):
    return dict(rec(t), doy=t.timetuple().tm_yday)


OPT = {'year': 0, 'label': '', 'style': '', 'given': '', 'step': 60}


# ------------------------------------------------------------------ services
def acis(c):
    rng, f = c.rng, c.f
    la, lo = place(rng)
    c.span()
    c.address('https://acis.example/%s' % f)
    c.wait()
    if f == 'get_acis_available_stations':
        a, b = sorted([la, round(la + rng.uniform(-5, 5), 2)])
        d, e = sorted([lo, round(lo + rng.uniform(-5, 5), 2)])
        c.kw['latitude_range'], c.kw['longitude_range'] = rng.choice([(a, b), [a, b]]), (d, e)
        c.set(south=str(a), north=str(b), west=str(d), east=str(e))
        for k in ('start', 'end'):
            if rng.random() < .3:
                c.kw[k] = None
                c.a[k] = NONE
        rows = [['St %d' % i, repr(val(rng)), repr(val(rng)), repr(val(rng))] for i in range(rng.randint(1, 5))]
        c.serve = lambda i, n: c.js({'meta': [{'name': r[0], 'll': [float(r[2]), float(r[1])], 'elev': float(r[3]), 'state': 'CO', 'sids': ['1 1']} for r in rows]})
        c.ret = lambda out: {'shape': 'stations', 'lab': [], 'cells': rows, 'got': [[str(r['name']), num(r['latitude']), num(r['longitude']), num(r['altitude'])] for _, r in out.iterrows()]}
        return
    names = {'get_acis_mpe': ['pcpn'], 'get_acis_station_data': 'maxt mint avgt obst pcpn snow snwd cdd hdd gdd'.split()}.get(f, 'pcpn maxt mint avgt cdd hdd gdd'.split())
    m = c.mapping()
    st = f == 'get_acis_station_data'
    if st:
        c.arg('station', rng.choice(['KMCI', 'USW00003947', 13985]), 'station')
        c.a['trace'] = '0.001'
        c.opt(.5, 'trace_val', rng.choice([0, .5, .01]), 'trace')
    else:
        c.kw['latitude'], c.kw['longitude'] = la, lo
        c.set(lat=str(la), lon=str(lo))
    if f == 'get_acis_nrcc':
        c.arg('grid', rng.choice([1, 3]), 'grid')
    d0 = day(rng)
    days = [d0 + dt.timedelta(days=i) for i in range(rng.randint(1, 6))]
    elev = '' if f == 'get_acis_mpe' else rng.choice(['0', '1234', '5280', '-20'])
    cells = [[(rng.choice(['M', 'T', '0.0', '0.00', '12.5', '-3', '100', 'T']) if rng.random() < .5 else '%.1f' % rng.uniform(-30, 40)) if st else repr(val(rng, -999)) for n in names] for d in days]
    meta = {'ll': [lo, la]}
    if elev:
        meta['elev'] = float(elev)
    c.serve = lambda i, n: c.js({'meta': meta, 'data': [[d.strftime('%Y-%m-%d')] + [x if st else json.loads(x) for x in row] for d, row in zip(days, cells)]})
    want = [['latitude' if m else 'lat', 'same', [str(la)]], ['longitude' if m else 'lon', 'same', [str(lo)]]] + ([['altitude' if m else 'elev', 'feet', [elev]]] if elev else [])
    c.ret = lambda out: c.series(out[0], out[1], [{'y': d.year, 'm': d.month, 'd': d.day} for d in days], names, cells, custom=want)


METEO = ['global_horizontal_irradiance', 'diffuse_horizontal_irradiance', 'direct_normal_irradiance', 'direct_horizontal_irradiance', 'global_clear_sky_irradiance', 'diffuse_clear_sky_irradiance', 'direct_normal_clear_sky_irradiance',
         'direct_horizontal_clear_sky_irradiance', 'diffuse_tilted_irradiance', 'direct_tilted_irradiance', 'global_tilted_irradiance', 'temperature', 'dew_point_temperature', 'wind_speed', 'surface_pressure']


def meteonorm(c):
    rng, f = c.rng, c.f
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo))
    c.arg('api_key', 'key%d' % rng.randint(0, 99), 'key')
    c.address('https://met.example/v9/')
    m = c.mapping()
    tmy = f.endswith('tmy')
    if not tmy:
        c.span(aware=True)
        for k in ('start', 'end'):
            if 'training' not in f and rng.random() < .2:
                rel = rng.choice(['now', '+3hours', '-2days', '+1day'])
                c.kw[k], c.a[k] = rel, stamp(OLD, rel=rel)
    ps = some(rng, METEO)[:4]
    back = {'ghi': 'global_horizontal_irradiance', 'dni': 'direct_normal_irradiance', 'temp_air': 'temperature', 'poa': 'global_tilted_irradiance'}
    w = rng.random()
    if w < .25:
        c.a['names'] = ['all']
    elif w < .45:
        p = rng.choice(ps + list(back))
        c.kw['parameters'], c.a['names'] = p, [p]
    else:
        c.a['names'] = [rng.choice([p] + [k for k, v in back.items() if v == p]) for p in ps]
        c.kw['parameters'] = list(c.a['names'])
    c.set(tilt='0', azimuth='180', horizon=['auto'])
    c.opt(.5, 'surface_tilt', rng.choice([30, 12.5]), 'tilt')
    c.opt(.5, 'surface_azimuth', rng.choice([90, 265.5]), 'azimuth')
    if rng.random() < .4:
        h = [rng.randint(0, 30) for _ in range(rng.choice([2, 5, 36]))]
        c.arg('horizon', rng.choice([h, tuple(h)]), 'horizon', [str(x) for x in h])
    if not f.endswith('basic'):
        c.a['step'] = '1h' if tmy else '15min'
        c.opt(.6, 'time_step', rng.choice(['1h', 'h', '15min', '1min', 'min', '1_hour', '15_minutes']), 'step')
    if tmy:
        c.set(situation='open', turbidity=['auto'], model='esra')
        c.opt(.5, 'terrain_situation', rng.choice(['open', 'urban']), 'situation')
        c.opt(.5, 'albedo', rng.choice([.2, .35]), 'albedo')
        c.opt(.3, 'random_seed', rng.randint(0, 99), 'seed')
        c.opt(.3, 'clear_sky_radiation_model', 'solis', 'model')
        c.opt(.3, 'future_scenario', 'ssp5_85', 'scenario')
        c.opt(.3, 'future_year', 2040, 'future')
        if rng.random() < .4:
            t = [round(rng.uniform(2, 6), 1) for _ in range(12)]
            c.arg('turbidity', t, 'turbidity', [str(x) for x in t])
    step = rng.choice([1, 15, 30, 60])
    iv = rng.random() < .4
    c.kw['interval_index'] = iv
    t0 = clocked(rng, day(rng)).replace(second=0)
    ts = [t0 + dt.timedelta(minutes=step * i) for i in range(rng.randint(1, 6))]
    ns = some(rng, METEO)[:6]
    dead = [rng.random() < .15 and len(ns) > 1 and j > 0 for j, _ in enumerate(ns)]
    cells = [['null' if dead[j] else (lambda v: 'null' if v is None else repr(v))(val(rng) if rng.random() > .1 else None) for j in range(len(ns))] for _ in ts]
    fm = lambda t: t.strftime('%Y-%m-%dT%H:%M:%SZ')
    body = {'values': {n: None if dead[j] else [json.loads(r[j]) for r in cells] for j, n in enumerate(ns)}, 'start_times': [fm(t) for t in ts], 'end_times': [fm(t + dt.timedelta(minutes=step)) for t in ts], 'meta': {'lat': la, 'lon': lo, 'altitude': 12}}
    c.serve = lambda i, n: c.js(body)
    want = [['latitude' if m else 'lat', 'same', [str(la)]], ['longitude' if m else 'lon', 'same', [str(lo)]], ['altitude', 'same', ['12']]]
    c.ret = lambda out: c.series(out[0], out[1], [rec(t) for t in ts], ns, cells, every=step, dead=dead, custom=want)


def solargis(c):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo))
    c.arg('api_key', 'demo%d' % rng.randint(0, 99), 'key')
    c.span()
    c.address('https://sol.example/request')
    c.wait()
    m = c.mapping()
    ns = some(rng, ['GHI', 'GHIc', 'DNI', 'DNIc', 'DIF', 'GTI', 'GTIc', 'SE', 'SA', 'TEMP', 'TD', 'AP', 'RH', 'WS', 'WD', 'INC', 'PWAT', 'KT', 'PREC', 'CI_FLAG'])[:7]
    c.arg('variables', list(ns), 'names', list(ns))
    c.arg('time_resolution', rng.choice([5, 10, 15, 30, 60, 'PT05M', 'PT15M', 'PT1H', 'P1D', 'P1M', 'HOURLY', 'hourly', 'DAILY']), 'step')
    c.set(label='center', tz='GMT+00', shading=True)
    c.opt(.6, 'timestamp_type', rng.choice(['start', 'center', 'end']), 'label')
    off = rng.choice([0, 0, -300, 330 + 30])
    if off:
        c.arg('tz', 'GMT%+03d' % (off // 60), 'tz')
    c.a['zone'] = off
    c.opt(.4, 'terrain_shading', False, 'shading', False)
    t0 = clocked(rng, day(rng)).replace(second=0)
    ts = [t0 + dt.timedelta(minutes=15 * i) for i in range(rng.randint(1, 5))]
    # GTIc is not among the columns documented as using -9
    cells = [[repr(val(rng, -9 if n != 'GTIc' else None)) for n in ns] for _ in ts]
    o = '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    rows = ''.join('<row dateTime="%s%s" values="%s"/>' % ((t + dt.timedelta(minutes=off)).strftime('%Y-%m-%dT%H:%M:%S.000'), o, ' '.join(r)) for t, r in zip(ts, cells))
    alt = str(rng.randint(0, 2000)) + '.0'
    text = ('<?xml version="1.0"?>\n<dataDeliveryResponse xmlns="http://geomodel.eu/schema/ws/data" xmlns:ns2="http://geomodel.eu/schema/data/request"><site id="demo" lat="%s" lng="%s"><metadata>#15 MINUTE VALUES OF SOLAR RADIATION\n#\n#Issued: 2023-03-15 10:00\n#\n'
            '#SITE INFORMATION\n#Site name: Here, there\n#Latitude: %s\n#Longitude: %s\n#Elevation: %s m a.s.l.\n#Summarization type: interpolate\n#Summarization period: 01/01/2022 - 01/01/2022\n#\n</metadata><columns>%s</columns>%s</site></dataDeliveryResponse>'
            % (la, lo, la, lo, alt, ' '.join(ns), rows))
    c.serve = lambda i, n: c.plain(text, 'application/xml')
    want = [['latitude', 'same', [str(la)]], ['longitude', 'same', [str(lo)]], ['altitude', 'same', [alt]], ['issued', 'same', ['2023-03-15 10:00']], ['site name', 'same', ['Here, there']]]
    c.ret = lambda out: c.series(out[0], out[1], [rec(t) for t in ts], ns, cells, custom=want)


def nasa(c):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo), fill='-999', community='re')
    c.span()
    c.address('https://power.example/hourly')
    c.mapping()
    P = ['ALLSKY_SFC_SW_DWN', 'ALLSKY_SFC_SW_DIFF', 'ALLSKY_SFC_SW_DNI', 'CLRSKY_SFC_SW_DWN', 'PS', 'RH2M', 'T2M', 'TQV', 'WS2M', 'WS10M', 'T2MDEW', 'ALLSKY_SRF_ALB', 'QV2M']
    pv = {'ghi': 0, 'dni': 0, 'temp_air': 0, 'pressure': 0, 'wind_speed': 0, 'precipitable_water': 0}
    if rng.random() < .2:
        p = rng.choice(P + list(pv))
        c.arg('parameters', p, 'names', [p])
    else:
        ps = some(rng, P + list(pv))[:5]
        c.arg('parameters', list(ps), 'names', list(ps))
    c.opt(.4, 'community', rng.choice(['ag', 'sb']), 'community')
    c.opt(.4, 'elevation', rng.choice([100, 0.5]), 'elevation')
    c.opt(.4, 'wind_height', rng.choice([10, 50]), 'windheight')
    c.opt(.4, 'wind_surface', rng.choice(['airportgrass', 'vegtype_1']), 'windsurface')
    t0 = day(rng).replace(hour=22)
    ts = [t0 + dt.timedelta(hours=i) for i in range(rng.randint(1, 5))]
    ns = some(rng, P)[:6]
    cells = [[repr(val(rng, -999.0)) for n in ns] for _ in ts]
    alt = str(rng.randint(0, 3000)) + '.5'
    body = {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': [lo, la, float(alt)]}, 'properties': {'parameter': {n: {t.strftime('%Y%m%d%H'): json.loads(r[j]) for t, r in zip(ts, cells)} for j, n in enumerate(ns)}},
            'header': {'title': 'NASA/POWER', 'fill_value': -999.0, 'time_standard': 'UTC'}, 'parameters': {n: {'units': 'x'} for n in ns}, 'times': {'data': 1.5}}
    c.serve = lambda i, n: c.js(body)
    want = [['latitude', 'same', [str(la)]], ['longitude', 'same', [str(lo)]], ['altitude', 'same', [alt]], ['title', 'same', ['NASA/POWER']]]
    c.ret = lambda out: c.series(out[0], out[1], [rec(t) for t in ts], ns, cells, custom=want)


def solcast(c):
    rng, f = c.rng, c.f
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo))
    c.arg('api_key', 'k%d' % rng.randint(0, 99), 'key')
    m = c.mapping()
    if f.endswith('historic'):
        c.arg('start', '2007-01-01T00:00Z', 'from')
        if rng.random() < .5:
            c.arg('duration', 'P1D', 'duration')
        else:
            c.arg('end', '2007-01-02T00:00:00Z', 'till')
    for k, v in (('period', rng.choice(['PT5M', 'PT60M'])), ('output_parameters', 'dni,ghi,air_temp'), ('hours', rng.choice([12, 48])), ('array_type', 'fixed')):
        if rng.random() < .4:
            c.kw[k] = v
            c.a['kw'].append([k, str(v)])
    step = rng.choice([5, 15, 30, 60])
    t0 = clocked(rng, day(rng)).replace(second=0)
    ts = [t0 + dt.timedelta(minutes=step * i) for i in range(rng.randint(1, 6))]
    ns = some(rng, ['air_temp', 'surface_pressure', 'dewpoint_temp', 'gti', 'wind_speed_10m', 'wind_direction_10m', 'azimuth', 'precipitable_water', 'zenith', 'clearsky_dhi', 'clearsky_ghi', 'ghi', 'dni', 'cloud_opacity'])[:7]
    cells = [[repr(rng.choice([-180, -90, 0, 45, 179, 180])) if n == 'azimuth' else 'null' if rng.random() < .08 else repr(val(rng)) for n in ns] for _ in ts]
    for j, n in enumerate(ns):      # a quantity without any value is not constrained
        if all(r[j] == 'null' for r in cells):
            cells[0][j] = '12.5'
    pe = [[t.strftime('%Y-%m-%dT%H:%M:%S.0000000Z'), 'PT%dM' % step] for t in ts]
    body = {rng.choice(['estimated_actuals', 'forecasts']): [dict([(n, json.loads(x)) for n, x in zip(ns, r)] + [('period_end', p[0]), ('period', p[1])]) for r, p in zip(cells, pe)]}
    c.serve = lambda i, n: c.js(body)
    want = [['latitude', 'same', [str(la)]], ['longitude', 'same', [str(lo)]]]
    n2, c2 = (ns, cells) if m else (ns + ['period_end', 'period'], [r + p for r, p in zip(cells, pe)])
    c.ret = lambda out: c.series(out[0], out[1], [rec(t) for t in ts], n2, c2, every=step, custom=want)


def psm4(c):
    rng, f = c.rng, c.f
    la, lo = place(rng, rng.choice([1, 3, 6]))
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=repr(la), lon=repr(lo), fullname='pvlib python', affiliation='pvlib python', step='60', leap='tmy' not in f)
    c.arg('api_key', 'abc%d' % rng.randint(0, 9), 'key')
    c.arg('email', 'some.body+x@example.com', 'email')
    if 'tmy' in f:
        c.a['year'] = 'tmy'
        c.opt(.6, 'year', rng.choice(['tmy', 'tmy-2022', 'tgy']), 'year')
    else:
        c.arg('year', rng.choice([2020, '2021']), 'year')
    c.opt(.6, 'time_step', rng.choice([5, 15, 30, 60]), 'step')
    ps = some(rng, ['ghi', 'dhi', 'dni', 'air_temperature', 'temp_air', 'temp_dew', 'solar_zenith', 'ghi_clear', 'dni_clear', 'dhi_clear', 'pressure', 'albedo', 'precipitable_water', 'wind_speed', 'surface_albedo', 'relative_humidity'])[:8]
    c.arg('parameters', rng.choice([list(ps), tuple(ps)]), 'names', list(ps))
    c.opt(.5, 'leap_day', rng.random() < .5, 'leap', 'x')
    if 'leap_day' in c.kw:
        c.a['leap'] = c.kw['leap_day']
    c.opt(.3, 'full_name', 'A. N. Other', 'fullname')
    c.opt(.3, 'affiliation', 'Uni & co', 'affiliation')
    if rng.random() < .4:
        c.kw['utc'] = True
        c.a['utc'] = True
    c.address('https://nsrdb.example/x.csv')
    c.wait()
    m = c.mapping()
    t0 = day(rng, 1999)
    F = wxfiles.make('psm4', dict(OPT), [frec(t0 + dt.timedelta(minutes=30 * i)) for i in range(rng.randint(1, 6))], rng, c.names)
    F.map = m
    remap(F, m, (('latitude', 'Latitude'), ('longitude', 'Longitude'), ('altitude', 'Elevation')))
    c.serve = lambda i, n: c.plain(F.text)
    c.ret = lambda out: c.file(F, out[0], out[1])


def remap(F, m, pairs):
    for x in F.meta:
        for a, b in pairs:
            if x[0] in (a, b):
                x[0] = a if m else b


def horizon_arg(c):
    rng = c.rng
    c.opt(.4, 'usehorizon', False, 'usehorizon', False)
    if rng.random() < .4:
        h = [rng.randint(0, 30) + rng.choice([0, 0, .5]) for _ in range(rng.choice([2, 8]))]
        c.arg('userhorizon', h, 'horizon', [str(x) for x in h])


def year_arg(c, k, y, ints):
    v = c.rng.choice([y] + ([np.int64(y), pd.Timestamp('%d-06-01' % y), '%d-03-04' % y, dt.date(y, 2, 3), pd.Timestamp('%d-12-31 23:30' % y, tz='Etc/GMT+7')] if not ints else []))
    c.arg(k if not ints else k + 'year', v, k + 'year', str(y))


def pvgis_hourly(c):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo), format='json', tilt='0', azimuth='180', tech='crystSi', place='free', tracking='0', loss='0')
    y = rng.randint(2005, 2019)
    if rng.random() < .7:
        year_arg(c, 'start', y, False)
    if rng.random() < .7:
        year_arg(c, 'end', y + 1, False)
    fm = rng.choice(['json', 'csv'])
    c.arg('outputformat', fm, 'format')
    c.opt(.6, 'surface_tilt', rng.choice([30, 22.5]), 'tilt')
    c.opt(.6, 'surface_azimuth', rng.choice([0, 90, 180, 270, 200.5]), 'azimuth')
    c.opt(.3, 'components', False, 'components', False)
    c.opt(.3, 'raddatabase', 'PVGIS-SARAH2', 'database')
    c.opt(.3, 'pvcalculation', True, 'pv', True)
    c.opt(.3, 'peakpower', rng.choice([2, 3.5]), 'peak')
    c.opt(.3, 'pvtechchoice', 'CdTe', 'tech')
    c.opt(.3, 'mountingplace', 'building', 'place')
    c.opt(.3, 'loss', rng.choice([5, 14.5]), 'loss')
    c.opt(.3, 'trackingtype', rng.choice([1, 2, 5]), 'tracking')
    c.opt(.3, 'optimal_surface_tilt', True, 'opttilt', True)
    c.opt(.3, 'optimalangles', True, 'optangles', True)
    horizon_arg(c)
    c.address('https://pvgis.example/api/v5_2/')
    c.wait()
    m = c.mapping()
    t0 = day(rng)
    rs = [frec(t0 + dt.timedelta(hours=i, minutes=10)) for i in range(rng.randint(1, 5))]
    while True:
        F = wxfiles.make('pvgis', dict(OPT), rs, rng, c.names)
        if F.suffix == '.' + fm:
            break
    F.map = m
    c.serve = lambda i, n: c.plain(F.text, 'text/plain')
    c.ret = lambda out: c.file(F, out[0], out[1])


# every way of moving a typical year, in turn
TURN = itertools.cycle([(y, r) for y in ('none', 'given', 'default') for r in ('zero', 'absent', 'west', 'east')])


def pvgis_tmy(c):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    fm = rng.choice(['json', 'json', 'epw', 'epw', 'csv'])
    c.set(lat=str(la), lon=str(lo), format='json', coerce='1990')
    if fm != 'json' or rng.random() < .5:
        c.arg('outputformat', fm, 'format')
    horizon_arg(c)
    if rng.random() < .5:
        year_arg(c, 'start', 2005, True)
    if rng.random() < .5:
        year_arg(c, 'end', 2016, True)
    c.address('https://pvgis.example/api/v5_2/')
    c.wait()
    m = c.mapping()
    year, roll = next(TURN)
    if year == 'none':
        c.kw['coerce_year'] = None
        c.a['coerce'] = ''
    elif year == 'given':
        c.arg('coerce_year', rng.choice([2001, 2015, 2020]), 'coerce')
    if roll != 'absent':
        c.arg('roll_utc_offset', {'zero': 0, 'west': rng.choice([-11, -7, -1]), 'east': rng.choice([1, 5, 12])}[roll], 'roll')
    days = 365 if fm == 'csv' else rng.choice([1, 3, 40])
    d0 = dt.datetime(2009, 1, 1) if fm == 'csv' else dt.datetime(2009, 2, 27)
    ts = [d0 + dt.timedelta(hours=i) for i in range(24 * days)]
    ys = {k: rng.choice([2005, 2008, 2012, 2013]) for k in range(1, 13)}
    while True:
        rs = [dict(frec(t), y=ys[t.month]) for t in ts]
        if fm == 'epw':
            rs = [dict(r, h=r['h'] + 1) for r in rs]
        F = wxfiles.make('pvgistmy' if fm != 'epw' else 'epw', dict(OPT, style=fm), rs, rng, c.names)
        if F.tz == 0:
            break
    N = len(ts)
    pos = sorted(set([0, 1, N - 1, N - 2] + [rng.randrange(N) for _ in range(30)]) | {i for i, t in enumerate(ts) if t.day == 1 and t.hour == 0})
    k = int(c.a['roll'] or 0)
    c.serve = lambda i, n: c.plain(F.text, 'text/plain')

    def ret(out):
        data = out[0]
        e = {'shape': 'tmy', 'total': N, 'rowcount': len(data), 'pos': pos, 'names': F.names, 'served': {str((i - k) % N): F.cells[(i - k) % N] for i in pos}, 'stamps': {str(i): dict(rec(ts[i]), y=ys[ts[i].month]) for i in pos}, 'lab': [], 'offs': [], 'vals': {}}
        if len(data) == N and isinstance(data.index, pd.DatetimeIndex):
            e['lab'], e['offs'] = clockof(data.index[pos])
            e['vals'] = {str(x): [cell(v) for v in data.iloc[pos, j]] for j, x in enumerate(data.columns)}
            e['numeric'] = {str(x): bool(pd.api.types.is_numeric_dtype(data.dtypes.iloc[j])) for j, x in enumerate(data.columns)}
        return e
    c.ret = ret


def pvgis_horizon(c):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo))
    c.address('https://pvgis.example/api/v5_2/')
    c.wait()
    n = rng.choice([4, 8, 48])
    cells = [[repr(-180 + 360. * i / n), repr(round(rng.uniform(0, 30), 1))] for i in range(n + 1)]
    body = {'inputs': {}, 'outputs': {'horizon_profile': [{'A': float(a), 'H_hor': float(h)} for a, h in cells], 'winter_solstice': [], 'summer_solstice': []}, 'meta': {'inputs': {'location': 'x'}}}
    c.serve = lambda i, k: c.js(body)
    c.ret = lambda out: {'shape': 'horizon', 'cells': cells, 'lab': nums(out[0].index), 'got': nums(out[0])}


def cams(c):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo), identifier='mcclear', timeref='UT', step='1h')
    c.span()
    c.arg('email', 'some.body@example.com', 'email')
    c.opt(.6, 'identifier', rng.choice(['mcclear', 'cams_radiation']), 'identifier')
    c.opt(.5, 'altitude', rng.choice([100, 80.5]), 'altitude')
    st = rng.choice(['1min', '15min', '1h', '1d', '1M'])
    c.arg('time_step', st, 'step')
    c.opt(.4, 'time_ref', rng.choice(['UT', 'TST']), 'timeref')
    c.opt(.4, 'verbose', True, 'verbose', True)
    c.address('api2.example')
    c.wait()
    m = c.mapping()
    step = {'1min': 1, '15min': 15, '1h': 60, '1d': 1440, '1M': 43200}[st]
    given = rng.choice(['none', 'left', 'right'])
    integ = rng.random() < .5
    if given != 'none':
        c.kw['label'] = given
    c.kw['integrated'] = integ
    t0 = day(rng)
    if step == 43200:
        ts = [dt.datetime(t0.year + (t0.month - 1 + i) // 12, (t0.month - 1 + i) % 12 + 1, 1) for i in range(rng.randint(1, 4))]
    else:
        ts = [t0 + dt.timedelta(minutes=step * i) for i in range(rng.randint(1, 5))]
    o = {'year': 0, 'label': ('right' if step == 43200 else 'left') if given == 'none' else given, 'given': given, 'style': 'integrated' if integ else '', 'step': step}
    F = wxfiles.make('cams', o, [frec(t) for t in ts], rng, c.names)
    F.map = m
    c.serve = lambda i, n: c.plain(F.text)
    c.ret = lambda out: c.file(F, out[0], out[1])


def midc(c):
    rng = c.rng
    c.arg('site', rng.choice(['UAT', 'BMS', 'NWTC']), 'station')
    c.span()
    c.wait()
    t0 = clocked(rng, day(rng)).replace(second=0)
    F = wxfiles.make('midcraw', dict(OPT, step=1), [frec(t0 + dt.timedelta(minutes=i)) for i in range(rng.randint(1, 6))], rng, {})
    c.kw['variable_map'] = dict(F.vmap)
    text = F.text
    if rng.random() < .4:     # rows longer than the header
        L = text.split('\n')
        text = '\n'.join([L[0]] + [x + ',' + '0' if x else x for x in L[1:]])
    c.serve = lambda i, n: c.plain(text)
    c.ret = lambda out: c.file(F, out, {})


MERRA = ['SWGDN', 'SWGDNCLR', 'ALBEDO', 'LWGNT', 'LWGAB', 'T2M', 'PS', 'TOTEXTTAU', 'TQV', 'U10M']


def merra2(c, n):
    rng = c.rng
    la, lo = place(rng, rng.choice([1, 3, 7]))
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=repr(la), lon=repr(lo), token='tok%d' % rng.randint(0, 99))
    c.span(aware=True)
    c.arg('username', 'me', 'user')
    c.arg('password', 'pa:ss', 'password')
    ds = ['M2T1NXRAD.5.12.4', 'M2T1NXSLV.5.12.4', 'M2T1NXAER.5.12.4']
    ns = rng.sample(MERRA, n)
    c.arg('variables', list(ns), 'names', list(ns))
    if rng.random() < .5:
        d = rng.choice(ds)
        c.arg('dataset', d, 'datasets', [d])
    else:
        d = [rng.choice(ds) for _ in ns]
        c.arg('dataset', list(d), 'datasets', list(d))
    m = c.mapping()
    c.a['fill'] = '999999986991104.0'
    t0 = day(rng).replace(hour=22, minute=30)
    ts = [t0 + dt.timedelta(hours=i) for i in range(rng.randint(1, 5))]
    cells = [[rng.choice(['999999986991104', '9.99999986991104e+14']) if rng.random() < .15 else repr(val(rng)) for _ in ns] for _ in ts]

    def serve(i, k):
        if i == 0:
            return c.js({'access_token': c.a['token'], 'token_type': 'Bearer', 'expiration_date': '1/1/2040'})
        j = min(i, n) - 1
        return c.plain('prod_and_param_name,%s\nparam_short_name,%s\nunit,W m-2, really\nundef,9.99999986991104e+14\nlat,%s\nlon,%s\n\nTimestamp (UTC),Data\n' % (ns[j], ns[j], la, lo) +
                       ''.join('%s,%s\n' % (t.strftime('%Y-%m-%d %H:%M:%S'), r[j]) for t, r in zip(ts, cells)))
    c.serve = serve
    want = [['latitude', 'same', [str(la)]], ['longitude', 'same', [str(lo)]]] + [[x + '.param_short_name', 'same', [x]] for x in ns] + [[x + '.unit', 'same', ['W m-2, really']] for x in ns]
    c.ret = lambda out: c.series(out[0], out[1], [rec(t) for t in ts], ns, cells, custom=want)


def monthly(c, n):
    """n months: start and end anywhere in them."""
    rng = c.rng
    y, m = rng.randint(2001, 2021), rng.choice([1, 2, 11, 12, rng.randint(1, 12)])
    ms = [(y + (m - 1 + i) // 12, (m - 1 + i) % 12 + 1) for i in range(n)]
    a = dt.datetime(*ms[0], rng.choice([1, 1, 15, 28]))
    b = dt.datetime(*ms[-1], rng.choice([1, 28, 20]))
    if b < a:
        b = a
    for k, t in (('start', a), ('end', b)):
        c.kw[k], c.a[k] = when(rng, t, False, False)
    return ms


def files(c, n):
    rng, f = c.rng, c.f
    F = []
    if f == 'get_srml':
        c.arg('station', rng.choice(['EU', 'BO']), 'station')
        c.a['filetype'] = 'PO'
        c.opt(.6, 'filetype', rng.choice(['RO', 'PF', 'PO']), 'filetype')
        m = c.mapping()
        ms = monthly(c, n)
        els = rng.sample(['1000', '1001', '2010', '3003', '9202', '9311', '7008', '1212'], rng.randint(1, 4))
        step = rng.choice([1, 5, 15, 60])
        for y, mo in ms:
            t0 = dt.datetime(y, mo, rng.randint(1, 28)) + dt.timedelta(minutes=step)
            F.append(wxfiles.make('srml', dict(OPT, step=step, els=els), [frec(t0 + dt.timedelta(minutes=step * i)) for i in range(rng.randint(2, 5))], rng, {}))
            F[-1].map = m
        names = ['%s%s%s.txt' % (c.kw['station'], c.a['filetype'], '%02d%02d' % (y % 100, mo)) for y, mo in ms]
        c.address('http://uo.example/arc/')
    else:
        st = rng.choice(['Alamosa', 'BND', 'tbl']) if f == 'get_surfrad' else rng.choice(['MSN', 'abq', 'Slc'])
        c.arg('station', st, 'station')
        d0 = day(rng)
        ds = [d0 + dt.timedelta(days=i) for i in range(n)]
        a, b = clocked(rng, ds[0]), clocked(rng, ds[-1])
        if n == 1:
            a, b = min(a, b), max(a, b)
        for k, t in (('start', a), ('end', b)):
            c.kw[k], c.a[k] = when(rng, t, False, True)
        m = c.mapping() if f == 'get_surfrad' else True
        fm = 'surfrad' if f == 'get_surfrad' else 'msn' if st.lower() == 'msn' else 'solrad'
        for d in ds:
            t0 = d + dt.timedelta(minutes=rng.choice([0, 600, 1430]))
            F.append(wxfiles.make(fm, dict(OPT, step=1), [frec(t0 + dt.timedelta(minutes=i)) for i in range(rng.randint(1, 4))], rng, c.names))
            F[-1].map = m
        names = ['%s/%d/%s%s%03d.dat' % (st.lower(), d.year, st.lower(), d.strftime('%y'), d.timetuple().tm_yday) for d in ds]
        c.address('https://noaa.example/x/')
    c.serve = lambda i, k: c.plain(F[min(i, n - 1)].text, 'text/plain')

    def ret(out):
        got = [F[i] for i in c.found]
        return c.file(got, out[0], out[1], [['station', 'same', [c.kw['station'] if f == 'get_srml' else c.kw['station'].lower()]], ['filenames', 'same', [' '.join(names)]]] + ([['filetype', 'same', [c.a['filetype']]]] if f == 'get_srml' else []))
    c.ret = ret


def bsrn(c, n):
    rng = c.rng
    st = rng.choice(['tam', 'TAM', 'Ber'])
    c.arg('station', st, 'station')
    c.arg('username', 'bsrnftp', 'user')
    c.arg('password', 'se cret', 'password')
    ms = monthly(c, n)
    also = rng.random() < .4
    fm = rng.choice(['bsrn', 'bsrn3', 'bsrn5'])
    if also:
        fm = 'bsrn'
    F = []
    for y, mo in ms:
        t0 = dt.datetime(y, mo, rng.randint(1, 28), rng.choice([0, 12]))
        F.append(wxfiles.make(fm, dict(OPT, step=1, also=also), [frec(t0 + dt.timedelta(minutes=i)) for i in range(rng.randint(1, 4))], rng, c.names))
    if not (fm == 'bsrn' and not also and rng.random() < .5):
        c.kw['logical_records'] = F[0].kw['logical_records']
    fn = ['%s%02d%02d.dat.gz' % (st.lower(), mo, y % 100) for y, mo in ms]
    blobs = [gzip.compress(x.text.encode('latin1')) for x in F]
    if rng.random() < .4:
        c.tmp = tempfile.mkdtemp(prefix='c27')
        c.kw['save_path'] = c.tmp
    c.serve = lambda i, k: blobs[min(i - 2, n - 1)] if i >= 2 else b''
    sha = lambda b: hashlib.sha1(b).hexdigest() + '-x'

    def ret(out):
        got = [F[i] for i in c.found]
        if not got:
            return {'shape': 'empty', 'lab': nums(range(len(out[0])))}
        e = c.file(got, out[0], out[1])
        if c.tmp:
            have = {x: open(os.path.join(c.tmp, x), 'rb').read() for x in sorted(os.listdir(c.tmp))}
            e['meta'] += metas({'saved': ' '.join(sorted(have))}, [['saved', 'same', [' '.join(sorted(fn[i] for i in c.found))]]])
            e['meta'] += [{'key': 'saved ' + fn[i], 'kind': 'same', 'v': [sha(blobs[i])], 'got': sha(have.get(fn[i], b''))} for i in c.found]
        return e
    c.ret = ret


ERA = ['d2m', 't2m', 'sp', 'ssrd', 'fdir', 'tp', 'strd', 'u10', 'sst']


def era5(c, n):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo), job='job-%d' % rng.randint(0, 999), every='1', wait='60', timeout='60')
    c.set(href='https://object-store.example/res/%d.zip' % rng.randint(0, 99))
    c.span(aware=True)
    c.arg('api_key', 'pat-%d' % rng.randint(0, 9), 'key')
    ps = some(rng, ['ghi', 'bhi', 'temp_air', 'temp_dew', 'pressure', 'precipitation', 'longwave_down', '2m_temperature', '10m_u_component_of_wind', 'surface_pressure', 'surface_solar_radiation_downwards'])[:5]
    c.arg('variables', list(ps), 'names', list(ps))
    c.mapping()
    c.address('https://cds.example/api/v1/')
    if rng.random() < .7:
        w = rng.choice([2, 4, 10, 30])
        c.kw['timeout'] = w
        c.set(wait=str(w), timeout=str(w))
    t0 = day(rng).replace(hour=22)
    ts = [t0 + dt.timedelta(hours=i) for i in range(rng.randint(1, 5))]
    ns = some(rng, ERA)[:6]
    cells = [[repr(val(rng)) for _ in ns] for _ in ts]
    csv = ','.join(['valid_time'] + ns + ['latitude', 'longitude']) + '\n' + ''.join(','.join([t.strftime('%Y-%m-%d %H:%M:%S')] + r + [str(la), str(lo)]) + '\n' for t, r in zip(ts, cells))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr('reanalysis.csv', csv)

    def serve(i, k):
        if i == 0:
            return c.js({'jobID': c.a['job'], 'status': 'accepted', 'metadata': {'messages': 'hello'}})
        if k == 1:
            return c.js({'status': 'successful', 'jobID': c.a['job']})
        if k == 2:
            return c.js({'asset': {'value': {'href': c.a['href']}}})
        return c.plain(buf.getvalue(), 'application/zip')
    c.serve = serve
    want = [['latitude', 'same', [str(la)]], ['longitude', 'same', [str(lo)]], ['jobID', 'same', [c.a['job']]], ['messages', 'same', ['hello']]]
    c.ret = lambda out: c.series(out[0], out[1], [rec(t) for t in ts], ns, cells, custom=want)


def sany(c, n):
    rng = c.rng
    la, lo = place(rng)
    c.kw.update(latitude=la, longitude=lo)
    c.set(lat=str(la), lon=str(lo), job='req%d' % rng.randint(0, 999), every='5', wait='300', source='SolarAnywhereLatest', step='60', spatial='0.01', missing='FillAverage')
    c.arg('api_key', 'sa%d' % rng.randint(0, 9), 'key')
    if rng.random() < .7:
        c.span(aware=True)
    ns = some(rng, ['GlobalHorizontalIrradiance_WattsPerMeterSquared', 'DirectNormalIrradiance_WattsPerMeterSquared', 'AmbientTemperature_DegreesC', 'WindSpeed_MetersPerSecond', 'ClearSkyGHI_WattsPerMeterSquared', 'Albedo_Unitless', 'SnowDepth_Meters'])
    c.arg('variables', list(ns), 'names', list(ns))
    c.opt(.5, 'source', 'SolarAnywhereTGYLatest', 'source')
    c.opt(.5, 'time_resolution', rng.choice([5, 30]), 'step')
    c.opt(.5, 'spatial_resolution', rng.choice([.005, .1]), 'spatial')
    c.opt(.3, 'true_dynamics', True, 'dynamics', True)
    c.opt(.3, 'probability_of_exceedance', rng.choice([50, 99]), 'poe')
    c.opt(.3, 'missing_data', 'Omit', 'missing')
    m = c.mapping()
    c.address('https://sa.example/api/v3')
    if rng.random() < .7:
        w = rng.choice([5, 10, 20, 60])
        c.kw['timeout'] = w
        c.set(wait=str(w))
    off = rng.choice([-300, -420, 0, 330])
    c.a['zone'] = off
    o = '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    t0 = clocked(rng, day(rng)).replace(second=0)
    ts = [t0 + dt.timedelta(minutes=30 * i) for i in range(rng.randint(1, 5))]
    stamps = [(t + dt.timedelta(minutes=off)).strftime('%Y-%m-%dT%H:%M:%S') + o for t in ts]
    cells = [[s] + [repr(val(rng)) for _ in ns] for s in stamps]
    n2 = ['ObservationTime'] + ns
    alt = str(rng.randint(0, 2000))
    body = {'Status': 'Done', 'WeatherDataResults': [{'Status': 'Success', 'WeatherDataPeriods': {'TimeResolution_Minutes': 30, 'WeatherDataPeriods': [dict([('ObservationTime', r[0])] + [(k, json.loads(x)) for k, x in zip(ns, r[1:])]) for r in cells]},
                                                      'WeatherSourceInformation': {'Latitude': str(la), 'Longitude': str(lo), 'Elevation_Meters': alt, 'DataVersion': '3.6'}}]}
    c.serve = lambda i, k: c.js({'WeatherRequestId': c.a['job']}) if i == 0 else c.js(body)
    want = [['latitude', 'same', [str(la)]], ['longitude', 'same', [str(lo)]], ['altitude', 'same', [alt]], ['time_resolution', 'same', ['30']], ['spatial_resolution', 'same', [c.a['spatial']]], ['DataVersion', 'same', ['3.6']]]
    c.ret = lambda out: c.series(out[0], out[1], [rec(t) for t in ts], n2, cells, custom=want)


def build(f, rng, names, n):
    c = Case(f, rng, names)
    if 'acis' in f:
        acis(c)
    elif 'meteonorm' in f:
        meteonorm(c)
    elif 'solcast' in f:
        solcast(c)
    elif 'psm4' in f:
        psm4(c)
    else:
        g = {'get_solargis': solargis, 'get_nasa_power': nasa, 'get_pvgis_hourly': pvgis_hourly, 'get_pvgis_tmy': pvgis_tmy, 'get_pvgis_horizon': pvgis_horizon, 'get_cams': cams, 'read_midc_raw_data_from_nrel': midc}
        h = {'get_merra2': merra2, 'get_surfrad': files, 'get_solrad': files, 'get_srml': files, 'get_bsrn': bsrn, 'get_era5': era5, 'get_solaranywhere': sany}
        g[f](c) if f in g else h[f](c, n)
    return c


def spoil(c):
    """an argument documented as refused."""
    rng = c.rng
    if c.f == 'get_cams':
        if rng.random() < .5:
            c.kw['time_step'] = rng.choice(['2h', '1H', ''])
        else:
            c.kw['identifier'] = rng.choice(['mclear', ''])
    elif c.f == 'get_solaranywhere':
        c.kw['probability_of_exceedance'] = rng.choice([.5, '50'])
    else:
        c.kw['outputformat'] = 'basic'
        c.a['format'] = 'basic'
    c.a['bad'] = 'ValueError'
    return c


def exchange(c, script, kind):
    net = webstub.Net(script, c.answer)
    keep = copy.deepcopy(c.kw)
    pub = {k: v for k, v in c.kw.items()}
    ret = {'op': 'ret', 'ok': True, 'err': [], 'text': '', 'warned': [], 'argsame': True, 'shape': 'none', 'lab': []}
    out = None
    f = getattr(iotools, c.f)
    try:
        with webstub.network(net), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                out = f(**c.kw)
            except (Exception, webstub.Runaway) as x:
                ret.update(ok=False, err=[k.__name__ for k in type(x).__mro__], text=str(x))
            ret['warned'] = [str(x.message) for x in w]
        ret['argsame'] = repr(keep) == repr(c.kw)
        if ret['ok']:
            skip = 2 if kind == 'ftp' else 0
            served = [e['r'] for e in net.events if e['op'] == 'resp'][skip:]
            c.found = [i for i, r in enumerate(served) if r == 'ok']
            try:
                ret.update(c.ret(out))
            except Exception as x:
                ret.update(shape='broken', text='%s: %s' % (type(x).__name__, x))
    finally:
        if c.tmp:
            shutil.rmtree(c.tmp, ignore_errors=True)
    return {'meta': {'function': c.f, 'script': list(script), 'kwargs': {k: repr(v) for k, v in pub.items()}}, 'ev': [{'op': 'call', 'f': c.f, 'a': c.a}] + net.events + [ret]}


def run(c):
    rng = c.rng
    names = {r['f']: r['names'] for r in c.model('ReadersMC', NAMES) if 'names' in r}
    scripts = {}
    for r in c.model('WebMC', CFG % (c.pick(3, 4), c.pick(2, 3))):
        scripts.setdefault(r['k'], {})[(r['n'], tuple(r['script']))] = r['out']
    tr = []
    for kind, fs in KINDS.items():
        S = sorted(scripts[kind])
        for f in fs:
            if not hasattr(iotools, f):
                continue
            if kind == 'single':
                jobs = [(1, ('ok',))] * c.pick(14, 90) + [s for s in S for _ in range(c.pick(2, 8)) if s[1] != ('ok',)]
                if f == 'get_pvgis_tmy':
                    jobs = jobs[-c.pick(16, 60):] + [(1, ('ok',))] * 24 if c.thorough else [(1, ('ok',))] * 12 + [s for s in S if s[1] != ('ok',)]
            else:
                good = [s for s in S if scripts[kind][s] in ('data', 'empty')]
                poor = [s for s in S if s not in good]
                q = c.pick(90, 700)
                jobs = [rng.choice(good) for _ in range(q)] + (rng.sample(poor, min(len(poor), q // 2)))
            for n, s in jobs:
                tr.append(exchange(build(f, random.Random(rng.getrandbits(64)), names, n), s, kind))
    for f in ('get_cams', 'get_solaranywhere', 'get_pvgis_hourly', 'get_pvgis_tmy'):
        for _ in range(c.pick(3, 10)):
            tr.append(exchange(spoil(build(f, random.Random(rng.getrandbits(64)), names, 1)), ('ok',), ''))
    c.cov['exchanges'] = len(tr)
    c.validate('Web', tr, chunk=2000)


main(run)
