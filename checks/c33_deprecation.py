"""C33: deprecation wrappers against Deprecation.tla."""
import io
import json
import random
import types
import warnings
import numpy as np
import pandas as pd
from vh import *
import pvlib
from pvlib import _deprecation as dep

CFG = '''INIT Init
NEXT Next
INVARIANTS NewSilent OldSpeaks BothRefused SameAsNew Strict Emit
'''
VAL = {'None': None, '0': 0}


class Log:
    def __init__(self):
        self.calls = []


def target(sig, log, kind):
    """A function, method holder or class with the described signature."""
    ps = []
    for i, n in enumerate(sig['names']):
        ps.append(n if i < sig['req'] else n + "='default'")
    if sig['varkw']:
        ps.append('**kws')
    names = ', '.join(sig['names'])
    kws = 'kws' if sig['varkw'] else '{}'
    first = {'method': 'self, ', 'class': 'self, ', 'classmethod': 'cls, '}.get(kind, '')
    fname = '__init__' if kind == 'class' else 'target'
    doc = '"""the doc"""' if kind != 'class' else ''
    body = 'log.calls.append(([%s], dict(%s)))\n    ' % (names, kws)
    body += 'pass' if kind == 'class' else "return 'ret%d' % len(log.calls)"
    src = 'def %s(%s%s):\n    %s\n    %s\n' % (fname, first, ', '.join(ps), doc, body)
    ns = {'log': log}
    exec(src, ns)
    f = ns[fname]
    if kind == 'class':
        return type('target', (), {'__init__': f, '__doc__': 'the doc'})
    return f


def layer(l, rng):
    if l['kind'] == 'renamed':
        a = (l['since'], l['old'], l['new'])
        return dep.renamed_kwarg_warning(*a, l['removal']) if l['removal'] or rng.random() < .5 else \
            dep.renamed_kwarg_warning(since=a[0], old_param_name=a[1], new_param_name=a[2])
    kw = dict(message=l['message'], name=l['name'], alternative=l['alternative'], pending=l['pending'], addendum=l['addendum'],
              removal=None if l['removal'] == 'None' else l['removal'])
    for k in [k for k, v in kw.items() if v == '' and rng.random() < .5]:
        del kw[k]
    return dep.deprecated(l['since'], **kw)


def val(v):
    return VAL.get(v, v)


def txt(v):
    return 'None' if v is None else str(v)


def rec(d):
    return {k: txt(v) for k, v in d.items()} or {'none': 'none'}


def sequence(w, calls, rng):
    log = Log()
    kind = w['where']
    e = {'kind': 'seq', 'layers': w['layers'], 'sig': w['sig'], 'strict': w['strict'], 'where': kind, 'decorexc': '', 'calls': [],
         'name': 'target', 'doc': '', 'identity': True}
    t = target(w['sig'], log, kind)
    raw = t
    if kind == 'classmethod':
        t = classmethod(t)
    try:
        for l in reversed(w['layers']):
            t = layer(l, rng)(t)
    except Exception as x:
        e['decorexc'] = type(x).__name__
        return e
    if kind == 'method':
        call = type('H', (), {'target': t})().target
    elif kind == 'static':
        call = type('H', (), {'target': staticmethod(t)}).target
    elif kind == 'classmethod':
        H = type('H', (), {'target': t})
        call = H.target
    else:
        call = t
    e['name'] = call.__name__
    e['doc'] = call.__doc__ or ''
    if kind == 'class':
        e['identity'] = bool(t is raw)
    for x in calls:
        kw = {} if x['kw'] == {'none': 'none'} else {k: val(v) for k, v in x['kw'].items()}
        keep = dict(kw)
        pos = [val(v) for v in x['pos']]
        n0 = len(log.calls)
        o = {'pos': x['pos'], 'kw': x['kw'], 'warns': [], 'exc': '', 'got': [], 'extra': {'none': 'none'}, 'ncalls': 0, 'returned': True}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('error' if w['strict'] else 'always')
            try:
                r = call(*pos, **kw)
            except (Exception, Warning) as ex:
                o['exc'] = type(ex).__name__
        o['warns'] = [{'cat': type(z.message).__name__, 'msg': str(z.message), 'here': z.filename == __file__} for z in ws]
        o['ncalls'] = len(log.calls) - n0
        if not o['exc']:
            got, extra = log.calls[-1]
            o['got'], o['extra'] = [txt(v) for v in got], rec(extra)
            o['returned'] = bool(isinstance(r, raw) if kind == 'class' else r == 'ret%d' % len(log.calls))
        o['returned'] = bool(o['returned'] and kw == keep)
        e['calls'].append(o)
    return e


def flat(r):
    """Comparable description of a return value."""
    if isinstance(r, (pd.DataFrame, dict)):
        return {str(k): nums(r[k]) if np.asarray(r[k]).dtype.kind in 'fiub' else [str(x) for x in np.atleast_1d(np.asarray(r[k], dtype=object))]
                for k in r} | ({'index': [str(x) for x in r.index]} if isinstance(r, pd.DataFrame) else {})
    if isinstance(r, tuple):
        return {'%d.%s' % (i, k): v for i, x in enumerate(r) for k, v in flat(x).items()}
    if isinstance(r, pd.Series):
        return {'y': nums(r), 'index': [str(x) for x in r.index]}
    if isinstance(r, (str, type(None))) or not np.ndim(r) and not isinstance(r, (int, float, np.number)):
        return {'y': [str(r)]}
    return {'y': nums(r)}


def obs(f):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        st, r = outcome(f, keep_warnings=True) if False else _run(f)
    n = sum(issubclass(w.category, (dep.pvlibDeprecationWarning, PendingDeprecationWarning)) for w in ws)
    return {'exc': '' if st == 'ok' else r, 'nwarn': n, 'out': flat(r) if st == 'ok' else {'none': []}}


def _run(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'err', type(e).__name__


def real(rng):
    from pvlib import tracking, irradiance, bifacial, iotools, iam, modelchain, location, albedo
    from pvlib.bifacial import utils, infinite_sheds
    z = np.array([rng.uniform(5, 95) for _ in range(9)])
    a = np.array([rng.uniform(60, 300) for _ in range(9)])
    idx = pd.date_range('2020-06-01 10:00', periods=9, freq='1h', tz='UTC')
    sz, sa = pd.Series(z, idx), pd.Series(a, idx)
    kw = dict(axis_tilt=rng.choice([0, 12]), axis_azimuth=rng.uniform(150, 210), max_angle=60., backtrack=rng.random() < .5, gcr=.4)
    out = []

    def pair(name, old, new, both=None, bothexc='ValueError', many=False, mayfail=False):
        o, n, ag = obs(old), obs(new), obs(old)
        out.append({'kind': 'pair', 'name': name, 'old': o, 'new': n, 'again': {'nwarn': ag['nwarn']}, 'many': many, 'mayfail': mayfail,
                    'both': obs(both)['exc'] or 'accepted' if both else '', 'bothexc': bothexc})

    def quiet(name, f):
        o = obs(f)
        out.append({'kind': 'quiet', 'name': name, 'nwarn': o['nwarn'], 'exc': o['exc']})
    pair('singleaxis', lambda: tracking.singleaxis(sz, apparent_azimuth=sa, **kw), lambda: tracking.singleaxis(sz, solar_azimuth=sa, **kw),
         lambda: tracking.singleaxis(sz, apparent_azimuth=sa, solar_azimuth=sa))
    pair('singleaxis-arrays', lambda: tracking.singleaxis(apparent_azimuth=a, apparent_zenith=z, **kw), lambda: tracking.singleaxis(z, a, **kw),
         lambda: tracking.singleaxis(z, a, apparent_azimuth=a), 'TypeError')
    quiet('singleaxis', lambda: tracking.singleaxis(sz, sa, **kw))
    rot = np.array([rng.uniform(-60, 60) for _ in range(4)])
    pair('vf_ground_sky_2d_integ', lambda: utils.vf_ground_sky_2d_integ(surface_tilt=rot, gcr=.4, height=1, pitch=4, max_rows=5),
         lambda: utils.vf_ground_sky_2d_integ(rot, .4, 1, 4, max_rows=5),
         lambda: utils.vf_ground_sky_2d_integ(surface_tilt=rot, tracker_rotation=rot, gcr=.4, height=1, pitch=4))
    for k, v in (('npoints', 100), ('vectorize', True), ('vectorize', False)):
        pair('vf_ground_sky_2d_integ-' + k, lambda: utils.vf_ground_sky_2d_integ(rot, .4, 1, 4, **{k: v}),
             lambda: utils.vf_ground_sky_2d_integ(rot, .4, 1, 4))
    g = dict(surface_tilt=20., surface_azimuth=180., solar_zenith=sz.clip(upper=80), solar_azimuth=sa, gcr=.4, height=1., pitch=4.,
             ghi=sz * 0 + 500., dhi=sz * 0 + 100., dni=sz * 0 + 600., albedo=.2)
    pair('infinite_sheds', lambda: infinite_sheds.get_irradiance(**g, npoints=50), lambda: infinite_sheds.get_irradiance(**g), many=True)
    quiet('infinite_sheds', lambda: infinite_sheds.get_irradiance(**g))
    kg = (rng.uniform(0, 90), np.abs(a), np.abs(a) + 100, z)
    pair('king', lambda: irradiance.king(*kg), lambda: irradiance.king.__wrapped__(*kg))
    kk = dict(surface_tilt=20., surface_azimuth=180., solar_zenith=z, solar_azimuth=a, dni=a, ghi=a, dhi=a)
    pair('king-keywords', lambda: irradiance.king(surface_tilt=5, dhi=a, ghi=a, solar_zenith=z), lambda: irradiance.king.__wrapped__(5, a, a, z))
    for m in ('isotropic', 'klucher', 'haydavies', 'reindl', 'perez', 'perez-driesse'):
        quiet('get_sky_diffuse-' + m, lambda: irradiance.get_sky_diffuse(model=m, dni_extra=1400., airmass=2., **kk))
    gp = (30., 180., np.clip(z, 5, 75), a, a + 100., 1360.)
    pair('ghi_from_poa', lambda: irradiance.ghi_from_poa_driesse_2023(*gp), lambda: irradiance.ghi_from_poa_driesse_2024(*gp))
    pair('ghi_from_poa-full', lambda: irradiance.ghi_from_poa_driesse_2023(*gp, full_output=True),
         lambda: irradiance.ghi_from_poa_driesse_2024(*gp, full_output=True))
    pair('get_orientation', lambda: modelchain.get_orientation('south_at_latitude_tilt', latitude=33.), lambda: (33., 180))
    pair('get_orientation-flat', lambda: modelchain.get_orientation('flat'), lambda: (0, 180))
    pair('get_orientation-bad', lambda: modelchain.get_orientation('no'), lambda: modelchain.get_orientation.__wrapped__('no'), mayfail=True)
    pair('SURFACE_ALBEDOS', lambda: irradiance.SURFACE_ALBEDOS, lambda: albedo.SURFACE_ALBEDOS)
    loc = location.Location(10, 20, rng.choice(['Etc/GMT+3', 'Europe/Berlin', 'UTC']))
    pair('pytz', lambda: str(loc.pytz), lambda: loc.tz)
    th, ia = [0., 20., 40., 60., 80., 90.], [1., 1., .99, .95, .7, 0.]
    for m in ('nearest', 'previous', 'zero', 'slinear', 'next', 'nearest-up'):
        import scipy.interpolate as si
        want = lambda: np.maximum(si.interp1d(th, ia, kind=m, fill_value='extrapolate')(np.clip(z, 0, 90)), 0)
        pair('iam.interp-' + m, lambda: iam.interp(np.clip(z, 0, 90), th, ia, method=m), want)
    for m in ('linear', 'quadratic', 'cubic'):
        quiet('iam.interp-' + m, lambda: iam.interp(z, th, ia, method=m))
    quiet('iam.interp', lambda: iam.interp(z, th, ia))
    pair('pvfactors', lambda: bifacial.pvfactors_timeseries(sa, sz, 180, 20, 180, idx, 100, 100, 3, 4, .4, 1, 2, .2),
         lambda: bifacial.pvfactors.pvfactors_timeseries(sa, sz, 180, 20, 180, idx, 100, 100, 3, 4, .4, 1, 2, .2), mayfail=True)
    for nm in ('cams', 'bsrn', 'epw'):
        o, n = getattr(getattr(iotools, {'cams': 'sodapro'}.get(nm, nm)), 'parse_' + nm), getattr(iotools, 'read_' + nm)
        if nm == 'epw':
            text = EPW
        elif nm == 'cams':
            text = CAMS
        else:
            text = BSRN
        pair('parse_' + nm, lambda: o(io.StringIO(text)), lambda: n(io.StringIO(text)))
        pair('parse_%s-bad' % nm, lambda: o(io.StringIO('')), lambda: n(io.StringIO('')), mayfail=True)
    # requests of the web readers, with the HTTP library replaced by a recorder
    from pvlib.iotools import sodapro, meteonorm
    log = []

    class Resp:
        ok, status_code, text, headers, reason = True, 200, CAMS, {'Content-Type': 'application/csv'}, 'OK'

        content = CAMS.encode()

        def json(self):
            return {'meta': {}, 'values': {}}

        def raise_for_status(self):
            pass

    def fake(url, params=None, timeout=None, **k):
        log.append((url, str(params), timeout))
        return Resp()
    old = sodapro.requests
    try:
        sodapro.requests = types.SimpleNamespace(get=fake, exceptions=old.exceptions, HTTPError=old.HTTPError)

        def cams(**k):
            log.clear()
            d = iotools.get_cams(10, 20, pd.Timestamp('2020-06-01'), pd.Timestamp('2020-06-02'), 'a@b.c', 'mcclear', **k)
            return (str(log),) + d[:1]
        pair('get_cams', lambda: cams(server='example.org'), lambda: cams(url='example.org'), lambda: cams(server='a', url='b'))
        quiet('get_cams', lambda: cams())
    finally:
        sodapro.requests = old
    old = meteonorm.requests
    try:
        meteonorm.requests = types.SimpleNamespace(get=lambda url, headers=None, params=None, **k: log.append((url, str(params))) or Resp(), exceptions=old.exceptions)

        def mn(**k):
            log.clear()
            try:
                iotools.get_meteonorm_tmy(10, 20, 'key', **k)
            except Exception as e:
                return str(log) + type(e).__name__
            return str(log)
        pair('get_meteonorm_tmy', lambda: mn(data_version='v9'), lambda: mn())
    finally:
        meteonorm.requests = old
    # a whole model run in current spelling
    from pvlib import pvsystem
    sysm = pvsystem.PVSystem(arrays=[pvsystem.Array(pvsystem.SingleAxisTrackerMount(), module_parameters=dict(pdc0=100., gamma_pdc=-.003),
                             temperature_model_parameters=pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS['sapm']['open_rack_glass_glass'])],
                             inverter_parameters=dict(pdc0=100.))
    w = pd.DataFrame({'ghi': 500., 'dni': 600., 'dhi': 100.}, index=idx)

    def chain():
        mc = modelchain.ModelChain(sysm, loc, aoi_model='physical', spectral_model='no_loss')
        mc.run_model(w)
        return mc.results.ac
    quiet('ModelChain', chain)
    quiet('loss-factors', lambda: pvlib.soiling.hsu(pd.Series(0., idx), 1., 20., 3., 4.))
    return out


EPW = '\n'.join(
    ['LOCATION,Testville,ST,USA,TMY3,123456,10.5,20.25,2.0,100.0'] + ['DESIGN CONDITIONS,0'] + ['X,%d' % i for i in range(6)] +
    ['2001,1,1,%d,60,A7A7,%s' % (h, ','.join(str(round(.5 * h + j, 1)) for j in range(29))) for h in range(1, 25)]) + '\n'
CAMS = '''# Coding: utf-8
# File format version: 2
# Title: CAMS McClear v3.1 model of clear-sky irradiation.
# Date begin (ISO 8601): 2020-06-01T00:00:00.0
# Date end (ISO 8601): 2020-06-02T00:00:00.0
# Latitude (positive North, ISO 19115): 10.0000
# Longitude (positive East, ISO 19115): 20.0000
# Altitude (m): 100.00
# Time reference: Universal time (UT)
# Summarization (integration) period: 0 year 0 month 0 day 1 h 0 min 0 s
# noValue: nan
#
# Observation period;TOA;Clear sky GHI;Clear sky BHI;Clear sky DHI;Clear sky BNI
2020-06-01T00:00:00.0/2020-06-01T01:00:00.0;0.0000;0.0000;0.0000;0.0000;0.0000
2020-06-01T01:00:00.0/2020-06-01T02:00:00.0;10.0000;8.0000;5.0000;3.0000;7.0000
2020-06-01T02:00:00.0/2020-06-01T03:00:00.0;100.0000;80.0000;50.0000;30.0000;70.0000
'''
BSRN = '''*C0001
 94  1 2021  1
*C0004
 -1 -1 -1
 12  3
somewhere
 +1 555               +1 556
 1.2.3.4         a@b.c
 120.000 200.000   55  XXXXX
 -1 -1 -1
  10  2  20  3  -1 -1
*C0100
%s'''
BSRN = BSRN % ''.join(''.join(f.rjust(w) for f, w in zip(row, width)) + '\n' for i in range(3) for row, width in (
    ((' 1', str(i), '1%d' % i, '1.0', '8', '12', '5', '0.5', '4', '6'), (3, 5, 6, 6, 5, 5, 7, 6, 5, 5)),
    ((' ', '30%d' % i, '0.2', '2', '4', '300', '0.1', '299', '301', '20.1', '50.0', '1013'), (10, 4, 6, 5, 5, 7, 6, 5, 5, 9, 6, 5))))


def run(c):
    recs = c.model('DeprecationMC', CFG)
    rng = c.rng
    tr = []
    groups = {}
    for r in recs:
        groups.setdefault(json.dumps(r['w'], sort_keys=True), []).append(r['call'])
    n = 0
    for k in sorted(groups):
        w, calls = json.loads(k), groups[k]
        calls.sort(key=lambda x: json.dumps(x, sort_keys=True))
        rng.shuffle(calls)
        # histories: every call of the model once, in random sequences through one wrapper
        calls = calls[:c.pick(60, len(calls))]
        i = 0
        while i < len(calls):
            m = rng.randint(1, 12)
            part = calls[i:i + m]
            part = part + [rng.choice(part)]
            tr.append({'meta': {}, 'ev': [sequence(w, part, rng)]})
            i += m
    for _ in range(c.pick(3, 30)):
        for e in real(rng):
            tr.append({'meta': {}, 'ev': [e]})
    c.validate('Deprecation', tr)


main(run)
