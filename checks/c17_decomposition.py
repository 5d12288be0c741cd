from vh import *
import point
import numpy as np
import pandas as pd
from pvlib import irradiance as irr

CFG = '''INIT Init
NEXT Next
INVARIANTS SpecClosure KtCaps NoNightBeam FractionBound Emit
'''
CAP = {'clearness_index': 'max_clearness_index', 'clearness_index_zenith_independent': 'max_clearness_index', 'clearsky_index': 'max_clearsky_index'}
DNI = {'tol': 'clearsky_tolerance', 'z0': 'zenith_threshold_for_zero_dni', 'zc': 'zenith_threshold_for_clearsky_limit'}


def call(fn, k, kw):
    k = {a: (None if isinstance(v, str) and v == 'None' else v) for a, v in k.items()}
    if fn in CAP:
        k[CAP[fn]] = k.pop('cap')
    if fn == 'dni':
        k = {DNI[a]: v for a, v in k.items()}
    if 'doy' in kw:
        kw = dict(kw)
        d = kw.pop('doy')
        if isinstance(kw['ghi'], pd.Series) and isinstance(d, pd.Series) and d.attrs.get('times', True):
            d = kw['ghi'].index if (np.asarray(d) == kw['ghi'].index.tz_convert('UTC').dayofyear).all() else d
        kw['datetime_or_doy'] = d
    elif fn == 'orgill_hollands':
        kw = dict(kw, datetime_or_doy=None)
    return getattr(irr, fn)(**kw, **k)


def run(c):
    recs = c.model('DecompositionMC', CFG)
    rng = c.rng
    tr = []

    def pt(fn, rows, k, **o):
        ek = {a: (v if isinstance(v, str) else num(v)) for a, v in k.items()} or {'none': 0}
        f = o.pop('f', lambda **kw: call(fn, k, kw))
        if fn in ('dni', 'complete_irradiance'):   # documented for Series
            tr.extend(point.forms(fn, f, rows, {}, rng, encode_k=ek, forms=('series',), mixed=0))
            return
        if 'doy' in rows:
            # by day of year
            tr.extend(point.forms(fn, f, rows, {}, rng, encode_k=ek, forms=('array', 'scalar'), **o))
            # by timestamps: rows of equal length at real times
            n = min(40, len(rows['doy']))
            r2 = {a: [float(x) for x in v[:n]] for a, v in rows.items()}
            r2['doy'] = [float(x) for x in point.IDX[:n].tz_convert('UTC').dayofyear]
            tr.append({'meta': {'fn': fn}, 'ev': [point.one(fn, f, r2, {}, 'series', encode_k=ek, series_out=True)]})
        else:
            so = fn not in ('orgill_hollands',)
            tr.extend(point.forms(fn, f, rows, {}, rng, encode_k=ek, series_out=so, **o))

    for fn, rows, k in point.group(recs):
        pt(fn, rows, k)
    u = rng.uniform
    for _ in range(c.pick(15, 300)):
        m = 30
        z = [rng.choice([u(0, 89), u(80, 92)]) for _ in range(m)]
        doy = [float(rng.randint(1, 366)) for _ in range(m)]
        kt = [rng.choice([u(0, 1.1), u(0, .3), u(.55, .85)]) for _ in range(m)]
        g = [t * 1366.1 * max(np.cos(np.radians(x)), rng.choice([.065, .01])) for t, x in zip(kt, z)]
        b = {'ghi': g, 'zenith': z, 'doy': doy}
        bs = {'ghi': g, 'solar_zenith': z, 'doy': doy}
        lim = {'min_cos_zenith': rng.choice([.065, u(.01, .3)]), 'max_zenith': rng.choice([87., u(70, 89)])}
        pt('erbs', b, lim)
        pt('erbs_driesse', b, lim)
        pt('orgill_hollands', b, lim)
        e = {'ghi': g, 'zenith': z, 'dni_extra': [u(1320, 1420) for _ in range(m)]}
        pt('erbs_driesse', e, lim)
        pt('orgill_hollands', e, lim)
        pt('boland', bs, dict(lim, a_coeff=u(7, 9), b_coeff=u(.5, .7)))
        pt('louche', bs, {'max_zenith': rng.choice([90., 85.])})
        pt('disc', bs, dict(lim, pressure=rng.choice(['None', u(6e4, 1.1e5)]), max_airmass=rng.choice([12., u(3, 20)])))
        pt('disc', dict(bs, pressure=[u(6e4, 1.1e5) for _ in range(m)]), dict(lim, max_airmass=12.))
        pt('campbell_norman', {'zenith': z, 'transmittance': [u(.2, .9) for _ in range(m)]}, {})
        pt('clearness_index', {'ghi': g, 'solar_zenith': z, 'extra_radiation': [u(1320, 1420) for _ in range(m)]}, {'min_cos_zenith': lim['min_cos_zenith'], 'cap': rng.choice([2., 1.])})
        pt('clearness_index_zenith_independent', {'clearness_index': kt, 'airmass': [u(1, 30) for _ in range(m)]}, {'cap': rng.choice([2., 1.])})
        pt('clearsky_index', {'ghi': g, 'ghi_clear': [rng.choice([0., u(0, 1000), u(0, 5)]) for _ in range(m)]}, {'cap': rng.choice([2., 1.3])})
        d = [x * rng.choice([u(0, 1), 1., u(1, 1.2)]) for x in g]
        cl = [u(0, 900) for _ in range(m)]
        pt('dni', {'ghi': g, 'dhi': d, 'zenith': z, 'dni_clear': cl}, {'tol': u(1, 1.3), 'z0': u(85, 90), 'zc': u(60, 85)})
        for x in ({'ghi': g, 'dhi': d}, {'ghi': g, 'dni': cl}, {'dni': cl, 'dhi': d}):
            pt('complete_irradiance', dict(x, solar_zenith=z), {})
        pt('complete_irradiance', {'ghi': g, 'dhi': d, 'dni_clear': cl, 'solar_zenith': z}, {})
        pt('diffuse_par_spitters', {'daily_solar_zenith': z, 'global_diffuse_fraction': [u(0, 1) for _ in range(m)]}, {})
    # documented defaults
    r = {'ghi': [0., 300., 900., 40.], 'zenith': [95., 60., 30., 87.5], 'doy': [1., 100., 200., 366.]}
    rs = {'ghi': r['ghi'], 'solar_zenith': r['zenith'], 'doy': r['doy']}
    lim = {'min_cos_zenith': .065, 'max_zenith': 87.}
    for fn in ('erbs', 'erbs_driesse', 'orgill_hollands'):
        pt(fn, r, lim, f=lambda fn=fn, **kw: call(fn, {}, kw))
    pt('boland', rs, dict(lim, a_coeff=8.645, b_coeff=.613), f=lambda **kw: call('boland', {}, kw))
    pt('louche', rs, {'max_zenith': 90.}, f=lambda **kw: call('louche', {}, kw))
    pt('disc', rs, dict(lim, pressure=101325., max_airmass=12.), f=lambda **kw: call('disc', {}, kw))
    pt('clearness_index', {'ghi': [100., 3000.], 'solar_zenith': [89., 60.], 'extra_radiation': [1367., 1367.]}, {'min_cos_zenith': .065, 'cap': 2.}, f=irr.clearness_index)
    pt('clearness_index_zenith_independent', {'clearness_index': [.5, 3.], 'airmass': [1., 2.]}, {'cap': 2.}, f=irr.clearness_index_zenith_independent)
    pt('clearsky_index', {'ghi': [500., 900.], 'ghi_clear': [100., 800.]}, {'cap': 2.}, f=irr.clearsky_index)
    pt('dni', {'ghi': [500., 100., 100., 20.], 'dhi': [100., 20., 20., 20.], 'zenith': [30., 81., 88., 89.], 'dni_clear': [900., 100., 50., 50.]}, {'tol': 1.1, 'z0': 88., 'zc': 80.}, f=irr.dni)
    c.validate('Decomposition', tr)


main(run)
