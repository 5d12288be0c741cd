import os
from vh import *
import point
import h5py
import numpy as np
import pandas as pd
import pvlib
from pvlib import clearsky, location, irradiance

CFG = '''INIT Init
NEXT Next
INVARIANTS NonNegative BirdNonNegative Night Closure Turbid Aerosol Scales Cal Smooth Emit
'''
ZONES = ['UTC', 'Asia/Kolkata', 'America/Phoenix', 'Pacific/Auckland', 'Europe/Berlin', 'Etc/GMT+12', 'Pacific/Kiritimati', None]


def days(t):
    """UTC day number of each time (naive times are UTC)."""
    t = pd.DatetimeIndex(t)
    u = t.tz_convert('UTC').tz_localize(None) if t.tz is not None else t
    return [int(v) for v in (u - pd.Timestamp('1970-01-01')) // pd.Timedelta(days=1)]


def run(c):
    rng = c.rng
    u = rng.uniform
    tr = []

    def pt(fn, rows, k, **o):
        kk = {a: v for a, v in k.items() if a not in ('enh', 'none')}
        ek = {a: (v if isinstance(v, bool) else num(v)) for a, v in k.items()} or {'none': 0}
        if 'enh' in k:
            kk['perez_enhancement'] = k['enh']
        f = o.pop('f', None) or (lambda **kw: getattr(clearsky, fn)(**kw, **kk))
        tr.extend(point.forms(fn, f, rows, {}, rng, encode_k=ek, **o))

    for fn, rows, k in point.group(c.model('ClearSkyMC', CFG)):
        if fn == 'haurwitz':
            pt(fn, rows, k, forms=('series',), series_out='strict')
            for z in ([0., 30., 60., 75., 91.], [100.], [12.]):
                for fm in ('series', 'intseries'):
                    tr.append({'meta': {}, 'ev': [point.one('haurwitz', clearsky.haurwitz, {'apparent_zenith': z}, {}, fm, encode_k={'none': 0})]})
        else:
            pt(fn, rows, k, nscalar=2, chunk=60)
    for _ in range(c.pick(10, 200)):
        n = rng.choice([1, 5, 20])
        col = lambda lo, hi: [u(lo, hi) if rng.random() < .97 else float('nan') for _ in range(n)]
        z = [u(0, 100) for _ in range(n)]
        am = [1 / (np.cos(np.radians(x)) + .5057 * (96.08 - x) ** -1.634) if x <= 90 else float('nan') for x in z]
        pt('ineichen', {'apparent_zenith': z, 'airmass_absolute': am, 'linke_turbidity': col(1, 8), 'altitude': [u(0, 4000)] * n, 'dni_extra': col(1320, 1415)}, {'enh': rng.random() < .3})
        pt('simplified_solis', {'apparent_elevation': [90 - x for x in z], 'aod700': [u(0, .45) for _ in z], 'precipitable_water': [u(.05, 8) for _ in z], 'pressure': [u(5e4, 1.05e5)] * n, 'dni_extra': col(1320, 1415)}, {})
        pt('bird', {'zenith': z, 'airmass_relative': am, 'aod380': [u(0, .6) for _ in z], 'aod500': [u(0, .5) for _ in z], 'precipitable_water': [u(.1, 6) for _ in z],
                    'ozone': col(.1, .5), 'pressure': col(6e4, 1.05e5), 'dni_extra': col(1320, 1415), 'asymmetry': col(.7, .9), 'albedo': col(0, .8)}, {})
        pt('haurwitz', {'apparent_zenith': z}, {}, forms=('series',))
    # documented defaults, one at a time
    z = {'apparent_zenith': [10., 60., 85., 95.], 'airmass_absolute': [1., 2., 9., 30.], 'linke_turbidity': [3., 2., 4., 3.]}
    pt('ineichen', z, {'enh': False}, f=lambda **k: clearsky.ineichen(**k))
    e = {'apparent_elevation': [80., 40., 5., -5.]}
    A, W, P, I = {'aod700': [0., .2, .03, .3]}, {'precipitable_water': [.1, 2., 3., 1.]}, {'pressure': [9e4, 8e4, 1e5, 7e4]}, {'dni_extra': [1400., 1350., 1360., 1390.]}
    for s in range(16):
        rows = dict(e)
        for b, x in enumerate((A, W, P, I)):
            if s >> b & 1:
                rows.update(x)
        pt('simplified_solis', rows, {}, f=lambda **k: clearsky.simplified_solis(**k), mixed=1)
        pt('simplified_solis', {a: v[:1] for a, v in rows.items()}, {}, f=lambda **k: clearsky.simplified_solis(**k), mixed=1)
    # whole-number aerosol optical depth with a fractional water column
    for fm in ('intarray', 'intseries', 'int'):
        for kw in ({'precipitable_water': 1.5}, {'precipitable_water': 3.7, 'pressure': 9e4}):
            tr.append({'meta': {}, 'ev': [point.one('simplified_solis', clearsky.simplified_solis, {'apparent_elevation': [50., 20.][:1 if fm == 'int' else 2], 'aod700': [0., 0.][:1 if fm == 'int' else 2]}, kw, fm)]})
            tr.append({'meta': {}, 'ev': [point.one('simplified_solis', clearsky.simplified_solis, {'apparent_elevation': [50., 20.], 'aod700': [0., 0.]}, kw, {'apparent_elevation': 'array', 'aod700': 'intarray'})]})
    b = {'zenith': [10., 60., 89., 95.], 'airmass_relative': [1., 2., 26., 38.], 'aod380': [.1, .2, .3, .4], 'aod500': [.1, .2, .2, .3], 'precipitable_water': [1., 2., .5, 3.]}
    pt('bird', b, {}, f=lambda **k: clearsky.bird(**k))
    pt('bird', dict(b, albedo=[0., .5, .3, .9]), {}, f=lambda **k: clearsky.bird(**k))

    # ---- turbidity climatology on a synthetic grid of the documented shape
    path = os.path.join(c.work, 'lt.h5')
    r, q, m = np.ogrid[:2160, :4320, 1:13]
    grid = ((13 * r + 7 * q + 17 * m) % 251).astype(np.uint8)
    with h5py.File(path, 'w') as f:
        f.create_dataset('LinkeTurbidity', data=grid)
    del grid

    def linke(lat, lon, t, interp, default=False):
        kw = {} if default else {'interp_turbidity': interp}
        st, o = outcome(clearsky.lookup_linke_turbidity, t, lat, lon, filepath=path, **kw)
        e = {'fn': 'linke', 'lat': num(lat), 'lon': num(lon), 'days': days(t), 'interp': interp, 'exc': '' if st == 'ok' else o}
        if st == 'ok':
            e['out'] = nums(o)
            e['index'] = bool(isinstance(o, pd.Series) and o.index.equals(t))
        tr.append({'meta': {}, 'ev': [e]})
    yrs = [pd.date_range('%d-01-01' % y, '%d-01-01' % (y + 1), freq='D', tz=None) for y in (2015, 2016, 1999, 2100)]
    for y in yrs:
        for tz in (ZONES if c.thorough else rng.sample(ZONES, 3)):
            t = (y + pd.Timedelta(minutes=rng.choice([0, 30, 720, 1439])))
            t = t.tz_localize(tz, nonexistent='shift_forward', ambiguous=False) if tz else t
            t = t[rng.randrange(3)::3] if not c.thorough else t
            for interp in (True, False):
                linke(round(u(-90, 90), 3), round(u(-180, 180), 3), t, interp, default=interp and rng.random() < .5)
    t = pd.DatetimeIndex(['2016-02-29 23:59:59.5', '2015-12-31 23:00', '2016-01-01 00:00', '2015-02-28 12:00', '2016-12-31 12:00', '2016-06-15'])
    edge = [90, -90, 180, -180, 0, 89.99, -89.99, 179.99, -179.99, 90.2, -90.2, 180.2, -180.2, 1 / 24, 45 + 1 / 24, 45 + 1 / 12]
    for lat in edge:
        for lon in edge if c.thorough else rng.sample(edge, 6):
            tz = rng.choice(ZONES)
            linke(lat, lon, t.tz_localize(tz) if tz else t, rng.random() < .5)
    for _ in range(c.pick(60, 1500)):
        lat, lon = u(-90, 90), u(-180, 180)
        if rng.random() < .3:
            lat, lon = rng.randint(-1079, 1080) / 12 + u(-1, 1) * 1e-3, rng.randint(-2159, 2160) / 12 + u(-1, 1) * 1e-3
        y = rng.randint(1950, 2100)
        t = pd.DatetimeIndex([pd.Timestamp(y, 1, 1) + pd.Timedelta(seconds=rng.randrange(0, 366 * 86400)) for _ in range(rng.choice([1, 6]))])
        tz = rng.choice(ZONES)
        t = t.tz_localize(tz, nonexistent='shift_forward', ambiguous=[False] * len(t)) if tz else t
        linke(lat, lon, t, rng.random() < .6)
    linke(10, 10, pd.DatetimeIndex([], tz='UTC'), True)

    # ---- altitude grid
    apath = os.path.join(os.path.dirname(pvlib.__file__), 'data', 'Altitude.h5')
    with h5py.File(apath, 'r') as f:
        G = f['Altitude']
        pts = [(rng.choice([u(-90, 90), u(20, 60)]), u(-180, 180)) for _ in range(c.pick(60, 800))] + [(a, b) for a in (90, -90, 90.2, 0, 1 / 24) for b in (180, -180, 180.2, 0.)]
        pts += [(28, 86.9), (40.1, -105.2), (0, -30), (31.5, 35.5), (32.2, -111), (33.5, -86)]
        for lat, lon in pts:
            st, o = outcome(location.lookup_altitude, lat, lon)
            r0, q0 = int(np.floor((90 - lat) * 12)), int(np.floor((180 + lon) * 12))
            cells = [[i, j, int(G[i, j])] for i in range(r0 - 1, r0 + 2) for j in range(q0 - 1, q0 + 2) if 0 <= i < 2160 and 0 <= j < 4320]
            tr.append({'meta': {}, 'ev': [{'fn': 'altitude', 'lat': num(lat), 'lon': num(lon), 'cells': cells, 'exc': '' if st == 'ok' else o, 'out': num(o) if st == 'ok' else ''}]})

    # ---- Location.get_clearsky
    for _ in range(c.pick(40, 600)):
        tz = rng.choice([z for z in ZONES if z])
        loc = location.Location(u(-70, 70), u(-179, 179), tz=tz, altitude=rng.choice([0., u(0, 4000)]))
        n = rng.choice([1, 12, 24])
        t = pd.date_range('%d-%02d-%02d' % (rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28)), periods=n, freq='2h', tz='UTC').tz_convert(tz)
        model = rng.choice(['ineichen', 'ineichen', 'simplified_solis', 'simplified_solis', 'haurwitz', 'bird', 'Ineichen'])
        kw, pr = {}, None
        e = {'fn': 'location', 'model': model, 'altitude': num(loc.altitude), 'airmass': 'None', 'enh': False, 'aod': '0.1', 'pw': '1', 'linke': ['3'] * n, 'pressure': 'None'}
        if model == 'simplified_solis' and rng.random() < .5:
            pr = kw['pressure'] = u(6e4, 1e5)
            e['pressure'] = num(pr)
        sp = None
        if rng.random() < .5:
            sp = loc.get_solarposition(t, pressure=pr)
        else:
            kw['solar_position'] = loc.get_solarposition(t + pd.Timedelta(hours=rng.randint(0, 5)), pressure=9e4).set_axis(t)
            sp = kw['solar_position']
        if rng.random() < .5:
            kw['dni_extra'] = pd.Series([u(1300, 1420) for _ in t], index=t) if rng.random() < .5 else u(1300, 1420)
            ex = np.broadcast_to(np.asarray(kw['dni_extra'], float), n)
        else:
            ex = irradiance.get_extra_radiation(t)
        if model == 'ineichen':
            lt = pd.Series([u(1.5, 6) for _ in t], index=t) if rng.random() < .6 else u(1.5, 6)
            kw['linke_turbidity'] = lt
            e['linke'] = nums(np.broadcast_to(np.asarray(lt, float), n))
            if rng.random() < .3:
                kw['airmass_absolute'] = u(1, 5)
                e['airmass'] = num(kw['airmass_absolute'])
            if rng.random() < .3:
                e['enh'] = kw['perez_enhancement'] = True
        if model == 'simplified_solis':
            if rng.random() < .5:
                kw['aod700'] = u(0, .4)
                e['aod'] = num(kw['aod700'])
            if rng.random() < .5:
                kw['precipitable_water'] = u(.1, 5)
                e['pw'] = num(kw['precipitable_water'])
        if model == 'ineichen' and rng.random() < .3:
            st, o = outcome(loc.get_clearsky, t, **kw)
        else:
            st, o = outcome(loc.get_clearsky, t, model, **kw)
        e.update(zen=nums(sp['apparent_zenith']), el=nums(sp['apparent_elevation']), extra=nums(ex), exc='' if st == 'ok' else o)
        if st == 'ok':
            e['out'] = {a: nums(o[a]) for a in o.columns}
            e['index'] = bool(o.index.equals(t))
        tr.append({'meta': {}, 'ev': [e]})
    c.validate('ClearSky', tr)


main(run)
