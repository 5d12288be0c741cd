import datetime as dt
import sys
import types
import warnings
import zoneinfo
from vh import *
import numpy as np
import pandas as pd
from pvlib import solarposition as sp, spa, location

CFG = '''INIT Init
NEXT Next
CONSTANT Days_ = {%s}
INVARIANTS Agree Ranges Orbit Obliquity Turn Emit
'''
ZONES = ['UTC', 'Asia/Kolkata', 'America/Phoenix', 'America/New_York', 'Pacific/Auckland', 'Europe/Berlin', 'Etc/GMT+12', 'Pacific/Kiritimati', 'Asia/Kathmandu', 'Australia/Lord_Howe']
EPOCH = pd.Timestamp('1970-01-01')
ASKED = []


def spa_calc(**kw):
    ASKED.append(kw)
    return {'azimuth': 180., 'zenith': 40., 'e': 50., 'e0': 50.}


def instants(t):
    """UTC day number and seconds of the day of every time (naive = UTC)."""
    t = t.tz_convert('UTC').tz_localize(None) if t.tz is not None else t
    per = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}[t.unit]
    d, s = [], []
    for v, na in zip(t.asi8.tolist(), t.isna()):
        d.append(0 if na else v // (86400 * per))
        s.append('NaN' if na else num((v % (86400 * per)) / per))
    return d, s


def event(f, method, t, lat, lon, altitude=None, pressure=None, temperature=None, delta_t='default', refract=None, idx=None, kw=None):
    kw = dict(kw or {})
    for n, v in (('altitude', altitude), ('pressure', pressure), ('temperature', temperature), ('atmos_refract', refract)):
        if v is not None:
            kw[n] = v
    if delta_t != 'default':
        kw['delta_t'] = delta_t
    if method == 'nrel_c':
        ASKED.clear()
    st, o = outcome(f, t, lat, lon, **kw)
    idx = t if idx is None else idx
    d, s = instants(idx)
    e = {'kind': 'pos', 'method': method, 'd': d, 's': s, 'lat': num(lat), 'lon': num(lon), 'altitude': 'None' if altitude is None else num(altitude),
         'pressure': 'None' if pressure is None else num(pressure), 'temperature': num(12 if temperature is None else temperature),
         'delta_t': num(67) if delta_t == 'default' else ('None' if delta_t is None else num(delta_t)),
         'atmos_refract': 'None' if refract is None else num(refract), 'exc': '' if st == 'ok' else o}
    if st == 'ok':
        e['out'] = {k: nums(o[k]) for k in o.columns}
        e['index'] = bool(o.index.equals(idx)) and str(o.index.tz) == str(idx.tz)
        if method == 'nrel_c':
            e['asked'] = [{k: (int(v) if k in ('year', 'month', 'day', 'hour', 'minute') else num(v)) for k, v in a.items()} for a in ASKED]
    return {'meta': {}, 'ev': [e]}


def run(c):
    rng = c.rng
    u = rng.uniform
    tr = []
    warnings.simplefilter('ignore')
    grid = c.model('SolarPosMC', CFG % ('10957, 11125' if not c.thorough else '-25000, 4000, 10957, 11037, 11125, 11218, 19783, 40000'))
    # systematic places and times, one instant each and as one shuffled index
    rng.shuffle(grid)
    byloc = {}
    for r in grid:
        byloc.setdefault((r['lat'], r['lon']), []).append((r['d'], fl(r['s'])))
    for (lat, lon), L in byloc.items():
        L = L[:c.pick(3, 20)]
        t = pd.DatetimeIndex([EPOCH + pd.Timedelta(days=d) + pd.Timedelta(microseconds=round(s * 1e6)) for d, s in L], tz='UTC').tz_convert(rng.choice(ZONES))
        m = rng.choice(['nrel_numpy', 'nrel_numpy', 'ephemeris', 'pyephem'])
        if m == 'ephemeris' or (m == 'pyephem' and abs(fl(lat)) == 90):
            t = t[(t.year > 1901) & (t.year < 2099)]
        if len(t):
            tr.append(event(lambda *a, **k: sp.get_solarposition(*a, method=m, **k), m, t, fl(lat), fl(lon), altitude=0., pressure=101325.))

    def times(lo, hi):
        n = rng.choice([1, 2, 3, 5])
        base = pd.Timestamp(rng.randint(lo, hi), rng.randint(1, 12), rng.randint(1, 28))
        k = rng.random()
        if k < .6:
            step = rng.choice([1, 37, 3600, 17000, 86400, 86400 * 30])
            L = [base + pd.Timedelta(seconds=rng.randrange(86400) + i * step) for i in range(n)]
        else:
            L = [base + pd.Timedelta(nanoseconds=rng.randrange(86400 * 10**9)) for i in range(n)]
        L = [v.floor('us') if rng.random() < .5 else v for v in L]
        rng.shuffle(L)
        if rng.random() < .2:
            L = L + L[:1]
        L = [v for v in L if lo <= v.year <= hi] or [pd.Timestamp(2020, 5, 5, 12)]
        t = pd.DatetimeIndex(L)
        unit = rng.choice(['ns', 'ns', 'us', 'ms', 's'])
        t = t.as_unit(unit)
        if rng.random() < .8:
            t = t.tz_localize('UTC').tz_convert(rng.choice(ZONES))
        t.name = rng.choice([None, 'when'])
        return t

    def place():
        return rng.choice([u(-89.9, 89.9), u(-60, 60), 0., rng.choice([-90., 90., 45])]), rng.choice([u(-180, 180), u(-180, 180), 0., rng.choice([180., -180, 190.5])])

    def options():
        k = {}
        if rng.random() < .5:
            k['altitude'] = u(-100, 4000)
        if rng.random() < .5:
            k['pressure'] = u(5e4, 1.05e5)
        if rng.random() < .5:
            k['temperature'] = u(-30, 45)
        return k
    sys.modules['pvlib.spa_c_files.spa_py'] = types.SimpleNamespace(spa_calc=spa_calc)
    for _ in range(c.pick(150, 3000)):
        m = rng.choice(['nrel_numpy', 'NREL_numpy', 'nrel_numpy', 'nrel_numpy', 'ephemeris', 'ephemeris', 'pyephem', 'nrel_c', None])
        t = times(*{'ephemeris': (1902, 2098), 'pyephem': (1950, 2050)}.get(m, (1700, 2250)))
        lat, lon = place()
        if m == 'pyephem':
            lat = max(-89.5, min(89.5, lat))
        k = options()
        if m in ('nrel_numpy', 'NREL_numpy', None, 'nrel_c') and rng.random() < .4:
            k['delta_t'] = rng.choice([None, u(0, 100), 0]) if m != 'nrel_c' else u(0, 100)
        if m in ('nrel_numpy', 'NREL_numpy', None) and rng.random() < .3:
            k['refract'] = rng.choice([u(0, 1), 0, .5667])
        kw = {} if m is None else {'method': m}
        tr.append(event(lambda *a, **q: sp.get_solarposition(*a, **q), m or 'nrel_numpy', t, lat, lon, kw=kw, **k))
        if rng.random() < .2 and m in ('nrel_numpy', 'ephemeris'):   # a missing time among others
            t2 = t.insert(rng.randrange(len(t) + 1), pd.NaT)
            tr.append(event(lambda *a, **q: sp.get_solarposition(*a, **q), m, t2, lat, lon, kw=kw, **k))
        if rng.random() < .4 and m != 'nrel_c':   # one time, as other types
            x = t[0]
            one = t[:1]
            kk = dict(k)
            if m == 'nrel_numpy' or m is None:
                f = sp.spa_python if rng.random() < .6 else sp.get_solarposition
                a = [x, one]
                if f is sp.spa_python:
                    a += [[x], [x.isoformat()] if x.nanosecond == 0 and x.year > 1980 else [x], np.array([x.tz_localize(None) if x.tz is None else x.tz_convert(None)], dtype='datetime64[ns]')]
                else:
                    a += [x.to_pydatetime()] if x.nanosecond == 0 else []
                arg = rng.choice(a)
                idx = pd.DatetimeIndex(arg) if isinstance(arg, (list, np.ndarray, pd.DatetimeIndex)) else pd.DatetimeIndex([arg])
                if f is sp.spa_python:   # its own defaults: altitude 0, pressure 101325
                    kk.setdefault('altitude', 0.)
                    kk.setdefault('pressure', 101325.)
                tr.append(event(f, 'nrel_numpy', arg, lat, lon, idx=idx, **kk))
            else:
                arg = x if rng.random() < .5 or x.nanosecond else x.to_pydatetime()
                kk.pop('delta_t', 0)
                tr.append(event(lambda *a, **q: sp.get_solarposition(*a, method=m, **q), m, arg, lat, lon, idx=pd.DatetimeIndex([arg]), **kk))
    # the horizon below which refraction is not applied
    for _ in range(c.pick(25, 300)):
        lat, lon = u(-50, 50), u(-180, 180)
        day = pd.DatetimeIndex([pd.Timestamp(rng.randint(1980, 2040), rng.randint(1, 12), rng.randint(1, 28), tz='UTC')])
        x = sp.sun_rise_set_transit_spa(day, lat, lon)[rng.choice(['sunrise', 'sunset'])].iloc[0]
        t = pd.DatetimeIndex([x + pd.Timedelta(seconds=k * 25) for k in range(-8, 12, 2)])
        tr.append(event(sp.spa_python, 'nrel_numpy', t, lat, lon, altitude=0., pressure=101325., refract=rng.choice([0, .1, .3, 1., .5667, None])))
        # and the regimes of the refraction of the simplified ephemeris: -1, -0.575, 5 and 85 degrees
        t = pd.DatetimeIndex([x + s * pd.Timedelta(seconds=k) for s in (1, -1) for k in range(0, 420, 45)])
        tr.append(event(sp.ephemeris, 'ephemeris', t, lat, lon, pressure=rng.choice([None, u(5e4, 1.05e5)]), temperature=rng.choice([None, u(-30, 40)])))
    # defaults of the individual functions; Location.get_solarposition
    for _ in range(c.pick(12, 100)):
        t = times(1950, 2050)
        lat, lon = u(-60, 60), u(-180, 180)
        tr.append(event(sp.spa_python, 'nrel_numpy', t, lat, lon))
        tr[-1]['ev'][0].update(altitude='0', pressure='101325')
        tr.append(event(sp.ephemeris, 'ephemeris', t, lat, lon))
        tr.append(event(sp.pyephem, 'pyephem', t, lat, lon))
        loc = location.Location(lat, lon, altitude=u(0, 3000))
        pr = rng.choice([None, u(6e4, 1e5)])
        e = event(lambda t_, a, b, **k: loc.get_solarposition(t_, **k), 'nrel_numpy', t, lat, lon, pressure=pr, temperature=rng.choice([None, 30.]))
        e['ev'][0]['altitude'] = num(loc.altitude)
        tr.append(e)
    t = times(2000, 2010)
    for m in ('spa', '', 'nrel', 'nrel_numpyy', 'ephem'):
        tr.append(event(lambda *a, **k: sp.get_solarposition(*a, method=m, **k), m, t, 10., 20.))

    # earth-sun distance, TT-UT1, julian days
    for _ in range(c.pick(20, 200)):
        for how in ('numpy', 'pyephem'):
            t = times(1950, 2050)
            kw = {'how': how, 'delta_t': rng.choice([67.0, None, 30.])} if how == 'numpy' else {}
            st, o = outcome(sp.nrel_earthsun_distance if how == 'numpy' else sp.pyephem_earthsun_distance, t, **kw)
            d, s = instants(t)
            e = {'kind': 'distance', 'how': how, 'd': d, 's': s, 'delta_t': 'None' if kw.get('delta_t', 1) is None else num(kw.get('delta_t', 67)), 'exc': '' if st == 'ok' else o}
            if st == 'ok':
                e.update(out=nums(o), index=bool(o.index.equals(t)))
            tr.append({'meta': {}, 'ev': [e]})
        x = times(1950, 2050)[0]
        st, o = outcome(sp.nrel_earthsun_distance, x)
        d, s = instants(pd.DatetimeIndex([x]))
        tr.append({'meta': {}, 'ev': [{'kind': 'distance', 'how': 'numpy', 'd': d, 's': s, 'delta_t': '67', 'exc': '' if st == 'ok' else o, 'out': nums(o) if st == 'ok' else [], 'index': True}]})
    ys = [-1999, -501, -500, -499, 0, 499, 500, 501, 1000, 1599, 1600, 1650, 1699, 1700, 1750, 1799, 1800, 1830, 1859, 1860, 1880, 1899, 1900, 1910, 1919, 1920, 1930, 1940, 1941, 1950, 1960, 1961,
          1970, 1985, 1986, 1995, 2004, 2005, 2020, 2049, 2050, 2100, 2149, 2150, 2500, 3000]
    for mth in range(1, 13):
        y = np.array(ys)
        tr.append({'meta': {}, 'ev': [{'kind': 'deltat', 'year': ys, 'month': [mth] * len(ys), 'out': nums(spa.calculate_deltat(y, np.full(len(ys), mth)))}]})
        k = rng.choice(ys)
        tr.append({'meta': {}, 'ev': [{'kind': 'deltat', 'year': [k], 'month': [mth], 'out': nums(spa.calculate_deltat(k, mth))}]})
    for _ in range(c.pick(60, 500)):
        x = dt.datetime(rng.randint(1600, 2300), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10**6))
        o = spa.julian_day_dt(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)
        tr.append({'meta': {}, 'ev': [{'kind': 'jd', 'y': x.year, 'm': x.month, 'dom': x.day, 'secs': num(x.hour * 3600 + x.minute * 60 + x.second + x.microsecond / 1e6), 'out': num(o)}]})

    # time at which the sun reaches an altitude or azimuth
    for _ in range(c.pick(15, 200)):
        lat, lon = u(-50, 50), u(-180, 180)
        noon = pd.Timestamp(rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28), 12, tz='UTC') - pd.Timedelta(hours=lon / 15)
        a, b = noon - pd.Timedelta(hours=rng.choice([5, 4])), noon
        pos = sp.pyephem(pd.DatetimeIndex([a, b]), lat, lon)
        if not (pos['apparent_elevation'].iloc[0] < pos['apparent_elevation'].iloc[1] - 5):
            continue
        lo, hi = pos['apparent_elevation']
        val = np.radians(u(lo + 1, hi - 2))
        tz = zoneinfo.ZoneInfo(rng.choice(ZONES))
        st, o = outcome(sp.calc_time, a.to_pydatetime().astimezone(tz), b.to_pydatetime().astimezone(tz), lat, lon, 'alt', val)
        e = {'kind': 'calc_time', 'attribute': 'alt', 'value': num(val), 'lat': num(lat), 'lon': num(lon), 'altitude': '0', 'pressure': '101325', 'temperature': '12', 'exc': '' if st == 'ok' else o}
        if st == 'ok':
            x = pd.Timestamp(o)
            e['d'], e['s'] = instants(pd.DatetimeIndex([x]))
            e['inside'] = bool(x.tz is not None and a <= x <= b)
        tr.append({'meta': {}, 'ev': [e]})

    # analytical place: every corner of latitude, hour angle and declination
    R = [-90, -89.99, -45, -23.45, -10, 0, 1e-4, 10, 23.45, 60, 90]
    H = [-180, -179.99, -90, -45, -1, -1e-4, 0, 1e-4, 1, 45, 90, 135, 179.99, 180]
    D = [-23.45, -10, -1e-4, 0, 5, 10, 23.45]
    A = np.radians(np.array([(a, b, q) for a in R for b in H for q in D] + [(u(-90, 90), u(-180, 180), u(-23.5, 23.5)) for _ in range(c.pick(300, 5000))] + [(float('nan'), 10, 10), (10, float('nan'), 3)]))
    for i in range(0, len(A), 60):
        lat, ha, dec = A[i:i + 60].T
        z = sp.solar_zenith_analytical(lat, ha, dec)
        idx = pd.date_range('2020-01-01', periods=len(lat), freq='h', tz='UTC')
        S = lambda v: pd.Series(v, index=idx)
        base = {'lat': nums(lat), 'ha': nums(ha), 'dec': nums(dec)}
        for form, w in (('array', lambda v: v), ('series', S)):
            for kind, f, extra in (('zenith_analytical', sp.solar_zenith_analytical, ()), ('azimuth_analytical', sp.solar_azimuth_analytical, (w(z),))):
                st, o = outcome(f, w(lat), w(ha), w(dec), *extra)
                tr.append({'meta': {}, 'ev': [{'kind': kind, 'form': form, **base, 'exc': '' if st == 'ok' else o, 'out': nums(o) if st == 'ok' else []}]})
    for i in rng.sample(range(len(A) - 2), 12):
        lat, ha, dec = (float(v) for v in A[i])
        z = float(sp.solar_zenith_analytical(lat, ha, dec))
        for kind, f, extra in (('zenith_analytical', sp.solar_zenith_analytical, ()), ('azimuth_analytical', sp.solar_azimuth_analytical, (z,))):
            st, o = outcome(f, lat, ha, dec, *extra)
            tr.append({'meta': {}, 'ev': [{'kind': kind, 'form': 'scalar', 'lat': nums(lat), 'ha': nums(ha), 'dec': nums(dec), 'exc': '' if st == 'ok' else o, 'out': nums(o) if st == 'ok' else []}]})

    # the compiled back end, split over several threads
    for _ in range(c.pick(25, 300)):
        t = times(1900, 2100)
        lat, lon = place()
        k = options()
        if rng.random() < .4:
            k['delta_t'] = rng.choice([None, u(0, 100)])
        if rng.random() < .3:
            k['refract'] = rng.choice([u(.1, 1), .5667])
        tr.append(event(lambda *a, **q: sp.get_solarposition(*a, **q), 'nrel_numba', t, lat, lon, kw={'method': 'nrel_numba', 'numthreads': rng.choice([1, 2, 3, 4, 8])}, **k))
        tr.append(event(lambda *a, **q: sp.get_solarposition(*a, **q), 'nrel_numba', times(1900, 2100), lat, lon, kw={'method': 'nrel_numba'}, **k))
    st, o = outcome(sp.nrel_earthsun_distance, t, how='numba')
    d, s = instants(t)
    tr.append({'meta': {}, 'ev': [{'kind': 'distance', 'how': 'numba', 'd': d, 's': s, 'delta_t': '67', 'exc': '' if st == 'ok' else o, 'out': nums(o) if st == 'ok' else [], 'index': st == 'ok' and bool(o.index.equals(t))}]})
    c.validate('SolarPos', tr)


main(run)
