import datetime as dt
import warnings
import zoneinfo
from vh import *
import numpy as np
import pandas as pd
from pvlib import solarposition as sp, location

CFG = '''INIT Init
NEXT Next
CONSTANT Days_ = {%s}
INVARIANTS Invert NoonIsNoon Horizontal Polar Emit
'''
# zone and a longitude it is used at
PLACES = [('UTC', 0), ('UTC', 13), ('Etc/GMT+7', -105), ('America/Phoenix', -112), ('America/New_York', -77), ('Europe/Berlin', 13.4), ('Asia/Kolkata', 80),
          ('Australia/Lord_Howe', 159), ('Pacific/Auckland', 175), ('Pacific/Tongatapu', -175.2), ('Pacific/Apia', -171.8), ('Pacific/Kiritimati', -157.4),
          ('Pacific/Fiji', 178.4), ('Pacific/Fiji', -179.5), ('Pacific/Pago_Pago', -170.7), ('America/Adak', -176.6), ('America/Santiago', -70.6), ('Asia/Kathmandu', 85.3),
          ('Asia/Urumqi', 87.6), ('Asia/Shanghai', 76), ('America/Sao_Paulo', -46.6), ('Africa/Cairo', 31.2), ('Asia/Beirut', 35.5), ('Pacific/Chatham', -176.5),
          ('Atlantic/Azores', -25.6), ('Europe/Moscow', 37.6), ('Asia/Kamchatka', 158.6), ('Antarctica/Troll', 2.5)]
# dates around which something happens
DATES = ['2021-03-28', '2021-10-31', '2021-03-14', '2021-11-07', '2014-09-07', '2014-04-27', '2018-11-04', '2018-02-18', '2020-02-29', '2020-12-31', '2021-01-01', '2021-06-21', '2021-12-21',
         '2021-03-20', '2021-09-22', '2021-11-03', '2021-02-11', '1969-12-31', '2000-01-01', '2023-04-28']
DAY0 = dt.date(1970, 1, 1)


def when(x):
    """{d, s}: UTC day number and seconds."""
    if x is None or x is pd.NaT or pd.isna(x):
        return {'d': 0, 's': 'NaN'}
    x = pd.Timestamp(x).tz_convert('UTC').as_unit('ns')
    return {'d': int(x.value // (86400 * 10**9)), 's': num(x.value % (86400 * 10**9) / 1e9)}


def local(x, zone):
    """local date (day number) and wall-clock seconds, from the standard library."""
    y = pd.Timestamp(x).to_pydatetime(warn=False).astimezone(zoneinfo.ZoneInfo(zone)) if zone != 'UTC' else pd.Timestamp(x).tz_convert('UTC').to_pydatetime(warn=False)
    return (y.date() - DAY0).days, y.hour * 3600 + y.minute * 60 + y.second + y.microsecond / 1e6


def run(c):
    rng = c.rng
    u = rng.uniform
    tr = []
    warnings.simplefilter('ignore')
    grid = c.model('SunEventsMC', CFG % ('18706, 18799' if not c.thorough else '10957, 11037, 11125, 11218, 18706, 18752, 18799, 18890, 18982, 19783'))

    def times(zone, n=None, dates=None):
        n = n or rng.choice([1, 2, 3, 4])
        L = []
        for _ in range(n):
            k = rng.random()
            day = pd.Timestamp(dates[rng.randrange(len(dates))] if dates else rng.choice(DATES)) if k < .6 or dates else pd.Timestamp(rng.randint(1975, 2040), rng.randint(1, 12), rng.randint(1, 28))
            day += pd.Timedelta(days=rng.choice([0, 0, -1, 1]))
            s = rng.choice([0, 3600, 5400, 7200, 10800, 23.5 * 3600, 43200, u(0, 86399), 86399])
            L.append(day + pd.Timedelta(microseconds=int(s * 10**6)))
            if rng.random() < .3:
                L.append(day + pd.Timedelta(seconds=rng.randrange(86400)))
        t = pd.DatetimeIndex(L).as_unit(rng.choice(['ns', 'us', 'us', 'ms', 's']))
        t = t.tz_localize(zone, nonexistent='shift_forward', ambiguous=np.array([rng.random() < .5 for _ in L]))
        t.name = rng.choice([None, 'time'])
        return t

    def event(method, t, zone, lat, lon, via, **kw):
        extra = dict(kw)
        if via == 'location':
            loc = location.Location(lat, lon, tz=zone)
            st, o = outcome(loc.get_sun_rise_set_transit, t, method=method, **kw) if method != 'spa' or rng.random() < .5 else outcome(loc.get_sun_rise_set_transit, t, **kw)
        elif method == 'geometric':
            st, o = outcome(sp.sun_rise_set_transit_geometric, t, lat, lon, **kw)
            if st == 'ok':
                o = pd.DataFrame({'sunrise': o[0], 'sunset': o[1], 'transit': o[2]}, index=t)
        else:
            st, o = outcome({'spa': sp.sun_rise_set_transit_spa, 'pyephem': sp.sun_rise_set_transit_ephem}[method], t, lat, lon, **kw)
        e = {'kind': 'rise', 'method': method, 'bad': '', 'lat': num(lat), 'lon': num(lon), 'exc': '' if st == 'ok' else o,
             'delta_t': '67' if 'delta_t' not in kw else 'None' if kw['delta_t'] is None else num(kw['delta_t']),
             'next': kw.get('next_or_previous', 'next'), 'altitude': num(kw.get('altitude', 0)), 'pressure': num(kw.get('pressure', 101325)), 'temperature': num(kw.get('temperature', 12)),
             'horizon': num(HORIZON[kw.get('horizon', '0:00')])}
        rows = []
        for i, x in enumerate(t):
            r = {'ld': local(x, zone)[0], **when(x)}
            if method == 'geometric':
                r.update(dec=num(np.broadcast_to(extra['declination'], len(t))[i]), eot=num(np.broadcast_to(extra['equation_of_time'], len(t))[i]))
            if st == 'ok':
                for k in ('sunrise', 'transit', 'sunset'):
                    r[k] = when(o[k].iloc[i])
                r['tls'] = num('nan') if pd.isna(o['transit'].iloc[i]) else num(local(o['transit'].iloc[i], zone)[1])
                r['tld'] = 0 if pd.isna(o['transit'].iloc[i]) else local(o['transit'].iloc[i], zone)[0]
            rows.append(r)
        e['rows'] = rows
        if st == 'ok':
            e['index'] = bool(o.index.equals(t)) and sorted(o.columns) == ['sunrise', 'sunset', 'transit']
            e['zone'] = all(o[k].isna().all() or str(getattr(o[k].dtype, 'tz', None)) == zone for k in o.columns)
        tr.append({'meta': {}, 'ev': [e]})
    HORIZON = {'0:00': 0, '+0:00': 0, '-0:34': -34 / 60, '5:00': 5, '-6:00': -6, '-0:50': -50 / 60}

    def lat_():
        return rng.choice([u(-60, 60), u(-60, 60), u(-90, 90), u(64, 72) * rng.choice([1, -1]), 0., 90., -90., 45])

    # systematic
    rng.shuffle(grid)
    for r in grid[:c.pick(60, 600)]:
        zone = 'UTC'
        t = pd.DatetimeIndex([pd.Timestamp(DAY0) + pd.Timedelta(days=r['d'], hours=rng.choice([0, 5, 23]))], tz='UTC')
        event('spa', t, zone, fl(r['lat']), fl(r['lon']), 'function')
    for _ in range(c.pick(90, 2500)):
        zone, lon = rng.choice(PLACES)
        lon = lon + u(-.5, .5) if zone != 'UTC' else u(-180, 180)
        if rng.random() < .1:   # any longitude at all
            lon = rng.choice([-180., 180., u(-180, 180)])
        lat = lat_()
        t = times(zone)
        via = rng.choice(['function', 'location'])
        kw = {}
        if rng.random() < .4:
            kw['delta_t'] = rng.choice([None, u(0, 100), 0])
        event('spa', t, zone, lat, lon, via, **kw)
        # geometric, per-time or shared declination and equation of time
        n = len(t)
        dec, eot = np.radians(np.array([u(-23.45, 23.45) for _ in t])), np.array([u(-17, 17) for _ in t])
        if rng.random() < .3:
            dec, eot = float(dec[0]), float(eot[0])
        elif rng.random() < .3:
            dec, eot = pd.Series(dec, index=t), pd.Series(eot, index=t)
        event('geometric', t, zone, lat if abs(lat) < 89 else 50., lon, via, declination=dec, equation_of_time=eot)
    for _ in range(c.pick(40, 1000)):
        zone, lon = rng.choice(PLACES)
        lat = rng.choice([u(-58, 58), u(-58, 58), u(-85, 85)])
        kw = {}
        if rng.random() < .5:
            kw['next_or_previous'] = rng.choice(['next', 'previous', 'Next', 'PREVIOUS'])
        if rng.random() < .4:
            kw['horizon'] = rng.choice(sorted(HORIZON))
        if rng.random() < .5:
            kw['pressure'] = rng.choice([0., 0., 101325., 9e4])
        if rng.random() < .3:
            kw['altitude'] = rng.choice([0., 500.])
        event('pyephem', times(zone, rng.choice([1, 2])), zone, lat, lon, rng.choice(['function', 'location']), **kw)

    # refused: times without a zone, unknown options
    naive = pd.date_range('2021-01-01', periods=2, freq='D')
    aware = naive.tz_localize('UTC')
    for bad, f in (('naive-spa', lambda: sp.sun_rise_set_transit_spa(naive, 10, 10)), ('naive-ephem', lambda: sp.sun_rise_set_transit_ephem(naive, 10, 10)),
                   ('naive-geometric', lambda: sp.sun_rise_set_transit_geometric(naive, 10, 10, 0., 0.)), ('direction', lambda: sp.sun_rise_set_transit_ephem(aware, 10, 10, next_or_previous='nearest')),
                   ('method', lambda: location.Location(10, 10).get_sun_rise_set_transit(aware, method='nrel')), ('how', lambda: sp.sun_rise_set_transit_spa(aware, 10, 10, how='cython'))):
        st, o = outcome(f)
        tr.append({'meta': {}, 'ev': [{'kind': 'rise', 'bad': bad, 'exc': '' if st == 'ok' else o}]})
    for f in (lambda: sp.hour_angle(naive, 10, 0.),):
        st, o = outcome(f)
        tr.append({'meta': {}, 'ev': [{'kind': 'ha', 'bad': True, 'exc': '' if st == 'ok' else o}]})
    # the compiled back end
    for _ in range(c.pick(6, 60)):
        zone, lon = rng.choice(PLACES)
        event('spa', times(zone), zone, u(-60, 60), lon, 'function', how='numba', numthreads=rng.choice([1, 2, 4]))
    c.validate("SunEvents", tr)


def _ambiguous(x, zone):
    m = x.tz_localize(None).normalize()
    z = zoneinfo.ZoneInfo(zone)
    a = m.to_pydatetime().replace(tzinfo=z)
    return a.utcoffset() != a.replace(fold=1).utcoffset()


main(run)
