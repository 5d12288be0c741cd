import datetime as dt
import warnings
import zoneinfo
from vh import *
import numpy as np
import pandas as pd
from pvlib import irradiance, solarposition as sp, tools, location, clearsky

CFG = '''INIT Init
NEXT Next
CONSTANT Years_ = {%s}
INVARIANTS CalendarOk RoundTrip ChangeDays Orbit Emit
'''
FIXED = ['UTC', 'Etc/GMT+12', 'Etc/GMT+7', 'Etc/GMT+5', 'Etc/GMT-5', 'Etc/GMT-14', 'Asia/Kolkata', 'Asia/Kathmandu', 'America/Phoenix', 'Asia/Tokyo', 'Pacific/Kiritimati']
DST = ['America/New_York', 'Europe/Berlin', 'Pacific/Auckland', 'Australia/Lord_Howe']
ZONES = FIXED + DST * 2
LON = {'America/New_York': -75, 'Europe/Berlin': 13, 'Pacific/Auckland': 175, 'Australia/Lord_Howe': 159}
EPOCH = pd.Timestamp('1970-01-01')


def inst(x):
    """UTC day number and seconds of a time (naive means UTC)."""
    x = pd.Timestamp(x)
    if x.tz is not None:
        x = x.tz_convert('UTC').tz_localize(None)
    x = x.as_unit('ns')
    return {'d': int(x.value // (86400 * 10**9)), 's': num(x.value % (86400 * 10**9) / 1e9)}


def run(c):
    rng = c.rng
    u = rng.uniform
    tr = []
    warnings.simplefilter('ignore')
    grid = c.model('ZonesMC', CFG % ('2020, 2021' if not c.thorough else '2009, 2012, 2015, 2016, 2020, 2021, 2023, 2028, 2030, 2037'))
    days = {}
    for r in grid:
        days.setdefault(r['z'], []).append((r['d'], r['n']))

    def ev(**e):
        tr.append({'meta': {}, 'ev': [e]})

    def moment(zone):
        """an instant around a change of offset, a year end or leap day, or anywhere."""
        L = days[zone]
        ch = [d for d, n in L if n]
        k = rng.random()
        if ch and k < .5:
            d = rng.choice(ch) + rng.choice([-1, 0, 0, 0, 1])
        elif k < .8:
            d = rng.choice([d for d, n in L]) + rng.choice([0, 0, -1, 1])
        else:
            d = rng.randrange(14245 + 5, 24800)
        s = rng.choice([0, 1800, 3600, 5400, 7199, 7200, 9000, 50400, 53999, 54000, 55800, 57600, 68400, 82800, 86399, u(0, 86399)])
        return EPOCH + pd.Timedelta(days=d) + pd.Timedelta(microseconds=int(s * 10**6))

    def index(zone, n=None):
        n = n or rng.choice([1, 2, 3, 5])
        t = pd.DatetimeIndex([moment(zone) for _ in range(n)]).as_unit(rng.choice(['ns', 'us', 'ms', 's'])).tz_localize('UTC').tz_convert(zone)
        return t

    # extraterrestrial irradiance in every representation
    for _ in range(c.pick(320, 5000)):
        zone = rng.choice(ZONES)
        method = rng.choice(['spencer', 'asce', 'nrel', 'pyephem', 'Spencer', 'ASCE', 'NREL', 'none', 'spencer'])
        if method == 'none' and rng.random() < .8:
            method = None
        form = rng.choice(['index', 'index', 'naive_index', 'timestamp', 'naive_timestamp', 'datetime', 'naive_datetime', 'date', 'datetime64', 'int', 'float', 'npint', 'array', 'intarray', 'floatdoy', 'series', 'list_of_one', 'index_doy'])
        t = index(zone)
        epoch = rng.choice([None, 2012, 2016, 2021])
        x = t[0]
        doys = [rng.choice([1, 2, 59, 60, 61, 181, 365, 366]) for _ in range(rng.choice([1, 3, 5]))]
        shape = None
        if form == 'index':
            a, items, typ = t, [inst(v) for v in t], 'series'
        elif form == 'naive_index':
            a = t.tz_convert(None)
            items, typ = [inst(v) for v in a], 'series'
        elif form == 'timestamp':
            a, items, typ = x, [inst(x)], 'scalar'
        elif form == 'naive_timestamp':
            a = x.tz_convert(None)
            items, typ = [inst(a)], 'scalar'
        elif form == 'datetime':
            a, items, typ = x.to_pydatetime(warn=False), [inst(x.floor('us'))], 'scalar'
        elif form == 'naive_datetime':
            a = x.tz_convert(None).to_pydatetime(warn=False)
            items, typ = [inst(a)], 'scalar'
        elif form == 'date':
            a = x.date()
            items, typ = [inst(a)], 'scalar'
        elif form == 'datetime64':
            a = np.datetime64(x.tz_convert(None))
            items, typ = [inst(a)], 'scalar'
        else:
            if form in ('int', 'float', 'npint', 'floatdoy'):
                doys = doys[:1]
            if form == 'floatdoy':
                doys = [doys[0] + rng.choice([.25, .5, u(0, .999)])]
            a = {'int': lambda: int(doys[0]), 'float': lambda: float(doys[0]), 'floatdoy': lambda: doys[0], 'npint': lambda: np.int32(doys[0]), 'array': lambda: np.array(doys, float),
                 'intarray': lambda: np.array(doys), 'series': lambda: pd.Series(doys), 'list_of_one': lambda: np.array(doys[:1]), 'index_doy': lambda: pd.Index(doys)}[form]()
            if form == 'list_of_one':
                doys = doys[:1]
            items, typ = [{'doy': num(v)} for v in doys], 'scalar' if np.isscalar(a) else 'array'
            if form in ('series', 'index_doy'):
                typ = 'any'
        items = [{'doy': '', 'd': 0, 's': '0', **i} for i in items]
        kw = {}
        if method:
            kw['method'] = method
        if epoch:
            kw['epoch_year'] = epoch
        const = rng.choice([None, None, 1366.1, 1000., 1361, 0])
        if const is not None:
            kw['solar_constant'] = const
        dtv = '67'
        if method in ('nrel', 'NREL') and rng.random() < .4:
            kw['delta_t'] = rng.choice([None, 30.])
            dtv = 'None' if kw['delta_t'] is None else num(kw['delta_t'])
        st, o = outcome(irradiance.get_extra_radiation, a, **kw)
        e = {'kind': 'extra', 'form': form, 'method': method or 'spencer', 'epoch': epoch or 2014, 'constant': num(1366.1 if const is None else const), 'delta_t': dtv,
             'x': items, 'exc': '' if st == 'ok' else o, 'out': [], 'shape': True}
        if st == 'ok':
            e['out'] = nums(o)
            e['shape'] = bool({'series': lambda: isinstance(o, pd.Series) and o.index.equals(a), 'scalar': lambda: np.isscalar(o), 'array': lambda: isinstance(o, np.ndarray) and o.shape == (len(doys),), 'any': lambda: True}[typ]())
        ev(**e)
    # every time-like form around the midnights of both clocks: the day is UTC's
    for zone in rng.sample([z for z in ZONES if z != 'UTC'], c.pick(6, len(ZONES) - 1)):
        for form in ('index', 'timestamp', 'datetime'):
            for hour in (0.25, 23.5):
                for clock in (zone, 'UTC'):
                    d = rng.choice(['2021-03-01', '2021-06-15', '2020-12-31', '2021-01-01', '2021-09-30'])
                    t = (pd.DatetimeIndex([d]) + pd.Timedelta(hours=hour)).tz_localize(clock, ambiguous=True, nonexistent='shift_forward').tz_convert(zone)
                    a = {'index': lambda: t, 'timestamp': lambda: t[0], 'datetime': lambda: t[0].to_pydatetime(warn=False)}[form]()
                    for method in ('spencer', 'asce'):
                        st, o = outcome(irradiance.get_extra_radiation, a, method=method)
                        ev(kind='extra', form=form, method=method, epoch=2014, constant=num(1366.1), delta_t='67', x=[{'doy': '', **inst(t[0])}], exc='' if st == 'ok' else o,
                           out=nums(o) if st == 'ok' else [], shape=st == 'ok' and (isinstance(o, pd.Series) if form == 'index' else np.isscalar(o)))
    for bad in ('', 'spencr', 'ephem'):
        st, o = outcome(irradiance.get_extra_radiation, 100, method=bad)
        ev(kind='extra', form='int', method=bad, exc='' if st == 'ok' else o)

    # functions of the day of year
    for fn in ('equation_of_time_spencer71', 'equation_of_time_pvcdrom', 'declination_spencer71', 'declination_cooper69'):
        f = getattr(sp, fn)
        L = list(range(1, 367))
        for form in ('array', 'series', 'index', 'int', 'float'):
            for part in ([L[i:i + 61] for i in range(0, 366, 61)] if form in ('array', 'series', 'index') else [[rng.choice(L)] for _ in range(4)]):
                a = {'array': lambda: np.array(part), 'series': lambda: pd.Series(part, index=range(5, 5 + len(part))), 'index': lambda: pd.date_range('2020-01-01', periods=366)[part[0] - 1:part[-1]].dayofyear,
                     'int': lambda: part[0], 'float': lambda: float(part[0])}[form]()
                st, o = outcome(f, a)
                ev(kind='doy', fn=fn, form=form, doy=nums(part), exc='' if st == 'ok' else o, out=nums(o) if st == 'ok' else [],
                   shape=st == 'ok' and (form != 'series' or (isinstance(o, pd.Series) and o.index.equals(a.index))) and (form not in ('int', 'float') or np.ndim(o) == 0))

    # the same times written differently
    for _ in range(c.pick(60, 800)):
        zone = rng.choice(ZONES)
        t = index(zone, rng.choice([1, 2, 4]))
        n = len(t)
        z = np.array([u(10, 85) for _ in range(n)])
        ghi = np.array([u(50, 1000) for _ in range(n)])
        forms_ = [t, t.tz_convert('UTC'), t.tz_convert(rng.choice(ZONES)), t.tz_convert(None), t.tz_convert('UTC').dayofyear.values]
        fn, f = rng.choice([('erbs', lambda w: irradiance.erbs(ghi, z, w)['dni']), ('erbs_driesse', lambda w: irradiance.erbs_driesse(ghi, z, w)['dni']), ('boland', lambda w: irradiance.boland(ghi, z, w)['dni']),
                            ('orgill_hollands', lambda w: irradiance.orgill_hollands(ghi, z, w)['dni']), ('disc', lambda w: irradiance.disc(ghi, z, w)['dni']), ('louche', lambda w: irradiance.louche(ghi, z, w)['dni']),
                            ('get_extra_radiation', lambda w: irradiance.get_extra_radiation(w))])
        st, o = outcome(lambda: [nums(f(w)) for w in forms_])
        ev(kind='reps', fn=fn, outs=o if st == 'ok' else [], exc='' if st == 'ok' else o)

    # Dublin Julian days
    for _ in range(c.pick(80, 800)):
        zone = rng.choice(ZONES)
        x = moment(zone).tz_localize('UTC')
        y = x.to_pydatetime(warn=False)
        z2 = rng.choice(ZONES)
        a = rng.choice([y, y.astimezone(zoneinfo.ZoneInfo(z2)), y.replace(tzinfo=None)])
        j = tools.datetime_to_djd(a)
        b = tools.djd_to_datetime(j, zone) if rng.random() < .8 or zone != 'UTC' else tools.djd_to_datetime(j)
        # zone rules may differ in the microsecond lost in the conversion: compare to the reported instant
        ev(kind='djd', t=inst(b) if abs((b - y).total_seconds()) < 1e-3 else inst(y), djd=num(j), back=inst(b), zone=zone, wall=inst(b.replace(tzinfo=None)))

    # localization
    for _ in range(c.pick(100, 1000)):
        zone = rng.choice(ZONES)
        loc = location.Location(0, 0, tz=zone)
        t = index(zone, rng.choice([1, 3]))
        aware = rng.random() < .4
        wall = t.tz_localize(None)
        if not aware:   # skip folds in the naive form (refused by pandas)
            z = zoneinfo.ZoneInfo(zone)
            keep = [w.to_pydatetime(warn=False).replace(tzinfo=z).utcoffset() == w.to_pydatetime(warn=False).replace(tzinfo=z, fold=1).utcoffset() for w in wall]
            wall = wall[keep]
            if not len(wall):
                continue
        else:
            t = t.tz_convert(rng.choice(ZONES))
        form = rng.choice(['datetime', 'timestamp', 'index', 'series', 'frame'])
        src = t if aware else wall
        a = {'datetime': lambda: src[0].to_pydatetime(warn=False), 'timestamp': lambda: src[0], 'index': lambda: src, 'series': lambda: pd.Series(np.arange(len(src), dtype=float), index=src),
             'frame': lambda: pd.DataFrame({'a': np.arange(len(src), dtype=float)}, index=src)}[form]()
        st, o = outcome(tools.localize_to_utc, a, loc if not aware or rng.random() < .7 else None)
        e = {'kind': 'utc', 'zone': zone, 'aware': aware, 'exc': '' if st == 'ok' else o, 't': [inst(v) for v in (src if form not in ('datetime', 'timestamp') else src[:1])], 'kept': True, 'out': []}
        if st == 'ok':
            oi = [o] if form in ('datetime', 'timestamp') else list(o if form == 'index' else o.index)
            e['out'] = [inst(v) for v in oi]
            e['kept'] = all(v.utcoffset() == dt.timedelta(0) for v in oi) and (form not in ('series', 'frame') or nums(o.values) == nums(a.values))
        ev(**e)

    # hour angle and its inverses on and around days with a change of offset
    for _ in range(c.pick(250, 4000)):
        zone = rng.choice(DST * 2 + FIXED)
        lon = LON.get(zone, u(-180, 180)) + u(-2, 2)
        t = index(zone)
        n = len(t)
        eot = np.array([u(-17, 17) for _ in t])
        k = rng.random()
        if k < .2:
            eot = float(eot[0])
        elif k < .4:
            eot = pd.Series(eot, index=t)
        elif k < .6:
            eot = sp.equation_of_time_pvcdrom(t.dayofyear)
        st, ha = outcome(sp.hour_angle, t, lon, eot)
        e = {'kind': 'hour', 'zone': zone, 'lon': num(lon), 'n': n, 'exc': '' if st == 'ok' else ha, 'rows': []}
        if st == 'ok':
            hours = back = None
            if hasattr(sp, '_hour_angle_to_hours') and hasattr(sp, '_local_times_from_hours_since_midnight'):
                st2, hours = outcome(sp._hour_angle_to_hours, t, np.asarray(ha), lon, np.asarray(eot))
                if st2 == 'ok':
                    st2, back = outcome(sp._local_times_from_hours_since_midnight, t, hours)
                if st2 != 'ok':
                    e['exc'] = str(hours if back is None else back)
            hv = nums(ha)
            ez = nums(np.broadcast_to(np.asarray(eot, float), n))
            if not e['exc']:
                for i, x in enumerate(t):
                    e['rows'].append({**inst(x), 'eot': ez[i], 'ha': hv[i] if len(hv) == n else 'NaN', 'hours': 'skip' if hours is None else nums(hours)[i], 'back': {'d': 0, 's': 'skip'} if back is None else inst(back[i])})
        ev(**e)
    c.validate('CalendarObs', tr)


main(run)
