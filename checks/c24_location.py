import copy
import datetime as dt
import pickle
import warnings
import zoneinfo
import pytz
from vh import *
import numpy as np
import pandas as pd
from pvlib import tools
from pvlib.location import Location

CFG = '''INIT Init
NEXT Next
CONSTANT Depth_ = %d
INVARIANTS TypeOk Hours Distinct Emit
PROPERTY Refused
'''
NAMES = ['UTC', 'Etc/GMT+12', 'Etc/GMT+7', 'Etc/GMT-14', 'Asia/Kolkata', 'Asia/Kathmandu', 'America/Phoenix', 'America/New_York', 'Europe/Berlin', 'Pacific/Auckland', 'Australia/Lord_Howe', 'MST', 'EST', 'US/Arizona', 'GMT', 'Etc/GMT']
BAD = ['Mars/Base', '', 'Etc/GMT+13', 'Etc/GMT-15', 'UTC+5', '../UTC', '+5', '5', 'None']


def value(v):
    f, s, n = v['form'], v['s'], v['n']
    return {'str': lambda: s, 'int': lambda: n, 'float': lambda: float(n), 'npfloat': lambda: np.float64(n), 'fraction': lambda: fl(s), 'zoneinfo': lambda: zoneinfo.ZoneInfo(s), 'pytz': lambda: pytz.timezone(s),
            'utc': lambda: dt.timezone.utc, 'timezone': lambda: dt.timezone(dt.timedelta(hours=n)), 'half': lambda: dt.timezone(dt.timedelta(minutes=n)), 'none': lambda: None, 'list': lambda: [5],
            'bytes': lambda: b'UTC', 'dict': lambda: {'tz': 'UTC'}, 'complex': lambda: 5 + 0j}[f]()


def fields(loc):
    return {k: (num(getattr(loc, k)) if isinstance(getattr(loc, k), (int, float, np.number)) else repr(getattr(loc, k))) for k in ('latitude', 'longitude', 'altitude', 'name')}


def walls(loc, rng):
    out = []
    for _ in range(2):
        w = dt.datetime(rng.randint(2010, 2036), rng.randint(1, 12), rng.randint(1, 28), rng.randint(5, 23), rng.randrange(60))
        if rng.random() < .5:
            x = tools.localize_to_utc(w, loc)
        else:
            x = tools.localize_to_utc(pd.DatetimeIndex([w]), loc)[0].to_pydatetime()
        d = (x.replace(tzinfo=None) - dt.datetime(1970, 1, 1))
        out.append({'d': d.days, 's': num(d.seconds), 'min': round((w - x.replace(tzinfo=None)).total_seconds() / 60)})
    return out


def view(loc, rng):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        st, p = outcome(lambda: str(loc.pytz))
    e = {'tz': str(loc.tz), 'isstr': type(loc.tz) is str, 'pytz': p if st == 'ok' else 'raised ' + p, 'repr': ('tz: %s' % loc.tz) in repr(loc), 'wall': [], 'at': fields(loc)}
    st, w = outcome(walls, loc, rng)
    e['wall'] = w if st == 'ok' else [{'d': 18000, 's': '0', 'min': 7777}]
    return e


def run(c):
    rng = c.rng
    tr = []
    grid = c.model('LocTzMC', CFG % (3 if c.thorough else 2))
    seen, hists = set(), []
    for h in grid:
        k = json.dumps(h, sort_keys=True)
        if k not in seen:
            seen.add(k)
            hists.append(h)

    def val():
        k = rng.random()
        if k < .35:
            return {'form': rng.choice(['str', 'zoneinfo', 'pytz']), 's': rng.choice(NAMES), 'n': 0}
        if k < .5:
            return {'form': 'str', 's': rng.choice(BAD), 'n': 0}
        if k < .8:
            return {'form': rng.choice(['int', 'float', 'npfloat']), 's': '', 'n': rng.randint(-16, 18)}
        return rng.choice([{'form': 'fraction', 's': num(rng.choice([5.5, -.25, 1e-9, float('nan'), float('inf')])), 'n': 0}, {'form': 'utc', 's': '', 'n': 0}, {'form': 'timezone', 's': '', 'n': rng.randint(-12, 14)},
                           {'form': 'half', 's': '', 'n': 345}, {'form': 'none', 's': '', 'n': 0}, {'form': 'dict', 's': '', 'n': 0}, {'form': 'complex', 's': '', 'n': 0}])

    def history(vs, first=None):
        ev = []
        lat, lon = rng.choice([-33.3, 10., 52, 0]), rng.choice([-70., 12.5, 151, 0])
        alt = rng.choice([0, 0., 123.4, -5, 2500])
        name = rng.choice(['Site', '', None])
        given = {'latitude': num(lat), 'longitude': num(lon), 'altitude': num(alt), 'name': repr(name)}
        v0 = first or rng.choice([None, {'form': 'str', 's': 'UTC', 'n': 0}, {'form': 'int', 's': '', 'n': -7}, {'form': 'str', 's': 'America/New_York', 'n': 0}])
        kw = {} if v0 is None else {'tz': value(v0)}
        st, loc = outcome(Location, lat, lon, altitude=alt, name=name, **kw)
        e = {'op': 'new', 'v': v0 or {'form': 'str', 's': 'UTC', 'n': 0}, 'exc': '' if st == 'ok' else loc, 'given': given}
        if st == 'ok':
            e.update(view(loc, rng))
        ev.append(e)
        if st != 'ok':
            return ev
        for v in vs:
            try:
                loc.tz = value(v)
                x = ''
            except Exception as ex:
                x = type(ex).__name__
            ev.append({'op': 'set', 'v': v, 'exc': x, **view(loc, rng)})
            k = rng.random()
            if k < .1:
                for twin in (copy.copy(loc), copy.deepcopy(loc), pickle.loads(pickle.dumps(loc)), Location(1, 2, 'Asia/Tokyo', 3)):
                    try:
                        twin.tz = -3
                        twin.altitude = 77.
                    except Exception:
                        pass
                ev.append({'op': 'other', **view(loc, rng)})
            elif k < .15:
                ev.append({'op': 'other', **view(copy.deepcopy(loc), rng)})
            elif k < .25:
                try:
                    loc.pytz = pytz.timezone('Asia/Tokyo')
                    x = ''
                except AttributeError as ex:
                    x = 'AttributeError'
                ev.append({'op': 'readonly', 'exc': x, **view(loc, rng)})
        return ev
    for h in hists:
        if c.thorough and rng.random() > .3:
            continue
        tr.append({'meta': {}, 'ev': history(h)})
    for _ in range(c.pick(150, 3000)):
        tr.append({'meta': {}, 'ev': history([val() for _ in range(rng.randint(1, 8))], first=val())})

    # from reader metadata
    for _ in range(c.pick(40, 300)):
        lat, lon, alt, tz = rng.uniform(-60, 60), rng.uniform(-180, 180), rng.choice([0, 0., 100.]), rng.choice([-7, 0, 5., 'Asia/Kolkata', 14])
        v = {'form': 'str', 's': tz, 'n': 0} if isinstance(tz, str) else {'form': 'int', 's': '', 'n': int(tz)}
        data = rng.choice([None, pd.DataFrame({'ghi': [1.]})])
        k = rng.choice(['tmy3', 'tmy2', 'epw'])
        md = {'latitude': lat, 'longitude': lon, 'altitude': alt, 'TZ': tz, 'State': 'XX'}
        md.update({'tmy3': {'Name': 'Here'}, 'tmy2': {'City': 'Here'}, 'epw': {'city': 'Here'}}[k])
        f = Location.from_epw if k == 'epw' else Location.from_tmy
        mdc = copy.deepcopy(md)
        st, loc = outcome(lambda: f(md) if data is None else f(md, data))
        e = {'op': 'from', 'v': v, 'exc': '' if st == 'ok' else loc, 'given': {'latitude': num(lat), 'longitude': num(lon), 'altitude': num(alt), 'name': repr('Here')}}
        if st == 'ok':
            e['data'] = md == mdc and (not hasattr(loc, 'weather') if data is None else loc.weather.equals(data)) and (k == 'epw' or (not hasattr(loc, 'tmy_data') if data is None else loc.tmy_data.equals(data)))
            e.update(view(loc, rng))
        tr.append({'meta': {}, 'ev': [e]})
    c.validate('LocTzObs', tr)


main(run)
