import numpy as np
import pandas as pd
from vh import *
from pvlib import soiling

CFG = '''CONSTANT N = %d
INIT Init
NEXT Next
INVARIANTS Bounded WashCleans GraceHolds HsuClean Emit
PROPERTIES Monotone
'''
KDEF = dict(cleaning_threshold=6, soiling_loss_rate=.0015, grace_period=14, max_soiling=.3, initial_soiling=0, rain_accum_period=24)


def run(c):
    recs = c.model('SoilingMC', CFG % c.pick(5, 6))
    rng = c.rng
    tr = []

    def secs(idx):
        v = idx.tz_convert('UTC').tz_localize(None) if idx.tz else idx
        return (v.values - v.values[0]) / np.timedelta64(1, 's')

    def other(what, ok, **x):
        tr.append({'meta': {'kind': 'other'}, 'ev': [dict(x, what=what, ok=bool(ok))]})

    def kimber(rain, idx, kw, wash=(), ints=False):
        s = pd.Series(rain, index=idx, dtype=float)
        if ints:
            s = s.astype(int)
        b = s.copy()
        a = dict(kw)
        if wash:
            a['manual_wash_dates'] = list(wash)
        st, r = outcome(soiling.kimber, s, **a)
        if st != 'ok':
            return other('kimber.raised-' + r, False, kw=str(a)[:300])
        m = dict(KDEF, **kw)
        t = secs(idx)
        same = s.equals(b) and r.index.equals(idx)
        w = {pd.Timestamp(d) for d in wash}
        naive = idx.tz_localize(None) if idx.tz else idx
        tr.append({'meta': {'kind': 'kimber', 'period': num(m['rain_accum_period'] * 3600), 'threshold': num(m['cleaning_threshold']),
                            'grace': num(m['grace_period'] * 86400), 'initial': num(m['initial_soiling']), 'rate': num(m['soiling_loss_rate']),
                            'max': num(m['max_soiling']), 'step': num(t[1] - t[0])},
                   'ev': [{'t': num(t[i]), 'rain': num(s.iloc[i]), 'wash': bool(naive[i] in w), 'out': num(r.iloc[i]), 'idx': bool(same)} for i in range(len(idx))]})
        return r

    def hsu(rain, idx, thr, tilt, p2, p10, kw, form='scalar'):
        s = pd.Series(rain, index=idx, dtype=float)
        b = s.copy()
        n = len(idx)
        F = {'scalar': lambda x: x[0], 'array': lambda x: np.array(x), 'series': lambda x: pd.Series(x, index=idx)}[form]
        if form == 'scalar':
            tilt, p2, p10 = ([x[0]] * n for x in (tilt, p2, p10))
        dv = kw.get('depo_veloc')
        dv0 = dict(dv) if dv else None
        st, r = outcome(soiling.hsu, s, thr, F(tilt), F(p2), F(p10), **kw)
        if st != 'ok':
            return other('hsu.raised-' + r, False, form=form)
        per = pd.Timedelta(kw.get('rain_accum_period', pd.Timedelta('1h'))).total_seconds()
        t = secs(idx)
        dt = np.diff(t)
        dt = np.concatenate([dt[:1], dt])
        same = s.equals(b) and r.index.equals(idx) and dv == dv0
        d = dv or {'2_5': .0009, '10': .004}
        tr.append({'meta': {'kind': 'hsu', 'period': num(per), 'threshold': num(thr), 'depo2': num(d['2_5']), 'depo10': num(d['10'])},
                   'ev': [{'t': num(t[i]), 'rain': num(s.iloc[i]), 'pm2_5': num(p2[i]), 'pm10': num(p10[i]), 'tilt': num(tilt[i]), 'seconds': num(dt[i]),
                           'out': num(r.iloc[i]), 'idx': bool(same)} for i in range(n)]})
        return r

    def index(n, minutes, midnight=False):
        start = rng.choice(['2020-02-27', '2021-03-26', '2019-12-30', '2021-10-29'])
        if not midnight:
            start += rng.choice([' 00:00', ' 05:30'])
        tz = rng.choice([None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata', 'Europe/Berlin'])
        return pd.date_range(start, periods=n, freq=pd.Timedelta(minutes=minutes), tz=tz)

    for i, r in enumerate(recs):
        if not c.thorough and (i + c.seed) % 6:
            continue
        rain = [fl(x[0]) for x in r['h']]
        n = len(rain)
        idx = pd.date_range('2021-01-30', periods=n, freq='12h', tz=[None, 'UTC', 'Asia/Tokyo'][i % 3])
        w = sorted({idx[j].date() for j in range(0, n, 2) if r['h'][j][1]})
        kimber(rain, idx, dict(cleaning_threshold=5, grace_period=2, initial_soiling=.01, soiling_loss_rate=.02, max_soiling=.03), w)
        hsu(rain, idx, 5, [20.], [1e-4], [3e-4], dict(rain_accum_period=pd.Timedelta('1D')))
    for it in range(c.pick(150, 1500)):
        mins = rng.choice([60, 60, 30, 15, 180, 360, 720, 1440])
        n = rng.randint(3, 60)
        long = it % 25 == 3       # years of daily data: soiling would pass the cap many times over
        if long:
            mins, n = 1440, rng.randint(250, 500)
        idx = index(n, mins, midnight=True)
        rain = [rng.choice([0., 0., 0., 0., float(rng.randint(1, 40)) / 4]) if not long or rng.random() < .02 else 0. for _ in range(n)]
        if rng.random() < .1:
            rain[rng.randrange(n)] = float('nan')
        kw = {}
        for a, f in (('cleaning_threshold', lambda: rng.choice([1, 2.5, 6, 10.1])), ('soiling_loss_rate', lambda: rng.uniform(0, .05)),
                     ('grace_period', lambda: rng.choice([1, 2, 3, 14])), ('max_soiling', lambda: rng.choice([rng.uniform(.01, .3), rng.uniform(.001, .02)])),
                     ('initial_soiling', lambda: rng.choice([0., rng.uniform(0, .1), .5])), ('rain_accum_period', lambda: rng.choice([1, 6, 24, 48]))):
            if rng.random() < .7:
                kw[a] = f()
        naive = idx.tz_localize(None) if idx.tz else idx
        mid = [x.date() for x in naive if x == x.normalize()]
        wash = sorted(set(rng.sample(mid, min(len(mid), rng.randint(0, 2))))) if mid else []
        ints = not any(np.isnan(rain)) and rng.random() < .2
        if ints:
            rain = [float(round(x)) for x in rain]
        kimber(rain, idx, kw, wash, ints)
        # later rain never changes earlier soiling
        cut = rng.randint(2, n)
        s1 = pd.Series(rain, index=idx)
        s2 = s1.copy()
        s2.iloc[cut:] = 50.
        a, b = soiling.kimber(s1, **kw), soiling.kimber(s2, **kw)
        other('kimber.causal', np.allclose(a[:cut], b[:cut], equal_nan=True))
        if rng.random() < .3:
            d = np.cumsum([0] + [rng.choice([10, 30, 60, 240]) for _ in range(n - 1)])
            idx = pd.DatetimeIndex(pd.Timestamp('2020-01-01') + pd.to_timedelta(d, unit='min'))
        p2 = [rng.uniform(0, 3e-4) for _ in range(n)]
        p10 = [rng.choice([x * rng.uniform(1, 4), x * .5]) for x in p2]
        kw = {}
        if rng.random() < .4:
            kw['depo_veloc'] = {'2_5': rng.uniform(.0005, .005), '10': rng.uniform(.001, .01)}
        if rng.random() < .7:
            kw['rain_accum_period'] = rng.choice([pd.Timedelta('1h'), pd.Timedelta('6h'), pd.Timedelta('24h'), '3h'])
        form = rng.choice(['scalar', 'array', 'series'])
        thr = rng.choice([.5, 2.5, 7.])
        tilt = [rng.uniform(0, 80) for _ in range(n)]
        hsu(rain, idx, thr, tilt, p2, p10, kw, form)
        s1 = pd.Series(rain, index=idx)
        s2 = s1.copy()
        s2.iloc[cut:] = 50.
        a, b = (soiling.hsu(s, thr, 20., 1e-4, 2e-4, **kw) for s in (s1, s2))
        other('hsu.causal', np.allclose(a[:cut], b[:cut], equal_nan=True))
    c.validate('Soiling', tr)


main(run)
