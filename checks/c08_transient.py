import numpy as np
import pandas as pd
from vh import *
from pvlib import temperature as T

CFG = '''CONSTANT N = %d
INIT Init
NEXT Next
INVARIANTS Finite Averages Steady Emit
'''
DEF = dict(module_height=5., wind_height=9.144, emissivity=.84, absorption=.83, surface_tilt=30., module_width=.31579, module_length=1.2)


def run(c):
    recs = c.model('TransientMC', CFG % c.pick(4, 6))
    rng = c.rng
    tr = []

    def index(n, minutes=None, irregular=False):
        start = rng.choice(['2020-02-28 22:00', '2021-03-28 00:30', '2021-10-31 01:15', '2019-12-31 20:00', '2021-06-01'])
        tz = rng.choice([None, 'UTC', 'Europe/Berlin', 'Etc/GMT+7', 'America/New_York'])
        if irregular:
            d = np.cumsum([0] + [rng.choice([1, 5, 15, 60, 180]) for _ in range(n - 1)])
            t = pd.Timestamp(start) + pd.to_timedelta(d, unit='min')
            return pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(tz) if tz else pd.DatetimeIndex(t)
        return pd.date_range(start, periods=n, freq=pd.Timedelta(minutes=minutes), tz=tz)

    def fuentes(rows, idx, noct, kw, perm=False, named=None):
        g, ta, w = (pd.Series(x, index=idx, dtype=float) for x in rows)
        before = [x.copy() for x in (g, ta, w)]
        st, r = outcome(T.fuentes, g, ta, w, noct, **kw)
        k = dict(DEF, **kw)
        meta = {'kind': 'fuentes', 'noct': num(noct), 'absorption': num(k['absorption']), 'emissivity': num(k['emissivity']),
                'tilt': num(k['surface_tilt']), 'width': num(k['module_width']), 'length': num(k['module_length']),
                'module_height': num(k['module_height']), 'wind_height': num(k['wind_height'])}
        if st != 'ok':
            tr.append({'meta': {'kind': 'other'}, 'ev': [{'fn': 'fuentes', 'want': 'value', 'exc': r, 'what': '', 'ok': True}]})
            return
        hrs = np.diff(idx.tz_convert('UTC').values if idx.tz else idx.values) / np.timedelta64(1, 'h')
        hrs = np.concatenate([hrs[:1], hrs])
        ok = r.index.equals(idx) and all(a.equals(b) for a, b in zip(before, (g, ta, w))) and len(r) == len(idx)
        tr.append({'meta': meta, 'ev': [{'poa': num(a), 'temp_air': num(b), 'wind': num(d), 'hours': num(h), 'out': num(o), 'idx': bool(ok)}
                                        for a, b, d, h, o in zip(g, ta, w, hrs, r)]})

    def prilliman(temp, wind, idx, minutes, kw):
        t, w = pd.Series(temp, index=idx, dtype=float), pd.Series(wind, index=idx, dtype=float)
        b = (t.copy(), w.copy())
        st, r = outcome(T.prilliman, t, w, **kw)
        if st != 'ok':
            tr.append({'meta': {'kind': 'other'}, 'ev': [{'fn': 'prilliman', 'want': 'value', 'exc': r, 'what': '', 'ok': True}]})
            return
        ok = r.index.equals(idx) and t.equals(b[0]) and w.equals(b[1])
        tr.append({'meta': {'kind': 'prilliman', 'unit_mass': num(kw.get('unit_mass', 11.1)), 'minutes': num(minutes),
                            'c': nums(kw.get('coefficients', [0.0046, 0.00046, -0.00023, -1.6e-5])),
                            'window': int(20 / minutes) if minutes < 20 else 1},
                   'ev': [{'temp': num(a), 'wind': num(x), 'out': num(o), 'idx': bool(ok)} for a, x, o in zip(t, w, r)]})

    for i, r in enumerate(recs):
        h = [[fl(x) for x in row] for row in r['h']]
        rows = list(zip(*h))
        idx = index(len(h), rng.choice([1, 5, 15, 60]))
        if i % 3 == 0:
            fuentes(rows, idx, 45., {})
        else:
            prilliman(rows[1], rows[2], index(len(h), 5), 5, {})
    for _ in range(c.pick(60, 600)):
        n = rng.randint(2, 20)
        idx = index(n, rng.choice([1, 5, 10, 15, 30, 60, 1440]), rng.random() < .4)
        rows = [[rng.choice([0., rng.uniform(0, 1300)]) for _ in range(n)], [rng.uniform(-30, 50) for _ in range(n)],
                [rng.choice([0., rng.uniform(0, 20)]) for _ in range(n)]]
        if rng.random() < .2:
            rows[rng.randrange(3)][rng.randrange(n)] = float('nan')
        kw = {}
        for a, lo, hi in (('module_height', 1, 10), ('wind_height', 2, 12), ('emissivity', .7, .95), ('absorption', .7, .95),
                          ('surface_tilt', 0, 60), ('module_width', .2, 1.2), ('module_length', .5, 2)):
            if rng.random() < .4:
                kw[a] = rng.uniform(lo, hi)
        fuentes(rows, idx, rng.choice([45., 48., 48.01, 49., rng.uniform(42, 60)]), kw)
    for _ in range(c.pick(150, 1500)):
        n = rng.randint(2, 50)
        m = rng.choice([1, 2, 3, 5, 6, 7, 10, 15, 19, 20, 30, 60, 1440, .5])
        idx = index(max(n, 4), m)
        n = len(idx)
        t = [rng.uniform(-10, 70) for _ in range(n)]
        w = [rng.choice([0., rng.uniform(0, 15)]) for _ in range(n)]
        if rng.random() < .4:
            for _ in range(rng.randint(1, 3)):
                t[rng.randrange(n)] = float('nan')
        if rng.random() < .3:
            w[rng.randrange(n)] = float('nan')
        if rng.random() < .2:
            a = rng.randrange(n)
            for j in range(a, min(n, a + 25)):
                t[j] = float('nan')
        kw = {}
        if rng.random() < .4:
            kw['unit_mass'] = rng.uniform(6, 20)
        if rng.random() < .3:
            kw['coefficients'] = [rng.uniform(.004, .006), rng.uniform(.0002, .0006), -.0002, -1e-5]
        prilliman(t, w, idx, m, kw)
    # constant input stays constant; irregular sampling is refused
    for m in (1, 5, 10):
        idx = index(30, m)
        x = pd.Series(33., index=idx)
        st, r = outcome(T.prilliman, x, x * 0 + 3)
        tr.append({'meta': {'kind': 'other'}, 'ev': [{'fn': 'prilliman', 'want': 'value', 'exc': '' if st == 'ok' else r, 'what': 'constant',
                   'ok': st == 'ok' and bool(np.allclose(r, 33., rtol=1e-9))}]})
    idx = index(12, irregular=True)
    idx = idx[:5].append(idx[7:])
    idx = pd.DatetimeIndex(['2020-01-01 00:00', '2020-01-01 00:05', '2020-01-01 00:11', '2020-01-01 00:15'])
    st, r = outcome(T.prilliman, pd.Series(1., index=idx), pd.Series(1., index=idx))
    tr.append({'meta': {'kind': 'other'}, 'ev': [{'fn': 'prilliman', 'want': 'raise', 'exc': '' if st == 'ok' else r, 'what': '', 'ok': True}]})
    # later data never changes earlier output
    for _ in range(c.pick(10, 60)):
        n = 16
        idx = index(n, 5)
        a = [[rng.uniform(0, 1000) for _ in range(n)], [rng.uniform(0, 30) for _ in range(n)], [rng.uniform(0, 9) for _ in range(n)]]
        cut = rng.randint(2, n - 1)
        b = [x[:cut] + [rng.uniform(0, 50) for _ in range(n - cut)] for x in a]
        S = lambda x: pd.Series(x, index=idx)
        for fn, f in (('fuentes', lambda z: T.fuentes(S(z[0]), S(z[1]), S(z[2]), 46.)), ('prilliman', lambda z: T.prilliman(S(z[1]), S(z[2])))):
            x, y = f(a), f(b)
            tr.append({'meta': {'kind': 'other'}, 'ev': [{'fn': fn, 'want': 'value', 'exc': '', 'what': 'causal',
                       'ok': bool(np.allclose(x[:cut], y[:cut], rtol=1e-9, atol=1e-9, equal_nan=True))}]})
            z = f([q[:cut] for q in a]) if False else None
    c.validate('Transient', tr)


main(run)
