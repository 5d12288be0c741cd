import numpy as np
import pandas as pd
from vh import *
from pvlib import scaling

CFG = '''CONSTANT N = %d
INIT Init
NEXT Next
INVARIANTS ModesSum FactorRange PointPlant Monotone ConstantKept Affine ScaleRange GeoOK Emit
'''


def run(c):
    recs = c.model('ScalingMC', CFG % c.pick(3, 5))
    rng = c.rng
    tr = []

    def wvm(x, pos, speed, dt):
        n = len(x)
        form = rng.choice(['array', 'time', 'number', 'tz', 'int'])
        if form == 'int' and any(v != int(v) for v in x):
            form = 'array'
        if n == 1 and form != 'int':
            form = 'array'
        kw = {}
        if form in ('array', 'int'):
            s = np.array(x, dtype=int if form == 'int' else float)
            kw['dt'] = rng.choice([float(dt), int(dt) if dt == int(dt) else dt])
        elif form == 'number':
            i0 = rng.choice([0, 0, 100])
            s = pd.Series(x, index=[i0 + k * dt for k in range(n)], dtype=float)
        else:
            us = round(dt * 1e6)
            i = pd.DatetimeIndex([pd.Timestamp('2019-12-31 23:59:30') + pd.Timedelta(us * k, unit='us') for k in range(n)])
            s = pd.Series(x, index=i.tz_localize(rng.choice(['UTC', 'Etc/GMT+5'])) if form == 'tz' else i, dtype=float)
        pf = rng.choice(['list', 'array', 'tuples'])
        ps = np.array(pos, dtype=float) if pf == 'array' else [tuple(q) for q in pos] if pf == 'tuples' else [list(q) for q in pos]
        b4, p4 = s.copy(), np.array(ps)
        st, r = outcome(scaling.wvm, s, ps, speed, **kw)
        e = {'fn': 'wvm', 'x': nums(x), 'pos': [nums(q) for q in pos], 'speed': num(speed), 'dt': num(dt), 'form': form,
             'exc': '' if st == 'ok' else r, 'y': [], 'wav': [], 'tm': [], 'typed': True, 'kept': True}
        if st == 'ok':
            y, w, tm = r
            e.update(y=nums(y), wav=[nums(q) for q in w], tm=nums(tm))
            e['typed'] = (isinstance(y, pd.Series) and y.index.equals(s.index)) if isinstance(s, pd.Series) else isinstance(y, np.ndarray)
            e['kept'] = bool((b4.equals(s) if isinstance(s, pd.Series) else np.array_equal(b4, s)) and np.array_equal(p4, np.array(ps)))
        tr.append({'meta': {}, 'ev': [e]})

    for i, r in enumerate(recs):
        if (i + c.seed) % 4 == 0 or c.thorough:
            wvm([fl(v) for v in r['x']], [[fl(v) for v in q] for q in r['pos']], fl(r['speed']), fl(r['dt']))
    for _ in range(c.pick(250, 3000)):
        n = rng.choice([1, 2, 3, 4, 5, 8, 13, 30, rng.randint(2, 60)])
        dt = rng.choice([.01, .1, .25, .5, 1, 1, 2, 3, 5, 10, 30, 60, 60, 300, 600, 900, 1000, 1800, 2049, 3600, 4096, 4097, 8192, 7200, 86400, 90000, 129600])
        if dt < .1 and n > 10:
            n = 10
        x = [rng.choice([0., 1., rng.uniform(0, 1.4)]) for _ in range(n)]
        m = rng.choice([1, 1, 2, 2, 3, 5, 9, 16])
        size = rng.choice([0, 10, 300, 5000, 1e5])
        pos = [[rng.uniform(-size, size), rng.uniform(-size, size)] for _ in range(m)]
        wvm(x, pos, rng.choice([.5, 3, 10, 25, rng.uniform(.1, 40)]), dt)
    for _ in range(c.pick(60, 600)):
        m = rng.choice([1, 1, 2, 3, 7])
        la, lo = rng.uniform(-89, 89), rng.uniform(-180, 180)
        d = rng.choice([.001, .01, .1, 1])
        co = [[la + rng.uniform(-d, d), lo + rng.uniform(-d, d)] for _ in range(m)]
        form = rng.choice(['array', 'list', 'tuples'] + ['single', 'singletuple'] * (m == 1))
        a = {'array': np.array(co), 'list': co, 'tuples': [tuple(q) for q in co], 'single': np.array(co[0]), 'singletuple': tuple(co[0])}[form]
        st, r = outcome(scaling.latlon_to_xy, a)
        tr.append({'meta': {}, 'ev': [{'fn': 'xy', 'c': [nums(q) for q in co], 'exc': '' if st == 'ok' else r,
                   'xy': [nums(q) for q in np.asarray(r).reshape(-1, 2)] if st == 'ok' else [], 'form': form}]})
    c.validate('Scaling', tr)


main(run)
