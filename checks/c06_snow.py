import numpy as np
import pandas as pd
from vh import *
from pvlib import snow

CFG = '''CONSTANT N = %d
INIT Init
NEXT Next
INVARIANTS InRange BareGround Emit
PROPERTIES RiseOnlyBySnow StaysWhenCold
'''


def run(c):
    recs = c.model('SnowMC', CFG % c.pick(4, 5))
    rng = c.rng
    tr = []
    S = lambda x, i: pd.Series(list(x), index=i, dtype=float)

    def replay(rows, idx, tilt, depth=True, m=None, regular=True, tiltform='scalar'):
        n = len(idx)
        sn, poa, ta, dp = rows
        m = m or {}
        kw = {}
        if depth:
            kw['snow_depth'] = S(dp, idx)
        for a, b in (('initial', 'initial_coverage'), ('threshold_snowfall',) * 2, ('threshold_depth',) * 2,
                     ('can_slide', 'can_slide_coefficient'), ('slide', 'slide_amount_coefficient')):
            if a in m:
                kw[b] = m[a]
        args = [S(sn, idx), S(poa, idx), S(ta, idx)]
        b4 = [x.copy() for x in args]
        tl = tilt[0] if tiltform == 'scalar' else S(tilt, idx) if tiltform == 'series' else np.array(tilt)
        st, r = outcome(snow.coverage_nrel, *args, tl, **kw)
        fk = {a: kw[a] for a in ('snow_depth', 'threshold_snowfall', 'threshold_depth') if a in kw}
        st2, cv = outcome(snow.fully_covered_nrel, S(sn, idx), **fk)
        if st != 'ok' or st2 != 'ok':
            tr.append({'meta': {'kind': 'other'}, 'ev': [{'what': 'coverage.raised-%s-%s' % (r if st != 'ok' else '', cv if st2 != 'ok' else ''), 'ok': False,
                       'freq': str(idx.freq)}]})
            return
        same = all(a.equals(b) for a, b in zip(args, b4)) and r.index.equals(idx) and cv.index.equals(idx)
        hrs = np.diff(idx.tz_convert('UTC').values if idx.tz else idx.values) / np.timedelta64(1, 'h')
        hrs = np.concatenate([hrs[:1], hrs])
        loss = {k: snow.dc_loss_nrel(r, k) for k in (1, 3, 8)}
        # scalar and array forms of the loss
        for k in (3,):
            ok = np.allclose(snow.dc_loss_nrel(r.values, k), loss[k], equal_nan=True) and snow.dc_loss_nrel(float(r.iloc[-1]), k) == loss[k].iloc[-1]
            tr.append({'meta': {'kind': 'other'}, 'ev': [{'what': 'dc_loss.form', 'ok': bool(ok)}]})
        meta = {'kind': 'snow', 'regular': regular, 'initial': num(m.get('initial', 0)), 'threshold_snowfall': num(m.get('threshold_snowfall', 1)),
                'threshold_depth': num(m.get('threshold_depth', 1)), 'can_slide': num(m.get('can_slide', -80)), 'slide': num(m.get('slide', .197))}
        tr.append({'meta': meta, 'ev': [
            {'snowfall': num(sn[i]), 'poa': num(poa[i]), 'temp_air': num(ta[i]), 'depth': num(dp[i]) if depth else 'None', 'hours': num(hrs[i]),
             'tilt': num(tilt[i] if tiltform != 'scalar' else tilt[0]), 'out': num(r.iloc[i]), 'covered': bool(cv.iloc[i]), 'idx': bool(same),
             'loss': {str(k): num(v.iloc[i]) for k, v in loss.items()}} for i in range(n)]})

    def index(n, minutes):
        start = rng.choice(['2020-02-28 20:00', '2021-03-27 23:00', '2019-12-31 22:00', '2021-10-30 22:00'])
        tz = rng.choice([None, 'UTC', 'Europe/Berlin', 'Etc/GMT+7'])
        return pd.date_range(start, periods=n, freq=pd.Timedelta(minutes=minutes), tz=tz)

    for i, r in enumerate(recs):
        if not c.thorough and (i + c.seed) % 3:
            continue
        h = list(zip(*[[fl(x) for x in row] for row in r['h']]))
        mins = [60, 60, 30, 120, 1440][i // 3 % 5]
        h[0] = [x * mins / 60 if mins < 60 else x for x in h[0]]
        replay(h, index(len(h[0]), mins), [40.], depth=i % 4 != 0, m={'initial': .4})
    for _ in range(c.pick(250, 3000)):
        n = rng.randint(4, 30)
        mins = rng.choice([10, 15, 30, 60, 60, 120, 360, 1440])
        idx = index(n, mins)
        if rng.random() < .15:
            idx = pd.date_range('2020-01-01', periods=n, freq=rng.choice(['D', 'h', '2D', '15min']))
        regular = True
        if rng.random() < .15 and n > 6:
            d = np.cumsum([0] + [rng.choice([30, 60, 120, 75]) for _ in range(n - 1)])
            idx = pd.DatetimeIndex(pd.Timestamp('2020-01-01') + pd.to_timedelta(d, unit='min'))
            regular = pd.infer_freq(idx) is not None
        rows = [[rng.choice([0., 0., 0., rng.uniform(0, 4)]) for _ in range(n)],
                [rng.choice([0., rng.uniform(0, 1000)]) for _ in range(n)],
                [rng.uniform(-15, 8) for _ in range(n)],
                [rng.choice([0., .5, 1., rng.uniform(0, 20)]) for _ in range(n)]]
        if rng.random() < .15:
            rows[rng.randrange(4)][rng.randrange(n)] = float('nan')
        m = {}
        for a, lo, hi in (('initial', 0, 1), ('threshold_snowfall', .3, 2), ('threshold_depth', .5, 3), ('can_slide', -150, -40), ('slide', .05, .5)):
            if rng.random() < .4:
                m[a] = rng.uniform(lo, hi)
        form = rng.choice(['scalar', 'scalar', 'array', 'series'])
        tilt = [rng.choice([0., 90., rng.uniform(0, 90)]) for _ in range(n)]
        replay(rows, idx, tilt, depth=rng.random() < .6, m=m, regular=regular, tiltform=form)
    # Townsend
    for _ in range(c.pick(60, 600)):
        n = rng.choice([12, 12, 3, 1])
        a = {'snow_total': [rng.choice([0., rng.uniform(0, 120)]) for _ in range(n)], 'snow_events': [float(rng.choice([0, 1, 2, 5, .5, 1.5])) for _ in range(n)],
             'relative_humidity': [rng.uniform(20, 100) for _ in range(n)], 'temp_air': [rng.uniform(-15, 20) for _ in range(n)],
             'poa_global': [rng.uniform(2e4, 2e5) for _ in range(n)]}
        k = {'surface_tilt': rng.choice([0., 20., 45., 60.]), 'slant_height': rng.uniform(1, 5), 'lower_edge_height': rng.uniform(0.05, 2),
             'string_factor': rng.choice([1., .75]), 'angle_of_repose': rng.choice([40., 30.]), 'front_side_fraction': rng.choice([1., .9])}
        if rng.random() < .3:
            # snow up to the lower edge of a short collector: the floor of the edge distance
            a['snow_total'] = [v / 500 for v in a['snow_total']]
            k.update(slant_height=rng.uniform(.005, .05), lower_edge_height=rng.choice([0., rng.uniform(0, .005)]))
        kw = {x: v for x, v in k.items() if not (v == {'string_factor': 1., 'angle_of_repose': 40., 'front_side_fraction': 1.}.get(x))}
        st, r = outcome(snow.loss_townsend, **{x: np.array(v) for x, v in a.items()}, **kw)
        tr.append({'meta': {'kind': 'townsend'}, 'ev': [{'n': n, 'a': {x: nums(v) for x, v in a.items()}, 'k': {x: num(v) for x, v in k.items()},
                   'exc': '' if st == 'ok' else r, 'out': {'y': nums(r) if st == 'ok' else []}}]})
    c.validate('Snow', tr)


main(run)
