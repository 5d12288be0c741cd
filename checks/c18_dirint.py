import warnings
import numpy as np
import pandas as pd
from vh import *
import pvlib
from pvlib import irradiance as irr

CFG = '''CONSTANTS N = %d
Ghi = {%s}
INIT Init
NEXT Next
INVARIANTS FollowsDisc NonNegative Local Reversible IndexIdentity Emit
'''
GCFG = '''CONSTANTS Poa = {%s}
Models = {%s}
MaxIts = {%s}
INIT Init
NEXT Next
INVARIANTS NonNegative BestIsReal Closure Lonely Emit
PROPERTY Improves
'''
PEREZ = ['allsitescomposite1990', 'allsitescomposite1988', 'sandiacomposite1988', 'phoenix1988', 'albany1988']


def nn(x):
    return 'None' if x is None else num(x)


def arr(q):
    return np.array([fl(x) for x in q])


def days(idx):
    return [str(d) for d in idx.tz_convert('UTC').dayofyear]


def same(a, b):
    return a.equals(b) if hasattr(a, 'equals') else np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def gti_event(job):
    g, idx, a, kw = job
    b4 = [x.copy() for x in a]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            st, y = 'ok', irr.gti_dirint(*a, idx, g['tilt'], g['saz'], **kw)
        except Exception as ex:
            st, y = 'exc', type(ex).__name__
    ev = dict(fn='gti', exc='' if st == 'ok' else y, ghi=[], dni=[], dhi=[], warned=any(issubclass(x.category, RuntimeWarning) and 'converge' in str(x.message) for x in w),
              kept=all(map(same, b4, a)), typed=True,
              g=dict({k: nums(g[k]) for k in ('poa', 'aoi', 'z', 'az', 'pres', 'alb')}, doy=days(idx), day=[str(d) for d in idx.date],
                     dew=['None'] * len(idx) if g['dew'] is None else nums(g['dew']), tilt=num(g['tilt']), saz=num(g['saz']),
                     use=g['use'], model=g['model'], pm=g['pm'], maxit=g['maxit'], gt=g['gt']))
    if st == 'ok':
        ev.update({k: nums(y[k]) for k in ('ghi', 'dni', 'dhi')}, typed=isinstance(y, pd.DataFrame) and y.index.equals(idx) and list(y.columns) == ['ghi', 'dni', 'dhi'])
    return ev


def run(c):
    rng = c.rng
    u = rng.uniform
    tr = []

    def form(x, idx, kinds):
        """a sequence as Series or array, or a scalar where constant"""
        k = rng.choice(kinds)
        x = np.asarray(x, dtype=float)
        if k == 'scalar' and len(set(map(num, x))) == 1:
            return float(x[0])
        return pd.Series(x, index=idx) if k != 'array' else x

    def index(doy, n, step='1h'):
        t = pd.date_range('2021-01-01 06:00', periods=n, freq=step, tz='UTC') + pd.Timedelta(days=int(float(doy)) - 1)
        return t.tz_convert(rng.choice(['UTC', 'Etc/GMT+7', 'Asia/Kolkata']))

    def dirint(ghi, z, idx, pres, dew, use, mincos, maxz, clear=None, dni=None, defaults=False):
        n = len(idx)
        ser = ['series'] if use else ['series', 'array']
        kinds = rng.choice([['series'], ser + ['scalar']])
        a = [form(ghi, idx, ser), form(z, idx, ['series', 'array'])]
        kw = {}
        if not defaults:
            kw = dict(pressure=None if pres is None else form(pres, idx, kinds), use_delta_kt_prime=use, min_cos_zenith=mincos, max_zenith=maxz)
            if dew is not None:
                kw['temp_dew'] = form(dew, idx, kinds)
        s = dict(ghi=nums(ghi), z=nums(z), doy=days(idx), pres=['None'] * n if pres is None else nums(pres),
                 dew=['None'] * n if dew is None else nums(dew), use=use, mincos=num(mincos), maxz=num(maxz))
        if clear is None:
            b4 = [x.copy() for x in a]
            st, y = outcome(irr.dirint, a[0], a[1], idx, **kw)
            ev = dict(fn='dirint', s=s, exc='' if st == 'ok' else y, y=[], kept=all(map(same, b4, a)), typed=True)
            if st == 'ok':
                ev.update(y=nums(np.asarray(y)), typed=isinstance(y, pd.Series) and y.index.equals(idx))
        else:
            q = [a[0], pd.Series(clear, index=idx), pd.Series(dni, index=idx), a[1]]
            b4 = [x.copy() for x in q]
            st, y = outcome(irr.dirindex, *q, idx, **kw)
            ev = dict(fn='dirindex', s=s, clear=nums(clear), dni=nums(dni), exc='' if st == 'ok' else y, y=nums(np.asarray(y)) if st == 'ok' else [], kept=all(map(same, b4, q)))
        tr.append({'meta': {}, 'ev': [ev]})

    for i, s in enumerate(c.model('DirintMC', CFG % (c.pick(3, 4), '"0", "300", "870", "NaN"'))):
        if c.thorough or (i + c.seed) % 12 == 0:
            n = len(s['ghi'])
            dirint(arr(s['ghi']), arr(s['z']), index(s['doy'][0], n), arr(s['pres']), None if s['dew'][0] == 'None' else arr(s['dew']), s['use'], .065, 87.)
    for _ in range(c.pick(250, 3000)):
        n = rng.choice([1, 2, 3, 5, 9, 24])
        idx = index(rng.randint(1, 365), n, rng.choice(['1h', '5min', '30min', '1D']))
        z = np.sort([rng.choice([u(0, 89), u(0, 89), u(86, 93)]) for _ in range(n)])
        ext = np.maximum(np.cos(np.radians(z)), .07) * 1370
        base = u(.15, .85)
        kt = np.clip(base + np.cumsum([rng.gauss(0, rng.choice([.003, .02, .1])) for _ in range(n)]), 0, 1.15)
        if rng.random() < .3:
            kt = np.array([u(0, 1.1) for _ in range(n)])
        ghi = kt * ext
        for k in range(n):
            if rng.random() < .05:
                ghi[k] = rng.choice([np.nan, 0., -2.])
            elif rng.random() < .03:
                z[k] = np.nan
        pres = rng.choice([None, np.full(n, 101325.), np.array([u(7e4, 1.03e5) for _ in range(n)])])
        dew = rng.choice([None, np.full(n, u(-25, 25)), np.array([u(-30, 28) for _ in range(n)])])
        if dew is not None and len(dew) > 1 and rng.random() < .15:
            dew[rng.randrange(n)] = np.nan
        use = rng.random() < .7
        mc, mz = rng.choice([(.065, 87.), (u(.02, .2), u(75, 89))])
        if rng.random() < .25 and not (dew is not None and np.isnan(dew).any()):
            clear = 1098 * np.maximum(np.cos(np.radians(z)), 0) * np.exp(-.059 / np.maximum(np.cos(np.radians(z)), 1e-3)) * rng.choice([1., .6])
            dirint(ghi, z, idx, pres, dew, use, mc, mz, clear=clear, dni=np.array([rng.choice([u(0, 1000), u(400, 900), 0.]) for _ in range(n)]))
        elif rng.random() < .15:
            dirint(ghi, z, idx, np.full(n, 101325.), None, True, .065, 87., defaults=True)
        else:
            dirint(ghi, z, idx, pres, dew, use, mc, mz)

    jobs = []

    def gti(g, idx):
        ser = rng.random() < .7 
        f = lambda k: pd.Series(g[k], index=idx) if ser else np.array(g[k], dtype=float)
        a = [f('poa'), f('aoi'), f('z'), f('az')]
        kw = dict(pressure=rng.choice([float(g['pres'][0])]) if len(set(g['pres'])) == 1 else pd.Series(g['pres'], index=idx), use_delta_kt_prime=g['use'],
                  albedo=float(g['alb'][0]) if len(set(g['alb'])) == 1 else pd.Series(g['alb'], index=idx), model=g['model'], model_perez=g['pm'],
                  calculate_gt_90=g['gt'], max_iterations=g['maxit'])
        if g['dew'] is not None:
            kw['temp_dew'] = float(g['dew'][0]) if len(set(g['dew'])) == 1 else f('dew')
        if g.get('defaults'):
            kw = {}
        jobs.append((g, idx, a, kw))

    gcfg = GCFG % (('"60", "420", "980"', '"perez", "isotropic"', '30') if not c.thorough else ('"5", "60", "200", "420", "700", "980"', '"perez", "isotropic", "haydavies", "reindl"', '2, 30'))
    recs = c.model('GtiMC', gcfg)
    for i, g in enumerate(recs):
        if (i + c.seed) % c.pick(7, 10) == 0:
            n = len(g['poa'])
            # 172 is the day in UTC of every sample
            idx = (pd.date_range('2021-06-21 07:00', periods=n, freq='4h', tz='UTC')).tz_convert(rng.choice(['UTC', 'Etc/GMT+5']))
            gti(dict({k: [fl(x) for x in g[k]] for k in ('poa', 'aoi', 'z', 'az', 'pres', 'alb')}, dew=None, tilt=fl(g['tilt']), saz=fl(g['saz']),
                     use=g['use'], model=g['model'], pm=g['pm'], maxit=int(g['maxit']), gt=g['gt']), idx)
    for _ in range(c.pick(60, 700)):
        lat = rng.choice([u(-60, 60), 40.])
        tz = rng.choice(['UTC', 'Etc/GMT+7', 'Asia/Kolkata', 'America/Denver'])
        start = pd.Timestamp(2021, rng.randint(1, 12), rng.randint(1, 28), tz=tz)
        idx = pd.date_range(start, periods=rng.choice([10, 16, 24]), freq=rng.choice(['1h', '2h', '3h', '90min']))
        sp = pvlib.solarposition.ephemeris(idx, lat, rng.choice([0., -105.]))
        if rng.random() < .8:
            keep = (sp['zenith'] < rng.choice([90, 88])).to_numpy()
            idx, sp = idx[keep], sp[keep]
        n = len(idx)
        if n == 0:
            continue
        tilt, saz = rng.choice([(0., 180.), (u(0, 90), u(0, 360)), (u(20, 60), rng.choice([90., 180., 270.]))])
        z, az = sp['zenith'].to_numpy(), sp['azimuth'].to_numpy()
        aoi = np.asarray(irr.aoi(tilt, saz, z, az))
        cz, ca = np.maximum(np.cos(np.radians(z)), 0), np.maximum(np.cos(np.radians(aoi)), 0)
        kt = np.clip(u(.2, .8) + np.array([rng.gauss(0, rng.choice([.02, .15])) for _ in range(n)]), .03, .9)
        beam = 1370 * np.maximum(kt - .25, 0) * (z < 88)
        poa = beam * ca + (1370 * kt * cz - beam * cz).clip(0) * (1 + np.cos(np.radians(tilt))) / 2 + 1.5 * (z < 90)
        g = dict(poa=poa, aoi=aoi, z=z, az=az, tilt=tilt, saz=saz, pres=[101325.] * n, alb=[.25] * n, dew=None, use=True,
                 model='perez', pm=PEREZ[0], gt=True, maxit=30)
        if rng.random() < .25:
            g['defaults'] = True
        else:
            g.update(use=rng.random() < .6, model=rng.choice(['perez', 'perez', 'isotropic', 'haydavies', 'reindl', 'perez-driesse', 'king', 'klucher']),
                     pm=rng.choice(PEREZ), gt=rng.random() < .8, maxit=rng.choice([30, 30, 1, 4, 12, 35]),
                     alb=rng.choice([[u(.1, .6)] * n, [u(0, .6) for _ in range(n)]]), pres=[u(8e4, 1.03e5)] * n,
                     dew=rng.choice([None, [u(-10, 20)] * n, [u(-10, 20) for _ in range(n)]]))
        gti(g, idx)
    tr.extend({'meta': {}, 'ev': [e]} for e in pmap(gti_event, jobs))
    c.validate('DirintObs', tr)


main(run)
