import json
import numpy as np
import pandas as pd
from vh import *
from pvlib import inverter

CFG = """INIT Init
NEXT Next
INVARIANTS NeverAboveRating NightIsTare MultiOfOne RatingPoint PVWattsBand AdrBand Emit
"""


def fdict(m):
    return {k: ([fl(x) for x in v] if isinstance(v, list) else fl(v))
            for k, v in m.items()}


def call(fn, inv, v, p, extra):
    if fn == 'sandia':
        return inverter.sandia(v[0], p[0], inv)
    if fn == 'sandia_multi':
        return inverter.sandia_multi(v, p, inv)
    if fn == 'adr':
        if extra.get('vtol_default'):
            return inverter.adr(v[0], p[0], inv)
        return inverter.adr(v[0], p[0], inv, vtol=extra['vtol'])
    kw = {} if extra.get('eff_default') else dict(
        eta_inv_nom=extra['nom'], eta_inv_ref=extra['ref'])
    if fn == 'pvwatts':
        return inverter.pvwatts(p[0], extra['pdc0'], **kw)
    return inverter.pvwatts_multi(p, extra['pdc0'], **kw)


def wrap(x, shape, idx):
    if shape == 'array':
        return np.array(x, dtype=float)
    if shape == 'series':
        return pd.Series(x, index=idx, dtype=float)
    if shape == 'scalar':
        return float(x[0])
    if shape == 'npscalar':
        return np.float64(x[0])
    if shape == 'int':
        return int(x[0])
    if shape == 'intarray':
        return np.array([int(a) for a in x])
    if shape == '2d':
        return np.array(x, dtype=float).reshape(1, -1)
    raise ValueError(shape)


def event(fn, inv, vs, ps, shape, extra, seq='tuple', invkind='dict'):
    n = len(ps[0])
    idx = pd.date_range('2020-06-01', periods=n, freq='h', tz='Etc/GMT+7')
    p = [wrap(x, shape, idx) for x in ps]
    v = [wrap(x, shape, idx) for x in vs]
    before = [np.array(x, copy=True) for x in p + v]
    pp, vv = (tuple(p), tuple(v)) if seq == 'tuple' else (list(p), list(v))
    if seq == 'array':
        pp, vv = np.array(p), np.array(v)
    iv = pd.Series(inv) if invkind == 'series' else inv
    st, r = outcome(call, fn, iv, vv, pp, extra)
    e = {'fn': fn, 'shape': shape, 'exc': '' if st == 'ok' else r,
         'p': [nums(b) for b in before[:len(p)]],
         'v': [nums(b) for b in before[len(p):]]}
    if st == 'ok':
        e['out'] = nums(r)
        e['kept'] = all(np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)
                        for a, b in zip(before, p + v))
        e['typed'] = (not isinstance(p[0], pd.Series)) or (
            isinstance(r, pd.Series) and r.index.equals(idx)) or \
            (fn.endswith('multi') and seq == 'array')
        if shape == '2d':
            e['typed'] = np.shape(r) == (1, n)
    if inv is not None:
        e['inv'] = {k: inv[k] for k in inv}
    for k, x in extra.items():
        if not k.endswith('default'):
            e[k] = num(x)
    return e


def run(c):
    recs = c.model('InverterMC', CFG)
    groups = {}
    for r in recs:
        key = json.dumps([r['fn'], r.get('inv'), r.get('vtol'), r.get('pdc0'),
                          r.get('nom'), r.get('ref'), len(r['ps'])], sort_keys=True)
        groups.setdefault(key, []).append(r)
    traces = []
    rng = c.rng

    def add(fn, inv, vs, ps, extra):
        ev = []
        multi = fn.endswith('multi')
        for shape in ('array', 'series') if fn == 'adr' else ('array', 'series', '2d'):
            ev.append(event(fn, inv, vs, ps, shape, extra, 'tuple'))
            if multi:
                ev.append(event(fn, inv, vs, ps, shape, extra, 'list'))
        if multi:
            ev.append(event(fn, inv, vs, ps, 'array', extra, 'array'))
        for i in rng.sample(range(len(ps[0])), min(6, len(ps[0]))):
            for shape in ('scalar', 'npscalar'):
                ev.append(event(fn, inv, [[v[i]] for v in vs], [[p[i]] for p in ps],
                                shape, extra, rng.choice(['tuple', 'list'])))
            ev.append(event(fn, inv, [[v[i]] for v in vs], [[p[i]] for p in ps],
                            'array', extra, 'tuple', 'series' if inv else 'dict'))
            if all(np.isfinite(x[i]) for x in vs + ps):
                ev.append(event(fn, inv, [[v[i]] for v in vs], [[p[i]] for p in ps],
                                'intarray', extra))
        if fn == 'adr' and extra['vtol'] == 0.1:
            ev.append(event(fn, inv, vs, ps, 'array', dict(extra, vtol_default=1)))
        if fn.startswith('pvw') and extra['nom'] == .96 and extra['ref'] == .9637:
            ev.append(event(fn, inv, vs, ps, 'array', dict(extra, eff_default=1)))
        for e in ev:
            traces.append({'meta': {'fn': fn}, 'ev': [e]})

    for g in groups.values():
        r0 = g[0]
        inv = fdict(r0['inv']) if 'inv' in r0 else None
        extra = {k: fl(r0[k]) for k in ('vtol', 'pdc0', 'nom', 'ref') if k in r0}
        ps = [[fl(r['ps'][k]) for r in g] for k in range(len(r0['ps']))]
        vs = [[fl(r['vs'][k]) for r in g] for k in range(len(r0.get('vs', [])))]
        add(r0['fn'], inv, vs, ps, extra)
        if r0['fn'] == 'pvwatts':
            add('pvwatts_multi', None, [], ps + [ps[0][::-1]], extra)
            add('pvwatts_multi', None, [], ps, extra)
        if r0['fn'] == 'sandia':
            ok = [i for i in range(len(ps[0])) if ps[0][i] != 0]
            add('sandia_multi', inv, [[vs[0][i] for i in ok]],
                [[ps[0][i] for i in ok]], extra)
    # random parameter sets and operating points, 1..4 inputs
    for _ in range(c.pick(40, 600)):
        pdco = 10 ** rng.uniform(2, 6)
        inv = dict(Paco=pdco * rng.uniform(.9, .99), Pdco=pdco, Vdco=rng.uniform(30, 900),
                   Pso=pdco * rng.uniform(.001, .02), C0=-rng.uniform(0, .05) / pdco,
                   C1=rng.uniform(-1, 1) * rng.choice([1e-4, 1e-3]), C2=rng.uniform(-1e-3, 1e-3),
                   C3=rng.uniform(-1e-3, 1e-3), Pnt=rng.choice([1, -1, 0]) * pdco * 1e-4)
        n = 8
        k = rng.randint(1, 4)
        ps = [[rng.choice([0, rng.uniform(0, .01), rng.uniform(0, 1.3)]) * pdco / k
               for _ in range(n)] for _ in range(k)]
        vs = [[rng.uniform(.5, 1.4) * inv['Vdco'] for _ in range(n)] for _ in range(k)]
        for i in range(0, n, 2):    # total power close to the rating
            f = rng.uniform(.95, 1.03) * pdco / (sum(x[i] for x in ps) or 1)
            for x in ps:
                x[i] *= f
        if k == 1:
            add('sandia', inv, vs, ps, {})
        add('sandia_multi', inv, vs, ps, {})
        pn = 10 ** rng.uniform(2, 5)
        vn = rng.uniform(30, 600)
        ai = dict(Pnom=pn, Vnom=vn, Pacmax=pn * rng.uniform(.8, 1), Pnt=rng.choice([-1, 1]) * pn * 1e-3,
                  Vmax=vn * rng.uniform(1, 1.3), Vmin=vn * rng.uniform(.4, .8),
                  Vdcmax=vn * rng.uniform(1, 1.5), MPPTHi=vn * rng.uniform(1, 1.5),
                  MPPTLow=vn * rng.uniform(.3, .9),
                  ADRCoefficients=[rng.uniform(-.01, .02) for _ in range(9)])
        for key in ('Vmax', 'Vdcmax', 'MPPTLow', 'Vmin'):
            if rng.random() < .15:
                ai[key] = float('nan')
        if np.isnan(ai['MPPTLow']) and np.isnan(ai['Vmin']):
            ai['Vmin'] = .5 * vn
        add('adr', ai, [[rng.choice([0, rng.uniform(.2, 1.8)]) * vn for _ in range(n)]],
            [[rng.uniform(0, 1.4) * pn for _ in range(n)]], {'vtol': rng.choice([0, .1, .3])})
        p0 = 10 ** rng.uniform(1, 6)
        ex = {'pdc0': p0, 'nom': rng.uniform(.85, .99), 'ref': rng.uniform(.9, .99)}
        pv = [[rng.choice([0, rng.uniform(0, .02), rng.uniform(0, 1.5)]) * p0 for _ in range(n)]
              for _ in range(rng.randint(1, 3))]
        add('pvwatts_multi', None, [], pv, ex)
        add('pvwatts', None, [], pv[:1], ex)
        # mismatched number of inputs must be rejected
        st, r = outcome(inverter.sandia_multi, tuple(np.ones(2) for _ in range(k)),
                        tuple(np.ones(2) for _ in range(k + rng.choice([1, 2]))), inv)
        traces.append({'meta': {}, 'ev': [{'fn': 'sandia_multi', 'reject': True,
                                           'exc': '' if st == 'ok' else r}]})
    # parameter recovery: points on an exact Sandia surface give the parameters back
    for _ in range(c.pick(15, 150)):
        paco = 10 ** rng.uniform(2.5, 5)
        inv = dict(Paco=paco, Pdco=paco * rng.uniform(1.03, 1.1), Vdco=rng.uniform(200, 600),
                   Pso=paco * rng.uniform(.005, .02), C0=-rng.uniform(.01, .05) / paco,
                   C1=rng.uniform(-5e-5, 5e-5), C2=rng.uniform(-1e-3, 1e-3),
                   C3=rng.uniform(-1e-3, 1e-3), Pnt=rng.uniform(0, 3))
        v, p, lev = [], [], []
        for name, vl in (('Vmin', inv['Vdco'] * rng.uniform(.5, .9)), ('Vnom', inv['Vdco']),
                         ('Vmax', inv['Vdco'] * rng.uniform(1.1, 1.5))):
            for f in np.linspace(.1, .95, rng.randint(5, 9)):
                v.append(vl)
                p.append(f * inv['Pdco'])
                lev.append(name)
        order = list(range(len(v)))
        rng.shuffle(order)
        v, p, lev = (np.array([x[i] for i in order]) for x in (v, p, lev))
        big = dict(inv, Pso=inv['Pso'])
        A = inv['Pdco'] * (1 + inv['C1'] * (v - inv['Vdco']))
        B = inv['Pso'] * (1 + inv['C2'] * (v - inv['Vdco']))
        C = inv['C0'] * (1 + inv['C3'] * (v - inv['Vdco']))
        ac = (inv['Paco'] / (A - B) - C * (A - B)) * (p - B) + C * (p - B) ** 2
        st, r = outcome(inverter.fit_sandia, ac, p, v, lev, inv['Paco'], inv['Pnt'])
        e = {'fn': 'fit_sandia', 'exc': '' if st == 'ok' else r,
             'inv': {k: num(x) for k, x in inv.items()}}
        if st == 'ok':
            e['out'] = {k: num(r.get(k, float('nan'))) for k in inv}
        traces.append({'meta': {'fn': 'fit'}, 'ev': [e]})
    c.validate('Inverter', traces)
    c.assumptions = ['numbers are compared with relative tolerance 1e-8',
                     'inverter parameter sets are finite apart from the ADR voltage limits']


main(run)
