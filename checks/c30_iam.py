import numpy as np
import pandas as pd
from vh import *
import point
from pvlib import iam

CFG = '''INIT Init
NEXT Next
INVARIANTS OneAtNormal Even Bounded ZeroBehind NaNOnly Monotone DiffuseBand SchlickAverage Emit
'''


def nn(k):
    return {a: (None if v == 'None' else v) for a, v in k.items() if a != 'none'}


def direct(fn, k, mod='dict'):
    k = nn(k)
    if fn == 'sapm':
        m = {'B%d' % i: b for i, b in enumerate(k['B'])}
        if mod == 'series':
            m = pd.Series(m)
        return lambda aoi: iam.sapm(aoi, m, upper=k['upper'])
    if fn == 'interp':
        return lambda aoi: iam.interp(aoi, k['theta'], k['iam'], normalize=k['normalize'])
    return lambda *a, **kw: getattr(iam, fn)(*a, *kw.values(), **k)


def fx(x):
    return None if x == 'None' else x


def run(c):
    recs = c.model('IamMC', CFG)
    tr = []
    rng = c.rng

    def pt(fn, rows, k, f=None, **o):
        arg = 'surface_tilt' if 'diffuse' in fn else 'aoi'
        f = f or direct(fn, k)
        cols = ['sky', 'gnd'] if 'diffuse' in fn else ['y']
        ek = {a: enc(v) for a, v in k.items()} or {'none': 0}
        for t in point.forms(fn, f, rows, {}, rng, cols=cols, encode_k=ek, mixed=0, **o):
            t['ev'][0]['kind'] = 'point'
            tr.append(t)

    def curve(fn, k):
        g = sorted({0., 90., 180.} | {rng.uniform(0, 95) for _ in range(40)})
        g = g + [-x for x in g[1:30]] + [float('nan')]
        st, r = outcome(direct(fn, k), np.array(g))
        at0 = 1.0
        if fn == 'sapm':
            at0 = min(k['B'][0], k['upper']) if k['upper'] != 'None' else k['B'][0]
        if fn == 'interp':
            return
        tr.append({'meta': {}, 'ev': [{'kind': 'curve', 'fn': fn, 'aoi': nums(g),
                                       'y': nums(r) if st == 'ok' else [], 'at0': num(at0),
                                       'exc': '' if st == 'ok' else r}]})

    for fn, rows, k in point.group(recs):
        pt(fn, rows, k)
        bad = fn == 'martin_ruiz' and k['a_r'] <= 0
        if 'diffuse' not in fn and not bad:
            curve(fn, k)
        if fn == 'sapm':
            pt(fn, rows, k, f=direct(fn, k, 'series'), forms=('array', 'series'))
    n = c.pick(25, 400)
    for _ in range(n):
        rows = {'aoi': [rng.choice([rng.uniform(-95, 95), rng.uniform(85, 90), rng.uniform(-180, 180)]) for _ in range(10)]}
        for fn, k in (('ashrae', {'b': rng.uniform(0, .5)}),
                      ('physical', {'n': rng.uniform(1.05, 2), 'K': rng.uniform(0, 30), 'L': rng.uniform(0, .01),
                                    'n_ar': rng.choice(['None', rng.uniform(1.01, 1.9)])}),
                      ('martin_ruiz', {'a_r': rng.uniform(.05, 1)}), ('schlick', {})):
            pt(fn, rows, k)
            if fn != 'schlick':
                curve(fn, k)
        th = sorted(rng.sample(range(0, 91), rng.randint(2, 7)))
        ks = {'theta': [float(t) for t in th], 'iam': sorted([rng.uniform(0.2, 1) for _ in th], reverse=True),
              'normalize': rng.random() < .5}
        pt('interp', {'aoi': [x for x in rows['aoi'] if abs(x) < 100] or [3.]}, ks)
        tl = {'surface_tilt': [rng.uniform(0, 170) for _ in range(5)]}
        pt('martin_ruiz_diffuse', tl, {'a_r': rng.uniform(.05, 1), 'c1': rng.uniform(.3, .6), 'c2': rng.choice(['None', rng.uniform(-.2, 0)])})
        pt('schlick_diffuse', tl, {})
    # defaults
    g = {'aoi': [0., 20., 50., 70., 85., 89., 90., 100.]}
    pt('ashrae', g, {'b': .05}, f=lambda aoi: iam.ashrae(aoi))
    pt('physical', g, {'n': 1.526, 'K': 4., 'L': .002, 'n_ar': 'None'}, f=lambda aoi: iam.physical(aoi))
    pt('martin_ruiz', g, {'a_r': .16}, f=lambda aoi: iam.martin_ruiz(aoi))
    pt('martin_ruiz_diffuse', {'surface_tilt': [0., 10., 30., 90., 120., 180.]}, {'a_r': .16, 'c1': .4244, 'c2': 'None'},
       f=lambda surface_tilt: iam.martin_ruiz_diffuse(surface_tilt))
    pt('interp', g, {'theta': [0., 60., 90.], 'iam': [.98, .9, 0.], 'normalize': True},
       f=lambda aoi: iam.interp(aoi, [0, 60, 90], [.98, .9, 0]))
    # array-valued parameters are not mixed between rows
    # rejected calls
    rej = [lambda aoi: iam.interp(aoi, [0], [1]), lambda aoi: iam.interp(aoi, [0, 40], [1, .5], method='quadratic'),
           lambda aoi: iam.interp(aoi, [0, 30, 60], [1, .9, .5], method='cubic'),
           lambda aoi: iam.interp(aoi, [0, 30, 60], [1, -.001, .5]),
           lambda aoi: iam.interp(aoi, [0, 30, 60], [1, .9, .5], method='bogus'),
           lambda aoi: iam.marion_diffuse('bogus', aoi), lambda aoi: iam.marion_diffuse('interp', aoi),
           lambda aoi: iam.marion_integrate(iam.ashrae, aoi, 'bogus'),
           lambda aoi: iam.marion_integrate(iam.ashrae, aoi, 'bogus', num=10),
           lambda aoi: iam.convert('bogus', {'b': .05}, 'physical'), lambda aoi: iam.convert('ashrae', {'b': .05}, 'sapm'),
           lambda aoi: iam.convert('ashrae', {'a_r': .05}, 'physical'), lambda aoi: iam.convert('ashrae', {'b': .05, 'a_r': .1}, 'martin_ruiz'),
           lambda aoi: iam.fit(np.arange(90.), np.ones(90), 'bogus'),
           lambda aoi: iam.martin_ruiz(aoi, np.array([.1, 0]))]
    for f in rej:
        e = point.one('reject', f, {'aoi': [10., 20.]}, {}, 'array')
        tr.append({'meta': {}, 'ev': [dict(e, kind='point')]})
    # diffuse averages
    models = [('ashrae', {'b': .05}), ('physical', {'n': 1.526, 'K': 4., 'L': .002, 'n_ar': 'None'}),
              ('martin_ruiz', {'a_r': .16}), ('schlick', {}),
              ('sapm', {'B': [1, -0.002438, 3.103e-4, -1.246e-5, 2.112e-7, -1.359e-9], 'upper': 'None'})]
    for fn, k in models:
        f = direct(fn, k)
        for reg, nm in (('sky', 8), ('sky', 15), ('ground', 8), ('ground', 15), ('ground', 32), ('sky', 32), ('horizon', 400)):
            if nm > 20 and fn not in (models[c.seed % 5][0],) and not c.thorough:
                continue
            rows = {'surface_tilt': [0., 30., 90.] if nm > 20 else [0., 5., 40., 90., 135., 180., float('nan')]}
            ek = {'model': fn, 'p': enc(k) or {'none': 0}, 'region': reg, 'num': nm}
            for form in ('array', 'series', 'scalar'):
                rw = rows if form != 'scalar' else {'surface_tilt': rows['surface_tilt'][1:2]}
                if nm > 20 and form != 'array':
                    continue
                e = point.one('marion_integrate', lambda surface_tilt: iam.marion_integrate(f, surface_tilt, reg, num=nm),
                              rw, {}, form, encode_k=ek)
                tr.append({'meta': {}, 'ev': [dict(e, kind='point')]})
        for tilt in [0., rng.uniform(2, 88), 90., rng.uniform(92, 150)]:
            kw = nn(k)
            if fn == 'sapm':
                kw = {'module': {'B%d' % i: b for i, b in enumerate(k['B'])}}
            st, r = outcome(iam.marion_diffuse, fn, tilt, **kw)
            e = {'kind': 'diffuse', 'model': fn, 'p': enc(k) or {'none': 0}, 'tilt': num(tilt), 'num': 24, 'exc': '' if st == 'ok' else r}
            if st == 'ok':
                e['out'] = {a: num(b) for a, b in r.items()}
                e['fine'] = {a: num(iam.marion_integrate(f, tilt, a)) for a in ('sky', 'horizon', 'ground')}
            tr.append({'meta': {}, 'ev': [e]})
    # fits and conversions
    wts = {'default': None, 'flat': lambda x: np.ones_like(x), 'cos': lambda x: np.cos(np.radians(x))}
    pool = lambda t: ({'b': 10 ** rng.uniform(-3, 0)} if t == 'ashrae' else {'a_r': 10 ** rng.uniform(-1.5, 0)})

    def alts(t, p):
        if t == 'physical':
            return [{'n': min(2, max(1.0001, p['n'] * s)), 'K': 4., 'L': min(.08, max(0., p['L'] * u)), 'n_ar': 'None'}
                    for s in (.97, 1, 1.03) for u in (.9, 1, 1.1)]
        key = list(p)[0]
        return [{key: min(1., max(1e-4, p[key] * s))} for s in (.3, .7, .95, .98, 1.02, 1.05, 1.4, 3)] + [pool(t) for _ in range(4)]

    for _ in range(c.pick(4, 30)):
        src = {'ashrae': {'b': rng.uniform(.02, .12)}, 'martin_ruiz': {'a_r': rng.uniform(.1, .3)},
               'physical': {'n': rng.uniform(1.2, 1.7), 'K': 4., 'L': rng.uniform(.001, .02), 'n_ar': 'None'}}
        for s, sp in src.items():
            for t in src:
                w = rng.choice(list(wts))
                kw = {} if wts[w] is None else {'weight': wts[w]}
                aoi = np.linspace(0, 90, 91)
                y = np.asarray(direct(s, sp)(aoi))
                own = s == t
                for what in ('convert', 'fit'):
                    if what == 'convert':
                        if own:
                            continue
                        if t == 'physical' and s == 'ashrae':
                            kw2 = dict(kw, fix_n=False)
                        else:
                            kw2 = kw
                        a2, y2 = aoi, y
                        st, r = outcome(iam.convert, s, {a: b for a, b in sp.items() if a != 'n_ar'}, t, **kw2)
                    else:
                        a2 = np.array(sorted(rng.uniform(0, 89) for _ in range(50)) + [-20., 95., 120.])
                        y2 = np.asarray(direct(s, sp)(a2))
                        if own and t != 'physical':
                            # measurements no model of the kind fits: the weights matter
                            own = rng.random() < .4
                            if not own:
                                y2 = y2 * np.array([rng.uniform(.9, 1.05) - (.1 if x > 60 else 0.) for x in a2])
                        y2 = np.where(a2 > 90, 5., y2)  # outside (0, 90): must not influence the fit
                        st, r = outcome(iam.fit, a2, y2, t, **kw)
                    e = {'kind': 'fit', 'what': what, 'source': s, 'target': t, 'weight': w, 'own': own and what == 'fit' and w != 'cos',
                         'exc': '' if st == 'ok' else r}
                    if st == 'ok':
                        p = dict(r)
                        if t == 'physical':
                            p['n_ar'] = 'None'
                        e.update(p={a: enc(float(b) if not isinstance(b, str) else b) for a, b in p.items()},
                                 aoi=nums(a2), iam=nums(y2),
                                 alts=[{a: enc(float(b) if not isinstance(b, str) else b) for a, b in q.items()}
                                       for q in alts(t, p)])
                    tr.append({'meta': {}, 'ev': [e]})
    c.validate('Iam', tr)


main(run)
