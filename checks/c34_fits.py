import contextlib, io
import numpy as np
import pandas as pd
from vh import *
from pvlib import tools, pvarray, pvsystem, irradiance
from pvlib.ivtools import sdm, sde, utils

SCFG = '''INIT Init
NEXT Next
INVARIANTS Inside Keeps Shrinks Terminates Answer Emit
'''
FCFG = '''CONSTANTS
 Cells = {%s}
 Ideal = {"1", "1.25"}
 VocCell = {%s}
 IL = {"4", "9"}
 Rs = {"0.2", "0.45"}
 Rsh = {%s}
 NCurve = 70
 NMatrix = {%s}
INIT Init
NEXT Next
INVARIANTS TrueSolves BatzelisNear CurveShape AstmExact IecNear Emit
'''


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return outcome(fn, *a, **k)


def fun(f, x, m, s):
    return {'quad': lambda: -(s * ((x - m) * (x - m))), 'abs': lambda: -(s * abs(x - m)), 'up': lambda: s * x, 'down': lambda: -(s * x),
            'skew': lambda: s * ((x - m) - np.exp(x - m)), 'step': lambda: np.where(x < m, s * (x - m), 10 * s * (m - x)) + 0.}[f]()


def golden(c, recs, tr):
    rng = c.rng
    gs = getattr(tools, '_golden_sect_DataFrame', None)
    if gs is None:
        return

    def run_rows(f, rows, atol, form):
        n = len(rows)
        seen, cnt = [], [0]

        def func(df, loc):
            cnt[0] += 1
            if cnt[0] > 1500:
                raise OverflowError('too many evaluations')
            x = df[loc]
            seen.append(np.broadcast_to(np.asarray(x, dtype=float), (n,)).copy())
            return fun(f, x, df['m'], df['s'])
        col = lambda i: [float(r[i]) for r in rows]
        mk = {'array': np.array, 'series': pd.Series, 'scalar': lambda v: v[0]}[form]
        pr = {'m': mk(col(0)), 's': mk(col(1))}
        if form == 'series':
            pr = pd.DataFrame(pr)
        lo, hi = mk(col(2)), mk(col(3))
        b4 = (set(pr), np.array(lo), np.array(hi))
        kw = {} if atol == 1e-8 else {'atol': atol}
        st, r = outcome(gs, pr, lo, hi, func, **kw)
        kept = b4[0] == set(pr) and np.array_equal(b4[1], np.array(lo), equal_nan=True) and np.array_equal(b4[2], np.array(hi), equal_nan=True)
        fx, x = ([num(v) for v in np.broadcast_to(np.asarray(q, dtype=float), (n,))] for q in r) if st == 'ok' else ([], [])
        sn = np.array(seen) if seen else np.zeros((1, n))
        with np.errstate(all='ignore'):
            width = np.nanmax([0] + [q[3] - q[2] for q in rows])
        for k, q in enumerate(rows):
            tr.append({'meta': {}, 'ev': [{'fn': 'search', 'q': {'f': f, 'm': num(q[0]), 's': num(q[1])}, 'lo': num(q[2]), 'hi': num(q[3]), 'atol': num(atol), 'form': form,
                       'exc': '' if st == 'ok' else r, 'x': x[k] if x else 'NaN', 'fx': fx[k] if fx else 'NaN', 'least': num(sn[:, k].min()), 'most': num(sn[:, k].max()),
                       'calls': cnt[0], 'width': num(width), 'kept': bool(kept)}]})
    groups = {}
    for r in recs:
        groups.setdefault((r['q']['f'], fl(r['atol'])), []).append([fl(r['q']['m']), fl(r['q']['s']), fl(r['lo']), fl(r['hi'])])
    nan = float('nan')
    for (f, atol), rows in groups.items():
        rows = rows[:]
        rng.shuffle(rows)
        run_rows(f, rows + [[nan, nan, 0., 1.], [0., 1., nan, 1.], [0., 1., 0., nan]], atol, 'array')
        run_rows(f, rows[:7] + [[0., nan, 0., 1.]], atol, 'series')
        run_rows(f, rows[:1], atol, 'scalar')
        run_rows(f, [[nan, nan, 0., 1.]] * 2, atol, 'array')
    for _ in range(c.pick(60, 800)):
        f = rng.choice(['quad', 'abs', 'up', 'down', 'skew', 'step'])
        n = rng.choice([1, 2, 5])
        rows = []
        for _ in range(n):
            lo = rng.choice([0., rng.uniform(-50, 50)])
            w = rng.choice([0., 1e-6, rng.uniform(0, 3), rng.uniform(0, 100)])
            rows.append([lo + w * rng.choice([0, 1, rng.random(), rng.uniform(-.5, 1.5)]), rng.choice([1., rng.uniform(.01, 100)]), lo, lo + w])
        if f == 'skew':
            rows = [[m, s, max(lo, m - 20), max(lo, m - 20) + min(hi - lo, 30)] for m, s, lo, hi in rows]
        if rng.random() < .08:
            rows[-1][3] = rows[-1][2] - 1e-3
            rows = rows[-1:]
        if rng.random() < .15 and len(rows) > 1:
            rows[0][rng.choice([1, 2, 3])] = nan
        run_rows(f, rows, rng.choice([1e-8, 1e-8, 1e-3, 1e-10, .5]), rng.choice(['array', 'series'] + ['scalar'] * (len(rows) == 1)))


def keyed(par):
    iv = pvsystem.singlediode(*par)
    return {k: np.atleast_1d(np.asarray(iv[k], dtype=float)) for k in ('i_sc', 'v_oc', 'i_mp', 'v_mp')}


def sandia(args):
    kind, n, m, g, t, npt = args
    par = (pvsystem.calcparams_pvsyst if kind == 'pvsyst_sandia' else pvsystem.calcparams_desoto)(g, t, **m)
    iv = {k: v for k, v in keyed(par).items()}
    v = np.linspace(0., iv['v_oc'], npt)
    i = np.asarray(pvsystem.i_from_v(v, *par))
    iv.update(v=v.T, i=i.T, ee=g, tc=t)
    specs = {'cells_in_series': n, 'alpha_sc': m['alpha_sc']}
    if kind == 'desoto_sandia':
        specs['beta_voc'] = float(np.polyfit(t[g == 1000], iv['v_oc'][g == 1000], 1)[0])
    st, r = quiet(sdm.fit_pvsyst_sandia if kind == 'pvsyst_sandia' else sdm.fit_desoto_sandia, iv, specs)
    names = {'pvsyst_sandia': ['gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_s', 'R_sh_exp', 'EgRef', 'cells_in_series'],
             'desoto_sandia': ['a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'EgRef', 'dEgdT']}[kind]
    return dict(fn=kind, exc='' if st == 'ok' else r, rows=[{'G': num(g[k]), 'T': num(t[k]), **{x: num(iv[x][k]) for x in ('i_sc', 'v_oc', 'i_mp', 'v_mp')}} for k in range(len(g))],
                m=dict({x: num(r[x]) for x in names}, irrad_ref='1000', temp_ref='25', alpha_sc=num(m['alpha_sc'])) if st == 'ok' else {'x': 0})


RCFG = '''INIT Init
NEXT Next
INVARIANTS Bracket Width Dark Emit
'''
RARGS = ('surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth', 'poa_global', 'dni_extra', 'airmass', 'albedo')


def reverse(c):
    """Reverse transposition: every estimate must reproduce the plane irradiance."""
    rng = c.rng
    u = rng.uniform
    tr = []
    f = irradiance.ghi_from_poa_driesse_2024

    def go(rows, form, xtol=None, fixed=(), bad='', kwargs=False):
        n = len(rows['poa_global'])
        idx = pd.date_range('2022-03-01', periods=n, freq='h', tz='UTC')
        a = {k: [float(v[0])] if k in fixed or form == 'scalar' else [float(x) for x in v] for k, v in rows.items()}
        n = max(len(v) for v in a.values())
        mk = {'array': np.array, 'series': lambda v: pd.Series(v, idx), 'scalar': lambda v: v[0], 'intarray': lambda v: np.array(v).astype(int)}[form]
        args = {k: (v[0] if k in fixed else mk(v)) for k, v in a.items()}
        before = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in args.items()}
        kw = {} if xtol is None else {'xtol': xtol}
        pos = [args.pop(k) for k in RARGS if k in args and k not in ('airmass', 'albedo')] if not kwargs else []
        st, r = outcome(f, *pos, full_output=True, **args, **kw)
        st2, r2 = outcome(f, *pos, **args, **kw)
        if kwargs:
            args = dict(args)
        now = dict(zip([k for k in RARGS if k in before and k not in args], pos), **args)
        a.setdefault('albedo', [.25])
        e = {'n': n, 'form': form, 'a': {k: nums(v) for k, v in a.items()}, 'xtol': num(.01 if xtol is None else xtol), 'bad': bad, 'exc': '' if st == 'ok' else r}
        if st == 'ok':
            g, cv, it = r
            e['out'] = {'ghi': nums(g), 'conv': [bool(x) for x in np.atleast_1d(cv)], 'niter': [int(x) for x in np.atleast_1d(it)]}
            e['kept'] = all(np.array_equal(np.asarray(before[k]), np.asarray(now[k]), equal_nan=True) for k in before)
            e['short'] = st2 == 'ok' and np.array_equal(np.asarray(r2), np.asarray(g), equal_nan=True)
            ser = form == 'series' and 'poa_global' not in fixed
            e['formok'] = all(isinstance(x, pd.Series) and x.index.equals(idx) for x in r) and isinstance(r2, pd.Series) if ser else all(np.ndim(x) == (0 if form == 'scalar' else 1) for x in r)
        tr.append({'meta': {}, 'ev': [e]})

    recs = c.model('ReversePoaMC', RCFG)
    cols = {k: [float(q['target' if k == 'poa_global' else k]) for q in recs] for k in RARGS if k != 'airmass'}
    for i in range(0, len(recs), 24):
        part = {k: v[i:i + 24] for k, v in cols.items()}
        go(part, 'array')
        go(part, 'series', kwargs=True)
    for _ in range(c.pick(12, 150)):
        n = rng.randint(1, 14)
        w = {'surface_tilt': [rng.choice([u(0, 90), u(0, 60), u(90, 180), 0., 90.]) for _ in range(n)], 'surface_azimuth': [u(0, 360) for _ in range(n)],
             'solar_zenith': [rng.choice([u(0, 85), u(80, 89.5)]) for _ in range(n)], 'solar_azimuth': [u(0, 360) for _ in range(n)],
             'dni_extra': [u(1320, 1420) for _ in range(n)]}
        w['poa_global'] = [rng.choice([u(0, 1.2), u(0, .3)]) * 1000 * max(np.cos(np.radians(z)), .05) for z in w['solar_zenith']]
        for i in range(n):
            if rng.random() < .12:
                w['poa_global'][i] = rng.choice([0., -3., float('nan'), 1e-3, 5000.])
        fixed = {k for k in ('surface_tilt', 'surface_azimuth', 'dni_extra', 'albedo', 'airmass') if rng.random() < .5}
        if rng.random() < .6:
            w['albedo'] = [u(0, .9) for _ in range(n)]
        if rng.random() < .5:
            w['airmass'] = [rng.choice([u(1, 3), u(1, 30)]) for _ in range(n)]
        go(w, rng.choice(['array', 'series', 'scalar']), rng.choice([None, None, .01, u(.001, 5), 1e-6, u(.00001, .01)]), fixed & set(w), kwargs=rng.random() < .5)
    w = {'surface_tilt': [30., 60], 'surface_azimuth': [180., 90], 'solar_zenith': [40., 50], 'solar_azimuth': [170., 120], 'poa_global': [600., 500], 'dni_extra': [1367., 1400]}
    go(w, 'intarray')
    # tolerances around the last halving, and the sun at the horizon
    for x in (1e-7, 1.5, .8):
        z = u(10, 70)
        h = dict({k: v[:1] for k, v in w.items()}, solar_zenith=[z], poa_global=[u(200, 700) * np.cos(np.radians(z))])
        for fm in ('scalar', 'array'):
            go(h, fm, x if x < 1e-3 else x * 1.25 * 1367 * np.cos(np.radians(z)) / 2 ** 25)
    z = [89.6, 89.7, 89.9, 90., 89.99, 89.8, 90.5, 95.] * 3
    go({'surface_tilt': [u(0, 90) for _ in z], 'surface_azimuth': [u(90, 270) for _ in z], 'solar_zenith': z, 'solar_azimuth': [180.] * 24, 'poa_global': [.5] * 8 + [5.] * 8 + [9.] * 8, 'dni_extra': [1367.] * 24}, 'array')
    for x in (0, 0., -.01, -5):
        go(w, 'array', x, bad='ValueError')
    c.validate('ReversePoaObs', tr)


def run(c):
    rng = c.rng
    u = rng.uniform
    tr = []
    golden(c, c.model('SearchMC', SCFG), tr)
    recs = c.model('FitsMC', FCFG % (('60', '"0.6"', '"250", "1200"', '"1"') if not c.thorough else ('36, 60, 96', '"0.58", "0.66"', '"250", "1200"', '"1", "1.25"')))
    fs = lambda s: np.array([fl(x) for x in s])
    add = lambda **e: tr.append({'meta': {}, 'ev': [e]})
    ex = lambda st, r: '' if st == 'ok' else r
    rec = lambda d: {k: num(v) for k, v in d.items()}

    def module(ps=False):
        n = rng.choice([36, 60, 72, 96])
        g = u(1, 1.35)
        a = n * .02569 * g
        IL = u(3, 10)
        m = dict(alpha_sc=IL * u(.0003, .0007), I_L_ref=IL, I_o_ref=IL * np.exp(-n * u(.57, .68) / a), R_sh_ref=u(150, 2000), R_s=u(.12, .5) * n / 60)
        if ps:
            m.update(gamma_ref=g, mu_gamma=u(-.0005, .0005), R_sh_0=m['R_sh_ref'] * u(2, 6), cells_in_series=n, R_sh_exp=5.5, EgRef=1.121)
        else:
            m['a_ref'] = a
        return n, m

    def desoto(d, n, truth=None, opts=None, must=False):
        o = {'EgRef': 1.121, 'dEgdT': -.0002677, 'temp_ref': 25, 'irrad_ref': 1000}
        o.update(opts or {})
        kw = dict(opts or {})
        g0 = {}
        if truth is not None:
            g0 = {'IL_0': truth['I_L_ref'] * u(.99, 1.01), 'Io_0': truth['I_o_ref'] * u(.9, 1.1), 'Rs_0': truth['R_s'] * u(.95, 1.05), 'Rsh_0': truth['R_sh_ref'] * u(.95, 1.05), 'a_0': truth['a_ref'] * u(.999, 1.001)}
            kw['init_guess'] = g0
        b4 = dict(g0)
        st, r = outcome(sdm.fit_desoto, d['v_mp'], d['i_mp'], d['v_oc'], d['i_sc'], d['alpha_sc'], d['beta_voc'], n, **kw)
        add(fn='desoto', d=rec(d), o=dict(rec(o), alpha_sc=num(d['alpha_sc'])), exc=ex(st, r), m=rec(r[0]) if st == 'ok' else {'x': 0}, must=must, kept=b4 == g0)
        return st == 'ok'

    def simple(v, i, d, tol):
        kw = {}
        if rng.random() < .3:
            kw['v_oc'] = d['v_oc']
        if rng.random() < .3:
            kw['i_sc'] = d['i_sc']
        if rng.random() < .5:
            kw['v_mp_i_mp'] = (d['v_mp'], d['i_mp'])
        if rng.random() < .3:
            kw['vlim'] = rng.choice([.15, .3])
        if rng.random() < .3:
            kw['ilim'] = rng.choice([.05, .2])
        st, r = outcome(sde.fit_sandia_simple, np.array(v), np.array(i), **kw)
        add(fn='simple', v=nums(v), i=nums(i), d=rec(d), exc=ex(st, r), m=nums(r) if st == 'ok' else [], tol=num(tol))

    def cec(d, n, adj='?', must=False, cell='multiSi'):
        st, r = outcome(sdm.fit_cec_sam, cell, d['v_mp'], d['i_mp'], d['v_oc'], d['i_sc'], d['alpha_sc'], d['beta_voc'], d['gamma'], n)
        add(fn='cec', d=rec(d), exc=ex(st, r), m=nums(r) if st == 'ok' else [], adj=adj, must=must)

    def rectify(v, i, dec):
        forms = rng.choice([np.array, list, pd.Series])
        a, b = forms(v), forms(i)
        a0, b0 = list(v), list(i)
        st, r = outcome(utils.rectify_iv_curve, a, b, *([dec] if dec is not None else []))
        add(fn='rectify', v=nums(v), i=nums(i), dec='None' if dec is None else str(dec), exc=ex(st, r), vo=nums(r[0]) if st == 'ok' else [], io=nums(r[1]) if st == 'ok' else [],
            kept=bool(np.array_equal(a0, list(a), equal_nan=True) and np.array_equal(b0, list(b), equal_nan=True)))

    def astm(v, i, d, tol=.003, **kw):
        st, r = outcome(utils.astm_e1036, v, i, **kw)
        add(fn='astm', v=nums(v), i=nums(i), d=rec(d), nv=kw.get('voc_points', 3), ni=kw.get('isc_points', 3), tol=num(tol), exc=ex(st, r),
            m={k: num(r[k]) for k in ('voc', 'isc', 'vmp', 'imp', 'pmp', 'ff')} if st == 'ok' else {'x': 0})

    def iec(d, n, **o):
        base = {'alpha_sc': None, 'beta_mp': None, 'R_s': None, 'coeff': .12, 'gmin': None, 'gtol': 20, 'ttol': 1, 'EgRef': 1.121}
        base.update(o)
        nm = {'coeff': 'r_sh_coeff', 'gmin': 'min_Rsh_irradiance', 'gtol': 'irradiance_tolerance', 'ttol': 'temperature_tolerance'}
        a = [d[k].copy() for k in ('G', 'T', 'i_sc', 'v_oc', 'i_mp', 'v_mp')]
        b4 = [x.copy() for x in a]
        st, r = outcome(sdm.fit_pvsyst_iec61853_sandia_2025, *a, n, **{nm.get(k, k): v for k, v in o.items()})
        add(fn='iec', d=dict({k: nums(v) for k, v in d.items()}, cells=n), o={k: 'None' if v is None else num(v) for k, v in base.items()},
            exc=ex(st, r), m=rec(r) if st == 'ok' else {'x': 0}, kept=all(np.array_equal(x, y) for x, y in zip(a, b4)))

    # ---- modules enumerated by the specification
    conv = tot = 0
    for k, r in enumerate(recs):
        if r['fn'] == 'curve':
            m = {x: fl(v) for x, v in r['m'].items()}
            d = {x: fl(v) for x, v in r['key'].items()}
            d.update(alpha_sc=m['alpha_sc'], beta_voc=fl(r['beta']))
            n = int(r['n'])
            tot += 1
            conv += desoto(d, n)
            desoto(d, n, truth=m, must=True)
            st, q = outcome(sdm.fit_desoto_batzelis, d['v_mp'], d['i_mp'], d['v_oc'], d['i_sc'], d['alpha_sc'], d['beta_voc'])
            add(fn='batzelis', d=rec(d), exc=ex(st, q), m=rec(q) if st == 'ok' else {'x': 0})
            v, i = np.array([fl(x[0]) for x in r['pts']]), np.array([fl(x[1]) for x in r['pts']])
            simple(v, i, d, 1e-3)
            astm(v, i, d)
            cec(dict(d, gamma=-.42), n, must=False)
        else:
            d = {x: fs(v) for x, v in r['d'].items() if x != 'cells'}
            iec(d, int(r['m']['cells_in_series']))
    add(fn='other', what='desoto.converges-for-half-of-ordinary-modules', ok=conv * 2 >= tot)
    st, r = outcome(sdm.fit_desoto, 31., 8.71, 38.3, 9.43, .005658, -.13788, 60, init_guess={'I0': 1})
    add(fn='other', what='desoto.bad-guess-name', ok=(st, r) == ('exc', 'ValueError'))
    st, r = outcome(sdm.fit_desoto, 0.45, 5.25, .55, 5.5, .00275, .00275, 10)
    add(fn='other', what='desoto.failure-is-an-exception', ok=(st, r) == ('exc', 'RuntimeError'))
    # ---- random modules
    for _ in range(c.pick(25, 400)):
        n, m = module()
        o = {}
        if rng.random() < .4:
            o = {'EgRef': u(1.0, 1.4), 'dEgdT': u(-.0004, -.0001)}
        if rng.random() < .2:
            o.update(temp_ref=20, irrad_ref=800)
        tref, gref = o.get('temp_ref', 25), o.get('irrad_ref', 1000)
        ek = {k: o[k] for k in ('EgRef', 'dEgdT', 'temp_ref', 'irrad_ref') if k in o}
        par = lambda t, m=m, ek=ek, gref=gref: pvsystem.calcparams_desoto(float(gref), float(t), **m, **ek)
        k = {a: float(b[0]) for a, b in keyed(par(tref)).items()}
        p2 = list(par(tref + 2))
        k2 = keyed(p2)
        d = dict(k, alpha_sc=m['alpha_sc'], beta_voc=float(k2['v_oc'][0] - k['v_oc']) / 2)
        desoto(d, n, truth=m, opts=o, must=True)
        st, q = outcome(sdm.fit_desoto_batzelis, d['v_mp'], d['i_mp'], d['v_oc'], d['i_sc'], d['alpha_sc'], d['beta_voc'])
        add(fn='batzelis', d=rec(d), exc=ex(st, q), m=rec(q) if st == 'ok' else {'x': 0})
        npt = rng.choice([60, 100, 200])
        v = np.linspace(0, k['v_oc'], npt)
        pr = par(tref)
        i = np.asarray(pvsystem.i_from_v(v, *pr))
        i[-1] = 0.
        simple(v, i, d, 1e-3)
        # curves that stop short of or run past the axes
        v0 = rng.choice([0., 0., -.3, .004, .5, 1.])
        vv = np.linspace(v0 * k['v_oc'] / 40, k['v_oc'] * rng.choice([1, 1.003, .99, .985]), npt)
        ii = np.asarray(pvsystem.i_from_v(vv, *pr))
        w = list(zip(vv, ii))
        if rng.random() < .5:
            rng.shuffle(w)
        kw = {}
        if rng.random() < .3:
            kw = {'voc_points': rng.choice([2, 4, 5]), 'isc_points': rng.choice([2, 4, 5])}
        if rng.random() < .3:
            kw.update(imax_limits=(.8, 1.1), vmax_limits=(.85, 1.1))
        if rng.random() < .3:
            kw['mp_fit_order'] = rng.choice([3, 5])
        astm(np.array([x for x, _ in w]), np.array([y for _, y in w]), k, **kw)
        # CEC
        adj = u(-8, 8)
        # data sheet coefficients before adjustment
        pc = lambda t: pvsystem.calcparams_cec(1000., t, Adjust=adj, **m)
        hi, lo, mid = (keyed(pc(t)) for t in (26., 24., 25.))
        pw = lambda q: float(q['v_mp'][0] * q['i_mp'][0])
        dc = {a: float(b[0]) for a, b in mid.items()}
        dc.update(alpha_sc=m['alpha_sc'], beta_voc=float(hi['v_oc'][0] - lo['v_oc'][0]) / 2 / (1 + adj / 100), gamma=(pw(hi) - pw(lo)) / 2 / pw(mid) * 100)
        cec(dc, n, adj=num(adj))
    # ---- ADR
    G, T = (x.ravel() for x in np.meshgrid([100., 200, 400, 600, 800, 1000, 1100], [15., 25, 50, 75]))
    for _ in range(c.pick(25, 400)):
        pr = dict(k_a=rng.choice([1., 18., 100., u(.1, 100)]), k_d=u(-10, -2), tc_d=u(.005, .05), k_rs=u(0, .3), k_rsh=u(0, .3))
        I = rng.sample(range(len(G)), rng.choice([len(G), 18]))
        g, t = G[I], T[I]
        eta = pvarray.pvefficiency_adr(g, t, **pr)
        if (eta <= 0).any():
            continue
        st, f = outcome(pvarray.fit_pvefficiency_adr, g, t, eta)
        st2, f2 = outcome(pvarray.fit_pvefficiency_adr, pd.Series(g), pd.Series(t), pd.Series(eta), dict_output=False)
        same = st == 'ok' and st2 == 'ok' and not isinstance(f2, dict) and np.allclose([f[x] for x in ('k_a', 'k_d', 'tc_d', 'k_rs', 'k_rsh')], f2, rtol=1e-6)
        add(fn='adr', G=nums(g), T=nums(t), eta=nums(eta), exc=ex(st, f), m=rec(f) if st == 'ok' else {'x': 0}, same=bool(same))
    # ---- IEC matrix with options
    mg = np.array([100, 100, 200, 200, 400, 400, 400, 600, 600, 600, 600, 800, 800, 800, 800, 1000, 1000, 1000, 1000, 1100, 1100, 1100.])
    mt = np.array([15, 25, 15, 25, 15, 25, 50, 15, 25, 50, 75, 15, 25, 50, 75, 15, 25, 50, 75, 25, 50, 75.])
    for _ in range(c.pick(20, 300)):
        n, m = module(True)
        g, t = mg.copy(), mt.copy()
        o = {}
        if rng.random() < .3:
            g[g == 1000] = u(985, 1015)
            t[t == 25] = u(24.3, 25.7)
        if rng.random() < .2:
            o['gtol'] = 120.
            g[g == 1100] = 1400.
            g[g == 1000] = 1100.
        keep = [k for k in range(len(g)) if rng.random() < .9 or abs(t[k] - 25) < 1 or 980 < g[k] < 1120]
        g, t = g[keep], t[keep]
        d = dict(G=g, T=t, **keyed(pvsystem.calcparams_pvsyst(g, t, **m)))
        for k, lo, hi in (('alpha_sc', .001, .006), ('beta_mp', -.005, -.002), ('R_s', .1, .6), ('coeff', .08, .3), ('EgRef', 1., 1.4)):
            if rng.random() < .25:
                o[k] = u(lo, hi)
        if rng.random() < .25:
            o['gmin'] = rng.choice([200, 400.])
        iec(d, n, **o)
        st, y = outcome(sdm.pvsyst_temperature_coeff, **m)
        add(fn='gamma', m=dict(rec(m), irrad_ref='1000', temp_ref='25', cells_in_series=n), exc=ex(st, y), y=num(y) if st == 'ok' else 'NaN')
    # ---- Sandia methods on whole sets of curves
    jobs = []
    for k in range(c.pick(6, 48)):
        kind = ['pvsyst_sandia', 'desoto_sandia'][k % 2]
        n, m = module(kind == 'pvsyst_sandia')
        while kind == 'desoto_sandia' and n < 60:      # below, the method loses most curves
            n, m = module()
        if kind == 'desoto_sandia':
            m['a_ref'] = n * .02569 * u(1, 1.2)
            m['I_o_ref'] = m['I_L_ref'] * np.exp(-n * u(.58, .66) / m['a_ref'])
        g, t = (x.ravel() for x in np.meshgrid([200., 400, 600, 800, 1000] if kind == 'pvsyst_sandia' else [500., 600, 700, 800, 900, 1000], [15., 25, 45, 60]))
        jobs.append((kind, n, m, g, t, 120))
    for e in pmap(sandia, jobs):
        add(**e)
    # ---- curve clean-up
    for _ in range(c.pick(60, 600)):
        n = rng.randint(1, 14)
        pool = [0., .5, 1.25, 3.333, rng.uniform(0, 40), -.2, float('nan')]
        v = [rng.choice(pool + [rng.uniform(0, 40)]) for _ in range(n)] + [2.]
        i = [rng.choice([rng.uniform(0, 9), rng.uniform(0, 9), 0., -.1, float('nan')]) for _ in range(n)] + [1.]
        rectify(v, i, rng.choice([None, None, 0, 1, 2]))
    c.validate('Fits', tr)
    reverse(c)


main(run)
