"""C31: spectral mismatch, response, averages and SPECTRL2 against Spectral.tla."""
import io
import numpy as np
import pandas as pd
from vh import *
import point
from pvlib import spectrum
from pvlib.spectrum import *

CFG = '''INIT Init
NEXT Next
INVARIANTS Sapm Fs PvRef Cab PoloB PoloBehind ApeScale ApeRange FieldScale FieldFlat FieldSelf ApeBlue Totals S2Inv Emit
'''
S2COLS = ['dni_extra', 'dni', 'dhi', 'poa_direct', 'poa_sky_diffuse', 'poa_ground_diffuse', 'poa_global']
S2ARGS = ['apparent_zenith', 'aoi', 'surface_tilt', 'ground_albedo', 'surface_pressure', 'relative_airmass',
          'precipitable_water', 'ozone', 'aerosol_turbidity_500nm']
ORDER = {'sapm': ['airmass_absolute'], 'firstsolar': ['precipitable_water', 'airmass_absolute'],
         'caballero': ['precipitable_water', 'airmass_absolute', 'aod500'],
         'pvspec': ['airmass_absolute', 'clearsky_index'], 'jrc': ['airmass', 'clearsky_index'],
         'polo': ['precipitable_water', 'airmass_absolute', 'aod500', 'aoi', 'pressure']}
LOWERED = ('firstsolar', 'pvspec', 'jrc')


def caller(fn, k, rng):
    f = getattr(spectrum, 'spectral_factor_' + fn)
    if fn == 'sapm':
        m = {'A%d' % i: a for i, a in enumerate(k['A'])}
        m.update(B0=3., Name='x')
        if rng.random() < .5:
            m = pd.Series(m)
        return lambda airmass_absolute: f(airmass_absolute, m)
    kw = {}
    if not k['coef']:
        t = k['type']
        kw['module_type'] = rng.choice([t, t.upper(), t.title()]) if fn in LOWERED else t
    else:
        kw['coefficients'] = rng.choice([tuple, list, np.array])(k['coef'])
    if fn == 'firstsolar':
        l = k['lim']
        if tuple(l) != (.1, 8., .58, 10.) or rng.random() < .5:
            kw.update(min_precipitable_water=l[0], max_precipitable_water=l[1], min_airmass_absolute=l[2], max_airmass_absolute=l[3])
    if rng.random() < .5:
        o = ORDER[fn]
        return lambda **a: f(*[a.pop(x) for x in o], **a, **kw)
    return lambda **a: f(**a, **kw)


def lst(x):
    return [fl(y) for y in x] if isinstance(x, list) else x


def rows2(df):
    return [nums(df.iloc[i]) for i in range(len(df))]


def run(c):
    recs = c.model('SpectralMC', CFG)
    rng = c.rng
    tr = []

    def add(**e):
        tr.append({'meta': {}, 'ev': [e]})

    def pt(fn, rows, k, f, **o):
        for t in point.forms(fn, f, rows, {}, rng, cols=['y'], encode_k={a: enc(v) for a, v in k.items()} or {'none': 0},
                             series_out='some', **o):
            t['ev'][0]['kind'] = 'point'
            tr.append(t)

    # ---- factors
    s2rows = []
    for fn, rows, k in point.group([r for r in recs if r['fn'] != 's2']):
        k = {a: lst(v) for a, v in k.items()}
        pt(fn, rows, k, caller(fn, k, rng))
        if fn in LOWERED or fn in ('caballero', 'polo'):
            n = c.pick(8, 120)
            rr = {a: [{'precipitable_water': rng.uniform(.01, 9), 'airmass_absolute': rng.uniform(.4, 12), 'airmass': rng.uniform(.9, 12),
                       'aod500': rng.uniform(.01, 1), 'clearsky_index': rng.uniform(.05, 1.4), 'aoi': rng.uniform(0, 130),
                       'pressure': rng.uniform(6e4, 1.1e5), 'albedo': rng.uniform(0, .9)}[a] for _ in range(n)] for a in rows}
            # a night, a missing value
            for i in range(n):
                if rng.random() < .2:
                    rr[rng.choice(sorted(rr))][i] = np.nan
            pt(fn, rr, k, caller(fn, k, rng), ints=False)
    for form in ('scalar', 'array', 'series'):
        k = {'A': [.928, .068, -.0077, .0001, -.000002]}
        e = point.one('sapm', caller('sapm', k, rng), {'airmass_absolute': [np.nan] if form == 'scalar' else [np.nan, 1., np.nan]}, {}, form, cols=['y'], encode_k=enc(k))
        add(**dict(e, kind='point'))
    # albedo omitted
    kd = {'coef': [], 'type': 'cdte'}
    e = point.one('polo', lambda **a: spectral_factor_polo(module_type='cdte', **{x: y for x, y in a.items() if x != 'albedo'}),
                  {'precipitable_water': [1., 2.], 'airmass_absolute': [1.2, 3.], 'aod500': [.1, .2], 'aoi': [10., 70.],
                   'pressure': [1e5, 9e4], 'albedo': [.2, .2]}, {}, 'array', cols=['y'], encode_k=enc(kd))
    add(**dict(e, kind='point'))
    x2 = np.array([1., 2.])
    for f in (lambda aoi: spectral_factor_firstsolar(x2, x2), lambda aoi: spectral_factor_firstsolar(x2, x2, 'cdte', [1] * 6),
              lambda aoi: spectral_factor_firstsolar(x2, x2, 'nonsense'),
              lambda aoi: spectral_factor_caballero(x2, x2, x2), lambda aoi: spectral_factor_caballero(x2, x2, x2, 'cdte', [1] * 12),
              lambda aoi: spectral_factor_caballero(x2, x2, x2, 'nonsense'),
              lambda aoi: spectral_factor_pvspec(x2, x2), lambda aoi: spectral_factor_pvspec(x2, x2, 'cigs', [1, 1, 1]),
              lambda aoi: spectral_factor_pvspec(x2, x2, 'nonsense'),
              lambda aoi: spectral_factor_jrc(x2, x2), lambda aoi: spectral_factor_jrc(x2, x2, 'cdte', [1, 1, 1]),
              lambda aoi: spectral_factor_jrc(x2, x2, 'asi'),
              lambda aoi: spectral_factor_polo(x2, x2, x2, x2, x2), lambda aoi: spectral_factor_polo(x2, x2, x2, x2, x2, 'cdte', [1] * 9),
              lambda aoi: spectral_factor_polo(x2, x2, x2, x2, x2, 'nonsense')):
        add(**dict(point.one('reject', f, {'aoi': [10., 20.]}, {}, 'array'), kind='point'))
    # ---- conversions, element by element and with an explicit wavelength
    for fn in ('sr_to_qe', 'qe_to_sr'):
        f = getattr(spectrum, fn)
        n = 12
        pt(fn, {'x': [rng.uniform(0, 1) for _ in range(n)], 'wavelength': [rng.uniform(280, 4000) for _ in range(n)]}, {},
           (lambda f: lambda x, wavelength: f(x, wavelength))(f), mixed=2)

    def conv(fn, x, w, give, normalize, form):
        f, g = getattr(spectrum, fn), getattr(spectrum, {'sr_to_qe': 'qe_to_sr', 'qe_to_sr': 'sr_to_qe'}[fn])
        if form == 'series':
            o = pd.Series(x[0], index=w, name='dev')
        elif form == 'frame':
            o = pd.DataFrame({'c%d' % j: r for j, r in enumerate(x)}, index=w)
        elif form == '2d':
            o = np.array(x)
        else:
            o = np.array(x[0])
        before = o.copy()
        kw = dict(wavelength=np.array(w)) if give else {}
        if form == 'frame' and give:
            return
        if form == 'frame':   # dividing a frame by its index needs one column per call
            return
        st, r = outcome(f, o, normalize=normalize, **kw)
        e = dict(kind='conv', fn=fn, form=form, w=nums(w), x=[nums(y) for y in x], normalize=normalize, exc='' if st == 'ok' else r, expect='',
                 out=[], back=[], typed=True, kept=True)
        if form in ('array', '2d') and not give:
            e['expect'] = 'TypeError'
        if st == 'ok':
            st2, b = outcome(g, r, **kw)
            e['out'] = [nums(y) for y in r] if form == '2d' else [nums(r)]
            if st2 == 'ok':
                e['back'] = [nums(y) for y in b] if form == '2d' else [nums(b)]
            e['typed'] = bool(form != 'series' or (isinstance(r, pd.Series) and r.index.equals(o.index) and r.name == 'dev'))
            e['kept'] = bool(np.array_equal(np.asarray(before), np.asarray(o)))
        add(**e)
    for _ in range(c.pick(6, 60)):
        w = sorted(rng.uniform(280, 2500) for _ in range(rng.randint(2, 9)))
        x = [[rng.uniform(0, 1.2) for _ in w] for _ in range(rng.randint(2, 3))]
        for fn in ('sr_to_qe', 'qe_to_sr'):
            for form in ('series', '2d', 'array'):
                for give in (False, True):
                    for nz in (False, True):
                        conv(fn, x if form == '2d' else x[:1], w, give, nz, form)

    # ---- mismatch field and photon energy
    def srs():
        n = rng.randint(2, 8)
        w = sorted(rng.sample(range(280, 1300), n))
        return pd.Series([rng.uniform(.01, 1) for _ in w], index=[float(x) for x in w])

    def spec(ncol, nrow):
        w = sorted(rng.sample(range(250, 4200), ncol))
        d = pd.DataFrame([[rng.choice([rng.uniform(0, 2), rng.uniform(0, 2), 0.]) for _ in w] for _ in range(nrow)],
                         columns=[float(x) + rng.choice([0, .25]) for x in w], index=point.IDX[:nrow])
        return d

    def field(sr, sun, ref, series):
        o = sun.iloc[0] if series else sun
        b = (sr.copy(), o.copy(), None if ref is None else ref.copy())
        args = (sr, o) if ref is None else (sr, o, ref)
        st, r = outcome(calc_spectral_mismatch_field, *args)
        k = rng.uniform(.01, 100)
        st2, r2 = outcome(calc_spectral_mismatch_field, sr * rng.uniform(.1, 10), o * k, *([] if ref is None else [ref * rng.uniform(.1, 9)]))
        d = sun.iloc[:1] if series else sun
        add(kind='field', srw=nums(sr.index), sr=nums(sr), w=nums(sun.columns), sun=rows2(d),
            refw=[] if ref is None else nums(ref.index), ref=[] if ref is None else nums(ref), exc='' if st == 'ok' else r,
            out=nums(r) if st == 'ok' else [], scaled=nums(r2) if st2 == 'ok' else [],
            typed=bool(st != 'ok' or (np.ndim(r) == 0 if series else (isinstance(r, pd.Series) and r.index.equals(sun.index)))),
            kept=bool(b[0].equals(sr) and b[1].equals(o) and (ref is None or b[2].equals(ref))))

    def ape(sun, series, expect=''):
        o = sun.iloc[0] if series is True else sun
        b = o.copy() if hasattr(o, 'copy') else o
        st, r = outcome(average_photon_energy, o)
        e = dict(kind='ape', expect=expect, exc='' if st == 'ok' else r, w=[], spectra=[], out=[], scaled=[], typed=True, kept=True)
        if not expect:
            d = sun.iloc[:1] if series else sun
            st2, r2 = outcome(average_photon_energy, o * rng.uniform(.01, 50))
            e.update(w=nums(sun.columns), spectra=rows2(d), out=nums(r) if st == 'ok' else [], scaled=nums(r2) if st2 == 'ok' else [],
                     typed=bool(st != 'ok' or (np.ndim(r) == 0 if series else (isinstance(r, pd.Series) and r.index.equals(sun.index)))),
                     kept=bool(b.equals(o)))
        add(**e)
    for _ in range(c.pick(14, 200)):
        sun = spec(rng.randint(2, 12), rng.randint(1, 4))
        ref = rng.choice([None, None, spec(rng.randint(2, 9), 1).iloc[0]])
        for series in (False, True):
            field(srs(), sun, ref, series)
            s2_ = sun.copy()
            if rng.random() < .4:
                s2_.iloc[-1] = 0.
            if rng.random() < .4:
                s2_.iloc[0, 1] = np.nan
            ape(s2_, series)
    ex = spectrum.get_example_spectral_response()
    g = get_reference_spectra()
    field(ex, g[['global', 'direct', 'extraterrestrial']].T.iloc[:, ::20], None, False)
    field(ex, g[['direct']].T.iloc[:, ::40], g['global'].iloc[::40], True)
    neg = spec(4, 2)
    neg.iloc[1, 2] = -1e-3
    ape(neg, False, 'ValueError')
    ape(neg.iloc[[1, 0]], True, 'ValueError')
    ape(neg.abs().values, False, 'TypeError')
    ape([1., 2.], False, 'TypeError')

    # ---- reference spectra, at and between the tabulated wavelengths
    def refs(w, expect='', **kw):
        st, r = outcome(get_reference_spectra, *([] if w is None else [w]), **kw)
        e = dict(kind='reference', w=[] if w is None else nums(w), expect=expect, exc='' if st == 'ok' else r, columns=[], index=[], out={'none': []})
        if st == 'ok':
            e.update(columns=list(map(str, r.columns)), index=nums(r.index), out={str(k): nums(r[k]) for k in r.columns})
        add(**e)
    refs(None)
    for f in (list, np.array, pd.Index):
        refs(f(sorted({280., 4000., 279.9, 4000.1, 400., 1700.} | {rng.uniform(250, 4200) for _ in range(40)})))
    refs([500.])
    refs(np.array([300., 900.]), standard='ASTM G173-03')
    refs(np.array([300., 900.]), 'ValueError', standard='nonsense')
    # the caller owns what it gets
    g.iloc[:] = -1.
    refs(None)

    # ---- example response
    kn = [290, 350, 400, 500, 650, 800, 900, 950, 1000, 1050, 1100, 1150, 1190]
    grid = [[a + (b - a) * i / 6 for i in range(7)] for a, b in zip(kn, kn[1:])]
    st, r = outcome(get_example_spectral_response, np.array(sum(grid, [])))
    st2, o = outcome(get_example_spectral_response, np.array([100., 289.999, 1190.001, 1200., 4000.]))
    st3, d = outcome(get_example_spectral_response)
    st4, ag = outcome(get_example_spectral_response, np.arange(280, 1205, 5.0))
    bad = [x for s, x in ((st, r), (st2, o), (st3, d), (st4, ag)) if s != 'ok']
    e = dict(kind='example', exc=bad[0] if bad else '')
    if not bad:
        e.update(seg=[nums(r.values[7 * i:7 * i + 7]) for i in range(12)], outside=nums(o), default=nums(d), defindex=nums(d.index),
                 again=nums(ag), names=[str(d.index.name), str(d.name)])
    add(**e)

    # ---- SPECTRL2
    def s2(rows, form, day, opt, spectral=False):
        n = len(rows)
        idx = point.IDX[:n] if rng.random() < .5 else pd.date_range(
            rng.choice(['2019-12-31 20:00', '2020-02-29 03:00', '2020-12-31 12:00']), periods=n, freq='7h', tz=rng.choice(['UTC', 'Etc/GMT+9', 'Asia/Tokyo']))
        args = {a: np.array([fl(r[a]) for r in rows]) for a in S2ARGS}
        alb = []
        if form == 'series':
            args = {a: pd.Series(v, index=idx) for a, v in args.items()}
        if form == 'scalar':
            args = {a: float(v[0]) for a, v in args.items()}
        if spectral:
            alb = [rng.uniform(0, .8) for _ in range(122)]
            args['ground_albedo'] = np.repeat(np.array(alb)[:, None], n, axis=1)
        if form == 'mixed':
            j = rng.randrange(n)
            for a in ('surface_tilt', 'surface_pressure', 'ozone', 'aerosol_turbidity_500nm'):
                args[a] = fl(rows[j][a])
            rows = [dict(r, **{a: rows[j][a] for a in ('surface_tilt', 'surface_pressure', 'ozone', 'aerosol_turbidity_500nm')}) for r in rows]
        doy = [float(rng.randint(1, 366)) for _ in rows]
        kw = dict(opt)
        if day == 'given':
            kw['dayofyear'] = doy[0] if form == 'scalar' else np.array(doy)
        before = {a: (v.copy() if hasattr(v, 'copy') else v) for a, v in args.items()}
        st, r = outcome(spectrl2, **args, **kw)
        o = dict(scattering_albedo_400nm=.945, alpha=1.14, wavelength_variation_factor=.095, aerosol_asymmetry_factor=.65)
        o.update(opt)
        e = dict(kind='spectrl2', form=form, n=n, day='index' if form == 'series' else day, doy=nums(doy), expect='', exc='' if st == 'ok' else r,
                 days=[int(t) for t in (idx.tz_convert('UTC').normalize() - pd.Timestamp(0, tz='UTC')) // pd.Timedelta('1D')],
                 spectral_albedo=nums(alb), kept=all(point._same(before[a], args[a]) for a in args),
                 picked=sorted(rng.sample(range(1, 123), c.pick(14, 50)) + [1, 18, 122]), wavelength=[], out={},
                 rows=[{'apparent_zenith': num(q['apparent_zenith']), 'aoi': num(q['aoi']), 'surface_tilt': num(q['surface_tilt']),
                        'ground_albedo': num(q['ground_albedo']), 'pressure': num(q['surface_pressure']), 'airmass': num(q['relative_airmass']),
                        'pw': num(q['precipitable_water']), 'ozone': num(q['ozone']), 'aod': num(q['aerosol_turbidity_500nm']),
                        'albedo400': num(o['scattering_albedo_400nm']), 'alpha': num(o['alpha']), 'variation': num(o['wavelength_variation_factor']),
                        'asymmetry': num(o['aerosol_asymmetry_factor'])} for q in rows])
        if day == 'none' and form != 'series':
            e['expect'] = 'raise'
        if st == 'ok':
            e['wavelength'] = nums(r['wavelength'])
            e['out'] = {k: [nums(row) for row in np.asarray(r[k])] for k in S2COLS if k in r}
        add(**e)
    base = [{a: fl(v) for a, v in r['a'].items()} for r in recs if r['fn'] == 's2']
    rng.shuffle(base)
    for i in range(0, c.pick(36, len(base)), 6):
        s2(base[i:i + 6], ('array', 'series', 'mixed')[(i // 6) % 3], 'given', {})
    for i in range(c.pick(12, 150)):
        n = rng.randint(1, 5)
        rows = []
        for _ in range(n):
            z = rng.choice([rng.uniform(0, 90), rng.uniform(80, 92)])
            rows.append(dict(apparent_zenith=z, aoi=rng.uniform(0, 140), surface_tilt=rng.uniform(0, 120), ground_albedo=rng.uniform(0, .9),
                             surface_pressure=rng.uniform(6e4, 1.05e5), relative_airmass=float(np.nan if z > 90 else rng.uniform(1, 30)),
                             precipitable_water=rng.uniform(.1, 6), ozone=rng.uniform(.1, .5), aerosol_turbidity_500nm=rng.uniform(.01, .6)))
        opt = {k: rng.uniform(a, b) for k, a, b in (('scattering_albedo_400nm', .7, 1), ('alpha', .5, 2), ('wavelength_variation_factor', .02, .2),
                                                    ('aerosol_asymmetry_factor', .3, .85)) if rng.random() < .5}
        form = rng.choice(['array', 'series', 'mixed', 'scalar'])
        s2(rows[:1] if form == 'scalar' else rows, form, 'given', opt, spectral=rng.random() < .3)
    s2(base[:2], 'array', 'none', {})
    s2(base[:2], 'series', 'none', {})
    s2(base[:2], 'series', 'none', {'alpha': 1.3}, spectral=True)
    c.validate('Spectral', tr)


main(run)
