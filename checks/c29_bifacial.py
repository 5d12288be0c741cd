import numpy as np
import pandas as pd
from vh import *
import point
from pvlib import shading, bifacial
from pvlib.bifacial import utils as u, infinite_sheds, ants2d, loss_models

CFG = '''INIT Init
NEXT Next
INVARIANTS UnitInterval RowComplement Conservation SegmentsAdd Unshaded NoShadeAtNoon MaskMonotone Emit
'''


def direct(fn, k):
    P = 2.5
    if fn == 'masking_angle_passias':
        return lambda surface_tilt: shading.masking_angle_passias(surface_tilt, k['gcr'])
    if fn == 'power_mismatch_deline':
        kw = {} if k['ff'] == 'None' else {'fill_factor': k['ff'], 'fill_factor_reference': k['ffref']}
        return lambda rmad: loss_models.power_mismatch_deline(rmad, coefficients=k['c'], **kw)
    if fn in ('vf_row_sky_2d', 'vf_row_ground_2d'):
        return lambda surface_tilt, x: getattr(u, fn)(surface_tilt, k['gcr'], x)
    if fn == 'vf_row_sky_2d_integ':
        return lambda surface_tilt: u.vf_row_sky_2d_integ(surface_tilt, k['gcr'], k['x0'], k['x1'])
    if fn == 'vf_row_ground_2d_integ':
        return lambda surface_tilt: u.vf_row_ground_2d_integ(surface_tilt, k['gcr'], k['hp'] * P, P, k['x0'], k['x1'], int(k['rows']), k['g0'], k['g1'])
    if fn == 'vf_ground_sky_2d':
        return lambda x: u.vf_ground_sky_2d(k['rotation'], k['gcr'], x, P, k['hp'] * P, int(k['rows']))
    if fn == 'vf_ground_sky_2d_integ':
        return lambda tracker_rotation: u.vf_ground_sky_2d_integ(tracker_rotation, k['gcr'], k['hp'] * P, P, int(k['rows']), g0=k['g0'], g1=k['g1'])
    if fn == 'unshaded_ground_fraction':
        return lambda tracker_rotation, phi: u._unshaded_ground_fraction(
            tracker_rotation, phi, k['gcr'], height=k['hp'] * P, pitch=P, max_rows=int(k['rows']), g0=k['g0'], g1=k['g1'])
    return getattr(shading, fn)


def run(c):
    rng = c.rng
    recs = c.model('BifacialMC', CFG)
    tr = []

    def pt(fn, rows, k, f=None, **o):
        o.setdefault('mixed', 0)
        o.setdefault('forms', ('array', 'series', 'scalar'))
        ek = {a: (int(v) if a in ('rows', 'n') else enc(v)) for a, v in k.items()} or {'none': 0}
        f = f or direct(fn, k)
        for t in point.forms(fn, f, rows, {}, rng, encode_k=ek, **o):
            t['ev'][0]['kind'] = 'point'
            tr.append(t)

    numeric = ('ground_angle', 'masking_angle', 'sky_diffuse_passias', 'shaded_fraction1d', 'direct_martinez',
               'projected_solar_zenith_angle', 'vf_row_sky_2d', 'vf_row_ground_2d')
    for fn, rows, k in point.group(recs):
        o = {}
        if fn in numeric and len(rows) > 1:
            o['mixed'] = 2
        if fn.startswith('vf_') or fn == 'unshaded_ground_fraction':
            o['series_out'] = False
        if 'integ' in fn:
            o.update(forms=('array', 'scalar'), nscalar=1)
        if fn == 'vf_ground_sky_2d':
            o['forms'] = ('array', 'scalar')
        if fn == 'masking_angle_passias':
            o['ints'] = True
        pt(fn, rows, k, **o)

    U = rng.uniform
    for _ in range(c.pick(6, 120)):
        n = 6
        g = U(.1, .97)
        pt('ground_angle', {'surface_tilt': [U(0, 180) for _ in range(n)], 'gcr': [U(.05, 1) for _ in range(n)], 'slant_height': [U(0, 1) for _ in range(n)]}, {}, mixed=1)
        pt('masking_angle', {'surface_tilt': [U(0, 180) for _ in range(n)], 'gcr': [U(.05, 1) for _ in range(n)], 'slant_height': [U(0, 1) for _ in range(n)]}, {}, mixed=1)
        pt('masking_angle_passias', {'surface_tilt': [U(0, 179) for _ in range(n)] + [0.]}, {'gcr': g})
        pt('sky_diffuse_passias', {'masking_angle': [U(0, 90) for _ in range(n)] + [float('nan')]}, {})
        m = 12
        w = U(.5, 4)
        rows = {'solar_zenith': [U(0, 89.9) for _ in range(m)], 'solar_azimuth': [U(0, 360) for _ in range(m)], 'axis_azimuth': [U(0, 360) for _ in range(m)],
                'shaded_row_rotation': [U(-75, 75) for _ in range(m)], 'collector_width': [w] * m, 'pitch': [U(w * .9, 4 * w) for _ in range(m)],
                'axis_tilt': [rng.choice([0., U(-15, 15)]) for _ in range(m)], 'surface_to_axis_offset': [rng.choice([0., U(0, .3)]) for _ in range(m)],
                'cross_axis_slope': [rng.choice([0., U(-12, 12)]) for _ in range(m)]}
        pt('shaded_fraction1d', rows, {}, mixed=2, nscalar=2)
        pt('shaded_fraction1d', dict(rows, shading_row_rotation=[U(-75, 75) for _ in range(m)]), {}, mixed=1, nscalar=1)
        # rows partly in shade: the pitch is drawn to put the edge of the shadow on the row
        edge = {a: [] for a in [*rows, 'shading_row_rotation']}
        while len(edge['pitch']) < 2 * m:
            r = {'solar_zenith': U(0, 89), 'solar_azimuth': U(0, 360), 'axis_azimuth': U(0, 360), 'shaded_row_rotation': U(-75, 75), 'collector_width': U(.5, 4), 'axis_tilt': rng.choice([0., U(-15, 15)]),
                 'surface_to_axis_offset': U(-.4, .6), 'cross_axis_slope': rng.choice([0., U(-40, 40)]), 'shading_row_rotation': U(-75, 75)}
            th = float(shading.projected_solar_zenith_angle(r['solar_zenith'], r['solar_azimuth'], r['axis_tilt'], r['axis_azimuth']))
            cs, sn = (lambda d: np.cos(np.radians(d))), (lambda d: np.sin(np.radians(d)))
            c2 = abs(cs(r['shaded_row_rotation'] - th))
            if c2 < .05:
                continue
            full = (.5 + abs(cs(r['shading_row_rotation'] - th)) / c2 / 2
                    + np.sign(th) * r['surface_to_axis_offset'] / r['collector_width'] / c2 * (sn(r['shaded_row_rotation'] - th) - sn(r['shading_row_rotation'] - th)))
            r['pitch'] = float((full - U(-.05, 1.05)) * r['collector_width'] * c2 * cs(r['cross_axis_slope']) / cs(th - r['cross_axis_slope']))
            if r['pitch'] < .05:
                continue
            for a, v in r.items():
                edge[a].append(v)
        pt('shaded_fraction1d', edge, {}, mixed=1, nscalar=1)
        for a, d in (('axis_tilt', 0.), ('surface_to_axis_offset', 0.), ('cross_axis_slope', 0.)):
            r2 = {b: v for b, v in rows.items() if b != a}
            for t in point.forms('shaded_fraction1d', shading.shaded_fraction1d, r2, {}, rng, forms=('array',), mixed=0, ints=False):
                e = t['ev'][0]
                e['kind'] = 'point'
                e['a'][a] = [num(d)] * e['n']
                tr.append(t)
        pg = [U(10, 1100) for _ in range(n)]
        pt('direct_martinez', {'poa_global': pg, 'poa_direct': [x * U(0, 1) for x in pg], 'shaded_fraction': [U(0, 1) for _ in range(n)],
                               'shaded_blocks': [float(rng.choice([0, 1, 2, 3, U(0, 3)])) for _ in range(n)], 'total_blocks': [float(rng.randint(3, 9)) for _ in range(n)]}, {}, mixed=1)
        pt('power_mismatch_deline', {'rmad': [U(0, .2) for _ in range(n)]}, {'c': [U(0, .01), U(.05, .2), U(0, 4)], 'ff': rng.choice(['None', U(.5, .85)]), 'ffref': U(.6, .85)})
        # geometry of rows
        hp = g / 2 + rng.choice([.02, .3, 1.])
        rot = [U(-180, 180) for _ in range(4)]
        x0 = U(0, .7); x1 = U(x0 + .05, 1); g0 = U(0, .7); g1 = U(g0 + .05, 1)
        pt('vf_row_sky_2d', {'surface_tilt': [abs(r) for r in rot], 'x': [U(0, 1) for _ in rot]}, {'gcr': g}, mixed=1, series_out=False)
        pt('vf_row_ground_2d', {'surface_tilt': [abs(r) for r in rot], 'x': [U(0, 1) for _ in rot]}, {'gcr': g}, mixed=1, series_out=False)
        pt('vf_row_sky_2d_integ', {'surface_tilt': rot}, {'gcr': g, 'x0': x0, 'x1': x1}, series_out=False)
        pt('vf_row_sky_2d_integ', {'surface_tilt': rot}, {'gcr': g, 'x0': 0., 'x1': 1.}, f=lambda surface_tilt: u.vf_row_sky_2d_integ(surface_tilt, g), series_out=False)
        kk = {'gcr': g, 'hp': hp, 'x0': x0, 'x1': x1, 'g0': g0, 'g1': g1, 'rows': 15, 'n': 16}
        pt('vf_row_ground_2d_integ', {'surface_tilt': rot}, kk, series_out=False, nscalar=1)
        pt('vf_row_ground_2d_integ', {'surface_tilt': rot}, dict(kk, hp=g, x0=0., x1=1., g0=0., g1=1., rows=20, n=12), f=lambda surface_tilt: u.vf_row_ground_2d_integ(surface_tilt, g), series_out=False, nscalar=1)
        kk = {'gcr': g, 'hp': hp, 'g0': g0, 'g1': g1, 'rows': 10, 'n': 12}
        pt('vf_ground_sky_2d_integ', {'tracker_rotation': rot}, kk, series_out=False, nscalar=1)
        pt('vf_ground_sky_2d', {'x': [U(0, 1) for _ in range(6)]}, {'rotation': rot[0], 'gcr': g, 'hp': hp, 'rows': 10}, forms=('array', 'scalar'), series_out=False, ints=False)
        ph = [rng.choice([U(-86, 86), U(-40, 40)]) for _ in range(4)]
        pt('unshaded_ground_fraction', {'tracker_rotation': rot, 'phi': ph}, dict(kk, n=1), series_out=False, mixed=1)
        pt('unshaded_ground_fraction', {'tracker_rotation': rot, 'phi': ph}, dict(kk, hp=g, g0=0., g1=1., n=1), f=lambda tracker_rotation, phi: u._unshaded_ground_fraction(tracker_rotation, phi, g),
           series_out=False)
        # conservation, additivity
        p = U(1, 8)
        r = rng.choice([rot[0], 0., 90., -90., 45.])
        b = (r + 360) % 360 - 180
        def cons():
            return dict(gs=u.vf_ground_sky_2d_integ(r, g, hp * p, p, max_rows=150),
                        fg=u.vf_row_ground_2d_integ(r, g, hp * p, p, max_rows=150), bg=u.vf_row_ground_2d_integ(b, g, hp * p, p, max_rows=150),
                        fs=u.vf_row_sky_2d_integ(r, g), bs=u.vf_row_sky_2d_integ(b, g))
        st, v = outcome(cons)
        tr.append({'meta': {}, 'ev': [dict({'kind': 'cons', 'exc': '' if st == 'ok' else v, 'gcr': num(g), 'rot': num(r), 'hp': num(hp)}, **({a: num(z) for a, z in v.items()} if st == 'ok' else {}))]})

        def add(what, whole, parts, w, tol='1e-9'):
            st, v = outcome(lambda: (float(whole()), [float(q) for q in parts()]))
            tr.append({'meta': {}, 'ev': [{'kind': 'add', 'what': what, 'exc': '' if st == 'ok' else v, 'tol': tol,
                                           'whole': num(v[0]) if st == 'ok' else '0', 'parts': nums(v[1]) if st == 'ok' else [], 'w': nums(w)}]})
        e = np.array([0.] + sorted(U(0, 1) for _ in range(rng.randint(1, 4))) + [1.])
        l, h_, w = e[:-1], e[1:], np.diff(e)
        ones = np.ones(len(l))
        add('row-sky', lambda: u.vf_row_sky_2d_integ(r, g), lambda: u.vf_row_sky_2d_integ(r, g, l, h_).ravel(), w, '1e-7')
        add('row-ground-x', lambda: u.vf_row_ground_2d_integ(r, g, hp * p, p, max_rows=30), lambda: u.vf_row_ground_2d_integ(r, g, hp * p, p, l, h_, 30).ravel(), w, '3e-3')
        add('row-ground-g', lambda: u.vf_row_ground_2d_integ(r, g, hp * p, p, x0, x1, 30), lambda: u.vf_row_ground_2d_integ(r, g, hp * p, p, x0, x1, 30, l, h_).ravel(), ones, '1e-6')
        add('ground-sky', lambda: u.vf_ground_sky_2d_integ(r, g, hp * p, p), lambda: u.vf_ground_sky_2d_integ(r, g, hp * p, p, g0=l, g1=h_).ravel(), w, '1e-6')
        add('lit', lambda: u._unshaded_ground_fraction(r, ph[0], g, hp * p, p, max_rows=40), lambda: u._unshaded_ground_fraction(r, ph[0], g, hp * p, p, max_rows=40, g0=l, g1=h_).ravel(), w, '1e-9')

    # infinite sheds
    def weather(n, night=True):
        zen = [rng.choice([U(1, 80), U(75, 89), U(5, 60)]) if not night or rng.random() < .85 else U(90, 130) for _ in range(n)]
        dni = [0. if z >= 90 else rng.choice([0., U(50, 950)]) for z in zen]
        dhi = [0. if z >= 90 else U(5, 400) for z in zen]
        ghi = [h + b * np.cos(np.radians(z)) for h, b, z in zip(dhi, dni, zen)]
        return {'solar_zenith': zen, 'solar_azimuth': [U(0, 360) for _ in zen], 'ghi': ghi, 'dhi': dhi, 'dni': dni}
    for _ in range(c.pick(5, 80)):
        n = 3
        g = U(.15, .9)
        p = U(2, 8)
        h = g * p / 2 + U(.1, 2)
        wx = weather(n)
        wx['dni_extra'] = [U(1320, 1410) for _ in range(n)]
        rows = dict(wx, surface_tilt=[U(0, 90) for _ in range(n)], surface_azimuth=[U(0, 360) for _ in range(n)], albedo=[U(.1, .8) for _ in range(n)])
        model = rng.choice(['isotropic', 'haydavies'])
        k = {'gcr': g, 'height': h, 'pitch': p, 'model': model, 'iam': U(.8, 1), 'n': 24}
        for fn in ('infinite_sheds_poa', 'infinite_sheds'):
            if fn == 'infinite_sheds':
                k = {a: v for a, v in k.items() if a != 'iam'}
                k.update(iam_front=U(.8, 1), iam_back=U(.8, 1), bifaciality=U(.6, .9), shade_factor=rng.choice([0., U(-.1, 0)]), transmission_factor=rng.choice([0., U(0, .1)]))
            F = infinite_sheds.get_irradiance if fn == 'infinite_sheds' else infinite_sheds.get_irradiance_poa
            kw = {a: v for a, v in k.items() if a != 'n'}
            ek = {a: (int(v) if a == 'n' else enc(v)) for a, v in k.items()}
            for fm in ('array', rng.choice(['series', 'scalar'])):
                rw = rows if fm != 'scalar' else {a: v[:1] for a, v in rows.items()}
                e = point.one(fn, lambda **a: F(**a, **kw), rw, {}, fm, encode_k=ek)
                tr.append({'meta': {}, 'ev': [dict(e, kind='point')]})
        d = {'iam_front': 1., 'iam_back': 1., 'bifaciality': .8, 'shade_factor': -.02, 'transmission_factor': 0., 'model': 'isotropic'}
        pt('infinite_sheds', rows, dict(d, gcr=g, height=h, pitch=p, n=24), f=lambda dni_extra, **a: infinite_sheds.get_irradiance(**a, gcr=g, height=h, pitch=p), forms=('scalar',), nscalar=1, ints=False)
        f = U(.1, 3)
        ar = {a: np.array(v) for a, v in rows.items()}
        sc = {a: (v * f if a in ('ghi', 'dhi', 'dni', 'dni_extra') else v) for a, v in ar.items()}
        st, v = outcome(lambda: [infinite_sheds.get_irradiance(**q, gcr=g, height=h, pitch=p, model=model) for q in (ar, sc)])
        tr.append({'meta': {}, 'ev': [{'kind': 'scale', 'what': 'infinite_sheds', 'f': num(f), 'exc': '' if st == 'ok' else v,
                                       'one': {a: nums(x) for a, x in v[0].items()} if st == 'ok' else {}, 'many': {a: nums(x) for a, x in v[1].items()} if st == 'ok' else {}}]})
    for m in ('bogus',):
        pass
    # ANTS-2D
    for i in range(c.pick(6, 150)):
        n = rng.choice([1, 3])
        g = U(.15, .9)
        p = U(2, 8)
        h = g * p / 2 + U(.1, 2)
        rows = weather(n, night=False)
        rows['dni_extra'] = [U(1320, 1410) for _ in range(n)]
        rows['airmass'] = [float(1 / (np.cos(np.radians(z)) + .15 * (93.9 - z) ** -1.253)) if z < 90 else 30. for z in rows['solar_zenith']]
        rows['tracker_rotation'] = [rng.choice([0., U(-80, 80), U(-60, 60)]) for _ in range(n)]
        model = rng.choice(['isotropic', 'haydavies', 'perez', 'perez-driesse'])
        sloped = rng.random() < .5
        axt = rng.choice([0., U(-12, 12)]) if sloped else 0.
        cas = rng.choice([0., U(-12, 12)]) if sloped else 0.
        axaz = U(0, 360)
        rs = rng.choice([1, 1, 2, 3, [(0., .3), (.3, 1.)]])
        gs = rng.choice([1, 2, [(0., .4), (.4, .5), (.5, 1.)]])
        segs = lambda q: [(i / q, (i + 1) / q) for i in range(q)] if isinstance(q, int) else q
        ng = len(segs(gs))
        alb = U(.1, .8) if rng.random() < .4 else np.array([[U(.1, .8) for _ in range(n)] for _ in range(ng)])
        albn = [[num(alb)] * n] * ng if isinstance(alb, float) else [nums(r) for r in alb]
        mr = rng.choice([None, 12])
        form = rng.choice(['array', 'series', 'scalar' if n == 1 and isinstance(alb, float) else 'array'])
        idx = pd.date_range('2022-06-01', periods=n, freq='h', tz='Etc/GMT+3')
        A = {a: (np.array(v) if form == 'array' else pd.Series(v, index=idx) if form == 'series' else v[0]) for a, v in rows.items()}
        before = {a: (v.copy() if hasattr(v, 'copy') else v) for a, v in A.items()}
        kw = {a: A[a] for a in ('dni_extra', 'airmass')}
        if model == 'haydavies':
            kw.pop('airmass')
        am_default = model.startswith('perez') and rng.random() < .5
        if am_default:
            kw.pop('airmass')

        def call(scale=1.):
            a = {q: v * scale if q in ('ghi', 'dhi', 'dni') else v for q, v in A.items() if q not in ('dni_extra', 'airmass')}
            kk = {q: v * scale if q == 'dni_extra' else v for q, v in kw.items()}
            return ants2d.get_irradiance(axis_azimuth=axaz, gcr=g, height=h, pitch=p, albedo=alb, model=model, row_segments=rs, ground_segments=gs,
                                         axis_tilt=axt, cross_axis_slope=cas, max_rows=mr, return_ground_components=True, **a, **kk)
        st, v = outcome(call)
        ea = {a: nums(x) for a, x in rows.items() if not (a == 'airmass' and (am_default or model == 'haydavies'))}
        e = {'kind': 'ants', 'n': n, 'a': ea, 'form': form, 'exc': '' if st == 'ok' else v, 'kept': all(point._same(before[a], A[a]) for a in A), 'typed': True,
             'k': {'gcr': num(g), 'height': num(h), 'pitch': num(p), 'axis_tilt': num(axt), 'axis_azimuth': num(axaz), 'cross_axis_slope': num(cas), 'model': model,
                   'row_segs': [nums(x) for x in segs(rs)], 'ground_segs': [nums(x) for x in segs(gs)], 'albedo': albn, 'max_rows': mr or 0, 'n': 10}}
        if st == 'ok':
            o, gr = v
            nr = len(segs(rs))
            e['out'] = {str(a): [nums(x) for x in np.asarray(o[a], float).reshape(nr, n)] for a in (o.columns if hasattr(o, 'columns') else o)}
            e['ground'] = {str(a): [nums(x) for x in np.asarray(gr[a], float).reshape(ng, n)] for a in (gr.columns if hasattr(gr, 'columns') else gr)}
            if rs == 1:
                e['typed'] = isinstance(o, pd.DataFrame) and o.index.equals(idx) if form == 'series' else isinstance(o, dict) and (form != 'scalar' or all(isinstance(x, float) for x in o.values()))
            else:
                e['typed'] = isinstance(o, dict)
            e['typed'] = bool(e['typed'])
            f = U(.1, 3)
            st, v2 = outcome(lambda: call(f)[0])
            tr.append({'meta': {}, 'ev': [{'kind': 'scale', 'what': 'ants2d', 'f': num(f), 'exc': '' if st == 'ok' else v2, 'one': {a: nums(o[a]) for a in o},
                                           'many': {a: nums(v2[a]) for a in v2} if st == 'ok' else {}}]})
        tr.append({'meta': {}, 'ev': [e]})
    rej = [lambda x: infinite_sheds.get_irradiance_poa(20, 180, 30, 180, .4, 1, 5, 500, 100, 500, .2, model='haydavies'),
           lambda x: ants2d.get_irradiance(20, 180, 30, 180, .4, 1, 5, 500, 100, 500, .2, model='bogus'),
           lambda x: ants2d.get_irradiance(20, 180, 30, 180, .4, 1, 5, 500, 100, 500, .2, model='haydavies'),
           lambda x: ants2d.get_irradiance(20, 180, 30, 180, .4, 1, 5, 500, 100, 500, .2, model='perez')]
    for f in rej:
        tr.append({'meta': {}, 'ev': [dict(point.one('reject', f, {'x': [10., 20.]}, {}, 'array'), kind='point')]})
    c.validate('Bifacial', tr)


main(run)
