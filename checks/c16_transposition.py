from vh import *
import point
import numpy as np
from pvlib import albedo, irradiance as irr

CFG = '''INIT Init
NEXT Next
INVARIANTS PartsAdd Flat0 NonNegative SplineCont SumsUp WaterFalls Emit
'''


def call(fn, k, kw):
    f = {'haydavies_ratio': 'haydavies'}.get(fn, fn)
    if fn == 'inland_water_dvoracek':
        return albedo.inland_water_dvoracek(**kw, **{a: None if v == 'None' else v for a, v in k.items()})
    o = {'surface_azimuth': None} if fn == 'haydavies_ratio' else {}
    if k.get('comp') == 'yes':
        o['diffuse_components' if fn == 'get_total_irradiance' else 'return_components'] = True
    if fn == 'perez':
        o['model'] = k['model']
    if fn in ('get_sky_diffuse', 'get_total_irradiance'):
        o.update(model=k['model'], model_perez=k['model_perez'])
    if k.get('surface_type', 'None') != 'None':
        o['surface_type'] = k['surface_type']
    return getattr(irr, f)(**kw, **o)


def run(c):
    recs = c.model('TranspositionMC', CFG)
    rng = c.rng
    tr = []

    def pt(fn, rows, k, **o):
        ek = {a: str(v) for a, v in k.items()} or {'none': 0}
        tr.extend(point.forms(fn, lambda **kw: call(fn, k, kw), rows, {}, rng, encode_k=ek, **o))

    for fn, rows, k in point.group(recs):
        o = {}
        if fn in ('get_sky_diffuse', 'get_total_irradiance'):
            o = dict(nscalar=1, mixed=1)
        pt(fn, rows, k, **o)
    for _ in range(c.pick(12, 250)):
        m = 25
        z = [rng.choice([rng.uniform(0, 89), rng.uniform(80, 100)]) for _ in range(m)]
        w = dict(surface_tilt=[rng.uniform(0, 180) for _ in range(m)], surface_azimuth=[rng.uniform(0, 360) for _ in range(m)],
                 solar_zenith=z, solar_azimuth=[rng.uniform(0, 360) for _ in range(m)],
                 dni=[rng.choice([0., rng.uniform(0, 1000), rng.uniform(0, 60), rng.uniform(0, .8)]) for _ in range(m)],
                 dhi=[rng.choice([rng.uniform(1, 500), rng.uniform(20, 120), rng.uniform(20, 500), rng.uniform(.01, 1)]) for _ in range(m)])
        w['ghi'] = [max(0., a * rng.uniform(.95, 1.05)) + b for a, b in zip(w['dni'], w['dhi'])]
        w['dni_extra'] = [rng.uniform(1320, 1415) for _ in range(m)]
        am = irr.atmosphere.get_relative_airmass(np.array(z), rng.choice(['simple', 'kastenyoung1989', 'pickering2002'])).tolist()
        am = [a if zz < 89 else b for a, zz, b in zip(am, z, irr.atmosphere.get_relative_airmass(np.array(z)).tolist())]
        sub = lambda *d: {a: v for a, v in w.items() if a not in d}
        cm = rng.choice(['yes', 'no'])
        pt('isotropic', {a: w[a] for a in ('surface_tilt', 'dhi')}, {'comp': cm})
        pt('klucher', sub('dni', 'dni_extra'), {'comp': 'no'})
        pt('haydavies', sub('ghi'), {'comp': cm})
        pt('reindl', w, {'comp': cm})
        pt('king', {a: w[a] for a in ('surface_tilt', 'dhi', 'ghi', 'solar_zenith')}, {'comp': 'no'})
        pt('perez', dict(sub('ghi'), airmass=am), {'comp': cm, 'model': rng.choice(['allsitescomposite1990', 'usacomposite1988', 'albany1988', 'osage1988'])})
        pt('perez_driesse', dict(sub('ghi'), airmass=am), {'comp': cm})
        pt('perez_driesse', sub('ghi'), {'comp': cm})
        for md in ('isotropic', 'haydavies', 'perez', 'perez-driesse', 'reindl', 'klucher'):
            k = {'model': md, 'comp': 'no' if md == 'klucher' else cm, 'model_perez': 'allsitescomposite1990', 'surface_type': rng.choice(['None', 'None', 'grass'])}
            al = rng.random()
            x = dict(w, albedo=[rng.uniform(0, 1) for _ in range(m)]) if al < .6 else w
            if rng.random() < .5:
                x = dict(x, airmass=am)
            pt('get_total_irradiance', x, k, nscalar=1, mixed=1)
        pt('inland_water_dvoracek', {'solar_elevation': [rng.uniform(-20, 90) for _ in range(m)]},
           {'surface_condition': 'None', 'color_coeff': rng.uniform(.05, .5), 'wave_roughness_coeff': rng.uniform(0, 2.5)})
    c.validate('Transposition', tr)


main(run)
