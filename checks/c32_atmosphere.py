from vh import *
import point
import numpy as np
import pandas as pd
from pvlib import atmosphere as A

CFG = '''INIT Init
NEXT Next
INVARIANTS AmOne AmGrows DewInverse AltInverse AodInverse PwFloor Emit
'''


def call(fn, k, kw):
    k = {a: (None if isinstance(v, str) and v == 'None' else v) for a, v in k.items()}
    if fn in ('rh_from_tdew', 'tdew_from_rh'):
        k['coeff'] = tuple(k['coeff'])
    return getattr(A, fn)(**kw, **k)


def run(c):
    recs = c.model('AtmosphereMC', CFG)
    rng = c.rng
    tr = []

    def pt(fn, rows, k, **o):
        ek = {a: (v if isinstance(v, str) else [num(x) for x in v] if isinstance(v, list) else num(v)) for a, v in k.items()} or {'none': 0}
        tr.extend(point.forms(fn, o.pop('f', lambda **kw: call(fn, k, kw)), rows, {}, rng, encode_k=ek, **o))

    def rt(what, x, back, rtol=1e-7, atol=1e-7):
        tr.append({'meta': {}, 'ev': [{'fn': 'roundtrip', 'what': what, 'x': nums(x), 'back': nums(back), 'rtol': num(rtol), 'atol': num(atol)}]})

    for fn, rows, k in point.group(recs):
        o = {'nscalar': 1, 'mixed': 0} if fn == 'windspeed_powerlaw' else {}
        pt(fn, rows, k, **o)
    M = [6.112, 17.62, 243.12]
    u = rng.uniform
    for _ in range(c.pick(15, 300)):
        m = 20
        col = lambda lo, hi: [u(lo, hi) for _ in range(m)]
        pt('pres2alt', {'pressure': col(3e4, 1.1e5)}, {})
        pt('alt2pres', {'altitude': col(-400, 9000)}, {})
        pt('get_absolute_airmass', {'airmass_relative': col(1, 38), 'pressure': col(5e4, 1.1e5)}, {})
        for md in ('simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993', 'gueymard2003', 'pickering2002', 'youngirvine1967', 'young1994'):
            pt('get_relative_airmass', {'zenith': col(0, 89.9) + col(85, 100)}, {'model': md}, chunk=20, nscalar=1)
        ta = col(-40, 45)
        td = [t - u(0, 30) for t in ta]
        pt('gueymard94_pw', {'temp_air': ta, 'relative_humidity': col(0, 100)}, {})
        pt('rh_from_tdew', {'temp_air': ta, 'temp_dew': td}, {'coeff': M})
        pt('tdew_from_rh', {'temp_air': ta, 'relative_humidity': col(1, 100)}, {'coeff': M})
        pt('kasten96_lt', {'airmass_absolute': col(.8, 10), 'precipitable_water': col(.1, 6), 'aod_bb': col(0, .6)}, {})
        pt('bird_hulstrom80_aod_bb', {'aod380': col(0, 1), 'aod500': col(0, 1)}, {})
        pt('angstrom_aod_at_lambda', {'aod0': col(0, 1), 'lambda0': col(300, 1200)}, {'alpha': u(0, 2.5), 'lambda1': u(300, 1200)})
        pt('angstrom_alpha', {'aod1': col(.01, 1), 'aod2': col(.01, 1)}, {'lambda1': u(300, 500), 'lambda2': u(550, 1100)})
        pt('windspeed_powerlaw', {'wind_speed_reference': [rng.choice([0, -1, u(0, 30)]) for _ in range(m)]},
           {'height_reference': u(1, 20), 'height_desired': u(1, 150), 'exponent': u(0, .6), 'surface_type': 'None'})
        hs = [u(1, 20), u(1, 150)]
        hs[rng.randrange(2)] *= -1      # a height below ground
        pt('windspeed_powerlaw', {'wind_speed_reference': [u(.1, 30) for _ in range(m)]},
           {'height_reference': hs[0], 'height_desired': hs[1], 'exponent': u(.05, .6), 'surface_type': 'None'})
        x = np.array(ta)
        rt('rh-tdew', td, A.tdew_from_rh(x, A.rh_from_tdew(x, np.array(td))), 1e-6, 1e-6)
        h = np.array(col(-400, 9000))
        rt('alt-pres', h, A.pres2alt(A.alt2pres(h)), 1e-4, .2)
    # documented defaults
    z = {'zenith': [0., 45., 80., 91.]}
    pt('get_relative_airmass', z, {'model': 'kastenyoung1989'}, f=lambda **k: A.get_relative_airmass(**k))
    pt('rh_from_tdew', {'temp_air': [20., 5.], 'temp_dew': [10., 1.]}, {'coeff': M}, f=lambda **k: A.rh_from_tdew(**k))
    pt('tdew_from_rh', {'temp_air': [20., 5.], 'relative_humidity': [10., 100.]}, {'coeff': M}, f=lambda **k: A.tdew_from_rh(**k))
    pt('angstrom_aod_at_lambda', {'aod0': [.1, .2], 'lambda0': [500., 380.]}, {'alpha': 1.14, 'lambda1': 700.}, f=lambda **k: A.angstrom_aod_at_lambda(**k))
    c.validate('Atmosphere', tr)


main(run)
