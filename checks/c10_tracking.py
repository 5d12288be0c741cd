from vh import *
import point
import numpy as np
import pandas as pd
from pvlib import tracking, pvsystem

CFG = '''INIT Init
NEXT Next
INVARIANTS InLimits FollowsSun EdgeOfShade Emit
'''


def raw(r):
    x = np.asarray(r['surface_azimuth'], dtype=float).ravel()
    return {'az_sin': nums(np.sin(np.radians(x))), 'az_cos': nums(np.cos(np.radians(x))),
            'az_range': nums(((x >= 0) & (x <= 360)).astype(float))}


def args(k):
    mx = k['hi'] if k['lo'] == 'None' else (k['lo'], k['hi'])
    if k['lo'] == 'None' and k['hi'] == int(k['hi']):
        # numpy's scalars are scalars too
        mx = {60: np.int64, 45: np.float32}.get(mx, float)(mx)
    return dict(axis_tilt=k['axis_tilt'], axis_azimuth=k['axis_azimuth'], max_angle=mx,
                backtrack=k['backtrack'] == 'yes', gcr=k['gcr'], cross_axis_tilt=k['cross'])


def run(c):
    recs = c.model('TrackingMC', CFG)
    rng = c.rng
    u = rng.uniform
    tr = []

    def pt(rows, k, f=None, **o):
        ek = {a: v if isinstance(v, str) else num(v) for a, v in k.items()}
        f = f or (lambda **kw: tracking.singleaxis(**kw, **args(k)))
        tr.extend(point.forms('singleaxis', f, rows, {}, rng, encode_k=ek, raw=raw, mixed=0, nscalar=2, **o))

    for fn, rows, k in point.group(recs):
        pt(rows, k)

    def mount(k):
        m = pvsystem.SingleAxisTrackerMount(axis_tilt=k['axis_tilt'], axis_azimuth=k['axis_azimuth'], max_angle=args(k)['max_angle'],
                                            backtrack=k['backtrack'] == 'yes', gcr=k['gcr'], cross_axis_tilt=k['cross'])
        return lambda apparent_zenith, solar_azimuth: m.get_orientation(apparent_zenith, solar_azimuth)

    for i in range(c.pick(60, 1200)):
        m = 30
        ax = [u(0, 360), 0., 180., u(150, 210)][i % 4]
        hi = rng.choice([90., 60., 45., u(5, 90)])
        k = {'axis_tilt': rng.choice([0., 0., u(-25, 25)]), 'axis_azimuth': ax, 'lo': rng.choice(['None', 'None', -u(0, 80)]), 'hi': hi,
             'backtrack': rng.choice(['yes', 'yes', 'no']), 'gcr': rng.choice([2 / 7, u(.1, .95)]), 'cross': rng.choice([0., u(-15, 15)])}
        # a day of sun: rises on one side of the axis, sets on the other
        z0 = u(0, 70)
        t = [x / (m - 1) * 2 - 1 for x in range(m)]
        zen = [z0 + (95 - z0) * abs(x) ** 1.5 for x in t]
        azm = [(180 + 110 * x + u(-3, 3)) % 360 for x in t]
        pt({'apparent_zenith': zen, 'solar_azimuth': azm}, k)
        if i % 3 == 0:
            pt({'apparent_zenith': [u(0, 95) for _ in range(m)], 'solar_azimuth': [u(0, 360) for _ in range(m)]}, k, f=mount(k))
    # documented defaults
    d = {'axis_tilt': 0., 'axis_azimuth': 0., 'lo': 'None', 'hi': 90., 'backtrack': 'yes', 'gcr': 2 / 7, 'cross': 0.}
    r = {'apparent_zenith': [10., 60., 85., 89., 91.], 'solar_azimuth': [90., 100., 260., 265., 270.]}
    pt(r, d, f=lambda **kw: tracking.singleaxis(**kw))
    pt(r, d, f=lambda apparent_zenith, solar_azimuth: pvsystem.SingleAxisTrackerMount().get_orientation(apparent_zenith, solar_azimuth))
    # inputs of more than one dimension are refused
    s, e = outcome(tracking.singleaxis, np.ones((2, 2)), np.ones((2, 2)))
    if s == 'ok':
        c.fail('Tracking', {}, {'fn': 'singleaxis', 'ndim': 2}, ['two-dimensional-input-accepted'])
    c.validate('Tracking', tr)


main(run)
