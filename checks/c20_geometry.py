from vh import *
import point
import numpy as np
from pvlib import irradiance as irr, shading, tracking, tools

CFG = '''INIT Init
NEXT Next
INVARIANTS Bounded FullTurn CommonTurn Swap Facing Level Ideal UnitNormal InSlope Emit
'''
F = {'aoi': irr.aoi, 'aoi_projection': irr.aoi_projection, 'beam_component': irr.beam_component,
     'projected_solar_zenith_angle': shading.projected_solar_zenith_angle,
     'calc_surface_orientation': tracking.calc_surface_orientation,
     'calc_axis_tilt': tracking.calc_axis_tilt, 'calc_cross_axis_tilt': tracking.calc_cross_axis_tilt}
F.update({n: getattr(tools, n) for n in ('cosd', 'sind', 'tand', 'acosd', 'asind', 'atand')})


def circ(name, x, lo, hi):
    x = np.asarray(x, dtype=float).ravel()
    return {name + '_sin': nums(np.sin(np.radians(x))), name + '_cos': nums(np.cos(np.radians(x))),
            name + '_range': nums(((x >= lo) & (x <= hi)).astype(float))}


RAW = {'projected_solar_zenith_angle': lambda r: circ('y', r, -180, 180),
       'calc_surface_orientation': lambda r: circ('az', r['surface_azimuth'], 0, 360)}


def run(c):
    recs = c.model('GeometryMC', CFG)
    rng = c.rng
    tr = []

    def pt(fn, rows, k=None):
        k = k or {}
        o = {}
        if fn == 'calc_surface_orientation':
            o = dict(forms=('array', 'series', 'scalar'))
        if fn == 'calc_cross_axis_tilt':
            o = dict(forms=('scalar', 'npscalar'), nscalar=40)   # documented scalar-only
        tr.extend(point.forms(fn, F[fn], rows, k, rng, raw=RAW.get(fn), **o))

    for fn, rows, k in point.group(recs):
        pt(fn, rows, k)
    az = lambda: rng.choice([rng.uniform(-360, 720), rng.uniform(0, 360)])
    for _ in range(c.pick(25, 400)):
        m = 30
        z = [rng.uniform(0, 180) for _ in range(m)]
        s = [az() for _ in range(m)]
        t = [rng.uniform(0, 180) for _ in range(m)]
        g = [az() for _ in range(m)]
        for i in range(m):     # exact and almost exact alignment, opposition
            u = rng.random()
            if u < .15:
                t[i], g[i] = z[i], s[i]
            elif u < .3:
                t[i], g[i] = 180 - z[i], s[i] + 180
            elif u < .4:
                t[i], g[i] = z[i] + rng.uniform(-1e-7, 1e-7), s[i] + rng.choice([0, 360, -360])
        b = dict(surface_tilt=t, surface_azimuth=g, solar_zenith=z, solar_azimuth=s)
        pt('aoi', b)
        pt('aoi_projection', b)
        pt('beam_component', dict(b, dni=[rng.uniform(0, 1100) for _ in range(m)]))
        pt('projected_solar_zenith_angle', dict(solar_zenith=z, solar_azimuth=s, axis_tilt=[rng.uniform(-90, 90) for _ in range(m)], axis_azimuth=g))
        pt('calc_surface_orientation', {'tracker_theta': [rng.uniform(-180, 180) for _ in range(m - 1)] + [0.]},
           {'axis_tilt': rng.choice([0., rng.uniform(-60, 60)]), 'axis_azimuth': az()})
        sl = dict(slope_azimuth=s, slope_tilt=[rng.uniform(0, 60) for _ in range(m)], axis_azimuth=g)
        pt('calc_axis_tilt', sl)
        pt('calc_cross_axis_tilt', dict(sl, axis_tilt=[rng.uniform(-40, 40) for _ in range(m)]))
    c.validate('Geometry', tr)


main(run)
