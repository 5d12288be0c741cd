"""Random PV systems, weather and ModelChain runs shared by the chain checks.
A configuration is plain data (the specification's view); build() makes the
pvlib objects from it."""
import copy
import numpy as np
import pandas as pd
from vh import num, nums, enc, outcome
from pvlib import pvsystem, modelchain, location, temperature

SAPM = {'A0': .928, 'A1': .068, 'A2': -.0077, 'A3': .0001, 'A4': -2e-6, 'B0': 1., 'B1': -.0024, 'B2': 3.1e-4, 'B3': -1.25e-5, 'B4': 2.1e-7, 'B5': -1.36e-9,
        'C0': 1.01, 'C1': -.01, 'C2': .28, 'C3': -5.5, 'Isco': 5.1, 'Impo': 4.55, 'Voco': 59.3, 'Vmpo': 48.3, 'Aisc': .0006, 'Aimp': -.0002,
        'Bvoco': -.21, 'Mbvoc': 0., 'Bvmpo': -.2, 'Mbvmp': 0., 'N': 1.4, 'Cells_in_Series': 96, 'FD': 1., 'IXO': 4.97, 'IXXO': 3.18, 'C4': .99, 'C5': .01, 'C6': 1.07, 'C7': -.07,
        'Material': 'c-Si'}
SANDIA = {'Paco': 250., 'Pdco': 259.6, 'Vdco': 40., 'Pso': 2.09, 'C0': -4.1e-5, 'C1': -9.1e-5, 'C2': 4.9e-4, 'C3': -.013, 'Pnt': .02}
ADR = {'Vdcmax': 600., 'MPPTHi': 600., 'MPPTLow': 20., 'Vmax': 600., 'Vmin': 20., 'Vnom': 45., 'Pnom': 250., 'Pacmax': 240., 'Pnt': .3,
       'ADRCoefficients': [.0139, .0004, .0171, .0053, -.0028, .003, .0027, -.0015, .002]}


def module(rng, kind):
    u = rng.uniform
    if kind == 'sapm':
        m = dict(SAPM)
        for k in ('Isco', 'Impo', 'Voco', 'Vmpo', 'A0', 'A1', 'B1', 'C2', 'Aisc', 'Bvoco'):
            m[k] *= u(.9, 1.1)
        if rng.random() < .3:
            for k in ('IXO', 'C4', 'C5'):
                del m[k]
        if rng.random() < .3:
            for k in ('IXXO', 'C6', 'C7'):
                del m[k]
        m['FD'] = rng.choice([1., u(.5, 1)])
    elif kind in ('desoto', 'cec'):
        m = {'alpha_sc': u(.001, .006), 'a_ref': u(1, 2.5), 'I_L_ref': u(5, 10), 'I_o_ref': 10 ** u(-11, -9), 'R_sh_ref': u(200, 900), 'R_s': u(.2, .5)}
        if kind == 'cec':
            m['Adjust'] = u(0, 15)
        if rng.random() < .4:
            m.update(EgRef=u(1.1, 1.5), dEgdT=u(-.0004, -.0001))
        if rng.random() < .25:
            m.update(irrad_ref=u(900, 1100), temp_ref=u(20, 30))
        m.update(V_mp_ref=u(25, 40), I_mp_ref=u(5, 9), Technology=rng.choice(['Mono-c-Si', 'Multi-c-Si', 'CdTe', 'CIGS']))
    elif kind == 'pvsyst':
        m = {'gamma_ref': u(1, 1.2), 'mu_gamma': u(-.0005, .0005), 'I_L_ref': u(5, 10), 'I_o_ref': 10 ** u(-11, -9), 'R_sh_ref': u(200, 400), 'R_sh_0': u(800, 2000),
             'R_s': u(.2, .5), 'alpha_sc': u(.001, .006), 'EgRef': 1.121, 'cells_in_series': rng.choice([60, 72]), 'R_sh_exp': u(4, 7), 'Vmpp': u(25, 40), 'Impp': u(5, 9)}
    else:
        m = {'pdc0': u(100, 400), 'gamma_pdc': u(-.005, -.002)}
        if rng.random() < .3:
            m['temp_ref'] = u(20, 30)
        if rng.random() < .4:
            m['k'] = u(-.01, .02)
            m['cap_adjustment'] = rng.random() < .5
    if kind != 'sapm' and rng.random() < .3:
        m['FD'] = u(.5, 1)
    if rng.random() < .3:
        m['module_efficiency'] = u(.1, .22)
    if rng.random() < .3:
        m['alpha_absorption'] = u(.7, .95)
    return m


def iam_params(rng, model):
    u = rng.uniform
    if model == 'physical':
        r = {'n': u(1.3, 1.6), 'K': u(2, 8), 'L': u(.001, .004)}
        return dict(r, n_ar=u(1.1, 1.29)) if rng.random() < .3 else r
    if model == 'sapm':
        return {k: SAPM[k] * rng.uniform(.9, 1.1) if k != 'B0' else 1. for k in ('B0', 'B1', 'B2', 'B3', 'B4', 'B5')}
    if model == 'ashrae':
        return {'b': u(.02, .1)}
    if model == 'martin_ruiz':
        return {'a_r': u(.1, .3)}
    if model == 'interp':
        return {'theta_ref': [0., 30., 60., 75., 90.], 'iam_ref': [1., u(.97, 1), u(.85, .95), u(.6, .75), 0.]}
    return {}


def temp_params(rng, model):
    u = rng.uniform
    if model == 'sapm':
        r = {'a': u(-3.6, -2.8), 'b': u(-.08, -.04), 'deltaT': u(0, 4)}
        return dict(r, irrad_ref=u(800, 1100)) if rng.random() < .2 else r
    if model == 'pvsyst':
        return {'u_c': u(15, 30), 'u_v': u(0, 2)}
    if model == 'faiman':
        return {'u0': u(20, 30), 'u1': u(5, 8)}
    if model == 'fuentes':
        r = {'noct_installed': u(43, 55)}
        return dict(r, wind_height=u(5, 12), emissivity=u(.8, .9)) if rng.random() < .3 else r
    r = {'noct': u(43, 52), 'module_efficiency': u(.12, .22)}
    if rng.random() < .4:
        r.update(array_height=rng.choice([1, 2]), mount_standoff=u(0, 4), transmittance_absorptance=u(.8, .95))
    return r


def mount(rng):
    u = rng.uniform
    if rng.random() < .7:
        return {'type': 'fixed', 'tilt': rng.choice([0., u(0, 90)]), 'az': u(0, 360)}
    # cross_axis_tilt and axis_tilt are independent inputs
    return {'type': 'tracker', 'axt': rng.choice([0., u(0, 20)]), 'axaz': u(0, 360), 'max': u(30, 90), 'bt': rng.random() < .6, 'gcr': u(.2, .6), 'cross': rng.choice([0., u(-8, 8)])}


def make_mount(m):
    if m['type'] == 'fixed':
        return pvsystem.FixedMount(m['tilt'], m['az'])
    return pvsystem.SingleAxisTrackerMount(axis_tilt=m['axt'], axis_azimuth=m['axaz'], max_angle=m['max'], backtrack=m['bt'], gcr=m['gcr'], cross_axis_tilt=m['cross'])


TRANS = ['isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez', 'perez-driesse']


def config(rng, n=1, temp=None, dc=None, kind='weather', allow_bad=False, trackers=True):
    """names[x] 'None' means: let ModelChain infer it."""
    u = rng.uniform
    dc = dc or rng.choice(['sapm', 'desoto', 'cec', 'pvsyst', 'pvwatts'])
    temp = temp or rng.choice(['sapm', 'pvsyst', 'faiman', 'fuentes', 'noct_sam'])
    aoi = rng.choice(['physical', 'sapm', 'ashrae', 'martin_ruiz', 'interp', 'schlick', 'no_loss'])
    spectral = rng.choice(['no_loss', 'no_loss', 'first_solar', 'sapm'])
    ohmic = rng.choice(['no_loss', 'dc_ohms_from_percent']) if dc != 'pvwatts' else 'no_loss'
    losses = rng.choice(['no_loss', 'pvwatts'])
    if dc == 'pvwatts':
        ac = 'pvwatts'
    else:
        ac = rng.choice(['sandia', 'pvwatts'] + (['adr'] if n == 1 else []))
    if allow_bad and rng.random() < .5:
        ac = rng.choice(['sandia', 'adr', 'pvwatts'])
        ohmic = rng.choice(['no_loss', 'dc_ohms_from_percent'])
    arrays = []
    for i in range(n):
        p = module(rng, dc)
        p.update(iam_params(rng, aoi))
        if spectral == 'sapm':
            p.update({k: SAPM[k] * u(.95, 1.05) for k in ('A0', 'A1', 'A2', 'A3', 'A4')})
            if dc != 'sapm' and {'A0', 'A1', 'C3'} <= set(p):
                pass
        if spectral == 'first_solar':
            if rng.random() < .5:
                p['first_solar_spectral_coefficients'] = [.86, -.02, -.006, .12, .03, -.002]
            else:
                p['Technology'] = rng.choice(['Mono-c-Si', 'Multi-c-Si', 'CdTe', 'Thin Film', 'a-Si'])
        arrays.append({'mount': mount(rng) if trackers else {'type': 'fixed', 'tilt': u(0, 60), 'az': u(90, 270)}, 'module': p, 'temp': temp_params(rng, temp), 'mps': rng.choice([1, rng.randint(2, 12)]), 'strings': rng.choice([1, rng.randint(2, 5)]),
                       'albedo': rng.choice([None, u(.1, .8)]), 'surface_type': rng.choice([None, 'grass', 'snow', 'urban']),
                       'dcpct': u(.5, 4)})
    if ac == 'sandia':
        inv = {k: v * u(.97, 1.03) for k, v in SANDIA.items()}
        k = u(1, 40)
        for x in ('Paco', 'Pdco', 'Pso', 'Pnt'):
            inv[x] *= k
        inv['C0'] /= k
        inv['Vdco'] = rng.choice([45., 180., 360.])
    elif ac == 'adr':
        inv = copy.deepcopy(ADR)
        k = u(1, 40)
        for x in ('Pnom', 'Pacmax', 'Pnt'):
            inv[x] *= k
        inv['Vnom'] = rng.choice([45., 180., 360.])
    else:
        inv = {'pdc0': u(100, 8000)}
        if rng.random() < .4:
            inv['eta_inv_nom'] = u(.9, .99)
        if rng.random() < .2:
            inv['eta_inv_ref'] = u(.95, .97)
    case = lambda s: rng.choice([s, s, s.upper(), s.title()])
    # inference reproduces the choice only when the parameters say so; the
    # specification decides what None means
    names = {'dc': rng.choice(['None', case(dc)]), 'ac': rng.choice(['None', case(ac)]), 'aoi': case(aoi), 'spectral': case(spectral), 'temp': rng.choice(['None', case(temp)]),
             'ohmic': case(ohmic), 'losses': case(losses)}
    if aoi not in ('schlick', 'no_loss') and rng.random() < .4:
        names['aoi'] = 'None'
    if spectral == 'no_loss' and rng.random() < .5:
        names['spectral'] = 'None'
    sysloss = {k: rng.choice([0., u(0, 10)]) for k in rng.sample(['soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections', 'lid', 'nameplate_rating', 'age', 'availability'], rng.randint(0, 4))}
    return {'kind': kind, 'names': names, 'arrays': arrays, 'inv': inv, 'sysloss': sysloss, 'transposition': rng.choice(TRANS),
            'loc': {'lat': u(-60, 60), 'lon': u(-170, 170), 'alt': rng.choice([0., u(0, 3000)])}, 'airmass': 'kastenyoung1989'}


def none(v):
    return None if v == 'None' else v


def build_system(cfg, share=True):
    arrays = [pvsystem.Array(make_mount(a['mount']), albedo=a['albedo'], surface_type=a['surface_type'], module_parameters=copy.deepcopy(a['module']),
                             temperature_model_parameters=copy.deepcopy(a['temp']), modules_per_string=a['mps'], strings=a['strings'],
                             array_losses_parameters={'dc_ohmic_percent': a['dcpct']}) for a in cfg['arrays']]
    return pvsystem.PVSystem(arrays=arrays, inverter_parameters=copy.deepcopy(cfg['inv']), losses_parameters=copy.deepcopy(cfg['sysloss']))


def build_location(cfg):
    return location.Location(cfg['loc']['lat'], cfg['loc']['lon'], altitude=cfg['loc']['alt'])


def build(cfg, system=None, loc=None):
    n = cfg['names']
    return modelchain.ModelChain(
        system or build_system(cfg), loc or build_location(cfg), clearsky_model='simplified_solis', transposition_model=cfg['transposition'], airmass_model=cfg['airmass'],
        dc_model=none(n['dc']), ac_model=none(n['ac']), aoi_model=none(n['aoi']), spectral_model=none(n['spectral']), temperature_model=none(n['temp']),
        dc_ohmic_model=n['ohmic'], losses_model=n['losses'])


def times(rng, n=10):
    tz = rng.choice(['UTC', 'Europe/Berlin', 'America/Phoenix', 'Asia/Kolkata', 'Etc/GMT+7'])
    start = pd.Timestamp('2021-01-01', tz='UTC') + pd.Timedelta(hours=rng.randrange(0, 8700))
    return pd.date_range(start, periods=n, freq=rng.choice(['h', '2h', '30min', '3h'])).tz_convert(tz)


def weather(rng, idx, kind, cols, pw=True, nan=.05):
    """One input frame; cols: optional columns present."""
    n = len(idx)
    u = rng.uniform

    def col(f):
        return [np.nan if rng.random() < nan else f() for _ in range(n)]
    d = {}
    if kind == 'weather':
        ghi = [rng.choice([0., u(0, 1100), u(0, 300)]) for _ in range(n)]
        d['ghi'] = [np.nan if rng.random() < nan else x for x in ghi]
        d['dhi'] = [np.nan if rng.random() < nan / 2 else x * u(.1, 1) for x in ghi]
        d['dni'] = [np.nan if rng.random() < nan / 2 else 0. if x == 0 else u(0, 950) for x in ghi]
    if kind == 'poa' or 'poa' in cols:
        g = [rng.choice([0., u(1, 1100), u(1, 300)]) for _ in range(n)]
        b = [x * u(.2, .9) for x in g]
        d['poa_global'] = g
        d['poa_direct'] = b
        d['poa_diffuse'] = [x - y for x, y in zip(g, b)]
    if kind == 'eff':
        d['effective_irradiance'] = col(lambda: rng.choice([0., u(1, 1100)]))
    f = {'cell_temperature': lambda: u(-10, 70), 'module_temperature': lambda: u(-10, 65), 'albedo': lambda: u(.1, .9), 'wind_speed': lambda: u(0, 12), 'temp_air': lambda: u(-15, 40),
         'pressure': lambda: u(70000, 102000)}
    for c in sorted(set(cols) & set(f)):
        d[c] = col(f[c]) if c not in ('pressure', 'wind_speed') else [f[c]() for _ in range(n)]
    if pw:
        d['precipitable_water'] = [rng.choice([u(.05, 5), u(7, 9)]) for _ in range(n)]
    df = pd.DataFrame(d, index=idx)
    return df[rng.sample(list(df.columns), len(df.columns))]


def run(mc, kind, data):
    f = {'weather': mc.run_model, 'poa': mc.run_model_from_poa, 'eff': mc.run_model_from_effective_irradiance}[kind]
    return outcome(f, data)


def meta_of(cfg, form):
    m = {k: cfg[k] for k in ('kind', 'names', 'transposition')}

    def s(v):
        if isinstance(v, dict):
            return {k: s(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [s(x) for x in v]
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return 'None' if v is None else v
        return num(v)
    m['arrays'] = s(cfg['arrays'])
    m['inv'] = s(cfg['inv'])
    m['sysloss'] = s(cfg['sysloss'])
    m['form'] = form
    return m


PER = ['cell_temperature', 'effective_irradiance', 'dc', 'aoi', 'aoi_modifier', 'spectral_modifier', 'total_irrad', 'albedo', 'diode_params', 'dc_ohmic_losses', 'weather']


def container(v):
    if v is None:
        return 'None'
    return 'tuple%d' % len(v) if isinstance(v, tuple) else 'bare'


def at(v, i):
    """Value of array i of a per-array result."""
    return v[i] if isinstance(v, tuple) else v


def row(v, t):
    if isinstance(v, pd.DataFrame):
        return {c: num(v[c].iloc[t]) for c in v.columns}
    if isinstance(v, pd.Series):
        return num(v.iloc[t])
    return num(v)
