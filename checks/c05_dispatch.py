from vh import *
import copy, importlib, inspect
import numpy as np, pandas as pd
import chain
from pvlib import pvsystem, irradiance, atmosphere, tracking

CFG = '''INIT Init
NEXT Next
INVARIANTS Good OneSource Emit
'''
REN = {'longwave_down': 'ir_down', 'pw': 'precipitable_water'}
TECH = ['Multi-c-Si', 'Mono-c-Si', 'Thin Film', 'a-Si/nc', 'CIS', 'CIGS', '1-a-Si', 'CdTe', 'a-Si', 'HIT-Si', 'mc-Si', 'c-Si', 'Si-Film', 'EFG mc-Si', 'a-Si / mono-Si']
CELL = {'Multi-c-Si': 'multisi', 'Mono-c-Si': 'monosi', 'Thin Film': 'cigs', 'a-Si/nc': 'asi', 'CIS': 'cigs', 'CIGS': 'cigs', '1-a-Si': 'asi', 'CdTe': 'cdte', 'a-Si': 'asi', 'HIT-Si': 'monosi',
        'mc-Si': 'multisi', 'c-Si': 'multisi', 'Si-Film': 'asi', 'EFG mc-Si': 'multisi', 'a-Si / mono-Si': 'monosi'}


def param(rng, k):
    u = rng.uniform
    t = {'b': (.02, .1), 'n': (1.3, 1.6), 'K': (2, 8), 'L': (.001, .004), 'n_ar': (1.1, 1.29), 'a_r': (.1, .3), 'a': (-3.6, -2.8), 'deltaT': (1, 4), 'irrad_ref': (800, 1100), 'u_c': (15, 30), 'u_v': (0, 2),
         'module_efficiency': (.1, .22), 'alpha_absorption': (.7, .95), 'u0': (20, 30), 'u1': (5, 8), 'sky_view': (.5, 1), 'emissivity': (.8, .95), 'noct': (43, 52), 'k': (.02, .04), 'noct_installed': (43, 55),
         'wind_height': (5, 12), 'absorption': (.7, .9), 'surface_tilt': (10, 60), 'module_width': (.2, .5), 'module_length': (1, 2), 'module_height': (2, 9), 'transmittance_absorptance': (.8, .95), 'mount_standoff': (0, 4),
         'a_ref': (1, 2.5), 'I_L_ref': (5, 10), 'I_o_ref': (1e-11, 1e-9), 'R_sh_ref': (200, 400), 'R_s': (.2, .5), 'alpha_sc': (.001, .006), 'Adjust': (1, 15), 'EgRef': (1.05, 1.5), 'dEgdT': (-.0004, -.0001), 'temp_ref': (18, 30),
         'gamma_ref': (1, 1.2), 'mu_gamma': (-.0005, .0005), 'R_sh_0': (800, 2000), 'R_sh_exp': (4, 7), 'pdc0': (100, 400), 'gamma_pdc': (-.005, -.002), 'FD': (.5, 1), 'dc_ohmic_percent': (.5, 4),
         'eta_inv_nom': (.9, .99), 'eta_inv_ref': (.95, .97)}
    if k == 'theta_ref':
        return [0., u(20, 40), u(50, 70), 90.]
    if k == 'iam_ref':
        return [1., u(.95, 1), u(.8, .9), u(0, .3)]
    if k == 'method':
        return rng.choice(['linear', 'quadratic'])
    if k == 'normalize':
        return rng.choice([True, False])
    if k == 'array_height':
        return rng.choice([1, 2])
    if k == 'cells_in_series':
        return rng.choice([60, 72, 96])
    if k == 'cap_adjustment':
        return rng.choice([True, False])
    if k in ('modules_per_string', 'strings'):
        return rng.randint(1, 12)
    if k in chain.SAPM and k not in t:
        v = chain.SAPM[k]
        return v * u(.9, 1.1) if isinstance(v, float) else v
    if k in ('soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections', 'lid', 'nameplate_rating', 'age', 'availability'):
        return u(0, 8)
    return u(*t[k])


def series(rng, idx, k):
    u = rng.uniform
    n = len(idx)
    if k in ZERO and rng.random() < .12:
        return pd.Series([0.] * n, index=idx)
    r = {'dni': (0, 900), 'ghi': (0, 1000), 'dhi': (0, 400), 'poa_global': (50, 1100), 'temp_air': (-10, 40), 'wind_speed': (0, 12), 'effective_irradiance': (50, 1100), 'longwave_down': (200, 450), 'temp_cell': (0, 70),
         'poa_direct': (0, 800), 'poa_diffuse': (0, 300), 'aoi': (0, 120), 'pw': (.2, 6), 'p_dc': (0, 3000), 'v_dc': (20, 500), 'solar_zenith': (5, 110), 'solar_azimuth': (0, 360), 'airmass_absolute': (1, 8), 'albedo': (.1, .8),
         'dni_extra': (1300, 1420), 'airmass': (1, 8)}[k]
    return pd.Series([u(*r) for _ in range(n)], index=idx)


ZERO = ('dni', 'ghi', 'dhi', 'wind_speed', 'temp_air', 'effective_irradiance', 'poa_direct', 'poa_diffuse', 'aoi', 'albedo', 'temp_cell', 'p_dc')


def fn_of(path):
    mod, name = path.rsplit('.', 1)
    return getattr(importlib.import_module(mod), name)


def cols(v):
    """Any result as named columns of numbers."""
    if isinstance(v, pd.DataFrame):
        return {str(c): nums(v[c]) for c in v}
    if isinstance(v, pd.Series):
        return {'value': nums(v)}
    if isinstance(v, dict):
        return {str(k): nums(np.atleast_1d(x)) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return {str(k): nums(np.atleast_1d(np.asarray(x, dtype=float))) for k, x in enumerate(v)}
    return {'value': nums(np.atleast_1d(np.asarray(v, dtype=float)))}


def job(a):
    seed, s = a
    rng = random.Random(seed)
    n, b, name = s['n'], s['bind'], s['method']
    par = b['par']
    m = {'method': name, 'n': n, 'form': s['form'], 'keys': s['keys'], 'unwrap': s['unwrap'], 'refused': False}
    gap = rng.randrange(n)
    need = [p for p in par if p[3] and p[2] != 'array']
    dropped = rng.choice(need)[0] if s['keys'] == 'missing' else None
    arrays, own, inv, sysloss = [], [], {}, {}
    for i in range(n):
        src = {'module': {}, 'temp': {}, 'mount': {}, 'array': {}, 'losses': {}, 'inverter': inv, 'sysloss': sysloss}
        got = {}
        for key, to, where, req in par:
            if not req and (s['keys'] == 'required' or s['keys'] in ('some', 'missing') and rng.random() < .5):
                continue
            if key == dropped and (i == gap or where in ('inverter', 'sysloss')):
                continue
            if where in ('inverter', 'sysloss') and i > 0:
                got = dict(own[0])
                break
            src[where][key] = got[to] = param(rng, key)
        if name == 'iam.physical' and got.get('n_ar', 0) > got.get('n', 2):
            pass
        if name == 'first_solar_spectral_loss':
            if rng.random() < .5:
                src['module']['first_solar_spectral_coefficients'] = got['coefficients'] = [rng.uniform(.8, .9), -.02, -.006, .12, .03, -.002]
                if rng.random() < .5:
                    src['module']['Technology'] = rng.choice(TECH)
            else:
                t = rng.choice(TECH)
                src['module'][rng.choice(['Technology', 'Material'])] = t
                if 'Technology' in src['module'] and rng.random() < .5:
                    src['module']['Material'] = rng.choice(TECH)
                got['module_type'] = CELL[t]
        if name == 'dc_ohms_from_percent':
            sets = rng.sample([('V_mp_ref', 'I_mp_ref'), ('Vmpo', 'Impo'), ('Vmpp', 'Impp')], rng.randint(1, 3))
            for v, c in sets:
                src['module'][v], src['module'][c] = rng.uniform(25, 50), rng.uniform(4, 9)
            for v, c in [('V_mp_ref', 'I_mp_ref'), ('Vmpo', 'Impo'), ('Vmpp', 'Impp')]:
                if (v, c) in sets:
                    got['vmp_ref'], got['imp_ref'] = src['module'][v], src['module'][c]
                    break
        if b['whole'] == 'module':
            got = {'module': src['module']}
        # parameters no method of this name should look at
        if not b['whole']:
            src['module'].setdefault('unused', 7.)
        mnt = chain.mount(rng)
        mo = chain.make_mount(mnt)
        if 'module_height' in src['mount']:
            mo.module_height = src['mount']['module_height']
        arr = pvsystem.Array(mo, albedo=rng.uniform(.1, .9), module_parameters=src['module'], temperature_model_parameters=src['temp'], array_losses_parameters=src['losses'],
                             modules_per_string=src['array'].get('modules_per_string', rng.randint(1, 9)), strings=src['array'].get('strings', rng.randint(1, 9)))
        arrays.append((arr, mnt))
        own.append(got)
    if b['whole'] == 'inverter':
        inv.update(chain.SANDIA if name == 'ac.sandia' else copy.deepcopy(chain.ADR))
        for g in own:
            g['inverter'] = inv
    system = pvsystem.PVSystem(arrays=[x for x, _ in arrays], inverter_parameters=inv, losses_parameters=sysloss)
    idx = chain.times(rng, rng.choice([1, 3, 4] if name != 'cell.fuentes' else [3, 5]))
    scalar = name not in ('cell.fuentes', 'scale_voltage_current_power') and rng.random() < .3
    make = (lambda r, i, k: float(series(r, i, k).iloc[0])) if scalar else series
    per, ref, args = [p['arg'] for p in b['per']], [{} for _ in range(n)], {}
    for p, f in zip(b['per'], s['form']):
        k = p['arg']
        if k == 'data':
            vals = [pd.DataFrame({c: series(rng, idx, 'v_dc') for c in rng.sample(['v_mp', 'v_oc', 'i_mp', 'i_sc', 'i_x', 'i_xx', 'p_mp'], 5)}) for _ in range(n)]
        else:
            vals = [make(rng, idx, k) for _ in range(n)]
            if name == 'cell.noct_sam' and k == 'effective_irradiance':
                vals = [v + 1. for v in vals]        # no value at zero
        if k == 'p_dc':
            # the power of all the inputs together lies around the inverter's rating, mostly below
            vals = [v * (inv.get('pdc0', 250.) * 1.2 / n / 3000.) for v in vals]
        if f == 'one':
            vals = [vals[0]] * n
            args[k] = vals[0]
        else:
            args[k] = tuple(vals + vals[:1] if f == 'long' else vals[:-1] if f == 'short' else vals)
        for i in range(n):
            ref[i][k] = vals[i]
    common = {k: make(rng, idx, k) for k in b['common']}
    given_common = dict(common)
    if name == 'get_irradiance':
        mod = rng.choice(chain.TRANS)
        for k in ('dni_extra', 'airmass'):
            if rng.random() < .5:
                del given_common[k]
                common[k] = (1367. if scalar else irradiance.get_extra_radiation(idx)) if k == 'dni_extra' else atmosphere.get_relative_airmass(common['solar_zenith'])
        if rng.random() < .4 and all(f != 'short' and f != 'long' for f in s['form'][3:]):
            del args['albedo']
            for i in range(n):
                ref[i]['albedo'] = arrays[i][0].albedo
            m['form'] = s['form'][:3] + ['one']
        given_common['model'] = common['model'] = mod
    if name.startswith('cell.'):
        # inputs a model does not use may be left out
        for k in ('effective_irradiance', 'longwave_down'):
            if k in args and (k not in b['uses'] or k == 'effective_irradiance' and rng.random() < .5) and args[k] is not None and s['form'][per.index(k)] in ('each', 'one') and rng.random() < .5:
                del args[k]
                for r in ref:
                    r[k] = None
                m['form'] = [('one' if q == k else f) for q, f in zip(per, m['form'])]
    meth = {'iam': 'get_iam', 'cell': 'get_cell_temperature', 'ac': 'get_ac'}.get(name.split('.')[0] if '.' in name else '', name)
    kw = dict(args, **given_common)
    if b['model']:
        kw[b['kw']] = b['model']
    if not s['unwrap']:
        kw['unwrap'] = False
    before = repr([(x.module_parameters, x.temperature_model_parameters, x.array_losses_parameters, x.mount, x.albedo) for x, _ in arrays]) + repr(inv) + repr(sysloss)
    st, r = outcome(getattr(system, meth), **kw)
    kept = repr([(x.module_parameters, x.temperature_model_parameters, x.array_losses_parameters, x.mount, x.albedo) for x, _ in arrays]) + repr(inv) + repr(sysloss) == before
    ev = {'kind': 'call', 'exc': '' if st == 'ok' else r, 'ref': [], 'got': [], 'cont': '', 'kept': kept}
    if st != 'ok':
        return {'meta': m, 'ev': [ev]}
    onlysys = name.startswith('ac.') or name == 'pvwatts_losses'
    nested = not onlysys and isinstance(r, tuple) and (n > 1 or not s['unwrap'])
    if name.startswith('calcparams') and n == 1 and s['unwrap']:
        nested = isinstance(r, tuple) and len(r) == 1
    ev['cont'] = 'tuple%d' % len(r) if nested else 'bare'
    ev['got'] = [cols(x) for x in r] if nested else [cols(r)]

    def reference():
        out = []
        if onlysys:
            if n > 1 and b['fnmany']:
                g = {k: tuple(x[k] for x in ref) for k in per}
                g.update(own[0])
                f = fn_of(b['fnmany'])
            else:
                g = dict(ref[0] if ref else {}, **own[0])
                f = fn_of(b['fn'])
            if 'pdc' in inspect.signature(f).parameters:
                g['pdc'] = g.pop('p_dc')
            return [f(**g)]
        for i in range(n):
            g = dict(common)
            for k in per:
                if 'uses' not in b or k in b['uses']:
                    g[REN.get(k, k)] = ref[i][k]
            if b['orient']:
                t = arrays[i][1]
                if t['type'] == 'fixed':
                    g.update(surface_tilt=t['tilt'], surface_azimuth=t['az'])
                else:
                    o = tracking.singleaxis(common['solar_zenith'], common['solar_azimuth'], axis_tilt=t['axt'], axis_azimuth=t['axaz'], max_angle=t['max'], backtrack=t['bt'], gcr=t['gcr'], cross_axis_tilt=t['cross'])
                    g.update(surface_tilt=o['surface_tilt'], surface_azimuth=o['surface_azimuth'])
            g.update(own[i])
            out.append(fn_of(b['fn'])(**g))
        return out
    rst, q = outcome(reference)
    if rst != 'ok':
        m['refused'] = True
        return {'meta': m, 'ev': [ev]}
    ev['ref'] = [cols(x) for x in q]
    return {'meta': m, 'ev': [ev]}


def construct(seed):
    """Array and PVSystem construction: inferred albedo and temperature parameters, order of arrays."""
    rng = random.Random(seed)
    n = rng.randint(1, 4)
    alb = rng.choice([None, rng.uniform(0, 1), 0.])
    surf = rng.choice([None, 'urban', 'grass', 'fresh grass', 'soil', 'sand', 'snow', 'fresh snow', 'asphalt', 'concrete', 'aluminum', 'copper', 'fresh steel', 'dirty steel', 'sea', 'lava'])
    rack = rng.choice(['open_rack', 'close_mount', 'insulated_back', 'freestanding', 'insulated', 'semi_integrated', 'roof'])
    typ = rng.choice(['glass_glass', 'glass_polymer', 'x'])
    if rack == 'insulated_back' and typ != 'glass_polymer':
        typ = 'glass_polymer'
    given = rng.random() < .3
    ts = {'u_c': 20.5, 'u_v': 1.5}
    kw = dict(albedo=alb, surface_type=surf, module_type=typ, temperature_model_parameters=ts if given else None)
    m = {'n': n, 'albedo': 'None' if alb is None else num(alb), 'surface': str(surf), 'racking': rack, 'type': typ, 'tempgiven': given, 'tempset': {k: num(v) for k, v in ts.items()},
         'method': 'construct', 'form': [], 'keys': 'all', 'unwrap': True, 'refused': False}
    if n == 1 and rng.random() < .5:
        s = pvsystem.PVSystem(surface_tilt=11, surface_azimuth=100, racking_model=rack, **kw)
        x = s.arrays[0]
        order = len(s.arrays) == 1 and x.mount.surface_tilt == 11 and x.mount.surface_azimuth == 100
    else:
        arr = [pvsystem.Array(pvsystem.FixedMount(10 + i, 100, racking_model=rack), **kw) for i in range(n)]
        s = pvsystem.PVSystem(arrays=rng.choice([arr, tuple(arr)]) if n > 1 else rng.choice([arr, arr[0]]))
        x = s.arrays[-1]
        order = [id(y) for y in s.arrays] == [id(y) for y in arr]
    ev = [{'kind': 'array', 'albedo': num(x.albedo), 'temp': {k: num(v) for k, v in x.temperature_model_parameters.items()} or {'none': 'none'}, 'n': s.num_arrays, 'order': bool(order)}]
    ev.append({'kind': 'empty', 'exc': outcome(pvsystem.PVSystem, arrays=[])[1]})
    return {'meta': m, 'ev': ev}


def run(c):
    recs = c.model('DispatchMC', CFG)
    rng = c.rng
    c.cov['scenarios_explored'] = len(recs)
    use = [r for r in recs for _ in range(c.pick(2 if r['method'] in ('get_irradiance', 'cell.pvsyst', 'first_solar_spectral_loss', 'cell.noct_sam', 'dc_ohms_from_percent') else 1, 20))]
    tr = pmap(job, [(rng.getrandbits(40), r) for r in use])
    tr += pmap(construct, [rng.getrandbits(40) for _ in range(c.pick(300, 4000))])
    c.validate('Dispatch', tr)


main(run)
