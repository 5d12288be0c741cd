from vh import *
import copy
import numpy as np, pandas as pd
import chain
from pvlib import pvsystem, modelchain, location

CFG = '''INIT Init
NEXT Next
INVARIANTS Symmetric GivenOrRefused Supported EachSupports Emit
'''
MOD = dict(chain.SAPM, alpha_sc=.004, a_ref=1.5, I_L_ref=6., I_o_ref=1e-10, R_sh_ref=400., R_s=.3, Adjust=8., gamma_ref=1.1, mu_gamma=-.0002, R_sh_0=1000., R_sh_exp=5.5,
           EgRef=1.121, cells_in_series=60, pdc0=250., gamma_pdc=-.004, n=1.5, K=4., L=.002, b=.05, a_r=.16, theta_ref=[0., 45., 90.], iam_ref=[1., .9, 0.],
           V_mp_ref=30., I_mp_ref=6., Vmpp=30., Impp=6., Technology='Mono-c-Si', first_solar_spectral_coefficients=[.86, -.02, -.006, .12, .03, -.002], module_efficiency=.18, k=.0)
TEMP = {'a': -3.4, 'b': -.06, 'deltaT': 3., 'u_c': 25., 'u_v': 1.2, 'u0': 25., 'u1': 6.8, 'noct_installed': 47., 'noct': 46., 'module_efficiency': .18}
INV = dict(chain.SANDIA, pdc0=4000., **{k: v for k, v in chain.ADR.items() if k not in ('Pnt',)})
SAPM_KEYS = [k for k in chain.SAPM if k not in ('B0', 'B1', 'B2', 'B3', 'B4', 'B5', 'Material', 'A2', 'A3', 'A4', 'Vmpo', 'Impo')]
METHODS = {'dc': {'sapm': 'sapm', 'desoto': 'desoto', 'cec': 'cec', 'pvsyst': 'pvsyst', 'pvwatts_dc': 'pvwatts'},
           'ac': {'sandia_inverter': 'sandia', 'adr_inverter': 'adr', 'pvwatts_inverter': 'pvwatts'},
           'aoi': {'ashrae_aoi_loss': 'ashrae', 'physical_aoi_loss': 'physical', 'sapm_aoi_loss': 'sapm', 'martin_ruiz_aoi_loss': 'martin_ruiz', 'schlick_aoi_loss': 'schlick', 'interp_aoi_loss': 'interp', 'no_aoi_loss': 'no_loss'},
           'spectral': {'first_solar_spectral_loss': 'first_solar', 'sapm_spectral_loss': 'sapm', 'no_spectral_loss': 'no_loss'},
           'temp': {'sapm_temp': 'sapm', 'pvsyst_temp': 'pvsyst', 'faiman_temp': 'faiman', 'fuentes_temp': 'fuentes', 'noct_sam_temp': 'noct_sam'},
           'ohmic': {'dc_ohms_from_percent': 'dc_ohms_from_percent', 'no_dc_ohmic_loss': 'no_loss'},
           'losses': {'pvwatts_losses': 'pvwatts', 'no_extra_losses': 'no_loss'}}
ATTR = {'dc': 'dc_model', 'ac': 'ac_model', 'aoi': 'aoi_model', 'spectral': 'spectral_model', 'temp': 'temperature_model', 'ohmic': 'dc_ohmic_model', 'losses': 'losses_model', 'trans': 'transposition_model'}
GOOD = {'mods': ['pdc0', 'gamma_pdc'], 'temps': ['a', 'b', 'deltaT'], 'inv': ['pdc0']}


def selected(mc, facet):
    got = getattr(mc, ATTR[facet])
    for meth, nm in METHODS[facet].items():
        if got == getattr(mc, meth, None):
            return nm
    nm = getattr(got, '__name__', repr(got))
    return METHODS[facet].get(nm, nm)


def weather():
    idx = pd.date_range('2021-06-01 10:00', periods=4, freq='h', tz='Etc/GMT+7')
    return pd.DataFrame({'ghi': [700., 800, 850, 800], 'dni': [800., 850, 870, 850], 'dhi': [90., 100, 110, 100], 'temp_air': 22., 'wind_speed': 3., 'precipitable_water': 1.5}, index=idx)


def job(m):
    ev = []
    arrays = [pvsystem.Array(pvsystem.FixedMount(30, 180), module_parameters={k: copy.deepcopy(MOD[k]) for k in mod}, temperature_model_parameters={k: TEMP[k] for k in t} or {'none': 0.},
                             array_losses_parameters={'dc_ohmic_percent': 2.}) for mod, t in zip(m['mods'], m['temps'])]
    system = pvsystem.PVSystem(arrays=arrays, inverter_parameters={k: copy.deepcopy(INV[k]) for k in m['inv']})
    loc = location.Location(35, -110, altitude=300)
    kw = {ATTR[k]: (None if v == 'None' else v) for k, v in m['names'].items()}
    make = {'plain': modelchain.ModelChain, 'pvwatts': modelchain.ModelChain.with_pvwatts, 'sapm': modelchain.ModelChain.with_sapm}[m['ctor']]

    def build():
        mc = make(system, loc, **kw)
        return mc, {f: selected(mc, f) for f in METHODS}
    st, r = outcome(build)
    if st != 'ok':
        return {'meta': m, 'ev': [{'kind': 'refused', 'exc': r}]}
    mc, sel = r
    ev.append({'kind': 'made', 'sel': sel, 'trans': str(mc.transposition_model)})
    if m['run']:
        st, r = outcome(mc.run_model, weather())
        ok = st == 'ok' and isinstance(mc.results.ac, pd.Series) and bool(np.isfinite(mc.results.ac).all())
        ev.append({'kind': 'ran', 'ok': ok, 'exc': r if st != 'ok' else ('' if ok else 'nan')})
    return {'meta': m, 'ev': ev}


AOIS = [['n', 'K', 'L'], ['B%d' % i for i in range(6)], ['b'], ['a_r'], ['theta_ref', 'iam_ref'], []]
TEMPS = [['a', 'b', 'deltaT'], ['u_c', 'u_v'], ['u0', 'u1'], ['noct_installed'], ['noct', 'module_efficiency']]


def scenario(rng, r):
    """One facet from the model; the others valid and given."""
    if len(r['sets']) == 2 and rng.random() < .5:     # a third array like the first or the second
        r = dict(r, sets=list(r['sets']))
        r['sets'].insert(rng.randrange(3), rng.choice(r['sets']))
    n = len(r['sets'])
    m = {'mods': [list(GOOD['mods']) for _ in range(n)], 'temps': [list(GOOD['temps']) for _ in range(n)], 'inv': list(GOOD['inv']),
         'names': {'dc': 'pvwatts', 'ac': 'pvwatts', 'aoi': 'no_loss', 'spectral': 'no_loss', 'temp': 'sapm'}, 'ctor': 'plain', 'run': rng.random() < .35}
    f = r['facet']
    S = [sorted(s) for s in r['sets']]
    if f == 'dc':
        m['mods'] = S
    elif f == 'aoi':
        m['mods'] = [a + b for a, b in zip(m['mods'], S)]
    elif f == 'temp':
        m['temps'] = S
    elif f == 'ac':
        m['inv'] = S[0]
        if rng.random() < .5:
            m['mods'].append(list(GOOD['mods']))
            m['temps'].append(list(GOOD['temps']))
        if rng.random() < .7:
            m['mods'] = [list(SAPM_KEYS + ['Vmpo', 'Impo']) for _ in m['mods']]
            m['names']['dc'] = 'sapm'
    m['names'][f] = r['name']
    return m


def product(rng):
    """Everything varied at once."""
    n = rng.choice([1, 1, 2, 3, 4])
    dcs = [SAPM_KEYS + ['Vmpo', 'Impo'], ['alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'V_mp_ref', 'I_mp_ref'],
           ['alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'Adjust', 'V_mp_ref', 'I_mp_ref'],
           ['gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_sh_exp', 'R_s', 'alpha_sc', 'EgRef', 'cells_in_series', 'Vmpp', 'Impp'], ['pdc0', 'gamma_pdc']]
    extra = [[], ['A2', 'A3', 'A4'], ['A0', 'A1', 'A2', 'A3', 'A4'], ['Technology'], ['first_solar_spectral_coefficients'], ['Material']]
    dc = rng.sample(dcs, rng.choice([1, 1, 2]))
    ao = rng.sample(AOIS, rng.choice([1, 2]))
    mod = sorted({k for x in dc + ao + [rng.choice(extra)] for k in x})

    def vary(ks):
        r = rng.random()
        if r < .7 or not ks:
            return list(ks)
        if r < .9:
            ks = list(ks)
            ks.remove(rng.choice(ks))
            return ks
        return sorted(set(ks) | set(rng.choice(dcs + AOIS)))
    mods = [vary(mod) for _ in range(n)]
    tb = sorted({k for x in rng.sample(TEMPS, rng.choice([1, 1, 2])) for k in x})
    temps = [list(tb) if rng.random() < .85 else sorted(rng.choice(TEMPS)) for _ in range(n)]
    sandia = [k for k in chain.SANDIA]
    adr = list(chain.ADR)
    inv = sorted({k for x in rng.sample([sandia, adr, ['pdc0']], rng.choice([1, 1, 2])) for k in x})
    if rng.random() < .1:
        inv = rng.sample(inv, max(0, len(inv) - 1))
    case = lambda s: rng.choice([s, s.upper(), s.title()])
    N = {'dc': ['sapm', 'desoto', 'cec', 'pvsyst', 'pvwatts'], 'ac': ['sandia', 'adr', 'pvwatts'], 'aoi': list(METHODS['aoi'].values()), 'spectral': ['first_solar', 'sapm', 'no_loss'],
         'temp': list(METHODS['temp'].values()), 'ohmic': ['no_loss', 'dc_ohms_from_percent'], 'losses': ['no_loss', 'pvwatts'], 'trans': ['isotropic', 'perez', 'klucher', 'haydavies']}
    fit = {'temp': {'a': 'sapm', 'u_c': 'pvsyst', 'u0': 'faiman', 'noct_installed': 'fuentes', 'noct': 'noct_sam'}}
    names = {}
    for k in rng.sample(sorted(N), rng.choice([0, 1, 2, 3, 4])):
        names[k] = rng.choice(N[k]) if k == 'trans' else case(rng.choice(N[k]))
        if k not in ('ohmic', 'losses', 'trans') and rng.random() < .25:
            names[k] = 'None'
        if k == 'temp' and rng.random() < .6:
            names[k] = case(next(v for q, v in fit['temp'].items() if q in tb))
    return {'mods': mods, 'temps': temps, 'inv': inv, 'names': names, 'ctor': rng.choice(['plain', 'plain', 'pvwatts', 'sapm']), 'run': True}


def run(c):
    recs = c.model('SelectionMC', CFG)
    rng = c.rng
    groups = {}
    for r in recs:
        groups.setdefault((r['facet'], r['name'], len(r['sets'])), []).append(r)
    per = c.pick(60, 1500)
    use = [scenario(rng, r) for g in groups.values() for r in (g if len(g) <= per else rng.sample(g, per))]
    use += [product(rng) for _ in range(c.pick(1200, 20000))]
    c.cov['scenarios_explored'] = len(recs)
    c.validate('Selection', pmap(job, use))


main(run)
