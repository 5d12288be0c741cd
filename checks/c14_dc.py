from vh import *
import numpy as np, pandas as pd
import point
from pvlib import pvsystem as P, pvarray as A, singlediode as S, transformer as X

CFG = '''INIT Init
NEXT Next
INVARIANTS Facing NoLight Rated CapFlat Marion200 Inverse DesotoRef ShuntBand AdrRef BatzRef Emit
'''


def sapm_ee(module, **a):
    m = {'FD': module['FD']}
    m.update({x + str(i): v for x in 'AB' for i, v in enumerate(module[x])})
    return P.sapm_effective_irradiance(module=pd.Series(m) if np.size(a['aoi']) % 2 else m, **a)


F = {'pvwatts_dc': P.pvwatts_dc, 'sapm': P.sapm, 'sapm_effective_irradiance': sapm_ee, 'huld': A.huld, 'pvefficiency_adr': A.pvefficiency_adr, 'batzelis': A.batzelis,
     'sd_batzelis': S.batzelis, 'calcparams_desoto': P.calcparams_desoto, 'calcparams_cec': P.calcparams_cec,
     'calcparams_pvsyst': P.calcparams_pvsyst, 'simple_efficiency': X.simple_efficiency, 'pvwatts_losses': P.pvwatts_losses,
     'dc_ohms_from_percent': P.dc_ohms_from_percent, 'dc_ohmic_losses': P.dc_ohmic_losses}
PAR = ['IL', 'I0', 'Rs', 'Rsh', 'nNsVth']


def dec(k):
    def d(v):
        if isinstance(v, dict):
            return {a: d(b) for a, b in v.items()}
        if isinstance(v, list):
            return [d(b) for b in v]
        if isinstance(v, bool):
            return v
        if v == 'None':
            return None
        try:
            return fl(v)
        except ValueError:
            return v
    return {a: d(v) for a, v in k.items() if a != 'none'}


def run(c):
    rng = c.rng
    recs = c.model('DcModelsMC', CFG)
    tr = []
    defaults = {'temp_ref': 25., 'temperature_ref': 25., 'irradiance_ref': 1000.}

    def pt(fn, rows, k, **o):
        kk = dec(k)
        # pass a default-valued keyword half of the time
        drop = {a for a, v in defaults.items() if kk.get(a) == v and rng.random() < .5}
        drop |= {a for a in ('cap_adjustment', 'k') if a in kk and (kk[a] is None or kk[a] is False) and rng.random() < .5}
        kk = {a: v for a, v in kk.items() if a not in drop}
        f = F[fn]
        o.setdefault('cols', PAR if fn.startswith('calcp') else None)
        tr.extend(point.forms(fn, lambda **a: f(**a, **kk), rows, {}, rng, encode_k=k or {'none': 0}, **o))

    g = {}
    for r in recs:
        g.setdefault(json.dumps([r['fn'], r['k']], sort_keys=True), []).append(r)
    for rs in g.values():
        rng.shuffle(rs)
        fn, k = rs[0]['fn'], rs[0]['k']
        rows = {a: [fl(r['a'][a]) for r in rs] for a in rs[0]['a']}
        if fn == 'batzelis' or fn == 'sd_batzelis':
            pt(fn, rows, k, nscalar=6)
        else:
            pt(fn, rows, k)
    n = c.pick(10, 150)
    u = rng.uniform

    def irr(m):
        return [rng.choice([0., u(0, 1400), u(0, 20), 10 ** u(-6, 2), u(180, 220), u(980, 1020)]) for _ in range(m)]

    s = num
    for _ in range(n):
        m = 12
        GT = {'effective_irradiance': irr(m), 'temp_cell': [u(-40, 90) for _ in range(m)]}
        pt('pvwatts_dc', GT, {'pdc0': s(u(1, 5000)), 'gamma_pdc': s(u(-.006, 0)), 'temp_ref': s(rng.choice([25., u(0, 40)])),
                              'k': rng.choice(['None', s(u(-.02, .02))]), 'cap_adjustment': rng.random() < .5})
        mod = {'C0': u(.9, 1.1), 'C1': u(-.1, .1), 'C2': u(-.5, .5), 'C3': u(-12, 0), 'Isco': u(1, 10), 'Impo': u(1, 9), 'Voco': u(20, 70), 'Vmpo': u(15, 55),
               'Aisc': u(-.001, .001), 'Aimp': u(-.001, .001), 'Bvoco': u(-.3, 0), 'Mbvoc': u(-.05, .05), 'Bvmpo': u(-.3, 0), 'Mbvmp': u(-.05, .05), 'N': u(.9, 1.8),
               'Cells_in_Series': rng.choice([36., 60., 72., 96.])}
        if rng.random() < .7:
            mod.update(IXO=u(2, 6), C4=u(.9, 1.1), C5=u(-.1, .1))
        if rng.random() < .7:
            mod.update(IXXO=u(2, 6), C6=u(.9, 1.1), C7=u(-.1, .1))
        pt('sapm', GT, {'module': {a: s(v) for a, v in mod.items()}, 'temperature_ref': s(rng.choice([25., u(10, 40)])), 'irradiance_ref': s(rng.choice([1000., u(700, 1100)]))})
        pt('sapm_effective_irradiance', {'poa_direct': irr(m), 'poa_diffuse': irr(m), 'airmass_absolute': [u(.8, 12) for _ in range(m)], 'aoi': [u(0, 100) for _ in range(m)]},
           {'module': {'A': [s(x) for x in (u(.8, 1), u(0, .1), u(-.02, 0), u(0, .002), u(-1e-4, 0))], 'B': [s(x) for x in (1., u(-.01, 0), u(0, 5e-4), u(-2e-5, 0), u(0, 3e-7), u(-2e-9, 0))], 'FD': s(u(0, 1))}})
        pd0 = s(u(1, 5000))
        GM = {'effective_irradiance': GT['effective_irradiance'], 'temp_mod': GT['temp_cell']}
        pt('huld', GM, {'pdc0': pd0, 'k': [s(x * u(-2, 2)) for x in (1., 2., .1, .01, .01, .001)]})
        pt('huld', GM, {'pdc0': pd0, 'cell_type': rng.choice(['csi', 'cIs', 'CDTE']), 'k_version': rng.choice(['pvgis5', 'pvgis6', 'PVGIS5'])})
        pt('pvefficiency_adr', GT, {'k_a': s(rng.choice([100., u(.1, 22)])), 'k_d': s(u(-8, -2)), 'tc_d': s(u(0, .05)), 'k_rs': s(u(0, .2)), 'k_rsh': s(u(0, .4))})
        pt('pvefficiency_adr', dict(GT, k_a=[u(.1, 22) for _ in range(m)], k_d=[u(-8, -2) for _ in range(m)], tc_d=[u(0, .05) for _ in range(m)], k_rs=[u(0, .2) for _ in range(m)], k_rsh=[u(0, .4) for _ in range(m)]), {})
        vmp, imp = u(20, 50), u(3, 12)
        pt('batzelis', GT, {'v_mp': s(vmp), 'i_mp': s(imp), 'v_oc': s(vmp * u(1.15, 1.35)), 'i_sc': s(imp * u(1.03, 1.12)), 'alpha_sc': s(u(0, .006)), 'beta_voc': s(vmp * u(-.0045, -.0025))})
        des = {'alpha_sc': s(u(-.001, .006)), 'a_ref': s(u(.5, 3)), 'I_L_ref': s(u(1, 12)), 'I_o_ref': s(10 ** u(-13, -7)), 'R_sh_ref': s(u(50, 3000)), 'R_s': s(u(.05, 2))}
        opt = {'EgRef': s(u(1, 1.6)), 'dEgdT': s(u(-.0005, 0)), 'irrad_ref': s(u(800, 1100)), 'temp_ref': s(u(15, 35))}
        sub = {a: v for a, v in opt.items() if rng.random() < .5}
        pt('calcparams_desoto', GT, dict(des, **sub))
        pt('calcparams_cec', GT, dict(des, Adjust=s(u(-20, 40)), **sub))
        opt = {'EgRef': opt['EgRef'], 'irrad_ref': opt['irrad_ref'], 'temp_ref': opt['temp_ref'], 'R_sh_exp': s(u(2, 8))}
        sub = {a: v for a, v in opt.items() if rng.random() < .5}
        pt('calcparams_pvsyst', GT, dict({'alpha_sc': des['alpha_sc'], 'gamma_ref': s(u(.9, 1.3)), 'mu_gamma': s(u(-.001, .001)), 'I_L_ref': des['I_L_ref'], 'I_o_ref': des['I_o_ref'],
                                          'R_sh_ref': s(u(50, 1000)), 'R_sh_0': s(u(500, 5000)), 'R_s': des['R_s'], 'cells_in_series': s(rng.choice([36., 60., 72.]))}, **sub))
        # parameters as arrays too
        names = ['photocurrent', 'saturation_current', 'resistance_series', 'resistance_shunt', 'nNsVth']
        pt('sd_batzelis', dict(zip(names, [[rng.choice([0., u(.001, 12)]) for _ in range(m)], [10 ** u(-13, -8) for _ in range(m)], [u(0, 1) for _ in range(m)],
                                           [rng.choice([np.inf, u(10, 3000)]) for _ in range(m)], [u(.5, 3) for _ in range(m)]])), {})
        pt('simple_efficiency', {'input_power': [rng.choice([0., u(-50, 1500)]) for _ in range(m)]},
           {'no_load_loss': s(u(0, .02)), 'load_loss': s(u(1e-4, .05)), 'transformer_rating': s(u(100, 2000))})
        ls = [('soiling', 2), ('shading', 3), ('snow', 0), ('mismatch', 2), ('wiring', 2), ('connections', .5), ('lid', 1.5), ('nameplate_rating', 1), ('age', 0), ('availability', 3)]
        use = rng.sample([a for a, _ in ls], rng.randint(1, 10))
        pt('pvwatts_losses', {a: [rng.choice([0., u(0, 20), 100.]) for _ in range(m)] for a in use}, {})
        r = {'vmp_ref': [u(10, 60) for _ in range(m)], 'imp_ref': [u(1, 12) for _ in range(m)], 'dc_ohmic_percent': [u(0, 5) for _ in range(m)]}
        pt('dc_ohms_from_percent', r, {})
        pt('dc_ohms_from_percent', r, {'modules_per_string': s(rng.randint(1, 30)), 'strings': s(rng.randint(1, 30))})
        pt('dc_ohmic_losses', {'resistance': [u(0, 3) for _ in range(m)], 'current': [rng.choice([0., np.nan, u(-1, 100)]) for _ in range(m)]}, {})
    st, r = outcome(P.pvwatts_losses)
    tr.append({'meta': {}, 'ev': [{'fn': 'pvwatts_losses', 'n': 1, 'exc': '' if st == 'ok' else r, 'a': {'none': ['0']}, 'k': {'none': 0}, 'out': {'y': nums(r)}, 'kept': True, 'typed': True}]})

    ALL = ['i_sc', 'i_mp', 'v_oc', 'v_mp', 'p_mp', 'i_x', 'i_xx']
    for _ in range(c.pick(60, 600)):
        cols = rng.sample(ALL, rng.randint(1, 7))
        data = [[rng.choice([0., np.nan, u(0, 50)]) for _ in range(3)] for _ in cols]
        df = pd.DataFrame(dict(zip(cols, data)), index=pd.date_range('2020', periods=3, freq='h'))
        keep = df.copy()
        kw = {}
        if rng.random() < .7:
            kw['voltage'] = rng.choice([u(1, 20), rng.randint(1, 20)])
        if rng.random() < .7:
            kw['current'] = rng.choice([u(1, 20), rng.randint(1, 20)])
        st, r = outcome(P.scale_voltage_current_power, df, **kw)
        e = {'fn': 'scale', 'cols': cols, 'data': [nums(x) for x in data], 'voltage': num(kw.get('voltage', 1)), 'current': num(kw.get('current', 1)), 'exc': '' if st == 'ok' else r}
        if st == 'ok':
            e.update(out=[nums(r[x]) for x in cols], outcols=list(r.columns), kept=keep.equals(df) and r.index.equals(df.index))
        tr.append({'meta': {'x': 0}, 'ev': [e]})
    T0 = pd.Timestamp('2020-03-28', tz='Europe/Berlin')
    at = lambda t: pd.DatetimeIndex([T0 + pd.Timedelta(hours=x) for x in t])
    for _ in range(c.pick(80, 800)):
        t = sorted(rng.sample(range(0, 48, 2), rng.randint(1, 8)))
        m = rng.choice(['ffill', 'bfill', 'nearest'])
        # odd times differ from the index, even ones may coincide; keep 'nearest' free of ties
        ser = [{'t': sorted(rng.sample([x for x in range(-5, 60) if m != 'nearest' or x % 4 == 1 or x < 0], rng.randint(1, 5)))} for _ in range(rng.randint(1, 3))]
        if m == 'nearest':
            for x in ser:
                x['t'] = [x['t'][0]]
        for x in ser:
            x['v'] = [num(u(0, 1)) for _ in x['t']]
        args = [pd.Series([fl(v) for v in x['v']], index=at(x['t'])) for x in ser]
        keep = [a.copy() for a in args]
        kw = {} if m == 'ffill' and rng.random() < .5 else {'fill_method': m}
        st, r = outcome(P.combine_loss_factors, at(t), *args, **kw)
        e = {'fn': 'combine', 't': t, 'series': ser, 'method': m, 'exc': '' if st == 'ok' else r}
        if st == 'ok':
            e.update(out=nums(r), outt=[int((x - T0).total_seconds() // 3600) for x in r.index], kept=all(a.equals(b) for a, b in zip(keep, args)))
        tr.append({'meta': {'x': 0}, 'ev': [e]})
    c.validate('DcModels', tr)


main(run)
