from vh import *
import point
from pvlib import temperature as T

CFG = '''INIT Init
NEXT Next
INVARIANTS Ambient Rises Cools RoundTrip Emit
'''


def nn(k):
    return {a: (None if v == 'None' else v) for a, v in k.items()}


def run(c):
    recs = c.model('TemperatureMC', CFG)
    tr = []
    rng = c.rng

    def pt(fn, rows, k, f=None, **o):
        ek = {a: enc(float(v) if not isinstance(v, str) else v) for a, v in k.items()}
        g = f or (lambda **kw: getattr(T, fn)(**kw, **nn(k)))
        for t in point.forms(fn, g, rows, {}, rng, encode_k=ek, **o):
            t['ev'][0]['kind'] = 'point'
            tr.append(t)

    sub = point.group(recs)
    for fn, rows, k in sub:
        if fn == 'noct_sam' and not c.thorough and rng.random() < .6 and k['array_height'] != 3:
            continue
        if fn == 'noct_sam':
            k = dict(k, array_height=int(k['array_height']))
        pt(fn, rows, k)
    n = c.pick(12, 200)
    for _ in range(n):
        m = 12
        base = {'poa_global': [rng.choice([0., rng.uniform(0, 1400), rng.uniform(0, 20)]) for _ in range(m)],
                'temp_air': [rng.uniform(-40, 55) for _ in range(m)],
                'wind_speed': [rng.choice([0., rng.uniform(0, 25)]) for _ in range(m)]}
        b2 = {a: base[a] for a in ('poa_global', 'temp_air')}
        pt('sapm_module', base, {'a': rng.uniform(-4, -2), 'b': rng.uniform(-.1, 0)})
        pt('sapm_cell', base, {'a': rng.uniform(-4, -2), 'b': rng.uniform(-.1, 0), 'deltaT': rng.uniform(0, 4), 'irrad_ref': rng.choice([1000., 800.])})
        pt('pvsyst_cell', base, {'u_c': rng.uniform(10, 40), 'u_v': rng.uniform(0, 4), 'module_efficiency': rng.uniform(.05, .25), 'alpha_absorption': rng.uniform(.7, 1)})
        pt('faiman', base, {'u0': rng.uniform(10, 40), 'u1': rng.uniform(0, 9)})
        pt('faiman_rad', dict(base, ir_down=[rng.uniform(150, 450) for _ in range(m)]),
           {'u0': rng.uniform(10, 40), 'u1': rng.uniform(0, 9), 'sky_view': rng.uniform(.2, 1), 'emissivity': rng.uniform(.7, 1)})
        pt('faiman_rad', base, {'u0': rng.uniform(10, 40), 'u1': rng.uniform(0, 9), 'sky_view': rng.uniform(.2, 1), 'emissivity': rng.uniform(.7, 1)})
        pt('ross', b2, {'noct': rng.uniform(40, 60), 'k': 'None'})
        pt('ross', b2, {'noct': 'None', 'k': rng.uniform(.01, .05)})
        kn = {'noct': rng.uniform(40, 60), 'module_efficiency': rng.uniform(.05, .25), 'transmittance_absorptance': rng.uniform(.7, 1),
              'array_height': rng.choice([1, 2]), 'mount_standoff': rng.uniform(-.5, 4.5)}
        pt('noct_sam', base, kn)
        pos = [max(x, .1) for x in base['poa_global']]
        pt('noct_sam', dict(base, poa_global=pos, effective_irradiance=[x * rng.uniform(.5, 1) for x in pos]), kn)
        pt('generic_linear', base, {'u_const': rng.uniform(8, 30), 'du_wind': rng.uniform(0, 6), 'module_efficiency': rng.uniform(.05, .25), 'absorptance': rng.uniform(.7, 1)})
    # documented defaults
    P = T.TEMPERATURE_MODEL_PARAMETERS
    rows = {'poa_global': [0., 400., 1000.], 'temp_air': [20., -5., 30.], 'wind_speed': [1., 1., 1.]}
    r2 = {a: rows[a] for a in ('poa_global', 'temp_air')}
    o = dict(mixed=0, forms=('array', 'series', 'scalar'))
    pt('pvsyst_cell', r2, {'u_c': 29., 'u_v': 0., 'module_efficiency': .1, 'alpha_absorption': .9}, f=T.pvsyst_cell, **o)
    pt('faiman', r2, {'u0': 25., 'u1': 6.84}, f=T.faiman, **o)
    pt('faiman_rad', r2, {'u0': 25., 'u1': 6.84, 'sky_view': 1., 'emissivity': .88}, f=T.faiman_rad, **o)
    pt('faiman_rad', dict(rows, ir_down=[300., 250., 400.]), {'u0': 25., 'u1': 6.84, 'sky_view': 1., 'emissivity': .88}, f=T.faiman_rad, **o)
    pt('sapm_cell', rows, {'a': -3.47, 'b': -.0594, 'deltaT': 3., 'irrad_ref': 1000.},
       f=lambda **k: T.sapm_cell(**k, **P['sapm']['open_rack_glass_glass']), **o)
    pt('sapm_cell_from_module', {'module_temperature': [10., 50.], 'poa_global': [100., 900.]}, {'deltaT': 3., 'irrad_ref': 1000.},
       f=lambda **k: T.sapm_cell_from_module(**k, deltaT=3), **o)
    pt('noct_sam', rows, {'noct': 45., 'module_efficiency': .2, 'transmittance_absorptance': .9, 'array_height': 1., 'mount_standoff': 4.},
       f=lambda **k: T.noct_sam(**k, noct=45, module_efficiency=.2), **o)
    tr.append({'meta': {}, 'ev': [{'kind': 'table', 'tab': {m: {s: {p: num(v) for p, v in q.items()} for s, q in d.items()} for m, d in P.items()}}]})

    # the generic linear model as an object with history
    def glm():
        eta, al = rng.uniform(.05, .25), rng.uniform(.7, 1)
        m = T.GenericLinearModel(module_efficiency=eta, absorptance=al)
        st = lambda: {'u': num(m.u_const), 'du': num(m.du_wind), 'eta': num(m.eta), 'alpha': num(m.alpha)}
        ev = []
        for i in range(rng.randint(2, 8)):
            op = rng.choice(['use_faiman', 'use_pvsyst', 'use_noct_sam', 'use_sapm']) if i == 0 or rng.random() < .35 else \
                rng.choice(['get_generic_linear', 'to_faiman', 'to_pvsyst', 'to_noct_sam', 'to_sapm', 'call'])
            opt = lambda lo, hi: rng.choice(['None', rng.uniform(lo, hi)])
            k = {'use_faiman': lambda: {'u0': rng.uniform(10, 40), 'u1': rng.uniform(.5, 9)},
                 'use_pvsyst': lambda: {'u_c': rng.uniform(10, 40), 'u_v': rng.uniform(.2, 4), 'module_efficiency': opt(.05, .25), 'alpha_absorption': opt(.7, 1)},
                 'use_noct_sam': lambda: {'noct': rng.uniform(40, 60), 'module_efficiency': opt(.05, .25), 'transmittance_absorptance': opt(.7, 1)},
                 'use_sapm': lambda: {'a': rng.uniform(-4, -2), 'b': rng.uniform(-.1, -.01), 'wind_fit_low': rng.choice([1.4, rng.uniform(0, 2)]), 'wind_fit_high': rng.choice([5.4, rng.uniform(4, 9)])},
                 'to_sapm': lambda: {'wind_fit_low': rng.choice([1.4, rng.uniform(0, 2)]), 'wind_fit_high': rng.choice([5.4, rng.uniform(4, 9)])},
                 'call': lambda: {'g': rng.uniform(0, 1200), 'ta': rng.uniform(-20, 40), 'ws': rng.uniform(0, 12), 'module_efficiency': opt(.05, .25)}}.get(op, dict)()
            kw = nn(k)
            if op == 'call':
                kw = {'poa_global': k['g'], 'temp_air': k['ta'], 'wind_speed': k['ws'], 'module_efficiency': kw['module_efficiency']}
            if op in ('use_sapm', 'to_sapm'):   # documented defaults
                kw = {a: v for a, v in kw.items() if v not in (1.4, 5.4)}
            s, r = outcome(m if op == 'call' else getattr(m, op), **kw)
            e = {'kind': 'glm', 'op': op, 'k': {a: (v if isinstance(v, str) else num(v)) for a, v in k.items()} or {'none': 0}, 'exc': '' if s == 'ok' else r, 'self': r is m}
            if s == 'ok':
                e['out'] = st() if op.startswith('use') else ({'y': num(r)} if op == 'call' else {a: num(v) for a, v in r.items()})
                e['after'] = st()
            ev.append(e)
        return {'meta': {'eta': num(eta), 'alpha': num(al)}, 'ev': ev}

    for _ in range(c.pick(150, 2000)):
        tr.append(glm())
    c.validate('Temperature', tr)


main(run)
