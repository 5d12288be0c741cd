from vh import *
import numpy as np, pandas as pd
import chain
from chain import at, row, PER
from pvlib import temperature

CFG = '''INIT Init
NEXT Next
INVARIANTS Isolation GivenWins ModuleNotAir AlbedoWins LossesOnce Emit
'''


def references(cfg, mc, data, idx):
    """Sun and airmass of a stand-alone location for this input."""
    loc = chain.build_location(cfg)
    first = data[0] if isinstance(data, (tuple, list)) else data
    kw = {}
    if 'pressure' in first:
        kw['pressure'] = first['pressure']
    if 'temp_air' in first:
        kw['temperature'] = first['temp_air']
    sp = loc.get_solarposition(idx, **kw)
    am = loc.get_airmass(solar_position=sp, model=cfg['airmass'])
    return sp, am


def record(cfg, mc, data, form, frames, keep):
    r = mc.results
    idx = frames[0].index
    n = len(cfg['arrays'])
    sh = {f: chain.container(getattr(r, f)) for f in PER}
    sh['ac'] = type(r.ac).__name__
    sh['solar_position'] = 'None' if r.solar_position is None else 'some'
    ok = all(v.index.equals(idx) for f in PER for v in [at(getattr(r, f), i) for i in range(n)] if isinstance(v, (pd.Series, pd.DataFrame)))
    ok = ok and getattr(r.ac, 'index', idx[:0]).equals(idx) and r.times.equals(idx)
    ev = [{'kind': 'shape', 'shape': sh, 'indexok': bool(ok), 'kept': all(a.equals(b) and list(a.columns) == list(b.columns) for a, b in zip(frames, keep))}]
    if not isinstance(r.ac, pd.Series):
        return ev
    eff = cfg['kind'] == 'eff'
    if not eff:
        sp, am = references(cfg, mc, data, idx)
    fu = None
    if 'noct_installed' in cfg['arrays'][0]['temp']:
        fu = []
        for i, a in enumerate(cfg['arrays']):
            x = frames[i if len(frames) > 1 else 0]
            poa = [at(r.total_irrad, j) for j in range(n)]
            g = poa[i]['poa_global'] if all('poa_global' in p for p in poa) else at(r.effective_irradiance, i)
            k = {b: v for b, v in a['temp'].items() if b != 'noct_installed'}
            st, v = outcome(temperature.fuentes, g, x['temp_air'] if 'temp_air' in x else pd.Series(20., idx), x['wind_speed'] if 'wind_speed' in x else pd.Series(0., idx), a['temp']['noct_installed'], **k)
            fu.append(v if st == 'ok' else pd.Series(np.nan, idx))
    doy = idx.tz_convert('UTC').dayofyear
    for t in range(len(idx)):
        e = {'kind': 'row', 'x': [row(frames[i if len(frames) > 1 else 0], t) for i in range(n)], 'ac': num(r.ac.iloc[t]), 'losses': row(r.losses, t), 'r': []}
        for i in range(n):
            q = {}
            for f in ('aoi', 'aoi_modifier', 'spectral_modifier', 'effective_irradiance', 'cell_temperature', 'albedo'):
                v = at(getattr(r, f), i)
                if v is not None:
                    q[f] = row(v, t)
            v = at(r.total_irrad, i)
            if v is not None:
                q.update(row(v, t))
            d = at(r.dc, i)
            q['dc'] = row(d, t) if isinstance(d, pd.DataFrame) else {'p_mp': row(d, t)}
            if r.diode_params is not None:
                q['diode'] = row(at(r.diode_params, i), t)
            if r.dc_ohmic_losses is not None:
                q['ohmic'] = row(at(r.dc_ohmic_losses, i), t)
            q['weather'] = row(at(r.weather, i), t)
            e['r'].append(q)
        if not eff:
            e['loc'] = {'zenith': num(sp.zenith.iloc[t]), 'apparent_zenith': num(sp.apparent_zenith.iloc[t]), 'azimuth': num(sp.azimuth.iloc[t]),
                        'am_rel': num(am.airmass_relative.iloc[t]), 'am_abs': num(am.airmass_absolute.iloc[t]), 'doy': int(doy[t])}
            e['sun'] = {'zenith': num(r.solar_position.zenith.iloc[t]), 'apparent_zenith': num(r.solar_position.apparent_zenith.iloc[t]), 'azimuth': num(r.solar_position.azimuth.iloc[t]),
                        'am_rel': num(r.airmass.airmass_relative.iloc[t]), 'am_abs': num(r.airmass.airmass_absolute.iloc[t])}
        else:
            e['loc'] = {'none': 0}
        if fu:
            e['fuentes'] = [num(f.iloc[t]) for f in fu]
        ev.append(e)
    return ev


def job(a):
    seed, sc = a
    rng = random.Random(seed)
    kind, n = sc['kind'], sc['n']
    other = ['pvsyst', 'faiman', 'noct_sam', 'fuentes']
    # models fed by solar position are not available from effective irradiance
    cfg = chain.config(rng, n, temp='sapm' if sc['temp'] == 'sapm' else rng.choice(other), kind=kind, allow_bad=rng.random() < .1)
    fu = 'noct_installed' in cfg['arrays'][0]['temp']
    idx = chain.times(rng, rng.choice([4, 8, 12] if fu else [1, 2, 4, 8, 12]))
    same = sc['form'] == 'bare'
    press = rng.random() < .2
    frames = [chain.weather(rng, idx, kind, list(sc['cols'][i]) + (['poa'] if sc['poa'] else []) + (['pressure'] if press else []), nan=0. if fu else .05 if len(idx) > 2 else rng.choice([0., .5]))
              for i in range(1 if same else n)]
    keep = [f.copy() for f in frames]
    form = sc['form']
    data = frames[0] if same else tuple(frames)
    if form == 'tuple' and rng.random() < .3:
        form, data = 'list', list(frames)
    m = chain.meta_of(cfg, form)
    st, mc = outcome(chain.build, cfg)
    if st != 'ok':
        return {'meta': m, 'ev': [{'kind': 'raised', 'exc': mc}]}
    st, r = chain.run(mc, kind, data)
    if st != 'ok':
        return {'meta': m, 'ev': [{'kind': 'raised', 'exc': r}]}
    return {'meta': m, 'ev': record(cfg, mc, data, form, frames, keep)}


def run(c):
    recs = c.model('ChainMC', CFG)
    rng = c.rng
    rng.shuffle(recs)
    key = {}
    for r in recs:
        r['cols'] = [sorted(x) for x in r['cols']]
        key.setdefault((r['kind'], r['n'], r['temp'], r['form'], r['poa']), []).append(r)
    per = c.pick(28, 400)
    use = [r for g in key.values() for r in (g * 20)[:per]]
    tr = pmap(job, [(rng.getrandbits(40), r) for r in use])
    c.cov['scenarios_explored'] = len(recs)
    c.validate('Chain', tr)


main(run)
