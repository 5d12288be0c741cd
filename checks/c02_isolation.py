from vh import *
import copy
import numpy as np, pandas as pd
import chain
from chain import at
from pvlib import location, modelchain, temperature

CFG = '''INIT Init
NEXT Next
INVARIANTS OnePer BareOnlyOnce Emit
'''
METH = {'weather': 'run_model', 'poa': 'run_model_from_poa', 'eff': 'run_model_from_effective_irradiance', 'complete': 'complete_irradiance', 'prepare': 'prepare_inputs', 'prepare_poa': 'prepare_inputs_from_poa'}
CLS = {'weather': 'weather', 'prepare': 'weather', 'complete': 'weather', 'poa': 'poa', 'prepare_poa': 'poa', 'eff': 'eff'}
NEED = {'weather': ['ghi', 'dni', 'dhi'], 'poa': ['poa_global', 'poa_direct', 'poa_diffuse'], 'eff': ['effective_irradiance']}


class FixedSun(location.Location):
    """The sun of a chain is common to its arrays (it uses the first array's
    pressure and temperature); a lone array is given the same one."""
    sun = None

    def get_solarposition(self, *a, **k):
        return self.sun.copy()


def columns(r, i, idx):
    """All per-array results of array i as named columns."""
    out = {}
    for f in chain.PER:
        v = at(getattr(r, f), i)
        if f == 'weather' and isinstance(v, tuple):
            v = v[i]
        if v is None:
            continue
        if isinstance(v, pd.DataFrame):
            for c in v:
                out[f + '.' + str(c)] = nums(v[c])
        elif isinstance(v, pd.Series):
            out[f] = nums(v)
        else:
            out[f] = [num(v)] * len(idx)
    return out


def corrupt(rng, frames, s):
    f = frames[s['at'] - 1]
    d = s['defect']
    k = s['at'] - 1
    if d == 'index':
        frames[k] = f.shift(freq=rng.choice(['1s', '1h', '1D']))
    elif d == 'length':
        frames[k] = f.iloc[rng.choice([slice(1, None), slice(None, -1)])]
    elif d == 'order':
        frames[k] = f.iloc[::-1]
    elif d == 'column':
        frames[k] = f.drop(columns=rng.choice(NEED[CLS[s['kind']]]))
    return frames


def job(a):
    seed, s = a
    rng = random.Random(seed)
    n, kind = s['n'], s['kind']
    cfg = chain.config(rng, n, kind='weather', trackers=True)
    m = dict(s)
    if rng.random() < .25:      # identical arrays fed differently
        cfg['arrays'] = [copy.deepcopy(cfg['arrays'][0]) for _ in range(n)]
    idx = chain.times(rng, rng.choice([3, 5, 8]))
    k = s['len']
    opt = ['cell_temperature', 'module_temperature', 'albedo', 'wind_speed', 'temp_air', 'pressure']
    cls = CLS[kind]
    same = [c for c in opt if rng.random() < .3]
    anypoa = rng.random() < .5
    allpoa = anypoa and rng.random() < .7
    pois = [anypoa and (allpoa or rng.random() < .5) for _ in range(k)]
    cols = [(same if rng.random() < .5 else [c for c in opt if rng.random() < .4]) + (['poa'] if cls == 'eff' and pois[i] else []) for i in range(k)]
    fu = 'noct_installed' in cfg['arrays'][0]['temp']
    frames = [chain.weather(rng, idx, cls, c, nan=0. if fu else .04) for c in cols]
    if k > 1 and rng.random() < .2:
        frames[-1] = frames[0].copy()
    if kind == 'complete':
        drop = rng.choice([['dni'], ['ghi'], ['dhi'], []])
        frames = [f.drop(columns=drop) for f in frames]
    good = [f.copy() for f in frames]
    if s['defect'] != 'no':
        frames = corrupt(rng, frames, s)
    data = frames[0] if s['form'] == 'bare' else tuple(frames) if s['form'] == 'tuple' else list(frames)
    mc = chain.build(cfg)
    st, r = outcome(getattr(mc, METH[kind]), data)
    if st != 'ok':
        return {'meta': m, 'ev': [{'kind': 'outcome', 'exc': r}]}
    r = mc.results
    ok = all(isinstance(x, pd.DataFrame) for f in ('weather', 'total_irrad') for v in [getattr(r, f)] if v is not None for x in (v if isinstance(v, tuple) else (v,)))
    ev = [{'kind': 'outcome', 'exc': '', 'shape': {f: chain.container(getattr(r, f)) for f in chain.PER}, 'types': bool(ok and r.times.equals(idx))}]
    if s['defect'] != 'no' or (s['form'] != 'bare' and k != n):
        return {'meta': m, 'ev': ev}
    # poa irradiance drives temperature only where every array has it
    allp = cls != 'eff' or all('poa_global' in f for f in good)
    for i in range(n):
        one = dict(cfg, arrays=[cfg['arrays'][i]])
        x = good[i if s['form'] != 'bare' else 0]
        if cls == 'eff' and not allp:
            x = x.drop(columns=[c for c in x if c.startswith('poa')])
        loc = FixedSun(cfg['loc']['lat'], cfg['loc']['lon'], altitude=cfg['loc']['alt'])
        loc.sun = r.solar_position
        system = chain.build_system(one)
        alone = chain.build(one, system, loc)
        st, q = outcome(getattr(alone, METH[kind]), x.copy())
        if st != 'ok':
            return {'meta': m, 'ev': ev + [{'kind': 'outcome', 'exc': 'alone-' + q}]}
        got, ref = columns(r, i, idx), columns(alone.results, 0, idx)
        if cls == 'eff':
            got = {c: v for c, v in got.items() if not c.startswith('total_irrad')}
            ref = {c: v for c, v in ref.items() if not c.startswith('total_irrad')}
        ev.append({'kind': 'array', 'got': got, 'ref': ref})
    return {'meta': m, 'ev': ev}


def run(c):
    recs = c.model('IsolationMC', CFG)
    rng = c.rng
    bad = [r for r in recs if r['defect'] != 'no' or r['len'] != r['n'] and r['form'] != 'bare']
    good = [r for r in recs if r not in bad]
    use = bad * c.pick(1, 6) + [r for r in good for _ in range(c.pick(10, 150) if r['n'] > 1 else c.pick(3, 30))]
    c.cov['scenarios_explored'] = len(recs)
    c.validate('Isolation', pmap(job, [(rng.getrandbits(40), r) for r in use]))


main(run)
