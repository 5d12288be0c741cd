from vh import *
import copy, hashlib, pickle
import numpy as np, pandas as pd
import chain
from pvlib import pvsystem, location

CFG = '''INIT Init
NEXT Next
CONSTANTS L = 3
INVARIANTS NoStale Own Emit
'''
FIELDS = ['solar_position', 'airmass', 'ac', 'losses', 'times', 'tracking'] + chain.PER


def canon(v):
    """Value of any result or parameter, independent of object identity."""
    if isinstance(v, pd.DataFrame):
        return ('F', tuple(map(str, v.columns)), canon(v.index), tuple(canon(v[c].values) for c in v.columns))
    if isinstance(v, pd.Series):
        return ('S', str(v.name), canon(v.index), canon(v.values))
    if isinstance(v, pd.DatetimeIndex):
        return ('T', str(v.tz), v.asi8.tobytes(), str(v.dtype))
    if isinstance(v, pd.Index):
        return ('I', str(list(v)))
    if isinstance(v, np.ndarray):
        return ('A', v.shape, str(v.dtype), (np.where(np.isnan(v), np.nan, v) + 0.).tobytes() if v.dtype.kind == 'f' else v.tobytes() if v.dtype != object else str(v.tolist()))
    if isinstance(v, dict):
        return ('D', tuple((k, canon(v[k])) for k in sorted(v, key=str)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(canon(x) for x in v))
    if hasattr(v, '__dict__') and not callable(v):
        return (type(v).__name__, canon(vars(v)))
    return repr(v)


def dig(v):
    return hashlib.md5(repr(canon(v)).encode()).hexdigest()[:16]


def results(mc):
    return {f: ('None' if getattr(mc.results, f, None) is None else dig(getattr(mc.results, f))) for f in FIELDS}


METH = {'weather': 'run_model', 'poa': 'run_model_from_poa', 'eff': 'run_model_from_effective_irradiance', 'complete': 'complete_irradiance', 'prepare': 'prepare_inputs', 'prepare_poa': 'prepare_inputs_from_poa', 'rerun': 'run_model'}
CLS = {'weather': 'weather', 'prepare': 'weather', 'complete': 'weather', 'poa': 'poa', 'prepare_poa': 'poa', 'eff': 'eff', 'rerun': 'weather'}


def data_for(rng, o, n, cfg):
    idx = chain.times(rng, rng.choice([3, 4, 6]))
    kind = CLS[o['kind']]
    opt = ['cell_temperature', 'module_temperature', 'albedo', 'wind_speed', 'temp_air', 'pressure']
    shared = o['form'] == 'bare' and n > 1 and o['kind'] in ('weather', 'prepare')
    k = 1 if shared or n == 1 else n
    cols = [[c for c in opt if rng.random() < .4] + (['poa'] if kind == 'eff' and rng.random() < .5 else []) for _ in range(k)]
    if rng.random() < .3:
        cols = [cols[0]] * k
    if kind != 'eff' and any('cell_temperature' in c for c in cols) and rng.random() < .5:
        cols = [c + ['cell_temperature'] for c in cols]
    fr = [chain.weather(rng, idx, kind, c, nan=0.) for c in cols]
    if o['kind'] == 'complete':
        drop = rng.choice([['dni'], ['ghi'], ['dhi'], []])
        fr = [f.drop(columns=drop) for f in fr]
    if o['bad'] == 'early':
        how = rng.choice(['length', 'column', 'index']) if n > 1 else rng.choice(['length', 'column'])
        if o['kind'] == 'complete' and how == 'column':
            how = 'length'
        if how == 'length':
            return tuple(fr + fr[:1])
        if how == 'index':
            fr[-1] = fr[-1].shift(freq='1h')
        else:
            fr[-1] = fr[-1].drop(columns={'weather': 'dhi', 'poa': 'poa_diffuse', 'eff': 'effective_irradiance'}[kind])
        return tuple(fr)
    if o['bad'] == 'mid':
        # text where a number is needed, met only after earlier steps are done
        fr = [f.drop(columns=['cell_temperature', 'module_temperature'], errors='ignore') for f in fr]
        fr[-1] = fr[-1].assign(wind_speed='calm')
        return tuple(fr)
    if o['form'] == 'bare':
        if k == 1:
            return fr[0]
        return list(fr)
    return tuple(fr)


def clone(d):
    return type(d)(x.copy() for x in d) if isinstance(d, (tuple, list)) else d.copy()


def job(a):
    seed, ops, n = a
    rng = random.Random(seed)
    cfg = [chain.config(rng, n, kind='weather', trackers=rng.random() < .4)]
    cfg.append(dict(cfg[0], names=dict(cfg[0]['names'], aoi='no_loss', spectral='no_loss', losses=rng.choice(['no_loss', 'pvwatts'])), transposition=rng.choice(chain.TRANS)))
    sysm, loc = chain.build_system(cfg[0]), chain.build_location(cfg[0])
    chains = [chain.build(c, sysm, loc) for c in cfg]
    sysd = lambda: dig([sysm, loc])
    m = {'sys': sysd(), 'n': n, 'names': [c['names'] for c in cfg]}
    held, ev, seen = [], [], ['none', 'none']
    for o in ops:
        i = o['c'] - 1
        mc = chains[i]
        if o['kind'] == 'rerun':
            data = mc.results.weather
            if data is None or not all({'ghi', 'dni', 'dhi'} <= set(x) for x in (data if isinstance(data, (tuple, list)) else [data])):
                continue
        else:
            data = data_for(rng, o, n, cfg[i])
        before = dig(data)
        fresh = chain.build(cfg[i])
        rst, r = outcome(getattr(fresh, METH[o['kind']]), clone(data))
        refexc = '' if rst == 'ok' else r
        gst, g = outcome(getattr(mc, METH[o['kind']]), data)
        allf = results(mc)
        ev.append({'c': o['c'], 'kind': o['kind'], 'exc': '' if gst == 'ok' else g, 'refexc': refexc, 'got': allf if gst == 'ok' else {'none': ''}, 'ref': results(fresh) if rst == 'ok' else {'none': ''},
                   'all': dig(sorted(allf.items())), 'other': seen[1 - i], 'sys': sysd(), 'inputs': dig(data) == before, 'captured': all(dig(v) == d for v, d in held)})
        now = dig(sorted(results(chains[1 - i]).items())) if seen[1 - i] != 'none' else 'none'
        ev[-1]['other'] = now
        seen[i] = ev[-1]['all']
        if gst == 'ok':
            held += [(getattr(mc.results, f), allf[f]) for f in FIELDS if getattr(mc.results, f, None) is not None]
            held = held[-40:]
    return {'meta': m, 'ev': ev}


def run(c):
    recs = c.model('HistoryMC', CFG)
    rng = c.rng
    key = {}
    for r in recs:
        o = r['ops']
        key.setdefault(tuple((x['kind'], x['bad']) for x in o[1:]), []).append(o)
    groups = list(key.values())
    rng.shuffle(groups)
    per = c.pick(2, 12)
    use = [o for g in groups for o in rng.sample(g, min(per, len(g)))]
    # longer histories joined from explored ones
    for _ in range(c.pick(20, 600)):
        use.append([x for _ in range(rng.choice([2, 3])) for x in rng.choice(rng.choice(groups))])
    c.cov['scenarios_explored'] = len(recs)
    c.validate('History', pmap(job, [(rng.getrandbits(40), o, rng.choice([1, 2, 2])) for o in use]))


main(run)
