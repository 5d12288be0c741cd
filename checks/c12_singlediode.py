import json
import numpy as np
import pandas as pd
from vh import *
from pvlib import pvsystem as P, singlediode as S

CFG = '''INIT Init
NEXT Next
INVARIANTS Decreasing VIncreasing PeakDominates SelfOnCurve Stationary SlopeIsLimit Emit
'''
NAMES = [('Iph', 'photocurrent'), ('I0', 'saturation_current'), ('Rs', 'resistance_series'),
         ('Rsh', 'resistance_shunt'), ('a', 'nNsVth')]
EXTRA = [('d2', 'd2mutau'), ('vbi', 'NsVbi'), ('bf', 'breakdown_factor'), ('bv', 'breakdown_voltage'), ('be', 'breakdown_exp')]
IDX = pd.date_range('2020-03-29', periods=500, freq='h', tz='Europe/Berlin')
CURVE = ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx')
GRAD = ('i', 'v', 'p', 'didvd', 'dvdvd', 'didv', 'dpdv', 'd2p')


def wrap(col, form):
    if form == 'scalar':
        return col[0]
    if form == 'series':
        return pd.Series(col, index=IDX[:len(col)])
    return np.array(col)


def event(fn, pars, form, method='', kw=None, lead=None, shared=(), ints=False):
    """pars: list of dicts; lead: key of the leading argument (v, i, vd)."""
    n = len(pars)
    a = {}
    for k, name in NAMES + (EXTRA if 'bf' in pars[0] or 'd2' in pars[0] else []):
        if k not in pars[0]:
            continue
        if k in ('bv', 'be') and all(float(q[k]) == (-5.5 if k == 'bv' else 3.28) for q in pars) and n % 2:
            continue        # the documented default
        if fn == 'estimate_voc' and k in ('Rs', 'Rsh'):
            continue
        col = [float(p[k]) for p in pars]
        a[name] = wrap(col, 'scalar' if k in shared else form)
        if ints and all(x == int(x) for x in col if np.isfinite(x)) and np.isfinite(col).all():
            a[name] = np.array([int(x) for x in col]) if form == 'array' else int(col[0])
    kw = {k: dict(v) if isinstance(v, dict) else v for k, v in (kw or {}).items()}
    full = (kw.get('method_kwargs') or {}).get('full_output')
    if method:
        kw['method'] = method
    if lead:
        a[{'v': 'voltage', 'i': 'current', 'vd': 'diode_voltage'}[lead]] = wrap([float(p[lead]) for p in pars], 'scalar' if lead in shared else form)
    name = fn
    if fn == 'bishop88g':
        f, kw['gradients'] = S.bishop88, True
    elif fn.startswith('b:'):
        f, name = getattr(S, fn[2:]), {'b:bishop88_i_from_v': 'i_from_v', 'b:bishop88_v_from_i': 'v_from_i', 'b:bishop88_mpp': 'max_power_point'}[fn]
    else:
        f = getattr(S if fn in ('bishop88', 'estimate_voc') else P, fn)
    keep = {k: np.array(v, copy=True) for k, v in a.items()}
    st, r = outcome(f, **a, **kw)
    e = {'fn': name, 'method': (method or '-') + ':' + form + (':int' if ints else ''), 'exc': '' if st == 'ok' else r,
         'par': [{k: num(v) for k, v in p.items()} for p in pars]}
    if st == 'ok':
        allsc = all(np.isscalar(v) for v in a.values())
        ser = any(isinstance(v, pd.Series) for v in a.values())
        idx = IDX[:n]
        typed = all(np.array_equal(keep[k], np.asarray(v), equal_nan=True) for k, v in a.items())
        if name == 'singlediode':
            typed = typed and (isinstance(r, dict) if allsc else isinstance(r, pd.DataFrame) and (not ser or r.index.equals(idx)) and list(r.columns) == list(CURVE))
            cols = {k: r[k] for k in CURVE}
        elif fn == 'max_power_point':
            ps = isinstance(a['photocurrent'], pd.Series)
            typed = typed and (not ps or isinstance(r, pd.DataFrame) and r.index.equals(idx))
            cols = {k: r[k] for k in ('i_mp', 'v_mp', 'p_mp')}
        elif name == 'max_power_point':
            if full:
                typed = typed and isinstance(r, tuple) and len(r) == 2
                r = r[0] if typed else r
            cols = dict(zip(('i_mp', 'v_mp', 'p_mp'), r))
        elif name in ('bishop88', 'bishop88g'):
            cols = dict(zip(GRAD, r))
            typed = typed and len(r) == (8 if name == 'bishop88g' else 3)
        else:
            if full:
                typed = typed and isinstance(r, tuple) and len(r) == 2
                r = r[0] if typed else r
            cols = {'y': r}
            typed = typed and np.size(r) in (1 if allsc else n,)
        cols = {k: nums(v) for k, v in cols.items()}
        cols = {k: v * n if len(v) == 1 else v for k, v in cols.items()}
        ln = max(len(v) for v in cols.values())
        e['out'] = [{k: v[i] if i < len(v) else '?' for k, v in cols.items()} for i in range(ln)]
        e['typed'] = bool(typed)
    return e


def job(x):
    return [event(*a, **k) for a, k in x]


def wellbehaved(p):
    """Newton is documented as safe for well-behaved curves only."""
    return (p['Iph'] == 0 or p['Iph'] >= 1e-3) and p['Rs'] * p['Iph'] <= 2 * p['a'] and p['I0'] <= 1e-6 and p.get('d2', 0) <= .1


def run(c):
    recs = c.model('SingleDiodeMC', CFG)
    rng = c.rng
    groups = {}
    for r in recs:
        r['par'] = {k: fl(v) for k, v in r['par'].items()}
        groups.setdefault(r['ext'], []).append(r)
    for g in groups.values():
        rng.shuffle(g)
    jobs = []

    def add(*a, **k):
        jobs.append((a, k))

    def pts(r, lead):
        return [dict(r['par'], **{lead: fl(v)}) for f, v in sorted(r[lead].items())]

    METH = ['lambertw', 'newton', 'brentq', 'chandrupatla']

    def block(rs, methods):
        pars = [r['par'] for r in rs]
        for m in methods:
            use = [p for p in pars if wellbehaved(p)] if m == 'newton' else pars
            if m != 'lambertw' or True:
                if use:
                    for form in ('array', 'series'):
                        add('singlediode', use, form, m)
                    add('singlediode', use[:1], 'scalar', m)
                    add('singlediode', use[:1], 'array', m.upper())
                    for form in ('array', 'series', 'scalar'):
                        if m != 'lambertw':
                            add('max_power_point', use[:1] if form == 'scalar' else use, form, m)

    none = groups['none']
    nb = c.pick(8, 80)
    for b in range(nb):
        rs = [none[rng.randrange(len(none))] for _ in range(12)]
        block(rs, METH)
        # one parameter shared (scalar), the others vectors
        k = rng.choice([x for x, _ in NAMES])
        sub = [dict(r['par']) for r in rs]
        dark = dict(rs[0]['par'])
        for key in [(k,), tuple(x for x, _ in NAMES if x != k)]:
            ps = []
            for p in sub:
                q = dict(p)
                for kk in key:
                    q[kk] = dark[kk]
                if q['Iph'] == 0 or (q['Rs'] * q['Iph'] <= 8 * q['a'] and .3 * q['a'] * np.log1p(q['Iph'] / q['I0']) <= q['Rsh'] * q['Iph']):
                    ps.append(q)
            if ps:
                for m in ('lambertw', 'brentq', 'chandrupatla'):
                    add('singlediode', ps, rng.choice(['array', 'series']), m, shared=key)
                    if m != 'lambertw':
                        add('max_power_point', ps, rng.choice(['array', 'series']), m, shared=key)
        # points along a curve
        for r in rs[:6]:
            for m in METH:
                if m == 'newton' and not wellbehaved(r['par']):
                    continue
                pv, pi = pts(r, 'v'), pts(r, 'i')
                if m in ('brentq', 'chandrupatla'):
                    pi = [x for x in pi if x['i'] <= .96 * S_isc(r['par'])]
                for fn, ps, lead in (('i_from_v', pv, 'v'), ('v_from_i', pi, 'i')):
                    add(fn, ps, 'array', m, lead=lead)
                    add(fn, ps[-2:-1], 'scalar', m, lead=lead)
                    add(fn, ps, 'array', m, lead=lead, shared=tuple(x for x, _ in NAMES))
                    add(fn, ps, 'series', m, lead=lead)
                    if m != 'lambertw':
                        add('b:bishop88_' + fn, ps, 'array', m, lead=lead, kw={'method_kwargs': {'full_output': True}} if m == 'newton' or m == 'chandrupatla' and rng.random() < .5 else None)
            add('bishop88', pts(r, 'vd'), 'array', lead='vd')
            add('bishop88g', pts(r, 'vd'), 'array', lead='vd')
            add('bishop88g', pts(r, 'vd')[2:3], 'scalar', lead='vd')
            add('estimate_voc', [r['par']], 'scalar')
        add('estimate_voc', [r['par'] for r in rs], 'array')
    for ext in ('recomb', 'recomb2', 'break'):
        for b in range(c.pick(4, 40)):
            rs = [groups[ext][rng.randrange(len(groups[ext]))] for _ in range(8)]
            for m in METH[1:]:
                use = [r for r in rs if wellbehaved(r['par'])] if m == 'newton' else rs
                if not use:
                    continue
                add('b:bishop88_mpp', [r['par'] for r in use], 'array', m, kw={'method_kwargs': {'full_output': True}} if m != 'brentq' and rng.random() < .5 else None)
                if ext != 'break':
                    add('max_power_point', [r['par'] for r in use], 'series', m)
                for r in use[:3]:
                    pi = pts(r, 'i')
                    if m in ('brentq', 'chandrupatla'):
                        pi = [x for x in pi if x['i'] <= .96 * S_isc(r['par'])]
                    add('b:bishop88_i_from_v', pts(r, 'v'), 'array', m, lead='v')
                    add('b:bishop88_v_from_i', pi, 'array', m, lead='i')
            for r in rs[:3]:
                add('bishop88', pts(r, 'vd'), 'array', lead='vd')
                add('bishop88g', pts(r, 'vd'), 'array', lead='vd')
    # random modules over irradiance, through De Soto-like scaling
    for _ in range(c.pick(10, 150)):
        a = rng.uniform(.5, 4)
        isc = rng.uniform(.5, 12)
        io = 10 ** rng.uniform(-12, -6)
        rs_, rsh = rng.uniform(0, .5) * a / isc * 3, 10 ** rng.uniform(1.5, 4)
        ps = []
        for g in [0, 1e-2, 1, 20, 200, 600, 1000, 1200]:
            q = dict(Iph=isc * g / 1000, I0=io, Rs=rs_, Rsh=rsh * 1000 / g if g else np.inf, a=a)
            if g == 0 or .3 * a * np.log1p(q['Iph'] / io) <= q['Rsh'] * q['Iph']:
                ps.append(q)
        for m in METH:
            use = [p for p in ps if m != 'newton' or wellbehaved(p)]
            add('singlediode', use, rng.choice(['array', 'series']), m, shared=('Rs', 'I0', 'a'))
            if m != 'newton':   # almost dark: the open-circuit voltage is tiny but not zero
                add('singlediode', [dict(Iph=1e-4 * 10 ** rng.uniform(-4, 1), I0=1e-4, Rs=rs_, Rsh=np.inf, a=a) for _ in range(4)], rng.choice(['array', 'series']), m, shared=('Rs', 'I0', 'a'))
            if m != 'lambertw':
                add('max_power_point', use, 'series', m, shared=('Rs', 'I0', 'a'))
        add('singlediode', [dict(p, Iph=float(k), Rsh=300.) for k, p in zip((1, 3, 8), ps)], 'array', rng.choice(['chandrupatla', 'brentq', 'lambertw']), ints=True)
        add('max_power_point', [dict(p, Iph=float(k), Rsh=300.) for k, p in zip((1, 3, 8), ps)], 'array', rng.choice(['chandrupatla', 'brentq']), ints=True)
    n = len(jobs)
    rng.shuffle(jobs)
    parts = [jobs[i::32] for i in range(32)]
    evs = [e for x in pmap(job, parts) for e in x]
    c.validate('SingleDiode', [{'meta': {}, 'ev': [e]} for e in evs])
    c.assumptions = ['physical parameter sets: Rs*Iph <= 8 nNsVth, Rsh*Iph >= 0.3 Voc; Newton only for well-behaved curves (documented)']


def S_isc(p):
    q = {k: v for k, v in p.items()}
    return q['Iph'] / (1 + q['Rs'] / q['Rsh'])


main(run)
