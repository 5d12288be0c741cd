"""Record element-wise functions in every input form as Point events."""
import json
import numpy as np
import pandas as pd
from vh import enc, num, nums, fl, outcome

IDX = pd.date_range('2021-03-28 00:30', periods=4000, freq='30min',
                    tz='Europe/Berlin')


def columns(r, cols=None):
    """Normalise a return value into {column: flat list}."""
    if isinstance(r, pd.DataFrame):
        return {str(k): nums(r[k]) for k in r.columns}
    if isinstance(r, dict):
        return {str(k): nums(v) for k, v in r.items()}
    if isinstance(r, tuple):
        names = cols or ['y%d' % i for i in range(len(r))]
        return {k: nums(v) for k, v in zip(names, r)}
    return {(cols or ['y'])[0]: nums(r)}


def containers(r):
    if isinstance(r, dict):
        return list(r.values())
    if isinstance(r, tuple):
        return list(r)
    return [r]


def _same(a, b):
    try:
        return np.array_equal(np.asarray(a, float), np.asarray(b, float),
                              equal_nan=True)
    except Exception:
        return False


def one(name, f, rows, k, form, cols=None, kw=None, series_out=True, omit=(),
        encode_k=None, extra=None, int_ok=False, raw=None):
    """One call; rows: {arg: list}, all the same length."""
    n = len(next(iter(rows.values()))) if rows else 1
    idx = IDX[:n]
    args = {}
    for a, v in rows.items():
        f_ = form[a] if isinstance(form, dict) else form
        if f_ == 'array':
            args[a] = np.array(v, dtype=float)
        elif f_ == 'series':
            args[a] = pd.Series(v, index=idx, dtype=float, name='in_' + a)
        elif f_ == 'scalar':
            args[a] = float(v[0])
        elif f_ == 'npscalar':
            args[a] = np.float64(v[0])
        elif f_ == '0d':
            args[a] = np.array(float(v[0]))
        elif f_ == 'int':
            args[a] = int(v[0])
        elif f_ == 'intarray':
            args[a] = np.array([int(x) for x in v])
        elif f_ == 'intseries':
            args[a] = pd.Series([int(x) for x in v], index=idx)
        elif f_ == '2d':
            args[a] = np.array(v, dtype=float).reshape(-1, 1)
        elif f_ == 'list':
            args[a] = list(v)
        else:
            raise ValueError(f_)
    before = {a: (v.copy() if hasattr(v, 'copy') else v) for a, v in args.items()}
    kk = {a: v for a, v in k.items() if a not in omit}
    st, r = outcome(f, **args, **kk, **(kw or {}))
    e = {'fn': name, 'n': n, 'form': form if isinstance(form, str) else 'mixed',
         'exc': '' if st == 'ok' else r,
         'a': {a: nums(v) if len(nums(v)) == n else [num(rows[a][0])] * n
               for a, v in rows.items()},
         'k': encode_k if encode_k is not None else
              {a: (num(v) if isinstance(v, (int, float, np.number)) and not isinstance(v, bool) else enc(v))
               for a, v in k.items()} or {'none': 0}}
    if isinstance(form, dict):
        for a, f_ in form.items():
            if f_ == 'scalar':
                e['a'][a] = [num(rows[a][0])] * n
    e.update(extra or {})
    if st == 'ok':
        e['out'] = columns(r, cols) or {'none': []}
        if isinstance(form, dict):   # a result of scalar arguments only stays scalar
            e['out'] = {a: v * n if len(v) == 1 else v for a, v in e['out'].items()}
        e['kept'] = all(_same(before[a], args[a]) for a in args)
        has_series = any(isinstance(v, pd.Series) for v in args.values())
        typed = True
        if has_series and series_out:
            for x in containers(r):
                if isinstance(x, (pd.Series, pd.DataFrame)):
                    typed = typed and x.index.equals(idx)
                elif (np.ndim(x) and not isinstance(form, dict)) or series_out == 'strict':
                    typed = False
        e['typed'] = bool(typed)
        if raw is not None:
            e['out'].update(raw(r))
    return e


def forms(name, f, rows, k, rng, forms=('array', 'series', 'scalar'), cols=None,
          kw=None, series_out=True, nscalar=3, mixed=2, defaults=None,
          chunk=40, encode_k=None, ints=True, raw=None):
    """All input forms of one argument table -> list of traces."""
    ev = []
    n = len(next(iter(rows.values())))
    rows = {a: [float(x) for x in v] for a, v in rows.items()}

    def go(rw, form, **o):
        ev.append(one(name, f, rw, o.pop('k', k), form, cols=cols, kw=kw,
                      series_out=series_out, encode_k=o.pop('ek', encode_k), raw=raw, **o))

    for i0 in range(0, n, chunk):
        part = {a: v[i0:i0 + chunk] for a, v in rows.items()}
        for fm in forms:
            if fm in ('array', 'series', '2d', 'list'):
                go(part, fm)
    if n > 1 and 'array' in forms:   # reversed order, a short slice (position independence)
        m = min(n, 7)
        go({a: v[:m][::-1] for a, v in rows.items()}, 'array')
        j = rng.randrange(n)
        go({a: v[j:j + 1] for a, v in rows.items()}, 'array')
        if 'series' in forms:
            go({a: v[j:j + 1] for a, v in rows.items()}, 'series')
    for fm in ('scalar', 'npscalar', '0d'):
        if fm in forms:
            for i in rng.sample(range(n), min(nscalar, n)):
                go({a: v[i:i + 1] for a, v in rows.items()}, fm)
    if 'array' in forms and ints:
        whole = [i for i in range(n) if all(np.isfinite(v[i]) and v[i] == int(v[i]) and abs(v[i]) < 1e9
                                            for v in rows.values())]
        if whole:
            w = rng.sample(whole, min(len(whole), 12))
            go({a: [v[i] for i in w] for a, v in rows.items()}, 'intarray')
            if 'series' in forms:
                go({a: [v[i] for i in w] for a, v in rows.items()}, 'intseries')
            if 'scalar' in forms:
                go({a: [v[w[0]]] for a, v in rows.items()}, 'int')
    if mixed and len(rows) > 1 and 'scalar' in forms and {'array', 'series'} & set(forms):
        names = sorted(rows)
        for _ in range(mixed):
            j = rng.randrange(n)
            sc = rng.sample(names, rng.randint(1, len(names) - 1))
            vec = rng.choice([x for x in ('array', 'series') if x in forms])
            m = min(n, 12)
            pick_ = rng.sample(range(n), m)
            rw = {a: ([v[j]] * m if a in sc else [v[i] for i in pick_])
                  for a, v in rows.items()}
            go(rw, {a: 'scalar' if a in sc else vec for a in names})
    if defaults:
        # argument omitted: behaves as its documented default
        m = min(n, 12)
        pick_ = rng.sample(range(n), m)
        rw = {a: [v[i] for i in pick_] for a, v in rows.items()}
        for a, dv in defaults.items():
            kd = dict(k)
            kd[a] = dv
            go(rw, 'array', k=kd, omit=(a,), ek=None)
        if len(defaults) > 1:
            kd = dict(k)
            kd.update(defaults)
            go(rw, 'array', k=kd, omit=tuple(defaults), ek=None)
    return [{'meta': {'fn': name}, 'ev': [e]} for e in ev]


def group(recs):
    """TLC-emitted [fn, a, k] records -> {(fn, k)}: rows of floats."""
    g = {}
    for r in recs:
        key = json.dumps([r['fn'], r.get('k', {}), sorted(r['a'])], sort_keys=True)
        g.setdefault(key, []).append(r)
    out = []
    for rs in g.values():
        k = {a: (_maybe(v)) for a, v in (rs[0].get('k') or {}).items()}
        rows = {a: [fl(r['a'][a]) for r in rs] for a in rs[0]['a']}
        out.append((rs[0]['fn'], rows, k))
    return out


def _maybe(v):
    if isinstance(v, bool):
        return v
    try:
        return fl(v)
    except Exception:
        return [_maybe(x) for x in v] if isinstance(v, list) else v
