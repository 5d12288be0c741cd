"""Fingerprints of any value the library returns, and changing one in place."""
import dataclasses
import hashlib
import types
import numpy as np
import pandas as pd

ATOM = (str, bytes, int, float, complex, bool, type(None), np.generic, pd.Timestamp, pd.Timedelta, types.FunctionType, types.BuiltinFunctionType, type)


def parts(v):
    """attributes of a library object"""
    d = dict(vars(v)) if hasattr(v, '__dict__') else {}
    if dataclasses.is_dataclass(v):
        d.update({f.name: getattr(v, f.name) for f in dataclasses.fields(v)})
    return d


def walk(v, out, seen, depth=0):
    if id(v) in seen or depth > 12:
        out.append('<again>')
        return
    if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame, pd.Index)):
        if isinstance(v, pd.DataFrame):
            out.append('DF')
            walk(list(v.columns), out, seen, depth + 1)
            walk(v.index, out, seen, depth + 1)
            for k in range(v.shape[1]):
                walk(v.iloc[:, k].to_numpy(), out, seen, depth + 1)
        elif isinstance(v, pd.Series):
            out.append('S %s' % v.name)
            walk(v.index, out, seen, depth + 1)
            walk(v.to_numpy(), out, seen, depth + 1)
        elif isinstance(v, pd.Index):
            out.append('I %s' % (v.tz if isinstance(v, pd.DatetimeIndex) else ''))
            walk(v.to_numpy(), out, seen, depth + 1)
        elif v.dtype == object or v.dtype.names:
            out.append(repr([x for x in v.ravel().tolist()]))
        else:
            out.append('%s%s' % (v.dtype, v.shape) + hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest())
    elif isinstance(v, ATOM):
        out.append(repr(v) if not callable(v) else getattr(v, '__name__', '?'))
    elif isinstance(v, dict):
        out.append('{')
        for k in v:
            out.append(repr(k))
            walk(v[k], out, seen | {id(v)}, depth + 1)
        out.append('}')
    elif isinstance(v, (list, tuple, set, frozenset)):
        out.append(type(v).__name__)
        for x in (sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v):
            walk(x, out, seen | {id(v)}, depth + 1)
    elif type(v).__module__.startswith('pvlib'):
        out.append(type(v).__name__)
        for k, x in sorted(parts(v).items()):
            out.append(k)
            walk(x, out, seen | {id(v)}, depth + 1)
    else:
        out.append(type(v).__name__)


def fingerprint(v):
    out = []
    walk(v, out, frozenset())
    return hashlib.md5('\n'.join(out).encode()).hexdigest()[:16]


def spoil(a):
    try:
        if a.dtype.kind in 'fiuc':
            a[...] = a * 0 + 77
        elif a.dtype.names:
            for n in a.dtype.names:
                spoil(a[n])
        elif a.dtype.kind == 'O':
            a[...] = 'spoilt'
    except (ValueError, TypeError):      # read-only memory cannot be spoilt
        pass


def poke(v, seen=None, depth=0):
    """overwrite in place everything the caller got, as far as it lets itself be"""
    seen = set() if seen is None else seen
    if id(v) in seen or depth > 12 or isinstance(v, ATOM):
        return
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        spoil(v)
    elif isinstance(v, pd.Series):
        try:
            v.iloc[:] = 77
        except (TypeError, ValueError):
            pass
        v.name = 'spoilt'
    elif isinstance(v, pd.DataFrame):
        for k in range(v.shape[1]):
            try:
                v.iloc[:, k] = 77
            except (TypeError, ValueError):
                pass
        v['spoilt'] = 1
        try:
            v.drop(columns=v.columns[0], inplace=True)
        except (TypeError, ValueError):
            pass
    elif isinstance(v, dict):
        for k in list(v):
            x = v[k]
            poke(x, seen, depth + 1)
            if isinstance(x, (int, float, np.generic)) and not isinstance(x, bool):
                v[k] = 77
            elif isinstance(x, (str, type(None))):
                v[k] = 'spoilt'
        try:
            v['spoilt'] = 1
        except TypeError:
            pass
    elif isinstance(v, list):
        for x in v:
            poke(x, seen, depth + 1)
        v[:] = ['spoilt'] * 3
    elif isinstance(v, set):
        v.clear()
        v.add('spoilt')
    elif isinstance(v, tuple):
        for x in v:
            poke(x, seen, depth + 1)
    elif type(v).__module__.startswith('pvlib'):
        for k, x in parts(v).items():
            poke(x, seen, depth + 1)
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                try:
                    setattr(v, k, 77)
                except Exception:
                    pass
