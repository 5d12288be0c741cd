import warnings
import numpy as np
import pandas as pd
from vh import *
from pvlib import clearsky

CFG = '''INIT Init
NEXT Next
CONSTANT NMax = %d
INVARIANTS InSomeWindow Monotone Identity NoModel Emit
'''
FL = ['mean_diff_flag', 'max_diff_flag', 'line_length_flag', 'slope_nstd_flag', 'slope_max_flag', 'mean_nan_flag', 'windows']
NM = ['mean_diff', 'max_diff', 'line_length', 'slope_nstd', 'slope_max']
LIM = ['window_length', 'mean_diff', 'max_diff', 'lower_line_length', 'upper_line_length', 'var_diff', 'slope_dev']
DEF = dict(infer=False, window_length=10, mean_diff=75, max_diff=75, lower_line_length=-5, upper_line_length=10, var_diff=0.005, slope_dev=8, max_iterations=20)


def call(meas, clear, times, form, k, parts=True, explicit=True):
    if form == 'series':
        m, q, kw = pd.Series(meas, index=times, dtype=float), pd.Series(clear, index=times, dtype=float), {}
    elif form == 'series+times':
        m, q, kw = pd.Series(meas, index=times, dtype=float), np.array(clear, float), {'times': times}
    elif form == 'intseries':
        m, q, kw = pd.Series([int(x) for x in meas], index=times), pd.Series([int(x) for x in clear], index=times), {}
    elif form == 'intarray':
        m, q, kw = np.array([int(x) for x in meas]), np.array([int(x) for x in clear]), {'times': times}
    elif form == 'mixed':
        m, q, kw = pd.Series(meas, index=times, dtype=float), np.array(clear, float), {}
    elif form == 'mixed2':
        m, q, kw = np.array(meas, float), pd.Series(clear, index=times, dtype=float), {'times': times}
    else:
        m, q, kw = np.array(meas, float), np.array(clear, float), {'times': times}
    b = (m.copy(), q.copy())
    if explicit:
        kw.update({a: k[a] for a in LIM})
        kw['max_iterations'] = k['max_iterations']
    kw['infer_limits'] = k['infer']
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = clearsky.detect_clearsky(m, q, return_components=parts, **kw)
            exc = ''
        except Exception as ex:
            r, exc = None, type(ex).__name__
    out = {'exc': exc, 'warned': any(issubclass(x.category, RuntimeWarning) and 'converge' in str(x.message) for x in w)}
    if not exc:
        f = r[0] if parts else r
        out['flags'] = [bool(x) for x in np.asarray(f)]
        out['typed'] = bool(isinstance(f, pd.Series) == isinstance(m, pd.Series) and (not isinstance(f, pd.Series) or f.index.equals(times)) and np.asarray(f).dtype == bool)
        out['kept'] = all(np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True) for x, y in zip(b, (m, q)))
        if parts:
            out['alpha'] = num(r[2])
            out['comp'] = {**{a: [bool(x) for x in r[1][a]] for a in FL}, **{a: nums(r[1][a]) for a in NM}}
    return out


def event(meas, clear, dt, form, k, exact=False, regular=True, times=None, parts=True, explicit=True):
    if times is None:
        times = pd.date_range('2021-06-01 08:00', periods=len(meas), freq=pd.Timedelta(minutes=dt), tz='Etc/GMT+7')
    o = call(meas, clear, times, form, k, parts, explicit)
    ek = {a: (v if a in ('infer', 'max_iterations') else num(v)) for a, v in k.items()}
    e = {'kind': 'detect', 'n': len(meas), 'meas': nums(meas), 'clear': nums(clear), 'dt': num(dt), 'k': ek, 'exact': exact, 'regular': regular, 'form': form, 'parts': parts}
    e.update(o)
    return {'meta': {}, 'ev': [e]}


def same(what, a, b):
    return {'meta': {}, 'ev': [{'kind': 'same', 'what': what, 'excs': [a['exc'], b['exc']], 'flags': [a.get('flags', []), b.get('flags', [])]}]}


def stat(m, q, w, dt, name):
    out = []
    for j in range(len(m) - w + 1):
        a, b = np.array(m[j:j + w]), np.array(q[j:j + w])
        if name == 'mean_diff':
            out.append(abs(a.mean() - b.mean()))
        elif name == 'max_diff':
            out.append(abs(a.max() - b.max()))
        elif name in ('upper_line_length', 'lower_line_length'):
            L = lambda x: np.hypot(np.diff(x), dt).sum()
            out.append(abs(L(a) - L(b)))
        elif name == 'var_diff':
            out.append((np.diff(a) / dt).std(ddof=1) / a.mean())
        else:
            out.append(np.abs(np.diff(a - b)).max())
    return max(out)


def run(c):
    rng = c.rng
    U = rng.uniform
    tr = []
    for r in c.model('ClearDetectMC', CFG % c.pick(5, 6)):
        k = {a: (v if a in ('infer', 'max_iterations') else fl(v)) for a, v in r['k'].items()}
        m, q = [fl(x) for x in r['meas']], [fl(x) for x in r['clear']]
        if k['max_iterations'] > 1 and rng.random() < .5:
            continue
        tr.append(event(m, q, 3., rng.choice(['array', 'series', 'series', 'intseries', 'intarray', 'mixed', 'mixed2', 'series+times']), k, exact=True))

    def day(n, dt, t0):
        x = (t0 + np.arange(n) * dt) / 720 - 1   # sun curve around noon
        return 950 * np.maximum(np.cos(np.pi / 2 * x * .95), 0) ** 1.2

    def noisy(q, kind):
        n = len(q)
        m = np.array(q) * rng.choice([1, 1, U(.9, 1.08)])
        if kind == 'cloud':
            for _ in range(rng.randint(1, 4)):
                i = rng.randrange(n)
                m[i:i + rng.randint(1, max(2, n // 5))] *= U(.3, .95)
        elif kind == 'noise':
            m = m + np.array([rng.gauss(0, 1) for _ in m]) * rng.choice([.2, 1, 3, 8])
        elif kind == 'gap':
            i = rng.randrange(n)
            m[i:i + rng.randint(1, 3)] = np.nan
        return m
    # realistic series
    for _ in range(c.pick(40, 800)):
        dt = rng.choice([.5, 1, 1, 1, 2, 3, 5, 7, 10, 15, 30])
        infer = dt >= 1 and rng.random() < .5
        k = dict(DEF, infer=infer)
        expl = True
        if not infer:
            if dt == 1 and rng.random() < .5:
                expl = False
            else:
                k.update(window_length=dt * rng.randint(3, 12) + rng.choice([0, 0, dt * .4]), mean_diff=U(20, 100), max_diff=U(20, 100), lower_line_length=-U(1, 50), upper_line_length=U(5, 80),
                         var_diff=U(.003, .05), slope_dev=U(4, 60), max_iterations=rng.choice([1, 2, 3, 20]))
        else:
            expl = rng.random() < .5
        n = rng.choice([30, 45, 60]) if dt <= 2 else rng.choice([20, 40])
        if infer and dt < 3:
            n = 70
        q = day(n, dt, U(300, 900))
        if rng.random() < .2:
            q = day(n, dt, U(-100, 100))
        m = noisy(q, rng.choice(['none', 'cloud', 'cloud', 'noise', 'gap']))
        if rng.random() < .15:
            q = np.array(q)
            q[rng.randrange(n)] = np.nan
        parts = rng.random() < .8
        form = rng.choice(['array', 'series', 'mixed', 'mixed2', 'series+times'])
        t = event(m, q, dt, form, k, parts=parts, explicit=expl)
        tr.append(t)
        if rng.random() < .5:
            e = t['ev'][0]
            for what, t0, tz in (('time-shift', '1999-02-28 23:00', 'UTC'), ('dst', '2022-03-27 00:00', 'Europe/Berlin'), ('naive', '2020-12-31 20:00', None)):
                tm = pd.date_range(t0, periods=n, freq=pd.Timedelta(minutes=dt), tz=tz)
                tr.append(same(what, e, call(m, q, tm, rng.choice(['array', 'series', 'mixed']), k, False, expl)))
            if parts and not e['exc'] and not np.isnan(q).any() and not e['warned']:
                # the scaled model is a fixed point: nothing near a limit may change
                tr.append(event(m, q * fl(e['alpha']), dt, 'array', k, explicit=expl))
    # each limit separately, approached from both sides
    names = ['mean_diff', 'max_diff', 'upper_line_length', 'lower_line_length', 'var_diff', 'slope_dev']
    for dt in ([1, 2, 5, 10, 15, 22, 30] if not c.thorough else [1, 1.5, 2, 3, 4, 5, 6, 8, 10, 12, 15, 18, 20, 22, 25, 30]):
        lim = dict(zip(LIM, clearsky._clearsky_get_threshold(dt)))
        tb = {'window_length': np.interp(dt, [1, 5, 15, 30], [50, 60, 90, 120]), 'mean_diff': 75., 'max_diff': np.interp(dt, [1, 5, 15, 30], [60, 65, 75, 90]),
              'lower_line_length': -45., 'upper_line_length': 80., 'var_diff': np.interp(dt, [1, 5, 15, 30], [.005, .01, .032, .07]), 'slope_dev': np.interp(dt, [1, 5, 15, 30], [50, 60, 75, 96])}
        w = int(tb['window_length'] / dt)
        n = w + 2
        base = np.full(n, 600.)
        for nm in names:
            def data(a):
                m, q = base.copy(), base.copy()
                if nm == 'mean_diff':
                    m += a
                elif nm == 'max_diff':
                    m[n // 2] += a
                elif nm == 'upper_line_length':
                    m[1::2] += a
                elif nm == 'lower_line_length':
                    q[1::2] += a
                elif nm == 'var_diff':
                    m = m + a * np.cos(np.arange(n) / 2.)
                else:
                    m[n // 2:] += a
                return m, q
            lo, hi = 0., 4000.
            for _ in range(60):
                mid = (lo + hi) / 2
                if stat(*data(mid), w, dt, nm) < abs(tb[nm]):
                    lo = mid
                else:
                    hi = mid
            for f in (.995, 1.005):
                m, q = data(lo * f)
                tr.append(event(m, q, float(dt), 'array', dict(DEF, infer=True, max_iterations=1), explicit=False if False else True))
    # refused
    t0 = pd.date_range('2021-01-01 10:00', periods=20, freq='1min', tz='UTC')
    q = [500.] * 20
    for dt, k, n in ((1., dict(DEF, window_length=2), 20), (1., dict(DEF, window_length=2.99), 20), (1., DEF, 9), (1., DEF, 10), (.5, dict(DEF, infer=True), 20), (60., dict(DEF, infer=True), 20), (31., dict(DEF, infer=True), 20),
                     (5., DEF, 20), (30., dict(DEF, infer=True), 3), (30., dict(DEF, infer=True), 4), (1., DEF, 2), (1., DEF, 1)):
        for form in ('array', 'series'):
            tr.append(event(q[:n], q[:n], dt, form, k))
    for tm in (t0.delete(7), t0[[0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 14, 16]], t0.append(t0[-1:]), t0[:10].append(t0[10:] + pd.Timedelta(seconds=20)), t0[::-1],
               t0.delete([3, 4]), t0[:12].append(t0[11:] + pd.Timedelta(days=1))):
        for form in ('array', 'series'):
            tr.append(event(q[:1] * len(tm), q[:1] * len(tm), 1., form, DEF, regular=False, times=tm))
    a = call(q, q, t0, 'array', DEF)
    try:
        clearsky.detect_clearsky(np.array(q), np.array(q))
        st = ''
    except Exception as ex:
        st = type(ex).__name__
    tr.append({'meta': {}, 'ev': [{'kind': 'same', 'what': 'array-without-times-is-ValueError', 'excs': ['ValueError', st], 'flags': [[], []]}]})
    c.validate('ClearDetect', tr)


main(run)
