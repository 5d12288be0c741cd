import hashlib
import random
import warnings
import numpy as np
import pandas as pd
from vh import *
import copy
import lent
from registry import REG

CFG = '''CONSTANTS N = 3
MaxLen = %d
Forms = {"array", "series", "int", "mixed", "view", "dates"}
INIT Init
NEXT Next
INVARIANTS Sound Emit
'''
IDX = pd.Index([70, 3, -9, 1, 55, 12, 13])
DATES = pd.date_range('2021-10-31 00:00', periods=90, freq='20min', tz='Europe/Berlin')


def cols(r):
    if isinstance(r, pd.DataFrame) or isinstance(r, dict):
        return {str(k): r[k] for k in r}
    if isinstance(r, tuple):
        return {'r%d' % i: v for i, v in enumerate(r)}
    return {'y': r}


def draw(rng, v, whole):
    if len(v) > 2 and rng.random() < .2:
        x = rng.choice(v[2:])
    else:
        x = rng.uniform(v[0], v[1])
        if rng.random() < .15:
            x = round(x)
    if whole and v[1] - v[0] > 3:
        x = float(int(x) + 1 if int(x) < v[0] else int(x))
    return min(max(float(x), v[0]), v[1])


def single(e, row, seen):
    """One row on its own: {column: value} or None when the function refuses it."""
    f, kw = e['f'], e['kw']
    args = dict(row) if e.get('scalar', True) else {a: pd.Series([x], index=DATES[:1]) for a, x in row.items()}
    st, r = outcome(f, **args, **kw)
    if st != 'ok':
        seen.append(r)
        return None
    return {k: float(np.ravel(v)[0]) for k, v in cols(r).items()}


def call(name, e, rows, base, prog, form, rng):
    """One call over the layout prog of rows (list of {arg: value}); -> event."""
    sel, nan = prog['sel'], [int(x) for x in prog['nan']]
    names = list(e['args'])
    vals = {a: [rows[s - 1][a] for s in sel] for a in names}
    spoil = {}
    for j, x in enumerate(nan):
        if x:
            spoil[j] = rng.choice(e.get('nanargs', names))
            vals[spoil[j]][j] = float('nan')
    n = len(sel)
    index = None
    args = {}
    if form in ('series', 'mixed'):
        index = IDX[:n] if n <= len(IDX) else DATES[:n]
    if form == 'dates':
        index = DATES[[s - 1 for s in sel]]       # labels travel with their rows, repeated with them
    scal = set()
    if form == 'mixed':
        scal = {a for a in names if len({r[a] for r in rows}) == 1}
        vec = rng.choice(['array', 'series'] if e.get('array', True) else ['series'])
    for a in names:
        v = vals[a]
        if a in scal and not any(s == a for s in spoil.values()):
            args[a] = v[0]
        elif form == 'int':
            w = e['args'][a]
            args[a] = np.array(v) if (w[1] - w[0] <= 3 or any(s == a for s in spoil.values())) else np.array([int(x) for x in v])
            if not e.get('array', True):
                args[a] = pd.Series(args[a], index=DATES[:n])
        elif form == 'view':
            big = np.zeros(2 * n)
            big[::2] = v
            args[a] = big[::2]
            args[a].setflags(write=False)
            if not e.get('array', True):
                args[a] = pd.Series(v, index=DATES[:n])
        elif form in ('series', 'dates') or (form == 'mixed' and vec == 'series') or not e.get('array', True):
            if index is None:
                index = DATES[:n]
            args[a] = pd.Series(v, index=index, name='in_' + a)
        else:
            args[a] = np.array(v)
    before = {a: (v.copy() if hasattr(v, 'copy') else v) for a, v in args.items()}
    st, r = outcome(e['f'], **args, **e['kw'])
    series = any(isinstance(v, pd.Series) for v in args.values())
    ev = {'fn': name, 'form': form, 'sel': sel, 'nan': nan, 'exc': '' if st == 'ok' else r,
          'out': {'none': []}, 'base': {k: nums([b[k] for b in base]) for k in base[0]}, 'kept': True, 'index': 'none', 'series': series and form != 'mixed'}
    if st == 'ok':
        ev['out'] = {k: nums(v) for k, v in cols(r).items()}
        if form == 'mixed':     # a column made of scalar arguments only stays scalar
            ev['out'] = {k: v * n if len(v) == 1 else v for k, v in ev['out'].items()}
        ev['kept'] = all((before[a].equals(args[a]) and before[a].index.equals(args[a].index)) if isinstance(args[a], pd.Series)
                         else np.array_equal(before[a], args[a], equal_nan=True) for a in args)
        if series:
            want = next(v for v in args.values() if isinstance(v, pd.Series)).index
            boxes = [x for x in ([r] if isinstance(r, (pd.Series, pd.DataFrame)) else cols(r).values())]
            own = [x for x in boxes if isinstance(x, (pd.Series, pd.DataFrame))]
            ev['index'] = 'other' if not all(x.index.equals(want) for x in own) else 'none' if len(own) < len(boxes) else 'same'
    return ev


def group(job):
    name, seed, progs = job
    rng = random.Random('%s %d' % (name, seed))
    e = REG[name]
    ev = []
    seen = []
    for rnd in range(len(progs)):
        for whole in (False, True):
            rows, base = [], []
            fixed = set()
            for p in progs[rnd]:
                if (p['form'] == 'int') != whole:
                    continue
                if p['form'] == 'mixed' and (len(e['args']) < 2 or e.get('nomixed')):
                    continue
                mixed = p['form'] == 'mixed'
                need = not rows or mixed or fixed or rng.random() < .1
                k = max(3, max(p['sel']))
                if need or len(rows) < k:
                    names = list(e['args'])
                    fixed = set(rng.sample(names, rng.randint(1, len(names) - 1))) if mixed else set()
                    rows, base = [], []
                    cst = {a: draw(rng, e['args'][a], whole) for a in fixed}
                    for _ in range(40 * k):
                        row = {a: cst[a] if a in fixed else draw(rng, e['args'][a], whole) for a in names}
                        b = single(e, row, seen)
                        if b is not None:
                            rows.append(row)
                            base.append(b)
                        if len(rows) == k:
                            break
                    if len(rows) < k:
                        ev.append({'fn': name, 'form': 'scalar', 'exc': seen[-1]})
                        rows = []
                        continue
                ev.append(call(name, e, rows, base, p, p['form'], rng))
    return [{'meta': {'tol': num(e.get('tol', 1e-9)), 'plain': bool(e.get('plain', False))}, 'ev': [x]} for x in ev]


LCFG = '''CONSTANT MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Sound Emit
'''


def loans(job):
    """One entry of the table over one sequence of loans -> trace."""
    warnings.simplefilter('ignore')
    name, seed, seq, frozen = job
    call, make = lent.table()[name]
    w = {}
    for v in 'ab':
        w[v] = make(random.Random('%s %d %s' % (name, seed, v)), v)
        if frozen:
            w[v] = lent.freeze(w[v])
    own = {v: copy.deepcopy(w[v]) for v in 'ab'}
    ev = []
    for v in seq:
        before = lent.content(w[v])
        st, o = outcome(call, **w[v])
        e = {'v': v, 'exc': '' if st == 'ok' else o, 'before': before, 'after': lent.content(w[v]), 'out': [], 'ref': []}
        if st == 'ok':
            e['out'] = nums(lent.flat(o))
            st, r = outcome(call, **copy.deepcopy(own[v]))
            e['ref'] = nums(lent.flat(r)) if st == 'ok' else []
        ev.append(e)
    for e in ev:        # the texts are long: the observer only compares them
        for x in ('before', 'after'):
            e[x] = hashlib.sha1(e[x].encode()).hexdigest()[:16]
    return {'meta': {'fn': name}, 'ev': ev}


def run(c):
    progs = c.model('ElementwiseMC', CFG % c.pick(3, 4))
    rng = c.rng
    byform = {}
    for p in progs:
        byform.setdefault(p['form'], []).append(p)
    jobs = []
    for name, e in REG.items():
        slow = e.get('sdm') or 'marion' in name or 'sheds' in name
        ps = []
        for f, l in byform.items():
            k = (c.pick(6, 60) if slow else c.pick(12, 150))
            ps += rng.sample(l, min(k, len(l)))
            n = 40
            for _ in range(c.pick(1, 4)):   # long layouts: 40 positions over 9 rows
                ps.append({'form': f, 'sel': [rng.randint(1, 9) for _ in range(n)], 'nan': [int(rng.random() < .1) for _ in range(n)]})
        jobs.append((name, c.seed, [ps]))
    tr = [t for g in pmap(group, jobs) for t in g]
    seqs = [r['seq'] for r in c.model('LendingMC', LCFG)]
    table = lent.table()
    jobs = [(name, c.seed * 1000 + i, s, fz) for name in table for i, (s, fz) in enumerate((s, fz) for s in (rng.sample(seqs, 2) if not c.thorough else seqs) for fz in (False, True))]
    lt = pmap(loans, jobs)
    c.validate('Lending', lt)
    c.cov.update(lent=len(table), loans=sum(len(t['ev']) for t in lt))
    c.cov.update(functions=len(REG), programs=len(progs), calls=len(tr))
    c.validate('Elementwise', tr)
    c.assumptions.append('A row of numbers evaluated on its own is the reference; what each function computes is decided by the other properties.')


main(run)
