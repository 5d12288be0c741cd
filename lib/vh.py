"""Shared harness: run TLC, hand scenarios to the real pvlib, hand recorded
traces back to TLC, report.  See DESIGN.md, section "Machinery"."""
import os, sys, json, math, time, random, shutil, subprocess, tempfile, re
import traceback, warnings, hashlib, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = len(os.sched_getaffinity(0))


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- encoding
def enc(x):
    """Encode a python value for TLA+: floats become strings, small ints stay."""
    import numpy as np
    import pandas as pd
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 - 2 else str(x)
    if isinstance(x, (float, np.floating)):
        return num(x)
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, (pd.Series, pd.Index)):
        return [enc(v) for v in x.tolist()]
    if isinstance(x, np.ndarray):
        return enc(x.tolist())
    if x is pd.NA or x is pd.NaT:
        return "NaN"
    return "?" + type(x).__name__ + ":" + str(x)


def num(x):
    """A number as its decimal string."""
    try:
        x = float(x)
    except Exception:
        return "?" + type(x).__name__
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def nums(x):
    """A flat sequence of numbers (any array-like or scalar)."""
    import numpy as np
    try:
        a = np.asarray(x, dtype=float).ravel().tolist()
    except Exception:
        return ["?" + type(x).__name__]
    return [num(v) for v in a]


def fl(s):
    """Decode an encoded number."""
    if isinstance(s, str):
        return float({'NaN': 'nan', 'Infinity': 'inf',
                      '-Infinity': '-inf'}.get(s, s))
    return float(s)


# --------------------------------------------------------------------- TLC
_classes = None


def classes(work):
    global _classes
    if _classes is None:
        out = os.path.join(work, 'classes')
        r = subprocess.run(['bash', os.path.join(VERIF, 'bin/build.sh'), out],
                           capture_output=True, text=True)
        if r.returncode:
            raise MachineryError('override build failed: ' + r.stderr[-2000:])
        _classes = out
    return _classes


def run_tlc(work, module, cfg, env=None, workers=None, timeout=800, heap='6g',
            extra=()):
    """Run TLC on module file; return dict(ok, generated, distinct, out, bad)."""
    cl = classes(work)
    meta = tempfile.mkdtemp(prefix='meta', dir=work)
    cfgf = os.path.join(meta, 'm.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vr.R64',
           '-DTLA-Library=' + os.path.join(VERIF, 'spec'),
           '-cp', JARS + ':' + cl, 'tlc2.TLC', '-noGenerateSpecTE',
           '-workers', str(workers or NCPU), '-metadir', meta, '-deadlock',
           '-config', cfgf, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e,
                           timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timeout on ' + module)
    out = r.stdout + r.stderr
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    gen, dist = (int(v.replace(',', '')) for v in m[-1]) if m else (0, 0)
    done = 'Model checking completed. No error has been found' in out
    viol = bool(re.search(r'Error: (Invariant|Action property|Temporal|The '
                          r'postcondition|Property|Deadlock)', out, re.I)) \
        or 'is violated' in out
    shutil.rmtree(meta, ignore_errors=True)
    return dict(ok=done and r.returncode == 0, violation=viol, generated=gen,
                distinct=dist, out=out, rc=r.returncode, wall=time.time() - t0)


def outside(out):
    """(trace, events taken) when TLC could not evaluate a step of a trace."""
    if not re.search(r'The exception was a (java\.lang\.(RuntimeException|ArithmeticException|ClassCastException|NumberFormatException|IllegalArgumentException)|tlc2\.tool\.EvalException|tlc2\.module)', out) \
            and 'Attempted to' not in out:
        return None
    m, l = re.findall(r'^/\\ tr = (\d+)', out, re.M), re.findall(r'^/\\ l = (\d+)', out, re.M)
    return (int(m[-1]), int(l[-1])) if m and l else None


def tail(out):
    i = out.find('Starting...')
    j = out.find('rror')
    if i < 0:
        i = max(0, j - 500)
    return out[i:i + 4000]


TRACE_MOD = '''---- MODULE Trace ----
EXTENDS {mod}, Json, IOUtils, Sequences, Naturals
VARIABLES tr, l, st, bad
Traces == ndJsonDeserialize(IOEnv.VTRACES)
TInit == /\\ tr \\in 1..Len(Traces)
         /\\ l = 0
         /\\ st = SInit(Traces[tr].meta)
         /\\ bad = {{}}
TNext == /\\ l < Len(Traces[tr].ev)
         /\\ l' = l + 1
         /\\ tr' = tr
         /\\ LET r == SStep(Traces[tr].meta, st, Traces[tr].ev[l + 1])
            IN  /\\ st' = r[1]
                /\\ bad' = r[2]
                /\\ (r[2] = {{}} \\/ VEmit(IOEnv.VOUT,
                      [tr |-> Traces[tr].id, l |-> l + 1, bad |-> r[2]]))
TraceOK == bad = {{}}
====
'''


class Check:
    def __init__(self, pid, level='model_checking'):
        self.id = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 7919 + int(hashlib.sha1(
            pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and \
            os.environ.get('VERIF_SHM') else None
        self.work = tempfile.mkdtemp(prefix='vh_%s_' % pid, dir=base)
        self.states = 0
        self.trans = 0
        self.ntraces = 0
        self.nevents = 0
        self.samples = []
        self.failures = []     # (trace, step, clauses)
        self.cov = {}
        self.assumptions = []
        self.model_runs = []
        self.diverged = 0
        self.thorough = self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model checking the specification itself
    def model(self, module, cfg, env=None, emit=True, workers=None,
              extra=(), timeout=800):
        """Exhaustive TLC run of spec/<module>.tla; returns emitted records.
        A violated invariant of the *model* is a machinery error: the model
        does not depend on the code under test."""
        out = os.path.join(self.work, 'emit_%d.ndjson' % len(self.model_runs))
        e = {'VOUT': out}
        e.update(env or {})
        r = run_tlc(self.work, os.path.join(VERIF, 'spec', module + '.tla'),
                    cfg, e, workers=workers, extra=extra, timeout=timeout)
        if not r['ok']:
            raise MachineryError('model %s: %s' % (module, tail(r['out'])))
        self.states += r['distinct']
        self.trans += r['generated']
        self.model_runs.append({'module': module, 'distinct': r['distinct'],
                                'generated': r['generated'],
                                'wall_s': round(r['wall'], 1)})
        recs = []
        if emit and os.path.exists(out):
            seen = set()
            with open(out) as f:
                for line in f:
                    if line not in seen:
                        seen.add(line)
                        recs.append(line)
            recs.sort()
            recs = [json.loads(x) for x in recs]
        return recs

    # -- validating recorded behaviour against the specification
    def validate(self, module, traces, timeout=800, chunk=None):
        """traces: list of dict(meta=..., ev=[...]).  TLC replays each through
        SStep of spec/<module>.tla; failing clauses are collected."""
        traces = [t for t in traces if t is not None]
        if not traces:
            raise MachineryError('no traces for ' + module)
        if chunk is None:
            chunk = len(traces)
        nbad = 0
        for c0 in range(0, len(traces), chunk):
            part = traces[c0:c0 + chunk]
            k = len(self.model_runs)
            tf = os.path.join(self.work, 'tr_%d.ndjson' % k)
            of = os.path.join(self.work, 'vd_%d.ndjson' % k)
            mf = os.path.join(self.work, 'T%d' % k)
            os.makedirs(mf)
            with open(os.path.join(mf, 'Trace.tla'), 'w') as f:
                f.write(TRACE_MOD.format(mod=module))
            tot = 0
            with open(tf, 'w') as f:
                for i, t in enumerate(part):
                    tot += 1 + len(t['ev'])
                    f.write(json.dumps({'id': i, 'meta': enc(t.get('meta', {})) or {'x': 0},
                                        'ev': enc(t['ev'])}) + '\n')
            r = run_tlc(self.work, os.path.join(mf, 'Trace.tla'),
                        'INIT TInit\nNEXT TNext\n',
                        {'VTRACES': tf, 'VOUT': of}, timeout=timeout)
            if not r['ok']:
                at = outside(r['out'])
                if at is None:
                    raise MachineryError('trace spec %s: %s' % (module, tail(r['out'])))
                # no step of the specification can be evaluated for this event
                t, l = part[at[0] - 1], at[1] + 1
                self.failures.append((module, t, min(l, len(t['ev'])), ['outside-the-specification']))
                self.diverged += 1
                rest = part[:at[0] - 1] + part[at[0]:]
                for p in (tf, of):
                    if os.path.exists(p):
                        os.unlink(p)
                shutil.rmtree(mf, ignore_errors=True)
                nbad += 1
                if rest and self.diverged <= 3:
                    nbad += self.validate(module, rest, timeout, None)
                continue
            if r['generated'] != tot:
                raise MachineryError('trace spec %s: explored %d of %d steps'
                                     % (module, r['generated'], tot))
            self.states += r['distinct']
            self.trans += r['generated']
            self.ntraces += len(part)
            self.nevents += tot - len(part)
            self.model_runs.append({'module': 'Trace(%s)' % module,
                                    'traces': len(part),
                                    'distinct': r['distinct'],
                                    'generated': r['generated'],
                                    'wall_s': round(r['wall'], 1)})
            if os.path.exists(of):
                seen = set()
                for line in open(of):
                    if line in seen:
                        continue
                    seen.add(line)
                    v = json.loads(line)
                    self.failures.append((module, part[v['tr']], v['l'], v['bad']))
                    nbad += 1
            for p in (tf,):
                os.unlink(p)
            if part and len(self.samples) < 6:
                t = part[self.rng.randrange(len(part))]
                s = json.dumps({'spec': module, 'meta': enc(t.get('meta', {})),
                                'ev': enc(t['ev'][:2])})
                self.samples.append(s[:1500])
        return nbad

    def fail(self, module, meta, ev, clauses):
        """A violation observed outside TLC's trace run (kept for totality)."""
        self.failures.append((module, {'meta': meta, 'ev': [ev]}, 1, clauses))

    # -- reporting
    def known(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        res = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and line.startswith('{'):
                    k = json.loads(line)
                    if k.get('property') == self.id and not k.get('fixed'):
                        res.append(k)
        return res

    def finish(self):
        known = self.known()
        kseen = {}
        viol = []
        for f in self.failures:
            module, t, l, bad = f
            ev = t['ev'][l - 1] if 0 < l <= len(t['ev']) else {}
            hay = json.dumps({'meta': enc(t.get('meta', {})), 'ev': enc(ev)},
                             sort_keys=True)
            hit = None
            for k in known:
                mt = k['match']
                if set(bad) <= set(mt.get('clauses', bad)) and \
                        all(s in hay for s in mt.get('contains', [])):
                    hit = k
                    break
            if hit:
                kseen.setdefault(hit['id'], hit)
            else:
                viol.append(f)
        for k in kseen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.id, k['what']))
        # every listed finding is announced (the failing input is listed in it)
        for k in known:
            if k['id'] not in kseen:
                print('note: listed finding %s not met by this run' % k['id'])
        cov = {'states': self.states, 'transitions': self.trans,
               'traces_validated_against_impl': self.ntraces,
               'events_validated': self.nevents,
               'samples': self.samples or ['none'],
               'runs': self.model_runs}
        cov.update(self.cov)
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if viol:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.id + '.json')
            with open(path, 'w') as f:
                json.dump([{'spec': m, 'meta': enc(t.get('meta', {})),
                            'event': enc(t['ev'][l - 1]) if 0 < l <= len(t['ev']) else None,
                            'step': l, 'failed_clauses': bad}
                           for m, t, l, bad in viol[:50]], f, indent=1)
            names = {}
            for m, t, l, bad in viol:
                for b in bad:
                    b = b if isinstance(b, str) else json.dumps(b)
                    names[b] = names.get(b, 0) + 1
            print('failed clauses: ' + json.dumps(names))
            m, t, l, bad = viol[0]
            print('first: spec=%s clauses=%s meta=%s event=%s' % (
                m, bad, json.dumps(enc(t.get('meta', {})))[:1500],
                json.dumps(enc(t['ev'][l - 1]) if 0 < l <= len(t['ev']) else None)[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            return 1
        print('OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs' % (
            self.id, self.tier, self.states, self.ntraces, self.nevents,
            time.time() - self.t0))
        return 0


def outcome(fn, *a, **k):
    """Run fn; ('ok', value) or ('exc', ExceptionTypeName)."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return 'ok', fn(*a, **k)
        except Exception as e:
            return 'exc', type(e).__name__


def setup_path():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')


def main(run):
    """run(check) -> None; exit code protocol."""
    import importlib
    setup_path()
    pid = os.environ['VERIF_PROP']
    c = Check(pid)
    try:
        try:
            run(c)
            rc = c.finish()
        except MachineryError as e:
            print('MACHINERY ERROR: %s' % e)
            rc = 2
    except Exception as e:
        # the code under test failed where the scenario expects no failure
        text = traceback.format_exc()
        print(text)
        rc = 2
        if os.path.join(REPO, 'pvlib') in text:
            try:
                c.fail('driver', {'where': text[-1500:]}, {'exc': type(e).__name__},
                       ['unexpected-exception-in-pvlib'])
                rc = c.finish()
            except Exception:
                traceback.print_exc()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def pmap(fn, items, procs=None):
    """Parallel map in forked processes (order preserved)."""
    import multiprocessing as mp
    items = list(items)
    procs = min(procs or NCPU, max(1, len(items)))
    if procs == 1 or len(items) < 2:
        return [fn(x) for x in items]
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as p:
        return p.map(fn, items, chunksize=max(1, len(items) // (procs * 4)))
