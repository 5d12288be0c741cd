"""Write and validate planted bugs.  tools/plant.py defs.py [id...]
defs.py holds BUGS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)].
Each is validated in a scratch copy: applies, builds, stable tests pass,
demo exits 0 without and non-zero with the change."""
import sys, os, json, subprocess, shutil, tempfile, runpy
V = '/verif'
bugs = runpy.run_path(sys.argv[1])['BUGS']
want = set(sys.argv[2:])
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" exec python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, env=env)


def one(b):
    wt = tempfile.mkdtemp(prefix='plant_')
    try:
        repo = wt + '/repo'
        sh('cp -a /repo %s' % repo, '/')
        sh('git checkout -q -- .', repo)
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %r' % (s.count(old), f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        d = sh('git diff', repo).stdout
        out = os.path.join(V, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(d)
        open(out + '/demo.py', 'w').write(b['demo'].strip() + '\n')
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % out, '/repo')
        if a.returncode:
            return 'demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-600:]
        a = sh('bash %s/demo.sh' % out, repo)
        if a.returncode == 0:
            return 'demo passes with the change'
        sys.stdout.write('   demo: ' + (a.stdout + a.stderr).strip().splitlines()[-1][:200] + '\n')
        # stable tests in the copy
        t = sh('sed "s#/repo#%s#g" /opt/vp/test.sh > %s/test.sh; sed "s#cd /repo#cd %s#" /opt/vp/env.sh > %s/env.sh; sed -i "s#/opt/vp/env.sh#%s/env.sh#" %s/test.sh; bash %s/test.sh %s/t.json' % (repo, wt, repo, wt, wt, wt, wt, wt), repo)
        try:
            res = json.load(open(wt + '/t.json'))
        except Exception:
            return 'tests gave no result ' + (t.stdout + t.stderr)[-800:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        return res, base
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    for b in bugs:
        if want and b['id'] not in want:
            continue
        print(b['id'], b['property'])
        r = one(b)
        if isinstance(r, str):
            print('   REJECTED', r)
            continue
        res, base = r
        sys.path.insert(0, V + '/tools')
        from planttests import failing
        f = failing(res, base)
        print('   tests no longer passing:', f[:5] if f else 'none')
        if f:
            print('   REJECTED')
