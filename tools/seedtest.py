#!/usr/bin/env python3
"""seedtest.py [ids...] [--nocheck]: confirm each planted change (builds, stable tests pass, demo 0 without / non-zero with) and run its check on it."""
import sys, os, json, subprocess, shutil, tempfile, glob
V = '/verif'
def sh(c, cwd='/repo', to=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to)
    return p.returncode, p.stdout.decode(errors='replace')
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + '/seeded/*/meta.json'))
base = json.load(open('/opt/vp/BASELINE.json'))
for i in ids:
    d = '%s/seeded/%s' % (V, i); prop = json.load(open(d + '/meta.json'))['property']
    assert sh('git status --short')[1] == '', 'dirty /repo'
    tmp = tempfile.mkdtemp(prefix='seed-'); shutil.copytree(d, tmp + '/s')
    for f in glob.glob(tmp + '/s/*.diff') + glob.glob(tmp + '/s/meta.json'): os.remove(f)
    res = []
    try:
        sh('bash /opt/vp/build.sh'); rc0, o0 = sh('bash %s/s/demo.sh' % tmp, to=300)
        rc, o = sh('git apply %s/patch.diff' % d)
        if rc: print(i, 'PATCH DOES NOT APPLY', o); continue
        rcb, ob = sh('bash /opt/vp/build.sh')
        sh('bash /opt/vp/test.sh %s/out.json' % tmp)
        try: t = json.load(open(tmp + '/out.json'))
        except Exception as e: t = {'err': str(e)}
        passed = set(t.get('passed', []))
        want = set(base['stable'] if isinstance(base, dict) else base)
        rc1, o1 = sh('bash %s/s/demo.sh' % tmp, to=300)
        rc2 = None; line = ''
        if '--nocheck' not in sys.argv:
            shutil.copytree('/repo', tmp + '/repo', symlinks=True)
            rc2, o2 = sh('python3 %s/check.py %s --repo %s/repo' % (V, prop, tmp), cwd=V)
            line = ' | '.join(l[:200] for l in o2.split('\n') if l.startswith(('VIOLATION', 'replayed')))
        ok = rc0 == 0 and rcb == 0 and not (want - passed) and rc1 != 0
        print('%-28s %s demo %s/%s build %s tests-missing %s | check %s rc=%s %s' % (i, 'CONFIRMED' if ok else 'BAD', rc0, rc1, rcb, sorted(want - passed), prop, rc2, line), flush=True)
        if not ok: print(o0[-500:], ob[-800:] if rcb else '', o1[-500:])
    finally:
        sh('git checkout -- .'); shutil.rmtree(tmp, ignore_errors=True)
sh('bash /opt/vp/build.sh')
