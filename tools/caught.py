#!/usr/bin/env python3
"""caught.py [ids]: run the property's check on a scratch copy of /repo with each planted change applied; results in tools/caught.json."""
import sys, os, json, subprocess, glob, tempfile, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); OUT = V + '/tools/caught.json'
try: R = json.load(open(OUT))
except Exception: R = {}
args = [a for a in sys.argv[1:] if not a.startswith('--')]; opts = [a for a in sys.argv[1:] if a.startswith('--')]
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); P = json.load(open(d))['property']
    if args and i not in args: continue
    tmp = tempfile.mkdtemp(prefix='caught-')
    try:
        subprocess.run('git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff' % (tmp, tmp, os.path.dirname(d)), shell=True, check=True)
        p = subprocess.run(['python3', V + '/check.py', P, '--repo', tmp + '/r'] + opts, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode(errors='replace'); v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
        obl = re.findall(r'^undischarged: (.*)', o, re.M)
        R[i] = dict(property=P, rc=p.returncode, how='none' if not v else 'obligation' if 'no-failing-input-found' in v[0] else 'input', obligation=obl[0][:160] if obl else None)
        print(i, R[i], flush=True)
        json.dump(R, open(OUT, 'w'), indent=1, sort_keys=True)
    finally: shutil.rmtree(tmp, ignore_errors=True)
