"""Planted changes: python3 tools/mkseed.py regenerates /verif/seeded/<id>/ from tools/seeds.py (edits against /repo HEAD)."""
import sys, os, subprocess, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
V = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property's demonstration holds; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
srcs="$(ls src/*.cpp | grep -v Optimise.cpp)%s"
g++ -std=c++11 -O1 -w -DNDEBUG -fno-access-control%s -I src -I "$here" "$here/demo.cpp" $srcs -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo > out.txt 2>&1; rc=$?; tail -5 out.txt; exit $rc
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <set>
#include "Boundary.h"
#include "FastMarchingMethod.h"
#include "Heap.h"
#include "Hole.h"
#include "InputOutput.h"
#include "LevelSet.h"
#include "MersenneTwister.h"
#include "Mesh.h"
#include "Sensitivity.h"
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED: " __VA_ARGS__); printf("\\n"); return 1; } } while (0)
int main() {
'''
sel = sys.argv[1:]
for s in seeds.SEEDS:
    if sel and s['id'] not in sel: continue
    d = '%s/%s' % (V, s['id'])
    tmp = tempfile.mkdtemp(prefix='mk-')
    shutil.copytree('/repo/src', tmp + '/src'); 
    subprocess.run('git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, cwd=tmp, check=True)
    for f, old, new in s['edits']:
        p = tmp + '/' + f; t = open(p).read()
        n = t.count(old)
        if n != 1: sys.exit('%s: %d matches for %r in %s' % (s['id'], n, old, f))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run('git diff', shell=True, cwd=tmp, stdout=subprocess.PIPE).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    body = s['demo']
    pre = PRE
    opt = s.get('optimise')
    open(d + '/demo.cpp', 'w').write((s.get('top', '') + pre if not s.get('raw') else '') + body + ('' if s.get('raw') else '\n    return 0;\n}\n'))
    open(d + '/demo.sh', 'w').write(DEMO % (' ' + 'src/Optimise.cpp' if opt else '', ' -fsanitize=address,undefined -fno-sanitize-recover=all' if s.get('asan') else ''))
    if opt: shutil.copy('/verif/drivers/stub/nlopt.hpp', d + '/nlopt.hpp') 
    os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(tmp)
    print('made', s['id'])
