#!/usr/bin/env python3
"""check.py <property> [--repo DIR]: re-extracts /repo's sources, regenerates and discharges every obligation of
the property's contracts, and replays the property on the real code.  Exit 0 / 1 (VIOLATION line)."""
import sys, os, time, json, subprocess, tempfile, shutil, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
from vc import smt, run as R
from vc.cast import ExtractionError
from vc.props import PROPS, COMMON_TRUST

def driver(prop, cfg, repo, tmp, seed, tier):
    """compile the replay driver against the current sources and run it; returns dict"""
    src = os.path.join(VERIF, 'drivers', cfg['driver'])
    exe = os.path.join(tmp, 'drv')
    flags = ['-std=c++11', '-O1', '-g', '-w', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize=enum,vla-bound', '-fno-sanitize-recover=all',
           '-I', os.path.join(VERIF, 'drivers'), '-I', os.path.join(repo, 'src'), '-I', os.path.join(VERIF, 'drivers', 'stub')] + cfg.get('cxxflags', [])
    if not cfg.get('asan', True): flags = [c for c in flags if not c.startswith('-fsanitize') and not c.startswith('-fno-san')]
    units = [(src, [])]
    if cfg.get('link'):
        # the repository's own translation units, compiled separately and unmodified (prelude: exit() throws, private is public)
        names = sorted(f for f in os.listdir(os.path.join(repo, 'src')) if f.endswith('.cpp') and (f != 'Optimise.cpp' or cfg['link'] == 'all'))
        units += [(os.path.join(repo, 'src', f), ['-include', os.path.join(VERIF, 'drivers', 'prelude.h')]) for f in names]
    ps = []; objs = []
    for i, (u, ex) in enumerate(units):
        o = os.path.join(tmp, 'u%d.o' % i); objs.append(o)
        ps.append(subprocess.Popen(['g++'] + flags + ex + ['-c', u, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    log = ''; bad = False
    for p in ps:
        o = p.communicate()[0].decode(errors='replace')
        if p.returncode != 0: bad = True; log += o
    if not bad:
        p = subprocess.run(['g++'] + flags + objs + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0: bad = True; log += p.stdout.decode(errors='replace')
    if bad: return dict(status='nobuild', log=log[:4000], wall=0)
    case = os.path.join(tmp, 'case')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0')
    t0 = time.time()
    limit = 60 if tier == 'quick' else 420
    work = os.path.join(tmp, 'work'); os.makedirs(work, exist_ok=True)
    def go(args, to):
        try:
            q = subprocess.run([exe, str(seed), tier] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=to, env=env, cwd=work)
            return q.returncode, q.stdout.decode(errors='replace'), q.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode(errors='replace'), ''
    rc, out, err = go([case, '-1', str(limit)], limit + 60)
    d = dict(wall=time.time() - t0, rc=rc)
    if rc == 0:
        d['status'] = 'ok'; d['cases'] = 0; d['evaluations'] = 0; d['distinct'] = 0; d['samples'] = []
        for l in out.split('\n'):
            if l.startswith('OK '):
                for kv in l.split()[1:]:
                    k, v = kv.split('='); d[k] = int(v)
            if l.startswith('SAMPLE '): d['samples'].append(l[7:])
        return d
    try: k = open(case).read().split()[0]
    except Exception: k = '0'
    rc2, out2, err2 = go(['-', k], 90)
    d.update(status='fail', case=k, out=(out if rc == 1 and out.startswith('FAIL') else ''), trace=out2[-20000:] , err=(err2 or err)[-6000:], rc2=rc2)
    if rc2 == 0 and rc == 'timeout': d['status'] = 'slow'
    d['summary'] = next((l for l in (out + '\n' + out2).split('\n') if l.startswith('FAIL')), None) or \
        next((l for l in err2.split('\n') if 'ERROR' in l or 'runtime error' in l), None) or ('driver run ended with %s (case %s)' % (rc2 if rc2 != 0 else rc, k))
    return d

def main():
    prop = sys.argv[1]
    repo = '/repo'
    if '--repo' in sys.argv: repo = sys.argv[sys.argv.index('--repo') + 1]
    noproof = '--noproof' in sys.argv; nodriver = '--nodriver' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    import threading
    dres = {}
    def drv():
        try: dres.update(driver(prop, cfg, repo, tmp, seed, tier))
        except Exception as e: dres.update(status='error', log=traceback.format_exc(), wall=0)
    th = None
    if cfg.get('driver') and not nodriver:
        th = threading.Thread(target=drv); th.start()
    fails = []; ses = None
    if not noproof:
        try:
            ses = R.Session(repo, cfg['files'], cfg['specs'], flags=cfg.get('flags', []), tmp=os.path.join(tmp, 'smt'), hooks=cfg.get('hooks'), jobs=8, prop=prop)
            os.makedirs(ses.tmp, exist_ok=True)
            plan = smt.QUICK if tier == 'quick' else smt.QUICK + [('z3', 120), ('cvc5', 120)]
            sel = R.closure(ses.specs, prop)
            ses.verify(lambda c: c.key + str(c.sig) in sel, plan=plan, budget=cfg.get('budget', 150) if tier == 'quick' else 400)
            ses.unbound = [(c, n) for c, n in ses.unbound if prop in c.props or c.key + str(c.sig) in sel]
            fails = ses.failures()
            n = sum(1 for o in ses.results if o['kind'] != 'cover')
            if n == 0: fails.append(dict(func='-', name='no obligation was generated', kind='vacuity', status='error', log=[], line=0, path=None))
        except ExtractionError as e:
            fails = [dict(func='-', name='extraction: %s' % e, kind='extraction', status='error', log=[traceback.format_exc()], line=0, path=None)]
    if th: th.join()
    # obligations no solver settled in its share of time, tried again with every core (unless the replay has already failed)
    if ses is not None and fails and dres.get('status') != 'fail':
        again = [o for o in ses.results if o['kind'] != 'cover' and o['status'] == 'unknown' and o.get('path')]
        if len(again) <= 20 and len(again) == len(fails):
            for o in again:
                left = 640 - (time.time() - t0)
                if left < 20: break
                won, dt = smt.persist(o['path'], min(120, left))
                o['time'] += dt; o['log'].append('all strategies at once: %s %.1fs' % (won or 'none', dt))
                if won is None: break
                o['status'] = 'unsat'; o['solver'] = won
            fails = ses.failures()
    known = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('property=%s ' % prop): known.append(l)
    except OSError: pass
    # ---- evidence
    obl = [o for o in ses.results if o['kind'] != 'cover'] if ses and hasattr(ses, 'results') else []
    back = {}
    for o in obl:
        if o['status'] == 'unsat': back[o['solver']] = back.get(o['solver'], 0) + 1
    triv = sum(r['triv'] for r in ses.res) if ses and hasattr(ses, 'res') else 0
    if triv: back['simplifier'] = triv
    cov = dict(obligations=len(obl) + triv, discharged=sum(o['status'] == 'unsat' for o in obl) + triv,
               checker_cmd='python3 check.py %s (discharges each obligation with one of: z3-new, z3, cvc5)' % prop,
               trusted_base=COMMON_TRUST + cfg.get('trust', []),
               functions_under_contract=sorted(r['key'] for r in ses.res if not r['key'].startswith('lemma')) if ses and hasattr(ses, 'res') else [],
               functions_inlined=sorted({x for r in ses.res for x in r['inlined']}) if ses and hasattr(ses, 'res') else [],
               trusted_contracts=sorted(c.key + (' (discharged by the check of %s)' % ', '.join(sorted(c.checked_by)) if c.checked_by else '') for c in ses.specs.contracts if c.trusted) if ses else [],
               lemmas=sorted(r['key'][6:] for r in ses.res if r['key'].startswith('lemma')) if ses and hasattr(ses, 'res') else [],
               back_ends=back, solver_seconds=round(sum(o['time'] for o in obl), 2),
               slowest=[dict(name=o['name'], seconds=round(o['time'], 2), solver=o['solver']) for o in sorted(obl, key=lambda o: -o['time'])[:3]],
               obligations_by_kind={k: sum(o['kind'] == k for o in obl) for k in sorted({o['kind'] for o in obl})},
               termination_not_shown=sorted({'%s loop %s' % (x[0], x[1]) for r in ses.res for x in r['nodec']}) if ses and hasattr(ses, 'res') else [],
               reachability_covers=sum(o['kind'] == 'cover' for o in ses.results) if ses and hasattr(ses, 'results') else 0,
               covers_refuted=[o['name'] for o in ses.results if o['kind'] == 'cover' and o['status'] == 'unsat'] if ses and hasattr(ses, 'results') else [],
               bounded_replay=dict(label='bounded: concrete executions of the real code, never counted as proved', status=dres.get('status', 'none'), cases=dres.get('cases', 0),
                                   evaluations=dres.get('evaluations', 0), distinct=dres.get('distinct', 0), seconds=round(dres.get('wall', 0), 1), samples=dres.get('samples', [])[:2]))
    assum = sorted({a for r in ses.res for a in r['assumptions']}) if ses and hasattr(ses, 'res') else []
    rc = 0; lines = []
    rp = os.path.join(VERIF, 'replay'); os.makedirs(rp, exist_ok=True)
    replay = os.path.join(rp, '%s.txt' % prop)
    concrete = dres.get('status') == 'fail'
    if concrete or fails:
        with open(replay, 'w') as f:
            f.write('property %s, tier %s, seed %d\n' % (prop, tier, seed))
            if concrete:
                f.write('\n== failing input on the real code ==\n%s\n%s\n%s\n%s\n' % (dres.get('summary'), dres.get('out', ''), dres.get('trace', ''), dres.get('err', '')))
                f.write('\nreplay: g++ -std=c++11 -w -DNDEBUG -fsanitize=address,undefined%s -I /verif/drivers -I %s/src -I /verif/drivers/stub /verif/drivers/%s%s -o drv && ./drv %d %s - %s\n' % (' -include /verif/drivers/prelude.h $(ls ' + repo + '/src/*.cpp' + ('' if cfg['link'] == 'all' else ' | grep -v Optimise.cpp') + ')' if cfg.get('link') else '', repo, cfg['driver'], ''.join(' ' + x for x in cfg.get('cxxflags', [])), seed, tier, dres.get('case')))
            else: f.write('\nno failing input found by the replay driver (%s)\n' % json.dumps({k: v for k, v in dres.items() if k in ('status', 'cases', 'evaluations')}))
            f.write('\n== obligations not discharged (%d) ==\n' % len(fails))
            for o in fails:
                f.write('%s\n  status: %s\n  %s\n' % (o['name'], o['status'], '\n  '.join(o['log'])))
            for o in fails[:3]:
                if o.get('path') and os.path.exists(o['path']) and o['status'] == 'sat':
                    t = open(o['path']).read() + '(get-model)\n'
                    q = subprocess.run(['z3-new', '-T:10', '-in'], input=t.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    f.write('\n-- verifier counterexample for %s (over mathematical integers/reals)\n%s\n' % (o['name'], q.stdout.decode(errors='replace')[:6000]))
                elif o.get('path') and os.path.exists(o['path']):
                    f.write('\n-- query of %s\n%s\n' % (o['name'], open(o['path']).read()[:6000]))
        rc = 1
        if fails:
            for o in fails[:5]: lines.append('undischarged: %s [%s]' % (o['name'], o['status']))
        if concrete: lines.append('replayed: ' + str(dres.get('summary')))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if concrete else ' no-failing-input-found'))
    elif dres.get('status') not in ('ok', None) :
        # the driver could not be built or ran out of time although every obligation was discharged
        lines.append('note: replay driver status %s\n%s' % (dres.get('status'), dres.get('log', '')[:1500]))
        if dres.get('status') in ('nobuild', 'error'):
            with open(replay, 'w') as f: f.write('replay driver: %s\n%s\n' % (dres.get('status'), dres.get('log', '')))
            rc = 1; lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    else:
        if os.path.exists(replay): os.remove(replay)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'proof'), coverage=cov, assumptions=assum + cfg.get('assume', []), wall_s=round(time.time() - t0, 2), violations=1 if rc else 0)
    if cfg.get('level') == 'exploration':
        cov.update(evaluations=dres.get('evaluations', 0), distinct_nontrivial=dres.get('distinct', 0), rule=cfg.get('rule', ''), samples=dres.get('samples', [])[:3])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for l in known: print('KNOWN-FINDING: ' + l)
    print('%s: %d obligations, %d discharged (%s), %d functions; replay %s, %s cases; %.1fs' % (prop, cov['obligations'], cov['discharged'],
          ', '.join('%s %d' % kv for kv in sorted(back.items())), len(cov['functions_under_contract']), dres.get('status'), dres.get('cases'), time.time() - t0))
    for l in lines: print(l)
    if '--hints' in sys.argv and ses:
        hp = os.path.join(VERIF, 'contracts', 'hints.json')
        h = json.load(open(hp)) if os.path.exists(hp) else {}
        for o in obl:
            k = hashlib.md5(o['name'].encode()).hexdigest()[:12]
            if o['status'] == 'unsat' and o['time'] > 2.5: h[k] = o['solver']
        json.dump(h, open(hp, 'w'), indent=0, sort_keys=True)
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

if __name__ == '__main__': main()
