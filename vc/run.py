"""Driver: verifies the contracts a property depends on against /repo's current sources."""
import os, sys, json, time, re, tempfile, shutil, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp
from .terms import *
from . import terms as T
from .cast import Program, ExtractionError, node_type
from . import exec as X
from .exec import Exec, Lval, CLval, PtrVal, State, Frame, Obligation, PathEnd, is_scalar
from .spec import Specs, SpecError, Expr
from . import smt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def verify_function(prog, specs, c, hooks=None):
    """generate the obligations of one contract; returns (exec, obligations)"""
    f = c.func
    ex = Exec(prog, specs)
    ex.fname = c.key + ('' if c.sig is None else '~' + hashlib.md5(c.sig.encode()).hexdigest()[:4])
    ex.modeflags = set(c.flags)
    ex.inline_set = frozenset(c.inline)
    ex.top_contract = c
    ex.counted = c.counted; ex.lasts = c.lasts
    if hooks: hooks(ex)
    if f is None or f['body'] is None: raise ExtractionError('%s has no body' % c.key)
    st = State()
    this = None
    cls = c.key.split('::')[:-1]
    isctor = f['node']['kind'] == 'CXXConstructorDecl'
    static = f['node'].get('storageClass') == 'static' or f['node']['kind'] == 'FunctionDecl'
    if cls and not static:
        rec = '::'.join(cls)
        if rec not in prog.records: raise ExtractionError('record %s not found' % rec)
        this = Lval('this', (), ('rec', rec))
    fr = Frame(f, f['tu'], this)
    fr.contract = c
    ex.stack.append(fr); ex.stack0 = fr
    pspec = {}
    for i, p in enumerate(f['params']):
        nm = p.get('name', '') or 'arg%d' % i
        ty = ex.rty(node_type(p))
        cn = c.params[i] if i < len(c.params) else nm
        if ty[0] == 'ref':
            if ty[1][0] == 'func':
                lv = Lval(cn, (), ('func',))
            else: lv = Lval(cn, (), ty[1])
            fr.params[cn] = lv; fr.params.setdefault(nm, lv)
        else:
            lv = Lval(cn, (), ty)
            if is_scalar(ty):
                t = ex.read(st, lv)
                fr.params[cn] = t; fr.params.setdefault(nm, t)
            elif ty[0] == 'ptr':
                pv = ex.read(st, lv); fr.params[cn] = pv; fr.params.setdefault(nm, pv)
            else:
                fr.params[cn] = lv; fr.params.setdefault(nm, lv)
        st.env[p['id']] = lv
        fr.names[nm] = lv; fr.names[cn] = lv
    old0 = st.clone(); ex.old0 = old0
    env0 = dict(fr.params)
    if this is not None: env0['this'] = this
    for e, lab in c.requires:
        st.assume(specs.evalb(ex, e, env0, st, old0))
    ex.cover(st, 'requires satisfiable')
    ex.hide = c.hide; ex.posthide = c.posthide
    ex.old0 = old0 = st.clone()
    fr.old = old0
    for kind, e in c.entry: ex.spec_step(kind, e, st, None, 'entry')
    valparams = set(); 
    for i, p in enumerate(f['params']):
        ty = ex.rty(node_type(p))
        if ty[0] != 'ref' and ty[0] != 'ptr': valparams.add(st.env[p['id']].root)
    out = []
    try:
        if isctor: ex.ctor_inits(f, this, st)
        out = ex.run_body(f, st, fr)
    except PathEnd: pass
    rty = f['type'].split('(')[0].strip()
    # assigned locations (evaluated at entry)
    allowed = []
    for a in c.assigns:
        v = specs.eval(ex, a, env0, old0, old0, lval=True)
        for l in (v.alts if isinstance(v, CLval) else [(TRUE, v)]):
            allowed.append((l[1].root, l[1].key()[1]))
    nret = 0
    for s, v in out:
        nret += 1
        ex.cover(s, 'return %d reachable' % nret)
        env = dict(env0)
        envx = dict(fr.names); envx.update(env0)
        if v is not None:
            env['result'] = v; envx['result'] = v
        for kind, e in c.exit:
            if kind == 'use': s.assume(specs.use(ex, e, envx, s, old0))
            else: ex.oblige(s, 'assert', specs.evalb(ex, e, envx, s, old0), None, 'exit: %s' % e.text)
        for e, lab in c.ensures:
            g = specs.evalb(ex, e, env, s, old0)
            ex.oblige(s, 'postcondition', g, None, e.text, label=lab, assume=True)
        for key, t in s.mem.items():
            root, path = key
            if '#' in root or root in valparams or root in ('errno', 'FILE', 'calls', 'last'): continue
            if isctor and root == 'this': continue
            o = old0.mem.get(key)
            if o is None: o = const(root + ''.join('.' + x for x in path), t.sort)
            if o is t: continue
            if any(r == root and path[:len(p)] == p for r, p in allowed): continue
            # element-wise frame: some allowed location is deeper than this leaf only if equal
            ex.oblige(s, 'frame', eq(o, t), None, '%s is not modified' % (root + ''.join('.' + x for x in path)), assume=False)
    if not out and 'noreturn' not in c.flags:
        ex.oblige(ex.old0, 'exit', FALSE, None, 'function can return')
    return ex

def split(o):
    for hy, g in T.split_goal(o.goal): yield list(hy), g

def lemma_obls(prog, specs, name):
    L = specs.lemmas[name]
    ex = Exec(prog, specs); ex.fname = 'lemma ' + name; ex.hide = L['hide']
    ts = [const(p, s) for p, s in L['params']]
    hyps = []
    env = dict(zip([p for p, s in L['params']], ts))
    from .spec import Ctx
    st = State(); c = Ctx(ex, st, st)
    pre = [specs.bv(e.ast, env, c) for e in L['requires']]
    hyps += pre
    if L['induct']:
        n = env[L['induct']]
        hyps.append(TRUE)
        if L['strong']:
            b = freshb(L['induct'], 'Int')
            e2 = dict(env); e2[L['induct']] = b
            p2 = and_(*[specs.bv(e.ast, e2, c) for e in L['requires']])
            q2 = and_(*[specs.bv(e.ast, e2, c) for e in L['ensures']])
            pats = []
            for p in L['trigger']:
                pats.append(T.mk('pat', tuple(specs.pt(x, e2, c) for x in p), 'Bool'))
            hyps.append(forall([b], implies(and_(le(I(0), b), lt(b, n), p2), q2), pats))
        else:
            e2 = dict(env); e2[L['induct']] = sub(n, I(1))
            p2 = and_(*[specs.bv(e.ast, e2, c) for e in L['requires']])
            q2 = and_(*[specs.bv(e.ast, e2, c) for e in L['ensures']])
            hyps.append(implies(and_(ge(n, I(1)), p2), q2))
    for k, e in L['use']:
        if k == 'use': hyps.append(specs.use_ast(e.ast, env, c))
        else:
            g = specs.bv(e.ast, env, c)
            ex.obls.append(Obligation(name='lemma %s/assert %s' % (name, e.text[:100]), kind='lemma', hyps=list(hyps), goal=g, line=0, func='lemma ' + name, label=None, lemmas=None, trivial=False, props=None))
            hyps.append(g)
    for e in L['ensures']:
        g = specs.bv(e.ast, env, c)
        ex.obls.append(Obligation(name='lemma %s/%s' % (name, e.text[:140]), kind='lemma', hyps=list(hyps), goal=g, line=0, func='lemma ' + name, label=None, lemmas=None, trivial=False, props=None))
        hyps.append(g)
    ex.covers.append(('lemma %s/requires satisfiable' % name, pre))
    return ex

_G = {}

def _gen(item):
    prog, specs, fuel = _G['prog'], _G['specs'], _G['fuel']
    kind, x = item[:2]
    k, m = item[2:] or (0, 1)
    t0 = time.time()
    try:
        if kind == 'fn':
            c = specs.contracts[x]
            ex = verify_function(prog, specs, c, _G.get('hooks'))
            key = ex.fname
        else:
            ex = lemma_obls(prog, specs, x); key = 'lemma ' + x
            c = None
    except (ExtractionError, KeyError, RecursionError, AssertionError, AttributeError, IndexError, TypeError, ValueError) as e:
        nm = specs.contracts[x].key if kind == 'fn' else 'lemma ' + x
        return dict(key=nm, error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc(), obls=[], covers=[], inlined=[], contracts=[], lemmas=[], assumptions=[], gen=time.time() - t0, missing=[], nodec=[], triv=0)
    obls = []; triv = 0
    names = {}
    no = 0
    for o in ex.obls:
        for hy, g in split(o):
            if g.op == 'and': g = and_(*[x for x in g.args if not any(h is x for h in o.hyps)])
            if g is TRUE or any(h is g for h in o.hyps) or any(h is g or h is FALSE for h in hy):
                triv += 1; continue
            if FALSE in o.hyps: triv += 1; continue
            nm = o.name
            names[nm] = names.get(nm, 0) + 1
            if names[nm] > 1: nm += '#%d' % names[nm]
            no += 1
            if no % m != k: continue
            if _G.get('only') and not any(z in nm for z in _G['only'].split('|')): continue
            txt = smt.emit(ex, specs, o.hyps + hy, g, fuel, comment=nm, sk=bool(hy), hide=ex.posthide if o.kind == 'postcondition' else ())
            obls.append((nm, o.kind, o.label, o.line, txt))
    covers = []
    if k: return dict(key=key, slice=True, error=None, obls=obls, covers=[], lemmas=[])
    for lab, hyps in ex.covers:
        if FALSE in hyps: covers.append((lab, None)); continue
        covers.append((lab, smt.emit(ex, specs, hyps, FALSE, fuel, comment='cover ' + lab)))
    return dict(key=key, error=None, obls=obls, covers=covers, inlined=sorted(ex.inlined), contracts=sorted(ex.used_contracts),
                lemmas=sorted(ex.used_lemmas), assumptions=sorted(ex.assumptions), gen=time.time() - t0,
                missing=list(ex.missing_inv), nodec=list(ex.nodec), triv=triv)

class Session:
    def __init__(self, repo, files, specfiles, flags=(), fuel=2, jobs=8, tmp=None, verbose=False, hooks=None, prop=None):
        self.repo = repo; self.verbose = verbose; self.jobs = jobs
        self.t0 = time.time()
        self.specs = Specs()
        for s in specfiles: self.specs.load(os.path.join(VERIF, 'contracts', s))
        self.prog = Program(repo, files, flags)
        # checked_by P: the contract is discharged by the check of property P; every other check relies on it
        for c in self.specs.contracts:
            if c.checked_by and prop in c.checked_by: c.trusted = False
        self.unbound = self.specs.bind(self.prog)
        self.fuel = fuel
        self.tmp = tmp or tempfile.mkdtemp(prefix='vc')
        self.hooks = hooks
        try: self.hints = json.load(open(os.path.join(VERIF, 'contracts', 'hints.json')))
        except Exception: self.hints = {}

    def verify(self, select=None, plan=None, budget=100, covers=True, only=None):
        _G.update(prog=self.prog, specs=self.specs, fuel=self.fuel, hooks=self.hooks, only=only)
        items = []
        for i, c in enumerate(self.specs.contracts):
            if c.trusted or c.func is None: continue
            if select is None or select(c):
                if 'slices' in c.flags: items[:0] = [('fn', i, k, self.jobs) for k in range(self.jobs)]
                else: items.append(('fn', i))
        res = []
        ctx = mp.get_context('fork')
        done_lemmas = set()
        plan = plan or smt.QUICK
        results = []
        with ThreadPoolExecutor(self.jobs) as tp:
            futs = []
            def submit(rs):
                for r in rs:
                    if not r.get('slice'): res.append(r)
                    for (nm, kind, label, line, txt) in r['obls']:
                        if only and not any(z in nm for z in only.split('|')): continue
                        path = os.path.join(self.tmp, hashlib.md5((r['key'] + nm).encode()).hexdigest()[:16] + '.smt2')
                        futs.append((r['key'], nm, kind, label, line, path, tp.submit(smt.solve, txt, path, plan, self.hints.get(hashlib.md5(nm.encode()).hexdigest()[:12]), budget)))
                    if covers and not only:
                        for lab, txt in r['covers']:
                            if txt is None:
                                futs.append((r['key'], lab, 'cover', None, 0, None, None)); continue
                            path = os.path.join(self.tmp, hashlib.md5((r['key'] + lab).encode()).hexdigest()[:16] + '.cov.smt2')
                            futs.append((r['key'], lab, 'cover', None, 0, path, tp.submit(smt.solve, txt, path, [('z3', 1)], None, 2)))
            while items:
                with ctx.Pool(min(self.jobs, len(items))) as pool:
                    for r in pool.imap_unordered(_gen, items, chunksize=1): submit([r])
                need = set()
                for r in res: need |= set(r['lemmas'])
                need -= done_lemmas
                done_lemmas |= need
                items = [('lemma', n) for n in sorted(need)]
            for key, nm, kind, label, line, path, fu in futs:
                st, s, dt, log = fu.result() if fu is not None else ('unsat', 'simplifier', 0, ['hypotheses contain false'])
                results.append(dict(func=key, name=nm, kind=kind, label=label, line=line, status=st, solver=s, time=dt, log=log, path=path))
        self.res = res; self.results = results
        self.wall = time.time() - self.t0
        return results

    def failures(self):
        out = []
        for r in self.res:
            if r['error']: out.append(dict(func=r['key'], name=r['key'] + '/extraction: ' + r['error'], kind='extraction', status='error', log=[r.get('tb', '')], line=0, path=None, label=None))
            for (fn, no, line) in r['missing']:
                out.append(dict(func=r['key'], name='%s/loop %s at line %d has no invariant' % (fn, no, line), kind='annotation', status='missing', log=[], line=line, path=None, label=None))
        for c, n in self.unbound:
            if not c.trusted or n > 1: out.append(dict(func=c.key, name='%s/contract cannot be attached: %d candidate functions' % (c.key, n), kind='extraction', status='error', log=[], line=0, path=None, label=None))
        for o in self.results:
            if o['kind'] == 'cover':
                if o['status'] == 'unsat' and 'requires' in o['name']: out.append(o)
            elif o['status'] != 'unsat': out.append(o)
        return out

def closure(specs, prop):
    """contracts tagged with the property plus, transitively, every contract their bodies call"""
    byname = {}
    for c in specs.contracts:
        if c.func is not None: byname.setdefault(c.func['mangled'], c)
    out = set(); todo = [c for c in specs.contracts if prop in c.props]
    seen = set()
    def callees(f):
        res = set()
        def walk(n):
            if not isinstance(n, dict): return
            k = n.get('kind')
            ids = []
            if k == 'MemberExpr': ids.append(n.get('referencedMemberDecl'))
            if k == 'DeclRefExpr': ids.append(n.get('referencedDecl', {}).get('id'))
            for i in ids:
                d = f['tu'].decls.get(i)
                if d is not None and d.get('mangledName'): res.add(d['mangledName'])
            if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                t = node_type(n)
                if t[0] == 'name':
                    for m in specs.prog.byname.get(t[1] + '::' + t[1].split('::')[-1], []): res.add(m)
            for x in n.get('inner', ()): walk(x)
        if f.get('body'): walk(f['body'])
        for i in f.get('inits', []): walk(i)
        return res
    fseen = set()
    def visit(f):
        if f['mangled'] in fseen: return
        fseen.add(f['mangled'])
        for m in callees(f):
            g = specs.prog.funcs.get(m)
            if g is None or g['tu'] is None: continue
            c = byname.get(m)
            if c is not None: add(c)
            elif g['body'] is not None: visit(g)
    def add(c):
        k = c.key + str(c.sig)
        if k in out: return
        out.add(k)
        if c.func is not None and not c.trusted: visit(c.func)
    for c in todo: add(c)
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--files', required=True)
    ap.add_argument('--specs', required=True)
    ap.add_argument('--select'); ap.add_argument('--only'); ap.add_argument('--flags', default='')
    ap.add_argument('--keep'); ap.add_argument('-v', action='store_true'); ap.add_argument('--slow', type=float, default=5)
    ap.add_argument('--budget', type=float, default=60); ap.add_argument('--fuel', type=int, default=2)
    ap.add_argument('--plan')
    ap.add_argument('--nocovers', action='store_true'); ap.add_argument('--prop')
    a = ap.parse_args()
    if a.keep: os.makedirs(a.keep, exist_ok=True)
    s = Session(a.repo, a.files.split(','), a.specs.split(','), flags=a.flags.split(), tmp=a.keep, fuel=a.fuel, prop=a.prop)
    print('extracted %.1fs; %d contracts, unbound %r' % (time.time() - s.t0, len(s.specs.contracts), [(c.key, n) for c, n in s.unbound]))
    sel = (lambda c: re.search(a.select, c.key)) if a.select else None
    plan = [(x.split(':')[0], int(x.split(':')[1])) for x in a.plan.split(',')] if a.plan else None
    s.verify(sel, only=a.only, budget=a.budget, plan=plan, covers=not a.nocovers)
    for r in s.res:
        n = [o for o in s.results if o['func'] == r['key'] and o['kind'] != 'cover']
        print('%-45s obls %4d (+%d trivial) ok %4d  gen %.1fs solve %.1fs%s' % (r['key'], len(n), r['triv'], sum(o['status'] == 'unsat' for o in n), r['gen'], sum(o['time'] for o in n), '  ERROR ' + r['error'] if r['error'] else ''))
        if a.v and r['error']: print(r['tb'])
        if a.v and r['inlined']: print('    inlined', r['inlined'], 'contracts', r['contracts'], 'nodec', r['nodec'])
    for o in s.failures(): print('FAIL', o['name'], o['status'], ' | '.join(o['log'])[-400:] if o['kind'] != 'extraction' else '', o['path'])
    for o in s.results:
        if o['kind'] == 'cover' and o['status'] == 'unsat': print('VACUOUS', o['name'])
        if o['time'] > a.slow: print('SLOW %.1f %s %s' % (o['time'], o['solver'], o['name']))
    print('wall %.1f' % s.wall)
    if not a.keep: shutil.rmtree(s.tmp)

if __name__ == '__main__': main()
