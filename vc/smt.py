"""SMT-LIB emission and the solver portfolio."""
import subprocess, os, tempfile, time, threading, hashlib
from .terms import *
from . import terms as T

def walk(roots, seen, order):
    stack = list(roots)
    while stack:
        t = stack.pop()
        if t.id in seen: continue
        seen[t.id] = t; order.append(t)
        for a in subterms(t): stack.append(a)
        if t.op in ('forall', 'exists'):
            for v in t.args[0]: seen[v.id] = v

def emit(ex, specs, hyps, goal, fuel=1, comment='', model=False, strip=(), sk=False, hide=()):
    # arrays known to be equal (frame conditions) are identified
    for _ in range(6):
        m = {}
        for h in hyps:
            if h.op == '=' and isinstance(h.args[0].sort, tuple) and h.args[0].op == 'const' and h.args[1].op == 'const':
                a, b = h.args
                if a.id < b.id: a, b = b, a
                if a.id not in m and b.id not in m: m[a.id] = b
        if not m: break
        r = T.replace_consts(list(hyps) + [goal], m)
        hyps, goal = r[:-1], r[-1]
    u = {}
    for h in hyps:
        if h is not TRUE: u.setdefault(h.id, h)
    roots = list(u.values())
    neg_goal = not_(goal)
    seen = {}; order = []
    walk(roots + [neg_goal], seen, order)
    facts = []; done = set(); i = 0
    unf = {}
    depth = {}
    boundsel = sk; bsqrt = False
    arrs = {}
    while i < len(order):
        t = order[i]; i += 1
        f = ex.typefacts.get(t)
        if f and t.id not in done:
            done.add(t.id)
            for x in f:
                facts.append(x); walk([x], seen, order)
        if t.op == 'app':
            n = t.args[0]
            if n in specs.funcs and not t.bv and n not in ex.hide and n not in hide:
                d = depth.get(t.id, 0)
                if d < fuel and t.id not in unf:
                    unf[t.id] = 1
                    e = specs.unfold(ex, t)
                    before = set(seen)
                    facts.append(e)
                    k = len(order)
                    walk([e], seen, order)
                    for u in order[k:]:
                        if u.op == 'app' and u.args[0] in specs.funcs: depth[u.id] = d + 1
            elif n == 'sqrt' and t.bv: bsqrt = True
        if t.op == 'select' and t.bv: boundsel = True
        if t.op == 'const' and isinstance(t.sort, tuple) and t in ex.arr_ranges: arrs[t.id] = t
    if boundsel:
        for t in arrs.values():
            lo, hi = ex.arr_ranges[t]
            s = t.sort; vs = []; x = t
            while isinstance(s, tuple):
                v = freshb('r', 'Int'); vs.append(v); x = select(x, v); s = s[1]
            if s == 'Int':
                f = forall(vs, and_(le(I(lo), x), le(x, I(hi))), [x])
                facts.append(f); walk([f], seen, order)
    if bsqrt:
        v = freshb('x', 'Real'); r = app('sqrt', (v,), 'Real')
        f = forall([v], implies(ge(v, R(0)), and_(ge(r, R(0)), eq(mul(r, r), v))), [r])
        facts.append(f); walk([f], seen, order)
    # reference counts
    cnt = {}
    for t in order:
        for a in subterms(t): cnt[a.id] = cnt.get(a.id, 0) + 1
    out = []
    if comment:
        for l in comment.split('\n'): out.append('; ' + l)
    out.append('(set-logic ALL)')
    decl = {}
    for t in seen.values():
        if t.op == 'const' and t.args[0] not in decl:
            decl[t.args[0]] = '(declare-const %s %s)' % (sym(t.args[0]), sort_str(t.sort))
        elif t.op == 'app':
            k = 'f:' + t.args[0]
            if k not in decl:
                decl[k] = '(declare-fun %s (%s) %s)' % (sym(t.args[0]), ' '.join(sort_str(a.sort) for a in t.args[1:]), sort_str(t.sort))
    out.extend(decl[k] for k in sorted(decl))
    names = {}
    memo = {}
    def txt(t):
        n = names.get(t.id)
        if n: return n
        m = memo.get(t.id)
        if m is None:
            m = head_str(t, txt); memo[t.id] = m
        return m
    import sys
    sys.setrecursionlimit(100000)
    for tid in sorted(seen):
        t = seen[tid]
        if t.bv or t.op in ('const', 'bvar', 'int', 'real', 'true', 'false', 'pat'): continue
        if isinstance(t.sort, tuple) and t.op in ('ite', 'store', 'constarr'):
            # a named array, so that it can occur in quantifier patterns
            s = head_str(t, txt)
            nm = 'a~%d' % tid
            out.append('(declare-const %s %s)\n(assert (= %s %s))' % (nm, sort_str(t.sort), nm, s))
            names[tid] = nm
        elif cnt.get(tid, 0) > 1 or depth_big(t, memo):
            s = head_str(t, txt)
            nm = 't~%d' % tid
            out.append('(define-fun %s () %s %s)' % (nm, sort_str(t.sort), s))
            names[tid] = nm
    for h in facts: out.append('(assert %s)' % txt(h))
    for h in roots: out.append('(assert %s)' % txt(h))
    out.append('(assert %s)' % txt(neg_goal))
    out.append('(check-sat)')
    return '\n'.join(out) + '\n'

def depth_big(t, memo): return False

SOLVERS = {
 'z3': lambda f, t: ['z3-new', '-T:%d' % t, f],
 'z3nombqi': lambda f, t: ['z3-new', '-T:%d' % t, 'smt.mbqi=false', 'smt.auto_config=false', f],
 'cvc5': lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), f],
 'z3old': lambda f, t: ['z3', '-T:%d' % t, f],
 'cvc5nl': lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--nl-ext-tplanes', f],
 'z3seed': lambda f, t: ['z3-new', '-T:%d' % t, 'smt.random_seed=7', 'smt.arith.solver=2', f],
}

import re
_TOK = re.compile(r'\|[^|]*\||[^\s()]+')
_PAT = re.compile(r':pattern \(')
def pattern_syms(line):
    """the symbol sets of the quantifier patterns in a line"""
    res = []
    for m in _PAT.finditer(line):
        i = m.end(); d = 1
        while d:
            ch = line[i]
            if ch == '(': d += 1
            elif ch == ')': d -= 1
            i += 1
        res.append(set(_TOK.findall(line[m.end():i-1])))
    return res

def relevant(text, extra=0):
    """the query without the quantified hypotheses whose patterns mention arrays the goal does not depend on (fewer hypotheses: unsat stays unsat)"""
    lines = text.split('\n')
    decl = set(); defs = {}; adefs = {}; quant = []; goal = None
    for k, l in enumerate(lines):
        if l.startswith('(declare-'):
            m = _TOK.findall(l[:200]); decl.add(m[1])
        elif l.startswith('(define-fun '):
            m = _TOK.findall(l); defs[m[1]] = (l, set(m[2:]))
        elif l.startswith('(assert '):
            goal = k
            if l.startswith('(assert (= a~'):
                m = _TOK.findall(l); adefs[m[2]] = set(m[3:])
    memo = {}
    def pats(name):
        r = memo.get(name)
        if r is None:
            memo[name] = []
            l, toks = defs[name]
            r = pattern_syms(l)
            for t in toks:
                if t in defs: r = r + pats(t)
            memo[name] = r
        return r
    def close(toks, deep=True):
        seen = set(); st = list(toks)
        while st:
            t = st.pop()
            if t in seen: continue
            seen.add(t)
            if t in defs: st.extend(defs[t][1])
            elif deep and t in adefs: st.extend(adefs[t])
        return seen
    rel = close(_TOK.findall(lines[goal])) & decl
    for _ in range(extra):
        more = set()
        for k, l in enumerate(lines):
            if l.startswith('(assert ') and k != goal and '(forall' in l:
                ps = pattern_syms(l)
                if any((close(p, False) & decl) <= rel for p in ps): more |= close(_TOK.findall(l)) & decl
        rel = rel | more
    out = []
    for k, l in enumerate(lines):
        if l.startswith('(assert ') and k != goal and not l.startswith('(assert (= a~'):
            toks = _TOK.findall(l)
            ps = pattern_syms(l)
            for t in toks:
                if t in defs: ps = ps + pats(t)
            if ps and not any((close(p, False) & decl) <= rel for p in ps): continue
        out.append(l)
    return '\n'.join(out)

def run_solver(name, path, t):
    t0 = time.time()
    try:
        p = subprocess.run(SOLVERS[name](path, t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 5)
        o = p.stdout.decode(errors='replace').strip()
    except subprocess.TimeoutExpired:
        o = 'timeout'
    ls = [l.strip() for l in o.split('\n')]
    r = next((l for l in ls if l in ('sat', 'unsat', 'unknown')), '')
    if any(l.startswith('(error') for l in ls): r = ''
    if r not in ('sat', 'unsat', 'unknown'):
        r = 'timeout' if 'timeout' in o or 'interrupted' in o or o == '' else 'error: ' + o[:300]
    return r, time.time() - t0

QUICK = [('z3', 2), ('z3old', 2), ('z3/f', 2), ('cvc5', 4), ('z3nombqi', 6), ('cvc5/f', 4), ('z3old', 8), ('z3', 20), ('cvc5', 20), ('z3seed', 15), ('cvc5nl', 15)]

def solve(text, path, plan, hint=None, budget=100):
    """returns (status, solver, seconds, log)"""
    with open(path, 'w') as f: f.write(text)
    log = []; tot = 0.0; sat = None
    if hint:
        plan = [(hint, 30)] + list(plan)
    for s, t in plan:
        if tot > budget: break
        if s.endswith('/f'):
            pf = path + '.f'
            if not os.path.exists(pf):
                try: ft = relevant(text)
                except RecursionError: continue
                with open(pf, 'w') as f: f.write(ft)
            r, dt = run_solver(s[:-2], pf, t)
            if r == 'sat': r = 'unknown'
        else:
            r, dt = run_solver(s, path, t)
        tot += dt
        log.append('%s %s %.1fs' % (s, r, dt))
        if r == 'unsat': return 'unsat', s, tot, log
        if r == 'sat':
            sat = s
            break
    return ('sat' if sat else 'unknown'), sat, tot, log

PERSIST = ['z3', 'cvc5', 'z3/f', 'z3old', 'z3seed/f', 'z3nombqi', 'cvc5/f', 'z3seed']

def persist(path, t, strategies=PERSIST):
    """all strategies at once on one query, until one of them answers unsat"""
    ps = []; t0 = time.time()
    for s in strategies:
        f = path
        if s.endswith('/f'):
            f = path + '.f'
            if not os.path.exists(f): continue
        ps.append((s, subprocess.Popen(SOLVERS[s.split('/')[0]](f, t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    won = None; live = list(ps)
    try:
        while live and won is None and time.time() - t0 < t + 5:
            for sp in list(live):
                if sp[1].poll() is None: continue
                live.remove(sp)
                ls = [l.strip() for l in sp[1].stdout.read().decode(errors='replace').split('\n')]
                if 'unsat' in ls and not any(l.startswith('(error') for l in ls): won = sp[0]; break
            else: time.sleep(0.05)
    finally:
        for s, p in ps:
            if p.poll() is None: p.kill()
            p.wait(); p.stdout.close()
    return won, time.time() - t0
