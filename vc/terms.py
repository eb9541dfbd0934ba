"""Hash-consed SMT terms with light simplification.  Sorts: 'Int','Real','Bool' or
('A', elem) for (Array Int elem)."""
from fractions import Fraction

class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'bv')
    def __repr__(self):
        return to_str(self)

_tab = {}
_cnt = [0]
_EMPTY = frozenset()

def mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, Term) else ('k', a) for a in args), sort)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op; t.args = tuple(args); t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        bv = _EMPTY
        for a in args:
            if isinstance(a, Term):
                bv = bv | a.bv
        if op == 'bvar':
            bv = frozenset([t])
        elif op in ('forall', 'exists'):
            bv = bv - frozenset(args[0])
        t.bv = bv
        _tab[key] = t
    return t

def Arr(s): return ('A', s)

TRUE = mk('true', (), 'Bool')
FALSE = mk('false', (), 'Bool')

def B(b): return TRUE if b else FALSE
def I(n): return mk('int', (int(n),), 'Int')
def R(n): return mk('real', (Fraction(n),), 'Real')
def const(name, sort): return mk('const', (name,), sort)
def bvar(name, sort): return mk('bvar', (name,), sort)

_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return const('%s!%d' % (name, _fresh[0]), sort)
def freshb(name, sort):
    _fresh[0] += 1
    return bvar('%s?%d' % (name, _fresh[0]), sort)

def isnum(t): return t.op in ('int', 'real')
def num(t): return t.args[0]
def mknum(v, sort): return I(v) if sort == 'Int' else R(v)

def to_real(t):
    if t.sort == 'Real': return t
    if t.sort == 'Bool': return ite(t, R(1), R(0))
    if t.op == 'int': return R(t.args[0])
    if t.op == 'ite': return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    return mk('to_real', (t,), 'Real')

def to_int(t):   # floor
    if t.op == 'real':
        v = t.args[0]
        return I(v.numerator // v.denominator)
    if t.op == 'to_real': return t.args[0]
    return mk('to_int', (t,), 'Int')

def coerce(a, b):
    if a.sort == b.sort: return a, b
    if a.sort == 'Bool' and b.sort == 'Int': return ite(a, I(1), I(0)), b
    if b.sort == 'Bool' and a.sort == 'Int': return a, ite(b, I(1), I(0))
    return to_real(a), to_real(b)

def _lin(t, d, k):
    """decompose sum into dict of atoms -> coeff; returns constant"""
    if isnum(t): return k * num(t)
    if t.op == '+':
        s = 0
        for a in t.args: s += _lin(a, d, k)
        return s
    if t.op == '*' and isnum(t.args[0]):
        return _lin(t.args[1], d, k * num(t.args[0]))
    d[t] = d.get(t, 0) + k
    return 0

def _from_lin(d, c, sort):
    parts = []
    for t, k in sorted(d.items(), key=lambda x: x[0].id):
        if k == 0: continue
        parts.append(t if k == 1 else mk('*', (mknum(k, sort), t), sort))
    if c != 0 or not parts: parts.append(mknum(c, sort))
    if len(parts) == 1: return parts[0]
    return mk('+', tuple(parts), sort)

def add(*ts):
    sort = ts[0].sort
    for t in ts:
        if t.sort != sort: sort = 'Real'
    if sort == 'Bool': sort = 'Int'
    if sort == 'Real': ts = [to_real(t) for t in ts]
    d = {}; c = 0
    for t in ts:
        if t.sort == 'Bool': t = ite(t, I(1), I(0))
        c += _lin(t, d, 1)
    return _from_lin(d, c, sort)

def neg(t): return mul(mknum(-1, 'Int' if t.sort != 'Real' else 'Real'), t)
def sub(a, b):
    a, b = coerce(a, b)
    return add(a, neg(b))

def mul(a, b):
    a, b = coerce(a, b)
    sort = a.sort
    if isnum(a) and isnum(b): return mknum(num(a) * num(b), sort)
    if isnum(b): a, b = b, a
    if isnum(a):
        k = num(a)
        if k == 0: return mknum(0, sort)
        if k == 1: return b
        d = {}; c = _lin(b, d, k)
        return _from_lin(d, c, sort)
    for p, q in ((a, b), (b, a)):
        if p.op == 'ite' and isnum(p.args[1]) and isnum(p.args[2]): return ite(p.args[0], mul(p.args[1], q), mul(p.args[2], q))
    # pull constants out
    k = 1
    fs = []
    for t in (a, b):
        if t.op == '*' and isnum(t.args[0]):
            k *= num(t.args[0]); t = t.args[1]
        if t.op == '*': fs.extend(t.args)
        else: fs.append(t)
    fs.sort(key=lambda t: t.id)
    m = fs[0] if len(fs) == 1 else mk('*', tuple(fs), sort)
    return m if k == 1 else mk('*', (mknum(k, sort), m), sort)

def rdiv(a, b):
    a = to_real(a); b = to_real(b)
    if isnum(b) and num(b) != 0:
        return mul(R(1 / num(b)), a)
    if isnum(a) and num(a) == 0 : pass
    return mk('/', (a, b), 'Real')

def idiv(a, b):
    if isnum(a) and isnum(b) and num(b) > 0: return I(num(a) // num(b))
    if isnum(b) and num(b) == 1: return a
    return mk('div', (a, b), 'Int')

def imod(a, b):
    if isnum(a) and isnum(b) and num(b) > 0: return I(num(a) % num(b))
    return mk('mod', (a, b), 'Int')

def not_(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.args[0]
    if t.op == '<=' : return lt(t.args[1], t.args[0])
    if t.op == '<' : return le(t.args[1], t.args[0])
    return mk('not', (t,), 'Bool')

def and_(*ts):
    out = []; seen = set()
    for t in ts:
        for x in (t.args if t.op == 'and' else (t,)):
            if x is TRUE or x.id in seen: continue
            if x is FALSE: return FALSE
            seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'Bool')

def or_(*ts):
    out = []; seen = set()
    for t in ts:
        for x in (t.args if t.op == 'or' else (t,)):
            if x is FALSE or x.id in seen: continue
            if x is TRUE: return TRUE
            seen.add(x.id); out.append(x)
    for x in out:
        if not_(x).id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'Bool')

def implies(a, b):
    if a is TRUE: return b
    if a is FALSE or b is TRUE: return TRUE
    if b is FALSE: return not_(a)
    if a is b: return TRUE
    if b.op == '=>':
        return implies(and_(a, b.args[0]), b.args[1])
    return mk('=>', (a, b), 'Bool')

def iff(a, b): return eq(a, b)

def eq(a, b):
    if a is b: return TRUE
    if a.sort != b.sort: a, b = coerce(a, b)
    if a is b: return TRUE
    if a.sort == 'Bool':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
    if isnum(a) and isnum(b): return B(num(a) == num(b))
    if a.sort in ('Int', 'Real'):
        d = sub(a, b)
        if isnum(d): return B(num(d) == 0)
        for x, y in ((a, b), (b, a)):
            if isnum(y) and x.op == 'ite' and (isnum(x.args[1]) or isnum(x.args[2])):
                return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
    if a.id > b.id: a, b = b, a
    return mk('=', (a, b), 'Bool')

def ne(a, b): return not_(eq(a, b))

def le(a, b):
    a, b = coerce(a, b)
    if a is b: return TRUE
    if isnum(a) and isnum(b): return B(num(a) <= num(b))
    d = sub(b, a)
    if isnum(d): return B(num(d) >= 0)
    return mk('<=', (a, b), 'Bool')
def lt(a, b):
    a, b = coerce(a, b)
    if a is b: return FALSE
    if isnum(a) and isnum(b): return B(num(a) < num(b))
    d = sub(b, a)
    if isnum(d): return B(num(d) > 0)
    return mk('<', (a, b), 'Bool')
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort: a, b = coerce(a, b)
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 'Bool':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if isinstance(a.sort, tuple):
        # push into stores over a common base
        if a.op == 'store' and a.args[0] is b:
            return store(b, a.args[1], ite(c, a.args[2], select(b, a.args[1])))
        if b.op == 'store' and b.args[0] is a:
            return store(a, b.args[1], ite(c, select(a, b.args[1]), b.args[2]))
        if a.op == 'store' and b.op == 'store' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
            return store(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)

def select(a, i):
    while True:
        if a.op == 'store':
            d = eq(a.args[1], i)
            if d is TRUE: return a.args[2]
            if d is FALSE:
                a = a.args[0]; continue
            break
        if a.op == 'constarr': return a.args[0]
        if a.op == 'ite' and (a.args[1].op in ('constarr',) or a.args[2].op in ('constarr',)):
            return ite(a.args[0], select(a.args[1], i), select(a.args[2], i))
        break
    return mk('select', (a, i), a.sort[1])

def store(a, i, v):
    if a.sort[1] != v.sort:
        if a.sort[1] == 'Real': v = to_real(v)
        elif a.sort[1] == 'Bool' and v.sort == 'Int': v = ne(v, I(0))
        elif a.sort[1] == 'Int' and v.sort == 'Bool': v = ite(v, I(1), I(0))
        else: raise Exception('store sort %s %s' % (a.sort, v.sort))
    if a.op == 'store' and a.args[1] is i: return store(a.args[0], i, v)
    if v.op == 'select' and v.args[0] is a and v.args[1] is i: return a
    return mk('store', (a, i, v), a.sort)

def constarr(v): return mk('constarr', (v,), Arr(v.sort))

def abs_(t): return ite(ge(t, mknum(0, t.sort)), t, neg(t))
def min_(a, b): return ite(lt(b, a), b, a)      # std::min(a,b): (b<a)?b:a
def max_(a, b): return ite(lt(a, b), b, a)

def app(name, args, sort): return mk('app', (name,) + tuple(args), sort)

def forall(vs, body, pats=()):
    if body is TRUE or body is FALSE: return body
    return mk('forall', (tuple(vs), body) + tuple(pats), 'Bool')
def exists(vs, body):
    if body is TRUE or body is FALSE: return body
    return mk('exists', (tuple(vs), body), 'Bool')

# mk() key handling for quantifier var tuples
def _patch():
    global mk
    base = mk
    def mk2(op, args, sort):
        if op in ('forall', 'exists'):
            vs = args[0]
            key = (op, tuple(v.id for v in vs), tuple(a.id for a in args[1:]), sort)
            t = _tab.get(key)
            if t is None:
                t = Term(); t.op = op; t.args = args; t.sort = sort
                _cnt[0] += 1; t.id = _cnt[0]
                bv = _EMPTY
                for a in args[1:]: bv = bv | a.bv
                t.bv = bv - frozenset(vs)
                _tab[key] = t
            return t
        return base(op, args, sort)
    mk = mk2
_patch()

def sort_str(s):
    if isinstance(s, tuple): return '(Array Int %s)' % sort_str(s[1])
    return s

def num_str(v, real):
    if real:
        v = Fraction(v)
        n, d = abs(v.numerator), v.denominator
        s = '%d.0' % n if d == 1 else '(/ %d.0 %d.0)' % (n, d)
        return s if v >= 0 else '(- %s)' % s
    return str(v) if v >= 0 else '(- %d)' % -v

def sym(n):
    return '|%s|' % ('u.' + n if n in ('sqrt', 'exp', 'sin', 'cos', 'pi') else n)

def head_str(t, f):
    """SMT text of t with children rendered by f"""
    op = t.op
    if op in ('true', 'false'): return op
    if op == 'int': return num_str(t.args[0], False)
    if op == 'real': return num_str(t.args[0], True)
    if op in ('const', 'bvar'): return sym(t.args[0])
    if op == 'app':
        if len(t.args) == 1: return sym(t.args[0])
        return '(%s %s)' % (sym(t.args[0]), ' '.join(f(a) for a in t.args[1:]))
    if op == 'constarr': return '((as const %s) %s)' % (sort_str(t.sort), f(t.args[0]))
    if op in ('forall', 'exists'):
        vs = ' '.join('(%s %s)' % (sym(v.args[0]), sort_str(v.sort)) for v in t.args[0])
        body = f(t.args[1])
        pats = []
        vset = frozenset(t.args[0])
        for p in t.args[2:]:
            xs = [x for x in (p.args if p.op == 'pat' else (p,)) if x.op in ('app', 'select') and x.bv & vset]
            cov = frozenset()
            for x in xs: cov = cov | x.bv
            if xs and vset <= cov: pats.append(xs)
        if pats:
            body = '(! %s %s)' % (body, ' '.join(':pattern (%s)' % ' '.join(f(x) for x in xs) for xs in pats))
        return '(%s (%s) %s)' % (op, vs, body)
    return '(%s %s)' % (op, ' '.join(f(a) for a in t.args))

def subterms(t):
    for a in t.args:
        if isinstance(a, Term): yield a

def to_str(t, depth=12):
    if depth == 0: return '...'
    return head_str(t, lambda a: to_str(a, depth - 1))

def replace_consts(ts, m):
    """replace terms (map id -> term) in every term of ts, rebuilding with the simplifying constructors"""
    memo = {}
    ks = list(m)
    def go(t):
        r = m.get(t.id)
        if r is not None: return r
        r = memo.get(t.id)
        if r is not None: return r
        op = t.op
        if op in ('const', 'bvar', 'int', 'real', 'true', 'false'): r = t
        elif op in ('forall', 'exists'):
            a = tuple(go(x) for x in t.args[1:])
            r = t if all(x is y for x, y in zip(a, t.args[1:])) else mk(op, (t.args[0],) + a, t.sort)
        else:
            a = [go(x) if isinstance(x, Term) else x for x in t.args]
            if all(x is y for x, y in zip(a, t.args)): r = t
            elif op == 'select': r = select(*a)
            elif op == 'store': r = store(*a)
            elif op == 'ite': r = ite(*a)
            elif op == 'and': r = and_(*a)
            elif op == 'or': r = or_(*a)
            elif op == 'not': r = not_(*a)
            elif op == '=>': r = implies(*a)
            elif op == '=': r = eq(*a)
            elif op == '<=': r = le(*a)
            elif op == '<': r = lt(*a)
            elif op == '+': r = add(*a)
            elif op == '*':
                r = a[0]
                for x in a[1:]: r = mul(r, x)
            else: r = mk(op, tuple(a), t.sort)
        memo[t.id] = r
        return r
    return [go(t) for t in ts]

def subst(t, m, memo=None):
    """replace bound variables (map id -> term)"""
    if memo is None: memo = {}
    keys = set(m)
    def go(t):
        if not any(v.id in keys for v in t.bv): return t
        r = memo.get(t.id)
        if r is not None: return r
        op = t.op
        if op == 'bvar': r = m[t.id]
        elif op in ('forall', 'exists'):
            r = mk(op, (t.args[0],) + tuple(go(a) for a in t.args[1:]), t.sort)
        else:
            a = [go(x) if isinstance(x, Term) else x for x in t.args]
            if op == 'select': r = select(*a)
            elif op == 'store': r = store(*a)
            elif op == 'ite': r = ite(*a)
            elif op == 'and': r = and_(*a)
            elif op == 'or': r = or_(*a)
            elif op == 'not': r = not_(*a)
            elif op == '=>': r = implies(*a)
            elif op == '=': r = eq(*a)
            elif op == '<=': r = le(*a)
            elif op == '<': r = lt(*a)
            else: r = mk(op, tuple(a), t.sort)
        memo[t.id] = r
        return r
    return go(t)

def split_goal(g, hyps=()):
    """yields (extra hypotheses, conjunct): conjunctions split, implications and
    universal quantifiers moved into the hypotheses / Skolem constants"""
    if g.op == 'and':
        # the characters of a text (8 and more equations with numbers) stay together
        txt = [x for x in g.args if x.op == '=' and any(isnum(y) for y in x.args)]
        if len(txt) < 8: txt = []
        for x in g.args:
            if not txt or not any(x is y for y in txt): yield from split_goal(x, hyps)
        for k in range(0, len(txt), 20): yield hyps, mk("and", tuple(txt[k:k + 20]), 'Bool')
    elif g.op == '=>':
        a = g.args[0]
        yield from split_goal(g.args[1], hyps + (tuple(a.args) if a.op == 'and' else (a,)))
    elif g.op == 'forall':
        m = {v.id: fresh('sk!' + v.args[0].split('!')[0], v.sort) for v in g.args[0]}
        # trigger terms become ground terms of the query
        memo = {}
        pats = []
        for p in g.args[2:]:
            for x in (p.args if p.op == 'pat' else (p,)): pats.append(subst(x, m, memo))
        yield from split_goal(subst(g.args[1], m, memo), hyps + tuple(eq_keep(p) for p in pats))
    else: yield hyps, g

def eq_keep(p):
    """a tautology mentioning p, so that p is a term of the query"""
    return app('keep!' + ''.join(c for c in sort_str(p.sort) if c.isalnum()), (p,), 'Bool')
