"""Contract language: parser and evaluator.  Contracts live in /verif/contracts/*.spec and are
evaluated against the symbolic states the executor builds from /repo's current AST."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .cast import ExtractionError, parse_type, node_type
from . import exec as X

class SpecError(ExtractionError): pass

TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<num>\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|\d+)
 |(?P<id>\$?[A-Za-z_][A-Za-z_0-9]*(?:::~?[A-Za-z_][A-Za-z_0-9]*)*|\$\d+)
 |(?P<str>"[^"]*")
 |(?P<op><==>|==>|\.\.|->|<=|>=|==|!=|&&|\|\||[-+*/%<>!?:;,.(){}\[\]=&|])
''', re.X | re.S)

def tokenize(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise SpecError('bad token at %r' % s[i:i + 30])
        if m.lastgroup != 'ws': out.append((m.lastgroup, m.group(), i, m.end()))
        i = m.end()
    return out

class Expr:
    def __init__(self, text, ast): self.text = re.sub(r'\s+', ' ', text.strip()); self.ast = ast
    def __repr__(self): return self.text

class Parser:
    def __init__(self, text, fname=''):
        self.text = text; self.t = tokenize(text); self.i = 0; self.fname = fname
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i][1]; self.i += 1; return x
    def accept(self, s):
        if self.peek() == s and self.kind() != 'str': self.i += 1; return True
        return False
    def expect(self, s):
        if not self.accept(s):
            p = self.t[self.i][2] if self.i < len(self.t) else len(self.text)
            ln = self.text.count('\n', 0, p) + 1
            raise SpecError('%s:%d: expected %r, found %r' % (self.fname, ln, s, self.peek()))
    def expr(self):
        a = self.i
        e = self.ternary()
        return Expr(self.text[self.t[a][2]:self.t[self.i - 1][3]], e)
    def ternary(self):
        if self.peek() == 'let' :
            self.next(); n = self.next(); self.expect('='); v = self.ternary()
            if self.next() != 'in': raise SpecError('expected in')
            return ('let', n, v, self.ternary())
        c = self.iff()
        if self.accept('?'):
            a = self.ternary(); self.expect(':'); b = self.ternary()
            return ('ite', c, a, b)
        return c
    def iff(self):
        a = self.imp()
        while self.accept('<==>'): a = ('iff', a, self.imp())
        return a
    def imp(self):
        a = self.or_()
        if self.accept('==>'):
            return ('imp', a, self.imp() if self.peek() != 'let' else self.ternary())
        return a
    def or_(self):
        a = self.and_()
        while self.accept('||'): a = ('or', a, self.and_())
        return a
    def and_(self):
        a = self.cmp()
        while self.accept('&&'): a = ('and', a, self.cmp())
        return a
    def cmp(self):
        a = self.bit()
        parts = None
        while self.peek() in ('<', '<=', '>', '>=', '==', '!='):
            op = self.next(); b = self.bit()
            c = ('cmp', op, a, b)
            parts = c if parts is None else ('and', parts, c)
            a = b
        return parts if parts is not None else a
    def bit(self):
        a = self.sum()
        while self.peek() in ('&', '|'):
            op = self.next(); a = ('bit', op, a, self.sum())
        return a
    def sum(self):
        a = self.term()
        while self.peek() in ('+', '-'):
            op = self.next(); a = ('ar', op, a, self.term())
        return a
    def term(self):
        a = self.unary()
        while self.peek() in ('*', '/', '%'):
            op = self.next(); a = ('ar', op, a, self.unary())
        return a
    def unary(self):
        if self.accept('!'): return ('not', self.unary())
        if self.accept('-'): return ('neg', self.unary())
        if self.accept('*'): return ('deref', self.unary())
        return self.postfix()
    def args(self, close=')'):
        out = []
        if self.accept(close): return out
        while True:
            out.append(self.ternary())
            if self.accept(close): return out
            self.expect(',')
    def postfix(self):
        a = self.primary()
        while True:
            if self.accept('.') or self.accept('->'):
                n = self.next()
                if n == 'size' and self.peek() == '(':
                    self.expect('('); self.expect(')'); a = ('size', a)
                else: a = ('mem', a, n)
            elif self.accept('['):
                if self.accept('*'):
                    self.expect(']'); a = ('star', a)
                else:
                    i = self.ternary(); self.expect(']'); a = ('idx', a, i)
            else: return a
    def primary(self):
        k = self.kind()
        if k == 'num':
            s = self.next()
            return ('int', int(s)) if s.isdigit() else ('real', Fraction(s))
        if k == 'str':
            from . import stdio
            return ('int', stdio.code(self.next().strip('"').replace('\\n', '\n')))
        if self.accept('('):
            e = self.ternary(); self.expect(')'); return e
        if k == 'id':
            n = self.next()
            if n in ('forall', 'exists'):
                self.expect('(')
                vs = []
                while True:
                    if self.peek() == 'arr':
                        ty = Specs.sortdecl(Specs, self); vs.append((self.next(), ty))
                        if not self.accept(','): break
                        continue
                    a = self.next()
                    if a in ('int', 'real', 'bool') and self.kind() == 'id': vs.append((self.next(), {'int': 'Int', 'real': 'Real', 'bool': 'Bool'}[a]))
                    else: vs.append((a, 'Int'))
                    if not self.accept(','): break
                self.expect(';')
                pats = []
                while self.accept('{'):
                    pats.append(self.args('}'))
                g = self.ternary(); b = None
                if self.accept(';'): b = self.ternary()
                self.expect(')')
                return ('q', n, vs, pats, g if b is not None else None, b if b is not None else g)
            if n == 'true': return ('bool', True)
            if n == 'false': return ('bool', False)
            if self.peek() == '(':
                self.next(); return ('call', n, self.args())
            return ('id', n)
        raise SpecError('%s: unexpected %r near %r' % (self.fname, self.peek(), self.text[self.t[self.i][2]:self.t[self.i][2] + 40] if self.i < len(self.t) else 'EOF'))

class LoopSpec:
    def __init__(self):
        self.inv = []; self.dec = None; self.init = []; self.begin = []; self.end = []; self.after = []; self.begin_assume_check = []
        self.names = []

class Contract:
    def __init__(self):
        self.key = ''; self.params = None; self.requires = []; self.ensures = []; self.exits_if = []; self.may_exit_if = []
        self.assigns = []; self.flags = set(); self.refbind = {}; self.ptrbind = {}; self.loops = {}
        self.sig = None; self.entry = []; self.exit = []; self.inline = set(); self.trusted = False; self.checked_by = set()
        self.props = set(); self.fname = ''; self.timeout = None; self.nargs = None
        self.calls = {}; self.hide = set(); self.posthide = set(); self.counted = set(); self.uloops = {}; self.lasts = set()

class Specs:
    Error = SpecError
    def __init__(self):
        self.preds = {}; self.funcs = {}; self.ufuncs = {}; self.lemmas = {}; self.contracts = []
        self.byfn = {}
        self.consts = {}

    # ------------------------------------------------------------ parsing
    def load(self, path):
        self.parse(open(path).read(), path)

    def parse(self, text, fname=''):
        p = Parser(text, fname)
        while p.peek() is not None:
            k = p.next()
            if k == 'pred':
                n = p.next(); p.expect('(')
                ps = []
                while not p.accept(')'):
                    ps.append(p.next()); p.accept(',')
                p.expect('='); e = p.expr(); p.expect(';')
                self.preds[n] = (ps, e)
            elif k in ('func', 'ufunc'):
                n = p.next(); p.expect('(')
                ps = []
                while not p.accept(')'):
                    ty = self.sortdecl(p)
                    nm = p.next() if p.kind() == 'id' else '_%d' % len(ps)
                    ps.append((nm, ty)); p.accept(',')
                p.expect(':'); rt = self.sortdecl(p)
                if k == 'ufunc': p.expect(';'); self.ufuncs[n] = (ps, rt)
                else:
                    p.expect('='); e = p.expr(); p.expect(';'); self.funcs[n] = (ps, rt, e)
            elif k == 'lemma':
                n = p.next(); p.expect('(')
                ps = []
                while not p.accept(')'):
                    ty = self.sortdecl(p); ps.append((p.next(), ty)); p.accept(',')
                L = dict(params=ps, requires=[], ensures=[], induct=None, use=[], name=n, fname=fname, trigger=[], strong=False, hide=set())
                p.expect('{')
                while not p.accept('}'):
                    w = p.next()
                    if w == 'requires': L['requires'].append(p.expr())
                    elif w == 'ensures': L['ensures'].append(p.expr())
                    elif w == 'induct': L['induct'] = p.next()
                    elif w == 'strong': L['induct'] = p.next(); L['strong'] = True
                    elif w in ('use', 'assert'): L['use'].append((w, p.expr()))
                    elif w == 'trigger':
                        p.expect('{'); L['trigger'].append(p.args('}'))
                    elif w == 'hide':
                        L['hide'].add(p.next())
                        while p.accept(','): L['hide'].add(p.next())
                    else: raise SpecError('%s: lemma clause %s' % (fname, w))
                    p.expect(';')
                self.lemmas[n] = L
            elif k == 'contract':
                self.contract(p, fname)
            else:
                ln = text.count('\n', 0, p.t[p.i - 1][2]) + 1
                raise SpecError('%s:%d: unknown item %r' % (fname, ln, k))

    def sortdecl(self, p):
        t = p.next()
        if t == 'arr':
            p.expect('('); e = Specs.sortdecl(self, p); p.expect(')'); return Arr(e)
        return {'int': 'Int', 'real': 'Real', 'bool': 'Bool'}[t]

    def lab(self, p):
        if p.accept('['):
            l = p.next()
            while not p.accept(']'): l += p.next()
            return l
        return None

    def contract(self, p, fname):
        c = Contract(); c.fname = fname
        p0 = p.i
        c.key = p.next(); c.params = []
        p.expect('(')
        if c.key.endswith('operator'):
            p.expect(')'); p.expect('('); c.key += '()'
        while not p.accept(')'):
            c.params.append(p.next()); p.accept(',')
        c.nargs = len(c.params)
        if p.peek() == 'sig':
            p.next(); c.sig = p.next().strip('"')
        p.expect('{')
        while not p.accept('}'):
            w = p.next()
            if w == 'requires':
                l = self.lab(p); c.requires.append((p.expr(), l))
            elif w == 'ensures':
                l = self.lab(p); c.ensures.append((p.expr(), l))
            elif w == 'exits_if': c.exits_if.append(p.expr())
            elif w == 'may_exit_if': c.may_exit_if.append(p.expr())
            elif w == 'assigns':
                while True:
                    c.assigns.append(p.expr())
                    if not p.accept(','): break
            elif w == 'flags':
                while p.peek() != ';': c.flags.add(p.next()); p.accept(',')
            elif w == 'inline':
                while p.peek() != ';': c.inline.add(p.next()); p.accept(',')
            elif w == 'prop':
                while p.peek() != ';': c.props.add(p.next()); p.accept(',')
            elif w == 'trusted': c.trusted = True
            elif w == 'checked_by':
                while p.peek() != ';': c.checked_by.add(p.next()); p.accept(',')
                c.trusted = True
            elif w == 'posthide':
                while True:
                    c.posthide.add(p.next())
                    if not p.accept(','): break
            elif w == 'hide':
                while True:
                    c.hide.add(p.next())
                    if not p.accept(','): break
            elif w == 'timeout': c.timeout = int(p.next())
            elif w == 'refbind':
                n = p.next(); p.expect('='); c.refbind[n] = p.expr()
            elif w == 'ptrbind':
                n = p.next(); p.expect('='); c.ptrbind[n] = p.expr()
            elif w in ('entry', 'exit'):
                kind = 'assert'
                if p.peek() in ('use', 'assert'): kind = p.next()
                (c.entry if w == 'entry' else c.exit).append((kind, p.expr()))
            elif w in ('loop', 'unrolled'):
                no = int(p.next()); L = LoopSpec(); (c.loops if w == 'loop' else c.uloops)[no] = L
                p.expect('{')
                while not p.accept('}'):
                    v = p.next()
                    if v == 'inv': L.inv.append(p.expr())
                    elif v == 'dec': L.dec = p.expr()
                    elif v in ('init', 'begin', 'end', 'after'):
                        kind = 'assert'
                        if p.peek() in ('use', 'assert'): kind = p.next()
                        elif p.peek() == 'let':     # ghost name for a value at this point
                            p.next(); kind = ('let', p.next()); p.expect('=')
                        getattr(L, v).append((kind, p.expr()))
                    else: raise SpecError('%s: loop clause %s' % (fname, v))
                    p.expect(';')
                p.accept(';')
                continue
            elif w in ('before_call', 'after_call'):
                fn = p.next(); kind = 'assert'
                if p.peek() in ('use', 'assert'): kind = p.next()
                c.calls.setdefault((w, fn), []).append((kind, p.expr()))
            else:
                ln = p.text.count('\n', 0, p.t[p.i - 1][2]) + 1
                raise SpecError('%s:%d: contract clause %s' % (fname, ln, w))
            p.expect(';')
        txt = p.text[p.t[p0][2]:p.t[p.i - 1][2]]
        c.counted = set(re.findall(r'\bcalls\(\s*(\w+)\s*\)', txt))
        c.lasts = set(re.findall(r'\blast\(\s*(\w+)\s*\)', txt))
        self.contracts.append(c)

    def bind(self, prog):
        """attach contracts to functions of the program"""
        self.byfn = {}; self.unbound = []; self.prog = prog
        for c in self.contracts:
            cands = [prog.funcs[m] for m in prog.byname.get(c.key, [])]
            cands = [f for f in cands if not f['implicit'] or f['body'] is not None]
            cls = c.key.split('::')
            isctor = len(cls) > 1 and cls[-1] == cls[-2]
            if c.sig is not None:
                cands = [f for f in cands if X.norm_sig(f['type']) == X.norm_sig(c.sig)]
            else:
                cands = [f for f in cands if len(f['params'] or []) == c.nargs]
                if isctor: cands = [f for f in cands if not X.is_copy_sig(f['type'], cls[-1])]
            if len(cands) != 1:
                c.func = None; self.unbound.append((c, len(cands)))
            else:
                c.func = cands[0]; self.byfn[cands[0]['mangled']] = c
        return self.unbound

    # ------------------------------------------------------------ executor API
    def contract_for(self, f, inline_set):
        c = self.byfn.get(f['mangled'])
        if c is None or f['name'] in inline_set or 'inlined' in c.flags: return None
        return c

    def inline_loops(self, f):
        return self.byfn.get(f['mangled'])

    def evalb(self, ex, e, env, st, old, before=None, iter_=None):
        v = self.eval(ex, e, env, st, old, before=before, iter_=iter_)
        v = self.rd(v, Ctx(ex, st, old, before, iter_))
        if isinstance(v, X.PtrVal): v = ex.tobool(v)
        if not isinstance(v, Term): raise SpecError('%s is not a formula' % e)
        if v.sort != 'Bool': v = ne(v, mknum(0, v.sort))
        return v

    def eval(self, ex, e, env, st, old, lval=False, before=None, iter_=None):
        try:
            return self.ev(e.ast, env, Ctx(ex, st, old, before, iter_))
        except SpecError as x:
            raise SpecError('%s [in: %s]' % (x, e.text))

    def evaltext(self, ex, text, env, st):
        p = Parser(text, '<vla>')
        e = p.expr()
        return self.eval(ex, e, env, st, st)

    def pow2(self, ex, t):
        raise SpecError('pow2')

    def rd(self, v, c):
        if isinstance(v, (X.Lval, X.CLval)):
            return c.ex.read(v.st or c.st, v)
        return v

    def rv(self, a, env, c):
        v = self.rd(self.ev(a, env, c), c)
        return v

    def bv(self, a, env, c):
        v = self.rv(a, env, c)
        if isinstance(v, X.PtrVal): return c.ex.tobool(v)
        if not isinstance(v, Term): raise SpecError('not a scalar: %r (%r)' % (a, v))
        if v.sort != 'Bool': v = ne(v, mknum(0, v.sort))
        return v

    def pt(self, a, env, c):
        v = self.rv(a, env, c)
        if isinstance(v, (X.Lval, X.CLval)): v = self.arrterm(v, c, None)
        return v

    def tv(self, a, env, c):
        v = self.rv(a, env, c)
        if not isinstance(v, Term): raise SpecError('not a scalar: %r' % (a,))
        return v

    def arrterm(self, v, c, sort):
        """array term for a vec lvalue / starred lvalue"""
        ex = c.ex
        if isinstance(v, Term): return v
        if isinstance(v, X.CLval):
            r = self.arrterm(v.alts[-1][1], c, sort)
            for g, l in reversed(v.alts[:-1]): r = ite(g, self.arrterm(l, c, sort), r)
            return r
        if isinstance(v, X.Lval):
            st = v.st or c.st
            pat = v.key()[1]; ty = v.ty
            while ty[0] in ('vec', 'arr'):
                pat = pat + ('[]',); ty = ty[1]
            if not X.is_scalar(ty): raise SpecError('array argument must have scalar elements')
            t = ex.leaf_get(st, (v.root, pat), ty)
            for i in v.idx(): t = select(t, i)
            return t
        raise SpecError('array argument')

    def ev(self, a, env, c):
        k = a[0]
        if k == 'int': return I(a[1])
        if k == 'real': return R(a[1])
        if k == 'bool': return B(a[1])
        if k == 'id': return self.ident(a[1], env, c)
        if k == 'let':
            v = self.ev(a[2], env, c)
            if isinstance(v, (X.Lval, X.CLval)):
                w = self.rd(v, c)
                if isinstance(w, Term): v = w
            return self.ev(a[3], dict(env, **{a[1]: v}), c)
        if k == 'ite':
            g = self.bv(a[1], env, c)
            if g is TRUE: return self.ev(a[2], env, c)
            if g is FALSE: return self.ev(a[3], env, c)
            x = self.ev(a[2], env, c); y = self.ev(a[3], env, c)
            if isinstance(x, (X.Lval, X.CLval)) and isinstance(y, (X.Lval, X.CLval)):
                return c.ex.mkC([(g, x), (not_(g), y)])
            x = self.rd(x, c); y = self.rd(y, c)
            return ite(g, x, y)
        if k == 'iff':
            return eq(self.bv(a[1], env, c), self.bv(a[2], env, c))
        if k == 'imp':
            g = self.bv(a[1], env, c)
            if g is FALSE: return TRUE
            return implies(g, self.bv(a[2], env, c))
        if k == 'or':
            g = self.bv(a[1], env, c)
            if g is TRUE: return TRUE
            return or_(g, self.bv(a[2], env, c))
        if k == 'and':
            g = self.bv(a[1], env, c)
            if g is FALSE: return FALSE
            return and_(g, self.bv(a[2], env, c))
        if k == 'not': return not_(self.bv(a[1], env, c))
        if k == 'neg': return neg(self.tv(a[1], env, c))
        if k == 'cmp':
            x = self.rv(a[2], env, c); y = self.rv(a[3], env, c)
            if isinstance(x, X.PtrVal) or isinstance(y, X.PtrVal):
                if not (isinstance(x, X.PtrVal) and isinstance(y, X.PtrVal)): raise SpecError('pointer comparison')
                return c.ex.ptrop(a[1], x, y)
            if not (isinstance(x, Term) and isinstance(y, Term)): raise SpecError('comparison of aggregates: %r' % (a,))
            return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[a[1]](x, y)
        if k == 'bit': return c.ex.bitop(a[1], self.tv(a[2], env, c), self.tv(a[3], env, c))
        if k == 'ar':
            x = self.tv(a[2], env, c); y = self.tv(a[3], env, c)
            if x.sort == 'Bool': x = ite(x, I(1), I(0))
            if y.sort == 'Bool': y = ite(y, I(1), I(0))
            op = a[1]
            if op == '+': return add(x, y)
            if op == '-': return sub(x, y)
            if op == '*': return mul(x, y)
            if op == '%': return imod(x, y)
            if x.sort == 'Real' or y.sort == 'Real': return rdiv(x, y)
            return idiv(x, y)
        if k == 'mem':
            b = self.ev(a[1], env, c)
            return self.member(b, a[2], c)
        if k == 'deref':
            return c.ex.deref(c.st, self.rv(a[1], env, c))
        if k == 'idx':
            b = self.ev(a[1], env, c)
            i = self.tv(a[2], env, c)
            if isinstance(b, Term):
                return select(b, i)
            if isinstance(b, X.PtrVal): b = c.ex.deref(c.st, b)
            if not isinstance(b, (X.Lval, X.CLval)): raise SpecError('index of %r' % (b,))
            return c.ex.index(b.st or c.st, b, i, None, False)
        if k == 'star':
            b = self.ev(a[1], env, c)
            if isinstance(b, X.PtrVal): b = c.ex.deref(c.st, b)
            return self.star(b, c)
        if k == 'size':
            b = self.ev(a[1], env, c)
            return c.ex.size_lv(b)
        if k == 'q': return self.quant(a, env, c)
        if k == 'call': return self.callx(a[1], a[2], env, c)
        raise SpecError('spec node %s' % k)

    def star(self, b, c):
        if isinstance(b, X.CLval): return c.ex.mkC([(g, self.star(l, c)) for g, l in b.alts])
        if b.ty[0] == 'ptr': b = c.ex.deref(c.st, c.ex.read(b.st or c.st, b))
        return X.Lval(b.root, b.path + ('[]',), b.ty[1], b.st)

    def member(self, b, n, c):
        if isinstance(b, X.PtrVal): b = c.ex.deref(c.st, b)
        if isinstance(b, (X.Lval, X.CLval)):
            if b.ty[0] == 'ptr':
                f = b.st
                b = c.ex.deref(b.st or c.st, c.ex.read(b.st or c.st, b), f)
            return c.ex.member(b.st or c.st, b, n)
        raise SpecError('member %s of %r' % (n, b))

    def ident(self, n, env, c):
        if n in env:
            v = env[n]
            if v is None: raise SpecError('%s has no value here' % n)
            return v
        if n in ('outfile', 'infile') and c.ex.opaque_hook: return c.ex.stdio.ghost(n)
        if n == 'result': raise SpecError('result not available')
        this = env.get('this')
        if this is not None and isinstance(this, (X.Lval, X.CLval)) and this.ty[0] == 'rec':
            rec = this.ty[1]
            if any(f[0] == n for f in c.ex.prog.records[rec]['fields']):
                return c.ex.member(this.st or c.st, this, n)
        if '::' in n:
            en, v = n.rsplit('::', 1)
            for q, vals in c.ex.prog.enums.items():
                if (q == en or q.split('::')[-1] == en or q.endswith('::' + en)) and v in vals: return I(vals[v])
        if n in self.preds and not self.preds[n][0]:
            return self.ev(self.preds[n][1].ast, {k: v for k, v in env.items() if k == 'this'}, c)
        if n in c.ex.prog.globals:
            tu, node = c.ex.prog.globals[n]
            fr = X.Frame(None, tu); c.ex.stack.append(fr)
            try: return c.ex.rv([x for x in node['inner'] if x.get('kind')][-1], c.st)
            finally: c.ex.stack.pop()
        raise SpecError('unknown name %s' % n)

    def quant(self, a, env, c):
        _, q, vs, pats, g, b = a
        bvs = [freshb(n, s) for n, s in vs]
        env2 = dict(env)
        for (n, s), v in zip(vs, bvs): env2[n] = v
        body = self.bv(b, env2, c)
        if g is not None:
            gt_ = self.bv(g, env2, c)
            body = implies(gt_, body) if q == 'forall' else and_(gt_, body)
        ps = []
        for p in pats:
            ps.append(T.mk('pat', tuple(self.pt(x, env2, c) for x in p), 'Bool'))
        return forall(bvs, body, ps) if q == 'forall' else exists(bvs, body)

    def callx(self, n, args, env, c):
        ex = c.ex
        if n in ('old', 'before', 'iter'):
            st = {'old': c.old, 'before': c.before, 'iter': c.iter}[n]
            if st is None: raise SpecError('%s() not available here' % n)
            roots = {k[0] for k in st.mem} | {k[0] for k in st.ptrs}
            env = {k: (freeze(v, c.st) if isinstance(v, X.Lval) and v.st is None and '#' in v.root and v.root not in roots else v) for k, v in env.items()}
            v = self.ev(args[0], env, Ctx(ex, st, c.old, c.before, c.iter))
            return freeze(v, st)
        if n == 'unchanged':
            out = []
            for x in args:
                v = self.ev(x, env, c)
                o = freeze(self.ev(x, env, Ctx(ex, c.old, c.old)), c.old)
                out.append(self.eqv(v, o, c))
            return and_(*out)
        if n == 'unmoved':      # unchanged since loop entry
            out = []
            for x in args:
                v = self.ev(x, env, c)
                o = freeze(self.ev(x, env, Ctx(ex, c.before, c.old)), c.before)
                out.append(self.eqv(v, o, c))
            return and_(*out)
        if n == 'eqv': return self.eqv(self.ev(args[0], env, c), self.ev(args[1], env, c), c)
        if n == 'isnull':
            p = self.rv(args[0], env, c)
            return or_(*[g for g, l in p.alts if l is None])
        if n in self.preds:
            ps, e = self.preds[n]
            if len(ps) != len(args): raise SpecError('arity of %s' % n)
            e2 = {}
            for p, x in zip(ps, args):
                v = self.ev(x, env, c)
                if isinstance(v, (X.Lval, X.CLval)) and v.st is None and X.is_scalar(v.ty) and not (isinstance(v, X.Lval) and '[]' in v.path): v = self.rd(v, c)
                e2[p] = v
            try: return self.ev(e.ast, e2, c)
            except SpecError as z: raise SpecError('%s in %s' % (z, n))
        if n in self.funcs:
            ps, rt, e = self.funcs[n]
            ts = self.fargs(n, ps, args, env, c)
            return self.recapp(n, ts, ex)
        if n in self.ufuncs:
            ps, rt = self.ufuncs[n]
            ts = self.fargs(n, ps, args, env, c)
            return app(n, ts, rt)
        if n in ('arr',):
            return self.arrterm(self.ev(args[0], env, c), c, None)
        if n == 'abs': return abs_(self.tv(args[0], env, c))
        if n == 'min': return min_(self.tv(args[0], env, c), self.tv(args[1], env, c))
        if n == 'max': return max_(self.tv(args[0], env, c), self.tv(args[1], env, c))
        if n == 'sqrt': return ex.sqrt(c.st, self.tv(args[0], env, c), None, False)
        if n == 'floor': return to_int(to_real(self.tv(args[0], env, c)))
        if n == 'real': return to_real(self.tv(args[0], env, c))
        if n == 'calls': return ex.leaf_get(c.st, ('calls', (args[0][1],)), ('int', 32, True))
        if n == 'last': return ex.leaf_get(c.st, ('last', (args[0][1],)), ('double',))
        if n == 'cb': return app('cb', tuple(to_real(self.tv(x, env, c)) for x in args), 'Real')
        if n == 'concat':
            r = ex.stdio.lit('')
            for x in args: r = ex.stdio.scat(r, self.tv(x, env, c))
            return r
        if n == 'istext':
            v = self.ev(args[0], env, c); p = self.tv(args[1], env, c); t = ex.stdio.text(args[2][1])
            return and_(*[eq(self.rd(ex.index(v.st or c.st, v, add(p, I(k)), check=False), c), I(ord(ch))) for k, ch in enumerate(t)])
        if n == 'size': return ex.size_lv(self.ev(args[0], env, c))
        raise SpecError('unknown function %s' % n)

    def fargs(self, n, ps, args, env, c):
        if len(ps) != len(args): raise SpecError('arity of %s' % n)
        ts = []
        for (p, s), x in zip(ps, args):
            v = self.ev(x, env, c)
            if isinstance(s, tuple): t = self.arrterm(v, c, s)
            else:
                t = self.rd(v, c)
                if s == 'Real': t = to_real(t)
            if t.sort != s: raise SpecError('argument %s of %s has sort %s' % (p, n, t.sort))
            ts.append(t)
        return tuple(ts)

    def recapp(self, n, ts, ex):
        rt = self.funcs[n][1]
        return app(n, ts, rt)

    def unfold(self, ex, t):
        """t = f(args): the defining equation"""
        n = t.args[0]
        ps, rt, e = self.funcs[n]
        env = {p: v for (p, s), v in zip(ps, t.args[1:])}
        st = X.State()
        b = self.ev(e.ast, env, Ctx(ex, st, st))
        b = self.rd(b, Ctx(ex, st, st))
        if rt == 'Real': b = to_real(b)
        return eq(t, b)

    def lemma_inst(self, L, ts, ex):
        env = {p: v for (p, s), v in zip(L['params'], ts)}
        st = X.State(); c = Ctx(ex, st, st)
        pre = and_(*[self.bv(e.ast, env, c) for e in L['requires']])
        post = and_(*[self.bv(e.ast, env, c) for e in L['ensures']])
        return pre, post

    def use(self, ex, e, env, st, old, before=None, iter_=None):
        """instantiate a lemma: e is a call expression lemma(args); also forall(...; lemma(args))"""
        c = Ctx(ex, st, old, before, iter_)
        return self.use_ast(e.ast, env, c)

    def use_ast(self, a, env, c):
        if a[0] == 'q' and a[1] == 'forall':
            _, q, vs, pats, g, b = a
            bvs = [freshb(n, s) for n, s in vs]
            env2 = dict(env)
            for (n, s), v in zip(vs, bvs): env2[n] = v
            body = self.use_ast(b, env2, c)
            if g is not None: body = implies(self.bv(g, env2, c), body)
            ps = [T.mk('pat', tuple(self.pt(x, env2, c) for x in p), 'Bool') for p in pats]
            return forall(bvs, body, ps)
        if a[0] == 'imp':
            return implies(self.bv(a[1], env, c), self.use_ast(a[2], env, c))
        if a[0] == 'let':
            v = self.rd(self.ev(a[2], env, c), c)
            return self.use_ast(a[3], dict(env, **{a[1]: v}), c)
        if a[0] != 'call' or a[1] not in self.lemmas: raise SpecError('use of a non-lemma %r' % (a,))
        L = self.lemmas[a[1]]
        ts = self.fargs(a[1], L['params'], a[2], env, c)
        c.ex.used_lemmas.add(a[1])
        pre, post = self.lemma_inst(L, ts, c.ex)
        return implies(pre, post)

    def eqv(self, a, b, c):
        ex = c.ex
        if isinstance(a, Term) and isinstance(b, Term): return eq(a, b)
        if isinstance(a, X.Lval) and isinstance(b, X.Lval):
            if a.path[-1:] == ('#',) or X.is_scalar(a.ty) and '[]' not in a.path:
                return eq(ex.read(a.st or c.st, a), ex.read(b.st or c.st, b))
            out = []
            for pat, sty in ex.leaves(a.ty):
                x = ex.sub_read(a.st or c.st, X.Lval(a.root, a.path, a.ty), pat, sty) if '[]' not in a.path else self.star_read(ex, a.st or c.st, a, pat, sty)
                y = ex.sub_read(b.st or c.st, X.Lval(b.root, b.path, b.ty), pat, sty) if '[]' not in b.path else self.star_read(ex, b.st or c.st, b, pat, sty)
                out.append(eq(x, y))
            return and_(*out)
        if isinstance(a, X.CLval) and isinstance(b, (X.CLval, X.Lval)):
            if isinstance(b, X.CLval):
                if len(a.alts) != len(b.alts): raise SpecError('eqv of conditional lvalues')
                return and_(*[implies(g, self.eqv(l, m, c)) for (g, l), (h, m) in zip(a.alts, b.alts)])
            return and_(*[implies(g, self.eqv(l, b, c)) for g, l in a.alts])
        if isinstance(a, (X.Lval, X.CLval)) or isinstance(b, (X.Lval, X.CLval)):
            return eq(self.rd(a, c), self.rd(b, c))
        raise SpecError('eqv')

    def star_read(self, ex, st, lv, pat, sty):
        t = ex.leaf_get(st, (lv.root, lv.key()[1] + pat), sty)
        for i in lv.idx(): t = select(t, i)
        return t

class Ctx:
    __slots__ = ('ex', 'st', 'old', 'before', 'iter')
    def __init__(self, ex, st, old, before=None, iter_=None):
        self.ex = ex; self.st = st; self.old = old; self.before = before; self.iter = iter_

def freeze(v, st):
    if isinstance(v, X.Lval):
        return v if v.st is not None else X.Lval(v.root, v.path, v.ty, st)
    if isinstance(v, X.CLval):
        return X.CLval([(g, freeze(l, st)) for g, l in v.alts])
    if isinstance(v, X.PtrVal):
        return X.PtrVal([(g, None if l is None else freeze(l, st)) for g, l in v.alts])
    return v
