"""Symbolic executor / VC generator over clang AST nodes (see DESIGN.md, 'The verifier')."""
import re
from fractions import Fraction
from .terms import *
from .cast import ExtractionError, parse_type, node_type, norm_name, find_value
from . import terms as T
from . import nlopt

U32 = 2 ** 32

class Unsupported(ExtractionError):
    pass

# ---------------------------------------------------------------- lvalues and values
class Lval:
    __slots__ = ('root', 'path', 'ty', 'st')
    def __init__(self, root, path, ty, st=None):
        self.root = root; self.path = path; self.ty = ty; self.st = st
    def key(self):
        return (self.root, tuple('[]' if isinstance(p, Term) else p for p in self.path))
    def idx(self):
        return [p for p in self.path if isinstance(p, Term)]
    def __repr__(self):
        return 'Lval(%s%s)' % (self.root, ''.join('.' + p if isinstance(p, str) else '[%r]' % p for p in self.path))

class CLval:
    """guarded alternatives"""
    def __init__(self, alts): self.alts = alts
    @property
    def ty(self): return self.alts[0][1].ty
    @property
    def st(self): return self.alts[0][1].st

class PtrVal:
    def __init__(self, alts): self.alts = alts     # [(guard, Lval|None)]

class FuncVal:
    def __init__(self, kind, **kw):
        self.kind = kind; self.__dict__.update(kw)

class StrVal:
    def __init__(self, s): self.s = s

class Opaque:
    def __init__(self, what): self.what = what

def is_scalar(ty):
    return ty[0] in ('int', 'double', 'bool', 'enum', 'opaque')

class State:
    __slots__ = ('mem', 'ptrs', 'pc', 'env', 'funcs')
    def __init__(self):
        self.mem = {}; self.ptrs = {}; self.pc = None; self.env = {}; self.funcs = {}
    def clone(self):
        s = State()
        s.mem = dict(self.mem); s.ptrs = dict(self.ptrs); s.pc = self.pc; s.env = dict(self.env)
        s.funcs = dict(self.funcs)
        return s
    def become(self, o):
        self.mem = o.mem; self.ptrs = o.ptrs; self.pc = o.pc; self.env = o.env; self.funcs = o.funcs
    def assume(self, t, branch=False):
        if t is TRUE: return
        if t.op == 'and' and not branch:
            for x in t.args: self.assume(x)
            return
        self.pc = (self.pc, t, branch)
    def facts(self):
        out = []; p = self.pc
        while p is not None:
            out.append(p[1]); p = p[0]
        out.reverse()
        return out

def depth(pc):
    n = 0
    while pc is not None:
        n += 1; pc = pc[0]
    return n

class Obligation:
    __slots__ = ('name', 'kind', 'hyps', 'goal', 'line', 'func', 'label', 'lemmas', 'trivial', 'props')
    def __init__(self, **kw):
        for k, v in kw.items(): setattr(self, k, v)

class Frame:
    def __init__(self, fn, tu, this=None):
        self.fn = fn; self.tu = tu; self.this = this
        self.loopno = 0
        self.contract = None
        self.old = None
        self.params = {}
        self.depth = 0
        self.names = {}; self.decls = {}

class Outcome:
    __slots__ = ('normal', 'brk', 'cont', 'ret', 'goto')
    def __init__(self):
        self.normal = []; self.brk = []; self.cont = []; self.ret = []; self.goto = {}
    def absorb(self, o):
        self.brk += o.brk; self.cont += o.cont; self.ret += o.ret
        for k, v in o.goto.items(): self.goto.setdefault(k, []).extend(v)

class Exec:
    def __init__(self, prog, specs):
        self.prog = prog; self.specs = specs
        self.obls = []
        self.typefacts = {}        # Term -> [facts]
        self.suppress = 0
        self.inloop = 0
        self.drying = 0         # > 0 while finding out what a loop modifies
        self.rootno = 0
        self.fname = ''
        self.writes = None         # set of leaf keys written while recording
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.modeflags = set()
        self.stack = []
        self.covers = []           # (label, hyps): must not be refutable
        self.sqrt_terms = set()
        self.allfacts = []         # generator: facts always added if term appears (sqrt, recfun unfold)
        self.used_lemmas = set(); self.hide = set(); self.posthide = set()
        self.loopnos = {}
        self.loopseen = {}
        self.top_contract = None
        self.missing_inv = []; self.nodec = []
        self.callpath = ()
        self.opaque_hook = None
        if 'canwrite' in specs.ufuncs:      # files and strings are modelled when io.spec is loaded
            from . import stdio
            stdio.register(prog); self.opaque_hook = stdio.hook; self.stdio = stdio

    # ------------------------------------------------------------ types
    def rty(self, ty):
        k = ty[0]
        if k == 'name':
            n = ty[1]
            if n in self.prog.records: return ('rec', n)
            if n in self.prog.enums: return ('enum', n)
            for r in self.prog.records:
                if r.split('::')[-1] == n: return ('rec', r)
            for r in self.prog.enums:
                if r.split('::')[-1] == n: return ('enum', r)
            if n.startswith('(lambda'): return ('func',)
            if n in ('SensitivityCallback',): return ('func',)
            m = re.match(r'^__gnu_cxx::__alloc_traits<.*?>::value_type$', n)
            if n == '_Bit_reference' or n.endswith('vector<bool>::reference') or n=='std::_Bit_reference': return ('bool',)
            return ('opaque', n)
        if k in ('vec', 'ptr', 'ref'): return (k, self.rty(ty[1]))
        if k == 'arr': return ('arr', self.rty(ty[1]), ty[2])
        return ty

    def nty(self, node):
        t = self.rty(node_type(node))
        return t[1] if t[0] == 'ref' else t

    def sort(self, ty):
        k = ty[0]
        if k == 'double': return 'Real'
        if k == 'bool': return 'Bool'
        if k in ('int', 'enum', 'opaque'): return 'Int'
        raise Unsupported('no sort for type %r' % (ty,))

    def fields(self, rec):
        return [(n, self.rty(t)) for (n, t, i, tu) in self.prog.records[rec]['fields']]

    def leaves(self, ty, seen=()):
        """list of (pattern, scalar type)"""
        k = ty[0]
        if is_scalar(ty): return [((), ty)]
        if k == 'rec':
            out = []
            if ty[1] in seen: return []
            for n, t in self.fields(ty[1]):
                for p, s in self.leaves(t, seen + (ty[1],)): out.append(((n,) + p, s))
            return out
        if k in ('vec', 'arr'):
            out = [(('#',), ('int', 64, False))]
            for p, s in self.leaves(ty[1], seen): out.append((('[]',) + p, s))
            return out
        if k == 'ref': return self.leaves(ty[1], seen)
        if k == 'ptr': return [(('*',) + p, s) for p, s in self.leaves(ty[1], seen)]
        if k in ('func', 'void'): return []
        raise Unsupported('leaves of %r' % (ty,))

    def intrange(self, ty):
        if ty[0] == 'int':
            b, s = ty[1], ty[2]
            return (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if s else (0, 2 ** b - 1)
        if ty[0] == 'enum':
            v = self.prog.enums[ty[1]].values()
            m = 0
            for x in v: m |= x
            hi = 1
            while hi <= m: hi *= 2
            return (0, hi - 1)
        return None

    def typefact(self, t, ty):
        r = self.intrange(ty)
        if r is None or t.bv or t.op in ('int',): return
        if t not in self.typefacts:
            self.typefacts[t] = [le(I(r[0]), t), le(t, I(r[1]))]

    def leafsort(self, pattern, sty):
        s = self.sort(sty)
        for p in pattern:
            if p == '[]': s = Arr(s)
        return s

    # ------------------------------------------------------------ memory
    def newroot(self, name):
        self.rootno += 1
        return '%s#%d' % (name, self.rootno)

    def leaf_get(self, st, key, sty):
        t = st.mem.get(key)
        if t is None:
            root, pat = key
            t = const(root + ''.join('.' + p for p in pat), self.leafsort(pat, sty))
            if pat and pat[-1] == '#': self.size_fact(t)
            elif not isinstance(t.sort, tuple): self.typefact(t, sty)
            if isinstance(t.sort, tuple): self.arrfact(t, sty)
        return t

    def arrfact(self, t, sty):
        r = self.intrange(sty)
        if r: self.arr_ranges[t] = r
    arr_ranges = {}

    def size_fact(self, t):
        if isinstance(t.sort, tuple):
            self.arr_ranges[t] = (0, 2 ** 62)
        elif t not in self.typefacts:
            self.typefacts[t] = [le(I(0), t), le(t, I(2 ** 62))]

    def read(self, st, lv):
        if isinstance(lv, CLval):
            alts = lv.alts
            r = self.read(st, alts[-1][1])
            if not isinstance(r, Term): return lv
            for g, l in reversed(alts[:-1]): r = ite(g, self.read(st, l), r)
            return r
        if lv.st is not None: st = lv.st
        ty = lv.ty
        if is_scalar(ty) or (lv.path and lv.path[-1] == '#'):
            t = self.leaf_get(st, lv.key(), ty)
            for i in lv.idx(): t = select(t, i)
            if t.op == 'select': self.typefact(t, ty)
            return t
        if ty[0] == 'ptr': return self.readptr(st, lv)
        if ty[0] == 'func': return st.funcs.get((lv.root, lv.path)) or FuncVal('abstract', lv=lv)
        return lv

    def readptr(self, st, lv):
        k = (lv.root, lv.path)
        if k in st.ptrs: return st.ptrs[k]
        return PtrVal([(TRUE, Lval(lv.root, lv.path + ('*',), lv.ty[1]))])

    def leaf_write(self, st, key, idxs, val, sty):
        if idxs:
            base = self.leaf_get(st, key, sty)
            def rec(arr, ix):
                if len(ix) == 1: return store(arr, ix[0], val)
                return store(arr, ix[0], rec(select(arr, ix[0]), ix[1:]))
            val = rec(base, idxs)
        else:
            s = self.leafsort(key[1], sty)
            if val.sort != s:
                if s == 'Real': val = to_real(val)
                elif s == 'Bool': val = ne(val, I(0))
                elif s == 'Int' and val.sort == 'Bool': val = ite(val, I(1), I(0))
                else: raise Unsupported('sort mismatch writing %s' % (key,))
        st.mem[key] = val
        if self.writes is not None: self.writes[key] = sty

    def write(self, st, lv, val):
        if isinstance(lv, CLval):
            for g, l in lv.alts:
                old = self.read(st, l)
                if isinstance(val, Term): self.write(st, l, ite(g, val, old))
                else: raise Unsupported('guarded aggregate write')
            return
        ty = lv.ty
        if ty[0] == 'ptr':
            if isinstance(val, Opaque) or ty[1] == ('void',): return      # void pointers are never dereferenced here
            if not isinstance(val, PtrVal): raise Unsupported('pointer write')
            st.ptrs[(lv.root, lv.path)] = val
            if self.writes is not None: self.writes[(lv.root, lv.path)] = ('ptr',)
            return
        if ty[0] == 'func':
            st.funcs[(lv.root, lv.path)] = val; return
        if isinstance(val, Term) and (is_scalar(ty) or lv.path[-1:] == ('#',)):
            self.leaf_write(st, lv.key(), lv.idx(), val, ty); return
        if isinstance(val, (Lval, CLval)):
            self.copy(st, lv, val); return
        raise Unsupported('write of %r to %r' % (val, lv))

    def copy(self, st, dst, src):
        if isinstance(src, CLval):
            alts = src.alts
            for pat, sty in self.leaves(dst.ty):
                vals = [(g, self.sub_read(st, l, pat, sty)) for g, l in alts]
                v = vals[-1][1]
                for g, x in reversed(vals[:-1]): v = ite(g, x, v)
                self.leaf_write(st, (dst.root, dst.key()[1] + pat), dst.idx(), v, sty)
            return
        vals = [(pat, sty, self.sub_read(st, src, pat, sty)) for pat, sty in self.leaves(dst.ty)]
        for pat, sty, v in vals:
            self.leaf_write(st, (dst.root, dst.key()[1] + pat), dst.idx(), v, sty)

    def sub_read(self, st, lv, pat, sty):
        """value of the leaf under lv (array-sorted if pat has [])"""
        if lv.st is not None: st = lv.st
        # follow reference fields that are bound
        cur = Lval(lv.root, lv.path, lv.ty)
        i = 0
        for i_, p in enumerate(pat):
            if p == '[]': break
            ty = cur.ty
            if ty[0] == 'rec':
                cur = self.member(st, cur, p)
                i = i_ + 1
            else: break
        rest = pat[i:]
        t = self.leaf_get(st, (cur.root, cur.key()[1] + rest), sty)
        for ix in cur.idx(): t = select(t, ix)
        return t

    def havoc_lval(self, st, lv, why='havoc'):
        if isinstance(lv, CLval):
            raise Unsupported('havoc of conditional lvalue')
        if lv.path[-1:] == ('#',):
            lt = [((), ('int', 64, False))]
        else: lt = self.leaves(lv.ty)
        for pat, sty in lt:
            key = (lv.root, lv.key()[1] + pat)
            s = self.sort(sty)
            for p in lv.path + pat:
                if isinstance(p, str) and p == '[]': s = Arr(s)
            v = self.freshleaf(key, s, sty, pat or lv.path[-1:])
            self.leaf_write(st, key, lv.idx(), v, sty)
        for k in list(st.ptrs):
            if k[0] == lv.root and k[1][:len(lv.path)] == lv.path:
                # pointee becomes embedded
                del st.ptrs[k]

    def freshleaf(self, key, s, sty, pat):
        v = fresh(key[0] + ''.join('.' + p for p in key[1]), s)
        if pat and pat[-1] == '#': self.size_fact(v)
        elif isinstance(s, tuple): self.arrfact(v, sty)
        else: self.typefact(v, sty)
        return v

    # access paths
    def member(self, st, lv, name):
        if isinstance(lv, CLval):
            return self.mkC([(g, self.member(st, l, name)) for g, l in lv.alts])
        ty = lv.ty
        if ty[0] == 'ptr':
            return self.member(st, self.deref(st, self.read(st, lv)), name)
        if ty[0] != 'rec': raise Unsupported('member %s of %r' % (name, ty))
        for n, t in self.fields(ty[1]):
            if n == name:
                if t[0] == 'ref':
                    k = (lv.root, lv.path + (name,))
                    s = lv.st or st
                    if k in s.ptrs:
                        pv = s.ptrs[k]
                        return self.deref(st, pv, lv.st)
                    return Lval(lv.root, lv.path + (name,), t[1], lv.st)
                return Lval(lv.root, lv.path + (name,), t, lv.st)
        raise ExtractionError('record %s has no field %s' % (ty[1], name))

    def mkC(self, alts):
        out = []
        for g, l in alts:
            if isinstance(l, CLval):
                out.extend((and_(g, g2), l2) for g2, l2 in l.alts)
            else: out.append((g, l))
        out = [(g, l) for g, l in out if g is not FALSE]
        if len(out) == 1: return out[0][1]
        return CLval(out)

    def deref(self, st, pv, frozen=None):
        if isinstance(pv, (Lval, CLval)): return pv
        if not isinstance(pv, PtrVal): raise Unsupported('deref of %r' % (pv,))
        alts = [(g, Lval(l.root, l.path, l.ty, frozen or l.st) if isinstance(l, Lval) else l) for g, l in pv.alts if l is not None]
        if not alts: raise Unsupported('null dereference')
        return self.mkC(alts)

    def size_lv(self, lv):
        if isinstance(lv, CLval): return self.mkC([(g, self.size_lv(l)) for g, l in lv.alts])
        return Lval(lv.root, lv.path + ('#',), ('int', 64, False), lv.st)

    def index(self, st, lv, i, node=None, check=True):
        if isinstance(lv, CLval):
            out = []
            for g, l in lv.alts:
                s2 = st
                if check:
                    sz = self.read(st, self.size_lv(l))
                    self.oblige(st, 'bounds', implies(g, and_(le(I(0), i), lt(i, sz))), node, 'index within bounds')
                out.append((g, self.index(st, l, i, node, False)))
            return self.mkC(out)
        ty = lv.ty
        if ty[0] == 'ptr':
            return self.index(st, self.deref(st, self.read(st, lv)), i, node, check)
        if ty[0] not in ('vec', 'arr'): raise Unsupported('index of %r' % (ty,))
        if check:
            sz = self.read(st, self.size_lv(lv))
            self.oblige(st, 'bounds', and_(le(I(0), i), lt(i, sz)), node, 'index within bounds')
        return Lval(lv.root, lv.path + (i,), ty[1], lv.st)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, goal, node, text, label=None, props=None, assume=True, hyps=None):
        line = 0
        if node is not None and self.stack:
            line = self.prog.line(self.stack[-1].tu, node)
        if not self.suppress:
            n = sum(1 for o in self.obls if o.kind == kind) + 1
            name = '%s/%s%s@%s:%d' % (self.fname, kind, '' if label is None else '[%s]' % label, text.replace('\n', ' ')[:140], line)
            o = Obligation(name=name, kind=kind, hyps=st.facts() if hyps is None else hyps, goal=goal, line=line, func=self.fname,
                           label=label, lemmas=None, trivial=goal is TRUE, props=props)
            self.obls.append(o)
        if assume: st.assume(goal)

    def cover(self, st, label):
        if not self.suppress: self.covers.append((self.fname + '/' + label, st.facts()))

    # ------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states: return None
        if len(states) == 1: return states[0]
        # common pc tail
        chains = []
        for s in states:
            c = []; p = s.pc
            while p is not None:
                c.append(p); p = p[0]
            c.reverse(); chains.append(c)
        n = 0
        m = min(len(c) for c in chains)
        while n < m and all(c[n] is chains[0][n] for c in chains): n += 1
        base = chains[0][n - 1] if n else None
        conds = []; facts = []
        for c in chains:
            br = and_(*[x[1] for x in c[n:] if x[2]])
            conds.append(br)
            facts.append([x[1] for x in c[n:] if not x[2]])
        out = State()
        out.pc = base
        disj = or_(*conds)
        if disj is not TRUE: out.assume(disj)
        common = None
        for c, fs in zip(conds, facts):
            for f in fs:
                out.assume(implies(c, f))
        keys = {}
        for s in states:
            for k in s.mem: keys[k] = 1
        for k in keys:
            vals = []
            miss = False
            for s in states:
                if k in s.mem: vals.append(s.mem[k])
                else:
                    # unwritten in that branch: initial constant with the same sort
                    so = next(x.mem[k].sort for x in states if k in x.mem)
                    t = const(k[0] + ''.join('.' + p for p in k[1]), so)
                    vals.append(t)
            v = vals[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])): v = ite(c, x, v)
            out.mem[k] = v
        keys = {}
        for s in states:
            for k in s.ptrs: keys[k] = 1
        for k in keys:
            pv = [s.ptrs.get(k) for s in states]
            if all(p is pv[0] for p in pv): out.ptrs[k] = pv[0]; continue
            if any(p is None for p in pv):
                # default embedded pointee cannot be told apart: keep only if pointers live in all
                if '#' in k[0]: continue
                alts = []
                for c, p in zip(conds, pv):
                    if p is None:
                        raise Unsupported('pointer %r assigned on one branch only' % (k,))
            alts = []
            for c, p in zip(conds, pv):
                for g, l in p.alts:
                    g2 = and_(c, g)
                    for j, (g3, l3) in enumerate(alts):
                        if l3 is l or (l3 is not None and l is not None and l3.root == l.root and l3.path == l.path):
                            alts[j] = (or_(g3, g2), l3); break
                    else: alts.append((g2, l))
            out.ptrs[k] = PtrVal(alts)
        env = {}
        for s in states:
            for k, v in s.env.items(): env[k] = v
        out.env = env
        fn = {}
        for s in states: fn.update(s.funcs)
        out.funcs = fn
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression kind %s (line %d)' % (k, self.prog.line(self.stack[-1].tu, n)))
        return m(n, st)

    def rv(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, (Lval, CLval)): v = self.read(st, v)
        return v

    def kids(self, n):
        return [c for c in n.get('inner', ()) if isinstance(c, dict) and c.get('kind')]

    def ev_ParenExpr(self, n, st): return self.ev(self.kids(n)[0], st)
    def ev_ExprWithCleanups(self, n, st): return self.ev(self.kids(n)[0], st)
    def ev_ConstantExpr(self, n, st): return self.ev(self.kids(n)[0], st)
    def ev_CXXBindTemporaryExpr(self, n, st): return self.ev(self.kids(n)[0], st)
    def ev_SubstNonTypeTemplateParmExpr(self, n, st): return self.ev(self.kids(n)[0], st)
    def ev_CXXDefaultArgExpr(self, n, st): raise Unsupported('default argument')
    def ev_IntegerLiteral(self, n, st): return I(int(n['value']))
    def ev_CharacterLiteral(self, n, st): return I(int(n['value']))
    def ev_FloatingLiteral(self, n, st):
        return R(Fraction(repr(float(n['value']))))
    def ev_CXXBoolLiteralExpr(self, n, st): return B(n['value'])
    def ev_CXXNullPtrLiteralExpr(self, n, st): return PtrVal([(TRUE, None)])
    def ev_GNUNullExpr(self, n, st): return PtrVal([(TRUE, None)])
    def ev_StringLiteral(self, n, st): return StrVal(n.get('value', ''))
    def ev_ImplicitValueInitExpr(self, n, st): return self.zero(self.nty(n))
    def ev_CXXScalarValueInitExpr(self, n, st): return self.zero(self.nty(n))

    def zero(self, ty):
        s = self.sort(ty)
        return {'Int': I(0), 'Real': R(0), 'Bool': FALSE}[s]

    def ev_CXXThisExpr(self, n, st):
        return PtrVal([(TRUE, self.stack[-1].this)])

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') == 'sizeof':
            ty = n.get('argType', {}).get('qualType')
            if ty is None: ty = None
            szs = {'double': 8, 'int': 4, 'unsigned int': 4, 'float': 4, 'char': 1}
            if ty in szs: return I(szs[ty])
            ks = self.kids(n)
            if ks:
                t = self.nty(ks[0])
                if t[0] == 'double': return I(8)
                if t[0] == 'int': return I(t[1] // 8)
        raise Unsupported('sizeof')

    def ev_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            tu = self.stack[-1].tu
            dd = tu.decls.get(d['id'])
            if dd is not None and '_value' in dd: return I(dd['_value'])
            raise Unsupported('enum constant %s' % d.get('name'))
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            if d['id'] in st.env: return st.env[d['id']]
            g = self.stack[-1].tu.decls.get(d['id'])
            if g is not None and g.get('inner'):
                # namespace-scope constant
                ks = self.kids(g)
                return self.ev(ks[-1], st)
            if d.get('name') in ('cerr', 'cout', 'stderr'): return Opaque('stream')
            if d.get('name', '').startswith('_') and d['name'][1:].isdigit(): return FuncVal('placeholder', n=int(d['name'][1:]))
            return Opaque('var ' + d.get('name', '?'))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncVal('fn', decl=d)
        raise Unsupported('reference to %s' % d['kind'])

    def ev_MemberExpr(self, n, st):
        base = self.kids(n)[0]
        b = self.ev(base, st)
        if isinstance(b, PtrVal): b = self.deref(st, b)
        elif isinstance(b, (Lval, CLval)) and b.ty[0] == 'ptr': b = self.deref(st, self.read(st, b))
        if not isinstance(b, (Lval, CLval)): raise Unsupported('member access on %r' % (b,))
        return self.member(st, b, n['name'])

    def ev_ArraySubscriptExpr(self, n, st):
        a, i = self.kids(n)
        b = self.ev(a, st)
        if isinstance(b, PtrVal): b = self.deref(st, b)
        ix = self.rv(i, st)
        return self.index(st, b, ix, n)

    def ev_MaterializeTemporaryExpr(self, n, st):
        v = self.ev(self.kids(n)[0], st)
        if isinstance(v, (Lval, CLval)): return v
        if isinstance(v, Term):
            ty = self.nty(n)
            lv = Lval(self.newroot('tmp'), (), ty)
            self.write(st, lv, v)
            return lv
        return v

    def ev_ImplicitCastExpr(self, n, st):
        ck = n['castKind']
        e = self.kids(n)[0]
        if ck == 'LValueToRValue':
            v = self.ev(e, st)
            if isinstance(v, (Lval, CLval)): return self.read(st, v)
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase', 'UserDefinedConversion', 'BaseToDerived'):
            return self.ev(e, st)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ToVoid', 'BitCast'): return self.ev(e, st)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e, st)
            if isinstance(v, StrVal): return v
            return PtrVal([(TRUE, v)])
        if ck in ('NullToPointer', 'NullToMemberPointer'): return PtrVal([(TRUE, None)])
        v = self.rv(e, st)
        if not isinstance(v, Term):
            if ck == 'PointerToBoolean' and isinstance(v, PtrVal):
                return or_(*[g for g, l in v.alts if l is not None])
            raise Unsupported('cast %s of %r' % (ck, v))
        dst = self.nty(n); src = self.nty(e)
        if ck in ('IntegralCast',):
            return self.intcast(v, src, dst, st, n)
        if ck == 'IntegralToBoolean': return ne(v, I(0)) if v.sort == 'Int' else v
        if ck == 'FloatingToBoolean': return ne(v, R(0))
        if ck == 'IntegralToFloating': return to_real(v)
        if ck == 'FloatingCast': return v
        if ck == 'FloatingToIntegral':
            r = self.intrange(dst)
            self.oblige(st, 'conversion', and_(lt(R(r[0] - 1), v), lt(v, R(r[1] + 1))), n, 'floating value fits %s' % (dst,))
            if r[0] == 0:
                if v.op == 'to_real': return v.args[0]
                return ite(ge(v, R(0)), to_int(v), I(0))
            return ite(ge(v, R(0)), to_int(v), neg(to_int(neg(v))))
        raise Unsupported('cast kind ' + ck)

    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = ev_CXXReinterpretCastExpr = lambda self, n, st: self.ev_ImplicitCastExpr(n, st)

    def intcast(self, v, src, dst, st, n):
        if v.sort == 'Bool': v = ite(v, I(1), I(0))
        rs = self.intrange(src) or (0, 1); rd = self.intrange(dst)
        if dst[0] == 'bool': return ne(v, I(0))
        if src[0] == 'bool': rs = (0, 1)
        if rd is None: raise Unsupported('integral cast to %r' % (dst,))
        if rd[0] <= rs[0] and rs[1] <= rd[1]: return v
        if isnum(v) and rd[0] <= num(v) <= rd[1]: return v
        if isnum(v) and dst[0] == 'int' and not dst[2]: return I(num(v) % 2 ** dst[1])
        if dst[0] == 'enum': return v
        self.oblige(st, 'conversion', and_(le(I(rd[0]), v), le(v, I(rd[1]))), n, 'integer conversion preserves value')
        return v

    def guarded(self, st, cond, f):
        """evaluate f(state) under cond, merge effects back into st; returns value"""
        if cond is TRUE: return f(st)
        a = st.clone(); a.assume(cond, True)
        b = st.clone(); b.assume(not_(cond), True)
        v = f(a)
        m = self.merge([a, b])
        st.become(m)
        return v

    def ev_BinaryOperator(self, n, st):
        op = n['opcode']; a, b = self.kids(n)
        if op == '=':
            lv = self.ev(a, st) if a['kind'] != 'CallExpr' else self.ev(a, st)
            v = self.ev(b, st)
            if isinstance(lv, Opaque): return lv
            if isinstance(v, (Lval, CLval)): v = self.read(st, v)
            self.write(st, lv, v)
            return lv
        if op == ',':
            self.ev(a, st); return self.ev(b, st)
        if op in ('&&', '||'):
            x = self.tobool(self.rv(a, st))
            if op == '&&':
                if x is FALSE: return FALSE
                y = self.guarded(st, x, lambda s: self.tobool(self.rv(b, s)))
                return and_(x, y)
            if x is TRUE: return TRUE
            y = self.guarded(st, not_(x), lambda s: self.tobool(self.rv(b, s)))
            return or_(x, y)
        x = self.rv(a, st); y = self.rv(b, st)
        return self.arith(op, x, y, self.nty(n), st, n, self.nty(a))

    def tobool(self, v):
        if isinstance(v, PtrVal): return or_(*[g for g, l in v.alts if l is not None])
        if isinstance(v, Opaque): return fresh('opaque', 'Bool')
        if v.sort == 'Bool': return v
        return ne(v, mknum(0, v.sort))

    def arith(self, op, x, y, ty, st, n, opty=None):
        if isinstance(x, PtrVal) or isinstance(y, PtrVal):
            return self.ptrop(op, x, y)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ('==', '!=', '<', '>'): return fresh('opaque', 'Bool')
            return Opaque('arith')
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op](x, y)
        if ty[0] == 'double':
            x = to_real(x); y = to_real(y)
            if op == '+': return add(x, y)
            if op == '-': return sub(x, y)
            if op == '*': return mul(x, y)
            if op == '/':
                self.oblige(st, 'div-by-zero', ne(y, R(0)), n, 'denominator is not zero')
                return rdiv(x, y)
            raise Unsupported('double op ' + op)
        if x.sort == 'Bool': x = ite(x, I(1), I(0))
        if y.sort == 'Bool': y = ite(y, I(1), I(0))
        if op in ('&', '|', '^'): return self.bitop(op, x, y)
        rng = self.intrange(ty) if ty[0] != 'bool' else (0, 1)
        if op in ('<<', '>>'):
            if not isnum(y):
                if op == '<<': raise Unsupported('variable shift')
                self.oblige(st, 'conversion', and_(le(I(0), y), lt(y, I(32)), le(I(0), x)), n, 'shift count in range')
                r = fresh('shift', 'Int'); st.assume(and_(le(I(0), r), le(r, x))); return r
            p = 2 ** num(y)
            if op == '>>': return idiv(x, I(p))
            r = mul(x, I(p))
        elif op == '+': r = add(x, y)
        elif op == '-': r = sub(x, y)
        elif op == '*': r = mul(x, y)
        elif op in ('/', '%'):
            self.oblige(st, 'div-by-zero', ne(y, I(0)), n, 'divisor is not zero')
            if rng[0] < 0:
                if not (isnum(y) and num(y) > 0):
                    self.oblige(st, 'overflow', and_(ge(x, I(0)), gt(y, I(0))), n, 'signed division of non-negative operands')
                q = ite(ge(x, I(0)), idiv(x, y), neg(idiv(neg(x), y))) if isnum(y) else idiv(x, y)
                return q if op == '/' else sub(x, mul(q, y))
            return idiv(x, y) if op == '/' else imod(x, y)
        else: raise Unsupported('int op ' + op)
        if isnum(r):
            if rng[0] <= num(r) <= rng[1]: return r
            if rng[0] == 0: return I(num(r) % (rng[1] + 1))
        if rng[0] < 0:
            self.oblige(st, 'overflow', and_(le(I(rng[0]), r), le(r, I(rng[1]))), n, 'signed arithmetic does not overflow')
            return r
        if 'wraps' in self.modeflags and op == '*':
            return ite(gt(r, I(rng[1])), imod(r, I(rng[1] + 1)), r)
        if 'wraps' in self.modeflags and op in '+-':
            if op == '+': return ite(gt(r, I(rng[1])), sub(r, I(rng[1] + 1)), r)
            return ite(lt(r, I(0)), add(r, I(rng[1] + 1)), r)
        g = lt(r, I(rng[1] + 1)) if op in ('+', '*', '<<') else ge(r, I(0))
        self.oblige(st, 'overflow', g, n, 'unsigned %s does not wrap around' % op)
        return r

    def bits(self, v, w=4):
        """list of Bool terms for the bits of a small value"""
        if isnum(v): return [B((num(v) >> i) & 1) for i in range(w)]
        if v.op == 'ite' and (isnum(v.args[1]) or v.args[1].op == 'ite') and (isnum(v.args[2]) or v.args[2].op == 'ite'):
            a = self.bits(v.args[1], w); b = self.bits(v.args[2], w)
            return [ite(v.args[0], p, q) for p, q in zip(a, b)]
        return [or_(*[eq(v, I(x)) for x in range(2 ** w) if (x >> i) & 1]) for i in range(w)]

    def bitop(self, op, x, y):
        w = 4
        for v in (x, y):
            if isnum(v):
                if num(v) < 0 or num(v) >= 64: raise Unsupported('bit operation on large constant')
                while num(v) >= 2 ** w: w += 1
        if x.op == 'ite' and y.op == 'ite' and all(isnum(a) and num(a) in (0, 1) for t in (x, y) for a in t.args[1:]):
            w = 1
        a = self.bits(x, w); b = self.bits(y, w)
        f = {'&': and_, '|': or_, '^': lambda p, q: ne(p, q)}[op]
        r = [f(p, q) for p, q in zip(a, b)]
        return add(*[ite(t, I(1 << i), I(0)) for i, t in enumerate(r)])

    def ptrop(self, op, x, y):
        if op in ('==', '!='):
            if isinstance(x, Opaque) or isinstance(y, Opaque): return fresh('opaque', 'Bool')
            def null(p): return or_(*[g for g, l in p.alts if l is None])
            if all(l is None for g, l in y.alts): r = null(x)
            elif all(l is None for g, l in x.alts): r = null(y)
            else: raise Unsupported('pointer comparison')
            return r if op == '==' else not_(r)
        raise Unsupported('pointer arithmetic')

    def ev_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]; a, b = self.kids(n)
        lv = self.ev(a, st)
        y = self.rv(b, st)
        x = self.read(st, lv)
        ct = self.rty(parse_type(n['computeResultType']['desugaredQualType'] if 'desugaredQualType' in n['computeResultType'] else n['computeResultType']['qualType']))
        ty = self.nty(a)
        if ct[0] == 'double': x = to_real(x)
        v = self.arith(op, x, y, ct, st, n)
        if ct[0] == 'double' and ty[0] == 'int':
            raise Unsupported('double to int compound assignment')
        if ct[0] == 'int' and ty[0] in ('int', 'bool', 'enum') and ct != ty: v = self.intcast(v, ct, ty, st, n)
        self.write(st, lv, v)
        return lv

    def ev_UnaryOperator(self, n, st):
        op = n['opcode']; a = self.kids(n)[0]
        if op == '&':
            v = self.ev(a, st)
            if isinstance(v, (Lval, CLval)):
                return PtrVal(v.alts if isinstance(v, CLval) else [(TRUE, v)])
            return v
        if op == '*':
            v = self.rv(a, st) if not isinstance(a, Term) else a
            if isinstance(v, (Opaque,)): return v
            if isinstance(v, FuncVal): return v
            return self.deref(st, v)
        if op in ('++', '--'):
            lv = self.ev(a, st); x = self.read(st, lv); ty = self.nty(a)
            if not isinstance(x, Term): raise Unsupported('++ on non scalar')
            one = mknum(1, x.sort)
            v = self.arith('+' if op == '++' else '-', x, one, ty, st, n)
            self.write(st, lv, v)
            return x if n.get('isPostfix') else lv
        if op == '!': return not_(self.tobool(self.rv(a, st)))
        if op == '-':
            v = self.rv(a, st); ty = self.nty(n)
            if ty[0] == 'double': return neg(v)
            return self.arith('-', I(0), v, ty, st, n)
        if op == '+': return self.rv(a, st)
        raise Unsupported('unary ' + op)

    def ev_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        x = self.tobool(self.rv(c, st))
        if x is TRUE: return self.ev(a, st)
        if x is FALSE: return self.ev(b, st)
        sa = st.clone(); sa.assume(x, True)
        sb = st.clone(); sb.assume(not_(x), True)
        va = self.ev(a, sa); vb = self.ev(b, sb)
        if isinstance(va, (Lval, CLval)) and isinstance(vb, (Lval, CLval)) and n.get('valueCategory') == 'lvalue':
            st.become(self.merge([sa, sb]))
            return self.mkC([(x, va), (not_(x), vb)])
        va = self.read(sa, va) if isinstance(va, (Lval, CLval)) else va
        vb = self.read(sb, vb) if isinstance(vb, (Lval, CLval)) else vb
        st.become(self.merge([sa, sb]))
        return self.mergeval(x, va, vb)

    def mergeval(self, c, a, b):
        if a is b: return a
        if isinstance(a, Term) and isinstance(b, Term): return ite(c, a, b)
        if isinstance(a, PtrVal) and isinstance(b, PtrVal):
            return PtrVal([(and_(c, g), l) for g, l in a.alts] + [(and_(not_(c), g), l) for g, l in b.alts])
        if isinstance(a, (Lval, CLval)) and isinstance(b, (Lval, CLval)):
            return self.mkC([(c, a), (not_(c), b)])
        if isinstance(a, (StrVal, Opaque)) and isinstance(b, (StrVal, Opaque)): return Opaque('str')
        raise Unsupported('merge of %r and %r' % (a, b))

    def ev_InitListExpr(self, n, st):
        ty = self.nty(n)
        ks = self.kids(n)
        if is_scalar(ty): return self.rv(ks[0], st) if ks else self.zero(ty)
        lv = Lval(self.newroot('ilist'), (), ty)
        self.initlist(n, lv, st)
        return lv

    def initlist(self, n, lv, st):
        ty = lv.ty
        ks = self.kids(n)
        if ty[0] == 'arr':
            N = ty[2]
            self.write(st, self.size_lv(lv), I(N))
            ks = [k for k in n.get('inner', ()) if k.get('kind')] if n.get('inner') else []
            af = n.get('array_filler')
            if af: ks = [k for k in af if k.get('kind') and k['kind'] != 'ImplicitValueInitExpr']
            for i in range(N):
                el = Lval(lv.root, lv.path + (I(i),), ty[1])
                if i < len(ks):
                    if ks[i]['kind'] == 'InitListExpr': self.initlist(ks[i], el, st)
                    else:
                        v = self.ev(ks[i], st)
                        if isinstance(v, (Lval, CLval)): v = self.read(st, v)
                        self.write(st, el, v)
                else: self.default_init(st, el, value=True)
            return
        if ty[0] == 'rec':
            fs = self.fields(ty[1])
            for (fn, ft), k in zip(fs, ks):
                f = self.member(st, lv, fn)
                if k['kind'] == 'InitListExpr' and not is_scalar(f.ty): self.initlist(k, f, st)
                else:
                    v = self.ev(k, st)
                    if isinstance(v, (Lval, CLval)): v = self.read(st, v)
                    self.write(st, f, v)
            return
        raise Unsupported('init list for %r' % (ty,))

    # ------------------------------------------------------------ objects
    def default_init(self, st, lv, value=False):
        """default-initialise the object at lv (fresh storage)"""
        ty = lv.ty
        if ty[0] == 'rec':
            ctor = self.find_ctor(ty[1], 'void ()') or self.find_ctor(ty[1], 'void () noexcept')
            if ctor is not None and ctor['body'] is not None:
                self.call_ctor(st, lv, ctor, [], None); return
            for n, t in self.fields(ty[1]):
                f = self.member(st, lv, n) if t[0] != 'ref' else None
                if f is not None: self.default_init(st, f, value)
            return
        if ty[0] == 'vec':
            self.write(st, self.size_lv(lv), I(0)); return
        if ty[0] == 'arr':
            if ty[2] is not None: self.write(st, self.size_lv(lv), I(ty[2]))
            if ty[1][0] in ('rec', 'vec', 'arr'):
                if ty[2] is None: raise Unsupported('VLA of objects')
                for i in range(ty[2]): self.default_init(st, Lval(lv.root, lv.path + (I(i),), ty[1]), value)
            elif value:
                self.leaf_write(st, (lv.root, lv.key()[1] + ('[]',)), lv.idx(), constarr(self.zero(ty[1])), ty[1])
            return
        if ty[0] in ('ptr', 'func', 'ref'): return
        if value: self.write(st, lv, self.zero(ty))
        elif lv.root.find('#') >= 0 or lv.idx():
            # indeterminate value
            s = self.sort(ty)
            v = fresh('uninit.' + lv.root, s); self.typefact(v, ty)
            self.write(st, lv, v)

    def find_ctor(self, rec, sig):
        want = norm_sig(sig)
        for m in self.prog.byname.get(rec + '::' + rec.split('::')[-1], []):
            f = self.prog.funcs[m]
            if norm_sig(f['type']) == want: return f
        return None

    def ev_CXXTemporaryObjectExpr(self, n, st): return self.ev_CXXConstructExpr(n, st)

    def ev_CXXConstructExpr(self, n, st, into=None):
        ty = self.nty(n)
        args = self.kids(n)
        if ty[0] in ('opaque', 'func'):
            if ty[0] == 'opaque' and re.search(r'_distribution<|_distribution$|random_device', ty[1]) and not (len(args) == 1 and self.nty(args[0]) == ty):
                return self.rng_new(ty, [self.rv(a, st) for a in args if a['kind'] != 'CXXDefaultArgExpr'], into, st)
            if self.opaque_hook and self.stdio.is_string(ty):
                a = self.stdio.nargs(args)
                if len(a) > 1: raise Unsupported('string constructor')
                return self.stdio.sval(self, self.ev(a[0], st), st) if a else I(self.stdio.EMPTY)
            if ty[0] == 'func' or (len(args) == 1):
                if args:
                    v = self.ev(args[0], st)
                    if isinstance(v, (Lval, CLval)) : v = self.read(st, v)
                    return v
            if ty[0] == 'opaque' and nlopt.is_opt(ty): return nlopt.construct(self, args, n, st)
            for a in args: self.ev(a, st)
            return Opaque(ty)
        lv = into or Lval(self.newroot('obj'), (), ty)
        self.construct(n, ty, args, lv, st)
        return lv

    # <random>: a generator or distribution is one opaque value; see RNG in DESIGN.md
    def rng_new(self, ty, args, into, st):
        lv = into or Lval(self.newroot('rng'), (), ty)
        if 'random_device' in ty[1]: return lv
        if not args: args = [R(0), R(1)]
        if len(args) != 2: raise Unsupported('distribution constructor')
        D = fresh('dist', 'Int')
        st.assume(and_(eq(app('nd_a', (D,), 'Real'), to_real(args[0])), eq(app('nd_b', (D,), 'Real'), to_real(args[1])), eq(app('nd_saved', (D,), 'Int'), I(0))))
        self.write(st, lv, D)
        return lv

    def rng_call(self, name, b, args, n, st):
        t = b.ty[1]
        if re.search(r'mt19937|mersenne_twister', t):
            if name == 'seed':
                self.write(st, b, app('mt_seed', (self.rv(args[0], st) if args else I(5489),), 'Int')); return None
            raise Unsupported('generator method ' + name)
        if 'random_device' in t:
            if name != 'operator()': raise Unsupported('random_device ' + name)
            v = fresh('random_device', 'Int'); self.typefact(v, ('int', False, 32)); return v
        D = self.read(st, b)
        a, c, sv = app('nd_a', (D,), 'Real'), app('nd_b', (D,), 'Real'), app('nd_saved', (D,), 'Int')
        def succ(saved):
            D2 = fresh('dist', 'Int')
            st.assume(and_(eq(app('nd_a', (D2,), 'Real'), a), eq(app('nd_b', (D2,), 'Real'), c), eq(app('nd_saved', (D2,), 'Int'), saved)))
            self.write(st, b, D2)
        if name == 'reset': succ(I(0)); return None
        if name != 'operator()' or len(args) != 1: raise Unsupported('distribution method ' + name)
        g = self.ev(args[0], st)
        if not isinstance(g, Lval) or g.ty[0] != 'opaque' or not re.search(r'mt19937|mersenne_twister', g.ty[1]): raise Unsupported('random draw from %r' % (g,))
        G = self.read(st, g)
        if 'normal_distribution' in t and 'log' not in t:
            v = add(a, mul(c, app('nd_draw', (sv, G), 'Real')))
            succ(app('nd_next', (sv, G), 'Int')); self.write(st, g, app('nd_gen', (sv, G), 'Int'))
            return v
        if 'uniform_real_distribution' in t:
            u = app('ur_draw', (G,), 'Real')
            st.assume(and_(le(R(0), u), le(u, R(1))))
            self.write(st, g, app('ur_gen', (G,), 'Int'))
            return add(a, mul(sub(c, a), u))
        if 'uniform_int_distribution' in t:
            self.oblige(st, 'requires', le(a, c), n, 'uniform_int_distribution: min <= max')
            v = app('ui_draw', (to_int(a), to_int(c), G), 'Int')
            st.assume(implies(le(a, c), and_(le(a, to_real(v)), le(to_real(v), c))))
            self.write(st, g, app('ui_gen', (to_int(a), to_int(c), G), 'Int'))
            return v
        raise Unsupported('distribution ' + t)

    def construct(self, n, ty, args, lv, st):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr' or True]
        ctype = n.get('ctorType', {}).get('qualType', '')
        if ty[0] == 'vec':
            real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
            if not real: self.write(st, self.size_lv(lv), I(0)); return
            if 'initializer_list' in ctype:
                a = real[0]
                while a['kind'] in ('CXXStdInitializerListExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'ImplicitCastExpr'):
                    a = self.kids(a)[0]
                els = self.kids(a)
                self.write(st, self.size_lv(lv), I(len(els)))
                for i, e in enumerate(els):
                    v = self.ev(e, st)
                    if isinstance(v, (Lval, CLval)): v = self.read(st, v)
                    self.write(st, Lval(lv.root, lv.path + (I(i),), ty[1]), v)
                return
            at = self.nty(real[0])
            if at[0] == 'vec':
                src = self.ev(real[0], st)
                self.copy(st, lv, src); return
            if at[0] == 'int' and (len(real) == 1 or self.nty(real[1])[0] not in ('ptr',)):
                cnt = self.rv(real[0], st)
                self.write(st, self.size_lv(lv), cnt)
                if len(real) >= 2:
                    v = self.ev(real[1], st)
                    tmp = v
                else: tmp = self.default_object(st, ty[1])
                self.fill_all(st, lv, tmp)
                return
            raise Unsupported('vector constructor %s' % ctype)
        if ty[0] == 'rec':
            f = self.find_ctor(ty[1], ctype)
            if f is None:
                raise Unsupported('constructor %s %s' % (ty[1], ctype))
            if len(args) == 1 and (f['implicit'] or f['body'] is None or is_copy_sig(f['type'], ty[1])):
                src = self.ev(args[0], st)
                if f['body'] is None or f['implicit']:
                    self.copy(st, lv, src); return
            if f['implicit'] and not args:
                self.default_init(st, lv); return
            self.call_ctor(st, lv, f, args, n); return
        if ty[0] == 'arr':
            self.default_init(st, lv); return
        raise Unsupported('construct %r' % (ty,))

    def default_object(self, st, ty):
        if is_scalar(ty): return self.zero(ty)
        lv = Lval(self.newroot('def'), (), ty)
        self.default_init(st, lv, value=True)
        return lv

    def fill_all(self, st, lv, v):
        """every element of vector lv (all indices) becomes v"""
        ety = lv.ty[1]
        if isinstance(v, Term):
            if self.sort(ety) == 'Real': v = to_real(v)
            self.leaf_write(st, (lv.root, lv.key()[1] + ('[]',)), lv.idx(), constarr(v), ety); return
        if is_scalar(ety):
            v = self.read(st, v)
            if self.sort(ety) == 'Real': v = to_real(v)
            self.leaf_write(st, (lv.root, lv.key()[1] + ('[]',)), lv.idx(), constarr(v), ety); return
        for pat, sty in self.leaves(ety):
            t = self.sub_read(st, v, pat, sty)
            if t.op == 'const' and '#' in t.args[0] and t not in self.typefacts and False: pass
            if is_uninit(t):
                t2 = fresh('uninit', Arr(t.sort)); self.arrfact(t2, sty) if True else None
                self.leaf_write(st, (lv.root, lv.key()[1] + ('[]',) + pat), lv.idx(), t2, sty)
            else:
                self.leaf_write(st, (lv.root, lv.key()[1] + ('[]',) + pat), lv.idx(), constarr(t), sty)

    def resize(self, st, lv, n, v=None):
        szl = self.size_lv(lv)
        old = self.read(st, szl)
        ety = lv.ty[1]
        if v is None: v = self.default_object(st, ety)
        if isnum(old) and num(old) == 0:
            self.fill_all(st, lv, v)
        else:
            leaves = self.leaves(ety)
            for pat, sty in leaves:
                key = (lv.root, lv.key()[1] + ('[]',) + pat)
                cur = self.leaf_get(st, key, sty)
                for ix in lv.idx(): cur = select(cur, ix)
                d = v if isinstance(v, Term) else (self.read(st, v) if is_scalar(ety) else self.sub_read(st, v, pat, sty))
                if cur.sort[1] == 'Real': d = to_real(d)
                nw = fresh('resized.' + key[0], cur.sort); 
                if not isinstance(cur.sort[1], tuple): self.arrfact(nw, sty)
                b = freshb('k', 'Int')
                if is_uninit(d): d = select(nw, b)
                sel = select(nw, b)
                body = implies(le(I(0), b), eq(sel, ite(lt(b, old), select(cur, b), d)))
                st.assume(forall([b], body, [sel]))
                self.leaf_write(st, key, lv.idx(), nw, sty)
        self.write(st, szl, n)

    # ------------------------------------------------------------ calls
    def strip(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and self.kids(n):
            n = self.kids(n)[0]
        return n

    def ev_CXXMemberCallExpr(self, n, st):
        ks = self.kids(n)
        me = ks[0]
        while me['kind'] == 'ParenExpr': me = self.kids(me)[0]
        if me['kind'] != 'MemberExpr': raise Unsupported('member call through ' + me['kind'])
        args = ks[1:]
        name = me['name']
        bexp = self.kids(me)[0]
        b = self.ev(bexp, st)
        if isinstance(b, PtrVal): b = self.deref(st, b)
        elif isinstance(b, (Lval, CLval)) and b.ty[0] == 'ptr': b = self.deref(st, self.read(st, b))
        if isinstance(b, (Opaque, StrVal)) or (isinstance(b, (Lval, CLval)) and b.ty[0] == 'opaque') or (self.opaque_hook and isinstance(b, Term)):
            return self.opaque_call(name, b, args, n, st)
        if name == 'operator bool' and b.ty == ('bool',): return self.read(st, b)     # std::vector<bool>::reference
        if b.ty[0] == 'vec' or b.ty[0] == 'arr': return self.vec_method(name, b, args, n, st)
        if b.ty[0] == 'rec':
            tu = self.stack[-1].tu
            d = tu.decls.get(me.get('referencedMemberDecl'))
            if d is None: raise Unsupported('method %s not found' % name)
            f = self.prog.funcs.get(d.get('mangledName'))
            if f is None: raise Unsupported('method %s not found' % name)
            return self.call(f, b, args, n, st)
        raise Unsupported('method %s on %r' % (name, b.ty))

    def opaque_call(self, name, b, args, n, st):
        if isinstance(b, Lval) and re.search(r'_distribution<|_distribution$|random_device|mt19937|mersenne_twister', str(b.ty[1])): return self.rng_call(name, b, args, n, st)
        if isinstance(b, Lval) and nlopt.is_opt(b.ty): return nlopt.call(self, name, b, args, n, st)
        h = getattr(self, 'opaque_hook', None)
        if h is not None:
            r = h(self, name, b, args, n, st)
            if r is not NotImplemented: return r
        for a in args: self.ev(a, st)
        ty = self.nty(n)
        if ty[0] in ('int', 'double', 'bool'):
            v = fresh('opaque.' + name, self.sort(ty)); self.typefact(v, ty)
            return v
        return Opaque(name)

    def vec_method(self, name, b, args, n, st):
        if name == 'size': return self.read(st, self.size_lv(b))
        if name == 'empty': return eq(self.read(st, self.size_lv(b)), I(0))
        if name in ('at', 'operator[]'):
            i = self.rv(args[0], st)
            return self.index(st, b, i, n)
        if name in ('reserve', 'shrink_to_fit'):
            for a in args: self.rv(a, st)
            return None
        if name == 'clear':
            self.write(st, self.size_lv(b), I(0)); return None
        if name == 'resize':
            args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
            c = self.rv(args[0], st)
            v = self.ev(args[1], st) if len(args) > 1 else None
            self.resize(st, b, c, v); return None
        if name in ('push_back', 'emplace_back'):
            sz = self.read(st, self.size_lv(b))
            v = self.ev(args[0], st)
            if isinstance(v, (Lval, CLval)): v = self.read(st, v)
            self.write(st, Lval(b.root, b.path + (sz,), b.ty[1]), v)
            self.write(st, self.size_lv(b), add(sz, I(1)))
            return None
        if name == 'pop_back':
            sz = self.read(st, self.size_lv(b))
            self.oblige(st, 'bounds', gt(sz, I(0)), n, 'pop_back on a non-empty vector')
            self.write(st, self.size_lv(b), sub(sz, I(1))); return None
        if name in ('front', 'back'):
            sz = self.read(st, self.size_lv(b))
            return self.index(st, b, I(0) if name == 'front' else sub(sz, I(1)), n)
        if name in ('begin', 'end', 'cbegin', 'cend'):
            off = I(0) if name.endswith('begin') else self.read(st, self.size_lv(b))
            return FuncVal('iter', base=b, off=off)
        if name == 'data': return PtrVal([(TRUE, b)])
        if name == 'assign':
            c = self.rv(args[0], st); v = self.ev(args[1], st)
            self.write(st, self.size_lv(b), c); self.fill_all(st, b, v); return None
        if name == 'swap':
            o = self.ev(args[0], st)
            tmp = Lval(self.newroot('swap'), (), b.ty)
            self.copy(st, tmp, b); self.copy(st, b, o); self.copy(st, o, tmp); return None
        raise Unsupported('vector method ' + name)

    def ev_CXXOperatorCallExpr(self, n, st):
        ks = self.kids(n)
        fn = self.strip(ks[0]); args = ks[1:]
        name = fn.get('referencedDecl', {}).get('name', '')
        if name == 'operator[]':
            b = self.ev(args[0], st)
            if isinstance(b, PtrVal): b = self.deref(st, b)
            if isinstance(b, (Lval, CLval)) and b.ty[0] in ('vec', 'arr'):
                i = self.rv(args[1], st)
                return self.index(st, b, i, n)
        if name == 'operator=':
            lv = self.ev(args[0], st)
            v = self.ev(args[1], st)
            if isinstance(lv, Opaque): return lv
            if isinstance(v, (Lval, CLval)): v = self.read(st, v)
            self.write(st, lv, v)
            return lv
        if name == 'operator()':
            f = self.ev(args[0], st)
            if isinstance(f, Lval) and f.ty[0] == 'func': f = self.read(st, f)
            if isinstance(f, FuncVal): return self.call_funcval(f, args[1:], n, st)
            if isinstance(f, Lval) and f.ty[0] == 'rec':
                d = self.prog.funcs.get(self.stack[-1].tu.decls.get(fn['referencedDecl']['id'], {}).get('mangledName'))
                if d: return self.call(d, f, args[1:], n, st)
            if isinstance(f, Lval) and f.ty[0] == 'opaque': return self.opaque_call('operator()', f, args[1:], n, st)
        if name in ('operator+', 'operator-', 'operator++'):
            a = self.ev(args[0], st)
            if isinstance(a, FuncVal) and a.kind == 'iter' and len(args) == 2:
                o = self.rv(args[1], st)
                return FuncVal('iter', base=a.base, off=add(a.off, o) if name == 'operator+' else sub(a.off, o))
        if name in ('operator<<', 'operator>>', 'operator bool', 'operator!'):
            h = getattr(self, 'opaque_hook', None)
            if h is not None:
                r = h(self, name, None, args, n, st)
                if r is not NotImplemented: return r
            for a in args: self.ev(a, st)
            if name == 'operator!': return fresh('opaque', 'Bool')
            return Opaque('stream')
        if name in ('operator==', 'operator!=') and len(args) == 2:
            pass
        d = self.prog.funcs.get(self.stack[-1].tu.decls.get(fn.get('referencedDecl', {}).get('id'), {}).get('mangledName'))
        if d is not None:
            b = self.ev(args[0], st)
            return self.call(d, b, args[1:], n, st)
        raise Unsupported('operator call %s' % name)

    def call_funcval(self, f, args, n, st):
        if f.kind == 'abstract':
            vals = [self.ev(a, st) for a in args]
            return self.abstract_call(f, vals, n, st)
        if f.kind == 'bind':
            vals = [self.ev(a, st) for a in args]
            full = []
            for b in f.bound:
                if isinstance(b, FuncVal) and b.kind == 'placeholder': full.append(vals[b.n - 1])
                else: full.append(b)
            return self.call(f.fn, full[0] if f.method else None, None, n, st, argvals=full[1:] if f.method else full)
        raise Unsupported('call of ' + f.kind)

    def abstract_call(self, f, vals, n, st):
        """a user callback: an unknown function of the boundary point's position"""
        p = vals[0]
        x = self.read(st, self.member(st, self.member(st, p, 'coord'), 'x'))
        y = self.read(st, self.member(st, self.member(st, p, 'coord'), 'y'))
        # everything but the position must be as it was on entry, so that the callback's value is a function of the position alone
        if isinstance(p, Lval):
            for pat, sty in self.leaves(p.ty):
                if pat[:1] == ('coord',): continue
                o = self.sub_read(self.old0, p, pat, sty); w = self.sub_read(st, p, pat, sty)
                if o is not w: self.oblige(st, 'callback', eq(o, w), n, 'the callback sees the point displaced and otherwise unmodified (%s)' % '.'.join(pat))
        self.assumptions.add('user callbacks are functions of the boundary point position and leave the program state unchanged')
        return app('cb', (x, y), 'Real')

    def ev_CallExpr(self, n, st):
        ks = self.kids(n)
        fn = self.strip(ks[0]); args = ks[1:]
        if fn['kind'] != 'DeclRefExpr': raise Unsupported('indirect call')
        d = fn['referencedDecl']
        name = d.get('name', '')
        tu = self.stack[-1].tu
        dd = tu.decls.get(d['id'])
        if dd is not None:
            f = self.prog.funcs.get(dd.get('mangledName'))
            if f is not None:
                return self.call(f, None, args, n, st)
        return self.builtin(name, args, n, st)

    def sqrt(self, st, x, node=None, check=True):
        x = to_real(x)
        if isnum(x) and num(x) >= 0:
            import math
            v = num(x)
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator: return R(Fraction(a, b))
        if check: self.oblige(st, 'domain', ge(x, R(0)), node, 'square root of a non-negative number')
        r = app('sqrt', (x,), 'Real')
        if not x.bv and r not in self.typefacts:
            self.typefacts[r] = [implies(ge(x, R(0)), and_(ge(r, R(0)), eq(mul(r, r), x)))]
        return r

    def builtin(self, name, args, n, st):
        if name == 'exit' or name == 'abort':
            for a in args: self.rv(a, st)
            self.on_exit(st, n)
            raise PathEnd()
        if name in ('abs', 'fabs'):
            v = self.rv(args[0], st)
            if v.sort == 'Int' and self.nty(n)[0] == 'int':
                self.oblige(st, 'overflow', gt(v, I(-2 ** 31)), n, 'abs does not overflow')
            return abs_(v)
        if name == 'sqrt': return self.sqrt(st, self.rv(args[0], st), n)
        if name in ('min', 'max') and args:
            if len(args) == 2:
                x = self.rv(args[0], st); y = self.rv(args[1], st)
                return min_(x, y) if name == 'min' else max_(x, y)
        if name == 'floor':
            return to_real(to_int(to_real(self.rv(args[0], st))))
        if name == 'ceil':
            return neg(to_real(to_int(neg(to_real(self.rv(args[0], st))))))
        if name == 'round':
            v = to_real(self.rv(args[0], st)); h = R(Fraction(1, 2))
            return ite(ge(v, R(0)), to_real(to_int(add(v, h))), neg(to_real(to_int(add(neg(v), h)))))
        if name == 'pow':
            x = self.rv(args[0], st); y = self.rv(args[1], st)
            if isnum(y) and num(y).denominator == 1 and 0 <= num(y) <= 8:
                r = R(1)
                for _ in range(int(num(y))): r = mul(r, to_real(x))
                return r
            if isnum(x) and num(x) == 2:
                e = y if y.sort == 'Int' else y.args[0] if y.op == 'to_real' else None
                if e is None: raise Unsupported('pow')
                t = app('pow2i', (e,), 'Int')
                self.typefacts[t] = [implies(ge(e, I(0)), ge(t, I(1))), implies(and_(ge(e, I(0)), le(e, I(31))), le(t, I(2 ** 31)))]
                return to_real(t)
            raise Unsupported('pow')
        if name == 'hypot':
            x = to_real(self.rv(args[0], st)); y = to_real(self.rv(args[1], st))
            return self.sqrt(st, add(mul(x, x), mul(y, y)), n, False)
        if name == 'fill':
            a = self.ev(args[0], st); b = self.ev(args[1], st); v = self.ev(args[2], st)
            if not (isinstance(a, FuncVal) and a.kind == 'iter' and isnum(a.off) and num(a.off) == 0):
                raise Unsupported('std::fill range')
            size = self.read(st, self.size_lv(a.base))
            if b.off is not size: raise Unsupported('std::fill partial range')
            self.fill_all(st, a.base, v); return None
        if name in ('move', 'forward', 'ref', 'cref', 'as_const'): return self.ev(args[0], st)
        if name == 'swap':
            a = self.ev(args[0], st); b = self.ev(args[1], st)
            va = self.read(st, a); vb = self.read(st, b)
            if isinstance(va, Term):
                self.write(st, a, vb); self.write(st, b, va)
            else:
                tmp = Lval(self.newroot('swap'), (), a.ty)
                self.copy(st, tmp, a); self.copy(st, a, b); self.copy(st, b, tmp)
            return None
        if name == 'sort': return self.model_sort(args, n, st)
        if name == 'iota':
            a = self.ev(args[0], st); b = self.ev(args[1], st); v = self.rv(args[2], st)
            k = freshb('k', 'Int')
            lv = a.base
            nw = fresh('iota', Arr('Int'))
            st.assume(forall([k], eq(select(nw, k), add(k, v)), [select(nw, k)]))
            self.leaf_write(st, (lv.root, lv.key()[1] + ('[]',)), lv.idx(), nw, lv.ty[1]); return None
        if name == 'bind':
            vals = []
            fnv = self.ev(args[0], st)
            if isinstance(fnv, PtrVal): raise Unsupported('bind')
            f = self.prog.funcs.get(self.stack[-1].tu.decls.get(fnv.decl['id'], {}).get('mangledName'))
            for a in args[1:]:
                v = self.ev(a, st)
                if isinstance(v, (Lval, CLval)) and not is_scalar(v.ty) and v.ty[0] == 'rec':
                    # std::bind stores a copy
                    c = Lval(self.newroot('bound'), (), v.ty)
                    self.copy(st, c, v); v = c
                elif isinstance(v, PtrVal): v = self.deref(st, v)
                vals.append(v)
            return FuncVal('bind', fn=f, bound=vals, method=fnv.decl['kind'] == 'CXXMethodDecl')
        if name in ('fprintf', 'printf', 'strerror', '__errno_location', 'fclose', 'fopen', 'operator<<', 'setw', 'setfill') or (self.opaque_hook and name in ('getline', 'fputs', 'fputc', 'putc')):
            h = getattr(self, 'opaque_hook', None)
            if h is not None:
                r = h(self, name, None, args, n, st)
                if r is not NotImplemented: return r
            for a in args: self.ev(a, st)
            if name == '__errno_location': return PtrVal([(TRUE, Lval('errno', (), ('int', 32, True)))])
            if name == 'fopen': return PtrVal([(TRUE, Lval('FILE', (), ('opaque', 'FILE')))])
            return I(0) if name in ('fprintf', 'printf', 'fclose') else StrVal('')
        if name == 'epsilon': return R(Fraction(1, 2 ** 52))
        if name == 'min' and not args:
            v = app('dblmin', (), 'Real'); st.assume(and_(lt(R(0), v), lt(v, R(Fraction(1, 10**300))))); return v
        if name == 'max' and not args:
            c = const('DBL_MAX', 'Real'); self.typefacts[c] = [gt(c, R(10 ** 300))]
            return c
        raise Unsupported('call of library function %s' % name)

    def sort_order(self, comp, st):
        """the comparator as a function (lvalue, lvalue) -> Term: read off the first postcondition of its contract
        of the form result <==> E; without comparator the order < of the element type"""
        if comp is None: return lambda a, b: lt(self.read(st, a), self.read(st, b))
        if not (isinstance(comp, FuncVal) and comp.kind in ('bind', 'fn')): raise Unsupported('std::sort comparator')
        if comp.kind == 'fn':
            f = self.prog.funcs.get(self.stack[-1].tu.decls.get(comp.decl['id'], {}).get('mangledName')); bound = None; method = False
        else: f = comp.fn; bound = comp.bound; method = comp.method
        con = self.specs.contract_for(f, self.inline_set) if f is not None else None
        if con is None: raise Unsupported('std::sort comparator without contract')
        self.used_contracts.add(con.key)
        body = None
        for e, lab in con.ensures:
            if e.ast[0] == 'iff' and e.ast[1] == ('id', 'result'): body = e.ast[2]; break
        if body is None or con.requires or con.assigns: raise Unsupported('std::sort comparator contract is not a pure definition')
        from .spec import Expr
        def order(a, b):
            vals = [a, b] if bound is None else [(a, b)[x.n - 1] if isinstance(x, FuncVal) and x.kind == 'placeholder' else x for x in bound]
            this = None
            if method: this = vals[0]; vals = vals[1:]
            if isinstance(this, PtrVal): this = self.deref(st, this)
            return self.specs.evalb(self, Expr('comparator', body), self.call_env(f, con, this, vals, st), st, st)
        return order

    def model_sort(self, args, n, st):
        """std::sort(first, last[, comp]): the range becomes a permutation of itself in which no element is ordered
        before an earlier one; obligations: the range is valid and the comparator is a strict weak order"""
        a = self.ev(args[0], st); b = self.ev(args[1], st)
        comp = self.ev(args[2], st) if len(args) > 2 else None
        if not all(isinstance(x, FuncVal) and x.kind == 'iter' for x in (a, b)) or not isinstance(a.base, Lval): raise Unsupported('std::sort range')
        lv = a.base; lo, hi = a.off, b.off
        ety = self.rty(lv.ty[1])
        self.oblige(st, 'bounds', and_(le(I(0), lo), le(lo, hi), le(hi, self.read(st, self.size_lv(lv)))), n, 'std::sort range within the vector')
        pats = self.leaves(ety)
        if any('[]' in p for p, sty in pats): raise Unsupported('std::sort of nested vectors')
        tc = self.stack[-1].contract if self.stack else None
        hn = {}
        order = self.sort_order(comp, st)
        pq = [Lval(self.newroot('elem'), (), ety) for _ in range(3)]
        hn.update({'$p': pq[0], '$q': pq[1], '$r': pq[2], '$n': hi, '$old': self.arrsnap(st, lv)})
        if tc is not None:
            for k_, e in tc.calls.get(('before_call', 'sort'), ()): self.call_hook(k_, e, st, n, 'before sort', hn)
        if comp is not None:
            p, q, r = pq
            self.oblige(st, 'precondition', not_(order(p, p)), n, 'std::sort comparator is irreflexive', assume=False)
            self.oblige(st, 'precondition', not_(and_(order(p, q), order(q, p))), n, 'std::sort comparator is asymmetric', assume=False)
            self.oblige(st, 'precondition', implies(and_(order(p, q), order(q, r)), order(p, r)), n, 'std::sort comparator is transitive', assume=False)
            self.oblige(st, 'precondition', implies(and_(not_(order(p, q)), not_(order(q, r))), not_(order(p, r))), n, 'std::sort comparator: incomparability is transitive', assume=False)
        perm = fresh('perm', Arr('Int')); rank = fresh('rank', Arr('Int'))
        k = freshb('k', 'Int')
        inr = and_(le(lo, k), lt(k, hi))
        for f, g in ((perm, rank), (rank, perm)):
            st.assume(forall([k], implies(inr, and_(le(lo, select(f, k)), lt(select(f, k), hi), eq(select(g, select(f, k)), k))), [select(f, k)]))
        news = []
        for pat, sty in pats:
            key = (lv.root, lv.key()[1] + ('[]',) + pat)
            old = self.leaf_get(st, key, sty)
            for i in lv.idx(): old = select(old, i)
            nw = fresh('sorted', old.sort)
            self.arrfact(nw, sty) if not lv.idx() else None
            st.assume(forall([k], ite(inr, eq(select(nw, k), select(old, select(perm, k))), eq(select(nw, k), select(old, k))), [select(nw, k)]))
            news.append((key, nw, sty, old))
        for key, nw, sty, old in news: self.leaf_write(st, key, lv.idx(), nw, sty)
        i = freshb('i', 'Int'); j = freshb('j', 'Int')
        ei = self.index(st, lv, i, None, False); ej = self.index(st, lv, j, None, False)
        first = news[0][1]
        st.assume(forall([i, j], implies(and_(le(lo, i), lt(i, j), lt(j, hi)), not_(order(ej, ei))), [mk('pat', (select(first, i), select(first, j)), 'Bool')]))
        self.assumptions.add('std::sort leaves a permutation of the range in which no element is ordered before an earlier one (its comparator is proved to be a strict weak order)')
        if tc is not None:
            hn.update({'$perm': perm, '$rank': rank})
            for k_, e in tc.calls.get(('after_call', 'sort'), ()): self.call_hook(k_, e, st, n, 'after sort', hn)
        return None

    def arrsnap(self, st, lv):
        """a copy of the vector as it is now, for hints after it has been rearranged"""
        c = Lval(self.newroot('before'), (), lv.ty)
        self.copy(st, c, lv)
        return c

    def may_exit_now(self):
        """the declared condition, on entry, under which the function under verification may end the process"""
        tc = self.top_contract
        if tc is None: return FALSE
        es = list(tc.exits_if) + list(tc.may_exit_if)
        return or_(*[self.specs.evalb(self, x, self.spec_env(self.stack0, self.old0), self.old0, self.old0) for x in es]) if es else FALSE

    def on_exit(self, st, n):
        fr = self.stack[0] if self.stack else None
        con = self.top_contract
        cond = FALSE
        if con is not None and 'may_exit' in con.flags and not con.exits_if: return
        if con is not None and con.exits_if:
            cond = or_(*[self.specs.evalb(self, e, self.spec_env(self.stack0, self.old0), self.old0, self.old0) for e in con.exits_if])
        self.oblige(st, 'exit', cond, n, 'process exit only under the declared condition', assume=False)

    # user function call
    def call(self, f, this, argnodes, n, st, argvals=None):
        if argvals is None:
            argvals = []
            ptys = [self.rty(node_type(p)) for p in f['params'] or []]
            for i, a in enumerate(argnodes):
                if a['kind'] == 'CXXDefaultArgExpr':
                    argvals.append(self.default_arg(f, i, st)); continue
                v = self.ev(a, st)
                if self.opaque_hook and isinstance(v, StrVal): v = self.stdio.sval(self, v, st)
                if self.opaque_hook and isinstance(v, Term) and i < len(ptys) and ptys[i][0] == 'ref' and self.stdio.is_string(ptys[i][1]):
                    c = Lval(self.newroot('arg'), (), ptys[i][1]); self.write(st, c, v); v = c
                if i < len(ptys) and ptys[i][0] != 'ref' and isinstance(v, (Lval, CLval)):
                    w = self.read(st, v)
                    if isinstance(w, (Lval, CLval)):
                        c = Lval(self.newroot('arg'), (), w.ty)
                        self.copy(st, c, w); w = c
                    v = w
                argvals.append(v)
        con = self.specs.contract_for(f, self.inline_set)
        short = f['name'].split('::')[-1]
        if short in self.counted:
            ck = ('calls', (short,))
            self.leaf_write(st, ck, (), add(self.leaf_get(st, ck, ('int', 32, True)), I(1)), ('int', 32, True))
        tc = self.stack[-1].contract if self.stack else None
        if tc is not None:
            hn = {'$arg%d' % (i + 1): v for i, v in enumerate(argvals)}
            for k_, e in tc.calls.get(('before_call', short), ()): self.call_hook(k_, e, st, n, 'before ' + short, hn)
        if con is not None:
            r = self.call_contract(f, con, this, argvals, n, st)
        elif f['body'] is None:
            raise Unsupported('no body for %s' % f['name'])
        else: r = self.inline(f, this, argvals, n, st)
        if short in self.lasts and isinstance(r, Term):
            self.leaf_write(st, ('last', (short,)), (), to_real(r), ('double',))
        if tc is not None:
            if r is not None: hn['$ret'] = r
            for k_, e in tc.calls.get(('after_call', short), ()): self.call_hook(k_, e, st, n, 'after ' + short, hn)
        return r

    def call_hook(self, kind, e, st, n, text, names):
        """proof hint at a call: the arguments are $arg1, $arg2, .., the result $ret; a hint that names a
        variable which does not exist at this call is left out"""
        fr = self.stack[-1]
        saved = fr.names
        fr.names = dict(saved); fr.names.update(names)
        try: self.spec_step(kind, e, st, n, text, *(self.iters[-1] if self.iters else ()))
        except self.specs.Error as z:
            if 'unknown name' not in str(z): raise
        finally: fr.names = saved

    inline_set = frozenset()
    iters = ()
    counted = frozenset()
    lasts = frozenset()

    def default_arg(self, f, i, st):
        p = f['params'][i] if f['params'] and i < len(f['params']) else None
        cand = [p] if p else []
        d = f.get('decl')
        if d is not None:
            ps = [c for c in d.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            if i < len(ps): cand.append(ps[i])
        for p in cand:
            ks = [c for c in p.get('inner', ()) if c.get('kind')]
            if ks:
                fr = Frame(f, f['tu']); self.stack.append(fr)
                try: return self.rv(ks[-1], st)
                finally: self.stack.pop()
        raise Unsupported('default argument of %s' % f['name'])

    def bind_params(self, f, argvals, st, fr):
        for p, v in zip(f['params'], argvals):
            ty = self.rty(node_type(p))
            nm = p.get('name', '')
            if ty[0] == 'ref':
                if isinstance(v, (Lval, CLval)): lv = v
                elif isinstance(v, FuncVal):
                    lv = Lval(self.newroot('fv'), (), ('func',)); st.funcs[(lv.root, ())] = v
                else:
                    lv = Lval(self.newroot('tmp'), (), ty[1])
                    if isinstance(v, Term): self.write(st, lv, v)
            else:
                lv = Lval(self.newroot(nm), (), ty)
                if isinstance(v, (Opaque, StrVal)): pass
                else: self.write(st, lv, v)
            st.env[p['id']] = lv
            fr.names[nm] = lv

    def inline(self, f, this, argvals, n, st):
        if sum(1 for x in self.stack if x.fn is f) > 0: raise Unsupported('recursive call of %s without a contract' % f['name'])
        if len(self.stack) > 12: raise Unsupported('inlining too deep')
        self.inlined.add(f['name'])
        fr = Frame(f, f['tu'], this if this is None or not isinstance(this, PtrVal) else self.deref(st, this))
        fr.contract = self.specs.inline_loops(f)
        if fr.contract is None:
            fr.contract = self.stack[-1].contract if self.stack else None; fr.old = self.stack[-1].old if self.stack else None
        else: fr.old = st.clone()
        saved = st.env
        st.env = dict(st.env)
        self.stack.append(fr)
        savedpath = self.callpath
        self.callpath = savedpath + ((n or {}).get('id'),)
        try:
            self.bind_params(f, argvals, st, fr)
            out = self.run_body(f, st, fr)
        finally:
            self.stack.pop(); self.callpath = savedpath
        if not out: raise PathEnd()
        rstates = [s for s, v in out]
        for s in rstates: s.env = saved
        if len(out) == 1:
            st.become(out[0][0]); return out[0][1]
        # merged value
        conds = self.branch_conds(rstates)
        v = out[-1][1]
        for c, (s, x) in zip(reversed(conds[:-1]), reversed(out[:-1])):
            if x is None or v is None: v = None
            else: v = self.mergeval(c, x, v)
        st.become(self.merge(rstates))
        return v

    def branch_conds(self, states):
        chains = []
        for s in states:
            c = []; p = s.pc
            while p is not None: c.append(p); p = p[0]
            c.reverse(); chains.append(c)
        k = 0; m = min(len(c) for c in chains)
        while k < m and all(c[k] is chains[0][k] for c in chains): k += 1
        return [and_(*[x[1] for x in c[k:] if x[2]]) for c in chains]

    def run_body(self, f, st, fr):
        """returns [(state, value)]"""
        o = self.ex(f['body'], st)
        res = []
        rty = None
        for s in o.normal: res.append((s, None))
        res.extend(o.ret)
        if o.goto: raise Unsupported('goto to unknown label')
        return res

    def call_ctor(self, st, lv, f, args, n):
        con = self.specs.contract_for(f, self.inline_set)
        argvals = []
        ptys = [self.rty(node_type(p)) for p in f['params'] or []]
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr':
                argvals.append(self.default_arg(f, i, st)); continue
            v = self.ev(a, st)
            if i < len(ptys) and ptys[i][0] != 'ref' and isinstance(v, (Lval, CLval)): v = self.read(st, v)
            argvals.append(v)
        if con is not None:
            self.call_contract(f, con, lv, argvals, n, st, ctor=True); return
        fr = Frame(f, f['tu'], lv)
        fr.contract = self.specs.inline_loops(f)
        fr.old = st.clone()
        self.inlined.add(f['name'])
        saved = st.env; st.env = dict(st.env)
        self.stack.append(fr)
        try:
            self.bind_params(f, argvals, st, fr)
            self.ctor_inits(f, lv, st)
            out = self.run_body(f, st, fr)
        finally: self.stack.pop()
        states = [s for s, v in out]
        if not states: raise PathEnd()
        for s in states: s.env = saved
        st.become(self.merge(states))

    def is_rng(self, ty): return ty[0] == 'opaque' and '_distribution' in str(ty[1])

    def ctor_inits(self, f, lv, st):
        rec = lv.ty[1]
        given = {}
        for ini in f['inits']:
            ai = ini.get('anyInit')
            if ai is None: raise Unsupported('base initialiser')
            given[ai['name']] = self.kids(ini)[0]
        for (name, ty, init, tu) in self.prog.records[rec]['fields']:
            ty = self.rty(ty)
            if name in given and given[name]['kind'] != 'CXXDefaultInitExpr':
                e = given[name]
                if ty[0] == 'ref':
                    v = self.ev(e, st)
                    st.ptrs[(lv.root, lv.path + (name,))] = PtrVal(v.alts if isinstance(v, CLval) else [(TRUE, v)])
                    if self.writes is not None: self.writes[(lv.root, lv.path + (name,))] = ('ptr',)
                    continue
                fl = Lval(lv.root, lv.path + (name,), ty)
                e2 = e
                if e2['kind'] == 'ExprWithCleanups': e2 = self.kids(e2)[0]
                if e2['kind'] == 'CXXConstructExpr' and (ty[0] in ('vec', 'rec', 'arr') or self.is_rng(ty)):
                    self.ev_CXXConstructExpr(e2, st, into=fl)
                elif e2['kind'] == 'InitListExpr' and ty[0] in ('rec', 'arr'):
                    self.initlist(e2, fl, st)
                else:
                    v = self.ev(e2, st)
                    if isinstance(v, (Lval, CLval)): v = self.read(st, v)
                    if ty[0] == 'opaque' and isinstance(v, Opaque): continue
                    self.write(st, fl, v)
            elif init is not None:
                fl = Lval(lv.root, lv.path + (name,), ty)
                fr = Frame(f, tu, lv); self.stack.append(fr)
                try:
                    if self.is_rng(ty) and init['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                        self.ev_CXXConstructExpr(init, st, into=fl); continue
                    v = self.ev(init, st)
                    if isinstance(v, (Lval, CLval)): v = self.read(st, v)
                finally: self.stack.pop()
                if ty[0] == 'opaque': continue
                self.write(st, fl, v)
            else:
                if ty[0] == 'ref': continue
                if ty[0] in ('ptr', 'func', 'opaque'): continue
                self.default_init(st, Lval(lv.root, lv.path + (name,), ty))

    def ev_CXXNewExpr(self, n, st):
        ty = self.nty(n)[1]
        ks = [k for k in self.kids(n) if k['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')]
        lv = Lval(self.newroot('heap'), (), ty)
        if ks: self.ev_CXXConstructExpr(ks[0], st, into=lv)
        else: raise Unsupported('new')
        return PtrVal([(TRUE, lv)])

    def ev_CXXDeleteExpr(self, n, st):
        return None

    def ev_LambdaExpr(self, n, st): raise Unsupported('lambda')

    # contract call --------------------------------------------------
    def call_env(self, f, con, this, argvals, st):
        env = {}
        pn = [p.get('name', '') for p in f['params'] or []]
        for i, v in enumerate(argvals):
            val = v
            if con.params and i < len(con.params): env[con.params[i]] = val
            if i < len(pn): env.setdefault(pn[i], val)
        if this is not None: env['this'] = this
        return env

    def call_contract(self, f, con, this, argvals, n, st, ctor=False):
        self.used_contracts.add(con.key)
        if isinstance(this, PtrVal): this = self.deref(st, this)
        env = self.call_env(f, con, this, argvals, st)
        # temporaries for value parameters
        for e, lab in con.requires if not self.drying else ():
            self.oblige(st, 'precondition', self.specs.evalb(self, e, env, st, st), n, 'pre of %s: %s' % (f['name'], e.text))
        if 'may_exit' in con.flags and not con.exits_if and not (self.top_contract is not None and 'may_exit' in self.top_contract.flags):
            self.oblige(st, 'exit', FALSE, n, 'callee %s does not exit' % f['name'], assume=False)
        for e in con.may_exit_if:
            if self.top_contract is None or 'may_exit' not in self.top_contract.flags:
                self.oblige(st, 'exit', implies(self.specs.evalb(self, e, env, st, st), self.may_exit_now()), n, 'callee %s may exit only under the declared condition: %s' % (f['name'], e.text), assume=False)
        for e in con.exits_if:
            c = self.specs.evalb(self, e, env, st, st)
            if 'may_exit' in self.modeflags or (self.top_contract is not None and 'may_exit' in self.top_contract.flags):
                st.assume(not_(c))
            else:
                cond = self.may_exit_now()
                self.oblige(st, 'exit', implies(c, cond), n, 'callee %s exits only under the declared condition: %s' % (f['name'], e.text))
                st.assume(not_(c))
        old = st.clone()
        if ctor:
            for pat, sty in self.leaves(this.ty):
                # all leaves except through unbound refs
                pass
            for name, ty in self.fields(this.ty[1]):
                if ty[0] == 'ref':
                    b = con.refbind.get(name)
                    if b is not None:
                        v = self.specs.eval(self, b, env, st, st)
                        st.ptrs[(this.root, this.path + (name,))] = PtrVal([(TRUE, v)])
                    continue
                self.havoc_lval(st, Lval(this.root, this.path + (name,), ty))
        for a in con.assigns:
            lv = self.specs.eval(self, a, env, st, st, lval=True)
            for l in (lv if isinstance(lv, list) else [lv]):
                if isinstance(l, CLval):
                    for g, x in l.alts: self.havoc_guarded(st, x, g)
                else: self.havoc_lval(st, l)
        rty = self.nty(n) if n is not None else ('void',)
        res = None
        if not ctor and rty[0] != 'void':
            if is_scalar(rty):
                res = fresh('ret.' + f['name'], self.sort(rty)); self.typefact(res, rty)
            else:
                res = Lval(self.newroot('ret'), (), rty)
        env2 = dict(env); env2['result'] = res
        for e, lab in con.ensures if not self.drying else ():
            st.assume(self.specs.evalb(self, e, env2, st, old))
        for k, b in con.ptrbind.items():
            v = self.specs.eval(self, b, env, st, old)
            fl = self.member(st, this, k)
            st.ptrs[(fl.root, fl.path)] = PtrVal(v.alts if isinstance(v, CLval) else [(TRUE, v)])
        return res

    def havoc_guarded(self, st, lv, g):
        old = st.clone()
        self.havoc_lval(st, lv)
        for pat, sty in self.leaves(lv.ty):
            key = (lv.root, lv.key()[1] + pat)
            o = self.leaf_get(old, key, sty); nw = st.mem[key]
            if o is not nw: st.mem[key] = ite(g, nw, o)

    def spec_env(self, fr, old=None):
        env = dict(fr.params)
        if fr.this is not None: env['this'] = fr.this
        return env

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        try:
            if m is not None: return m(n, st)
            o = Outcome()
            self.ev(n, st)
            o.normal.append(st)
            return o
        except PathEnd:
            return Outcome()

    def ex_NullStmt(self, n, st):
        o = Outcome(); o.normal.append(st); return o

    def ex_CompoundStmt(self, n, st):
        return self.seq(self.kids(n), st)

    def seq(self, stmts, st, start=0):
        total = Outcome()
        cur = [st]
        pend = {}
        labels = {}
        for i, s in enumerate(stmts):
            if s['kind'] == 'LabelStmt': labels[s.get('declId') or s.get('name')] = i
        i = start
        while i < len(stmts):
            s = stmts[i]
            if s['kind'] == 'LabelStmt':
                lab = s.get('declId') or s.get('name')
                cur = cur + pend.pop(lab, [])
            nxt = []
            for c in cur:
                o = self.ex(s, c)
                nxt.extend(o.normal)
                total.brk += o.brk; total.cont += o.cont; total.ret += o.ret
                for l, v in o.goto.items():
                    if l in labels and labels[l] > i: pend.setdefault(l, []).extend(v)
                    else: total.goto.setdefault(l, []).extend(v)
            if len(nxt) > 1 and not self.forking():
                nxt = [self.merge(nxt)]
            cur = nxt
            if not cur and not pend: break
            i += 1
        total.normal = cur
        return total

    def forking(self):
        return not self.drying and ('fork' in self.modeflags or 'forkloops' in self.modeflags and self.inloop > 0)

    def ex_LabelStmt(self, n, st): return self.ex(self.kids(n)[0], st)

    def ex_GotoStmt(self, n, st):
        o = Outcome()
        o.goto[n.get('targetLabelDeclId')] = [st]
        return o

    def ex_DeclStmt(self, n, st):
        for d in self.kids(n):
            if d['kind'] == 'VarDecl': self.decl(d, st)
            elif d['kind'] in ('UsingDirectiveDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl'): pass
            else: raise Unsupported('declaration ' + d['kind'])
        o = Outcome(); o.normal.append(st); return o

    def decl(self, d, st):
        ty = self.rty(node_type(d))
        if node_type(d)[0] == 'name' and ty[0] == 'opaque':
            pass
        name = d.get('name', 'tmp')
        inner = [c for c in self.kids(d) if c['kind'] not in ('FullComment',) and not c['kind'].endswith('Attr')]
        init = inner[-1] if d.get('init') and inner else None
        fr = self.stack[-1]
        if ty[0] == 'ref':
            v = self.ev(init, st)
            if isinstance(v, Term):
                lv = Lval(self.newroot(name), (), ty[1]); self.write(st, lv, v); v = lv
            if isinstance(v, FuncVal):
                lv = Lval(self.newroot(name), (), ('func',)); st.funcs[(lv.root, ())] = v; v = lv
            st.env[d['id']] = v; fr.names[name] = v; fr.decls[name] = d['id']
            return
        if d.get('storageClass') == 'static' and not re.match(r'.*const', d['type']['qualType']):
            raise Unsupported('static local variable')
        lv = Lval(self.newroot(name), (), ty)
        st.env[d['id']] = lv; fr.names[name] = lv; fr.decls[name] = d['id']
        if ty[0] == 'opaque':
            io = self.stdio if self.opaque_hook else None
            if io and io.is_stream(ty) and io.which(ty): io.declare(self, ty, lv, init, st); return
            v = self.ev(init, st) if init is not None else None
            if io and io.is_string(ty): self.write(st, lv, io.sval(self, v, st) if v is not None else I(io.EMPTY))
            st.env[d['id']] = lv
            return
        if init is None or ty[0] == 'arr' and ty[2] is None and init['kind'] == 'CXXConstructExpr':
            if ty[0] == 'arr' and ty[2] is None:
                m = re.match(r'^(.*?)\[(.*)\]$', d['type']['qualType'])
                sz = self.specs.evaltext(self, m.group(2), dict(fr.names, this=fr.this), st)
                if not isinstance(sz, Term): sz = self.read(st, sz)
                self.write(st, self.size_lv(lv), sz)
                return
            self.default_init(st, lv)
            return
        e = init
        if e['kind'] == 'ExprWithCleanups': e = self.kids(e)[0]
        if e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and ty[0] in ('vec', 'rec', 'arr'):
            if ty[0] == 'arr' : self.default_init(st, lv); return
            self.ev_CXXConstructExpr(e, st, into=lv)
            return
        if e['kind'] == 'InitListExpr' and ty[0] in ('rec', 'arr'):
            self.initlist(e, lv, st); return
        v = self.ev(e, st)
        if isinstance(v, (Lval, CLval)) : v = self.read(st, v)
        if isinstance(v, (Opaque, StrVal)): 
            if ty[0] in ('ptr',): return
            if is_scalar(ty):
                x = fresh('opaque', self.sort(ty)); self.typefact(x, ty); self.write(st, lv, x)
            return
        self.write(st, lv, v)

    def ex_IfStmt(self, n, st):
        ks = self.kids(n)
        if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with declaration')
        c = self.tobool(self.rv(ks[0], st))
        th = ks[1]; el = ks[2] if len(ks) > 2 else None
        o = Outcome()
        if c is TRUE: return self.ex(th, st)
        if c is FALSE:
            if el is not None: return self.ex(el, st)
            o.normal.append(st); return o
        a = st.clone(); a.assume(c, True)
        b = st; b.assume(not_(c), True)
        oa = self.ex(th, a)
        if el is not None: ob = self.ex(el, b)
        else:
            ob = Outcome(); ob.normal.append(b)
        o.absorb(oa); o.absorb(ob)
        nm = oa.normal + ob.normal
        if len(nm) > 1 and not self.forking(): nm = [self.merge(nm)]
        o.normal = nm
        return o

    def ex_SwitchStmt(self, n, st):
        ks = self.kids(n)
        v = self.rv(ks[0], st)
        body = ks[-1]
        stmts = self.kids(body)
        # flatten case labels
        flat = []; entry = []
        for s in stmts:
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                sub = self.kids(s)
                if s['kind'] == 'CaseStmt':
                    val = find_value(sub[0])
                    if val is None: raise Unsupported('case value')
                    entry.append((I(val), len(flat))); s = sub[-1]
                else:
                    entry.append((None, len(flat))); s = sub[-1]
            flat.append(s)
        o = Outcome(); none = TRUE; outs = []
        default = None
        vals = [e[0] for e in entry if e[0] is not None]
        cases = []
        for val, pos in entry:
            if val is None: default = pos
            else: cases.append((eq(v, val), pos))
        dflt = and_(*[not_(c) for c, p in cases])
        cases.append((dflt, default if default is not None else len(flat)))
        for c, pos in cases:
            if c is FALSE: continue
            s2 = st.clone(); s2.assume(c, True)
            r = self.seq(flat, s2, pos)
            outs += r.normal + r.brk
            o.cont += r.cont; o.ret += r.ret
            for l, x in r.goto.items(): o.goto.setdefault(l, []).extend(x)
        if len(outs) > 1 and not self.forking(): outs = [self.merge(outs)]
        o.normal = outs
        return o

    def ex_ReturnStmt(self, n, st):
        o = Outcome()
        ks = self.kids(n)
        v = None
        if ks:
            v = self.ev(ks[0], st)
            f = self.stack[-1].fn
            if isinstance(v, (Lval, CLval)):
                v2 = self.read(st, v)
                if isinstance(v2, Term) and not f['type'].split('(')[0].strip().endswith('&'): v = v2
                elif not isinstance(v2, Term) and not f['type'].split('(')[0].strip().endswith('&') and isinstance(v2, (Lval, CLval)):
                    v = v2
        o.ret.append((st, v))
        return o

    def ex_BreakStmt(self, n, st):
        o = Outcome(); o.brk.append(st); return o
    def ex_ContinueStmt(self, n, st):
        o = Outcome(); o.cont.append(st); return o

    trystack = ()
    def ex_CXXTryStmt(self, n, st):
        """the states in which an external call throws (vc/nlopt.py) go to any of the handlers, or leave the function"""
        ks = self.kids(n)
        thrown = []
        saved = self.trystack; self.trystack = tuple(saved) + (thrown,)
        try: o = self.ex(ks[0], st)
        finally: self.trystack = saved
        total = Outcome(); total.absorb(o)
        nm = list(o.normal)
        if thrown:
            base = thrown[0] if len(thrown) == 1 else self.merge(thrown)
            for h in ks[1:]:
                c = fresh('caught', 'Bool')
                hs = base.clone(); hs.assume(c, True); base.assume(not_(c), True)
                oh = self.ex([x for x in self.kids(h) if x['kind'] == 'CompoundStmt'][0], hs)
                total.absorb(oh); nm += oh.normal
        if len(nm) > 1 and not self.forking(): nm = [self.merge(nm)]
        total.normal = nm
        return total

    # loops ----------------------------------------------------------
    def ex_ForStmt(self, n, st):
        inner = n['inner']        # init, condvar, cond, inc, body
        init, _, cond, inc, body = inner
        if init.get('kind'):
            o = self.ex(init, st)
            if not o.normal: return o
            st = self.merge(o.normal)
        return self.loop(n, st, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, False)

    def ex_WhileStmt(self, n, st):
        ks = self.kids(n)
        return self.loop(n, st, ks[0], None, ks[-1], False)

    def ex_DoStmt(self, n, st):
        body, cond = self.kids(n)
        return self.loop(n, st, cond, None, body, True)

    def ex_CXXForRangeStmt(self, n, st):
        ks = [c for c in n['inner']]
        # range-decl, begin, end are implicit: interpret `for (T x : vec)` directly
        decls = [k for k in ks if k.get('kind') == 'DeclStmt']
        rng = decls[0]['inner'][0]; loopvar = decls[-1]['inner'][0]
        body = ks[-1]
        e = self.kids(rng)[-1]
        base = self.ev(e, st)
        if not (isinstance(base, Lval) and base.ty[0] in ('vec', 'arr')): raise Unsupported('range-for')
        ctr = Lval(self.newroot('$range'), (), ('int', 64, False))
        self.write(st, ctr, I(0))
        def cond(s): return lt(self.read(s, ctr), self.read(s, self.size_lv(base)))
        def pre(s):
            el = self.index(s, base, self.read(s, ctr), None, False)
            ty = self.rty(node_type(loopvar))
            if ty[0] == 'ref': s.env[loopvar['id']] = el
            else:
                lv = Lval(self.newroot(loopvar.get('name', 'x')), (), ty)
                v = self.read(s, el); self.write(s, lv, v); s.env[loopvar['id']] = lv
            self.stack[-1].names[loopvar.get('name', 'x')] = s.env[loopvar['id']]; self.stack[-1].decls[loopvar.get('name', 'x')] = loopvar['id']
        def inc(s): self.write(s, ctr, add(self.read(s, ctr), I(1)))
        return self.loop(n, st, cond, inc, body, False, pre=pre, ctr=ctr)

    def evcond(self, cond, st):
        if cond is None: return TRUE
        if callable(cond): return cond(st)
        return self.tobool(self.rv(cond, st))

    def doinc(self, inc, st):
        if inc is None: return
        if callable(inc): inc(st)
        else: self.ev(inc, st)

    def static_trip(self, n, cond, inc, st):
        """Does the loop condition fold to a constant at entry?  (constant-trip loops are unrolled)"""
        self.suppress += 1
        try:
            s = st.clone()
            try: c = self.evcond(cond, s)
            except PathEnd: return False
        finally: self.suppress -= 1
        return c in (TRUE, FALSE)

    def loop(self, n, st, cond, inc, body, isdo, pre=None, ctr=None):
        fr = self.stack[-1]
        lid = n['id']
        # constant trip count: unroll
        nounroll = fr.contract is not None and 'nounroll' in fr.contract.flags
        if not isdo and not nounroll and self.static_trip(n, cond, inc, st) and cond is not None and self.unrollable(n, st, cond, inc):
            # hints before an unrolled loop; these loops are numbered on their own
            if fr.contract is not None and fr.contract.uloops and not self.drying:
                key = (id(fr.contract), self.callpath, lid, 'u')
                if key not in self.loopnos:
                    k0 = (id(fr.contract), 'u')
                    self.loopseen[k0] = self.loopseen.get(k0, 0) + 1
                    self.loopnos[key] = self.loopseen[k0]
                no = self.loopnos[key]
                L = fr.contract.uloops.get(no)
                if L:
                    for k_, e in L.init: self.spec_step(k_, e, st, n, 'unrolled loop%d entry' % no, *(self.iters[-1] if self.iters else ()))
            return self.unroll(n, st, cond, inc, body, False, pre)
        if isdo:
            c0 = self.const_false(cond, st)
            if c0: return self.unroll(n, st, cond, inc, body, True, pre)
        no = self.loop_number(fr, lid)
        spec = None
        if fr.contract is not None: spec = fr.contract.loops.get(no)
        return self.invloop(n, st, cond, inc, body, isdo, no, spec, pre, ctr)

    def const_false(self, cond, st):
        c = self.strip(cond)
        if c['kind'] == 'CXXBoolLiteralExpr': return not c['value']
        if c['kind'] == 'IntegerLiteral': return int(c['value']) == 0
        return False

    def unrollable(self, n, st, cond, inc):
        if callable(cond): return True
        # i < literal with literal start
        c = self.strip(cond)
        if c['kind'] == 'BinaryOperator' and c['opcode'] in ('<', '<=', '>', '>=', '!='):
            for x in self.kids(c):
                y = self.strip(x)
                if y['kind'] == 'IntegerLiteral' and abs(int(y['value'])) <= 16: return True
            # both sides fold: allow if difference small
            self.suppress += 1
            try:
                s = st.clone()
                a, b = [self.rv(x, s) for x in self.kids(c)]
            finally: self.suppress -= 1
            if isnum(a) and isnum(b) and abs(num(a) - num(b)) <= 16: return True
        return False

    def loop_number(self, fr, lid):
        """loops are numbered in order of first encounter within the contract that owns them
        (the function's own contract, or the verified function's contract for helpers it inlines)"""
        owner = id(fr.contract)
        key = (owner, self.callpath, lid)
        if key not in self.loopnos:
            self.loopseen[owner] = self.loopseen.get(owner, 0) + 1
            self.loopnos[key] = self.loopseen[owner]
        return self.loopnos[key]

    def frame_env(self, st=None):
        env = {}
        for f in self.stack:
            env.update(f.params); env.update(f.names)
            if st is not None:      # forked paths declare their own copy of a local
                for nm, did in f.decls.items():
                    v = st.env.get(did)
                    if v is not None and nm in f.names: env[nm] = v
        env['this'] = self.stack[-1].this
        if env['this'] is None:
            del env['this']
            for f in reversed(self.stack):
                if f.this is not None: env['this'] = f.this; break
        return env

    def spec_step(self, kind, e, st, node, text, before=None, iter_=None):
        if self.drying: return
        try: self.spec_step1(kind, e, st, node, text, before, iter_)
        except self.specs.Error as z:
            if 'unknown name' not in str(z): raise

    def spec_step1(self, kind, e, st, node, text, before=None, iter_=None):
        old = self.stack[-1].old or self.old0
        if isinstance(kind, tuple):
            v = self.specs.eval(self, e, self.frame_env(st), st, old, before=before, iter_=iter_)
            self.stack[-1].names[kind[1]] = v if isinstance(v, Term) else self.read(st, v)
        elif kind == 'use':
            st.assume(self.specs.use(self, e, self.frame_env(st), st, old, before, iter_))
        else:
            self.oblige(st, 'assert', self.specs.evalb(self, e, self.frame_env(st), st, old, before=before, iter_=iter_), node, '%s: %s' % (text, e.text))

    def unroll(self, n, st, cond, inc, body, isdo, pre):
        total = Outcome()
        cur = [st]
        first = isdo
        for it in range(64):
            nxt = []
            for s in cur:
                if not first:
                    c = self.evcond(cond, s)
                    if c is FALSE: total.normal.append(s); continue
                    if c is not TRUE:
                        raise Unsupported('loop condition stops being constant')
                nxt.append(s)
            first = False
            if not nxt: break
            cur = []
            for s in nxt:
                if pre: pre(s)
                o = self.ex(body, s)
                total.ret += o.ret
                total.normal += o.brk
                for l, v in o.goto.items(): total.goto.setdefault(l, []).extend(v)
                cur += o.normal + o.cont
            if len(cur) > 1 and not self.forking(): cur = [self.merge(cur)]
            if not isdo or True:
                for s in cur: self.doinc(inc, s)
            if isdo and self.const_false(cond, None):
                total.normal += cur; break
        else: raise Unsupported('unrolling bound')
        if len(total.normal) > 1 and not self.forking(): total.normal = [self.merge(total.normal)]
        return total

    def invloop(self, n, st, cond, inc, body, isdo, no, spec, pre, ctr):
        fr = self.stack[-1]
        entry = st.clone()
        line = self.prog.line(fr.tu, n)
        lname = 'loop%s' % no
        # loop counter for $i
        cvar = ctr
        if cvar is None and n['kind'] == 'ForStmt':
            ini = n['inner'][0]
            if ini.get('kind') == 'DeclStmt':
                d = self.kids(ini)[0]; cvar = st.env.get(d['id'])
        if cvar is None and n['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt') and isinstance(cond, dict):
            # a counter declared elsewhere: the variable of the condition that the body steps by one
            for c in self.comparisons(cond):
                for x in self.kids(c):
                    x = self.strip(x)
                    if cvar is None and x['kind'] == 'DeclRefExpr' and self.stepof(n, inc, body, x['referencedDecl'].get('id')):
                        v = st.env.get(x['referencedDecl'].get('id'))
                        if isinstance(v, Lval) and v.ty[0] == 'int': cvar = v
        saved_i = fr.names.get('$i')
        stackname = '$%d' % (no or 0)
        if cvar is not None:
            fr.names['$i'] = cvar; fr.names[stackname] = cvar
        # 1. find the leaves the body modifies (dry run)
        mods = self.dry(st, cond, inc, body, isdo, pre, no)
        mods = {k: v for k, v in mods.items() if self.persists(k, st)}
        # 2. automatic counter bound
        autos = self.auto_bounds(n, st, cond, mods, cvar, entry, inc, body)
        invs = spec.inv if spec else []
        def env(s): return self.frame_env(s)
        def invterms(s):
            if self.drying: return []
            out = [(a(s), 'auto: ' + lab) for a, lab in autos]
            for e in invs:
                try: out.append((self.specs.evalb(self, e, env(s), s, fr.old or self.old0, before=entry), e.text))
                except self.specs.Error as z:      # an invariant over a variable that is not there is left out (neither proved nor assumed)
                    if 'unknown name' not in str(z): raise
            return out
        if spec is None and 'noinv' not in self.modeflags and not self.suppress:
            self.missing_inv.append((self.fname, no, line))
        if spec:
            for k_, e in spec.init: self.spec_step(k_, e, st, n, lname + ' entry', *(self.iters[-1] if self.iters else ()))
        for t, lab in invterms(st):
            self.oblige(st, 'invariant-entry', t, n, '%s: %s' % (lname, lab))
        # 3. arbitrary iteration
        h = st.clone()
        for key, sty in mods.items():
            if sty == ('ptr',):
                raise Unsupported('pointer modified in loop')
            s = self.leafsort(key[1], sty)
            h.mem[key] = self.freshleaf(key, s, sty, key[1])
            if self.writes is not None: self.writes[key] = sty
        for t, lab in invterms(h): h.assume(t)
        total = Outcome()
        b = h.clone()
        ex = None
        if not isdo:
            c = self.evcond(cond, b)
            ex = b.clone(); ex.assume(not_(c), True)
            b.assume(c, True)
        self.cover(b, '%s body (line %d) reachable' % (lname, line))
        dec0 = None
        if spec and spec.dec is not None:
            dec0 = self.specs.eval(self, spec.dec, env(b), b, fr.old or self.old0, before=entry)
            dec0 = dec0 if isinstance(dec0, Term) else self.read(b, dec0)
        elif not self.suppress and n['kind'] != 'CXXForRangeStmt':
            dec0 = self.auto_dec(n, b, cond, cvar)
            if dec0 is None: self.nodec.append((self.fname, no, line))
        head = b.clone()
        if spec:
            if pre: pre(b)
            for k_, e in spec.begin: self.spec_step(k_, e, b, n, lname + ' begin', entry, head)
        elif pre: pre(b)
        self.inloop += 1
        self.iters = self.iters + ((entry, head),)
        try: o = self.ex(body, b)
        finally: self.inloop -= 1; self.iters = self.iters[:-1]
        total.ret += o.ret
        for l, v in o.goto.items(): total.goto.setdefault(l, []).extend(v)
        ends = o.normal + o.cont
        if len(ends) > 1 and not ('forkloops' in self.modeflags or self.forking()) : ends = [self.merge(ends)]
        exits = []
        for s in ends:
            if spec:
                for k_, e in spec.end: self.spec_step(k_, e, s, n, lname + ' end', entry, head)
            self.doinc(inc, s)
            if isdo:
                c = self.evcond(cond, s)
                e2 = s.clone(); e2.assume(not_(c), True); exits.append(e2)
                s.assume(c, True)
            for t, lab in invterms(s):
                self.oblige(s, 'invariant-preserved', t, n, '%s: %s' % (lname, lab))
            if dec0 is not None:
                if spec and spec.dec is not None:
                    d1 = self.specs.eval(self, spec.dec, env(s), s, fr.old or self.old0, before=entry)
                    d1 = d1 if isinstance(d1, Term) else self.read(s, d1)
                else: d1 = self.auto_dec(n, s, cond, cvar)
                self.oblige(s, 'termination', and_(lt(d1, dec0), ge(dec0, I(0))), n, '%s: variant decreases' % lname, assume=False)
        if ex is not None: exits.append(ex)
        exits += o.brk
        if spec:
            for s in exits:
                for k_, e in spec.after: self.spec_step(k_, e, s, n, lname + ' exit', entry, head)
        if len(exits) > 1 and not self.forking(): exits = [self.merge(exits)]
        total.normal = exits
        if saved_i is not None: fr.names['$i'] = saved_i
        return total

    def persists(self, key, st):
        root = key[0]
        if key in st.mem: return True
        if '#' not in root: return True
        for lv in st.env.values():
            if isinstance(lv, Lval) and lv.root == root: return True
        return False

    def auto_dec(self, n, st, cond, cvar):
        if cvar is None or n['kind'] not in ('ForStmt', 'WhileStmt'): return None
        c = self.strip(cond) if isinstance(cond, dict) else None
        if c is None or c['kind'] != 'BinaryOperator' : return None
        self.suppress += 1
        try:
            s = st.clone()
            a, b = [self.rv(x, s) for x in self.kids(c)]
        except PathEnd: return None
        finally: self.suppress -= 1
        if not (isinstance(a, Term) and a.sort == 'Int' and b.sort == 'Int'): return None
        if c['opcode'] in ('<', '!='): return sub(b, a)
        if c['opcode'] == '<=': return add(sub(b, a), I(1))
        if c['opcode'] == '>': return sub(a, b)
        if c['opcode'] == '>=': return add(sub(a, b), I(1))
        return None

    def comparisons(self, cond):
        c = self.strip(cond)
        if c['kind'] == 'BinaryOperator' and c['opcode'] == '&&':
            for x in self.kids(c): yield from self.comparisons(x)
        elif c['kind'] == 'BinaryOperator' and c['opcode'] in ('<', '<=', '>', '>=', '!='): yield c

    def stepof(self, n, inc, body, did):
        """+1 or -1 if the loop changes the variable once per iteration, by one; else 0"""
        def changes(x, out):
            if x is None or not isinstance(x, dict): return out
            k = x.get('kind')
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&') or k == 'CompoundAssignOperator' or k == 'BinaryOperator' and x.get('opcode') == '=':
                t = self.strip(self.kids(x)[0])
                if t['kind'] == 'DeclRefExpr' and t['referencedDecl'].get('id') == did: out.append(x)
            for y in x.get('inner', []): changes(y, out)
            return out
        def amount(x):
            if x['kind'] == 'UnaryOperator': return {'++': 1, '--': -1}.get(x['opcode'], 0)
            if x['kind'] == 'CompoundAssignOperator' and x['opcode'] in ('+=', '-='):
                l = self.strip(self.kids(x)[1])
                if l['kind'] == 'IntegerLiteral' and int(l['value']) == 1: return 1 if x['opcode'] == '+=' else -1
            return 0
        ci = changes(inc, []) if isinstance(inc, dict) else []; cb = changes(body, [])
        if len(ci) + len(cb) != 1: return 0
        if ci: return amount(ci[0])
        top = body.get('inner', []) if body.get('kind') == 'CompoundStmt' else [body]
        for x in top:
            y = self.strip(x) if x.get('kind') in ('ExprWithCleanups', 'ParenExpr') else x
            if y is cb[0] or x is cb[0]: break
        else: return 0
        def has(x, k): return isinstance(x, dict) and (x.get('kind') == k or any(has(y, k) for y in x.get('inner', [])))
        if has(body, 'ContinueStmt'): return 0
        return amount(cb[0])

    def auto_bounds(self, n, st, cond, mods, cvar, entry, inc=None, body=None):
        if cvar is None: return []
        out = []
        init = self.read(entry, cvar)
        if callable(cond):
            out.append((lambda s: le(I(0), self.read(s, cvar)), 'counter >= 0'))
            return out
        if not isinstance(cond, dict) or not isinstance(cvar, Lval): return out
        found = None
        for c in self.comparisons(cond):
            l, r = self.kids(c); opc = c['opcode']
            for l, r, opc in ((l, r, opc), (r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(opc, opc))):
                ls = self.strip(l)
                if found is None and ls['kind'] == 'DeclRefExpr' and st.env.get(ls['referencedDecl'].get('id')) is cvar:
                    sp = self.stepof(n, inc, body, ls['referencedDecl']['id'])
                    if sp: found = (r, opc, sp)
        if found is None: return out
        r, opc, sp = found
        up, down = sp > 0, sp < 0
        self.suppress += 1
        try:
            s = entry.clone()
            bound = self.rv(r, s)
            # bound must not depend on modified leaves
            h = entry.clone()
            for key, sty in mods.items():
                if sty == ('ptr',): return out
                h.mem[key] = fresh('probe', self.leafsort(key[1], sty))
            bound2 = self.rv(r, h)
        except PathEnd: return out
        finally: self.suppress -= 1
        if up:
            out.append((lambda s: le(init, self.read(s, cvar)), 'counter >= initial value'))
            if bound is bound2 and opc in ('<', '!='):
                out.append((lambda s: or_(le(self.read(s, cvar), bound), eq(self.read(s, cvar), init)), 'counter <= bound'))
            elif bound is bound2 and opc == '<=':
                out.append((lambda s: or_(le(self.read(s, cvar), add(bound, I(1))), eq(self.read(s, cvar), init)), 'counter <= bound+1'))
        if down:
            out.append((lambda s: le(self.read(s, cvar), init), 'counter <= initial value'))
        return out

    def dry(self, st, cond, inc, body, isdo, pre, no):
        saved = self.writes
        sv_rootno = self.rootno
        self.suppress += 1; self.drying += 1
        mods = {}
        fr = self.stack[-1]
        names = dict(fr.names)
        try:
            for _ in range(3):
                self.writes = {}
                s = st.clone()
                for key, sty in mods.items():
                    if sty != ('ptr',): s.mem[key] = self.freshleaf(key, self.leafsort(key[1], sty), sty, key[1])
                try:
                    if not isdo: self.evcond(cond, s)
                    if pre: pre(s)
                    o = self.ex(body, s)
                    ends = o.normal + o.cont
                    if ends:
                        e = self.merge(ends) if len(ends) > 1 else ends[0]
                        self.doinc(inc, e)
                        if isdo: self.evcond(cond, e)
                except PathEnd: pass
                new = {k: v for k, v in self.writes.items() if self.persists(k, st)}
                if set(new) <= set(mods): break
                mods.update(new)
        finally:
            self.suppress -= 1; self.drying -= 1
            fr.names = names
            w = self.writes
            self.writes = saved
            if saved is not None:
                saved.update(mods)
        return mods

class PathEnd(Exception):
    pass

def is_uninit(t):
    return t.op == 'const' and t.args[0].startswith('uninit.')

def norm_sig(s):
    s = re.sub(r'\bnoexcept(\(.*?\))?', '', s)
    s = s.replace('slsm::', '').replace('struct ', '').replace('class ', '')
    s = re.sub(r'std::vector<(.*?), std::allocator<.*?> ?>', r'std::vector<\1>', s)
    return re.sub(r'\s+', '', s)

def is_copy_sig(sig, rec):
    r = rec.split('::')[-1]
    return norm_sig(sig) in ('void(const%s&)' % r, 'void(%s&&)' % r)
