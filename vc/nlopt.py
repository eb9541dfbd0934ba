"""NLopt (not installed, external): the optimiser object as src/Optimise.cpp uses it.

An `nlopt::opt` of dimension n keeps copies of the two bound vectors it was given.  optimize(x, f) may
call the registered functions any number of times, and then either returns any result code or throws
(nlopt::roundoff_limited, std::invalid_argument; other exceptions leave the caller).  Either way x has
become any vector of the same length within the bounds, f any number.  What the calls back into
Optimise::callback may do is taken from the contract of that function: its requires clauses have to hold
at the call for every function index and every x of length n, its assigns clause is what may have changed, and of
that only what its postcondition keeps (displacements of fixed points)."""
import re
from .terms import *

class _Late:
    def __getattr__(self, k):
        from . import exec as m
        return getattr(m, k)
X = _Late()

def is_opt(ty): return ty[0] == 'opaque' and bool(re.search(r'\bnlopt::opt$|^opt$', str(ty[1])))
def dim(): return X.Lval('nlopt#n', (), ('int', 32, False))
def bound(which): return X.Lval('nlopt#' + which, (), ('vec', ('double',)))

def construct(ex, args, n, st):
    a = [ex.rv(x, st) for x in args]
    if len(a) == 2 and isinstance(a[1], Term): ex.write(st, dim(), a[1])
    return X.Opaque(('opaque', 'nlopt::opt'))

def call(ex, name, b, args, n, st):
    ex.assumptions.add('NLopt (external, not installed): optimize leaves its vector argument within the bounds it was given, calls only the registered functions, and throws nothing but C++ exceptions')
    if name in ('set_lower_bounds', 'set_upper_bounds'):
        v = ex.ev(args[0], st)
        ex.oblige(st, 'precondition', eq(ex.read(st, ex.size_lv(v)), ex.read(st, dim())), n, 'bounds have the dimension of the optimiser')
        ex.copy(st, bound('lower' if 'lower' in name else 'upper'), v)
        return None
    if name == 'optimize':
        x = ex.ev(args[0], st); f = ex.ev(args[1], st)
        nn = ex.read(st, dim())
        for v, t in ((x, 'starting point has'), (bound('lower'), 'lower bounds have'), (bound('upper'), 'upper bounds have')):
            ex.oblige(st, 'precondition', eq(ex.read(st, ex.size_lv(v)), nn), n, t + ' the dimension of the optimiser')
        tc = ex.stack[-1].contract
        if tc is not None:
            for k_, e in tc.calls.get(('before_call', 'optimize'), ()): ex.call_hook(k_, e, st, n, 'before optimize', {})
        before = st.clone()
        this = ex.stack[-1].this
        con = next((c for c in ex.specs.contracts if c.key.startswith('Optimise::callback')), None)
        if con is None or isinstance(this, type(None)): raise X.Unsupported('optimize outside of Optimise')
        pt = X.Lval(ex.newroot('point'), (), ('vec', ('double',)))
        gr = X.Lval(ex.newroot('grad'), (), ('vec', ('double',)))
        ix = fresh('index', 'Int')
        ob = st.clone()
        ex.write(ob, ex.size_lv(pt), nn)
        ob.assume(and_(le(I(0), ix), lt(ix, nn)))
        fcb = next(f_ for f_ in (ex.prog.funcs[m] for m in ex.prog.byname['Optimise::callback']) if f_['body'] is not None)
        env = ex.call_env(fcb, con, this, [pt, gr, ix], ob)
        ex.used_contracts.add(con.key)
        for e in con.requires:
            ex.oblige(ob, 'precondition', ex.specs.evalb(ex, e[0] if isinstance(e, tuple) else e, env, ob, ob), n, 'every call back satisfies: ' + (e[0] if isinstance(e, tuple) else e).text, assume=False)
        # effects
        for lv_text in ('displacements',):
            lv = ex.member(st, this, lv_text)
            key = (lv.root, lv.key()[1] + ('[]',))
            ex.leaf_write(st, key, lv.idx(), fresh('displacements.opt', Arr('Real')), ('double',))
        k = freshb('k', 'Int')
        from .spec import Parser
        stable = Parser('forall(i; {displacements[i]} 0 <= i < nPoints && boundaryPoints[i].isFixed; displacements[i] == old(displacements[i]))', '<nlopt>').expr()
        st.assume(ex.specs.evalb(ex, stable, ex.frame_env(st), st, before))
        arr = fresh('optimum', Arr('Real'))
        ex.leaf_write(st, (x.root, x.key()[1] + ('[]',)), x.idx(), arr, ('double',))
        lo = ex.leaf_get(st, ('nlopt#lower', ('[]',)), ('double',)); hi = ex.leaf_get(st, ('nlopt#upper', ('[]',)), ('double',))
        if not ex.drying: st.assume(ne(select(arr, I(0)), R(0)))
        ex.assumptions.add('NLopt: the multiplier of the objective in the answer is not zero (velocities are undefined otherwise, see the comment in computeLambdaLimits)')
        st.assume(forall([k], implies(and_(le(I(0), k), lt(k, nn)), and_(le(select(lo, k), select(arr, k)), le(select(arr, k), select(hi, k)))), [select(arr, k)]))
        ex.write(st, f, fresh('optvalue', 'Real'))
        if tc is not None:
            for k_, e in tc.calls.get(('after_call', 'optimize'), ()):
                ex.call_hook(k_, e, st, n, 'after optimize', {})
        if ex.trystack:
            t = fresh('throws', 'Bool'); z = st.clone()
            z.assume(t, True); st.assume(not_(t), True)
            ex.trystack[-1].append(z)
        return fresh('opt.result', 'Int')
    if name.startswith('add_') or name.endswith('_objective'):
        for a in args[1:]:
            a = ex.strip(a)
            if a['kind'] == 'UnaryOperator' and a.get('opcode') == '&': ex.ev(a, st)
        return None
    if name.startswith('set_'):
        for a in args: ex.ev(a, st)
        return None
    raise X.Unsupported('nlopt::opt::' + name)
