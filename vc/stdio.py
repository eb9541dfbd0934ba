"""Files, streams and strings as ghost values.

 - a string is an opaque integer: a literal is the number its bytes spell, concatenation is the uninterpreted
   `scat` (adjacent literals are joined), a formatted integer is `padded(width, fill, adjust, n)`;
 - the file being written is the ghost record `outfile` (name, open, kind[], val[]): one entry per character, one per
   formatted number (kind 1000: %lf, 1001: %d/%u) and one per binary double (kind 1002);
 - the file being read is the ghost record `infile` (name, line, pos, fail); its content are the uninterpreted
   in_lines(name), in_count(name), in_num(name, k) (numbers separated by white space) and in_doubles(name), in_bin(name, k);
 - canwrite(name) / canread(name): whether opening succeeds."""
import re, ast
from .terms import *
from . import exec as X

OUT = ('rec', '$outfile'); IN = ('rec', '$infile')
STR = ('opaque', '$string')
RECS = {'$outfile': [('name', STR), ('open', ('bool',)), ('kind', ('vec', ('int', 64, True))), ('val', ('vec', ('double',)))],
        '$infile': [('name', STR), ('fail', ('bool',)), ('line', ('int', 64, True)), ('pos', ('int', 64, True))]}
def register(prog):
    for n, fs in RECS.items():
        if n not in prog.records: prog.records[n] = dict(fields=[(a, t, None, None) for a, t in fs], name=n)
def ghost(name):
    return X.Lval('outfile', (), OUT) if name == 'outfile' else X.Lval('infile', (), IN)

def code(s): return int.from_bytes(b'\x01' + s.encode('latin-1', 'replace'), 'big')
EMPTY = code('')
def text(i): return i.to_bytes((i.bit_length() + 7)//8, 'big')[1:].decode('latin-1')
def lit(s): return I(code(s))
def cliteral(v):
    """the text of a C string literal as clang prints it"""
    try: return ast.literal_eval(v)
    except Exception: return v.strip('"')
def scat(a, b):
    if isnum(a) and num(a) == EMPTY: return b
    if isnum(b) and num(b) == EMPTY: return a
    if isnum(a) and isnum(b): return lit(text(int(num(a))) + text(int(num(b))))
    if isnum(b) and a.op == 'app' and a.args[0] == 'scat' and isnum(a.args[2]): return scat(a.args[1], scat(a.args[2], b))
    if b.op == 'app' and b.args[0] == 'scat': return scat(scat(a, b.args[1]), b.args[2])
    if b.op == 'ite': return ite(b.args[0], scat(a, b.args[1]), scat(a, b.args[2]))
    if a.op == 'ite': return ite(a.args[0], scat(a.args[1], b), scat(a.args[2], b))
    return app('scat', (a, b), 'Int')

def is_string(t): return t[0] == 'opaque' and bool(re.search(r'\$string|basic_string<|(^|::)string$|string_type$', t[1]))
def is_stream(t): return t[0] == 'opaque' and bool(re.search(r'stream', t[1]))
def which(t):
    n = t[1]
    if re.search(r'stringstream', n): return 'str'
    if re.search(r'ofstream', n): return 'out'
    if re.search(r'ifstream', n): return 'in'
    return None

def sval(ex, v, st):
    if isinstance(v, X.StrVal): return lit(cliteral(v.s))
    if isinstance(v, Term): return v
    if isinstance(v, X.Lval) and is_string(v.ty): return ex.read(st, v)
    raise X.Unsupported('string value %r' % (v,))

def fld(ex, st, name, f): return ex.read(st, ex.member(st, ghost(name), f))
def put(ex, st, name, f, v): ex.write(st, ex.member(st, ghost(name), f), v)
def emit(ex, st, kind, val=None):
    k = ex.member(st, ghost('outfile'), 'kind'); v = ex.member(st, ghost('outfile'), 'val')
    n = ex.read(st, ex.size_lv(k))
    ex.write(st, X.Lval(k.root, k.path + (n,), k.ty[1]), kind if isinstance(kind, Term) else I(kind))
    if val is not None: ex.write(st, X.Lval(v.root, v.path + (n,), v.ty[1]), to_real(val))
    ex.write(st, ex.size_lv(k), add(n, I(1)))
def reset_out(ex, st, name):
    put(ex, st, 'outfile', 'name', name); put(ex, st, 'outfile', 'open', TRUE)
    ex.write(st, ex.size_lv(ex.member(st, ghost('outfile'), 'kind')), I(0))

# ---- streams: the formatting state of a string stream lives in leaves of its own object
def sleaf(lv, f): return (lv.root, lv.key()[1] + ('$' + f,))
def sget(ex, st, lv, f): return ex.leaf_get(st, sleaf(lv, f), ('opaque', '$string'))
def sput(ex, st, lv, f, v): ex.leaf_write(st, sleaf(lv, f), (), v, ('opaque', '$string'))
STREAMS = {}      # object root -> ghost it writes or reads

def declare(ex, ty, lv, init, st):
    """definition of a stream object"""
    w = which(ty)
    e = init
    while e is not None and e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr'): e = ex.kids(e)[0]
    args = [a for a in (ex.kids(e) if e is not None else []) if a['kind'] != 'CXXDefaultArgExpr']
    if w == 'str':
        if args: raise X.Unsupported('string stream with an initial value')
        for f, v in (('text', I(EMPTY)), ('width', I(0)), ('fill', I(32)), ('adj', I(0))): sput(ex, st, lv, f, v)
        return
    if not args: raise X.Unsupported('file stream that is opened later')
    name = sval(ex, ex.ev(args[0], st), st)
    if w == 'out':
        if len(args) > 1 and app_mode(args[1]) & {'app', 'ate', 'in'}: raise X.Unsupported('open mode')
        reset_out(ex, st, name)
        sput(ex, st, lv, 'good', ite(app('canwrite', (name,), 'Bool'), I(1), I(0)))
    else:
        put(ex, st, 'infile', 'name', name); put(ex, st, 'infile', 'line', I(0)); put(ex, st, 'infile', 'pos', I(0))
        put(ex, st, 'infile', 'fail', not_(app('canread', (name,), 'Bool')))

def app_mode(n, out=None):
    out = set() if out is None else out
    if n['kind'] == 'DeclRefExpr': out.add(n['referencedDecl'].get('name'))
    for c in n.get('inner', []): app_mode(c, out)
    return out

def nargs(args): return [a for a in args if a['kind'] != 'CXXDefaultArgExpr']

def binary(ex, args, n, st):
    """(char*)&v[k], bytes -> the vector, first index and number of doubles"""
    a = args[0]
    while a['kind'] in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'ImplicitCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr'): a = ex.kids(a)[0]
    if a['kind'] == 'CXXMemberCallExpr':
        p = ex.ev(a, st)
        if not (isinstance(p, X.PtrVal) and len(p.alts) == 1 and p.alts[0][1].ty == ('vec', ('double',))): raise X.Unsupported('binary buffer')
        v, off = p.alts[0][1], I(0)
    else:
        p = ex.rv(a, st)
        if not isinstance(p, X.PtrVal) or len(p.alts) != 1 or p.alts[0][1] is None: raise X.Unsupported('binary buffer')
        l = p.alts[0][1]
        if l.ty != ('double',) or not l.path or not isinstance(l.path[-1], Term): raise X.Unsupported('binary buffer of %r' % (l.ty,))
        v, off = X.Lval(l.root, l.path[:-1], ('vec', ('double',))), l.path[-1]
    nb = ex.rv(args[1], st)
    cnt = None
    if nb.op == '*' and any(isnum(x) and num(x) == 8 for x in nb.args):
        rest = list(nb.args); rest.remove(next(x for x in rest if isnum(x) and num(x) == 8))
        cnt = rest[0] if len(rest) == 1 else None
    if isnum(nb) and num(nb) % 8 == 0: cnt = I(int(num(nb))//8)
    if cnt is None:
        cnt = fresh('cnt', 'Int')
        ex.oblige(st, 'requires', eq(imod(nb, I(8)), I(0)), n, 'a whole number of doubles')
        st.assume(eq(mul(I(8), cnt), nb))
    ex.oblige(st, 'bounds', and_(le(I(0), cnt), le(add(off, cnt), ex.read(st, ex.size_lv(v)))), n, 'the doubles written or read lie in the vector')
    return v, off, cnt

def member(ex, name, b, args, n, st):
    ty = b.ty if isinstance(b, (X.Lval, X.CLval)) else None
    args = nargs(args)
    if ty is not None and is_string(ty) or isinstance(b, (Term, X.StrVal)):
        s = sval(ex, b, st)
        if name in ('c_str', 'data', 'str'): return s
        if name == 'empty': return eq(s, I(EMPTY))
        if name in ('size', 'length'):
            v = app('slength', (s,), 'Int'); st.assume(and_(ge(v, I(0)), eq(eq(v, I(0)), eq(s, I(EMPTY))))); return v
        raise X.Unsupported('string method ' + name)
    if ty is None or not is_stream(ty): return NotImplemented
    w = which(ty)
    if w == 'str':
        if name == 'str' and args: sput(ex, st, b, 'text', sval(ex, ex.ev(args[0], st), st)); return None
        if name == 'str': return sget(ex, st, b, 'text')
        if name in ('width', 'fill') and args: sput(ex, st, b, name, ex.rv(args[0], st)); return I(0)
        if name == 'clear': return None
    if w == 'out':
        if name in ('good', 'is_open', 'operator bool'): return eq(sget(ex, st, b, 'good'), I(1))
        if name in ('fail', 'bad'): return ne(sget(ex, st, b, 'good'), I(1))
        if name in ('close', 'flush'):
            if name == 'close': put(ex, st, 'outfile', 'open', FALSE)
            return None
        if name == 'write':
            ex.oblige(st, 'requires', eq(sget(ex, st, b, 'good'), I(1)), n, 'the file written to is open')
            v, off, cnt = binary(ex, args, n, st)
            k = ex.member(st, ghost('outfile'), 'kind'); u = ex.member(st, ghost('outfile'), 'val')
            len0 = ex.read(st, ex.size_lv(k))
            K, V = ex.sub_read(st, k, ('[]',), k.ty[1]), ex.sub_read(st, u, ('[]',), u.ty[1]); S = ex.sub_read(st, v, ('[]',), v.ty[1])
            K2, V2 = fresh('written.kind', Arr('Int')), fresh('written.val', Arr('Real'))
            j = freshb('j', 'Int')
            inside = and_(le(len0, j), lt(j, add(len0, cnt)))
            st.assume(forall([j], eq(select(K2, j), ite(inside, I(1002), select(K, j))), [select(K2, j)]))
            st.assume(forall([j], eq(select(V2, j), ite(inside, select(S, add(off, sub(j, len0))), select(V, j))), [select(V2, j)]))
            ex.leaf_write(st, (k.root, k.key()[1] + ('[]',)), k.idx(), K2, k.ty[1])
            ex.leaf_write(st, (u.root, u.key()[1] + ('[]',)), u.idx(), V2, u.ty[1])
            ex.write(st, ex.size_lv(k), add(len0, cnt))
            return b
    if w == 'in':
        nm = fld(ex, st, 'infile', 'name'); fail = fld(ex, st, 'infile', 'fail')
        if name in ('good', 'is_open', 'operator bool'): return not_(fail)
        if name == 'fail': return fail
        if name == 'clear': put(ex, st, 'infile', 'fail', FALSE); return None
        if name == 'close': return None
        if name == 'seekg':
            o = ex.rv(args[0], st)
            if not (isnum(o) and num(o) == 0): raise X.Unsupported('seekg')
            if len(args) > 1 and 'beg' not in app_mode(args[1]): raise X.Unsupported('seekg')
            for f in ('line', 'pos'): put(ex, st, 'infile', f, ite(fail, fld(ex, st, 'infile', f), I(0)))
            return b
        if name == 'read':
            v, off, cnt = binary(ex, args, n, st)
            S = ex.sub_read(st, v, ('[]',), v.ty[1]); S2 = fresh('loaded', Arr('Real')); j = freshb('j', 'Int')
            tot = app('in_doubles', (nm,), 'Int')
            ok = not_(fail)
            p0 = fld(ex, st, 'infile', 'pos')
            inside = and_(ok, le(off, j), lt(j, add(off, cnt)), lt(add(p0, sub(j, off)), tot))
            # the bytes of a last incomplete double, if any, are unknown
            part = and_(ok, le(off, j), lt(j, add(off, cnt)), eq(add(p0, sub(j, off)), tot))
            st.assume(forall([j], implies(not_(part), eq(select(S2, j), ite(inside, app('in_bin', (nm, add(p0, sub(j, off))), 'Real'), select(S, j)))), [select(S2, j)]))
            ex.leaf_write(st, (v.root, v.key()[1] + ('[]',)), v.idx(), S2, v.ty[1])
            short = lt(sub(tot, p0), cnt)
            put(ex, st, 'infile', 'pos', ite(fail, p0, add(p0, cnt))); put(ex, st, 'infile', 'fail', or_(fail, short))
            return b
        if name == 'gcount': raise X.Unsupported('gcount')
    raise X.Unsupported('stream method %s' % name)

def insert(ex, s, b, st, n):
    """stream << value"""
    if which(s.ty) != 'str': raise X.Unsupported('formatted output to %s' % (s.ty,))
    t = b
    while t['kind'] in ('ImplicitCastExpr', 'ParenExpr') and ex.kids(t): t = ex.kids(t)[0]
    if t['kind'] == 'DeclRefExpr' and t['referencedDecl'].get('name') in ('right', 'left', 'internal', 'dec'):
        if t['referencedDecl']['name'] != 'dec': sput(ex, st, s, 'adj', I({'right': 0, 'left': 1, 'internal': 2}[t['referencedDecl']['name']]))
        return s
    v = ex.ev(b, st)
    if isinstance(v, X.FuncVal) and v.kind == 'manip':
        sput(ex, st, s, v.what, v.value); return s
    ty = ex.nty(b)
    if isinstance(v, X.Lval) and not is_string(v.ty): v = ex.read(st, v)
    w = sget(ex, st, s, 'width')
    if ty[0] == 'int' and isinstance(v, Term):
        if ty[1] == 8: raise X.Unsupported('character inserted into a stream')
        piece = app('padded', (w, sget(ex, st, s, 'fill'), sget(ex, st, s, 'adj'), v), 'Int')
    else:
        piece = sval(ex, v, st)
        if not (isnum(w) and num(w) == 0): piece = app('spadded', (w, sget(ex, st, s, 'fill'), sget(ex, st, s, 'adj'), piece), 'Int')
    sput(ex, st, s, 'text', scat(sget(ex, st, s, 'text'), piece)); sput(ex, st, s, 'width', I(0))
    return s

def extract(ex, s, a, st, n):
    """stream >> number"""
    if which(s.ty) != 'in' or ex.nty(a)[0] != 'double': raise X.Unsupported('formatted input')
    lv = ex.ev(a, st)
    nm = fld(ex, st, 'infile', 'name'); fail = fld(ex, st, 'infile', 'fail'); pos = fld(ex, st, 'infile', 'pos')
    ok = and_(not_(fail), lt(pos, app('in_count', (nm,), 'Int')))
    ex.write(st, lv, ite(ok, app('in_num', (nm, pos), 'Real'), fresh('unread', 'Real')))
    put(ex, st, 'infile', 'pos', ite(ok, add(pos, I(1)), pos)); put(ex, st, 'infile', 'fail', not_(ok)); put(ex, st, 'infile', 'line', fresh('line', 'Int'))
    return s

def oper(ex, name, args, n, st):
    s = ex.ev(args[0], st)
    if isinstance(s, X.Lval) and is_stream(s.ty) and which(s.ty):
        if name == 'operator<<': return insert(ex, s, args[1], st, n)
        if name == 'operator>>': return extract(ex, s, args[1], st, n)
        if name == 'operator!': return not_(member(ex, 'good', s, [], n, st))
        if name == 'operator bool': return member(ex, 'good', s, [], n, st)
    for a in args[1:]: ex.ev(a, st)
    return fresh('opaque', 'Bool') if name == 'operator!' else X.Opaque('stream')

SPEC = re.compile(r'%([-+ #0]*)(\d+)?(?:\.(\d+))?(hh|h|ll|l|L|z)?([a-zA-Z%])')
def fprintf(ex, args, n, st):
    f = ex.ev(args[0], st)
    if isinstance(f, X.Lval) and f.ty[0] == 'ptr': f = ex.read(st, f)
    if not isinstance(f, X.PtrVal):
        for a in args[1:]: ex.ev(a, st)           # a message on the terminal
        return I(0)
    ex.deref(st, f)
    ex.oblige(st, 'requires', fld(ex, st, 'outfile', 'open'), n, 'the file written to is open')
    fm = ex.ev(args[1], st)
    if not isinstance(fm, X.StrVal): raise X.Unsupported('format that is not a literal')
    s = cliteral(fm.s); vals = args[2:]; i = 0; k = 0
    while i < len(s):
        if s[i] != '%': emit(ex, st, ord(s[i])); i += 1; continue
        m = SPEC.match(s, i)
        if not m: raise X.Unsupported('format ' + s)
        i = m.end()
        if m.group(5) == '%': emit(ex, st, 37); continue
        if m.group(5) == 's' and m.group() == '%s':
            puts(ex, sval(ex, ex.ev(vals[k], st), st), st); k += 1; continue
        v = ex.rv(vals[k], st) if not isinstance(ex.nty(vals[k]), str) else None; k += 1
        plain = not m.group(1) and not m.group(2) and m.group(3) in (None, '6' if m.group(5) == 'f' else None)
        if m.group(5) == 'f' and isinstance(v, Term) and v.sort == 'Real': emit(ex, st, 1000 if plain else 2000 + hash_(m.group()), v)
        elif m.group(5) in 'diu' and isinstance(v, Term) and v.sort == 'Int': emit(ex, st, 1001 if plain else 2000 + hash_(m.group()), v)
        elif m.group(5) == 's': raise X.Unsupported('text inserted into a file')
        else: ex.oblige(st, 'requires', FALSE, n, 'the argument has the type its conversion %s asks for' % m.group())
    if k != len(vals): ex.oblige(st, 'requires', FALSE, n, 'as many arguments as conversions')
    return I(0)
def puts(ex, v, st):
    if not isnum(v): raise X.Unsupported('text inserted into a file')
    for ch in text(int(num(v))): emit(ex, st, ord(ch))
def hash_(s):
    h = 7
    for c in s: h = (h*131 + ord(c)) % 1000003
    return h

def cfunc(ex, name, args, n, st):
    if name == 'fprintf': return fprintf(ex, args, n, st)
    if name == 'fopen':
        nm = sval(ex, ex.ev(args[0], st), st); mode = sval(ex, ex.ev(args[1], st), st)
        if not isnum(mode) or text(int(num(mode))) not in ('w', 'wt', 'wb'): raise X.Unsupported('fopen mode')
        ok = app('canwrite', (nm,), 'Bool')
        ex.oblige(st, 'requires', not_(fld(ex, st, 'outfile', 'open')), n, 'one file is written at a time')
        reset_out(ex, st, nm)
        put(ex, st, 'outfile', 'open', ok)
        return X.PtrVal([(ok, X.Lval('FILE', (), ('opaque', 'FILE'))), (not_(ok), None)])
    if name in ('fputs', 'fputc', 'putc'):
        f = ex.ev(args[1], st)
        if isinstance(f, X.Lval) and f.ty[0] == 'ptr': f = ex.read(st, f)
        v = sval(ex, ex.ev(args[0], st), st) if name == 'fputs' else ex.rv(args[0], st)
        if not isinstance(f, X.PtrVal): return I(0)
        ex.deref(st, f)
        ex.oblige(st, 'requires', fld(ex, st, 'outfile', 'open'), n, 'the file written to is open')
        if name == 'fputs': puts(ex, v, st)
        else: emit(ex, st, num(v) if isnum(v) else v)
        return I(0)
    if name == 'fclose':
        f = ex.ev(args[0], st)
        if isinstance(f, X.Lval): f = ex.read(st, f)
        ex.deref(st, f)
        ex.oblige(st, 'requires', fld(ex, st, 'outfile', 'open'), n, 'the file closed is open')
        put(ex, st, 'outfile', 'open', FALSE)
        return I(0)
    if name == 'getline':
        s = ex.ev(args[0], st); t = ex.ev(args[1], st)
        if not (isinstance(s, X.Lval) and which(s.ty) == 'in') or len(nargs(args)) != 2: raise X.Unsupported('getline')
        nm = fld(ex, st, 'infile', 'name'); fail = fld(ex, st, 'infile', 'fail'); line = fld(ex, st, 'infile', 'line')
        ok = and_(not_(fail), lt(line, app('in_lines', (nm,), 'Int')))
        put(ex, st, 'infile', 'line', ite(ok, add(line, I(1)), line)); put(ex, st, 'infile', 'fail', not_(ok)); put(ex, st, 'infile', 'pos', fresh('pos', 'Int'))
        ex.write(st, t, app('in_line', (nm, line), 'Int'))
        return s
    if name in ('setw', 'setfill'):
        return X.FuncVal('manip', what={'setw': 'width', 'setfill': 'fill'}[name], value=ex.rv(args[0], st))
    return NotImplemented

def hook(ex, name, b, args, n, st):
    if b is not None: return member(ex, name, b, args, n, st)
    if name.startswith('operator'): return oper(ex, name, args, n, st)
    return cfunc(ex, name, args, n, st)
