"""Mechanical extraction: clang's JSON AST of /repo's current sources -> program tables.
Nothing is rewritten: the verifier interprets the clang nodes themselves."""
import json, subprocess, os, re

class ExtractionError(Exception):
    pass

# ---------------------------------------------------------------- types
def norm_name(n):
    n = n.strip()
    for p in ('class ', 'struct ', 'enum '):
        if n.startswith(p): n = n[len(p):]
    n = n.replace('slsm::', '')
    return n

# stands in for library headers that are not installed (NLopt), declarations only matter
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'stub')
INTS = {
 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
 'unsigned long': (64, False), 'size_t': (64, False), 'std::size_t': (64, False), 'short': (16, True),
 'unsigned short': (16, False), 'char': (8, True), 'unsigned char': (8, False), 'signed char': (8, True),
 'long long': (64, True), 'unsigned long long': (64, False), 'ptrdiff_t': (64, True),
 'std::ptrdiff_t': (64, True), 'uint32_t': (32, False), 'int32_t': (32, True), 'uint64_t': (64, False),
 'int64_t': (64, True), '__size_t': (64, False), 'std::streamsize': (64, True),
 'nlopt::result': (32, True), 'nlopt::algorithm': (32, True), 'std::uint32_t': (32, False), 'long int': (64, True), 'long unsigned int': (64, False),
}

def split_targs(s):
    out = []; depth = 0; cur = ''
    for ch in s:
        if ch in '<([': depth += 1
        if ch in '>)]': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

_tcache = {}
def parse_type(s):
    if s in _tcache: return _tcache[s]
    t = _parse_type(s)
    _tcache[s] = t
    return t

def _parse_type(s):
    s = s.strip()
    m = re.search(r'\(.*\)$', s)
    if s.endswith(']'):
        # find matching bracket of the first array dimension
        i = s.index('[') if '<' not in s.split('[')[0] else s.rindex('[')
        base = s[:i]; dims = s[i:]
        d = re.findall(r'\[([^\]]*)\]', dims)
        t = parse_type(base)
        for x in reversed(d):
            n = int(x) if x.strip().isdigit() else None
            t = ('arr', t, n)
        return t
    if s.endswith('&&'): return ('ref', parse_type(s[:-2]))
    if s.endswith('&'): return ('ref', parse_type(s[:-1]))
    if s.endswith('*const'): return ('ptr', parse_type(s[:-6]))
    if s.endswith('* const'): return ('ptr', parse_type(s[:-7]))
    if s.endswith('*'): return ('ptr', parse_type(s[:-1]))
    s2 = re.sub(r'^(const |volatile )+', '', s)
    s2 = re.sub(r'( const| volatile)+$', '', s2).strip()
    if s2 != s: return parse_type(s2)
    if s in ('double', 'float', 'long double'): return ('double',)
    if s in ('bool', '_Bool'): return ('bool',)
    if s == 'void': return ('void',)
    if s in INTS: return ('int',) + INTS[s]
    m = re.match(r'^(?:std::)?vector<(.*)>$', s)
    if m:
        return ('vec', parse_type(split_targs(m.group(1))[0]))
    m = re.match(r'^(?:std::)?array<(.*)>$', s)
    if m:
        a = split_targs(m.group(1))
        return ('arr', parse_type(a[0]), int(re.match(r'\d+', a[1]).group(0)))
    m = re.match(r'^(?:std::)?vector<.*>::size_type$', s)
    if m: return ('int', 64, False)
    if s.startswith('std::function<'): return ('func',)
    if s.endswith('::size_type') or s.endswith('::difference_type'):
        return ('int', 64, s.endswith('difference_type'))
    n = norm_name(s)
    return ('name', n)

def tstr(t):
    return repr(t)

class TU:
    def __init__(self, path):
        self.path = path
        self.decls = {}      # id -> node
        self.parent = {}     # id -> (qualified scope)
        self.qual = {}

class Program:
    def __init__(self, repo, files, extra_flags=()):
        self.repo = repo
        self.records = {}    # name -> dict(fields=[(name,type,init,tu)], bases)
        self.enums = {}      # name -> {enumerator: value}
        self.funcs = {}      # mangled -> dict
        self.byname = {}     # qualified name -> [mangled]
        self.tus = []
        self.globals = {}
        self.src = {}
        for f in files:
            self.load(f, extra_flags)

    def load(self, f, extra):
        path = os.path.join(self.repo, 'src', f) if not f.startswith('/') else f
        cmd = ['clang++', '-std=c++11', '-DNDEBUG', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
               '-Xclang', '-ast-dump-filter=slsm', '-idirafter', STUB] + list(extra) + [path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ExtractionError('clang cannot parse %s:\n%s' % (f, p.stderr.decode(errors='replace')[:2000]))
        txt = p.stdout.decode(errors='replace')
        dec = json.JSONDecoder()
        i = 0; n = len(txt)
        tu = TU(path)
        self.tus.append(tu)
        docs = []
        while True:
            while i < n and txt[i] in ' \r\n\t': i += 1
            if i >= n: break
            if txt[i] != '{':
                j = txt.find('\n', i)
                if j < 0: break
                i = j + 1; continue
            obj, i = dec.raw_decode(txt, i)
            docs.append(obj)
        for d in docs:
            self.index(tu, d, ())
        for d in docs:
            self.collect(tu, d)

    def index(self, tu, node, scope):
        k = node.get('kind')
        nid = node.get('id')
        sc = scope
        if nid and k and k.endswith('Decl'):
            tu.decls[nid] = node
            tu.qual[nid] = scope
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'EnumDecl') and node.get('name'):
                sc = scope + (node['name'],)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                sc = scope + (node.get('name', ''),)
        for c in node.get('inner', ()):
            if isinstance(c, dict): self.index(tu, c, sc)

    def qualname(self, tu, node):
        pid = node.get('parentDeclContextId')
        if pid and pid in tu.decls:
            p = tu.decls[pid]
            return self.qualname(tu, p) + (node.get('name', ''),)
        return tu.qual[node['id']] + (node.get('name', ''),)

    def collect(self, tu, node):
        k = node.get('kind')
        if k == 'EnumDecl' and node.get('name') and not node.get('isImplicit'):
            name = '::'.join(x for x in self.qualname(tu, node) if x != 'slsm')
            vals = {}; cur = -1
            for c in node.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    v = find_value(c)
                    cur = v if v is not None else cur + 1
                    vals[c['name']] = cur
                    c['_value'] = cur
            self.enums[name] = vals
        elif k == 'CXXRecordDecl' and node.get('completeDefinition') and not node.get('isImplicit'):
            name = '::'.join(x for x in self.qualname(tu, node) if x != 'slsm')
            fields = []
            for c in node.get('inner', ()):
                if c.get('kind') == 'FieldDecl':
                    init = None
                    for x in c.get('inner', ()):
                        if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator')) or x.get('kind') == 'ExprWithCleanups':
                            init = x
                    fields.append((c['name'], node_type(c), init, tu))
            self.records[name] = {'fields': fields, 'tu': tu, 'node': node}
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            self.add_func(tu, node)
        elif k == 'VarDecl' and node.get('id') in tu.decls:
            name = '::'.join(x for x in self.qualname(tu, node) if x != 'slsm')
            if node.get('inner'): self.globals[name] = (tu, node)
        if k in ('NamespaceDecl', 'CXXRecordDecl', 'LinkageSpecDecl'):
            for c in node.get('inner', ()): self.collect(tu, c)

    def add_func(self, tu, node):
        mang = node.get('mangledName')
        if not mang: return
        q = self.qualname(tu, node)
        name = '::'.join(x for x in q if x != 'slsm')
        body = None; params = []; inits = []
        for c in node.get('inner', ()):
            ck = c.get('kind')
            if ck == 'ParmVarDecl': params.append(c)
            elif ck in ('CompoundStmt', 'CXXTryStmt'): body = c
            elif ck == 'CXXCtorInitializer': inits.append(c)
        e = self.funcs.setdefault(mang, {'name': name, 'mangled': mang, 'body': None, 'params': None,
                                         'inits': [], 'tu': None, 'node': None, 'decl': node,
                                         'type': node['type']['qualType'], 'implicit': bool(node.get('isImplicit'))})
        if mang not in self.byname.setdefault(name, []):
            self.byname[name].append(mang)
        if body is not None and e['body'] is None:
            e.update(body=body, params=params, inits=inits, tu=tu, node=node)
        elif e['params'] is None or (e['body'] is None and params and not e['params']):
            e['params'] = params
            if e['tu'] is None: e['tu'] = tu; e['node'] = node

    def line(self, tu, node):
        r = node.get('range', {}).get('begin', {})
        if 'expansionLoc' in r: r = r['expansionLoc']
        off = r.get('offset')
        if off is None: return 0
        if tu.path not in self.src:
            self.src[tu.path] = open(tu.path, 'rb').read()
        return self.src[tu.path].count(b'\n', 0, off) + 1

def find_value(n):
    if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        return int(n['value'])
    for c in n.get('inner', ()):
        v = find_value(c)
        if v is not None: return v
    return None

def node_type(n):
    ty = n.get('type', {})
    return parse_type(ty.get('desugaredQualType') or ty.get('qualType', 'void'))
