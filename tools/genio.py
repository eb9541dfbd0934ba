#!/usr/bin/env python3
"""Writes contracts/io.spec: the layout of every file, given as a list of parts, becomes conditions on the written characters and numbers."""
import os
out = []
def w(s=''): out.append(s)
w('''// Reading and writing files (written by tools/genio.py).
// outfile: the file written last: name, open, and one entry per character, formatted number or binary double:
//   kind[k] = character code, 1000 (%lf), 1001 (%d) or 1002 (8 bytes of a double), val[k] the number.
// infile: the file being read. Its content: in_lines(name) lines, in_count(name) numbers in_num(name, k) separated by white space;
// in_doubles(name) binary doubles in_bin(name, k). padded(width, fill, adjust, n) is the text of the integer n (adjust 0: to the right).
ufunc canwrite(int name): bool;
ufunc canread(int name): bool;
ufunc padded(int width, int fill, int adjust, int n): int;
ufunc scat(int a, int b): int;
ufunc in_lines(int name): int;
ufunc in_count(int name): int;
ufunc in_num(int name, int k): real;
ufunc in_doubles(int name): int;
ufunc in_bin(int name, int k): real;
pred F_ch(k, c) = outfile.kind[k] == c;
pred F_f(k, v) = outfile.kind[k] == 1000 && outfile.val[k] == v;
pred F_d(k, v) = outfile.kind[k] == 1001 && outfile.val[k] == v;
pred F_same(n) = outfile.kind.size() >= n && forall(k; {outfile.kind[k]} 0 <= k < n; outfile.kind[k] == before(outfile.kind[k])) && forall(k; {outfile.val[k]} 0 <= k < n; outfile.val[k] == before(outfile.val[k]));
pred F_name(dir, stem, n, ext) = concat(dir == "" ? "" : concat(dir, "/"), stem, padded(4, 48, 0, n), ext);
''')
def esc(s): return s.replace('\n', '\\n')
class Pos:
    """a position: constant + sum of terms"""
    def __init__(self, c=0, t=()): self.c = c; self.t = tuple(t)
    def plus(self, c=0, t=None): return Pos(self.c + c, self.t + ((t,) if t else ()))
    def __str__(self): return ' + '.join(list(self.t) + [str(self.c)]) if self.t else str(self.c)
def rec(k, toks, i):
    """entry k counted from the start of the list: the token at k mod len of record k div len"""
    m = len(toks); c = []
    for j, t in enumerate(toks):
        g = '(%s) %% %d == %d ==> ' % (k, m, j) if m > 1 else ''
        idx = '(%s)/%d' % (k, m)
        if t[0] == 'c': c.append(g + 'outfile.kind[k] == %d' % ord(t[1]))
        else: c.append(g + 'F_%s(k, %s)' % (t[0], t[1].replace('@', idx)))
    return ' && '.join('(%s)' % x for x in c)
def listpred(pos, cnt, toks):
    m = len(toks); b = str(pos)
    return 'forall(k; {outfile.kind[k]}{outfile.val[k]} %s <= k < %s + %d*(%s); %s)' % (b, b, m, cnt, rec('k - (%s)' % b if b != '0' else 'k', toks, None))
def chars(s): return [('c', x) for x in s]

# ---- VTK
HEAD = [('t', '# vtk DataFile Version 3.0\nPara0\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS '), ('d', '1 + M.width'), ('t', ' '), ('d', '1 + M.height'), ('t', ' '), ('d', '1'), ('t', '\nX_COORDINATES '), ('d', '1 + M.width'), ('t', ' int\n'),
        ('l', 'M.width + 1', [('d', '@'), ('c', ' ')]), ('t', '\nY_COORDINATES '), ('d', '1 + M.height'), ('t', ' int\n'), ('l', 'M.height + 1', [('d', '@'), ('c', ' ')]), ('t', '\nZ_COORDINATES 1 int\n0\n\n')]
def layout(parts, pos=None):
    """[(predicate text, kind, position before)] and the end"""
    pos = pos or Pos(); res = []
    for p in parts:
        if p[0] == 't': res.append(('istext(outfile.kind, %s, "%s")' % (pos, esc(p[1])), 't', pos)); pos = pos.plus(len(p[1]))
        elif p[0] in 'df': res.append(('F_%s(%s, %s)' % (p[0], pos, p[1]), p[0], pos)); pos = pos.plus(1)
        else: res.append((listpred(pos, p[1], p[2]), 'l', pos)); pos = pos.plus(0, '%d*(%s)' % (len(p[2]), p[1]))
    return res, pos
def section(name, field): return [('t', 'SCALARS %s float 1\nLOOKUP_TABLE default\n' % name), ('l', 'M.nNodes', [('f', field), ('c', '\n')])]
LS = HEAD + [('t', 'POINT_DATA '), ('d', 'M.nNodes'), ('t', '\n')] + section('distance', 'L.signedDistance[@]')
lsp, lsend = layout(LS)
w('// ---- rectilinear grid files')
w('pred F_vtkLS(L, M) =\n     ' + '\n  && '.join(x[0] for x in lsp) + ';')
w('pred F_lsEnd(M) = %s;' % lsend)
class V(Pos):
    def __str__(self): return 'b + ' + super().__str__() if self.t or self.c else 'b'
sv, send = layout(section('velocity', 'L.velocity[@]'), V0 := Pos(0, ('b',)))
sg, _ = layout(section('gradient', 'L.gradient[@]'), Pos(0, ('b',)))
w('pred F_vtkV(L, M, b) = ' + ' && '.join(x[0] for x in sv) + ';')
w('pred F_vtkG(L, M, b) = ' + ' && '.join(x[0] for x in sg) + ';')
seclenV = '(%d + 2*(M.nNodes))' % len('SCALARS velocity float 1\nLOOKUP_TABLE default\n')
w('pred F_vSize(M) = %s;' % seclenV)
w('pred F_vtk(L, M, v, g) = F_vtkLS(L, M) && (v ==> F_vtkV(L, M, F_lsEnd(M))) && (g ==> F_vtkG(L, M, F_lsEnd(M) + (v ? F_vSize(M) : 0))) && outfile.kind.size() == F_lsEnd(M) + (v ? F_vSize(M) : 0) + (g ? F_vSize(M) : 0);')
AR = HEAD + [('t', 'CELL_DATA '), ('d', 'M.nElements'), ('t', '\nSCALARS area float 1\nLOOKUP_TABLE default\n'), ('l', 'M.nElements', [('f', 'M.elements[@].area'), ('c', '\n')])]
arp, arend = layout(AR)
w('pred F_vtkA(M) =\n     ' + '\n  && '.join(x[0] for x in arp) + '\n  && outfile.kind.size() == %s;' % arend)

def loops(parts, M, start=1):
    """invariants of the loops that write the lists of these parts"""
    n = start
    for t, k, pos in parts:
        if k != 'l': continue
        i = t.index('} ', t.index('{outfile.val')); body = t
        # the same list, up to the loop counter
        b = str(pos)
        toks = [p for p in allparts if p[0] == 'l'][n - start][2]
        inv = listpred(pos, '$i', toks)
        w('  loop %d {' % n)
        w('    inv outfile.kind.size() == %s + %d*$i;' % (sub(b, M), len(toks)))
        w('    inv F_same(%s);' % sub(b, M))
        w('    inv %s;' % sub(inv, M))
        w('  }')
        n += 1
    return n
import re
def sub(s, M): return re.sub(r'\bM\.', M + '.', re.sub(r'\bL\.', 'levelSet.', s))
BIG = '%s.width <= 100000 && %s.height <= 100000 && %s.nNodes <= 1000000000 && %s.nElements <= 1000000000 && %s.nodes.size() == %s.nNodes && %s.elements.size() == %s.nElements'
def big(M): return BIG.replace('%s', M)
SIZES = 'levelSet.signedDistance.size() == levelSet.mesh.nNodes && levelSet.velocity.size() == levelSet.mesh.nNodes && levelSet.gradient.size() == levelSet.mesh.nNodes'
def contract(fn, params, sig, name, req, post, body=None, extra=(), exits='!canwrite(%s)', flags=''):
    w('contract InputOutput::%s(%s) sig "%s" {' % (fn, params, sig))
    w('  prop C19;')
    if flags: w('  flags %s;' % flags)
    for r in req: w('  requires %s;' % r)
    w('  exits_if %s;' % (exits % name))
    for e in extra: w('  ' + e)
    for lab, e in post: w('  ensures [%s] %s;' % (lab, e))
    if body: body()
    w('}')
def writer(fn, params, sig, req, post, body):
    contract(fn, params, sig, 'fileName', req + ['!outfile.open'], [('name', 'outfile.name == fileName && !outfile.open')] + post, body, ['assigns outfile;'])
def numbered(fn, params, sig, req, post, stem, ext, d='outputDirectory'):
    nm = 'F_name(%s, "%s", datapoint, "%s")' % (d, stem, ext)
    contract(fn, params, sig, nm, req + ['!outfile.open'], [('name', 'outfile.name == %s && !outfile.open' % nm)] + post, None, ['assigns outfile;'])
U = 'const unsigned int &'; S = 'const std::string &'
w('''// ---- level set''')
def vtkbody():
    global allparts
    allparts = LS
    n = loops(lsp, 'levelSet.mesh')
    allparts = section('velocity', 'L.velocity[@]')
    E = 'F_lsEnd(levelSet.mesh)'
    for secp, fld in ((sv, 'velocity'), (sg, 'gradient')):
        head = len('SCALARS %s float 1\nLOOKUP_TABLE default\n' % fld)
        base = E + (' + (isVelocity ? F_vSize(levelSet.mesh) : 0)' if fld == 'gradient' else '') + ' + %d' % head
        toks = [('f', 'levelSet.%s[@]' % fld), ('c', '\n')]
        w('  loop %d {' % n)
        w('    inv outfile.kind.size() == %s + 2*$i;' % base)
        w('    inv F_same(%s);' % base)
        w('    inv forall(k; {outfile.kind[k]}{outfile.val[k]} %s <= k < %s + 2*$i; %s);' % (base, base, rec('k - (%s)' % base, toks, None)))
        w('  }')
        n += 1
writer('saveLevelSetVTK', 'fileName, levelSet, isVelocity, isGradient', 'void (%s, const LevelSet &, bool, bool) const' % S, [big('levelSet.mesh'), SIZES], [('file', 'F_vtk(levelSet, levelSet.mesh, isVelocity, isGradient)')], vtkbody)
numbered('saveLevelSetVTK', 'datapoint, levelSet, isVelocity, isGradient, outputDirectory', 'void (%s, const LevelSet &, bool, bool, %s) const' % (U, S), [big('levelSet.mesh'), SIZES], [('file', 'F_vtk(levelSet, levelSet.mesh, isVelocity, isGradient)')], 'level-set_', '.vtk')
F3 = [('f', 'levelSet.signedDistance[@]'), ('c', ' '), ('f', 'levelSet.velocity[@]'), ('c', ' '), ('f', 'levelSet.gradient[@]'), ('c', '\n')]
F5 = [('f', 'levelSet.mesh.nodes[@].coord.x'), ('c', ' '), ('f', 'levelSet.mesh.nodes[@].coord.y'), ('c', ' ')] + F3
A1 = [('f', 'mesh.elements[@].area'), ('c', '\n')]
A3 = [('f', 'mesh.elements[@].coord.x'), ('c', ' '), ('f', 'mesh.elements[@].coord.y'), ('c', ' ')] + A1
P3 = [('f', 'boundary.points[@].coord.x'), ('c', ' '), ('f', 'boundary.points[@].coord.y'), ('c', ' '), ('f', 'boundary.points[@].length'), ('c', '\n')]
def ends(e): return [('f', 'boundary.points[boundary.segments[@].%s].coord.x' % e), ('c', ' '), ('f', 'boundary.points[boundary.segments[@].%s].coord.y' % e), ('c', '\n')]
S4 = ends('start') + ends('end') + [('c', '\n')]
def table(plain, xy=None, cnt='levelSet.mesh.nNodes'):
    def post(c): 
        if xy is None: return '%s && outfile.kind.size() == %d*%s' % (listpred(Pos(), c, plain), len(plain), c)
        return '(isXY ==> %s) && (!isXY ==> %s) && outfile.kind.size() == (isXY ? %d : %d)*%s' % (listpred(Pos(), c, xy), listpred(Pos(), c, plain), len(xy), len(plain), c)
    def body():
        w('  loop 1 {')
        w('    inv outfile.kind.size() == %s*$i;' % (len(plain) if xy is None else '(isXY ? %d : %d)' % (len(xy), len(plain))))
        if xy: w('    inv isXY ==> %s;' % listpred(Pos(), '$i', xy)); w('    inv !isXY ==> %s;' % listpred(Pos(), '$i', plain))
        else: w('    inv %s;' % listpred(Pos(), '$i', plain))
        w('  }')
    return [('file', post(cnt))], body
post, body = table(F3, F5)
writer('saveLevelSetTXT', 'fileName, levelSet, isXY', 'void (%s, const LevelSet &, bool) const' % S, [big('levelSet.mesh'), SIZES], post, body)
numbered('saveLevelSetTXT', 'datapoint, levelSet, outputDirectory, isXY', 'void (%s, const LevelSet &, %s, bool) const' % (U, S), [big('levelSet.mesh'), SIZES], post, 'level-set_', '.txt')
bin_ = [('file', 'outfile.kind.size() == levelSet.mesh.nNodes && forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < levelSet.mesh.nNodes; outfile.kind[k] == 1002 && outfile.val[k] == levelSet.signedDistance[k])')]
one = 'levelSet.mesh.nNodes >= 1'
def binary(fn, params, sig, name):
    contract(fn, params, sig, name, [big('levelSet.mesh'), SIZES, one], [('name', 'outfile.name == ' + name)] + bin_, None, ['assigns outfile;'])
binary('saveLevelSetBIN', 'fileName, levelSet', 'void (%s, const LevelSet &) const' % S, 'fileName')
binary('saveLevelSetBIN', 'datapoint, levelSet, outputDirectory', 'void (%s, const LevelSet &, %s) const' % (U, S), 'F_name(outputDirectory, "level-set_", datapoint, ".bin")')
w('// ---- loading')
FS = 'levelSet.signedDistance.size() == levelSet.mesh.nNodes'
def loaded(nm): return '(isXY ==> forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && 5*n + 5 <= in_count(%s); levelSet.signedDistance[n] == in_num(%s, 5*n + 2))) && (!isXY ==> forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && 3*n + 3 <= in_count(%s); levelSet.signedDistance[n] == in_num(%s, 3*n)))' % (nm, nm, nm, nm)
def ltxt(fn, params, sig, nm, body=None):
    contract(fn, params, sig, nm, [FS, '0 <= in_lines(%s) <= 4000000000 && in_count(%s) >= 0' % (nm, nm)], [('loaded', loaded(nm))], body, ['assigns levelSet.signedDistance[*], infile;'], exits='!canread(%%s) || in_lines(%s) != levelSet.mesh.nNodes' % nm)
def lbody():
    w('  loop 1 { inv infile.name == fileName && !infile.fail && infile.line == nLines && nLines <= in_lines(fileName); dec in_lines(fileName) - nLines; }')
    for n, (m, o) in ((2, (5, 2)), (3, (3, 0))):
        w('  loop %d {' % n)
        w('    inv infile.name == fileName && !infile.fail && infile.pos == %d*node && node <= levelSet.mesh.nNodes;' % m)
        w('    inv forall(n; {levelSet.signedDistance[n]} 0 <= n < node; levelSet.signedDistance[n] == in_num(fileName, %d*n + %d));' % (m, o))
        w('    dec levelSet.mesh.nNodes - node;')
        w('  }')
ltxt('loadLevelSetTXT', 'fileName, levelSet, isXY', 'void (%s, LevelSet &, bool) const' % S, 'fileName', lbody)
ltxt('loadLevelSetTXT', 'datapoint, levelSet, inputDirectory, isXY', 'void (%s, LevelSet &, %s, bool) const' % (U, S), 'F_name(inputDirectory, "level-set_", datapoint, ".txt")')
def lbin(fn, params, sig, nm):
    contract(fn, params, sig, nm, [FS, 'levelSet.mesh.nNodes >= 1 && levelSet.mesh.nNodes <= 1000000000'], [('loaded', 'forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && n < in_doubles(%s); levelSet.signedDistance[n] == in_bin(%s, n))' % (nm, nm))], None, ['assigns levelSet.signedDistance[*], infile;'], exits='!canread(%s)')
lbin('loadLevelSetBIN', 'fileName, levelSet', 'void (%s, LevelSet &) const' % S, 'fileName')
lbin('loadLevelSetBIN', 'datapoint, levelSet, inputDirectory', 'void (%s, LevelSet &, %s) const' % (U, S), 'F_name(inputDirectory, "level-set_", datapoint, ".bin")')
w('// ---- boundary')
BP = 'boundary.points.size() == boundary.nPoints && boundary.nPoints <= 1000000000'
BS = BP + ' && boundary.segments.size() == boundary.nSegments && boundary.nSegments <= 1000000000 && forall(s; {boundary.segments[s].start}{boundary.segments[s].end} 0 <= s < boundary.nSegments; 0 <= boundary.segments[s].start < boundary.nPoints && 0 <= boundary.segments[s].end < boundary.nPoints)'
for fn, toks, cnt, req, stem in (('saveBoundaryPointsTXT', P3, 'boundary.nPoints', BP, 'boundary-points_'), ('saveBoundarySegmentsTXT', S4, 'boundary.nSegments', BS, 'boundary-segments_')):
    post, body = table(toks, None, cnt)
    writer(fn, 'fileName, boundary', 'void (%s, const Boundary &) const' % S, [req], post, body)
    numbered(fn, 'datapoint, boundary, outputDirectory', 'void (%s, const Boundary &, %s) const' % (U, S), [req], post, stem, '.txt')
w('// ---- area fractions')
def abody():
    global allparts
    allparts = AR
    loops(arp, 'mesh')
writer('saveAreaFractionsVTK', 'fileName, mesh', 'void (%s, const Mesh &) const' % S, [big('mesh')], [('file', 'F_vtkA(mesh)')], abody)
numbered('saveAreaFractionsVTK', 'datapoint, mesh, outputDirectory', 'void (%s, const Mesh &, %s) const' % (U, S), [big('mesh')], [('file', 'F_vtkA(mesh)')], 'area_', '.vtk')
post, body = table(A1, A3, 'mesh.nElements')
writer('saveAreaFractionsTXT', 'fileName, mesh, isXY', 'void (%s, const Mesh &, bool) const' % S, [big('mesh')], post, body)
numbered('saveAreaFractionsTXT', 'datapoint, mesh, outputDirectory, isXY', 'void (%s, const Mesh &, %s, bool) const' % (U, S), [big('mesh')], post, 'area_', '.txt')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'io.spec'), 'w').write('\n'.join(out) + '\n')
