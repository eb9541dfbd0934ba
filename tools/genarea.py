# generates the pattern section of area.spec
A=[]
def w(s): A.append(s)
w('''// ---- one element
pred C_nx(m, e, j) = m.nodes[e.nodes[j]].coord.x;
pred C_ny(m, e, j) = m.nodes[e.nodes[j]].coord.y;
// the cell: its corners anticlockwise from the lower left
pred C_cell(m, e) = e.nodes.size() == 4 && e.nodes[0] < m.nNodes && e.nodes[1] < m.nNodes && e.nodes[2] < m.nNodes && e.nodes[3] < m.nNodes && m.nodes.size() == m.nNodes
  && C_nx(m, e, 0) == e.coord.x - 0.5 && C_ny(m, e, 0) == e.coord.y - 0.5 && C_nx(m, e, 1) == e.coord.x + 0.5 && C_ny(m, e, 1) == e.coord.y - 0.5
  && C_nx(m, e, 2) == e.coord.x + 0.5 && C_ny(m, e, 2) == e.coord.y + 0.5 && C_nx(m, e, 3) == e.coord.x - 0.5 && C_ny(m, e, 3) == e.coord.y + 0.5;
pred C_ok3(m, e) = B_st3(C_st(m, e, 0)) && B_st3(C_st(m, e, 1)) && B_st3(C_st(m, e, 2)) && B_st3(C_st(m, e, 3));
// corner j is a vertex of the polygon: on the side looked for, or a boundary node between two inside nodes
pred C_inc(m, e, j) = (j == 0 ? C_incl(m, e, 0, 1, 3) : (j == 1 ? C_incl(m, e, 1, 2, 0) : (j == 2 ? C_incl(m, e, 2, 3, 1) : C_incl(m, e, 3, 0, 2))));
pred C_sx(b, e, k) = b.points[b.segments[e.boundarySegments[k]].start].coord.x;
pred C_sy(b, e, k) = b.points[b.segments[e.boundarySegments[k]].start].coord.y;
pred C_ex(b, e, k) = b.points[b.segments[e.boundarySegments[k]].end].coord.x;
pred C_ey(b, e, k) = b.points[b.segments[e.boundarySegments[k]].end].coord.y;
pred C_segs(b, e) = e.nBoundarySegments <= e.boundarySegments.size() && forall(k; {e.boundarySegments[k]} 0 <= k < e.nBoundarySegments; e.boundarySegments[k] < b.segments.size()
   && b.segments[e.boundarySegments[k]].start < b.points.size() && b.segments[e.boundarySegments[k]].end < b.points.size());
pred C_perim(b, e) = forall(k; {e.boundarySegments[k]} 0 <= k < e.nBoundarySegments; onper(C_sx(b, e, k) - e.coord.x, C_sy(b, e, k) - e.coord.y) && onper(C_ex(b, e, k) - e.coord.x, C_ey(b, e, k) - e.coord.y));
pred V_at(v, i, X, Y) = v[i].x == X && v[i].y == Y;
pred V_onp(v, i, c) = onper(v[i].x - c.x, v[i].y - c.y);
pred V_nodes(v, m, e) = (C_inc(m, e, 0) ==> V_at(v, 0, C_nx(m, e, 0), C_ny(m, e, 0))) && (C_inc(m, e, 1) ==> V_at(v, C_n(m, e, 1), C_nx(m, e, 1), C_ny(m, e, 1)))
  && (C_inc(m, e, 2) ==> V_at(v, C_n(m, e, 2), C_nx(m, e, 2), C_ny(m, e, 2))) && (C_inc(m, e, 3) ==> V_at(v, C_n(m, e, 3), C_nx(m, e, 3), C_ny(m, e, 3)));
pred V_ends(v, b, m, e, k) = forall(s; {e.boundarySegments[s]} 0 <= s < k; V_at(v, C_n(m, e, 4) + 2*s, C_sx(b, e, s), C_sy(b, e, s)) && V_at(v, C_n(m, e, 4) + 2*s + 1, C_ex(b, e, s), C_ey(b, e, s)));
// position of a point along edge j, from corner j
pred C_on(x, y, e, j) = j == 0 ? y == e.coord.y - 0.5 && e.coord.x - 0.5 < x < e.coord.x + 0.5 : (j == 1 ? x == e.coord.x + 0.5 && e.coord.y - 0.5 < y < e.coord.y + 0.5
  : (j == 2 ? y == e.coord.y + 0.5 && e.coord.x - 0.5 < x < e.coord.x + 0.5 : x == e.coord.x - 0.5 && e.coord.y - 0.5 < y < e.coord.y + 0.5));
pred C_pos(x, y, e, j) = j == 0 ? x - e.coord.x + 0.5 : (j == 1 ? y - e.coord.y + 0.5 : (j == 2 ? e.coord.x + 0.5 - x : e.coord.y + 0.5 - y));
pred C_code(m, e, a, b, c, d) = C_st(m, e, 0) == a && C_st(m, e, 1) == b && C_st(m, e, 2) == c && C_st(m, e, 3) == d;
pred C_one(b, e, i, j) = e.nBoundarySegments == 1 && C_on(C_sx(b, e, 0), C_sy(b, e, 0), e, i) && C_on(C_ex(b, e, 0), C_ey(b, e, 0), e, j);
pred C_two(b, e, i, j, k, l) = e.nBoundarySegments == 2 && C_on(C_sx(b, e, 0), C_sy(b, e, 0), e, i) && C_on(C_ex(b, e, 0), C_ey(b, e, 0), e, j) && C_on(C_sx(b, e, 1), C_sy(b, e, 1), e, k) && C_on(C_ex(b, e, 1), C_ey(b, e, 1), e, l);
pred C_s(b, e, k, j) = C_pos(C_sx(b, e, k), C_sy(b, e, k), e, j);
pred C_e(b, e, k, j) = C_pos(C_ex(b, e, k), C_ey(b, e, k), e, j);''')
one = {  # status: (edges, formula)
 'IOOO': ((0,3), 'tri(s, 1-t)'), 'OIOO': ((0,1), 'tri(1-s, t)'), 'OOIO': ((1,2), 'tri(1-s, t)'), 'OOOI': ((2,3), 'tri(1-s, t)'),
 'OIII': ((0,3), '1 - tri(s, 1-t)'), 'IOII': ((0,1), '1 - tri(1-s, t)'), 'IIOI': ((1,2), '1 - tri(1-s, t)'), 'IIIO': ((2,3), '1 - tri(1-s, t)'),
 'IIOO': ((1,3), '(s + 1 - t)/2'), 'OIIO': ((0,2), '(1 - s + t)/2'), 'OOII': ((1,3), '(1 - s + t)/2'), 'IOOI': ((0,2), '(s + 1 - t)/2') }
N = {'I': 'NodeStatus::INSIDE', 'O': 'NodeStatus::OUTSIDE'}
pats = []
for k, ((i, j), f) in one.items():
    w('pred C_%s(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, %s) && C_one(b, e, %d, %d) ==> (let s = C_s(b, e, 0, %d) in let t = C_e(b, e, 0, %d) in r == %s);' % (k, ', '.join(N[x] for x in k), i, j, i, j, f))
    pats.append(k)
for code, side, segs in (('IOIO', 'INSIDE', (0,1,2,3)), ('IOIO', 'OUTSIDE', (0,3,1,2)), ('OIOI', 'INSIDE', (0,3,1,2)), ('OIOI', 'OUTSIDE', (0,1,2,3))):
    a = 'tri(1-s, t) + tri(1-u, v)' if segs == (0,1,2,3) else 'tri(s, 1-t) + tri(1-u, v)'
    f = ('1 - (%s)' % a) if side == 'INSIDE' else a
    nm = code + side[0]
    w('pred C_%s(m, b, e, r) = C_side(e) == NodeStatus::%s && C_code(m, e, %s) && C_two(b, e, %d, %d, %d, %d) ==> (let s = C_s(b, e, 0, %d) in let t = C_e(b, e, 0, %d) in let u = C_s(b, e, 1, %d) in let v = C_e(b, e, 1, %d) in r == %s);'
      % ((nm, side, ', '.join(N[x] for x in code)) + segs + segs + (f,)))
    pats.append(nm)

w("func epos(real x, real y, int j): real = j == 0 ? x + 0.5 : (j == 1 ? y + 0.5 : (j == 2 ? 0.5 - x : 0.5 - y));")
w("func eon(real x, real y, int j): bool = j == 0 ? y == -0.5 && -0.5 < x && x < 0.5 : (j == 1 ? x == 0.5 && -0.5 < y && y < 0.5 : (j == 2 ? y == 0.5 && -0.5 < x && x < 0.5 : x == -0.5 && -0.5 < y && y < 0.5));")
def ang(v, top):
    if v[0] == 'n': return [1.5, 2.5, 3.5, .5][v[1]]
    return {0: 2.0, 1: 3.0, 2: 0.2 if top else 3.8, 3: 1.0}[v[1]]
CN = [(-.5,-.5),(.5,-.5),(.5,.5),(-.5,.5)]
picks = set(); uses = []; done = set()
for k in pats:
    code = k[:4]; side = k[4] if len(k) > 4 else 'I'
    ns = [('n', i) for i in range(4) if code[i] == side]
    if len(k) == 4: segs = one[k][0]; f = one[k][1]; guard = 'C_code(mesh, element, %s) && C_one(boundary, element, %d, %d)' % ((', '.join(N[x] for x in code),) + segs)
    else:
        segs = {'IOIOI': (0,1,2,3), 'IOIOO': (0,3,1,2), 'OIOII': (0,3,1,2), 'OIOIO': (0,1,2,3)}[k]
        f = '1 - (tri(1-s, t) + tri(1-u, v))' if segs == (0,1,2,3) else '1 - (tri(s, 1-t) + tri(1-u, v))'
        guard = 'C_code(mesh, element, %s) && C_two(boundary, element, %d, %d, %d, %d)' % ((', '.join(N[x] for x in code),) + segs)
    guard = 'C_side(element) == NodeStatus::%s && ' % ('INSIDE' if side == 'I' else 'OUTSIDE') + guard
    vs = ns + [('p', e) for e in segs]
    n = len(vs)
    tops = (0, 1) if ('p', 2) in vs else (0,)
    for top in tops:
        o = sorted(range(n), key=lambda i: ang(vs[i], top))
        pk = tuple(o + [0] * (6 - n))
        picks.add(pk)
        nm = 'L_' + k + ('t' if top else '')
        V = ['v%d' % i for i in range(n)]
        req = []
        for i, v in enumerate(vs):
            if v[0] == 'n': req.append('x%d == cx + (%s) && y%d == cy + (%s)' % (i, CN[v[1]][0], i, CN[v[1]][1]))
            else: req.append('eon(x%d - cx, y%d - cy, %d)' % (i, i, v[1]))
            if v == ('p', 2): req.append('x%d %s cx' % (i, '<' if top else '>='))
        pars = 'real cx, real cy, ' + ', '.join('real x%d, real y%d' % (i, i) for i in range(n))
        ens = ['cw(x%d - cx, y%d - cy, x%d - cx, y%d - cy)' % (o[i], o[i], o[i+1], o[i+1]) for i in range(n-1)]
        args = ', '.join('x%d, y%d' % (i, i) for i in o) + ', 0, 0' * (6 - n)
        lets = ''.join('let %s = epos(x%d - cx, y%d - cy, %d) in ' % ('stuv'[q], len(ns) + q, len(ns) + q, e) for q, e in enumerate(segs))
        ff = f
        w('lemma %s(%s) {\n  requires %s;\n  ensures %s;\n  ensures pgon(%d, %s) >= 0 && (%spgon(%d, %s) == 2*(%s));\n}' % (nm, pars, ' && '.join(req), ' && '.join(ens), n, args, lets, n, args, ff))
        uses.append('  before_call polygonArea use %s ==> %s($arg3.x, $arg3.y, %s);' % (guard, nm, ', '.join('$arg1[%d].x, $arg1[%d].y' % (i, i) for i in range(n))))
w('''contract LevelSet::cutArea(element, boundary) {
  prop C14;
  hide cr, cw, ang, tri, pgon;
  requires C_cell(mesh, element) && C_ok3(mesh, element) && C_segs(boundary, element);
  requires C_n(mesh, element, 4) + 2*element.nBoundarySegments <= 6;
  // the vertices of the polygon are the corners on its side and the ends of the segments
  before_call polygonArea assert $arg1.size() >= 6 && $arg2 == C_n(mesh, element, 4) + 2*element.nBoundarySegments && eqv($arg3, element.coord);
  before_call polygonArea assert V_nodes($arg1, mesh, element);
  before_call polygonArea assert V_ends($arg1, boundary, mesh, element, element.nBoundarySegments);
  before_call polygonArea assert (C_inc(mesh, element, 0) ==> V_onp($arg1, 0, $arg3)) && (C_inc(mesh, element, 1) ==> V_onp($arg1, C_n(mesh, element, 1), $arg3)) && (C_inc(mesh, element, 2) ==> V_onp($arg1, C_n(mesh, element, 2), $arg3)) && (C_inc(mesh, element, 3) ==> V_onp($arg1, C_n(mesh, element, 3), $arg3));
  before_call polygonArea assert C_perim(boundary, element) ==> (element.nBoundarySegments > 0 ==> element.boundarySegments[0] >= 0 && V_onp($arg1, C_n(mesh, element, 4), $arg3) && V_onp($arg1, C_n(mesh, element, 4) + 1, $arg3))
    && (element.nBoundarySegments > 1 ==> element.boundarySegments[1] >= 0 && V_onp($arg1, C_n(mesh, element, 4) + 2, $arg3) && V_onp($arg1, C_n(mesh, element, 4) + 3, $arg3))
    && (element.nBoundarySegments > 2 ==> element.boundarySegments[2] >= 0 && V_onp($arg1, C_n(mesh, element, 4) + 4, $arg3) && V_onp($arg1, C_n(mesh, element, 4) + 5, $arg3));
  before_call polygonArea assert C_perim(boundary, element) ==> V_per($arg1, $arg2, $arg3);
  ensures [side] result == ((element.status & ElementStatus::CENTRE_OUTSIDE) != 0 ? 1 - last(polygonArea) : last(polygonArea));
  ensures [unit] C_perim(boundary, element) ==> 0 <= result <= 1;''')
for q in sorted(picks): w('  before_call polygonArea use pickAny(%d, %d, %d, %d, %d, %d);' % q)
for u in uses: w(u)
for k in pats: w('  ensures [%s] C_%s(mesh, boundary, element, result);' % (k, k))
w('''  loop 1 {
    inv V_nodes(vertices, mesh, element) && V_ends(vertices, boundary, mesh, element, $i);
    inv vertices.size() == 6 && nVertices == C_n(mesh, element, 4) + 2*$i;
  }
}''')

w('pred C_all(m, b, e, r) = %s;' % ' && '.join('C_%s(m, b, e, r)' % k for k in pats))
w('''// ---- all elements
func asum(int n, arr(real) A): real = n <= 0 ? 0 : asum(n-1, A) + A[n-1];
lemma asumFrame(int n, arr(real) A, arr(real) B) {
  requires forall(k; {A[k]} 0 <= k < n; A[k] == B[k]);
  induct n;
  ensures asum(n, A) == asum(n, B);
}
pred A_frac(L, b, e) = let m = L.mesh in
  ((m.elements[e].status & ElementStatus::INSIDE) != 0 ==> m.elements[e].area == 1)
  && ((m.elements[e].status & ElementStatus::INSIDE) == 0 && (m.elements[e].status & ElementStatus::OUTSIDE) != 0 ==> m.elements[e].area == 0)
  && (A_cut(m, e) ==> C_all(m, b, m.elements[e], m.elements[e].area) && (C_perim(b, m.elements[e]) ==> 0 <= m.elements[e].area <= 1));
contract LevelSet::computeAreaFractions(boundary) {
  prop C14;
  flags forkloops;
  hide tri, onper, few6;
  requires M_ok(mesh) && mesh.nElements <= 100000000;
  requires forall(n; {mesh.nodes[n].status} 0 <= n < mesh.nNodes; B_st3(mesh.nodes[n].status));
  requires D_sizes(boundary, this) && D_nbs(this) && D_segs(boundary, this) && D_lookup(boundary, this);
  requires forall(e; {mesh.elements[e].status} 0 <= e < mesh.nElements; A_few(mesh, e));
  assigns area, mesh.elements[*].area;
  ensures [total] result == area && area == asum(mesh.nElements, arr(mesh.elements[*].area));
  ensures [fractions] forall(e; {mesh.elements[e].area} 0 <= e < mesh.nElements; A_frac(this, boundary, e));
  loop 1 {
    begin use colRow($i, mesh.width);
    begin use rowBound($i, mesh.width, mesh.height);
    begin use atBound(col($i, mesh.width)+1, row($i, mesh.width)+1, mesh.width+1, mesh.height+1);
    begin use atBound(col($i, mesh.width), row($i, mesh.width), mesh.width+1, mesh.height+1);
    begin use atCR(col($i, mesh.width), row($i, mesh.width), mesh.width+1);
    begin use atCR(col($i, mesh.width)+1, row($i, mesh.width), mesh.width+1);
    begin use atCR(col($i, mesh.width)+1, row($i, mesh.width)+1, mesh.width+1);
    begin use atCR(col($i, mesh.width), row($i, mesh.width)+1, mesh.width+1);
    begin assert D_geo(this, $i);
    begin assert C_cell(mesh, mesh.elements[$i]) && C_ok3(mesh, mesh.elements[$i]);
    begin use few6Def(B_es(mesh, $i, 0), B_es(mesh, $i, 1), B_es(mesh, $i, 2), B_es(mesh, $i, 3), mesh.elements[$i].status, mesh.elements[$i].nBoundarySegments);
    begin assert A_cut(mesh, $i) ==> C_n(mesh, mesh.elements[$i], 4) + 2*mesh.elements[$i].nBoundarySegments <= 6;
    begin assert C_segs(boundary, mesh.elements[$i]);
    end use asumFrame($i, arr(mesh.elements[*].area), iter(arr(mesh.elements[*].area)));
    end assert A_frac(this, boundary, $i);
    inv area == asum($i, arr(mesh.elements[*].area));
    inv forall(e; {mesh.elements[e].area} 0 <= e < $i; A_frac(this, boundary, e));
    dec mesh.nElements - $i;
  }
}''')
s = open('/verif/contracts/area.spec').read()
i = s.find('// ---- one element')
if i >= 0: s = s[:i]
open('/verif/contracts/area.spec','w').write(s + '\n'.join(A) + '\n')
print(len(picks), 'picks')
