// LevelSet: area fractions of the elements.
// (a, b) comes before (u, v) in the order around the origin that starts at 12 o'clock and goes anticlockwise; on the same ray the nearer one
func cw(real a, real b, real u, real v): bool =
  (a >= 0 && u < 0) ? false : ((a < 0 && u >= 0) ? true : ((a == 0 && u == 0) ? b < v :
    (a*v - u*b != 0 ? a*v - u*b > 0 : a*a + b*b < u*u + v*v)));
lemma cwIrr(real a, real b) { ensures !cw(a, b, a, b); }
lemma cwAsym(real a, real b, real u, real v) { ensures !(cw(a, b, u, v) && cw(u, v, a, b)); }
lemma cwTotal(real a, real b, real u, real v) { ensures !cw(a, b, u, v) && !cw(u, v, a, b) ==> a == u && b == v; }
lemma cwTrans(real a, real b, real u, real v, real x, real y) {
  assert u*(a*y - x*b) == a*(u*y - x*v) + x*(a*v - u*b);
  ensures cw(a, b, u, v) && cw(u, v, x, y) ==> cw(a, b, x, y);
}
contract LevelSet::isClockwise(point1, point2, centre) {
  prop C14;
  ensures [order] result <==> cw(point1.x - centre.x, point1.y - centre.y, point2.x - centre.x, point2.y - centre.y);
}
// ---- polygons
func cr(real a, real b, real u, real v): real = a*v - u*b;
func tri(real s, real t): real = s*t/2;
func onper(real a, real b): bool = -0.5 <= a && a <= 0.5 && -0.5 <= b && b <= 0.5 && (a == 0.5 || a == -0.5 || b == 0.5 || b == -0.5);
// length along the edge of the unit cell from the top, anticlockwise, in (0, 4]
func ang(real a, real b): real = (b == 0.5 && a < 0) ? -a : (a == -0.5 ? 1 - b : (b == -0.5 ? 2 + a : (a == 0.5 ? 3 + b : 4 - a)));
lemma cwAng(real a, real b, real u, real v) {
  requires onper(a, b) && onper(u, v);
  ensures cw(a, b, u, v) <==> ang(a, b) < ang(u, v);
}
lemma angRange(real a, real b) { requires onper(a, b); ensures 0 < ang(a, b) && ang(a, b) <= 4; }
lemma crArc(real a, real b, real u, real v) {
  requires onper(a, b) && onper(u, v) && ang(a, b) <= ang(u, v);
  ensures let d = ang(u, v) - ang(a, b) in 0 < ang(a, b) && ang(u, v) <= 4 && 0 <= d && d <= 4 && cr(a, b, u, v) <= d/2 && cr(a, b, u, v) >= (d <= 2 ? 0 : -(4 - d)/2) && (d >= 2 ==> cr(a, b, u, v) <= 0);
}
// twice the signed area (the sum over the first m edges of the polygon with n corners)
func shoe(int m, int n, arr(real) X, arr(real) Y): real =
  m <= 0 ? 0 : shoe(m-1, n, X, Y) + X[m-1]*Y[m == n ? 0 : m] - X[m == n ? 0 : m]*Y[m-1];
func angAt(int i, arr(real) X, arr(real) Y, real cx, real cy): real = ang(X[i] - cx, Y[i] - cy);
func A_per(int n, arr(real) X, arr(real) Y, real cx, real cy): bool = forall(i; {X[i]}{Y[i]} 0 <= i < n; onper(X[i] - cx, Y[i] - cy));
func A_sorted(int n, arr(real) X, arr(real) Y, real cx, real cy): bool = forall(i, k; {X[i], X[k]} 0 <= i && i < k && k < n; !cw(X[k] - cx, Y[k] - cy, X[i] - cx, Y[i] - cy));
lemma shoeStep(real a, real b, real u, real v, real cx, real cy) {
  ensures (cx + a)*(cy + v) - (cx + u)*(cy + b) == cr(a, b, u, v) + cx*(v - b) - cy*(u - a);
}
lemma shoeRange(int m, int n, arr(real) X, arr(real) Y, real cx, real cy) {
  requires 0 <= m && m <= n && n >= 1 && A_per(n, X, Y, cx, cy) && A_sorted(n, X, Y, cx, cy);
  induct m;
  hide cr, cw, ang, onper;
  assert m >= 1 ==> onper(X[m-1] - cx, Y[m-1] - cy) && onper(X[0] - cx, Y[0] - cy) && (m < n ==> onper(X[m] - cx, Y[m] - cy));
  use m >= 1 && m < n ==> cwAng(X[m] - cx, Y[m] - cy, X[m-1] - cx, Y[m-1] - cy);
  use m >= 2 ==> cwAng(X[m-1] - cx, Y[m-1] - cy, X[0] - cx, Y[0] - cy);
  use m >= 1 && m < n ==> cwAng(X[m] - cx, Y[m] - cy, X[0] - cx, Y[0] - cy);
  use m >= 1 ==> angRange(X[0] - cx, Y[0] - cy);
  use m >= 1 && m < n ==> crArc(X[m-1] - cx, Y[m-1] - cy, X[m] - cx, Y[m] - cy);
  use m >= 1 && m == n ==> crArc(X[0] - cx, Y[0] - cy, X[m-1] - cx, Y[m-1] - cy);
  use m >= 1 ==> shoeStep(X[m-1] - cx, Y[m-1] - cy, X[m == n ? 0 : m] - cx, Y[m == n ? 0 : m] - cy, cx, cy);
  use crAnti(X[0] - cx, Y[0] - cy, X[m-1] - cx, Y[m-1] - cy);
  ensures let S = shoe(m, n, X, Y) - cx*(Y[m == n ? 0 : m] - Y[0]) + cy*(X[m == n ? 0 : m] - X[0]) in let A = (m == n ? 4 : ang(X[m] - cx, Y[m] - cy) - ang(X[0] - cx, Y[0] - cy)) in
    S <= A/2 && S >= -1 && (A <= 2 ==> S >= 0);
}
lemma crAnti(real a, real b, real u, real v) { ensures cr(a, b, u, v) == -cr(u, v, a, b); }
lemma shoeUnit(int n, arr(real) X, arr(real) Y, real cx, real cy) {
  requires n >= 0 && A_per(n, X, Y, cx, cy) && A_sorted(n, X, Y, cx, cy);
  use n >= 1 ==> shoeRange(n, n, X, Y, cx, cy);
  ensures -1 <= shoe(n, n, X, Y) <= 2;
}
pred V_per(v, n, c) = A_per(n, arr(v[*].x), arr(v[*].y), c.x, c.y);
// any arrangement e0, e1, .. of the n <= 6 vertices as supplied that is in strict anticlockwise order gives the area
func pick(int a, int b, int c, int d, int e, int f): int = 0;
lemma pickAny(int a, int b, int c, int d, int e, int f) { ensures pick(a, b, c, d, e, f) == 0; }
pred V_cr(v, a, b) = v[a].x*v[b].y - v[b].x*v[a].y;
pred V_bef(v, o, a, b) = cw(v[a].x - o.x, v[a].y - o.y, v[b].x - o.x, v[b].y - o.y);
pred V_arr(v, o, n, a, b, c, d, e, f) = 3 <= n <= 6 && 0 <= a < n && 0 <= b < n && 0 <= c < n && (n > 3 ==> 0 <= d < n) && (n > 4 ==> 0 <= e < n) && (n > 5 ==> 0 <= f < n)
  && V_bef(v, o, a, b) && V_bef(v, o, b, c) && (n > 3 ==> V_bef(v, o, c, d)) && (n > 4 ==> V_bef(v, o, d, e)) && (n > 5 ==> V_bef(v, o, e, f));
// twice the area of the polygon a, b, c, .. (n corners)
func pgon(int n, real ax, real ay, real bx, real by, real px, real py, real dx, real dy, real ex, real ey, real fx, real fy): real =
  cr(ax, ay, bx, by) + cr(bx, by, px, py) + (n > 3 ? cr(px, py, dx, dy) : 0) + (n > 4 ? cr(dx, dy, ex, ey) : 0) + (n > 5 ? cr(ex, ey, fx, fy) : 0)
  + (n == 3 ? cr(px, py, ax, ay) : (n == 4 ? cr(dx, dy, ax, ay) : (n == 5 ? cr(ex, ey, ax, ay) : cr(fx, fy, ax, ay))));
pred V_sum(v, n, a, b, c, d, e, f) = pgon(n, v[a].x, v[a].y, v[b].x, v[b].y, v[c].x, v[c].y, n > 3 ? v[d].x : 0, n > 3 ? v[d].y : 0, n > 4 ? v[e].x : 0, n > 4 ? v[e].y : 0, n > 5 ? v[f].x : 0, n > 5 ? v[f].y : 0);
// the first n of v are w[a], w[b], ..
pred V_is(v, w, n, a, b, c, d, e, f) = V_eq(v, 0, w, a) && V_eq(v, 1, w, b) && V_eq(v, 2, w, c) && (n > 3 ==> V_eq(v, 3, w, d)) && (n > 4 ==> V_eq(v, 4, w, e)) && (n > 5 ==> V_eq(v, 5, w, f));
pred V_eq(v, i, w, j) = v[i].x == w[j].x && v[i].y == w[j].y;
lemma shoe6(int n, arr(real) X, arr(real) Y) {
  requires 3 <= n <= 6;
  assert shoe(1, n, X, Y) == X[0]*Y[1] - X[1]*Y[0];
  assert shoe(2, n, X, Y) == shoe(1, n, X, Y) + X[1]*Y[2] - X[2]*Y[1];
  assert shoe(3, n, X, Y) == X[0]*Y[1] - X[1]*Y[0] + X[1]*Y[2] - X[2]*Y[1] + X[2]*Y[n == 3 ? 0 : 3] - X[n == 3 ? 0 : 3]*Y[2];
  assert n > 3 ==> shoe(4, n, X, Y) == shoe(3, n, X, Y) + X[3]*Y[n == 4 ? 0 : 4] - X[n == 4 ? 0 : 4]*Y[3];
  assert n > 4 ==> shoe(5, n, X, Y) == shoe(4, n, X, Y) + X[4]*Y[n == 5 ? 0 : 5] - X[n == 5 ? 0 : 5]*Y[4];
  assert n > 5 ==> shoe(6, n, X, Y) == shoe(5, n, X, Y) + X[5]*Y[0] - X[0]*Y[5];
  ensures shoe(n, n, X, Y) == pgon(n, X[0], Y[0], X[1], Y[1], X[2], Y[2], n > 3 ? X[3] : 0, n > 3 ? Y[3] : 0, n > 4 ? X[4] : 0, n > 4 ? Y[4] : 0, n > 5 ? X[5] : 0, n > 5 ? Y[5] : 0);
}
contract LevelSet::polygonArea(vertices, nVertices, centre) {
  prop C14;
  hide cw, cr, ang, onper, pgon;
  requires nVertices <= vertices.size();
  assigns vertices;
  ensures vertices.size() == old(vertices.size());
  ensures [shoelace] result == abs(0.5*shoe(nVertices, nVertices, arr(vertices[*].x), arr(vertices[*].y)));
  ensures [anticlockwise] A_sorted(nVertices, arr(vertices[*].x), arr(vertices[*].y), centre.x, centre.y);
  ensures [unit] old(V_per(vertices, nVertices, centre)) ==> result <= 1;
  before_call sort use forall(real x, real y; {cw(x, y, x, y)} true; cwIrr(x, y));
  before_call sort use cwIrr($p.x - centre.x, $p.y - centre.y);
  before_call sort use cwAsym($p.x - centre.x, $p.y - centre.y, $q.x - centre.x, $q.y - centre.y);
  before_call sort use cwTrans($p.x - centre.x, $p.y - centre.y, $q.x - centre.x, $q.y - centre.y, $r.x - centre.x, $r.y - centre.y);
  before_call sort use cwNeg($p.x - centre.x, $p.y - centre.y, $q.x - centre.x, $q.y - centre.y, $r.x - centre.x, $r.y - centre.y);
  after_call sort assert A_sorted(nVertices, arr(vertices[*].x), arr(vertices[*].y), centre.x, centre.y);
  after_call sort assert old(V_per(vertices, nVertices, centre)) ==> V_per(vertices, nVertices, centre);
  after_call sort use shoeUnit(nVertices, arr(vertices[*].x), arr(vertices[*].y), centre.x, centre.y);
  ensures [order-free] forall(a, b, c, d, e, f; {pick(a, b, c, d, e, f)} old(V_arr(vertices, centre, nVertices, a, b, c, d, e, f)); result == abs(0.5*old(V_sum(vertices, nVertices, a, b, c, d, e, f))));
  after_call sort assert forall(i; {$rank[i]} 0 <= i < nVertices; 0 <= $rank[i] && $rank[i] < nVertices && vertices[$rank[i]].x == $old[i].x && vertices[$rank[i]].y == $old[i].y);
  after_call sort assert forall(i, k; {$rank[i], $rank[k]} 0 <= i < nVertices && 0 <= k < nVertices && V_bef($old, centre, i, k); $rank[i] < $rank[k]);
  after_call sort assert forall(a, b, c, d, e, f; {pick(a, b, c, d, e, f)} V_arr($old, centre, nVertices, a, b, c, d, e, f);
    0 <= $rank[a] && $rank[a] < $rank[b] && $rank[b] < $rank[c] && (nVertices > 3 ==> $rank[c] < $rank[d]) && (nVertices > 4 ==> $rank[d] < $rank[e]) && (nVertices > 5 ==> $rank[e] < $rank[f])
    && $rank[c] < nVertices && (nVertices > 3 ==> $rank[d] < nVertices) && (nVertices > 4 ==> $rank[e] < nVertices) && (nVertices > 5 ==> $rank[f] < nVertices));
  after_call sort assert forall(a, b, c, d, e, f; {pick(a, b, c, d, e, f)} V_arr($old, centre, nVertices, a, b, c, d, e, f);
    $rank[a] == 0 && $rank[b] == 1 && $rank[c] == 2 && (nVertices > 3 ==> $rank[d] == 3) && (nVertices > 4 ==> $rank[e] == 4) && (nVertices > 5 ==> $rank[f] == 5));
  after_call sort assert forall(a, b, c, d, e, f; {pick(a, b, c, d, e, f)} V_arr($old, centre, nVertices, a, b, c, d, e, f); V_is(vertices, $old, nVertices, a, b, c, d, e, f));
  after_call sort assert forall(a, b, c, d, e, f; {pick(a, b, c, d, e, f)} V_arr($old, centre, nVertices, a, b, c, d, e, f); V_sum($old, nVertices, a, b, c, d, e, f) == V_sum(vertices, nVertices, 0, 1, 2, 3, 4, 5));
  exit use 3 <= nVertices && nVertices <= 6 ==> shoe6(nVertices, arr(vertices[*].x), arr(vertices[*].y));
  loop 1 {
    inv area == shoe($i, nVertices, arr(vertices[*].x), arr(vertices[*].y));
    dec nVertices - $i;
  }
}
lemma cwNeg(real a, real b, real u, real v, real x, real y) {
  use cwTotal(a, b, u, v); use cwTotal(u, v, x, y);
  use cwTrans(x, y, u, v, a, b); use cwAsym(x, y, a, b);
  hide cw;
  ensures !cw(a, b, u, v) && !cw(u, v, x, y) ==> !cw(a, b, x, y);
}
// ---- one element
pred C_nx(m, e, j) = m.nodes[e.nodes[j]].coord.x;
pred C_ny(m, e, j) = m.nodes[e.nodes[j]].coord.y;
// the cell: its corners anticlockwise from the lower left
pred C_cell(m, e) = e.nodes.size() == 4 && e.nodes[0] < m.nNodes && e.nodes[1] < m.nNodes && e.nodes[2] < m.nNodes && e.nodes[3] < m.nNodes && m.nodes.size() == m.nNodes
  && C_nx(m, e, 0) == e.coord.x - 0.5 && C_ny(m, e, 0) == e.coord.y - 0.5 && C_nx(m, e, 1) == e.coord.x + 0.5 && C_ny(m, e, 1) == e.coord.y - 0.5
  && C_nx(m, e, 2) == e.coord.x + 0.5 && C_ny(m, e, 2) == e.coord.y + 0.5 && C_nx(m, e, 3) == e.coord.x - 0.5 && C_ny(m, e, 3) == e.coord.y + 0.5;
pred C_ok3(m, e) = B_st3(C_st(m, e, 0)) && B_st3(C_st(m, e, 1)) && B_st3(C_st(m, e, 2)) && B_st3(C_st(m, e, 3));
// corner j is a vertex of the polygon: on the side looked for, or a boundary node between two inside nodes
pred C_inc(m, e, j) = (j == 0 ? C_incl(m, e, 0, 1, 3) : (j == 1 ? C_incl(m, e, 1, 2, 0) : (j == 2 ? C_incl(m, e, 2, 3, 1) : C_incl(m, e, 3, 0, 2))));
pred C_sx(b, e, k) = b.points[b.segments[e.boundarySegments[k]].start].coord.x;
pred C_sy(b, e, k) = b.points[b.segments[e.boundarySegments[k]].start].coord.y;
pred C_ex(b, e, k) = b.points[b.segments[e.boundarySegments[k]].end].coord.x;
pred C_ey(b, e, k) = b.points[b.segments[e.boundarySegments[k]].end].coord.y;
pred C_segs(b, e) = e.nBoundarySegments <= e.boundarySegments.size() && forall(k; {e.boundarySegments[k]} 0 <= k < e.nBoundarySegments; e.boundarySegments[k] < b.segments.size()
   && b.segments[e.boundarySegments[k]].start < b.points.size() && b.segments[e.boundarySegments[k]].end < b.points.size());
pred C_perim(b, e) = forall(k; {e.boundarySegments[k]} 0 <= k < e.nBoundarySegments; onper(C_sx(b, e, k) - e.coord.x, C_sy(b, e, k) - e.coord.y) && onper(C_ex(b, e, k) - e.coord.x, C_ey(b, e, k) - e.coord.y));
pred V_at(v, i, X, Y) = v[i].x == X && v[i].y == Y;
pred V_onp(v, i, c) = onper(v[i].x - c.x, v[i].y - c.y);
pred V_nodes(v, m, e) = (C_inc(m, e, 0) ==> V_at(v, 0, C_nx(m, e, 0), C_ny(m, e, 0))) && (C_inc(m, e, 1) ==> V_at(v, C_n(m, e, 1), C_nx(m, e, 1), C_ny(m, e, 1)))
  && (C_inc(m, e, 2) ==> V_at(v, C_n(m, e, 2), C_nx(m, e, 2), C_ny(m, e, 2))) && (C_inc(m, e, 3) ==> V_at(v, C_n(m, e, 3), C_nx(m, e, 3), C_ny(m, e, 3)));
pred V_ends(v, b, m, e, k) = forall(s; {e.boundarySegments[s]} 0 <= s < k; V_at(v, C_n(m, e, 4) + 2*s, C_sx(b, e, s), C_sy(b, e, s)) && V_at(v, C_n(m, e, 4) + 2*s + 1, C_ex(b, e, s), C_ey(b, e, s)));
// position of a point along edge j, from corner j
pred C_on(x, y, e, j) = j == 0 ? y == e.coord.y - 0.5 && e.coord.x - 0.5 < x < e.coord.x + 0.5 : (j == 1 ? x == e.coord.x + 0.5 && e.coord.y - 0.5 < y < e.coord.y + 0.5
  : (j == 2 ? y == e.coord.y + 0.5 && e.coord.x - 0.5 < x < e.coord.x + 0.5 : x == e.coord.x - 0.5 && e.coord.y - 0.5 < y < e.coord.y + 0.5));
pred C_pos(x, y, e, j) = j == 0 ? x - e.coord.x + 0.5 : (j == 1 ? y - e.coord.y + 0.5 : (j == 2 ? e.coord.x + 0.5 - x : e.coord.y + 0.5 - y));
pred C_code(m, e, a, b, c, d) = C_st(m, e, 0) == a && C_st(m, e, 1) == b && C_st(m, e, 2) == c && C_st(m, e, 3) == d;
pred C_one(b, e, i, j) = e.nBoundarySegments == 1 && C_on(C_sx(b, e, 0), C_sy(b, e, 0), e, i) && C_on(C_ex(b, e, 0), C_ey(b, e, 0), e, j);
pred C_two(b, e, i, j, k, l) = e.nBoundarySegments == 2 && C_on(C_sx(b, e, 0), C_sy(b, e, 0), e, i) && C_on(C_ex(b, e, 0), C_ey(b, e, 0), e, j) && C_on(C_sx(b, e, 1), C_sy(b, e, 1), e, k) && C_on(C_ex(b, e, 1), C_ey(b, e, 1), e, l);
pred C_s(b, e, k, j) = C_pos(C_sx(b, e, k), C_sy(b, e, k), e, j);
pred C_e(b, e, k, j) = C_pos(C_ex(b, e, k), C_ey(b, e, k), e, j);
pred C_IOOO(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE) && C_one(b, e, 0, 3) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 3) in r == tri(s, 1-t));
pred C_OIOO(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE) && C_one(b, e, 0, 1) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 1) in r == tri(1-s, t));
pred C_OOIO(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(b, e, 1, 2) ==> (let s = C_s(b, e, 0, 1) in let t = C_e(b, e, 0, 2) in r == tri(1-s, t));
pred C_OOOI(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(b, e, 2, 3) ==> (let s = C_s(b, e, 0, 2) in let t = C_e(b, e, 0, 3) in r == tri(1-s, t));
pred C_OIII(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE) && C_one(b, e, 0, 3) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 3) in r == 1 - tri(s, 1-t));
pred C_IOII(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE) && C_one(b, e, 0, 1) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 1) in r == 1 - tri(1-s, t));
pred C_IIOI(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(b, e, 1, 2) ==> (let s = C_s(b, e, 0, 1) in let t = C_e(b, e, 0, 2) in r == 1 - tri(1-s, t));
pred C_IIIO(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(b, e, 2, 3) ==> (let s = C_s(b, e, 0, 2) in let t = C_e(b, e, 0, 3) in r == 1 - tri(1-s, t));
pred C_IIOO(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE) && C_one(b, e, 1, 3) ==> (let s = C_s(b, e, 0, 1) in let t = C_e(b, e, 0, 3) in r == (s + 1 - t)/2);
pred C_OIIO(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(b, e, 0, 2) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 2) in r == (1 - s + t)/2);
pred C_OOII(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE) && C_one(b, e, 1, 3) ==> (let s = C_s(b, e, 0, 1) in let t = C_e(b, e, 0, 3) in r == (1 - s + t)/2);
pred C_IOOI(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(b, e, 0, 2) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 2) in r == (s + 1 - t)/2);
pred C_IOIOI(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_two(b, e, 0, 1, 2, 3) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 1) in let u = C_s(b, e, 1, 2) in let v = C_e(b, e, 1, 3) in r == 1 - (tri(1-s, t) + tri(1-u, v)));
pred C_IOIOO(m, b, e, r) = C_side(e) == NodeStatus::OUTSIDE && C_code(m, e, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_two(b, e, 0, 3, 1, 2) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 3) in let u = C_s(b, e, 1, 1) in let v = C_e(b, e, 1, 2) in r == tri(s, 1-t) + tri(1-u, v));
pred C_OIOII(m, b, e, r) = C_side(e) == NodeStatus::INSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_two(b, e, 0, 3, 1, 2) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 3) in let u = C_s(b, e, 1, 1) in let v = C_e(b, e, 1, 2) in r == 1 - (tri(s, 1-t) + tri(1-u, v)));
pred C_OIOIO(m, b, e, r) = C_side(e) == NodeStatus::OUTSIDE && C_code(m, e, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_two(b, e, 0, 1, 2, 3) ==> (let s = C_s(b, e, 0, 0) in let t = C_e(b, e, 0, 1) in let u = C_s(b, e, 1, 2) in let v = C_e(b, e, 1, 3) in r == tri(1-s, t) + tri(1-u, v));
func epos(real x, real y, int j): real = j == 0 ? x + 0.5 : (j == 1 ? y + 0.5 : (j == 2 ? 0.5 - x : 0.5 - y));
func eon(real x, real y, int j): bool = j == 0 ? y == -0.5 && -0.5 < x && x < 0.5 : (j == 1 ? x == 0.5 && -0.5 < y && y < 0.5 : (j == 2 ? y == 0.5 && -0.5 < x && x < 0.5 : x == -0.5 && -0.5 < y && y < 0.5));
lemma L_IOOO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && eon(x1 - cx, y1 - cy, 0) && eon(x2 - cx, y2 - cy, 3);
  ensures cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy);
  ensures pgon(3, x2, y2, x0, y0, x1, y1, 0, 0, 0, 0, 0, 0) >= 0 && (let s = epos(x1 - cx, y1 - cy, 0) in let t = epos(x2 - cx, y2 - cy, 3) in pgon(3, x2, y2, x0, y0, x1, y1, 0, 0, 0, 0, 0, 0) == 2*(tri(s, 1-t)));
}
lemma L_OIOO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && eon(x1 - cx, y1 - cy, 0) && eon(x2 - cx, y2 - cy, 1);
  ensures cw(x1 - cx, y1 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy);
  ensures pgon(3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0, 0, 0) >= 0 && (let s = epos(x1 - cx, y1 - cy, 0) in let t = epos(x2 - cx, y2 - cy, 1) in pgon(3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0, 0, 0) == 2*(tri(1-s, t)));
}
lemma L_OOIO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2) {
  requires x0 == cx + (0.5) && y0 == cy + (0.5) && eon(x1 - cx, y1 - cy, 1) && eon(x2 - cx, y2 - cy, 2) && x2 >= cx;
  ensures cw(x1 - cx, y1 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy);
  ensures pgon(3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0, 0, 0) >= 0 && (let s = epos(x1 - cx, y1 - cy, 1) in let t = epos(x2 - cx, y2 - cy, 2) in pgon(3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0, 0, 0) == 2*(tri(1-s, t)));
}
lemma L_OOIOt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2) {
  requires x0 == cx + (0.5) && y0 == cy + (0.5) && eon(x1 - cx, y1 - cy, 1) && eon(x2 - cx, y2 - cy, 2) && x2 < cx;
  ensures cw(x2 - cx, y2 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x0 - cx, y0 - cy);
  ensures pgon(3, x2, y2, x1, y1, x0, y0, 0, 0, 0, 0, 0, 0) >= 0 && (let s = epos(x1 - cx, y1 - cy, 1) in let t = epos(x2 - cx, y2 - cy, 2) in pgon(3, x2, y2, x1, y1, x0, y0, 0, 0, 0, 0, 0, 0) == 2*(tri(1-s, t)));
}
lemma L_OOOI(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2) {
  requires x0 == cx + (-0.5) && y0 == cy + (0.5) && eon(x1 - cx, y1 - cy, 2) && x1 >= cx && eon(x2 - cx, y2 - cy, 3);
  ensures cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x1 - cx, y1 - cy);
  ensures pgon(3, x0, y0, x2, y2, x1, y1, 0, 0, 0, 0, 0, 0) >= 0 && (let s = epos(x1 - cx, y1 - cy, 2) in let t = epos(x2 - cx, y2 - cy, 3) in pgon(3, x0, y0, x2, y2, x1, y1, 0, 0, 0, 0, 0, 0) == 2*(tri(1-s, t)));
}
lemma L_OOOIt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2) {
  requires x0 == cx + (-0.5) && y0 == cy + (0.5) && eon(x1 - cx, y1 - cy, 2) && x1 < cx && eon(x2 - cx, y2 - cy, 3);
  ensures cw(x1 - cx, y1 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy);
  ensures pgon(3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0, 0, 0) >= 0 && (let s = epos(x1 - cx, y1 - cy, 2) in let t = epos(x2 - cx, y2 - cy, 3) in pgon(3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0, 0, 0) == 2*(tri(1-s, t)));
}
lemma L_OIII(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && x2 == cx + (-0.5) && y2 == cy + (0.5) && eon(x3 - cx, y3 - cy, 0) && eon(x4 - cx, y4 - cy, 3);
  ensures cw(x2 - cx, y2 - cy, x4 - cx, y4 - cy) && cw(x4 - cx, y4 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy);
  ensures pgon(5, x2, y2, x4, y4, x3, y3, x0, y0, x1, y1, 0, 0) >= 0 && (let s = epos(x3 - cx, y3 - cy, 0) in let t = epos(x4 - cx, y4 - cy, 3) in pgon(5, x2, y2, x4, y4, x3, y3, x0, y0, x1, y1, 0, 0) == 2*(1 - tri(s, 1-t)));
}
lemma L_IOII(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && x2 == cx + (-0.5) && y2 == cy + (0.5) && eon(x3 - cx, y3 - cy, 0) && eon(x4 - cx, y4 - cy, 1);
  ensures cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x4 - cx, y4 - cy) && cw(x4 - cx, y4 - cy, x1 - cx, y1 - cy);
  ensures pgon(5, x2, y2, x0, y0, x3, y3, x4, y4, x1, y1, 0, 0) >= 0 && (let s = epos(x3 - cx, y3 - cy, 0) in let t = epos(x4 - cx, y4 - cy, 1) in pgon(5, x2, y2, x0, y0, x3, y3, x4, y4, x1, y1, 0, 0) == 2*(1 - tri(1-s, t)));
}
lemma L_IIOI(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (-0.5) && x2 == cx + (-0.5) && y2 == cy + (0.5) && eon(x3 - cx, y3 - cy, 1) && eon(x4 - cx, y4 - cy, 2) && x4 >= cx;
  ensures cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x4 - cx, y4 - cy);
  ensures pgon(5, x2, y2, x0, y0, x1, y1, x3, y3, x4, y4, 0, 0) >= 0 && (let s = epos(x3 - cx, y3 - cy, 1) in let t = epos(x4 - cx, y4 - cy, 2) in pgon(5, x2, y2, x0, y0, x1, y1, x3, y3, x4, y4, 0, 0) == 2*(1 - tri(1-s, t)));
}
lemma L_IIOIt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (-0.5) && x2 == cx + (-0.5) && y2 == cy + (0.5) && eon(x3 - cx, y3 - cy, 1) && eon(x4 - cx, y4 - cy, 2) && x4 < cx;
  ensures cw(x4 - cx, y4 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy);
  ensures pgon(5, x4, y4, x2, y2, x0, y0, x1, y1, x3, y3, 0, 0) >= 0 && (let s = epos(x3 - cx, y3 - cy, 1) in let t = epos(x4 - cx, y4 - cy, 2) in pgon(5, x4, y4, x2, y2, x0, y0, x1, y1, x3, y3, 0, 0) == 2*(1 - tri(1-s, t)));
}
lemma L_IIIO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (-0.5) && x2 == cx + (0.5) && y2 == cy + (0.5) && eon(x3 - cx, y3 - cy, 2) && x3 >= cx && eon(x4 - cx, y4 - cy, 3);
  ensures cw(x4 - cx, y4 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x3 - cx, y3 - cy);
  ensures pgon(5, x4, y4, x0, y0, x1, y1, x2, y2, x3, y3, 0, 0) >= 0 && (let s = epos(x3 - cx, y3 - cy, 2) in let t = epos(x4 - cx, y4 - cy, 3) in pgon(5, x4, y4, x0, y0, x1, y1, x2, y2, x3, y3, 0, 0) == 2*(1 - tri(1-s, t)));
}
lemma L_IIIOt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (-0.5) && x2 == cx + (0.5) && y2 == cy + (0.5) && eon(x3 - cx, y3 - cy, 2) && x3 < cx && eon(x4 - cx, y4 - cy, 3);
  ensures cw(x3 - cx, y3 - cy, x4 - cx, y4 - cy) && cw(x4 - cx, y4 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x2 - cx, y2 - cy);
  ensures pgon(5, x3, y3, x4, y4, x0, y0, x1, y1, x2, y2, 0, 0) >= 0 && (let s = epos(x3 - cx, y3 - cy, 2) in let t = epos(x4 - cx, y4 - cy, 3) in pgon(5, x3, y3, x4, y4, x0, y0, x1, y1, x2, y2, 0, 0) == 2*(1 - tri(1-s, t)));
}
lemma L_IIOO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (-0.5) && eon(x2 - cx, y2 - cy, 1) && eon(x3 - cx, y3 - cy, 3);
  ensures cw(x3 - cx, y3 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x2 - cx, y2 - cy);
  ensures pgon(4, x3, y3, x0, y0, x1, y1, x2, y2, 0, 0, 0, 0) >= 0 && (let s = epos(x2 - cx, y2 - cy, 1) in let t = epos(x3 - cx, y3 - cy, 3) in pgon(4, x3, y3, x0, y0, x1, y1, x2, y2, 0, 0, 0, 0) == 2*((s + 1 - t)/2));
}
lemma L_OIIO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 2) && x3 >= cx;
  ensures cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy);
  ensures pgon(4, x2, y2, x0, y0, x1, y1, x3, y3, 0, 0, 0, 0) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 2) in pgon(4, x2, y2, x0, y0, x1, y1, x3, y3, 0, 0, 0, 0) == 2*((1 - s + t)/2));
}
lemma L_OIIOt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 2) && x3 < cx;
  ensures cw(x3 - cx, y3 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x1 - cx, y1 - cy);
  ensures pgon(4, x3, y3, x2, y2, x0, y0, x1, y1, 0, 0, 0, 0) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 2) in pgon(4, x3, y3, x2, y2, x0, y0, x1, y1, 0, 0, 0, 0) == 2*((1 - s + t)/2));
}
lemma L_OOII(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3) {
  requires x0 == cx + (0.5) && y0 == cy + (0.5) && x1 == cx + (-0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 1) && eon(x3 - cx, y3 - cy, 3);
  ensures cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy);
  ensures pgon(4, x1, y1, x3, y3, x2, y2, x0, y0, 0, 0, 0, 0) >= 0 && (let s = epos(x2 - cx, y2 - cy, 1) in let t = epos(x3 - cx, y3 - cy, 3) in pgon(4, x1, y1, x3, y3, x2, y2, x0, y0, 0, 0, 0, 0) == 2*((1 - s + t)/2));
}
lemma L_IOOI(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (-0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 2) && x3 >= cx;
  ensures cw(x1 - cx, y1 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x3 - cx, y3 - cy);
  ensures pgon(4, x1, y1, x0, y0, x2, y2, x3, y3, 0, 0, 0, 0) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 2) in pgon(4, x1, y1, x0, y0, x2, y2, x3, y3, 0, 0, 0, 0) == 2*((s + 1 - t)/2));
}
lemma L_IOOIt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (-0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 2) && x3 < cx;
  ensures cw(x3 - cx, y3 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy);
  ensures pgon(4, x3, y3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 2) in pgon(4, x3, y3, x1, y1, x0, y0, x2, y2, 0, 0, 0, 0) == 2*((s + 1 - t)/2));
}
lemma L_IOIOI(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 1) && eon(x4 - cx, y4 - cy, 2) && x4 >= cx && eon(x5 - cx, y5 - cy, 3);
  ensures cw(x5 - cx, y5 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x4 - cx, y4 - cy);
  ensures pgon(6, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1, x4, y4) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 1) in let u = epos(x4 - cx, y4 - cy, 2) in let v = epos(x5 - cx, y5 - cy, 3) in pgon(6, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1, x4, y4) == 2*(1 - (tri(1-s, t) + tri(1-u, v))));
}
lemma L_IOIOIt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 1) && eon(x4 - cx, y4 - cy, 2) && x4 < cx && eon(x5 - cx, y5 - cy, 3);
  ensures cw(x4 - cx, y4 - cy, x5 - cx, y5 - cy) && cw(x5 - cx, y5 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x1 - cx, y1 - cy);
  ensures pgon(6, x4, y4, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 1) in let u = epos(x4 - cx, y4 - cy, 2) in let v = epos(x5 - cx, y5 - cy, 3) in pgon(6, x4, y4, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1) == 2*(1 - (tri(1-s, t) + tri(1-u, v))));
}
lemma L_IOIOO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && x1 == cx + (-0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 3) && eon(x4 - cx, y4 - cy, 1) && eon(x5 - cx, y5 - cy, 2) && x5 >= cx;
  ensures cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x4 - cx, y4 - cy) && cw(x4 - cx, y4 - cy, x5 - cx, y5 - cy);
  ensures pgon(6, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4, x5, y5) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 3) in let u = epos(x4 - cx, y4 - cy, 1) in let v = epos(x5 - cx, y5 - cy, 2) in pgon(6, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4, x5, y5) == 2*(1 - (tri(s, 1-t) + tri(1-u, v))));
}
lemma L_IOIOOt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && x1 == cx + (-0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 3) && eon(x4 - cx, y4 - cy, 1) && eon(x5 - cx, y5 - cy, 2) && x5 < cx;
  ensures cw(x5 - cx, y5 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x4 - cx, y4 - cy);
  ensures pgon(6, x5, y5, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 3) in let u = epos(x4 - cx, y4 - cy, 1) in let v = epos(x5 - cx, y5 - cy, 2) in pgon(6, x5, y5, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4) == 2*(1 - (tri(s, 1-t) + tri(1-u, v))));
}
lemma L_OIOII(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && x1 == cx + (-0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 3) && eon(x4 - cx, y4 - cy, 1) && eon(x5 - cx, y5 - cy, 2) && x5 >= cx;
  ensures cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x4 - cx, y4 - cy) && cw(x4 - cx, y4 - cy, x5 - cx, y5 - cy);
  ensures pgon(6, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4, x5, y5) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 3) in let u = epos(x4 - cx, y4 - cy, 1) in let v = epos(x5 - cx, y5 - cy, 2) in pgon(6, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4, x5, y5) == 2*(1 - (tri(s, 1-t) + tri(1-u, v))));
}
lemma L_OIOIIt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (0.5) && y0 == cy + (-0.5) && x1 == cx + (-0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 3) && eon(x4 - cx, y4 - cy, 1) && eon(x5 - cx, y5 - cy, 2) && x5 < cx;
  ensures cw(x5 - cx, y5 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x4 - cx, y4 - cy);
  ensures pgon(6, x5, y5, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 3) in let u = epos(x4 - cx, y4 - cy, 1) in let v = epos(x5 - cx, y5 - cy, 2) in pgon(6, x5, y5, x1, y1, x3, y3, x2, y2, x0, y0, x4, y4) == 2*(1 - (tri(s, 1-t) + tri(1-u, v))));
}
lemma L_OIOIO(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 1) && eon(x4 - cx, y4 - cy, 2) && x4 >= cx && eon(x5 - cx, y5 - cy, 3);
  ensures cw(x5 - cx, y5 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x1 - cx, y1 - cy) && cw(x1 - cx, y1 - cy, x4 - cx, y4 - cy);
  ensures pgon(6, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1, x4, y4) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 1) in let u = epos(x4 - cx, y4 - cy, 2) in let v = epos(x5 - cx, y5 - cy, 3) in pgon(6, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1, x4, y4) == 2*(1 - (tri(1-s, t) + tri(1-u, v))));
}
lemma L_OIOIOt(real cx, real cy, real x0, real y0, real x1, real y1, real x2, real y2, real x3, real y3, real x4, real y4, real x5, real y5) {
  requires x0 == cx + (-0.5) && y0 == cy + (-0.5) && x1 == cx + (0.5) && y1 == cy + (0.5) && eon(x2 - cx, y2 - cy, 0) && eon(x3 - cx, y3 - cy, 1) && eon(x4 - cx, y4 - cy, 2) && x4 < cx && eon(x5 - cx, y5 - cy, 3);
  ensures cw(x4 - cx, y4 - cy, x5 - cx, y5 - cy) && cw(x5 - cx, y5 - cy, x0 - cx, y0 - cy) && cw(x0 - cx, y0 - cy, x2 - cx, y2 - cy) && cw(x2 - cx, y2 - cy, x3 - cx, y3 - cy) && cw(x3 - cx, y3 - cy, x1 - cx, y1 - cy);
  ensures pgon(6, x4, y4, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1) >= 0 && (let s = epos(x2 - cx, y2 - cy, 0) in let t = epos(x3 - cx, y3 - cy, 1) in let u = epos(x4 - cx, y4 - cy, 2) in let v = epos(x5 - cx, y5 - cy, 3) in pgon(6, x4, y4, x5, y5, x0, y0, x2, y2, x3, y3, x1, y1) == 2*(1 - (tri(1-s, t) + tri(1-u, v))));
}
contract LevelSet::cutArea(element, boundary) {
  prop C14;
  hide cr, cw, ang, tri, pgon;
  requires C_cell(mesh, element) && C_ok3(mesh, element) && C_segs(boundary, element);
  requires C_n(mesh, element, 4) + 2*element.nBoundarySegments <= 6;
  // the vertices of the polygon are the corners on its side and the ends of the segments
  before_call polygonArea assert $arg1.size() >= 6 && $arg2 == C_n(mesh, element, 4) + 2*element.nBoundarySegments && eqv($arg3, element.coord);
  before_call polygonArea assert V_nodes($arg1, mesh, element);
  before_call polygonArea assert V_ends($arg1, boundary, mesh, element, element.nBoundarySegments);
  before_call polygonArea assert (C_inc(mesh, element, 0) ==> V_onp($arg1, 0, $arg3)) && (C_inc(mesh, element, 1) ==> V_onp($arg1, C_n(mesh, element, 1), $arg3)) && (C_inc(mesh, element, 2) ==> V_onp($arg1, C_n(mesh, element, 2), $arg3)) && (C_inc(mesh, element, 3) ==> V_onp($arg1, C_n(mesh, element, 3), $arg3));
  before_call polygonArea assert C_perim(boundary, element) ==> (element.nBoundarySegments > 0 ==> element.boundarySegments[0] >= 0 && V_onp($arg1, C_n(mesh, element, 4), $arg3) && V_onp($arg1, C_n(mesh, element, 4) + 1, $arg3))
    && (element.nBoundarySegments > 1 ==> element.boundarySegments[1] >= 0 && V_onp($arg1, C_n(mesh, element, 4) + 2, $arg3) && V_onp($arg1, C_n(mesh, element, 4) + 3, $arg3))
    && (element.nBoundarySegments > 2 ==> element.boundarySegments[2] >= 0 && V_onp($arg1, C_n(mesh, element, 4) + 4, $arg3) && V_onp($arg1, C_n(mesh, element, 4) + 5, $arg3));
  before_call polygonArea assert C_perim(boundary, element) ==> V_per($arg1, $arg2, $arg3);
  ensures [side] result == ((element.status & ElementStatus::CENTRE_OUTSIDE) != 0 ? 1 - last(polygonArea) : last(polygonArea));
  ensures [unit] C_perim(boundary, element) ==> 0 <= result <= 1;
  before_call polygonArea use pickAny(0, 2, 1, 0, 0, 0);
  before_call polygonArea use pickAny(1, 0, 2, 0, 0, 0);
  before_call polygonArea use pickAny(1, 0, 2, 3, 0, 0);
  before_call polygonArea use pickAny(1, 3, 2, 0, 0, 0);
  before_call polygonArea use pickAny(1, 3, 2, 0, 4, 5);
  before_call polygonArea use pickAny(2, 0, 1, 0, 0, 0);
  before_call polygonArea use pickAny(2, 0, 1, 3, 0, 0);
  before_call polygonArea use pickAny(2, 0, 1, 3, 4, 0);
  before_call polygonArea use pickAny(2, 0, 3, 4, 1, 0);
  before_call polygonArea use pickAny(2, 1, 0, 0, 0, 0);
  before_call polygonArea use pickAny(2, 4, 3, 0, 1, 0);
  before_call polygonArea use pickAny(3, 0, 1, 2, 0, 0);
  before_call polygonArea use pickAny(3, 1, 0, 2, 0, 0);
  before_call polygonArea use pickAny(3, 2, 0, 1, 0, 0);
  before_call polygonArea use pickAny(3, 4, 0, 1, 2, 0);
  before_call polygonArea use pickAny(4, 0, 1, 2, 3, 0);
  before_call polygonArea use pickAny(4, 2, 0, 1, 3, 0);
  before_call polygonArea use pickAny(4, 5, 0, 2, 3, 1);
  before_call polygonArea use pickAny(5, 0, 2, 3, 1, 4);
  before_call polygonArea use pickAny(5, 1, 3, 2, 0, 4);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 0, 3) ==> L_IOOO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 0, 1) ==> L_OIOO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 1, 2) ==> L_OOIO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 1, 2) ==> L_OOIOt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 2, 3) ==> L_OOOI($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 2, 3) ==> L_OOOIt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 0, 3) ==> L_OIII($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 0, 1) ==> L_IOII($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 1, 2) ==> L_IIOI($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 1, 2) ==> L_IIOIt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 2, 3) ==> L_IIIO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 2, 3) ==> L_IIIOt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 1, 3) ==> L_IIOO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 0, 2) ==> L_OIIO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_one(boundary, element, 0, 2) ==> L_OIIOt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 1, 3) ==> L_OOII($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 0, 2) ==> L_IOOI($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_one(boundary, element, 0, 2) ==> L_IOOIt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_two(boundary, element, 0, 1, 2, 3) ==> L_IOIOI($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_two(boundary, element, 0, 1, 2, 3) ==> L_IOIOIt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  before_call polygonArea use C_side(element) == NodeStatus::OUTSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_two(boundary, element, 0, 3, 1, 2) ==> L_IOIOO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  before_call polygonArea use C_side(element) == NodeStatus::OUTSIDE && C_code(mesh, element, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE) && C_two(boundary, element, 0, 3, 1, 2) ==> L_IOIOOt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_two(boundary, element, 0, 3, 1, 2) ==> L_OIOII($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  before_call polygonArea use C_side(element) == NodeStatus::INSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_two(boundary, element, 0, 3, 1, 2) ==> L_OIOIIt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  before_call polygonArea use C_side(element) == NodeStatus::OUTSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_two(boundary, element, 0, 1, 2, 3) ==> L_OIOIO($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  before_call polygonArea use C_side(element) == NodeStatus::OUTSIDE && C_code(mesh, element, NodeStatus::OUTSIDE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::INSIDE) && C_two(boundary, element, 0, 1, 2, 3) ==> L_OIOIOt($arg3.x, $arg3.y, $arg1[0].x, $arg1[0].y, $arg1[1].x, $arg1[1].y, $arg1[2].x, $arg1[2].y, $arg1[3].x, $arg1[3].y, $arg1[4].x, $arg1[4].y, $arg1[5].x, $arg1[5].y);
  ensures [IOOO] C_IOOO(mesh, boundary, element, result);
  ensures [OIOO] C_OIOO(mesh, boundary, element, result);
  ensures [OOIO] C_OOIO(mesh, boundary, element, result);
  ensures [OOOI] C_OOOI(mesh, boundary, element, result);
  ensures [OIII] C_OIII(mesh, boundary, element, result);
  ensures [IOII] C_IOII(mesh, boundary, element, result);
  ensures [IIOI] C_IIOI(mesh, boundary, element, result);
  ensures [IIIO] C_IIIO(mesh, boundary, element, result);
  ensures [IIOO] C_IIOO(mesh, boundary, element, result);
  ensures [OIIO] C_OIIO(mesh, boundary, element, result);
  ensures [OOII] C_OOII(mesh, boundary, element, result);
  ensures [IOOI] C_IOOI(mesh, boundary, element, result);
  ensures [IOIOI] C_IOIOI(mesh, boundary, element, result);
  ensures [IOIOO] C_IOIOO(mesh, boundary, element, result);
  ensures [OIOII] C_OIOII(mesh, boundary, element, result);
  ensures [OIOIO] C_OIOIO(mesh, boundary, element, result);
  loop 1 {
    inv V_nodes(vertices, mesh, element) && V_ends(vertices, boundary, mesh, element, $i);
    inv vertices.size() == 6 && nVertices == C_n(mesh, element, 4) + 2*$i;
  }
}
pred C_all(m, b, e, r) = C_IOOO(m, b, e, r) && C_OIOO(m, b, e, r) && C_OOIO(m, b, e, r) && C_OOOI(m, b, e, r) && C_OIII(m, b, e, r) && C_IOII(m, b, e, r) && C_IIOI(m, b, e, r) && C_IIIO(m, b, e, r) && C_IIOO(m, b, e, r) && C_OIIO(m, b, e, r) && C_OOII(m, b, e, r) && C_IOOI(m, b, e, r) && C_IOIOI(m, b, e, r) && C_IOIOO(m, b, e, r) && C_OIOII(m, b, e, r) && C_OIOIO(m, b, e, r);
// ---- all elements
func asum(int n, arr(real) A): real = n <= 0 ? 0 : asum(n-1, A) + A[n-1];
lemma asumFrame(int n, arr(real) A, arr(real) B) {
  requires forall(k; {A[k]} 0 <= k < n; A[k] == B[k]);
  induct n;
  ensures asum(n, A) == asum(n, B);
}
pred A_frac(L, b, e) = let m = L.mesh in
  ((m.elements[e].status & ElementStatus::INSIDE) != 0 ==> m.elements[e].area == 1)
  && ((m.elements[e].status & ElementStatus::INSIDE) == 0 && (m.elements[e].status & ElementStatus::OUTSIDE) != 0 ==> m.elements[e].area == 0)
  && (A_cut(m, e) ==> C_all(m, b, m.elements[e], m.elements[e].area) && (C_perim(b, m.elements[e]) ==> 0 <= m.elements[e].area <= 1));
contract LevelSet::computeAreaFractions(boundary) {
  prop C14;
  flags forkloops;
  hide tri, onper, few6;
  requires M_ok(mesh) && mesh.nElements <= 100000000;
  requires forall(n; {mesh.nodes[n].status} 0 <= n < mesh.nNodes; B_st3(mesh.nodes[n].status));
  requires D_sizes(boundary, this) && D_nbs(this) && D_segs(boundary, this) && D_lookup(boundary, this);
  requires forall(e; {mesh.elements[e].status} 0 <= e < mesh.nElements; A_few(mesh, e));
  assigns area, mesh.elements[*].area;
  ensures [total] result == area && area == asum(mesh.nElements, arr(mesh.elements[*].area));
  ensures [fractions] forall(e; {mesh.elements[e].area} 0 <= e < mesh.nElements; A_frac(this, boundary, e));
  loop 1 {
    begin use colRow($i, mesh.width);
    begin use rowBound($i, mesh.width, mesh.height);
    begin use atBound(col($i, mesh.width)+1, row($i, mesh.width)+1, mesh.width+1, mesh.height+1);
    begin use atBound(col($i, mesh.width), row($i, mesh.width), mesh.width+1, mesh.height+1);
    begin use atCR(col($i, mesh.width), row($i, mesh.width), mesh.width+1);
    begin use atCR(col($i, mesh.width)+1, row($i, mesh.width), mesh.width+1);
    begin use atCR(col($i, mesh.width)+1, row($i, mesh.width)+1, mesh.width+1);
    begin use atCR(col($i, mesh.width), row($i, mesh.width)+1, mesh.width+1);
    begin assert D_geo(this, $i);
    begin assert C_cell(mesh, mesh.elements[$i]) && C_ok3(mesh, mesh.elements[$i]);
    begin use few6Def(B_es(mesh, $i, 0), B_es(mesh, $i, 1), B_es(mesh, $i, 2), B_es(mesh, $i, 3), mesh.elements[$i].status, mesh.elements[$i].nBoundarySegments);
    begin assert A_cut(mesh, $i) ==> C_n(mesh, mesh.elements[$i], 4) + 2*mesh.elements[$i].nBoundarySegments <= 6;
    begin assert C_segs(boundary, mesh.elements[$i]);
    end use asumFrame($i, arr(mesh.elements[*].area), iter(arr(mesh.elements[*].area)));
    end assert A_frac(this, boundary, $i);
    inv area == asum($i, arr(mesh.elements[*].area));
    inv forall(e; {mesh.elements[e].area} 0 <= e < $i; A_frac(this, boundary, e));
    dec mesh.nElements - $i;
  }
}
