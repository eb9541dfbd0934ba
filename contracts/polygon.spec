// ---- piecewise linear shapes
func cross2(real ax, real ay, real bx, real by, real px, real py): real = (bx - ax)*(py - ay) - (px - ax)*(by - ay);
// winding number of the first n edges: upward crossings with the point on the left count +1, downward ones with the point on the right -1
func wind(int n, arr(real) X, arr(real) Y, real px, real py): int =
  n <= 0 ? 0 : wind(n-1, X, Y, px, py) + ((Y[n-1] <= py && Y[n] > py && cross2(X[n-1], Y[n-1], X[n], Y[n], px, py) > 0) ? 1 : 0)
                                     - ((Y[n-1] > py && Y[n] <= py && cross2(X[n-1], Y[n-1], X[n], Y[n], px, py) < 0) ? 1 : 0);
// distance from (px,py) to the point at parameter t of the segment a-b, squared
func dsq(real ax, real ay, real bx, real by, real px, real py, real t): real =
  (ax + t*(bx - ax) - px)*(ax + t*(bx - ax) - px) + (ay + t*(by - ay) - py)*(ay + t*(by - ay) - py);
func clampT(real ax, real ay, real bx, real by, real px, real py): real =
  max(0.0, min(1.0, ((px - ax)*(bx - ax) + (py - ay)*(by - ay)) / ((bx - ax)*(bx - ax) + (by - ay)*(by - ay))));
// segments shorter than 1e-3 count as their first end point
func segd(real ax, real ay, real bx, real by, real px, real py): real =
  (bx - ax)*(bx - ax) + (by - ay)*(by - ay) < 0.000001 ? sqrt((px - ax)*(px - ax) + (py - ay)*(py - ay))
     : sqrt(dsq(ax, ay, bx, by, px, py, clampT(ax, ay, bx, by, px, py)));
lemma parab(real c, real r, real t, real s) {
  requires r > 0 && 0 <= s <= 1 && t == max(0.0, min(1.0, c / r));
  assert c / r * r == c;
  assert 0 < c / r && c / r < 1 ==> t*r == c;
  assert c / r <= 0 ==> c <= 0;
  assert c / r >= 1 ==> c >= r;
  assert t*r == c ==> (s - t)*(s - t)*r >= 0;
  ensures t*t*r - 2*t*c <= s*s*r - 2*s*c;
}
lemma dsqExpand(real ax, real ay, real bx, real by, real px, real py, real t) {
  ensures dsq(ax, ay, bx, by, px, py, t) == (px - ax)*(px - ax) + (py - ay)*(py - ay) + t*t*((bx - ax)*(bx - ax) + (by - ay)*(by - ay)) - 2*t*((px - ax)*(bx - ax) + (py - ay)*(by - ay));
}
lemma clampRange(real ax, real ay, real bx, real by, real px, real py) {
  ensures 0 <= clampT(ax, ay, bx, by, px, py) <= 1;
}
// no point of the segment is closer
lemma segClosest(real ax, real ay, real bx, real by, real px, real py, real s) {
  requires (bx - ax)*(bx - ax) + (by - ay)*(by - ay) > 0 && 0 <= s <= 1;
  use dsqExpand(ax, ay, bx, by, px, py, s);
  use dsqExpand(ax, ay, bx, by, px, py, clampT(ax, ay, bx, by, px, py));
  use parab((px - ax)*(bx - ax) + (py - ay)*(by - ay), (bx - ax)*(bx - ax) + (by - ay)*(by - ay), clampT(ax, ay, bx, by, px, py), s);
  ensures dsq(ax, ay, bx, by, px, py, clampT(ax, ay, bx, by, px, py)) <= dsq(ax, ay, bx, by, px, py, s);
}
func pmin(int n, arr(real) X, arr(real) Y, real px, real py, real d): real =
  n <= 0 ? d : min(pmin(n-1, X, Y, px, py, d), segd(X[n-1], Y[n-1], X[n], Y[n], px, py));

contract LevelSet::pointToLineDistance(vertex1, vertex2, point) {
  prop C05;
  ensures [distance] result == segd(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y);
  ensures [closest] (vertex2.x - vertex1.x)*(vertex2.x - vertex1.x) + (vertex2.y - vertex1.y)*(vertex2.y - vertex1.y) >= 0.000001 ==>
      forall(real s; {dsq(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y, s)} 0 <= s <= 1; result*result <= dsq(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y, s));
  ensures [attained] (vertex2.x - vertex1.x)*(vertex2.x - vertex1.x) + (vertex2.y - vertex1.y)*(vertex2.y - vertex1.y) >= 0.000001 ==>
      result*result == dsq(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y, clampT(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y)) && 0 <= clampT(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y) <= 1;
  exit use clampRange(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y);
  exit use forall(real s; {dsq(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y, s)} 0 <= s <= 1; segClosest(vertex1.x, vertex1.y, vertex2.x, vertex2.y, point.x, point.y, s));
}
contract LevelSet::isInsidePolygon(point, vertices) {
  prop C05; prop C08;
  requires 1 <= vertices.size() <= 1000000000;
  ensures [winding] result <==> wind(vertices.size() - 1, arr(vertices[*].x), arr(vertices[*].y), point.x, point.y) != 0;
  loop 1 {
    inv windingNumber == wind($i, arr(vertices[*].x), arr(vertices[*].y), point.x, point.y) && -$i <= windingNumber <= $i;
    dec vertices.size() - 1 - $i;
  }
}
pred LS_pmin(L, n, ps) = pmin(ps.size() - 1, arr(ps[*].x), arr(ps[*].y), LS_nx(L, n), LS_ny(L, n), LS_edge(L, n));
pred LS_wind(L, n, ps) = wind(ps.size() - 1, arr(ps[*].x), arr(ps[*].y), LS_nx(L, n), LS_ny(L, n));
contract LevelSet::initialise(points) sig "void (const std::vector<Coord> &)" {
  prop C05;
  hide wind, segd;
  requires M_dims(mesh) && mesh.nodes.size() == mesh.nNodes && M_nodesok(mesh) && signedDistance.size() == mesh.nNodes && 1 <= points.size() <= 1000000000;
  assigns signedDistance[*];
  ensures signedDistance.size() == mesh.nNodes;
  ensures [polygon] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_wind(this, n, points) != 0 ? -LS_pmin(this, n, points) : LS_pmin(this, n, points)));
  loop 1 {
    inv signedDistance.size() == mesh.nNodes;
    inv forall(n; {signedDistance[n]} 0 <= n < $i; signedDistance[n] == (LS_wind(this, n, points) != 0 ? -LS_pmin(this, n, points) : LS_pmin(this, n, points)));
    inv forall(n; {signedDistance[n]} $i <= n < mesh.nNodes; signedDistance[n] == LS_edge(this, n));
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv signedDistance.size() == mesh.nNodes;
    inv signedDistance[i] == pmin($i, arr(points[*].x), arr(points[*].y), LS_nx(this, i), LS_ny(this, i), LS_edge(this, i));
    inv forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes && n != i; signedDistance[n] == before(signedDistance[n]));
    dec points.size() - 1 - $i;
  }
}
// ---- masks
contract LevelSet::mask(holes) sig "void (const std::vector<Hole> &)" {
  prop C08;
  flags may_exit;
  requires LS_sizes(this) && LS_mesh(this) && bandWidth > 2 && bandWidth <= 1000000 && holes.size() <= 1000000000;
  assigns signedDistance[*], mesh.nodes[*].isMasked, narrowBand[*], mines, nNarrowBand, nMines, mesh.nodes[*].isActive, mesh.nodes[*].isMine;
  ensures [exact] forall(n; {mesh.nodes[n].isMasked} 0 <= n < mesh.nNodes; mesh.nodes[n].isMasked <==> (old(mesh.nodes[n].isMasked) || LS_inhole(this, n, holes, holes.size())));
  ensures [outside] forall(n; {mesh.nodes[n].isMasked} 0 <= n < mesh.nNodes && LS_inhole(this, n, holes, holes.size()); signedDistance[n] < 0);
  ensures [never-active] forall(n; {mesh.nodes[n].isActive} 0 <= n < mesh.nNodes && mesh.nodes[n].isMasked; !mesh.nodes[n].isActive);
  ensures [signs] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes && !LS_inhole(this, n, holes, holes.size()); (signedDistance[n] < 0 <==> old(signedDistance[n]) < 0) && (signedDistance[n] > 0 <==> old(signedDistance[n]) > 0));
  ensures [reinitialised] calls(reinitialise) == old(calls(reinitialise)) + 1;
  before_call reinitialise assert forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_inhole(this, n, holes, holes.size()) ? -0.000001 : old(signedDistance[n])));
  loop 1 {
    inv signedDistance.size() == mesh.nNodes;
    inv forall(n; {mesh.nodes[n].isMasked} 0 <= n; mesh.nodes[n].isMasked <==> (old(mesh.nodes[n].isMasked) || (n < $i && LS_inhole(this, n, holes, holes.size()))));
    inv forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (n < $i && LS_inhole(this, n, holes, holes.size()) ? -0.000001 : old(signedDistance[n])));
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv signedDistance.size() == mesh.nNodes;
    inv mesh.nodes[i].isMasked <==> (old(mesh.nodes[i].isMasked) || LS_inhole(this, i, holes, $i));
    inv signedDistance[i] == (LS_inhole(this, i, holes, $i) ? -0.000001 : old(signedDistance[i]));
    inv forall(n; {mesh.nodes[n].isMasked} n != i; mesh.nodes[n].isMasked == before(mesh.nodes[n].isMasked));
    inv forall(n; {signedDistance[n]} n != i; signedDistance[n] == before(signedDistance[n]));
    dec holes.size() - $i;
  }
}
pred LS_inshape(L, n, ps) = ps.size() == 2 ? (LS_nx(L, n) > ps[0].x && LS_ny(L, n) > ps[0].y && LS_nx(L, n) < ps[1].x && LS_ny(L, n) < ps[1].y) : LS_wind(L, n, ps) != 0;
contract LevelSet::mask(points) sig "void (const std::vector<Coord> &)" {
  prop C08;
  hide wind;
  flags may_exit;
  requires LS_sizes(this) && LS_mesh(this) && bandWidth > 2 && bandWidth <= 1000000 && 1 <= points.size() <= 1000000000;
  assigns signedDistance[*], mesh.nodes[*].isMasked, narrowBand[*], mines, nNarrowBand, nMines, mesh.nodes[*].isActive, mesh.nodes[*].isMine;
  ensures [exact] forall(n; {mesh.nodes[n].isMasked} 0 <= n < mesh.nNodes; mesh.nodes[n].isMasked <==> (old(mesh.nodes[n].isMasked) || LS_inshape(this, n, points)));
  ensures [outside] forall(n; {mesh.nodes[n].isMasked} 0 <= n < mesh.nNodes && LS_inshape(this, n, points); signedDistance[n] < 0);
  ensures [never-active] forall(n; {mesh.nodes[n].isActive} 0 <= n < mesh.nNodes && mesh.nodes[n].isMasked; !mesh.nodes[n].isActive);
  ensures [signs] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes && !LS_inshape(this, n, points); (signedDistance[n] < 0 <==> old(signedDistance[n]) < 0) && (signedDistance[n] > 0 <==> old(signedDistance[n]) > 0));
  ensures [reinitialised] calls(reinitialise) == old(calls(reinitialise)) + 1;
  before_call reinitialise assert forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_inshape(this, n, points) ? -0.000001 : old(signedDistance[n])));
  loop 1 {
    inv signedDistance.size() == mesh.nNodes;
    inv forall(n; {mesh.nodes[n].isMasked} 0 <= n; mesh.nodes[n].isMasked <==> (old(mesh.nodes[n].isMasked) || (n < $i && LS_inshape(this, n, points))));
    inv forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (n < $i && LS_inshape(this, n, points) ? -0.000001 : old(signedDistance[n])));
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv signedDistance.size() == mesh.nNodes;
    inv forall(n; {mesh.nodes[n].isMasked} 0 <= n; mesh.nodes[n].isMasked <==> (old(mesh.nodes[n].isMasked) || (n < $i && LS_inshape(this, n, points))));
    inv forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (n < $i && LS_inshape(this, n, points) ? -0.000001 : old(signedDistance[n])));
    dec mesh.nNodes - $i;
  }
}
