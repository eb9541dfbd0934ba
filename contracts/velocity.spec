// Boundary point velocities: mapping to nodes (inverse squared distances) and extension.
func rsq(real px, real py, real nx, real ny): real = (nx - px)*(nx - px) + (ny - py)*(ny - py);
// the node is the closest one of the point, or next to it and within unit distance
func touch(real px, real py, real nx, real ny): bool = (nx == floor(px + 0.5) && ny == floor(py + 0.5))
  || (abs(nx - floor(px + 0.5)) + abs(ny - floor(py + 0.5)) == 1 && rsq(px, py, nx, ny) <= 1);
// among the first k points, one coincides with the node
func vset(int k, arr(real) X, arr(real) Y, real nx, real ny): bool =
  k <= 0 ? false : (vset(k-1, X, Y, nx, ny) || (touch(X[k-1], Y[k-1], nx, ny) && rsq(X[k-1], Y[k-1], nx, ny) < 0.000001));
// weight and weighted velocity of the first k points at the node; a coinciding point replaces them
func vwt(int k, arr(real) X, arr(real) Y, real nx, real ny): real =
  k <= 0 ? 0 : (!touch(X[k-1], Y[k-1], nx, ny) ? vwt(k-1, X, Y, nx, ny) : (rsq(X[k-1], Y[k-1], nx, ny) < 0.000001 ? 1 : (vset(k-1, X, Y, nx, ny) ? vwt(k-1, X, Y, nx, ny) : vwt(k-1, X, Y, nx, ny) + 1.0/rsq(X[k-1], Y[k-1], nx, ny))));
func vsum(int k, arr(real) X, arr(real) Y, arr(real) V, real nx, real ny): real =
  k <= 0 ? 0 : (!touch(X[k-1], Y[k-1], nx, ny) ? vsum(k-1, X, Y, V, nx, ny) : (rsq(X[k-1], Y[k-1], nx, ny) < 0.000001 ? V[k-1] : (vset(k-1, X, Y, nx, ny) ? vsum(k-1, X, Y, V, nx, ny) : vsum(k-1, X, Y, V, nx, ny) + V[k-1]/rsq(X[k-1], Y[k-1], nx, ny))));
func vfin(real s, real w): real = s == 0 ? 0 : s/w;
lemma vfinDef(real s, real w) { ensures vfin(s, w) == (s == 0 ? 0 : s/w); }
pred V_x(L, n) = L.mesh.nodes[n].coord.x;
pred V_y(L, n) = L.mesh.nodes[n].coord.y;
pred V_touch(L, B, n, i) = touch(B[i].coord.x, B[i].coord.y, V_x(L, n), V_y(L, n));
pred V_rsq(L, B, n, i) = rsq(B[i].coord.x, B[i].coord.y, V_x(L, n), V_y(L, n));
pred V_set(L, B, n, k) = vset(k, arr(B[*].coord.x), arr(B[*].coord.y), V_x(L, n), V_y(L, n));
pred V_wt(L, B, n, k) = vwt(k, arr(B[*].coord.x), arr(B[*].coord.y), V_x(L, n), V_y(L, n));
pred V_sum(L, B, n, k) = vsum(k, arr(B[*].coord.x), arr(B[*].coord.y), arr(B[*].velocity), V_x(L, n), V_y(L, n));
// interpolated velocity of a node: the mean weighted by inverse squared distance (0: no point touches the node)
pred V_mean(L, B, n) = vfin(V_sum(L, B, n, B.size()), V_wt(L, B, n, B.size()));

lemma touchDef(real px, real py, real nx, real ny) {
  ensures touch(px, py, nx, ny) <==> ((nx == floor(px + 0.5) && ny == floor(py + 0.5)) || (abs(nx - floor(px + 0.5)) + abs(ny - floor(py + 0.5)) == 1 && rsq(px, py, nx, ny) <= 1));
  ensures rsq(px, py, nx, ny) == (nx - px)*(nx - px) + (ny - py)*(ny - py) && rsq(px, py, nx, ny) >= 0;
}
lemma vstep(int k, arr(real) X, arr(real) Y, arr(real) V, real nx, real ny) {
  requires k >= 0;
  hide touch, rsq;
  ensures vset(k+1, X, Y, nx, ny) <==> (vset(k, X, Y, nx, ny) || (touch(X[k], Y[k], nx, ny) && rsq(X[k], Y[k], nx, ny) < 0.000001));
  ensures vwt(k+1, X, Y, nx, ny) == (!touch(X[k], Y[k], nx, ny) ? vwt(k, X, Y, nx, ny) : (rsq(X[k], Y[k], nx, ny) < 0.000001 ? 1 : (vset(k, X, Y, nx, ny) ? vwt(k, X, Y, nx, ny) : vwt(k, X, Y, nx, ny) + 1.0/rsq(X[k], Y[k], nx, ny))));
  ensures vsum(k+1, X, Y, V, nx, ny) == (!touch(X[k], Y[k], nx, ny) ? vsum(k, X, Y, V, nx, ny) : (rsq(X[k], Y[k], nx, ny) < 0.000001 ? V[k] : (vset(k, X, Y, nx, ny) ? vsum(k, X, Y, V, nx, ny) : vsum(k, X, Y, V, nx, ny) + V[k]/rsq(X[k], Y[k], nx, ny))));
}
lemma vzero(arr(real) X, arr(real) Y, arr(real) V, real nx, real ny) {
  ensures !vset(0, X, Y, nx, ny) && vwt(0, X, Y, nx, ny) == 0 && vsum(0, X, Y, V, nx, ny) == 0;
}
lemma inverse(real r) { requires r >= 0.000001; ensures 1.0/r > 0; }
lemma inverse2(real v, real r, real lo, real hi) {
  requires r >= 0.000001 && lo <= v <= hi;
  use inverse(r);
  assert v/r == v*(1.0/r);
  assert (v - lo)*(1.0/r) >= 0 && (hi - v)*(1.0/r) >= 0;
  ensures lo*(1.0/r) <= v/r <= hi*(1.0/r);
}
// a weight is never negative, and only a node without weight has no velocity
lemma vwtPos(int k, arr(real) X, arr(real) Y, arr(real) V, real nx, real ny) {
  requires k >= 0;
  hide touch, rsq;
  induct k;
  use k > 0 && rsq(X[k-1], Y[k-1], nx, ny) >= 0.000001 ==> inverse(rsq(X[k-1], Y[k-1], nx, ny));
  use k > 0 ==> touchDef(X[k-1], Y[k-1], nx, ny);
  ensures vwt(k, X, Y, nx, ny) >= 0 && (vset(k, X, Y, nx, ny) ==> vwt(k, X, Y, nx, ny) == 1) && (vwt(k, X, Y, nx, ny) == 0 ==> vsum(k, X, Y, V, nx, ny) == 0);
}
// the weighted mean lies between the smallest and the largest velocity
lemma vsumRange(int k, arr(real) X, arr(real) Y, arr(real) V, real nx, real ny, real lo, real hi) {
  requires k >= 0 && forall(i; {V[i]} 0 <= i < k; lo <= V[i] <= hi);
  hide touch, rsq;
  induct k;
  assert k > 0 ==> lo <= V[k-1] <= hi;
  use k > 0 && rsq(X[k-1], Y[k-1], nx, ny) >= 0.000001 ==> inverse2(V[k-1], rsq(X[k-1], Y[k-1], nx, ny), lo, hi);
  use k > 0 ==> distrib(lo, vwt(k-1, X, Y, nx, ny), 1.0/rsq(X[k-1], Y[k-1], nx, ny));
  use k > 0 ==> distrib(hi, vwt(k-1, X, Y, nx, ny), 1.0/rsq(X[k-1], Y[k-1], nx, ny));
  use k > 0 ==> touchDef(X[k-1], Y[k-1], nx, ny);
  ensures lo*vwt(k, X, Y, nx, ny) <= vsum(k, X, Y, V, nx, ny) <= hi*vwt(k, X, Y, nx, ny);
}
lemma distrib(real a, real b, real c) { ensures a*(b + c) == a*b + a*c; }
lemma vfinRange(int k, arr(real) X, arr(real) Y, arr(real) V, real nx, real ny, real lo, real hi) {
  requires k >= 0 && forall(i; {V[i]} 0 <= i < k; lo <= V[i] <= hi);
  hide touch, rsq, vwt, vsum, vset;
  use vwtPos(k, X, Y, V, nx, ny);
  use vsumRange(k, X, Y, V, nx, ny, lo, hi);
  use vwt(k, X, Y, nx, ny) > 0 ==> quotBetween(vsum(k, X, Y, V, nx, ny), vwt(k, X, Y, nx, ny), lo, hi);
  ensures vwt(k, X, Y, nx, ny) >= 0;
  ensures vwt(k, X, Y, nx, ny) > 0 ==> lo <= vfin(vsum(k, X, Y, V, nx, ny), vwt(k, X, Y, nx, ny)) <= hi;
  ensures vwt(k, X, Y, nx, ny) == 0 ==> vfin(vsum(k, X, Y, V, nx, ny), vwt(k, X, Y, nx, ny)) == 0;
}
func vrange(int k, arr(real) V, real lo, real hi): bool = forall(i; {V[i]} 0 <= i < k; lo <= V[i] <= hi);
lemma vfinRanged(int k, arr(real) X, arr(real) Y, arr(real) V, real nx, real ny, real lo, real hi) {
  requires k >= 0 && vrange(k, V, lo, hi);
  hide touch, rsq, vwt, vsum, vset, vfin;
  use vfinRange(k, X, Y, V, nx, ny, lo, hi);
  ensures vwt(k, X, Y, nx, ny) >= 0;
  ensures vwt(k, X, Y, nx, ny) > 0 ==> lo <= vfin(vsum(k, X, Y, V, nx, ny), vwt(k, X, Y, nx, ny)) <= hi;
  ensures vwt(k, X, Y, nx, ny) == 0 ==> vfin(vsum(k, X, Y, V, nx, ny), vwt(k, X, Y, nx, ny)) == 0;
}
lemma vrangeDef(int k, arr(real) V, real lo, real hi) { requires forall(i; {V[i]} 0 <= i < k; lo <= V[i] <= hi); ensures vrange(k, V, lo, hi); }
// a coinciding point gives the node its velocity
lemma vsetExact(int k, arr(real) X, arr(real) Y, arr(real) V, real nx, real ny) {
  requires k >= 0;
  hide touch, rsq;
  induct k;
  ensures vset(k, X, Y, nx, ny) ==> vwt(k, X, Y, nx, ny) == 1 && exists(i; 0 <= i < k && rsq(X[i], Y[i], nx, ny) < 0.000001 && vsum(k, X, Y, V, nx, ny) == V[i]);
}
// nodes a step apart
lemma adjacent(int n, int c, int W) {
  requires W > 0 && n >= 0 && c >= 0;
  use colRow(n, W);
  use colRow(c, W);
  use distribI(row(c, W), W);
  assert row(n, W) == row(c, W) ==> n - c == col(n, W) - col(c, W);
  assert row(n, W) == row(c, W) + 1 ==> n - c == col(n, W) - col(c, W) + W;
  assert row(n, W) == row(c, W) - 1 ==> n - c == col(n, W) - col(c, W) - W;
  ensures row(n, W) == row(c, W) ==> n - c == col(n, W) - col(c, W);
  ensures row(n, W) == row(c, W) + 1 ==> n - c == col(n, W) - col(c, W) + W;
  ensures row(n, W) == row(c, W) - 1 ==> n - c == col(n, W) - col(c, W) - W;
}
lemma distribI(int r, int W) { ensures (r + 1)*W == r*W + W && (r - 1)*W == r*W - W; }

pred V_points(L, B) = B.size() <= 1000000000 && forall(i; {B[i].coord.x}{B[i].coord.y} 0 <= i < B.size(); M_inbox(L.mesh, B[i].coord.x, B[i].coord.y));
pred V_done(L, c, n, j) = n == c || (j > 0 && n == FM_nb(L, c, 0)) || (j > 1 && n == FM_nb(L, c, 1)) || (j > 2 && n == FM_nb(L, c, 2)) || (j > 3 && n == FM_nb(L, c, 3));
contract LevelSet::initialiseVelocities(boundaryPoints) {
  prop C09;
  flags nounroll;
  hide touch, vset, vwt, vsum, rsq, vfin, col, row;
  requires LS_sizes(this) && LS_mesh(this) && M_elemsok(mesh) && V_points(this, boundaryPoints);
  assigns velocity[*];
  ensures velocity.size() == mesh.nNodes;
  ensures [mean] forall(n; {velocity[n]} 0 <= n < mesh.nNodes; velocity[n] == V_mean(this, boundaryPoints, n));
  ensures [coinciding] forall(n; {velocity[n]} 0 <= n < mesh.nNodes && V_set(this, boundaryPoints, n, boundaryPoints.size()); exists(i; 0 <= i < boundaryPoints.size() && V_rsq(this, boundaryPoints, n, i) < 0.000001 && velocity[n] == boundaryPoints[i].velocity));
  exit use forall(n; {velocity[n]} 0 <= n < mesh.nNodes; vsetExact(boundaryPoints.size(), arr(boundaryPoints[*].coord.x), arr(boundaryPoints[*].coord.y), arr(boundaryPoints[*].velocity), V_x(this, n), V_y(this, n)));
  exit use forall(n; {velocity[n]} 0 <= n < mesh.nNodes; vfinDef(V_sum(this, boundaryPoints, n, boundaryPoints.size()), V_wt(this, boundaryPoints, n, boundaryPoints.size())));
  loop 1 {
    inv velocity.size() == mesh.nNodes;
    inv forall(n; {isSet[n]} 0 <= n < $i; !isSet[n]);
    inv forall(n; {weight[n]} 0 <= n < $i; weight[n] == 0);
    inv forall(n; {velocity[n]} 0 <= n < $i; velocity[n] == 0);
    after use forall(n; {velocity[n]}{isSet[n]}{weight[n]} 0 <= n < mesh.nNodes; vzero(arr(boundaryPoints[*].coord.x), arr(boundaryPoints[*].coord.y), arr(boundaryPoints[*].velocity), V_x(this, n), V_y(this, n)));
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv velocity.size() == mesh.nNodes;
    inv forall(n; {isSet[n]} 0 <= n < mesh.nNodes; isSet[n] <==> V_set(this, boundaryPoints, n, $i));
    inv forall(n; {weight[n]} 0 <= n < mesh.nNodes; weight[n] == V_wt(this, boundaryPoints, n, $i));
    inv forall(n; {velocity[n]} 0 <= n < mesh.nNodes; velocity[n] == V_sum(this, boundaryPoints, n, $i));
    dec boundaryPoints.size() - $i;
  }
  loop 3 {
    init use touchDef(boundaryPoints[i].coord.x, boundaryPoints[i].coord.y, V_x(this, node), V_y(this, node));
    init use vstep(i, arr(boundaryPoints[*].coord.x), arr(boundaryPoints[*].coord.y), arr(boundaryPoints[*].velocity), V_x(this, node), V_y(this, node));
    init assert V_touch(this, boundaryPoints, node, i);
    init use stepCR(node, mesh.width+1);
    init assert FM_nb(this, node, 0) < mesh.nNodes ==> V_x(this, FM_nb(this, node, 0)) == V_x(this, node) - 1 && V_y(this, FM_nb(this, node, 0)) == V_y(this, node) ;
    init assert FM_nb(this, node, 1) < mesh.nNodes ==> V_x(this, FM_nb(this, node, 1)) == V_x(this, node) + 1 && V_y(this, FM_nb(this, node, 1)) == V_y(this, node) ;
    init assert FM_nb(this, node, 2) < mesh.nNodes ==> V_x(this, FM_nb(this, node, 2)) == V_x(this, node)  && V_y(this, FM_nb(this, node, 2)) == V_y(this, node) - 1;
    init assert FM_nb(this, node, 3) < mesh.nNodes ==> V_x(this, FM_nb(this, node, 3)) == V_x(this, node)  && V_y(this, FM_nb(this, node, 3)) == V_y(this, node) + 1;
    inv velocity.size() == mesh.nNodes;
    inv forall(n; {isSet[n]} 0 <= n < mesh.nNodes; isSet[n] <==> (V_done(this, node, n, $i) ? V_set(this, boundaryPoints, n, i+1) : V_set(this, boundaryPoints, n, i)));
    inv forall(n; {weight[n]} 0 <= n < mesh.nNodes; weight[n] == (V_done(this, node, n, $i) ? V_wt(this, boundaryPoints, n, i+1) : V_wt(this, boundaryPoints, n, i)));
    inv forall(n; {velocity[n]} 0 <= n < mesh.nNodes; velocity[n] == (V_done(this, node, n, $i) ? V_sum(this, boundaryPoints, n, i+1) : V_sum(this, boundaryPoints, n, i)));
    begin assert $i == 0 || $i == 1 || $i == 2 || $i == 3;
    begin use FM_nb(this, node, $i) < mesh.nNodes ==> touchDef(boundaryPoints[i].coord.x, boundaryPoints[i].coord.y, V_x(this, FM_nb(this, node, $i)), V_y(this, FM_nb(this, node, $i)));
    begin use FM_nb(this, node, $i) < mesh.nNodes ==> vstep(i, arr(boundaryPoints[*].coord.x), arr(boundaryPoints[*].coord.y), arr(boundaryPoints[*].velocity), V_x(this, FM_nb(this, node, $i)), V_y(this, FM_nb(this, node, $i)));
    begin assert FM_nb(this, node, $i) < mesh.nNodes ==> abs(V_x(this, FM_nb(this, node, $i)) - V_x(this, node)) + abs(V_y(this, FM_nb(this, node, $i)) - V_y(this, node)) == 1;
    begin assert FM_nb(this, node, $i) < mesh.nNodes ==> (V_touch(this, boundaryPoints, FM_nb(this, node, $i), i) <==> V_rsq(this, boundaryPoints, FM_nb(this, node, $i), i) <= 1);
    after use forall(n; {velocity[n]}{isSet[n]}{weight[n]} 0 <= n < mesh.nNodes; adjacent(n, node, mesh.width+1));
    after use forall(n; {velocity[n]}{isSet[n]}{weight[n]} 0 <= n < mesh.nNodes; touchDef(boundaryPoints[i].coord.x, boundaryPoints[i].coord.y, V_x(this, n), V_y(this, n)));
    after use forall(n; {velocity[n]}{isSet[n]}{weight[n]} 0 <= n < mesh.nNodes; vstep(i, arr(boundaryPoints[*].coord.x), arr(boundaryPoints[*].coord.y), arr(boundaryPoints[*].velocity), V_x(this, n), V_y(this, n)));
    after assert forall(n; {velocity[n]}{isSet[n]}{weight[n]} 0 <= n < mesh.nNodes; V_touch(this, boundaryPoints, n, i) ==> V_done(this, node, n, 4));
    dec 4 - $i;
  }
  loop 4 {
    init use forall(n; {velocity[n]}{weight[n]} 0 <= n < mesh.nNodes; vwtPos(boundaryPoints.size(), arr(boundaryPoints[*].coord.x), arr(boundaryPoints[*].coord.y), arr(boundaryPoints[*].velocity), V_x(this, n), V_y(this, n)));
    inv velocity.size() == mesh.nNodes;
    inv forall(n; {velocity[n]} 0 <= n < $i; velocity[n] == V_mean(this, boundaryPoints, n));
    inv forall(n; {velocity[n]} $i <= n < mesh.nNodes; velocity[n] == V_sum(this, boundaryPoints, n, boundaryPoints.size()));
    begin use vfinDef(velocity[$i], weight[$i]);
    dec mesh.nNodes - $i;
  }
}

// ---- the whole extension
// range of the sources: all point velocities, and zero unless every node at the contour is touched by a point
pred V_range(L, B) = vgood(0) ==> forall(i; {B[i].velocity} 0 <= i < B.size(); vlo(0) <= B[i].velocity <= vhi(0))
  && (vlo(0) <= 0 <= vhi(0) || forall(n; {L.signedDistance[n]} 0 <= n < L.mesh.nNodes && (L.signedDistance[n] == 0 || FM_border(L, L.signedDistance, n)); V_wt(L, B, n, B.size()) > 0));
contract LevelSet::computeVelocities(boundaryPoints) sig "void (const std::vector<BoundaryPoint> &)" {
  checked_by C09;
  prop C09;
  flags may_exit;
  hide touch, vset, vwt, vsum, rsq, vfin, col, row, vrange;
  requires LS_sizes(this) && LS_mesh(this) && M_elemsok(mesh) && V_points(this, boundaryPoints) && V_range(this, boundaryPoints);
  assigns velocity[*], signedDistance[*];
  ensures velocity.size() == mesh.nNodes && signedDistance.size() == mesh.nNodes;
  ensures [distance] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == old(signedDistance[n]));
  ensures [mapped] forall(n; {velocity[n]} 0 <= n < mesh.nNodes && (old(signedDistance[n]) == 0 || old(FM_border(this, signedDistance, n))); velocity[n] == V_mean(this, boundaryPoints, n));
  ensures [between] vgood(0) ==> forall(n; {velocity[n]} 0 <= n < mesh.nNodes; velocity[n] == 0 || vlo(0) <= velocity[n] <= vhi(0));
  ensures [extended] calls(march) == old(calls(march)) + 1;
  entry use vgood(0) ==> vrangeDef(boundaryPoints.size(), arr(boundaryPoints[*].velocity), vlo(0), vhi(0));
  after_call initialiseVelocities use forall(n; {velocity[n]} 0 <= n < mesh.nNodes && vgood(0); vfinRanged(boundaryPoints.size(), arr(boundaryPoints[*].coord.x), arr(boundaryPoints[*].coord.y), arr(boundaryPoints[*].velocity), V_x(this, n), V_y(this, n), vlo(0), vhi(0)));
  after_call initialiseVelocities assert vgood(0) ==> forall(n; {velocity[n]} 0 <= n < mesh.nNodes; velocity[n] == 0 || vlo(0) <= velocity[n] <= vhi(0));
}
