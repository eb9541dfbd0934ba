// Boundary normals: inverse-square mean of the unit gradients of the (at most two) adjacent narrow-band nodes.
// central differences inside, one-sided on the domain edge
func cgx(arr(real) S, int x, int y, int W): real = x == 0 ? S[at(x+1, y, W+1)] - S[at(x, y, W+1)] : (x == W ? S[at(x, y, W+1)] - S[at(x-1, y, W+1)] : 0.5*(S[at(x+1, y, W+1)] - S[at(x-1, y, W+1)]));
func cgy(arr(real) S, int x, int y, int W, int H): real = y == 0 ? S[at(x, y+1, W+1)] - S[at(x, y, W+1)] : (y == H ? S[at(x, y, W+1)] - S[at(x, y-1, W+1)] : 0.5*(S[at(x, y+1, W+1)] - S[at(x, y-1, W+1)]));
func vnorm(real x, real y): real = sqrt(x*x + y*y);
func unitc(real c, real x, real y): real = c/vnorm(x, y);
lemma vnormPos(real x, real y) {
  requires x != 0 || y != 0;
  assert x != 0 ==> x*x > 0; assert y != 0 ==> y*y > 0;
  ensures vnorm(x, y) > 0 && vnorm(x, y)*vnorm(x, y) == x*x + y*y;
}
// components of a unit vector
lemma ratioSq(real x, real y, real g) {
  requires g > 0 && g*g == x*x + y*y;
  assert x/g*g == x && y/g*g == y;
  ensures x/g*(x/g) + y/g*(y/g) == 1;
}
lemma unitLen(real x, real y) {
  requires x != 0 || y != 0;
  use vnormPos(x, y);
  use ratioSq(x, y, vnorm(x, y));
  hide vnorm;
  ensures unitc(x, x, y)*unitc(x, x, y) + unitc(y, x, y)*unitc(y, x, y) == 1;
}
pred NV_x(L, n) = col(n, L.mesh.width+1);
pred NV_y(L, n) = row(n, L.mesh.width+1);
pred NV_gx(L, n) = cgx(arr(L.signedDistance), NV_x(L, n), NV_y(L, n), L.mesh.width);
pred NV_gy(L, n) = cgy(arr(L.signedDistance), NV_x(L, n), NV_y(L, n), L.mesh.width, L.mesh.height);
pred NV_ux(L, n) = unitc(NV_gx(L, n), NV_gx(L, n), NV_gy(L, n));
pred NV_uy(L, n) = unitc(NV_gy(L, n), NV_gx(L, n), NV_gy(L, n));
func rsq(real dx, real dy): real = dx*dx + dy*dy;
pred NV_r(B, L, n, p) = rsq(NV_x(L, n) - B.points[p].coord.x, NV_y(L, n) - B.points[p].coord.y);
// the nodes a point is listed at (the ends of its edge; the same node twice for a point on a node) and its position in their lists
ufunc adjA(int): int;
ufunc adjB(int): int;
ufunc posA(int): int;
ufunc posB(int): int;
pred NV_nbp(L, n) = L.mesh.nodes[n].nBoundaryPoints;
pred NV_bp(L, n, j) = L.mesh.nodes[n].boundaryPoints[j];
pred NV_lists(B, L) = forall(n; {L.mesh.nodes[n].nBoundaryPoints} 0 <= n < L.mesh.nNodes; NV_nbp(L, n) <= 4)
  && forall(n, j; {L.mesh.nodes[n].boundaryPoints[j]} 0 <= n < L.mesh.nNodes && 0 <= j < NV_nbp(L, n); NV_bp(L, n, j) < B.nPoints
       && ((n == adjA(NV_bp(L, n, j)) && j == posA(NV_bp(L, n, j))) || (n == adjB(NV_bp(L, n, j)) && j == posB(NV_bp(L, n, j)))))
  && forall(p; {adjA(p)}{adjB(p)}{B.points[p].coord.x} 0 <= p < B.nPoints; 0 <= adjA(p) < L.mesh.nNodes && 0 <= adjB(p) < L.mesh.nNodes && 0 <= posA(p) < NV_nbp(L, adjA(p)) && 0 <= posB(p) < NV_nbp(L, adjB(p))
       && NV_bp(L, adjA(p), posA(p)) == p && NV_bp(L, adjB(p), posB(p)) == p && (adjA(p) == adjB(p) ==> posA(p) == posB(p)));
// a band node lists points only where its gradient does not vanish
pred NV_slope(L) = forall(n; {L.mesh.nodes[n].nBoundaryPoints} 0 <= n < L.mesh.nNodes && LS_inband(L, n) && NV_nbp(L, n) > 0; NV_gx(L, n) != 0 || NV_gy(L, n) != 0);
// contributions
func part(bool d, real u, real r): real = d ? u/r : 0;
func onset(bool dA, bool dB, real rA, real rB): bool = (dA && rA < 0.000001) || (dB && rB < 0.000001);
func meanw(bool dA, bool dB, real rA, real rB): real = onset(dA, dB, rA, rB) ? 1 : part(dA, 1, rA) + part(dB, 1, rB);
func meanv(bool dA, bool dB, real rA, real rB, real uA, real uB): real = dA && rA < 0.000001 ? uA : (dB && rB < 0.000001 ? uB : part(dA, uA, rA) + part(dB, uB, rB));
lemma stepA(bool dB, real rA, real rB, real uA, real uB) {
  requires !(rA < 0.000001 && rB < 0.000001) || !dB;
  ensures meanw(true, dB, rA, rB) == (rA < 0.000001 ? 1 : (onset(false, dB, rA, rB) ? meanw(false, dB, rA, rB) : meanw(false, dB, rA, rB) + part(true, 1, rA)));
  ensures meanv(true, dB, rA, rB, uA, uB) == (rA < 0.000001 ? uA : (onset(false, dB, rA, rB) ? meanv(false, dB, rA, rB, uA, uB) : meanv(false, dB, rA, rB, uA, uB) + part(true, uA, rA)));
}
lemma stepB(bool dA, real rA, real rB, real uA, real uB) {
  requires !(rA < 0.000001 && rB < 0.000001) || !dA;
  ensures meanw(dA, true, rA, rB) == (rB < 0.000001 ? 1 : (onset(dA, false, rA, rB) ? meanw(dA, false, rA, rB) : meanw(dA, false, rA, rB) + part(true, 1, rB)));
  ensures meanv(dA, true, rA, rB, uA, uB) == (rB < 0.000001 ? uB : (onset(dA, false, rA, rB) ? meanv(dA, false, rA, rB, uA, uB) : meanv(dA, false, rA, rB, uA, uB) + part(true, uB, rB)));
}
// visited up to list position (i, j)
pred NV_dn(L, n, k, i, j) = LS_inband(L, n) && (slot(n) < i || (slot(n) == i && k < j));
pred NV_dA(L, p, i, j) = NV_dn(L, adjA(p), posA(p), i, j);
pred NV_dB(L, p, i, j) = adjA(p) != adjB(p) && NV_dn(L, adjB(p), posB(p), i, j);
pred NV_rA(B, L, p) = NV_r(B, L, adjA(p), p);
pred NV_rB(B, L, p) = NV_r(B, L, adjB(p), p);
pred NV_w(B, L, p, i, j) = meanw(NV_dA(L, p, i, j), NV_dB(L, p, i, j), NV_rA(B, L, p), NV_rB(B, L, p));
pred NV_vx(B, L, p, i, j) = meanv(NV_dA(L, p, i, j), NV_dB(L, p, i, j), NV_rA(B, L, p), NV_rB(B, L, p), NV_ux(L, adjA(p)), NV_ux(L, adjB(p)));
pred NV_vy(B, L, p, i, j) = meanv(NV_dA(L, p, i, j), NV_dB(L, p, i, j), NV_rA(B, L, p), NV_rB(B, L, p), NV_uy(L, adjA(p)), NV_uy(L, adjB(p)));
pred NV_mx(B, L, p) = NV_vx(B, L, p, L.nNarrowBand, 0)/NV_w(B, L, p, L.nNarrowBand, 0);
pred NV_my(B, L, p) = NV_vy(B, L, p, L.nNarrowBand, 0)/NV_w(B, L, p, L.nNarrowBand, 0);
// two different nodes are not both within 1e-3 of a point
lemma rsqNear(real x, real y) {
  ensures rsq(x, y) == x*x + y*y;
  ensures rsq(x, y) < 0.000001 ==> abs(x) < 0.001 && abs(y) < 0.001;
}
lemma farApart(int a, int b, int c, int d, real x, real y) {
  requires a != c || b != d;
  use rsqNear(a - x, b - y);
  use rsqNear(c - x, d - y);
  hide rsq;
  ensures !(rsq(a - x, b - y) < 0.000001 && rsq(c - x, d - y) < 0.000001);
}
lemma unitDef(real c, real x, real y) { ensures unitc(c, x, y) == c/sqrt(x*x + y*y) && vnorm(x, y) == sqrt(x*x + y*y); }
lemma cgDef(arr(real) S, int x, int y, int W, int H) {
  hide at;
  ensures cgx(S, x, y, W) == (x == 0 ? S[at(x+1, y, W+1)] - S[at(x, y, W+1)] : (x == W ? S[at(x, y, W+1)] - S[at(x-1, y, W+1)] : 0.5*(S[at(x+1, y, W+1)] - S[at(x-1, y, W+1)])));
  ensures cgy(S, x, y, W, H) == (y == 0 ? S[at(x, y+1, W+1)] - S[at(x, y, W+1)] : (y == H ? S[at(x, y, W+1)] - S[at(x, y-1, W+1)] : 0.5*(S[at(x, y+1, W+1)] - S[at(x, y-1, W+1)])));
}
// a field linear in x and y: every gradient is the slope, every mean the same unit vector
pred planar(S, W, H, a, b, c) = forall(i, j; {at(i, j, W+1)} 0 <= i <= W && 0 <= j <= H; S[at(i, j, W+1)] == a*i + b*j + c);
lemma cgPlanar(arr(real) S, int x, int y, int W, int H, real a, real b, real c) {
  requires W >= 1 && H >= 1 && 0 <= x <= W && 0 <= y <= H && planar(S, W, H, a, b, c);
  hide at;
  ensures cgx(S, x, y, W) == a && cgy(S, x, y, W, H) == b;
}
lemma meanSum(bool dA, bool dB, real rA, real rB, real u) {
  requires rA >= 0 && rB >= 0;
  assert dA && !(rA < 0.000001) ==> 1/rA > 0 && u/rA == u*(1/rA);
  assert dB && !(rB < 0.000001) ==> 1/rB > 0 && u/rB == u*(1/rB);
  ensures meanv(dA, dB, rA, rB, u, u) == u*meanw(dA, dB, rA, rB);
}
lemma meanSame(bool dA, bool dB, real rA, real rB, real u) {
  requires rA >= 0 && rB >= 0 && meanw(dA, dB, rA, rB) != 0;
  use meanSum(dA, dB, rA, rB, u);
  hide meanv, meanw;
  ensures meanv(dA, dB, rA, rB, u, u)/meanw(dA, dB, rA, rB) == u;
}
lemma unitUnit(real a, real b) {
  requires a != 0 || b != 0;
  use unitLen(a, b);
  use vnormOne(unitc(a, a, b), unitc(b, a, b));
  hide vnorm;
  ensures unitc(unitc(a, a, b), unitc(a, a, b), unitc(b, a, b)) == unitc(a, a, b) && unitc(unitc(b, a, b), unitc(a, a, b), unitc(b, a, b)) == unitc(b, a, b);
}
lemma vnormOne(real x, real y) {
  requires x*x + y*y == 1;
  ensures vnorm(x, y) == 1;
}
lemma rsqNonneg(real x, real y) { ensures rsq(x, y) >= 0; }
ufunc plane(int): real;
contract Boundary::computeNormalVectors(levelSet) {
  prop C15;
  hide at, col, row, cgx, cgy, unitc, vnorm, rsq;
  posthide part;
  requires M_sizes(levelSet.mesh) && M_dims(levelSet.mesh) && M_xy(levelSet.mesh) && M_nodesok(levelSet.mesh) && levelSet.signedDistance.size() == levelSet.mesh.nNodes;
  requires LS_band(levelSet) && levelSet.narrowBand.size() >= levelSet.nNarrowBand && nPoints == points.size();
  requires [lists] NV_lists(this, levelSet);
  requires [slope] NV_slope(levelSet);
  requires [reached] forall(p; {points[p].coord.x} 0 <= p < nPoints && !points[p].isDomain; NV_w(this, levelSet, p, levelSet.nNarrowBand, 0) != 0 && (NV_mx(this, levelSet, p) != 0 || NV_my(this, levelSet, p) != 0));
  assigns points[*].normal;
  ensures [mean] forall(p; {points[p].normal.x}{points[p].normal.y} 0 <= p < nPoints && !points[p].isDomain;
      points[p].normal.x == unitc(NV_mx(this, levelSet, p), NV_mx(this, levelSet, p), NV_my(this, levelSet, p)) && points[p].normal.y == unitc(NV_my(this, levelSet, p), NV_mx(this, levelSet, p), NV_my(this, levelSet, p)));
  exit use forall(p; {points[p].normal.x} 0 <= p < nPoints && !points[p].isDomain; unitLen(NV_mx(this, levelSet, p), NV_my(this, levelSet, p)));
  ensures [unit] forall(p; {points[p].normal.x} 0 <= p < nPoints && !points[p].isDomain; points[p].normal.x*points[p].normal.x + points[p].normal.y*points[p].normal.y == 1);
  exit use forall(p; {adjA(p)} 0 <= p < nPoints; colRow(adjA(p), levelSet.mesh.width+1));
  exit use forall(p; {adjB(p)} 0 <= p < nPoints; colRow(adjB(p), levelSet.mesh.width+1));
  exit use forall(p; {adjA(p)} 0 <= p < nPoints; rowBound(adjA(p), levelSet.mesh.width+1, levelSet.mesh.height+1));
  exit use forall(p; {adjB(p)} 0 <= p < nPoints; rowBound(adjB(p), levelSet.mesh.width+1, levelSet.mesh.height+1));
  exit use forall(p; {adjA(p)} 0 <= p < nPoints && planar(levelSet.signedDistance, levelSet.mesh.width, levelSet.mesh.height, plane(0), plane(1), plane(2)); cgPlanar(arr(levelSet.signedDistance), NV_x(levelSet, adjA(p)), NV_y(levelSet, adjA(p)), levelSet.mesh.width, levelSet.mesh.height, plane(0), plane(1), plane(2)));
  exit use forall(p; {adjB(p)} 0 <= p < nPoints && planar(levelSet.signedDistance, levelSet.mesh.width, levelSet.mesh.height, plane(0), plane(1), plane(2)); cgPlanar(arr(levelSet.signedDistance), NV_x(levelSet, adjB(p)), NV_y(levelSet, adjB(p)), levelSet.mesh.width, levelSet.mesh.height, plane(0), plane(1), plane(2)));
  exit use forall(p; {adjA(p)} 0 <= p < nPoints; rsqNonneg(NV_x(levelSet, adjA(p)) - points[p].coord.x, NV_y(levelSet, adjA(p)) - points[p].coord.y));
  exit use forall(p; {adjB(p)} 0 <= p < nPoints; rsqNonneg(NV_x(levelSet, adjB(p)) - points[p].coord.x, NV_y(levelSet, adjB(p)) - points[p].coord.y));
  exit use forall(p; {adjA(p)} 0 <= p < nPoints && !points[p].isDomain; meanSame(NV_dA(levelSet, p, levelSet.nNarrowBand, 0), NV_dB(levelSet, p, levelSet.nNarrowBand, 0), NV_rA(this, levelSet, p), NV_rB(this, levelSet, p), unitc(plane(0), plane(0), plane(1))));
  exit use forall(p; {adjA(p)} 0 <= p < nPoints && !points[p].isDomain; meanSame(NV_dA(levelSet, p, levelSet.nNarrowBand, 0), NV_dB(levelSet, p, levelSet.nNarrowBand, 0), NV_rA(this, levelSet, p), NV_rB(this, levelSet, p), unitc(plane(1), plane(0), plane(1))));
  exit use plane(0) != 0 || plane(1) != 0 ==> unitUnit(plane(0), plane(1));
  ensures [linear] planar(levelSet.signedDistance, levelSet.mesh.width, levelSet.mesh.height, plane(0), plane(1), plane(2)) && (plane(0) != 0 || plane(1) != 0) ==> forall(p; {points[p].normal.x}{points[p].normal.y} 0 <= p < nPoints && !points[p].isDomain;
      points[p].normal.x == unitc(plane(0), plane(0), plane(1)) && points[p].normal.y == unitc(plane(1), plane(0), plane(1)));
  loop 1 {
    inv forall(p; {weight[p]}{isSet[p]}{points[p].normal.x}{points[p].normal.y} 0 <= p < $i; !isSet[p] && weight[p] == 0 && points[p].normal.x == 0 && points[p].normal.y == 0);
    dec nPoints - $i;
  }
  loop 2 {
    inv forall(p; {isSet[p]} 0 <= p < nPoints; isSet[p] <==> onset(NV_dA(levelSet, p, $i, 0), NV_dB(levelSet, p, $i, 0), NV_rA(this, levelSet, p), NV_rB(this, levelSet, p)));
    inv forall(p; {weight[p]} 0 <= p < nPoints; weight[p] == NV_w(this, levelSet, p, $i, 0));
    inv forall(p; {points[p].normal.x} 0 <= p < nPoints; points[p].normal.x == NV_vx(this, levelSet, p, $i, 0));
    inv forall(p; {points[p].normal.y} 0 <= p < nPoints; points[p].normal.y == NV_vy(this, levelSet, p, $i, 0));
    begin use colRow(levelSet.narrowBand[$i], levelSet.mesh.width+1);
    begin use cgDef(arr(levelSet.signedDistance), NV_x(levelSet, levelSet.narrowBand[$i]), NV_y(levelSet, levelSet.narrowBand[$i]), levelSet.mesh.width, levelSet.mesh.height);
    begin use unitDef(NV_gx(levelSet, levelSet.narrowBand[$i]), NV_gx(levelSet, levelSet.narrowBand[$i]), NV_gy(levelSet, levelSet.narrowBand[$i]));
    begin use unitDef(NV_gy(levelSet, levelSet.narrowBand[$i]), NV_gx(levelSet, levelSet.narrowBand[$i]), NV_gy(levelSet, levelSet.narrowBand[$i]));
    begin use NV_nbp(levelSet, levelSet.narrowBand[$i]) > 0 ==> vnormPos(NV_gx(levelSet, levelSet.narrowBand[$i]), NV_gy(levelSet, levelSet.narrowBand[$i]));
    dec levelSet.nNarrowBand - $i;
  }
  loop 3 {
    begin use colRow(adjA(NV_bp(levelSet, node, $i)), levelSet.mesh.width+1);
    begin use colRow(adjB(NV_bp(levelSet, node, $i)), levelSet.mesh.width+1);
    begin use adjA(NV_bp(levelSet, node, $i)) != adjB(NV_bp(levelSet, node, $i)) ==> farApart(NV_x(levelSet, adjA(NV_bp(levelSet, node, $i))), NV_y(levelSet, adjA(NV_bp(levelSet, node, $i))), NV_x(levelSet, adjB(NV_bp(levelSet, node, $i))), NV_y(levelSet, adjB(NV_bp(levelSet, node, $i))), points[NV_bp(levelSet, node, $i)].coord.x, points[NV_bp(levelSet, node, $i)].coord.y);
    begin use rsqNear(NV_x(levelSet, node) - points[NV_bp(levelSet, node, $i)].coord.x, NV_y(levelSet, node) - points[NV_bp(levelSet, node, $i)].coord.y);
    begin assert forall(p; {adjA(p)} 0 <= p < nPoints && p != NV_bp(levelSet, node, $i); (NV_dA(levelSet, p, i, $i + 1) <==> NV_dA(levelSet, p, i, $i)) && (NV_dB(levelSet, p, i, $i + 1) <==> NV_dB(levelSet, p, i, $i)));
    begin assert adjA(NV_bp(levelSet, node, $i)) == node ==> NV_dA(levelSet, NV_bp(levelSet, node, $i), i, $i + 1) && !NV_dA(levelSet, NV_bp(levelSet, node, $i), i, $i) && (NV_dB(levelSet, NV_bp(levelSet, node, $i), i, $i + 1) <==> NV_dB(levelSet, NV_bp(levelSet, node, $i), i, $i));
    begin assert adjA(NV_bp(levelSet, node, $i)) != node ==> adjB(NV_bp(levelSet, node, $i)) == node && NV_dB(levelSet, NV_bp(levelSet, node, $i), i, $i + 1) && !NV_dB(levelSet, NV_bp(levelSet, node, $i), i, $i) && (NV_dA(levelSet, NV_bp(levelSet, node, $i), i, $i + 1) <==> NV_dA(levelSet, NV_bp(levelSet, node, $i), i, $i));
    begin assert isSet[NV_bp(levelSet, node, $i)] <==> onset(NV_dA(levelSet, NV_bp(levelSet, node, $i), i, $i), NV_dB(levelSet, NV_bp(levelSet, node, $i), i, $i), NV_rA(this, levelSet, NV_bp(levelSet, node, $i)), NV_rB(this, levelSet, NV_bp(levelSet, node, $i)));
    end assert rSqd == NV_r(this, levelSet, node, point);
    end assert isSet[point] <==> (rSqd < 0.000001 || iter(isSet[point]));
    end assert NV_rA(this, levelSet, point) == iter(NV_rA(this, levelSet, point)) && NV_rB(this, levelSet, point) == iter(NV_rB(this, levelSet, point));
    end assert isSet[point] <==> onset(NV_dA(levelSet, point, i, $i + 1), NV_dB(levelSet, point, i, $i + 1), NV_rA(this, levelSet, point), NV_rB(this, levelSet, point));
    begin assert weight[NV_bp(levelSet, node, $i)] == NV_w(this, levelSet, NV_bp(levelSet, node, $i), i, $i) && points[NV_bp(levelSet, node, $i)].normal.x == NV_vx(this, levelSet, NV_bp(levelSet, node, $i), i, $i) && points[NV_bp(levelSet, node, $i)].normal.y == NV_vy(this, levelSet, NV_bp(levelSet, node, $i), i, $i);
    end assert weight[point] == (rSqd < 0.000001 ? 1 : (iter(isSet[point]) ? iter(weight[point]) : iter(weight[point]) + part(true, 1, rSqd)));
    end assert points[point].normal.x == (rSqd < 0.000001 ? xNormal : (iter(isSet[point]) ? iter(points[point].normal.x) : iter(points[point].normal.x) + part(true, xNormal, rSqd)));
    end assert points[point].normal.y == (rSqd < 0.000001 ? yNormal : (iter(isSet[point]) ? iter(points[point].normal.y) : iter(points[point].normal.y) + part(true, yNormal, rSqd)));
    end use adjA(point) == node ==> stepA(iter(NV_dB(levelSet, point, i, $i)), NV_rA(this, levelSet, point), NV_rB(this, levelSet, point), NV_ux(levelSet, adjA(point)), NV_ux(levelSet, adjB(point)));
    end use adjA(point) == node ==> stepA(iter(NV_dB(levelSet, point, i, $i)), NV_rA(this, levelSet, point), NV_rB(this, levelSet, point), NV_uy(levelSet, adjA(point)), NV_uy(levelSet, adjB(point)));
    end use adjA(point) != node ==> stepB(iter(NV_dA(levelSet, point, i, $i)), NV_rA(this, levelSet, point), NV_rB(this, levelSet, point), NV_ux(levelSet, adjA(point)), NV_ux(levelSet, adjB(point)));
    end use adjA(point) != node ==> stepB(iter(NV_dA(levelSet, point, i, $i)), NV_rA(this, levelSet, point), NV_rB(this, levelSet, point), NV_uy(levelSet, adjA(point)), NV_uy(levelSet, adjB(point)));
    end assert weight[point] == NV_w(this, levelSet, point, i, $i + 1);
    end assert points[point].normal.x == NV_vx(this, levelSet, point, i, $i + 1);
    end assert points[point].normal.y == NV_vy(this, levelSet, point, i, $i + 1);
    begin assert xNormal == NV_ux(levelSet, node) && yNormal == NV_uy(levelSet, node);
    inv forall(p; {isSet[p]} 0 <= p < nPoints; isSet[p] <==> onset(NV_dA(levelSet, p, i, $i), NV_dB(levelSet, p, i, $i), NV_rA(this, levelSet, p), NV_rB(this, levelSet, p)));
    inv forall(p; {weight[p]} 0 <= p < nPoints; weight[p] == NV_w(this, levelSet, p, i, $i));
    inv forall(p; {points[p].normal.x} 0 <= p < nPoints; points[p].normal.x == NV_vx(this, levelSet, p, i, $i));
    inv forall(p; {points[p].normal.y} 0 <= p < nPoints; points[p].normal.y == NV_vy(this, levelSet, p, i, $i));
    dec levelSet.mesh.nodes[node].nBoundaryPoints - $i;
  }
  loop 4 {
    inv forall(p; {points[p].normal.x}{points[p].normal.y} 0 <= p < $i && !points[p].isDomain;
      points[p].normal.x == unitc(NV_mx(this, levelSet, p), NV_mx(this, levelSet, p), NV_my(this, levelSet, p)) && points[p].normal.y == unitc(NV_my(this, levelSet, p), NV_mx(this, levelSet, p), NV_my(this, levelSet, p)));
    inv forall(p; {points[p].normal.x}{points[p].normal.y} $i <= p < nPoints; unmoved(points[p].normal));
    begin use unitDef(NV_mx(this, levelSet, $i), NV_mx(this, levelSet, $i), NV_my(this, levelSet, $i));
    begin use unitDef(NV_my(this, levelSet, $i), NV_mx(this, levelSet, $i), NV_my(this, levelSet, $i));
    begin use !points[$i].isDomain ==> vnormPos(NV_mx(this, levelSet, $i), NV_my(this, levelSet, $i));
    dec nPoints - $i;
  }
}
