// Boundary: point initialisation, lengths, adjacency, discretisation.
pred M_in(m, x, y) = 0 <= x <= m.width && 0 <= y <= m.height;
// n is a closest node of (x, y)
pred M_closest(m, x, y, n) = 0 <= n < m.nNodes && abs(x - m.nodes[n].coord.x) <= 0.5 && abs(y - m.nodes[n].coord.y) <= 0.5;
func bedge(real x, real y, real W, real H): real = min(min(x, W - x), min(y, H - y));
func ndist(real dx, real dy): real = sqrt(dx*dx + dy*dy);
// coincides with the node
func onnode(real dx, real dy): bool = abs(dx) < 0.000001 && abs(dy) < 0.000001;
pred B_free(L, p) = min(L.moveLimit, bedge(p.coord.x, p.coord.y, L.mesh.width, L.mesh.height));
pred B_dx(L, p, n) = L.mesh.nodes[n].coord.x - p.coord.x;
pred B_dy(L, p, n) = L.mesh.nodes[n].coord.y - p.coord.y;
pred B_limitsAt(L, p, n) =
     p.negativeLimit == -(L.mesh.nodes[n].isMasked && !onnode(B_dx(L, p, n), B_dy(L, p, n)) ? min(B_free(L, p), ndist(B_dx(L, p, n), B_dy(L, p, n))) : B_free(L, p))
  && (p.isFixed <==> (L.mesh.nodes[n].isMasked && onnode(B_dx(L, p, n), B_dy(L, p, n))));
pred B_limits(L, p) = p.positiveLimit == L.moveLimit
  && (p.isDomain <==> bedge(p.coord.x, p.coord.y, L.mesh.width, L.mesh.height) < 0.000001)
  && exists(n; M_closest(L.mesh, p.coord.x, p.coord.y, n) && B_limitsAt(L, p, n));

contract BoundaryPoint::BoundaryPoint() {
  prop C16; prop C13;
  ensures length == 0 && !isDomain && !isFixed && nSegments == 0 && nNeighbours == 0 && segments.size() == 2 && neighbours.size() == 2 && sensitivities.size() == 2;
}
contract Boundary::initialisePoint(levelSet, point, coord) {
  prop C16;
  hide col, row, at;
  requires M_dims(levelSet.mesh) && M_sizes(levelSet.mesh) && M_elemsok(levelSet.mesh) && M_nodesok(levelSet.mesh) && M_in(levelSet.mesh, coord.x, coord.y);
  requires levelSet.moveLimit >= 0.000001 && !point.isDomain && !point.isFixed;
  assigns point.coord, point.negativeLimit, point.positiveLimit, point.isDomain, point.isFixed;
  ensures point.coord.x == coord.x && point.coord.y == coord.y;
  exit assert M_closest(levelSet.mesh, point.coord.x, point.coord.y, node);
  exit assert B_limitsAt(levelSet, point, node);
  ensures [limits] B_limits(levelSet, point);
}

// ---- segments, lengths and adjacency
// summed half lengths of the first n segments' ends in point p; number of such ends
func plen(int n, arr(int) S, arr(int) E, arr(real) Ln, int p): real =
  n <= 0 ? 0 : plen(n-1, S, E, Ln, p) + (S[n-1] == p ? 0.5*Ln[n-1] : 0) + (E[n-1] == p ? 0.5*Ln[n-1] : 0);
func pdeg(int n, arr(int) S, arr(int) E, int p): int =
  n <= 0 ? 0 : pdeg(n-1, S, E, p) + (S[n-1] == p ? 1 : 0) + (E[n-1] == p ? 1 : 0);
func lsum(int n, arr(real) Ln): real = n <= 0 ? 0 : lsum(n-1, Ln) + Ln[n-1];
lemma pdegBound(int n, arr(int) S, arr(int) E, int p) {
  requires n >= 0;
  induct n;
  ensures 0 <= pdeg(n, S, E, p) <= 2*n;
}
lemma pdegMono(int n, int s, arr(int) S, arr(int) E, int p) {
  requires 0 <= s && s < n;
  induct n;
  ensures pdeg(n, S, E, p) >= pdeg(s, S, E, p) + (S[s] == p ? 1 : 0) + (E[s] == p ? 1 : 0);
  use pdegBound(s, S, E, p);
}
pred B_plen(b, n, p) = plen(n, arr(b.segments[*].start), arr(b.segments[*].end), arr(b.segments[*].length), p);
pred B_pdeg(b, n, p) = pdeg(n, arr(b.segments[*].start), arr(b.segments[*].end), p);
// the first n segments are recorded at their points
pred B_adj(b, n) =
     forall(p; {b.points[p].length} 0 <= p < b.nPoints; b.points[p].length == B_plen(b, n, p))
  && forall(p; {b.points[p].nSegments}{b.points[p].nNeighbours} 0 <= p < b.nPoints; b.points[p].nSegments == B_pdeg(b, n, p) && b.points[p].nNeighbours == B_pdeg(b, n, p)
       && b.points[p].nSegments <= b.points[p].segments.size() && b.points[p].nNeighbours <= b.points[p].neighbours.size())
  && forall(s; {b.segments[s].start} 0 <= s < n; b.points[b.segments[s].start].segments[B_pdeg(b, s, b.segments[s].start)] == s && b.points[b.segments[s].start].neighbours[B_pdeg(b, s, b.segments[s].start)] == b.segments[s].end)
  && forall(s; {b.segments[s].end} 0 <= s < n; let k = B_pdeg(b, s, b.segments[s].end) + (b.segments[s].start == b.segments[s].end ? 1 : 0) in b.points[b.segments[s].end].segments[k] == s && b.points[b.segments[s].end].neighbours[k] == b.segments[s].start)
  && forall(p, k; {b.points[p].segments[k]}{b.points[p].neighbours[k]} 0 <= p < b.nPoints && 0 <= k < b.points[p].nSegments;
       let s = b.points[p].segments[k] in 0 <= s < n && ((b.segments[s].start == p && b.points[p].neighbours[k] == b.segments[s].end) || (b.segments[s].end == p && b.points[p].neighbours[k] == b.segments[s].start)));
pred B_sizes(b) = b.points.size() == b.nPoints && b.segments.size() == b.nSegments && b.nSegments <= 1000000000 && b.nPoints <= 2000000000;
pred B_ends(b) = forall(s; {b.segments[s].start}{b.segments[s].end} 0 <= s < b.nSegments; b.segments[s].start < b.nPoints && b.segments[s].end < b.nPoints);

contract Boundary::computePointLengths() {
  prop C13;
  requires B_sizes(this) && B_ends(this);
  requires forall(p; {points[p].length}{points[p].nSegments}{points[p].nNeighbours} 0 <= p < nPoints; points[p].length == 0 && points[p].nSegments == 0 && points[p].nNeighbours == 0);
  assigns points[*].length, points[*].segments, points[*].neighbours, points[*].nSegments, points[*].nNeighbours;
  ensures points.size() == nPoints;
  ensures [adjacency] B_adj(this, nSegments);
  loop 1 {
    inv points.size() == nPoints;
    inv B_adj(this, $i);
    begin use forall(p; {B_pdeg(this, $i, p)} pdegBound($i, arr(segments[*].start), arr(segments[*].end), p));
    begin use forall(s; {segments[s].start} 0 <= s < $i; pdegMono($i, s, arr(segments[*].start), arr(segments[*].end), segments[s].start));
    begin use forall(s; {segments[s].end} 0 <= s < $i; pdegMono($i, s, arr(segments[*].start), arr(segments[*].end), segments[s].end));
    begin use forall(s; {segments[s].start} 0 <= s < $i; pdegBound(s, arr(segments[*].start), arr(segments[*].end), segments[s].start));
    begin use forall(s; {segments[s].end} 0 <= s < $i; pdegBound(s, arr(segments[*].start), arr(segments[*].end), segments[s].end));
    dec nSegments - $i;
  }
}
func segd(real ax, real ay, real bx, real by): real = sqrt((ax - bx)*(ax - bx) + (ay - by)*(ay - by));
contract Boundary::segmentLength(segment) {
  prop C13;
  requires segment.start < points.size() && segment.end < points.size();
  ensures [euclidean] result == segd(points[segment.start].coord.x, points[segment.start].coord.y, points[segment.end].coord.x, points[segment.end].coord.y);
}

// ---- node and element status
func nstat(real phi): int = abs(phi) < 0.000001 ? NodeStatus::BOUNDARY : (phi < 0 ? NodeStatus::OUTSIDE : NodeStatus::INSIDE);
func estat(int a, int b, int c, int d): int =
  (a != NodeStatus::OUTSIDE && b != NodeStatus::OUTSIDE && c != NodeStatus::OUTSIDE && d != NodeStatus::OUTSIDE) ? ElementStatus::INSIDE
  : ((a != NodeStatus::INSIDE && b != NodeStatus::INSIDE && c != NodeStatus::INSIDE && d != NodeStatus::INSIDE) ? ElementStatus::OUTSIDE : ElementStatus::NONE);
pred B_en(m, e, j) = m.elements[e].nodes[j];
pred B_es(m, e, j) = m.nodes[m.elements[e].nodes[j]].status;
pred B_enodes(m) = forall(e, j; {m.elements[e].nodes[j]} 0 <= e < m.nElements && 0 <= j < 4; m.elements[e].nodes[j] < m.nNodes);
pred B_st3(t) = t == NodeStatus::BOUNDARY || t == NodeStatus::OUTSIDE || t == NodeStatus::INSIDE;
contract Boundary::computeMeshStatus(mesh, signedDistance) {
  prop C12;
  requires M_dims(mesh) && M_sizes(mesh) && B_enodes(mesh) && (*signedDistance).size() == mesh.nNodes;
  assigns mesh.nodes[*].nBoundaryPoints, mesh.nodes[*].status, mesh.elements[*].nBoundarySegments, mesh.elements[*].status;
  ensures [nodes] forall(n; {mesh.nodes[n].status} 0 <= n < mesh.nNodes; mesh.nodes[n].status == nstat((*signedDistance)[n]) && B_st3(mesh.nodes[n].status));
  ensures [elements] forall(e; {mesh.elements[e].status} 0 <= e < mesh.nElements; mesh.elements[e].status == estat(B_es(mesh, e, 0), B_es(mesh, e, 1), B_es(mesh, e, 2), B_es(mesh, e, 3)));
  ensures forall(n; {mesh.nodes[n].nBoundaryPoints} 0 <= n < mesh.nNodes; mesh.nodes[n].nBoundaryPoints == 0);
  ensures forall(e; {mesh.elements[e].nBoundarySegments} 0 <= e < mesh.nElements; mesh.elements[e].nBoundarySegments == 0);
  loop 1 {
    inv forall(n; {mesh.nodes[n].status} 0 <= n < $i; mesh.nodes[n].status == nstat((*signedDistance)[n]) && B_st3(mesh.nodes[n].status));
    inv forall(n; {mesh.nodes[n].nBoundaryPoints} 0 <= n < $i; mesh.nodes[n].nBoundaryPoints == 0);
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv forall(e; {mesh.elements[e].status} 0 <= e < $i; mesh.elements[e].status == estat(B_es(mesh, e, 0), B_es(mesh, e, 1), B_es(mesh, e, 2), B_es(mesh, e, 3)));
    inv forall(e; {mesh.elements[e].nBoundarySegments} 0 <= e < $i; mesh.elements[e].nBoundarySegments == 0);
    end assert mesh.elements[i].status == estat(B_es(mesh, i, 0), B_es(mesh, i, 1), B_es(mesh, i, 2), B_es(mesh, i, 3));
    dec mesh.nElements - $i;
  }
}

// ---- where a boundary point may be added
func ptX(real x, int edge, real d): real = edge == 0 ? x + d : (edge == 2 ? x - d : x);
func ptY(real y, int edge, real d): real = edge == 1 ? y + d : (edge == 0 || edge == 2 ? y : y - d);
pred near6(x, y, x2, y2) = abs(x - x2) < 0.000001 && abs(y - y2) < 0.000001;
contract Boundary::isAdded(mesh, point, node, edge, distance) {
  prop C12;
  requires M_dims(mesh) && node < mesh.nNodes && mesh.nodes.size() == mesh.nNodes && mesh.nodes[node].nBoundaryPoints <= mesh.nodes[node].boundaryPoints.size();
  requires forall(k; {mesh.nodes[node].boundaryPoints[k]} 0 <= k < mesh.nodes[node].nBoundaryPoints; mesh.nodes[node].boundaryPoints[k] < points.size());
  requires points.size() <= 2000000000;
  assigns point.x, point.y;
  ensures [coordinate] point.x == ptX(mesh.nodes[node].coord.x, edge, distance) && point.y == ptY(mesh.nodes[node].coord.y, edge, distance);
  ensures [new] -1 <= result && (result < 0 ==> forall(k; {mesh.nodes[node].boundaryPoints[k]} 0 <= k < mesh.nodes[node].nBoundaryPoints;
     !near6(point.x, point.y, points[mesh.nodes[node].boundaryPoints[k]].coord.x, points[mesh.nodes[node].boundaryPoints[k]].coord.y)));
  ensures [existing] result >= 0 ==> result < points.size() && near6(point.x, point.y, points[result].coord.x, points[result].coord.y);
  ensures [listed] result >= 0 ==> exists(k; 0 <= k < mesh.nodes[node].nBoundaryPoints && mesh.nodes[node].boundaryPoints[k] == result);
  loop 1 {
    inv point.x == ptX(mesh.nodes[node].coord.x, edge, distance) && point.y == ptY(mesh.nodes[node].coord.y, edge, distance);
    inv forall(k; {mesh.nodes[node].boundaryPoints[k]} 0 <= k < $i; !near6(point.x, point.y, points[mesh.nodes[node].boundaryPoints[k]].coord.x, points[mesh.nodes[node].boundaryPoints[k]].coord.y));
    dec mesh.nodes[node].nBoundaryPoints - $i;
  }
}

// ---- discretisation
// distance from the node with value a to the zero of the linear interpolation to the node with value b
func zc(real a, real b): real = a/(a - b);
lemma zcRange(real a, real b) {
  requires (a > 0 && b < 0) || (a < 0 && b > 0);
  assert a/(a-b) + b/(b-a) == 1;
  assert a/(a-b) > 0 && b/(b-a) > 0;
  ensures 0 < zc(a, b) < 1 && zc(b, a) == 1 - zc(a, b);
}
// lower and upper end of the grid edge (or the grid node) a point lies on; w nodes per row
func loN(real x, real y, int w): int = floor(x) + floor(y)*w;
func hiN(real x, real y, int w): int = -floor(-x) + (-floor(-y))*w;
lemma anchor(int X, int Y, int j, real d, int w) {
  requires 0 < d < 1 && 0 <= j <= 3;
  assert floor(-(X + d)) == -X - 1 && floor(-(X - d)) == -X && floor(-(Y + d)) == -Y - 1 && floor(-(Y - d)) == -Y && floor(-real(X)) == -X && floor(-real(Y)) == -Y;
  assert floor(X + d) == X && floor(X - d) == X - 1 && floor(Y + d) == Y && floor(Y - d) == Y - 1 && floor(real(X)) == X && floor(real(Y)) == Y;
  ensures loN(ptX(X, j, d), ptY(Y, j, d), w) == (j < 2 ? X + Y*w : (j == 2 ? X - 1 + Y*w : X + (Y-1)*w));
  ensures hiN(ptX(X, j, d), ptY(Y, j, d), w) == (j == 0 ? X + 1 + Y*w : (j == 1 ? X + (Y+1)*w : X + Y*w));
}
lemma anchor0(int X, int Y, int w) {
  ensures loN(ptX(X, 0, 0), ptY(Y, 0, 0), w) == X + Y*w && hiN(ptX(X, 0, 0), ptY(Y, 0, 0), w) == X + Y*w;
}
lemma lsumFrame(int n, arr(real) A, arr(real) B) {
  requires forall(k; {A[k]} 0 <= k < n; A[k] == B[k]);
  induct n;
  ensures lsum(n, A) == lsum(n, B);
}
pred D_st(L, n) = L.mesh.nodes[n].status;
pred D_x(L, n) = L.mesh.nodes[n].coord.x;
pred D_y(L, n) = L.mesh.nodes[n].coord.y;
pred D_cut(L, a, b) = (D_st(L, a) == NodeStatus::INSIDE && D_st(L, b) == NodeStatus::OUTSIDE) || (D_st(L, a) == NodeStatus::OUTSIDE && D_st(L, b) == NodeStatus::INSIDE);
pred D_lo(B, L, p) = loN(B.points[p].coord.x, B.points[p].coord.y, L.mesh.width+1);
pred D_hi(B, L, p) = hiN(B.points[p].coord.x, B.points[p].coord.y, L.mesh.width+1);
// on a boundary node, or where the interpolated level set vanishes on a cut grid edge
pred D_onAt(B, L, S, p, lo, hi) = 0 <= lo < L.mesh.nNodes && 0 <= hi < L.mesh.nNodes
  && (lo == hi ? D_st(L, lo) == NodeStatus::BOUNDARY && B.points[p].coord.x == D_x(L, lo) && B.points[p].coord.y == D_y(L, lo)
     : D_cut(L, lo, hi) && ((hi == lo + 1 && B.points[p].coord.y == D_y(L, lo) && B.points[p].coord.x == D_x(L, lo) + zc(S[lo], S[hi]))
                         || (hi == lo + L.mesh.width + 1 && B.points[p].coord.x == D_x(L, lo) && B.points[p].coord.y == D_y(L, lo) + zc(S[lo], S[hi]))));
pred D_on(B, L, S, p) = D_onAt(B, L, S, p, D_lo(B, L, p), D_hi(B, L, p)) && M_in(L.mesh, B.points[p].coord.x, B.points[p].coord.y);
pred D_bp(L, n, k) = L.mesh.nodes[n].boundaryPoints[k];
pred D_nbp(L, n) = L.mesh.nodes[n].nBoundaryPoints;
pred D_inlist(L, n, p) = (D_nbp(L, n) > 0 && D_bp(L, n, 0) == p) || (D_nbp(L, n) > 1 && D_bp(L, n, 1) == p) || (D_nbp(L, n) > 2 && D_bp(L, n, 2) == p) || (D_nbp(L, n) > 3 && D_bp(L, n, 3) == p);
pred D_ok(B, L, S) = forall(p; {B.points[p].coord.x}{B.points[p].coord.y} 0 <= p < B.nPoints; D_on(B, L, S, p));
pred D_registered(B, L) = forall(p; {B.points[p].coord.x}{B.points[p].coord.y} 0 <= p < B.nPoints; D_inlist(L, D_lo(B, L, p), p) && D_inlist(L, D_hi(B, L, p), p));
pred D_lists(B, L) =
     forall(n; {L.mesh.nodes[n].nBoundaryPoints} 0 <= n < L.mesh.nNodes; 0 <= D_nbp(L, n) <= 4)
  && forall(n, k; {L.mesh.nodes[n].boundaryPoints[k]} 0 <= n < L.mesh.nNodes && 0 <= k < D_nbp(L, n); 0 <= D_bp(L, n, k) < B.nPoints && (D_lo(B, L, D_bp(L, n, k)) == n || D_hi(B, L, D_bp(L, n, k)) == n));
pred D_nodup(L) = forall(n, k, h; {L.mesh.nodes[n].boundaryPoints[k], L.mesh.nodes[n].boundaryPoints[h]} 0 <= n < L.mesh.nNodes && 0 <= k < h && h < D_nbp(L, n); D_bp(L, n, k) != D_bp(L, n, h));
pred D_once(B, L) = forall(p, q; {D_lo(B, L, p), D_lo(B, L, q)} 0 <= p < B.nPoints && 0 <= q < B.nPoints && D_lo(B, L, p) == D_lo(B, L, q) && D_hi(B, L, p) == D_hi(B, L, q); p == q);
pred D_fresh(B) = forall(p; {B.points[p].length}{B.points[p].nSegments}{B.points[p].nNeighbours} 0 <= p < B.nPoints; B.points[p].length == 0 && B.points[p].nSegments == 0 && B.points[p].nNeighbours == 0);
pred D_limits(B, L) = forall(p; {B.points[p].negativeLimit}{B.points[p].positiveLimit}{B.points[p].isDomain}{B.points[p].isFixed} 0 <= p < B.nPoints; B_limits(L, B.points[p]));
pred D_incell(B, L, p, e) = abs(B.points[p].coord.x - L.mesh.elements[e].coord.x) <= 0.500001 && abs(B.points[p].coord.y - L.mesh.elements[e].coord.y) <= 0.500001;
pred D_segs(B, L) =
     forall(s; {B.segments[s].start}{B.segments[s].end}{B.segments[s].element}{B.segments[s].length} 0 <= s < B.nSegments;
        B.segments[s].start < B.nPoints && B.segments[s].end < B.nPoints && B.segments[s].element < L.mesh.nElements
     && B.segments[s].length == segd(B.points[B.segments[s].start].coord.x, B.points[B.segments[s].start].coord.y, B.points[B.segments[s].end].coord.x, B.points[B.segments[s].end].coord.y)
     && D_incell(B, L, B.segments[s].start, B.segments[s].element) && D_incell(B, L, B.segments[s].end, B.segments[s].element));
pred D_total(B) = B.length == lsum(B.nSegments, arr(B.segments[*].length));
pred D_nbs(L) = forall(e; {L.mesh.elements[e].nBoundarySegments} 0 <= e < L.mesh.nElements; 0 <= L.mesh.elements[e].nBoundarySegments <= 4);
pred D_lookup(B, L) =
     forall(e, k; {L.mesh.elements[e].boundarySegments[k]} 0 <= e < L.mesh.nElements && 0 <= k < L.mesh.elements[e].nBoundarySegments; L.mesh.elements[e].boundarySegments[k] < B.nSegments && B.segments[L.mesh.elements[e].boundarySegments[k]].element == e);
pred D_sizes(B, L) = B.points.size() == B.nPoints && B.segments.size() == B.nSegments
  && forall(n; {L.mesh.nodes[n].boundaryPoints.size()} 0 <= n < L.mesh.nNodes; L.mesh.nodes[n].boundaryPoints.size() == 4)
  && forall(e; {L.mesh.elements[e].boundarySegments.size()} 0 <= e < L.mesh.nElements; L.mesh.elements[e].boundarySegments.size() == 4);
pred D_status(L, S) = forall(n; {L.mesh.nodes[n].status} 0 <= n < L.mesh.nNodes; D_st(L, n) == nstat(S[n]) && B_st3(D_st(L, n)));
pred D_isB(L, i, j) = (B_es(L.mesh, i, j) == NodeStatus::BOUNDARY ? 1 : 0);
// boundary nodes among the first k of element i; edges with both ends on the boundary among the first k
pred D_nb(L, i, k) = (k > 0 ? D_isB(L, i, 0) : 0) + (k > 1 ? D_isB(L, i, 1) : 0) + (k > 2 ? D_isB(L, i, 2) : 0) + (k > 3 ? D_isB(L, i, 3) : 0);
pred D_ncutEdges(L, i, k) = (k > 0 && D_cut(L, B_en(L.mesh, i, 0), B_en(L.mesh, i, 1)) ? 1 : 0) + (k > 1 && D_cut(L, B_en(L.mesh, i, 1), B_en(L.mesh, i, 2)) ? 1 : 0)
   + (k > 2 && D_cut(L, B_en(L.mesh, i, 2), B_en(L.mesh, i, 3)) ? 1 : 0) + (k > 3 && D_cut(L, B_en(L.mesh, i, 3), B_en(L.mesh, i, 0)) ? 1 : 0);
pred D_bb(L, i, a, b) = (B_es(L.mesh, i, a) == NodeStatus::BOUNDARY && B_es(L.mesh, i, b) == NodeStatus::BOUNDARY ? 1 : 0);
pred D_nbb(L, i, k) = (k > 0 ? D_bb(L, i, 0, 1) : 0) + (k > 1 ? D_bb(L, i, 1, 2) : 0) + (k > 2 ? D_bb(L, i, 2, 3) : 0) + (k > 3 ? D_bb(L, i, 3, 0) : 0);
// corner j of element i and its neighbour along edge j
pred D_geo(L, i) = let X = L.mesh.elements[i].coord.x - 0.5 in let Y = L.mesh.elements[i].coord.y - 0.5 in let a = B_en(L.mesh, i, 0) in
     0 <= a && a + L.mesh.width + 2 < L.mesh.nNodes && B_en(L.mesh, i, 1) == a + 1 && B_en(L.mesh, i, 2) == a + L.mesh.width + 2 && B_en(L.mesh, i, 3) == a + L.mesh.width + 1
  && D_x(L, a) == X && D_y(L, a) == Y && D_x(L, B_en(L.mesh, i, 1)) == X + 1 && D_y(L, B_en(L.mesh, i, 1)) == Y
  && D_x(L, B_en(L.mesh, i, 2)) == X + 1 && D_y(L, B_en(L.mesh, i, 2)) == Y + 1 && D_x(L, B_en(L.mesh, i, 3)) == X && D_y(L, B_en(L.mesh, i, 3)) == Y + 1;

lemma nstatDef(real phi) { ensures (nstat(phi) == NodeStatus::INSIDE ==> phi > 0) && (nstat(phi) == NodeStatus::OUTSIDE ==> phi < 0); }
lemma estatDef(int a, int b, int c, int d) { ensures estat(a, b, c, d) != ElementStatus::INSIDE ==> a == NodeStatus::OUTSIDE || b == NodeStatus::OUTSIDE || c == NodeStatus::OUTSIDE || d == NodeStatus::OUTSIDE; }
lemma zcDef(real a, real b) { ensures zc(a, b) == a/(a - b); }
pred D_step(L, a, b, j) = 0 <= j <= 3 && (j == 0 ==> b == a + 1 && D_x(L, b) == D_x(L, a) + 1 && D_y(L, b) == D_y(L, a)) && (j == 1 ==> b == a + L.mesh.width + 1 && D_x(L, b) == D_x(L, a) && D_y(L, b) == D_y(L, a) + 1)
  && (j == 2 ==> a == b + 1 && D_x(L, a) == D_x(L, b) + 1 && D_y(L, b) == D_y(L, a)) && (j == 3 ==> a == b + L.mesh.width + 1 && D_x(L, b) == D_x(L, a) && D_y(L, a) == D_y(L, b) + 1);
pred D_opp(a, b) = (a > 0 && b < 0) || (a < 0 && b > 0);
pred D_onEdge(L, S, c, lo, hi) = (hi == lo + 1 && c.y == D_y(L, lo) && c.x == D_x(L, lo) + zc(S[lo], S[hi])) || (hi == lo + L.mesh.width + 1 && c.x == D_x(L, lo) && c.y == D_y(L, lo) + zc(S[lo], S[hi]));
// the other end of the edge the k-th point of node n is on: a neighbour of n, not m, and different for every k
pred D_other(B, L, n, k) = D_lo(B, L, D_bp(L, n, k)) == n ? D_hi(B, L, D_bp(L, n, k)) : D_lo(B, L, D_bp(L, n, k));
pred D_others(B, L, n, m, k) = k < D_nbp(L, n) ==> (let o = D_other(B, L, n, k) in (o == n + 1 || o == n - 1 || o == n + L.mesh.width + 1 || o == n - L.mesh.width - 1) && o != m
   && (k > 0 ==> o != D_other(B, L, n, 0)) && (k > 1 ==> o != D_other(B, L, n, 1)) && (k > 2 ==> o != D_other(B, L, n, 2)));
lemma estatOut(int a, int b, int c, int d) { ensures estat(a, b, c, d) == ElementStatus::OUTSIDE ==> a != NodeStatus::INSIDE && b != NodeStatus::INSIDE && c != NodeStatus::INSIDE && d != NodeStatus::INSIDE; }
pred D_sum(L, S, e, k) = (k > 0 ? S[B_en(L.mesh, e, 0)] : 0) + (k > 1 ? S[B_en(L.mesh, e, 1)] : 0) + (k > 2 ? S[B_en(L.mesh, e, 2)] : 0) + (k > 3 ? S[B_en(L.mesh, e, 3)] : 0);
pred D_estat4(L, e) = estat(B_es(L.mesh, e, 0), B_es(L.mesh, e, 1), B_es(L.mesh, e, 2), B_es(L.mesh, e, 3));
// the status of an element; one with four cut edges is told from its centre (when its edges are looked at)
pred D_estatus(L, S, e) = L.mesh.elements[e].status == D_estat4(L, e)
  || (D_ncutEdges(L, e, 4) == 4 && L.mesh.elements[e].status == (D_sum(L, S, e, 4) > 0 ? ElementStatus::CENTRE_INSIDE : ElementStatus::CENTRE_OUTSIDE));
// a cut edge that is looked at (anything for a target, otherwise near the narrow band or a mask) has its point
pred D_look(L, a, b, t) = t || L.mesh.nodes[a].isActive || L.mesh.nodes[a].isMasked || L.mesh.nodes[b].isActive || L.mesh.nodes[b].isMasked;
pred D_zx(L, S, lo, hi) = D_x(L, lo) + (hi == lo + 1 ? zc(S[lo], S[hi]) : 0);
pred D_zy(L, S, lo, hi) = D_y(L, lo) + (hi == lo + 1 ? 0 : zc(S[lo], S[hi]));
pred D_has(B, L, S, a, b) = let lo = min(a, b) in let hi = max(a, b) in let x = D_zx(L, S, lo, hi) in let y = D_zy(L, S, lo, hi) in
  exists(p; 0 <= p < B.nPoints && near6(B.points[p].coord.x, B.points[p].coord.y, x, y));
pred D_hasEdge(B, L, S, t, e, j) = let a = B_en(L.mesh, e, j) in let b = B_en(L.mesh, e, j == 3 ? 0 : j+1) in D_cut(L, a, b) && D_look(L, a, b, t) ==> D_has(B, L, S, a, b);
pred D_complete(B, L, S, t, n) = forall(e, j; {L.mesh.elements[e].nodes[j]} 0 <= e < n && 0 <= j < 4; D_hasEdge(B, L, S, t, e, j));
// polygon vertices of a cut cell: corners on the side looked for (or boundary nodes between two inside nodes) and two per segment, at most six
pred C_st(m, e, j) = m.nodes[e.nodes[j]].status;
pred C_side(e) = (e.status & ElementStatus::CENTRE_OUTSIDE) != 0 ? NodeStatus::OUTSIDE : NodeStatus::INSIDE;
pred C_incl(m, e, j, a, b) = C_st(m, e, j) == C_side(e) || (C_st(m, e, j) == NodeStatus::BOUNDARY && C_st(m, e, a) == NodeStatus::INSIDE && C_st(m, e, b) == NodeStatus::INSIDE);
pred C_n(m, e, k) = (k > 0 && C_incl(m, e, 0, 1, 3) ? 1 : 0) + (k > 1 && C_incl(m, e, 1, 2, 0) ? 1 : 0) + (k > 2 && C_incl(m, e, 2, 3, 1) ? 1 : 0) + (k > 3 && C_incl(m, e, 3, 0, 2) ? 1 : 0);
pred A_cut(m, e) = (m.elements[e].status & ElementStatus::INSIDE) == 0 && (m.elements[e].status & ElementStatus::OUTSIDE) == 0;
func few6(int a, int b, int c, int d, int es, int n): bool = (es & ElementStatus::INSIDE) == 0 && (es & ElementStatus::OUTSIDE) == 0
  ==> F_n((es & ElementStatus::CENTRE_OUTSIDE) != 0 ? NodeStatus::OUTSIDE : NodeStatus::INSIDE, a, b, c, d) + 2*n <= 6;
pred F_in(s, x, l, r) = (x == s || (x == NodeStatus::BOUNDARY && l == NodeStatus::INSIDE && r == NodeStatus::INSIDE) ? 1 : 0);
pred F_n(s, a, b, c, d) = F_in(s, a, d, b) + F_in(s, b, a, c) + F_in(s, c, b, d) + F_in(s, d, c, a);
pred A_few(m, e) = few6(B_es(m, e, 0), B_es(m, e, 1), B_es(m, e, 2), B_es(m, e, 3), m.elements[e].status, m.elements[e].nBoundarySegments);
pred F_c(a, b) = ((a == NodeStatus::INSIDE && b == NodeStatus::OUTSIDE) || (b == NodeStatus::INSIDE && a == NodeStatus::OUTSIDE) ? 1 : 0);
pred F_bb(a, b) = (a == NodeStatus::BOUNDARY && b == NodeStatus::BOUNDARY ? 1 : 0);
pred F_bo(x, l, r) = (x == NodeStatus::BOUNDARY && (l == NodeStatus::OUTSIDE || r == NodeStatus::OUTSIDE) ? 1 : 0);
pred F_b(x) = (x == NodeStatus::BOUNDARY ? 1 : 0);
lemma few6Of(int a, int b, int c, int d, int es, int n) {
  requires B_st3(a) && B_st3(b) && B_st3(c) && B_st3(d);
  requires es == estat(a, b, c, d) || (F_c(a, b) + F_c(b, c) + F_c(c, d) + F_c(d, a) == 4 && (es == ElementStatus::CENTRE_INSIDE || es == ElementStatus::CENTRE_OUTSIDE));
  requires es != ElementStatus::OUTSIDE && es != ElementStatus::INSIDE ==> (let k = F_c(a, b) + F_c(b, c) + F_c(c, d) + F_c(d, a) in let z = F_bb(a, b) + F_bb(b, c) + F_bb(c, d) + F_bb(d, a) in
      n <= z || (k == 4 && n <= z + 2) || ((k >= 2 || F_b(a) + F_b(b) + F_b(c) + F_b(d) >= 2) && n <= z + 1) || (k >= 1 && n <= z + F_bo(a, d, b) + F_bo(b, a, c) + F_bo(c, b, d) + F_bo(d, c, a)));
  ensures few6(a, b, c, d, es, n);
}
lemma few6Def(int a, int b, int c, int d, int es, int n) {
  ensures few6(a, b, c, d, es, n) && (es & ElementStatus::INSIDE) == 0 && (es & ElementStatus::OUTSIDE) == 0 ==> F_n((es & ElementStatus::CENTRE_OUTSIDE) != 0 ? NodeStatus::OUTSIDE : NodeStatus::INSIDE, a, b, c, d) + 2*n <= 6;
}
// boundary nodes with an outside neighbour among the first k of element i
pred D_bo1(L, i, j, a, b) = (B_es(L.mesh, i, j) == NodeStatus::BOUNDARY && (B_es(L.mesh, i, a) == NodeStatus::OUTSIDE || B_es(L.mesh, i, b) == NodeStatus::OUTSIDE) ? 1 : 0);
pred D_bo(L, i, k) = (k > 0 ? D_bo1(L, i, 0, 1, 3) : 0) + (k > 1 ? D_bo1(L, i, 1, 2, 0) : 0) + (k > 2 ? D_bo1(L, i, 2, 3, 1) : 0) + (k > 3 ? D_bo1(L, i, 3, 0, 2) : 0);
contract Boundary::discretise(levelSet, isTarget) {
  prop C12; prop C13; prop C16;
  flags forkloops nounroll slices;
  hide zc, ndist, segd, few6;
  requires M_ok(levelSet.mesh) && levelSet.mesh.nElements <= 100000000 && levelSet.moveLimit >= 0.000001;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes && (isTarget ==> levelSet.target.size() == levelSet.mesh.nNodes);
  assigns points, segments, nPoints, nSegments, length, levelSet.mesh.nodes[*].nBoundaryPoints, levelSet.mesh.nodes[*].boundaryPoints, levelSet.mesh.nodes[*].status,
    levelSet.mesh.elements[*].nBoundarySegments, levelSet.mesh.elements[*].boundarySegments, levelSet.mesh.elements[*].status;
  ensures [node-status] let S = (isTarget ? arr(levelSet.target) : arr(levelSet.signedDistance)) in D_status(levelSet, S);
  ensures [element-status] let S = (isTarget ? arr(levelSet.target) : arr(levelSet.signedDistance)) in forall(e; {levelSet.mesh.elements[e].status} 0 <= e < levelSet.mesh.nElements; D_estatus(levelSet, S, e));
  ensures [on-contour] let S = (isTarget ? arr(levelSet.target) : arr(levelSet.signedDistance)) in D_ok(this, levelSet, S);
  ensures [complete] let S = (isTarget ? arr(levelSet.target) : arr(levelSet.signedDistance)) in D_complete(this, levelSet, S, isTarget, levelSet.mesh.nElements);
  ensures [distinct] forall(p, q; {points[p].coord.x, points[q].coord.x} 0 <= p < nPoints && 0 <= q < nPoints && points[p].coord.x == points[q].coord.x && points[p].coord.y == points[q].coord.y; p == q);
  ensures [limits] D_limits(this, levelSet);
  ensures [segments] D_segs(this, levelSet);
  ensures [total] D_total(this);
  ensures [lookup] D_nbs(levelSet) && D_lookup(this, levelSet);
  ensures [adjacency] B_sizes(this) && B_adj(this, nSegments);
  ensures [polygons] forall(e; {levelSet.mesh.elements[e].status} 0 <= e < levelSet.mesh.nElements; A_few(levelSet.mesh, e));
  ensures [node-points] D_lists(this, levelSet) && D_nodup(levelSet) && D_registered(this, levelSet) && D_sizes(this, levelSet);
  entry use forall(e, j; {levelSet.mesh.elements[e].nodes[j]} 0 <= e < levelSet.mesh.nElements && 0 <= j < 4; rowBound(e, levelSet.mesh.width, levelSet.mesh.height));
  entry use forall(e, j; {levelSet.mesh.elements[e].nodes[j]} 0 <= e < levelSet.mesh.nElements && 0 <= j < 4; atBound(col(e, levelSet.mesh.width), row(e, levelSet.mesh.width), levelSet.mesh.width+1, levelSet.mesh.height+1));
  entry use forall(e, j; {levelSet.mesh.elements[e].nodes[j]} 0 <= e < levelSet.mesh.nElements && 0 <= j < 4; atBound(col(e, levelSet.mesh.width)+1, row(e, levelSet.mesh.width)+1, levelSet.mesh.width+1, levelSet.mesh.height+1));
  entry use forall(e, j; {levelSet.mesh.elements[e].nodes[j]} 0 <= e < levelSet.mesh.nElements && 0 <= j < 4; atBound(col(e, levelSet.mesh.width)+1, row(e, levelSet.mesh.width), levelSet.mesh.width+1, levelSet.mesh.height+1));
  entry use forall(e, j; {levelSet.mesh.elements[e].nodes[j]} 0 <= e < levelSet.mesh.nElements && 0 <= j < 4; atBound(col(e, levelSet.mesh.width), row(e, levelSet.mesh.width)+1, levelSet.mesh.width+1, levelSet.mesh.height+1));
  entry assert B_enodes(levelSet.mesh);
  after_call isAdded use $arg5 == 0 ==> anchor0(col($arg3, levelSet.mesh.width+1), row($arg3, levelSet.mesh.width+1), levelSet.mesh.width+1);
  after_call isAdded use $arg5 > 0 ==> anchor(col($arg3, levelSet.mesh.width+1), row($arg3, levelSet.mesh.width+1), $arg4, $arg5, levelSet.mesh.width+1);
  // a point on a cut edge: distance, canonical coordinates, ends of the edge
  before_call isAdded use nstatDef((*signedDistance)[n1]);
  before_call isAdded use nstatDef((*signedDistance)[n2]);
  before_call isAdded assert $arg5 != 0 && D_cut(levelSet, n1, n2) ==> D_opp((*signedDistance)[n1], (*signedDistance)[n2]);
  before_call isAdded use D_opp((*signedDistance)[n1], (*signedDistance)[n2]) ==> zcDef((*signedDistance)[n1], (*signedDistance)[n2]);
  before_call isAdded assert $arg5 != 0 && D_cut(levelSet, n1, n2) ==> $arg5 == zc((*signedDistance)[n1], (*signedDistance)[n2]);
  before_call isAdded use D_opp((*signedDistance)[n1], (*signedDistance)[n2]) ==> zcRange((*signedDistance)[n1], (*signedDistance)[n2]);
  before_call isAdded assert $arg5 != 0 ==> 0 < $arg5 < 1;
  after_call isAdded assert $arg5 > 0 ==> D_step(levelSet, n1, n2, $arg4);
  after_call isAdded assert $arg5 > 0 && $arg4 == 0 ==> $arg2.x == D_x(levelSet, n1) + zc((*signedDistance)[n1], (*signedDistance)[n2]) && $arg2.y == D_y(levelSet, n1);
  after_call isAdded assert $arg5 > 0 && $arg4 == 1 ==> $arg2.y == D_y(levelSet, n1) + zc((*signedDistance)[n1], (*signedDistance)[n2]) && $arg2.x == D_x(levelSet, n1);
  after_call isAdded assert $arg5 > 0 && $arg4 == 2 ==> $arg2.x == D_x(levelSet, n2) + zc((*signedDistance)[n2], (*signedDistance)[n1]) && $arg2.y == D_y(levelSet, n2);
  after_call isAdded assert $arg5 > 0 && $arg4 == 3 ==> $arg2.y == D_y(levelSet, n2) + zc((*signedDistance)[n2], (*signedDistance)[n1]) && $arg2.x == D_x(levelSet, n2);
  after_call isAdded assert $arg5 > 0 ==> D_onEdge(levelSet, (*signedDistance), $arg2, min(n1, n2), max(n1, n2));
  after_call isAdded use $arg5 > 0 ==> anchor(col($arg3, levelSet.mesh.width+1), row($arg3, levelSet.mesh.width+1), $arg4, $arg5, levelSet.mesh.width+1);
  after_call isAdded assert $arg5 > 0 ==> loN($arg2.x, $arg2.y, levelSet.mesh.width+1) == min(n1, n2) && hiN($arg2.x, $arg2.y, levelSet.mesh.width+1) == max(n1, n2);
  after_call isAdded assert $arg5 > 0 ==> $arg2.x == D_zx(levelSet, (*signedDistance), min(n1, n2), max(n1, n2)) && $arg2.y == D_zy(levelSet, (*signedDistance), min(n1, n2), max(n1, n2));
  after_call isAdded assert $arg5 > 0 && $ret < 0 ==> forall(p; {points[p].coord.x} 0 <= p < nPoints; !(D_lo(this, levelSet, p) == min(n1, n2) && D_hi(this, levelSet, p) == max(n1, n2)));
  // a node has at most four cut edges
  after_call isAdded assert $arg5 > 0 && $ret < 0 ==> D_others(this, levelSet, n1, n2, 0) && D_others(this, levelSet, n1, n2, 1) && D_others(this, levelSet, n1, n2, 2) && D_others(this, levelSet, n1, n2, 3);
  after_call isAdded assert $arg5 > 0 && $ret < 0 ==> D_others(this, levelSet, n2, n1, 0) && D_others(this, levelSet, n2, n1, 1) && D_others(this, levelSet, n2, n1, 2) && D_others(this, levelSet, n2, n1, 3);
  after_call isAdded assert $arg5 > 0 && $ret < 0 ==> D_nbp(levelSet, n1) < 4 && D_nbp(levelSet, n2) < 4;
  // a node on the boundary has at most one point
  after_call isAdded assert $arg5 == 0 ==> D_st(levelSet, $arg3) == NodeStatus::BOUNDARY && $arg2.x == D_x(levelSet, $arg3) && $arg2.y == D_y(levelSet, $arg3);
  after_call isAdded assert $arg5 == 0 ==> loN($arg2.x, $arg2.y, levelSet.mesh.width+1) == $arg3 && hiN($arg2.x, $arg2.y, levelSet.mesh.width+1) == $arg3;
  after_call isAdded assert $arg5 == 0 && D_nbp(levelSet, $arg3) > 0 ==> D_lo(this, levelSet, D_bp(levelSet, $arg3, 0)) == $arg3 && D_hi(this, levelSet, D_bp(levelSet, $arg3, 0)) == $arg3;
  after_call isAdded assert $arg5 == 0 && $ret < 0 ==> D_nbp(levelSet, $arg3) == 0;
  loop 1 {
    end use forall(arr(real) A; {lsum(nSegments-1, A)} true; lsumFrame(nSegments-1, A, arr(segments[*].length)));
    end use forall(arr(real) A; {lsum(nSegments-2, A)} true; lsumFrame(nSegments-2, A, arr(segments[*].length)));
    inv D_status(levelSet, (*signedDistance));
    inv nPoints <= 12*$i && nSegments <= 10*$i;
    inv D_nbs(levelSet);
    inv D_complete(this, levelSet, (*signedDistance), isTarget, $i);
    inv D_sizes(this, levelSet) && D_fresh(this);
    inv D_ok(this, levelSet, (*signedDistance));
    inv D_registered(this, levelSet);
    inv D_lists(this, levelSet);
    inv D_nodup(levelSet);
    inv D_once(this, levelSet);
    inv D_limits(this, levelSet);
    inv D_segs(this, levelSet);
    inv D_total(this);
    inv D_lookup(this, levelSet);
    inv forall(e; {levelSet.mesh.elements[e].nBoundarySegments} $i <= e < levelSet.mesh.nElements; levelSet.mesh.elements[e].nBoundarySegments == 0);
    inv forall(e; {levelSet.mesh.elements[e].status} $i <= e < levelSet.mesh.nElements; levelSet.mesh.elements[e].status == estat(B_es(levelSet.mesh, e, 0), B_es(levelSet.mesh, e, 1), B_es(levelSet.mesh, e, 2), B_es(levelSet.mesh, e, 3)));
    begin use colRow($i, levelSet.mesh.width);
    begin use rowBound($i, levelSet.mesh.width, levelSet.mesh.height);
    begin use atBound(col($i, levelSet.mesh.width)+1, row($i, levelSet.mesh.width)+1, levelSet.mesh.width+1, levelSet.mesh.height+1);
    begin use atBound(col($i, levelSet.mesh.width), row($i, levelSet.mesh.width), levelSet.mesh.width+1, levelSet.mesh.height+1);
    begin use atCR(col($i, levelSet.mesh.width), row($i, levelSet.mesh.width), levelSet.mesh.width+1);
    begin use atCR(col($i, levelSet.mesh.width)+1, row($i, levelSet.mesh.width), levelSet.mesh.width+1);
    begin use atCR(col($i, levelSet.mesh.width)+1, row($i, levelSet.mesh.width)+1, levelSet.mesh.width+1);
    begin use atCR(col($i, levelSet.mesh.width), row($i, levelSet.mesh.width)+1, levelSet.mesh.width+1);
    begin use estatDef(B_es(levelSet.mesh, $i, 0), B_es(levelSet.mesh, $i, 1), B_es(levelSet.mesh, $i, 2), B_es(levelSet.mesh, $i, 3));
    begin use estatOut(B_es(levelSet.mesh, $i, 0), B_es(levelSet.mesh, $i, 1), B_es(levelSet.mesh, $i, 2), B_es(levelSet.mesh, $i, 3));
    begin assert D_geo(levelSet, $i);
    end use few6Of(B_es(levelSet.mesh, i, 0), B_es(levelSet.mesh, i, 1), B_es(levelSet.mesh, i, 2), B_es(levelSet.mesh, i, 3), levelSet.mesh.elements[i].status, levelSet.mesh.elements[i].nBoundarySegments);
    inv forall(e; {levelSet.mesh.elements[e].status} 0 <= e < $i; A_few(levelSet.mesh, e));
    inv forall(e; {levelSet.mesh.elements[e].status} 0 <= e < $i; D_estatus(levelSet, (*signedDistance), e));
  }
  // edges
  loop 2 {
    after assert D_complete(this, levelSet, (*signedDistance), isTarget, i+1);
    end assert nCut > iter(nCut) ==> D_has(this, levelSet, (*signedDistance), n1, n2);
    end assert D_hasEdge(this, levelSet, (*signedDistance), isTarget, i, $i);
    end assert nPoints >= iter(nPoints) && forall(p; {points[p].coord.x}{points[p].coord.y}{iter(points[p].coord.x)}{iter(points[p].coord.y)} 0 <= p < iter(nPoints); points[p].coord.x == iter(points[p].coord.x) && points[p].coord.y == iter(points[p].coord.y));
    end assert forall(p; {points[p].negativeLimit}{points[p].positiveLimit}{points[p].isDomain}{points[p].isFixed} 0 <= p < iter(nPoints); points[p].negativeLimit == iter(points[p].negativeLimit) && points[p].positiveLimit == iter(points[p].positiveLimit) && points[p].isDomain == iter(points[p].isDomain) && points[p].isFixed == iter(points[p].isFixed));
    end assert forall(j; {levelSet.mesh.elements[i].nodes[j]} 0 <= j < $i; iter(D_hasEdge(this, levelSet, (*signedDistance), isTarget, i, j)));
    end assert forall(j; {levelSet.mesh.elements[i].nodes[j]} 0 <= j < $i; D_hasEdge(this, levelSet, (*signedDistance), isTarget, i, j));
    end use forall(arr(real) A; {lsum(nSegments-1, A)} true; lsumFrame(nSegments-1, A, arr(segments[*].length)));
    inv nCut <= D_ncutEdges(levelSet, i, $i);
    inv levelSet.mesh.elements[i].nBoundarySegments <= D_nbb(levelSet, i, $i);
    end assert 0 <= levelSet.mesh.elements[i].nBoundarySegments <= 4;
    begin assert 0 <= levelSet.mesh.elements[i].nBoundarySegments <= D_nbb(levelSet, i, $i) && levelSet.mesh.elements[i].nBoundarySegments <= $i;
    inv D_nbs(levelSet);
    inv D_complete(this, levelSet, (*signedDistance), isTarget, i);
    inv forall(j; {levelSet.mesh.elements[i].nodes[j]} 0 <= j < $i; D_hasEdge(this, levelSet, (*signedDistance), isTarget, i, j));
    inv D_sizes(this, levelSet) && D_fresh(this);
    inv D_ok(this, levelSet, (*signedDistance));
    inv D_registered(this, levelSet);
    inv D_lists(this, levelSet);
    inv D_nodup(levelSet);
    inv D_once(this, levelSet);
    inv D_limits(this, levelSet);
    inv D_segs(this, levelSet);
    inv D_total(this);
    inv D_lookup(this, levelSet);
    inv forall(e; {levelSet.mesh.elements[e].nBoundarySegments} i+1 <= e < levelSet.mesh.nElements; levelSet.mesh.elements[e].nBoundarySegments == 0);
    inv forall(e; {levelSet.mesh.elements[e].status}{levelSet.mesh.elements[e].nBoundarySegments} 0 <= e < i; A_few(levelSet.mesh, e));
    inv nPoints <= 12*i + 2*$i && nSegments <= 10*i + $i;
    inv forall(k; {boundaryPoints[k]} 0 <= k < nCut; boundaryPoints[k] < nPoints && D_incell(this, levelSet, boundaryPoints[k], i));
  }
  // nodes, one cut edge
  loop 3 {
    begin assert D_nbb(levelSet, i, 4) + D_nb(levelSet, i, 4) <= 4;
    end use forall(arr(real) A; {lsum(nSegments-1, A)} true; lsumFrame(nSegments-1, A, arr(segments[*].length)));
    inv boundaryPoints[0] < nPoints && D_incell(this, levelSet, boundaryPoints[0], i);
    inv levelSet.mesh.elements[i].nBoundarySegments <= D_nbb(levelSet, i, 4) + D_nb(levelSet, i, $i);
    inv levelSet.mesh.elements[i].nBoundarySegments <= D_nbb(levelSet, i, 4) + D_bo(levelSet, i, $i);
    inv D_nbs(levelSet);
    inv D_complete(this, levelSet, (*signedDistance), isTarget, i+1);
    inv D_sizes(this, levelSet) && D_fresh(this);
    inv D_ok(this, levelSet, (*signedDistance));
    inv D_registered(this, levelSet);
    inv D_lists(this, levelSet);
    inv D_nodup(levelSet);
    inv D_once(this, levelSet);
    inv D_limits(this, levelSet);
    inv D_segs(this, levelSet);
    inv D_total(this);
    inv D_lookup(this, levelSet);
    inv forall(e; {levelSet.mesh.elements[e].nBoundarySegments} i+1 <= e < levelSet.mesh.nElements; levelSet.mesh.elements[e].nBoundarySegments == 0);
    inv forall(e; {levelSet.mesh.elements[e].status}{levelSet.mesh.elements[e].nBoundarySegments} 0 <= e < i; A_few(levelSet.mesh, e));
    inv nPoints <= 12*i + 8 + $i && nSegments <= 10*i + 4 + $i;
  }
  loop 4 {
    inv lsfSum == D_sum(levelSet, (*signedDistance), i, $i);
  }
  // nodes, no cut edge
  loop 5 {
    inv nCut <= D_nb(levelSet, i, $i);
    inv forall(k; {boundaryPoints[k]} 0 <= k < nCut; boundaryPoints[k] < levelSet.mesh.nNodes && D_st(levelSet, boundaryPoints[k]) == NodeStatus::BOUNDARY
      && abs(D_x(levelSet, boundaryPoints[k]) - levelSet.mesh.elements[i].coord.x) <= 0.5 && abs(D_y(levelSet, boundaryPoints[k]) - levelSet.mesh.elements[i].coord.y) <= 0.5);
  }
}
