// Fast marching: frozen set, tentative values, marching order, velocity extension.
// ---- grid: neighbour lists are in range and mutual (direction j^1 leads back)
pred FM_opp(j) = j == 0 ? 1 : (j == 1 ? 0 : (j == 2 ? 3 : 2));
pred FM_grid(F) = F.outOfBounds == F.mesh.nNodes && F.mesh.nodes.size() == F.mesh.nNodes && F.mesh.nNodes <= 1000000000 && F.mesh.nNodes >= 1
  && forall(n; {F.mesh.nodes[n].neighbours.size()} 0 <= n < F.mesh.nNodes; F.mesh.nodes[n].neighbours.size() == 4)
  && forall(n, j; {FM_nb(F, n, j)} 0 <= n < F.mesh.nNodes && 0 <= j < 4; 0 <= FM_nb(F, n, j) <= F.mesh.nNodes && FM_nb(F, n, j) != n
       && (FM_nb(F, n, j) < F.mesh.nNodes ==> FM_nb(F, FM_nb(F, n, j), FM_opp(j)) == n));
pred FM_sizes0(F) = F.heapPtr.size() == F.mesh.nNodes && F.nodeStatus.size() == F.mesh.nNodes && F.signedDistanceCopy.size() == F.mesh.nNodes;
pred FM_sizes(F) = F.heapPtr.size() == F.mesh.nNodes && F.nodeStatus.size() == F.mesh.nNodes && F.signedDistanceCopy.size() == F.mesh.nNodes && (*F.signedDistance).size() == F.mesh.nNodes;
pred FM_frozen(F, n) = F.nodeStatus[n] == FMM_NodeStatus::FROZEN;
pred FM_trial(F, n) = F.nodeStatus[n] == FMM_NodeStatus::TRIAL;
pred FM_none(F, n) = F.nodeStatus[n] == FMM_NodeStatus::NONE;
pred FM_status(F) = forall(n; {F.nodeStatus[n]} 0 <= n < F.mesh.nNodes; FM_frozen(F, n) || FM_trial(F, n) || FM_none(F, n));

// ---- signs
pred FM_signs(F) = forall(n; {(*F.signedDistance)[n]}{F.signedDistanceCopy[n]} 0 <= n < F.mesh.nNodes; FM_sgn((*F.signedDistance)[n], F.signedDistanceCopy[n]));
lemma prodNeg(real a, real b) {
  ensures a*b < 0 <==> FM_opposed(a, b);
}
lemma fracDef(real a, real b) {
  requires FM_opposed(a, b);
  ensures 0 < frac(a, b) < 1 && frac(a, b) == a/(a - b);
}
lemma invsqPos(real d) {
  requires d >= 0;
  assert d > 0 ==> d*d > 0 && 1.0/(d*d) > 0;
  ensures invsq(d) >= 0 && (d > 0 ==> invsq(d) > 0);
}
lemma perpPos(real dx, real dy) {
  requires dx >= 0 && dy >= 0 && (dx > 0 || dy > 0);
  use invsqPos(dx);
  use invsqPos(dy);
  assert 1.0/(invsq(dx) + invsq(dy)) > 0;
  hide invsq;
  ensures perp(dx, dy) > 0 && perp(dx, dy) == sqrt(1.0/(invsq(dx) + invsq(dy)));
}

contract FastMarchingMethod::initialiseFrozen() {
  prop C11;
  hide perp;
  requires FM_grid(this) && FM_sizes(this) && forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_none(this, n));
  exits_if forall(n; {(*signedDistance)[n]} 0 <= n < mesh.nNodes; (*signedDistance)[n] != 0 && !FM_border(this, (*signedDistance), n));
  assigns signedDistanceCopy[*], nodeStatus[*], (*signedDistance)[*];
  ensures FM_sizes(this);
  ensures [copy] forall(n; {signedDistanceCopy[n]} 0 <= n < mesh.nNodes; signedDistanceCopy[n] == old((*signedDistance)[n]));
  ensures [frozen] forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; nodeStatus[n] == (signedDistanceCopy[n] == 0 || FM_border(this, signedDistanceCopy, n) ? FMM_NodeStatus::FROZEN : FMM_NodeStatus::NONE));
  ensures [distance] forall(n; {(*signedDistance)[n]} 0 <= n < mesh.nNodes; (*signedDistance)[n] == FM_init(this, signedDistanceCopy, n));
  ensures [signs] FM_signs(this);
  ensures [some] exists(n; 0 <= n < mesh.nNodes && FM_frozen(this, n));
  loop 1 {
    inv FM_sizes(this);
    inv nFrozen <= $i;
    inv nFrozen == 0 ==> forall(n; {(*signedDistance)[n]} 0 <= n < $i; (*signedDistance)[n] != 0);
    inv nFrozen > 0 ==> exists(n; 0 <= n < mesh.nNodes && FM_frozen(this, n));
    inv forall(n; {signedDistanceCopy[n]} 0 <= n < $i; signedDistanceCopy[n] == (*signedDistance)[n]);
    inv forall(n; {nodeStatus[n]} 0 <= n < $i; nodeStatus[n] == (signedDistanceCopy[n] == 0 ? FMM_NodeStatus::FROZEN : FMM_NodeStatus::NONE));
    inv forall(n; {nodeStatus[n]} $i <= n < mesh.nNodes; FM_none(this, n));
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv FM_sizes(this);
    inv forall(n; {signedDistanceCopy[n]} 0 <= n < mesh.nNodes; signedDistanceCopy[n] == old((*signedDistance)[n]));
    inv nFrozen <= mesh.nNodes + $i;
    inv nFrozen == 0 ==> forall(n; {signedDistanceCopy[n]} 0 <= n < mesh.nNodes; signedDistanceCopy[n] != 0);
    inv nFrozen == 0 ==> forall(n; {signedDistanceCopy[n]} 0 <= n < $i; !FM_border(this, signedDistanceCopy, n));
    inv nFrozen > 0 ==> exists(n; 0 <= n < mesh.nNodes && FM_frozen(this, n));
    inv forall(n; {nodeStatus[n]} 0 <= n < $i; nodeStatus[n] == (signedDistanceCopy[n] == 0 || FM_border(this, signedDistanceCopy, n) ? FMM_NodeStatus::FROZEN : FMM_NodeStatus::NONE));
    inv forall(n; {nodeStatus[n]} $i <= n < mesh.nNodes; nodeStatus[n] == (signedDistanceCopy[n] == 0 ? FMM_NodeStatus::FROZEN : FMM_NodeStatus::NONE));
    inv forall(n; {(*signedDistance)[n]} 0 <= n < $i; (*signedDistance)[n] == FM_init(this, signedDistanceCopy, n));
    inv forall(n; {(*signedDistance)[n]} $i <= n < mesh.nNodes; (*signedDistance)[n] == signedDistanceCopy[n]);
    inv FM_signs(this);
    begin use FM_nb(this, $i, 0) < mesh.nNodes ==> prodNeg(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 0)]);
    begin use FM_across(this, signedDistanceCopy, $i, 0) ==> fracDef(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 0)]);
    begin use FM_nb(this, $i, 1) < mesh.nNodes ==> prodNeg(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 1)]);
    begin use FM_across(this, signedDistanceCopy, $i, 1) ==> fracDef(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 1)]);
    begin use FM_nb(this, $i, 2) < mesh.nNodes ==> prodNeg(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 2)]);
    begin use FM_across(this, signedDistanceCopy, $i, 2) ==> fracDef(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 2)]);
    begin use FM_nb(this, $i, 3) < mesh.nNodes ==> prodNeg(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 3)]);
    begin use FM_across(this, signedDistanceCopy, $i, 3) ==> fracDef(signedDistanceCopy[$i], signedDistanceCopy[FM_nb(this, $i, 3)]);
    begin use FM_border(this, signedDistanceCopy, $i) ==> perpPos(least(FM_frac(this, signedDistanceCopy, $i, 0), FM_frac(this, signedDistanceCopy, $i, 1)), least(FM_frac(this, signedDistanceCopy, $i, 2), FM_frac(this, signedDistanceCopy, $i, 3)));
    end assert signedDistanceCopy[$i] != 0 ==> dist[0] == least(FM_frac(this, signedDistanceCopy, $i, 0), FM_frac(this, signedDistanceCopy, $i, 1)) && dist[1] == least(FM_frac(this, signedDistanceCopy, $i, 2), FM_frac(this, signedDistanceCopy, $i, 3));
    end assert signedDistanceCopy[$i] != 0 ==> (isBorder <==> FM_border(this, signedDistanceCopy, $i));
    end assert isBorder && signedDistanceCopy[$i] != 0 ==> (signedDistanceCopy[$i] < 0 ? -(*signedDistance)[$i] : (*signedDistance)[$i]) == sqrt(1.0/(invsq(dist[0]) + invsq(dist[1])));
    end assert isBorder && signedDistanceCopy[$i] != 0 ==> FM_perp(this, signedDistanceCopy, $i) == perp(dist[0], dist[1]);
    end use isBorder && signedDistanceCopy[$i] != 0 ==> perpPos(dist[0], dist[1]);
    end assert (*signedDistance)[$i] == FM_init(this, signedDistanceCopy, $i);
    end assert forall(n; {(*signedDistance)[n]} 0 <= n < mesh.nNodes && n != $i; (*signedDistance)[n] == iter((*signedDistance)[n]));
    dec mesh.nNodes - $i;
  }
}

// ---- tentative value: upwind solution of the discrete Eikonal equation from the accepted neighbours
pred FM_sd(F, n) = (*F.signedDistance)[n];
// an accepted neighbour in direction j
pred FM_acc(F, n, j) = FM_nb(F, n, j) < F.mesh.nNodes && FM_frozen(F, FM_nb(F, n, j)) && abs(FM_sd(F, FM_nb(F, n, j))) < F.maxDouble;
// the one closer to the contour of the two in a dimension (k = 0: left, right; k = 2: below, above)
pred FM_pick(F, n, k) = FM_acc(F, n, k+1) && (!FM_acc(F, n, k) || abs(FM_sd(F, FM_nb(F, n, k+1))) < abs(FM_sd(F, FM_nb(F, n, k)))) ? k+1 : k;
pred FM_has(F, n, k) = FM_acc(F, n, k) || FM_acc(F, n, k+1);
pred FM_n1(F, n, k) = FM_nb(F, n, FM_pick(F, n, k));
pred FM_n2(F, n, k) = FM_nb(F, FM_n1(F, n, k), FM_pick(F, n, k));
// the next node in the same line is accepted too and no farther: second order
pred FM_two(F, n, k) = FM_n2(F, n, k) < F.mesh.nNodes && FM_frozen(F, FM_n2(F, n, k)) && abs(FM_sd(F, FM_n2(F, n, k))) <= abs(FM_sd(F, FM_n1(F, n, k)));
func tval(bool two, real d1, real d2): real = two ? 1.0/3.0*(4*d1 - d2) : d1;
pred FM_t(F, n, k) = tval(FM_two(F, n, k), FM_sd(F, FM_n1(F, n, k)), FM_sd(F, FM_n2(F, n, k)));
func ta(bool has, bool two): real = has ? (two ? 9.0/4.0 : 1) : 0;
func tb(bool has, bool two, real t): real = has ? (two ? 2*(9.0/4.0)*t : 2*t) : 0;
func tc(bool has, bool two, real t): real = has ? (two ? 9.0/4.0*t*t : t*t) : 0;
func root(real a, real b, real c, real side, real prev): real = b*b - 4*a*c > 0 ? (side > 0 ? (-b + sqrt(b*b - 4*a*c))/(2.0*a) : (-b - sqrt(b*b - 4*a*c))/(2.0*a)) : prev;
pred FM_a(F, n) = ta(FM_has(F, n, 0), FM_two(F, n, 0)) + ta(FM_has(F, n, 2), FM_two(F, n, 2));
pred FM_b(F, n) = 0 - tb(FM_has(F, n, 0), FM_two(F, n, 0), FM_t(F, n, 0)) - tb(FM_has(F, n, 2), FM_two(F, n, 2), FM_t(F, n, 2));
pred FM_c(F, n) = tc(FM_has(F, n, 0), FM_two(F, n, 0), FM_t(F, n, 0)) + tc(FM_has(F, n, 2), FM_two(F, n, 2), FM_t(F, n, 2)) - 1;
pred FM_upd(F, n) = root(FM_a(F, n), FM_b(F, n), FM_c(F, n), F.signedDistanceCopy[n], FM_sd(F, n));
lemma tSign(bool two, real d1, real d2) {
  requires two ==> abs(d2) <= abs(d1);
  ensures d1 >= 0 ==> tval(two, d1, d2) >= 0;
  ensures d1 <= 0 ==> tval(two, d1, d2) <= 0;
}
lemma abSign(bool h0, bool w0, real t0, bool h1, bool w1, real t1) {
  ensures ta(h0, w0) + ta(h1, w1) >= 0;
  ensures ta(h0, w0) + ta(h1, w1) == 0 ==> 0 - tb(h0, w0, t0) - tb(h1, w1, t1) == 0;
  ensures (h0 ==> t0 >= 0) && (h1 ==> t1 >= 0) ==> 0 - tb(h0, w0, t0) - tb(h1, w1, t1) <= 0;
  ensures (h0 ==> t0 <= 0) && (h1 ==> t1 <= 0) ==> 0 - tb(h0, w0, t0) - tb(h1, w1, t1) >= 0;
}
lemma posQuot(real x, real a) { requires a > 0; ensures (x > 0 ==> x/a > 0) && (x < 0 ==> x/a < 0); }
lemma rootSign(real a, real b, real c, real side, real prev) {
  requires a >= 0 && (a == 0 ==> b == 0) && (side > 0 ==> b <= 0) && (side < 0 ==> b >= 0) && side != 0 && FM_sgn(prev, side);
  assert a == 0 ==> b*b - 4*a*c == 0;
  assert b*b - 4*a*c > 0 ==> sqrt(b*b - 4*a*c) > 0;
  use a > 0 ==> posQuot(-b + sqrt(b*b - 4*a*c), 2.0*a);
  use a > 0 ==> posQuot(-b - sqrt(b*b - 4*a*c), 2.0*a);
  ensures FM_sgn(root(a, b, c, side, prev), side);
}
lemma quadRoot(real a, real b, real c, real s, real x) {
  requires a != 0 && s*s == b*b - 4*a*c && 2*a*x + b == s;
  assert 4*a*(a*x*x + b*x + c) == (2*a*x + b)*(2*a*x + b) - (b*b - 4*a*c);
  ensures a*x*x + b*x + c == 0;
}
lemma rootSolves(real a, real b, real c, real side, real prev) {
  requires a == 0 ==> b == 0;
  assert a == 0 ==> b*b - 4*a*c == 0;
  assert a != 0 ==> 2*a*((-b + sqrt(b*b - 4*a*c))/(2.0*a)) + b == sqrt(b*b - 4*a*c);
  assert a != 0 ==> 2*a*((-b - sqrt(b*b - 4*a*c))/(2.0*a)) + b == -sqrt(b*b - 4*a*c);
  assert b*b - 4*a*c > 0 ==> sqrt(b*b - 4*a*c)*sqrt(b*b - 4*a*c) == b*b - 4*a*c;
  use a != 0 && b*b - 4*a*c > 0 ==> quadRoot(a, b, c, sqrt(b*b - 4*a*c), (-b + sqrt(b*b - 4*a*c))/(2.0*a));
  use a != 0 && b*b - 4*a*c > 0 ==> quadRoot(a, b, c, -sqrt(b*b - 4*a*c), (-b - sqrt(b*b - 4*a*c))/(2.0*a));
  ensures b*b - 4*a*c > 0 ==> (let x = root(a, b, c, side, prev) in a*x*x + b*x + c == 0);
}

contract FastMarchingMethod::solveQuadratic(node, a, b, c) {
  prop C11;
  requires FM_sizes(this) && node < mesh.nNodes && (a == 0 ==> b == 0);
  ensures [root] result == root(a, b, c, signedDistanceCopy[node], (*signedDistance)[node]);
}
// an unaccepted node: not on the contour, no neighbour across it
pred FM_clear(F, n) = F.signedDistanceCopy[n] != 0 && !FM_border(F, F.signedDistanceCopy, n);
contract FastMarchingMethod::updateNode(node) {
  prop C11;
  hide root, ta, tb, tc, tval;
  requires FM_grid(this) && FM_sizes(this) && FM_status(this) && node < mesh.nNodes && maxDouble > 0;
  requires FM_signs(this) && FM_clear(this, node);
  before_call solveQuadratic use tSign(FM_two(this, node, 0), FM_sd(this, FM_n1(this, node, 0)), FM_sd(this, FM_n2(this, node, 0)));
  before_call solveQuadratic use tSign(FM_two(this, node, 2), FM_sd(this, FM_n1(this, node, 2)), FM_sd(this, FM_n2(this, node, 2)));
  before_call solveQuadratic use abSign(FM_has(this, node, 0), FM_two(this, node, 0), FM_t(this, node, 0), FM_has(this, node, 2), FM_two(this, node, 2), FM_t(this, node, 2));
  before_call solveQuadratic use termDef(FM_has(this, node, 0), FM_two(this, node, 0), FM_sd(this, FM_n1(this, node, 0)), FM_sd(this, FM_n2(this, node, 0)));
  before_call solveQuadratic use termDef(FM_has(this, node, 2), FM_two(this, node, 2), FM_sd(this, FM_n1(this, node, 2)), FM_sd(this, FM_n2(this, node, 2)));
  before_call solveQuadratic assert a == FM_a(this, node) && b == FM_b(this, node) && c == FM_c(this, node);
  ensures [upwind] result == FM_upd(this, node);
  exit use rootSign(FM_a(this, node), FM_b(this, node), FM_c(this, node), signedDistanceCopy[node], FM_sd(this, node));
  exit use rootSolves(FM_a(this, node), FM_b(this, node), FM_c(this, node), signedDistanceCopy[node], FM_sd(this, node));
  ensures [sign] FM_sgn(result, signedDistanceCopy[node]);
  ensures [eikonal] let a = FM_a(this, node) in let b = FM_b(this, node) in let c = FM_c(this, node) in b*b - 4*a*c > 0 ==> a*result*result + b*result + c == 0;
}
lemma termDef(bool h, bool w, real d1, real d2) {
  ensures ta(h, w) == (h ? (w ? 9.0/4.0 : 1) : 0);
  ensures tb(h, w, tval(w, d1, d2)) == (h ? (w ? 2*(9.0/4.0)*(1.0/3.0*(4*d1 - d2)) : 2*d1) : 0);
  ensures tc(h, w, tval(w, d1, d2)) == (h ? (w ? 9.0/4.0*(1.0/3.0*(4*d1 - d2))*(1.0/3.0*(4*d1 - d2)) : d1*d1) : 0);
}

// ---- marching: trial nodes are exactly the heap entries
func nones(int n, arr(int) A): int = n <= 0 ? 0 : nones(n-1, A) + (A[n-1] == FMM_NodeStatus::NONE ? 1 : 0);
func open(int n, arr(int) A): int = n <= 0 ? 0 : open(n-1, A) + (A[n-1] == FMM_NodeStatus::FROZEN ? 0 : 1);
lemma nonesSet(int n, arr(int) A, arr(int) B, int i) {
  requires n >= 0 && 0 <= i && A[i] == FMM_NodeStatus::NONE && B[i] != FMM_NodeStatus::NONE && forall(k; {B[k]} k != i; B[k] == A[k]);
  induct n;
  ensures nones(n, B) == nones(n, A) - (i < n ? 1 : 0) && 0 <= nones(n, B);
}
lemma nonesSame(int n, arr(int) A, arr(int) B, int i) {
  requires n >= 0 && A[i] != FMM_NodeStatus::NONE && B[i] != FMM_NodeStatus::NONE && forall(k; {B[k]} k != i; B[k] == A[k]);
  induct n;
  ensures nones(n, B) == nones(n, A);
}
lemma openSet(int n, arr(int) A, arr(int) B, int i) {
  requires n >= 0 && 0 <= i && A[i] != FMM_NodeStatus::FROZEN && B[i] == FMM_NodeStatus::FROZEN && forall(k; {B[k]} k != i; B[k] == A[k]);
  induct n;
  ensures open(n, B) == open(n, A) - (i < n ? 1 : 0) && 0 <= open(n, B);
}
lemma openSame(int n, arr(int) A, arr(int) B, int i) {
  requires n >= 0 && A[i] != FMM_NodeStatus::FROZEN && B[i] != FMM_NodeStatus::FROZEN && forall(k; {B[k]} k != i; B[k] == A[k]);
  induct n;
  ensures open(n, B) == open(n, A);
}
lemma nonesPos(int n, arr(int) A, int i) { requires 0 <= i && n >= 0 && A[i] == FMM_NodeStatus::NONE; induct n; ensures nones(n, A) >= (i < n ? 1 : 0); }
lemma openPos(int n, arr(int) A, int i) { requires 0 <= i && n >= 0 && A[i] != FMM_NodeStatus::FROZEN; induct n; ensures open(n, A) >= (i < n ? 1 : 0); }
lemma openRange(int n, arr(int) A) { requires n >= 0; induct n; ensures 0 <= open(n, A) <= n && 0 <= nones(n, A) <= n; }
pred FM_st(F) = arr(F.nodeStatus);
pred FM_heap(F) = H_ok(F.heap) && F.heap.maxLength <= F.mesh.nNodes && F.heap.listLength + nones(F.mesh.nNodes, FM_st(F)) == F.heap.maxLength;
pred FM_listed(F, n) = F.heapPtr[n] < F.heap.listLength && H_in(F.heap, F.heapPtr[n]) && F.heap.address[F.heapPtr[n]] == n;
pred FM_trials(F) = forall(n; {F.nodeStatus[n]} 0 <= n < F.mesh.nNodes && FM_trial(F, n); FM_listed(F, n) && F.heap.distance[F.heapPtr[n]] == abs(FM_sd(F, n)));
pred FM_entries(F) = forall(e; {F.heap.backPointer[e]} 0 <= e < F.heap.listLength && H_in(F.heap, e); F.heap.address[e] < F.mesh.nNodes && FM_trial(F, F.heap.address[e]) && F.heapPtr[F.heap.address[e]] == e);
pred FM_clears(F) = forall(n; {F.nodeStatus[n]} 0 <= n < F.mesh.nNodes && !FM_frozen(F, n); FM_clear(F, n));
// no far-field node (of those that take part) next to n
pred FM_part(F, n) = !F.isVelocity || F.mesh.nodes[n].isActive;
pred FM_closedj(F, n, j) = FM_nb(F, n, j) < F.mesh.nNodes && FM_part(F, FM_nb(F, n, j)) ==> !FM_none(F, FM_nb(F, n, j));
pred FM_closed(F, n) = FM_closedj(F, n, 0) && FM_closedj(F, n, 1) && FM_closedj(F, n, 2) && FM_closedj(F, n, 3);
pred FM_near(F, n, k) = (0 < k && FM_nb(F, n, 0) < F.mesh.nNodes && FM_frozen(F, FM_nb(F, n, 0))) || (1 < k && FM_nb(F, n, 1) < F.mesh.nNodes && FM_frozen(F, FM_nb(F, n, 1)))
  || (2 < k && FM_nb(F, n, 2) < F.mesh.nNodes && FM_frozen(F, FM_nb(F, n, 2))) || (3 < k && FM_nb(F, n, 3) < F.mesh.nNodes && FM_frozen(F, FM_nb(F, n, 3)));
pred FM_updp(F, n, prev) = root(FM_a(F, n), FM_b(F, n), FM_c(F, n), F.signedDistanceCopy[n], prev);

contract FastMarchingMethod::initialiseHeap() {
  prop C11;
  requires FM_grid(this) && FM_sizes(this);
  assigns heap;
  ensures [empty] H_ok(heap) && heap.heapLength == 0 && heap.listLength == 0 && heap.maxLength == nones(mesh.nNodes, FM_st(this));
  loop 1 {
    inv maxHeapSize == nones($i, FM_st(this)) && maxHeapSize <= $i;
    dec mesh.nNodes - $i;
  }
}
contract FastMarchingMethod::initialiseTrial() {
  prop C11;
  flags nounroll forkloops;
  hide root, ta, tb, tc, tval, nones;
  requires FM_grid(this) && FM_sizes(this) && FM_status(this) && FM_signs(this) && FM_clears(this) && maxDouble > 0;
  requires FM_heap(this) && heap.heapLength == 0 && heap.listLength == 0;
  requires forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; !FM_trial(this, n));
  requires forall(n; {(*signedDistance)[n]} 0 <= n < mesh.nNodes && !FM_frozen(this, n); FM_sd(this, n) == signedDistanceCopy[n]);
  assigns nodeStatus[*], (*signedDistance)[*], heapPtr[*], heap.heap, heap.backPointer, heap.distance, heap.address, heap.heapLength, heap.listLength;
  after_call updateNode assert $arg1 == i;
  before_call push use nonesSet(mesh.nNodes, iter(arr(nodeStatus)), arr(nodeStatus), i);
  before_call push assert $arg1 == i && FM_sd(this, i) == last(updateNode) && $arg2 == abs(last(updateNode));
  after_call push assert H_in(heap, $ret) && heap.address[$ret] == i && heap.distance[$ret] == abs(FM_sd(this, i));
  after_call push assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_trial(this, n) && n != i; heapPtr[n] < heap.listLength - 1 && H_in(heap, heapPtr[n]));
  after_call push assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_trial(this, n) && n != i; heap.address[heapPtr[n]] == n && heap.distance[heapPtr[n]] == abs(FM_sd(this, n)));
  after_call push assert forall(e; {heap.backPointer[e]} 0 <= e < heap.listLength - 1 && H_in(heap, e); heap.address[e] < mesh.nNodes && heap.address[e] != i && FM_trial(this, heap.address[e]) && heapPtr[heap.address[e]] == e);
  ensures FM_sizes(this) && FM_status(this) && FM_clears(this);
  ensures [signs] FM_signs(this);
  ensures [heap] FM_heap(this) && FM_trials(this) && FM_entries(this);
  ensures [accepted] forall(n; {old(nodeStatus[n])} 0 <= n < mesh.nNodes && old(FM_frozen(this, n)); FM_frozen(this, n));
  ensures [trial] forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; nodeStatus[n] == (old(FM_none(this, n)) && FM_part(this, n) && FM_near(this, n, 4) ? FMM_NodeStatus::TRIAL : old(nodeStatus[n])));
  ensures [others] forall(n; {(*signedDistance)[n]} 0 <= n < mesh.nNodes && !FM_trial(this, n); FM_sd(this, n) == old(FM_sd(this, n)));
  loop 1 {
    inv FM_sizes(this) && FM_status(this) && FM_clears(this) && FM_signs(this);
    inv FM_heap(this);
    inv FM_trials(this);
    inv FM_entries(this);
    inv forall(n; {nodeStatus[n]} 0 <= n < $i; nodeStatus[n] == (old(FM_none(this, n)) && FM_part(this, n) && FM_near(this, n, 4) ? FMM_NodeStatus::TRIAL : old(nodeStatus[n])));
    inv forall(n; {nodeStatus[n]} $i <= n < mesh.nNodes; nodeStatus[n] == old(nodeStatus[n]));
    inv forall(n; {FM_sd(this, n)} 0 <= n < mesh.nNodes && !FM_trial(this, n); FM_sd(this, n) == old(FM_sd(this, n)));
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv FM_sizes(this) && FM_status(this) && FM_clears(this) && FM_signs(this);
    inv FM_heap(this);
    inv FM_trials(this);
    inv FM_entries(this);
    inv forall(n; {nodeStatus[n]} 0 <= n < i; nodeStatus[n] == (old(FM_none(this, n)) && FM_part(this, n) && FM_near(this, n, 4) ? FMM_NodeStatus::TRIAL : old(nodeStatus[n])));
    inv forall(n; {nodeStatus[n]} i < n < mesh.nNodes; nodeStatus[n] == old(nodeStatus[n]));
    inv nodeStatus[i] == (FM_part(this, i) && FM_near(this, i, $i) ? FMM_NodeStatus::TRIAL : FMM_NodeStatus::NONE);
    inv forall(n; {FM_sd(this, n)} 0 <= n < mesh.nNodes && !FM_trial(this, n); FM_sd(this, n) == old(FM_sd(this, n)));
    begin use openRange(mesh.nNodes, FM_st(this));
    begin use FM_none(this, i) ==> nonesPos(mesh.nNodes, FM_st(this), i);
    dec 4 - $i;
  }
}

// ---- velocity of an accepted node: mean of the velocities of the closest accepted neighbour in each dimension, weighted by
// the difference of distance to it
pred FM_fz(F, n, j) = FM_nb(F, n, j) < F.mesh.nNodes && FM_frozen(F, FM_nb(F, n, j));
pred FM_vpick(F, n, k) = FM_fz(F, n, k+1) && (!FM_fz(F, n, k) || abs(FM_sd(F, FM_nb(F, n, k))) > abs(FM_sd(F, FM_nb(F, n, k+1)))) ? k+1 : k;
pred FM_vnb(F, n, k) = FM_nb(F, n, FM_vpick(F, n, k));
pred FM_vhas(F, n, k) = FM_fz(F, n, k) || FM_fz(F, n, k+1);
pred FM_vdist(F, n, k) = FM_vhas(F, n, k) ? abs(FM_sd(F, n) - FM_sd(F, FM_vnb(F, n, k))) : 0;
pred FM_vvel(F, n, k) = FM_vhas(F, n, k) ? (*F.velocity)[FM_vnb(F, n, k)] : 0;
// any two bounds: the velocities of the initially accepted nodes lie between them
ufunc vlo(int): real;
ufunc vhi(int): real;
ufunc vgood(int): bool;
func vmean(real p, real q, real v, real w): real = (0 + p*v + q*w)/(0 + p + q);
// the velocities are within the range the caller chose (vgood: whether a range is claimed at all)
pred FM_vin(v) = vgood(0) ==> vlo(0) <= v <= vhi(0);
pred FM_vrange(F, n) = FM_vin((*F.velocity)[n]);
pred FM_velocities(F) = forall(n; {(*F.velocity)[n]}{F.nodeStatus[n]} 0 <= n < F.mesh.nNodes && FM_frozen(F, n); FM_vrange(F, n));
lemma quotBetween(real x, real y, real lo, real hi) {
  requires y > 0 && lo*y <= x <= hi*y;
  assert x/y*y == x;
  assert x/y < lo ==> x/y*y < lo*y;
  assert x/y > hi ==> x/y*y > hi*y;
  ensures lo <= x/y <= hi;
}
lemma scaled(real p, real v, real lo, real hi) {
  requires p >= 0 && (p > 0 ==> lo <= v <= hi);
  assert p > 0 ==> p*(v - lo) >= 0 && p*(hi - v) >= 0;
  ensures lo*p <= p*v <= hi*p;
}
lemma vmeanBetween(real p, real q, real v, real w, real lo, real hi) {
  requires p >= 0 && q >= 0 && p + q > 0 && (p > 0 ==> lo <= v <= hi) && (q > 0 ==> lo <= w <= hi);
  use scaled(p, v, lo, hi);
  use scaled(q, w, lo, hi);
  assert lo*(0 + p + q) == lo*p + lo*q && hi*(0 + p + q) == hi*p + hi*q;
  use quotBetween(0 + p*v + q*w, 0 + p + q, lo, hi);
  ensures lo <= vmean(p, q, v, w) <= hi;
}

lemma vmeanDef(real p, real q, real v, real w) { ensures vmean(p, q, v, w) == (0 + p*v + q*w)/(0 + p + q); }
contract FastMarchingMethod::finaliseVelocity(node) {
  prop C09;
  requires FM_grid(this) && FM_sizes(this) && FM_status(this) && node < mesh.nNodes && (*velocity).size() == mesh.nNodes;
  requires forall(n; {(*velocity)[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n) && n != node; FM_vrange(this, n));
  exits_if 0 + FM_vdist(this, node, 0) + FM_vdist(this, node, 2) == 0;
  assigns (*velocity)[*];
  entry use 0 + FM_vdist(this, node, 0) + FM_vdist(this, node, 2) != 0 && vgood(0) ==> vmeanBetween(FM_vdist(this, node, 0), FM_vdist(this, node, 2), FM_vvel(this, node, 0), FM_vvel(this, node, 2), vlo(0), vhi(0));
  unrolled 2 {
    init assert dist[0] == FM_vdist(this, node, 0) && vel[0] == FM_vvel(this, node, 0);
    init assert dist[1] == FM_vdist(this, node, 2) && vel[1] == FM_vvel(this, node, 2);
    init use vmeanDef(dist[0], dist[1], vel[0], vel[1]);
  }
  hide vmean;
  ensures (*velocity).size() == mesh.nNodes;
  ensures [mean] (*velocity)[node] == old(vmean(FM_vdist(this, node, 0), FM_vdist(this, node, 2), FM_vvel(this, node, 0), FM_vvel(this, node, 2)));
  ensures [between] FM_vrange(this, node);
  ensures [others] forall(n; {(*velocity)[n]} 0 <= n < mesh.nNodes && n != node; (*velocity)[n] == old((*velocity)[n]));
}

// ---- the marching loop
pred FM_live(F) = FM_sizes(F) && FM_status(F) && FM_clears(F) && FM_signs(F) && (F.isVelocity ==> (*F.velocity).size() == F.mesh.nNodes);
pred FM_kept(F) = forall(n; {F.nodeStatus[n]}{old(F.nodeStatus[n])} 0 <= n < F.mesh.nNodes && old(FM_frozen(F, n)); FM_frozen(F, n) && FM_sd(F, n) == old(FM_sd(F, n)));
pred FM_vkept(F) = (!F.isVelocity ==> unchanged((*F.velocity)[*])) && (F.isVelocity ==> FM_velocities(F) && forall(n; {(*F.velocity)[n]} 0 <= n < F.mesh.nNodes && (old(FM_frozen(F, n)) || !FM_frozen(F, n)); (*F.velocity)[n] == old((*F.velocity)[n])));
pred FM_listedfrom(F, T, i, m, n) = exists(k; {T[k]} i <= k < m && T[k] == n);
contract FastMarchingMethod::solve() {
  prop C11, C09;
  flags nounroll forkloops;
  may_exit_if isVelocity;
  hide root, ta, tb, tc, tval, nones, open, vmean;
  requires FM_grid(this) && FM_live(this) && maxDouble > 0;
  requires FM_heap(this) && FM_trials(this) && FM_entries(this);
  requires forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_closed(this, n));
  requires isVelocity ==> FM_velocities(this);
  assigns nodeStatus[*], (*signedDistance)[*], heapPtr[*], (*velocity)[*], heap.heap, heap.backPointer, heap.distance, heap.address, heap.heapLength, heap.listLength;
  ensures FM_live(this);
  ensures [done] forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; !FM_trial(this, n));
  ensures [closed] forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_closed(this, n));
  ensures [irrevocable] FM_kept(this);
  ensures [velocity] FM_vkept(this);
  // the node accepted next is a trial node, and none is closer
  after_call pop assert $arg1 < mesh.nNodes && FM_trial(this, $arg1) && $arg2 == abs(FM_sd(this, $arg1));
  after_call pop assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_trial(this, n) && n != $arg1; heapPtr[n] < heap.listLength && H_in(heap, heapPtr[n]));
  after_call pop assert forall(e; {heap.backPointer[e]} 0 <= e < heap.listLength && H_in(heap, e); heap.address[e] != $arg1);
  after_call pop assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_trial(this, n) && n != $arg1; $arg2 <= abs(FM_sd(this, n)));
  after_call pop use openPos(mesh.nNodes, FM_st(this), $arg1);
  before_call finaliseVelocity assert FM_frozen(this, $arg1);
  // what is stored is what updateNode returned for that node
  after_call updateNode assert $arg1 == naddr;
  before_call set assert $arg1 == heapPtr[naddr] && $arg2 == abs(last(updateNode)) && FM_sd(this, naddr) == last(updateNode);
  before_call push use nonesSet(mesh.nNodes, iter(arr(nodeStatus)), arr(nodeStatus), naddr);
  before_call push use openSame(mesh.nNodes, iter(arr(nodeStatus)), arr(nodeStatus), naddr);
  after_call set assert FM_entries(this);
  after_call set assert FM_trials(this);
  before_call push assert $arg1 == naddr && $arg2 == abs(last(updateNode)) && FM_sd(this, naddr) == last(updateNode);
  after_call push assert H_in(heap, $ret) && heap.address[$ret] == naddr && heap.distance[$ret] == abs(FM_sd(this, naddr));
  after_call push assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_trial(this, n) && n != naddr; heapPtr[n] < heap.listLength - 1 && H_in(heap, heapPtr[n]));
  after_call push assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_trial(this, n) && n != naddr; heap.address[heapPtr[n]] == n && heap.distance[heapPtr[n]] == abs(FM_sd(this, n)));
  after_call push assert forall(e; {heap.backPointer[e]} 0 <= e < heap.listLength - 1 && H_in(heap, e); heap.address[e] < mesh.nNodes && heap.address[e] != naddr && FM_trial(this, heap.address[e]) && heapPtr[heap.address[e]] == e);
  loop 1 {
    inv toFreeze.size() == mesh.nNodes;
    inv FM_live(this);
    inv FM_heap(this);
    inv FM_trials(this);
    inv FM_entries(this);
    inv forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_closed(this, n));
    inv FM_kept(this);
    inv FM_vkept(this);
    begin use openRange(mesh.nNodes, FM_st(this));
    dec open(mesh.nNodes, FM_st(this));
  }
  loop 2 {
    init use openSet(mesh.nNodes, iter(arr(nodeStatus)), arr(nodeStatus), addr);
    init use nonesSame(mesh.nNodes, iter(arr(nodeStatus)), arr(nodeStatus), addr);
    init use openRange(mesh.nNodes, FM_st(this));
    inv toFreeze.size() == mesh.nNodes && 1 <= nFrozen && nFrozen + open(mesh.nNodes, FM_st(this)) <= mesh.nNodes && open(mesh.nNodes, FM_st(this)) <= before(open(mesh.nNodes, FM_st(this)));
    inv FM_live(this);
    inv FM_heap(this);
    inv FM_trials(this);
    inv FM_entries(this);
    inv forall(k; {toFreeze[k]} 0 <= k < nFrozen; toFreeze[k] < mesh.nNodes && FM_frozen(this, toFreeze[k]));
    inv forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_closed(this, n) || FM_listedfrom(this, toFreeze, 0, nFrozen, n));
    inv FM_kept(this);
    inv FM_vkept(this);
    begin use openRange(mesh.nNodes, FM_st(this));
    end use nFrozen > iter(nFrozen) ==> openSet(mesh.nNodes, iter(arr(nodeStatus)), arr(nodeStatus), toFreeze[nFrozen - 1]);
    end use nFrozen > iter(nFrozen) ==> nonesSame(mesh.nNodes, iter(arr(nodeStatus)), arr(nodeStatus), toFreeze[nFrozen - 1]);
    dec heap.heapLength + (isDone ? 0 : 1);
  }
  loop 3 {
    inv FM_live(this);
    inv FM_heap(this);
    inv FM_trials(this);
    inv FM_entries(this);
    inv forall(k; {toFreeze[k]} 0 <= k < nFrozen; toFreeze[k] < mesh.nNodes && FM_frozen(this, toFreeze[k]));
    inv forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_frozen(this, n) <==> before(FM_frozen(this, n)));
    inv forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_closed(this, n) || FM_listedfrom(this, toFreeze, $i, nFrozen, n));
    inv open(mesh.nNodes, FM_st(this)) == before(open(mesh.nNodes, FM_st(this)));
    inv FM_kept(this);
    inv FM_vkept(this);
    begin use openRange(mesh.nNodes, FM_st(this));
    dec nFrozen - $i;
  }
  loop 4 {
    inv FM_live(this);
    inv FM_heap(this);
    inv FM_trials(this);
    inv FM_entries(this);
    inv forall(k; {toFreeze[k]} 0 <= k < nFrozen; toFreeze[k] < mesh.nNodes && FM_frozen(this, toFreeze[k]));
    inv forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_frozen(this, n) <==> before(FM_frozen(this, n)));
    inv ($i > 0 ==> FM_closedj(this, addr, 0)) && ($i > 1 ==> FM_closedj(this, addr, 1)) && ($i > 2 ==> FM_closedj(this, addr, 2)) && ($i > 3 ==> FM_closedj(this, addr, 3));
    inv forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_closed(this, n) || n == addr || FM_listedfrom(this, toFreeze, i + 1, nFrozen, n));
    inv open(mesh.nNodes, FM_st(this)) == before(open(mesh.nNodes, FM_st(this)));
    inv FM_kept(this);
    inv FM_vkept(this);
    begin use openRange(mesh.nNodes, FM_st(this));
    begin use FM_nb(this, addr, $i) < mesh.nNodes && FM_none(this, FM_nb(this, addr, $i)) ==> nonesPos(mesh.nNodes, FM_st(this), FM_nb(this, addr, $i));
    dec 4 - $i;
  }
}

// ---- the grid is connected: a set of nodes closed under neighbours, holding one node, holds them all
pred SP_row(A, W, H, N) = forall(n; {A[n]} 0 <= n < N && A[n] == 1; (col(n, W) > 0 ==> A[n-1] == 1) && (col(n, W) < W-1 ==> A[n+1] == 1) && (row(n, W) > 0 ==> A[n-W] == 1) && (row(n, W) < H-1 ==> A[n+W] == 1));
lemma stepCR(int n, int w) {
  requires w > 0 && n >= 0;
  use colRow(n, w);
  use col(n, w) > 0 ==> atCR(col(n, w) - 1, row(n, w), w);
  use col(n, w) < w-1 ==> atCR(col(n, w) + 1, row(n, w), w);
  use row(n, w) > 0 ==> atCR(col(n, w), row(n, w) - 1, w);
  use atCR(col(n, w), row(n, w) + 1, w);
  assert at(col(n, w) - 1, row(n, w), w) == n - 1 && at(col(n, w) + 1, row(n, w), w) == n + 1;
  assert at(col(n, w), row(n, w) - 1, w) == n - w && at(col(n, w), row(n, w) + 1, w) == n + w;
  ensures col(n, w) > 0 ==> n >= 1 && col(n-1, w) == col(n, w) - 1 && row(n-1, w) == row(n, w);
  ensures row(n, w) > 0 ==> n >= w && col(n-w, w) == col(n, w) && row(n-w, w) == row(n, w) - 1;
  ensures col(n, w) < w-1 ==> col(n+1, w) == col(n, w) + 1 && row(n+1, w) == row(n, w);
  ensures col(n+w, w) == col(n, w) && row(n+w, w) == row(n, w) + 1;
}
lemma spreadDown(arr(int) A, int W, int H, int N, int n) {
  requires W > 0 && H > 0 && N == W*H && 0 <= n < N && A[n] == 1 && SP_row(A, W, H, N);
  strong n;
  use stepCR(n, W);
  use colRow(n, W);
  hide col, row;
  ensures A[0] == 1;
}
lemma spreadUp(arr(int) A, int W, int H, int N, int n) {
  requires W > 0 && H > 0 && N == W*H && 0 <= n < N && A[0] == 1 && SP_row(A, W, H, N);
  strong n;
  use n > 0 ==> stepCR(n, W);
  use colRow(n, W);
  use rowBound(n, W, H);
  assert n > 0 && col(n, W) > 0 ==> A[n-1] == 1;
  assert n > 0 && col(n, W) == 0 ==> A[n-W] == 1;
  hide col, row;
  ensures A[n] == 1;
}
lemma spread(arr(int) A, int W, int H, int N) {
  requires W > 0 && H > 0 && N == W*H && SP_row(A, W, H, N);
  use forall(n; {A[n]} 0 <= n < N && A[n] == 1; spreadDown(A, W, H, N, n));
  use forall(n; {A[n]} 0 <= n < N && A[0] == 1; spreadUp(A, W, H, N, n));
  hide col, row;
  ensures forall(n; {A[n]} 0 <= n < N && A[n] == 1; A[0] == 1);
  ensures A[0] == 1 ==> forall(n; {A[n]} 0 <= n < N; A[n] == 1);
}
lemma gridStep(int n, int W, int H, int N) {
  requires W > 0 && H > 0 && N == W*H && 0 <= n < N;
  use colRow(n, W);
  use rowBound(n, W, H);
  use col(n, W) < W-1 ==> atBound(col(n, W) + 1, row(n, W), W, H);
  use row(n, W) < H-1 ==> atBound(col(n, W), row(n, W) + 1, W, H);
  ensures col(n, W) < W-1 ==> n+1 < N;
  ensures row(n, W) < H-1 ==> n+W < N;
  ensures (col(n, W) > 0 ==> n >= 1) && (row(n, W) > 0 ==> n >= W) && 0 <= col(n, W) < W && 0 <= row(n, W) < H;
}
pred FM_mesh(F) = F.outOfBounds == F.mesh.nNodes && M_dims(F.mesh) && M_sizes(F.mesh) && M_nodesok(F.mesh);
pred FM_back(F, n, j) = FM_nb(F, n, j) < F.mesh.nNodes ==> FM_nb(F, FM_nb(F, n, j), FM_opp(j)) == n && FM_nb(F, n, j) != n && FM_nb(F, n, j) >= 0;
contract FastMarchingMethod::FastMarchingMethod(mesh_, isTest_) {
  prop C11;
  requires M_dims(mesh_);
  refbind mesh = mesh_;
  ensures FM_sizes0(this) && outOfBounds == mesh.nNodes && maxDouble > 0;
  ensures [fresh] forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_none(this, n));
}
contract FastMarchingMethod::march(signedDistance_) sig "void (std::vector<double> &)" {
  prop C11;
  hide root, ta, tb, tc, tval, nones, open, perp, frac, least, vmean, col, row;
  requires FM_mesh(this) && FM_sizes0(this) && signedDistance_.size() == mesh.nNodes && maxDouble > 0;
  requires forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_none(this, n));
  entry use forall(n; {FM_nb(this, n, 0)} 0 <= n < mesh.nNodes; gridStep(n, mesh.width+1, mesh.height+1, mesh.nNodes));
  entry use forall(n; {FM_nb(this, n, 0)} 0 <= n < mesh.nNodes; stepCR(n, mesh.width+1));
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 0) && 0 <= FM_nb(this, n, 0) <= mesh.nNodes);
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 1) && 0 <= FM_nb(this, n, 1) <= mesh.nNodes);
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 2) && 0 <= FM_nb(this, n, 2) <= mesh.nNodes);
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 3) && 0 <= FM_nb(this, n, 3) <= mesh.nNodes);
  entry assert mesh.nNodes <= 1000000000 && mesh.nNodes >= 1;
  entry assert FM_grid(this);
  exits_if forall(n; {signedDistance_[n]} 0 <= n < mesh.nNodes; signedDistance_[n] != 0 && !FM_border(this, signedDistance_, n));
  assigns signedDistance_[*], signedDistance, isVelocity, heap, heapPtr[*], nodeStatus[*], signedDistanceCopy[*];
  ensures signedDistance_.size() == mesh.nNodes;
  ensures [signs] forall(n; {signedDistance_[n]} 0 <= n < mesh.nNodes; FM_sgn(signedDistance_[n], old(signedDistance_[n])));
  ensures [near] forall(n; {signedDistance_[n]} 0 <= n < mesh.nNodes && old(signedDistance_[n] == 0 || FM_border(this, signedDistance_, n)); signedDistance_[n] == old(FM_init(this, signedDistance_, n)));
  after_call initialiseFrozen assert forall(n; {signedDistanceCopy[n]} 0 <= n < mesh.nNodes; FM_border(this, signedDistanceCopy, n) <==> old(FM_border(this, signedDistance_, n)));
  after_call initialiseFrozen assert forall(n; {signedDistanceCopy[n]} 0 <= n < mesh.nNodes; FM_init(this, signedDistanceCopy, n) == old(FM_init(this, signedDistance_, n)));
  after_call initialiseFrozen assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); signedDistance_[n] == old(FM_init(this, signedDistance_, n)));
  after_call solve assert forall(n; {nodeStatus[n]}{signedDistance_[n]} 0 <= n < mesh.nNodes && old(signedDistance_[n] == 0 || FM_border(this, signedDistance_, n)); signedDistance_[n] == old(FM_init(this, signedDistance_, n)));
  before_call initialiseTrial use openRange(mesh.nNodes, FM_st(this));
  after_call solve assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_nb(this, n, 0) < mesh.nNodes ==> FM_frozen(this, FM_nb(this, n, 0)));
  after_call solve assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_nb(this, n, 1) < mesh.nNodes ==> FM_frozen(this, FM_nb(this, n, 1)));
  after_call solve assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_nb(this, n, 2) < mesh.nNodes ==> FM_frozen(this, FM_nb(this, n, 2)));
  after_call solve assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_nb(this, n, 3) < mesh.nNodes ==> FM_frozen(this, FM_nb(this, n, 3)));
  after_call solve use forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; gridStep(n, mesh.width+1, mesh.height+1, mesh.nNodes));
  after_call solve assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_nb(this, n, 0) == (col(n, mesh.width+1) > 0 ? n - 1 : mesh.nNodes) && FM_nb(this, n, 1) == (col(n, mesh.width+1) < mesh.width ? n + 1 : mesh.nNodes));
  after_call solve assert forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_nb(this, n, 2) == (row(n, mesh.width+1) > 0 ? n - (mesh.width+1) : mesh.nNodes) && FM_nb(this, n, 3) == (row(n, mesh.width+1) < mesh.height ? n + (mesh.width+1) : mesh.nNodes));
  after_call solve assert SP_row(arr(nodeStatus), mesh.width+1, mesh.height+1, mesh.nNodes);
  exit use spread(arr(nodeStatus), mesh.width+1, mesh.height+1, mesh.nNodes);
  exit assert nodeStatus[0] == FMM_NodeStatus::FROZEN;
  ensures [all] forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_frozen(this, n));
}
// velocities of the initially accepted nodes are kept; every node accepted later lies between the bounds; the rest is kept
contract FastMarchingMethod::march(signedDistance_, velocity_) sig "void (std::vector<double> &, std::vector<double> &)" {
  prop C09, C11;
  hide root, ta, tb, tc, tval, nones, open, perp, frac, least, vmean, col, row;
  requires FM_mesh(this) && FM_sizes0(this) && signedDistance_.size() == mesh.nNodes && velocity_.size() == mesh.nNodes && maxDouble > 0;
  requires forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes; FM_none(this, n));
  requires forall(n; {velocity_[n]} 0 <= n < mesh.nNodes && (signedDistance_[n] == 0 || FM_border(this, signedDistance_, n)); FM_vin(velocity_[n]));
  may_exit_if true;
  entry use forall(n; {FM_nb(this, n, 0)} 0 <= n < mesh.nNodes; gridStep(n, mesh.width+1, mesh.height+1, mesh.nNodes));
  entry use forall(n; {FM_nb(this, n, 0)} 0 <= n < mesh.nNodes; stepCR(n, mesh.width+1));
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 0) && 0 <= FM_nb(this, n, 0) <= mesh.nNodes);
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 1) && 0 <= FM_nb(this, n, 1) <= mesh.nNodes);
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 2) && 0 <= FM_nb(this, n, 2) <= mesh.nNodes);
  entry assert forall(n, j; {FM_nb(this, n, j)} 0 <= n < mesh.nNodes && 0 <= j < 4; FM_back(this, n, 3) && 0 <= FM_nb(this, n, 3) <= mesh.nNodes);
  entry assert mesh.nNodes <= 1000000000 && mesh.nNodes >= 1;
  entry assert FM_grid(this);
  assigns signedDistance_[*], velocity_[*], signedDistance, velocity, isVelocity, heap, heapPtr[*], nodeStatus[*], signedDistanceCopy[*];
  after_call initialiseFrozen assert forall(n; {signedDistanceCopy[n]} 0 <= n < mesh.nNodes; FM_border(this, signedDistanceCopy, n) <==> old(FM_border(this, signedDistance_, n)));
  after_call initialiseFrozen assert forall(n; {nodeStatus[n]}{velocity_[n]} 0 <= n < mesh.nNodes; FM_frozen(this, n) <==> old(signedDistance_[n] == 0 || FM_border(this, signedDistance_, n)));
  before_call initialiseTrial use openRange(mesh.nNodes, FM_st(this));
  ensures velocity_.size() == mesh.nNodes && signedDistance_.size() == mesh.nNodes;
  ensures [distance] forall(n; {signedDistance_[n]} 0 <= n < mesh.nNodes; signedDistance_[n] == old(signedDistance_[n]));
  ensures [sources] forall(n; {velocity_[n]} 0 <= n < mesh.nNodes && old(signedDistance_[n] == 0 || FM_border(this, signedDistance_, n)); FM_frozen(this, n) && velocity_[n] == old(velocity_[n]));
  ensures [between] forall(n; {velocity_[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); FM_vin(velocity_[n]));
  ensures [others] forall(n; {velocity_[n]} 0 <= n < mesh.nNodes && !FM_frozen(this, n); velocity_[n] == old(velocity_[n]));
  ensures [spread] forall(n; {nodeStatus[n]} 0 <= n < mesh.nNodes && FM_frozen(this, n); (FM_nb(this, n, 0) < mesh.nNodes && mesh.nodes[FM_nb(this, n, 0)].isActive ==> FM_frozen(this, FM_nb(this, n, 0)))
    && (FM_nb(this, n, 1) < mesh.nNodes && mesh.nodes[FM_nb(this, n, 1)].isActive ==> FM_frozen(this, FM_nb(this, n, 1)))
    && (FM_nb(this, n, 2) < mesh.nNodes && mesh.nodes[FM_nb(this, n, 2)].isActive ==> FM_frozen(this, FM_nb(this, n, 2)))
    && (FM_nb(this, n, 3) < mesh.nNodes && mesh.nodes[FM_nb(this, n, 3)].isActive ==> FM_frozen(this, FM_nb(this, n, 3))));
}
