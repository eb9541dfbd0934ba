// Upwind gradients: one-sided HJ-WENO derivatives with clamped differences, Godunov combination.
pred WS1(a, b, c) = 13.0/12.0*(a - 2*b + c)*(a - 2*b + c) + 1.0/4.0*(a - 4*b + 3*c)*(a - 4*b + 3*c);
pred WS2(a, b, c) = 13.0/12.0*(a - 2*b + c)*(a - 2*b + c) + 1.0/4.0*(a - c)*(a - c);
pred WS3(a, b, c) = 13.0/12.0*(a - 2*b + c)*(a - 2*b + c) + 1.0/4.0*(3*a - 4*b + c)*(3*a - 4*b + c);
pred WA(g, s) = g / ((s + 0.000001)*(s + 0.000001));
pred WA1(a, b, c) = WA(0.1, WS1(a, b, c));
pred WA2(a, b, c) = WA(0.6, WS2(a, b, c));
pred WA3(a, b, c) = WA(0.3, WS3(a, b, c));
// the three third-order derivatives, times six
pred WT1(a, b, c) = 2*a - 7*b + 11*c;
pred WT2(a, b, c) = 5*b - a + 2*c;
pred WT3(a, b, c) = 2*a + 5*b - c;
// normalised weights, mean of the three
pred WMIX(p, q, r, x, y, z) = (p/(p + q + r)*x + q/(p + q + r)*y + r/(p + q + r)*z)*(1.0/6.0);
// the fifth-order HJ-WENO derivative from five consecutive differences, the first the farthest upwind
func weno(real a, real b, real c, real d, real e): real = WMIX(WA1(a, b, c), WA2(b, c, d), WA3(c, d, e), WT1(a, b, c), WT2(b, c, d), WT3(c, d, e));
lemma alphaPos(real g, real s) {
  requires g > 0 && s >= 0;
  assert (s + 0.000001)*(s + 0.000001) > 0;
  ensures WA(g, s) > 0;
}
lemma smPos1(real a, real b, real c) {
  ensures WS1(a, b, c) >= 0;
}
lemma smPos2(real a, real b, real c) {
  ensures WS2(a, b, c) >= 0;
}
lemma smPos3(real a, real b, real c) {
  ensures WS3(a, b, c) >= 0;
}
lemma alphasPos(real a, real b, real c, real d, real e) {
  use smPos1(a, b, c); use smPos2(b, c, d); use smPos3(c, d, e);
  use alphaPos(0.1, WS1(a, b, c)); use alphaPos(0.6, WS2(b, c, d)); use alphaPos(0.3, WS3(c, d, e));
  ensures WA1(a, b, c) > 0 && WA2(b, c, d) > 0 && WA3(c, d, e) > 0;
}
lemma share(real p, real q, real r) {
  requires p > 0 && q > 0 && r > 0;
  ensures 0 < p/(p + q + r) && 0 < q/(p + q + r) && 0 < r/(p + q + r) && p/(p + q + r) + q/(p + q + r) + r/(p + q + r) == 1;
}
lemma convex3(real p, real q, real r, real x, real y, real z, real lo, real hi) {
  requires 0 < p && 0 < q && 0 < r && p + q + r == 1 && lo <= x <= hi && lo <= y <= hi && lo <= z <= hi;
  assert p*lo <= p*x <= p*hi; assert q*lo <= q*y <= q*hi; assert r*lo <= r*z <= r*hi;
  assert p*lo + q*lo + r*lo == lo && p*hi + q*hi + r*hi == hi;
  ensures lo <= p*x + q*y + r*z <= hi;
}
// a mean with positive weights lies between the least and the largest of its three values
lemma mixBetween(real p, real q, real r, real x, real y, real z, real lo, real hi) {
  requires p > 0 && q > 0 && r > 0 && lo <= x <= hi && lo <= y <= hi && lo <= z <= hi;
  use share(p, q, r);
  use convex3(p/(p + q + r), q/(p + q + r), r/(p + q + r), x, y, z, lo, hi);
  ensures lo <= 6*WMIX(p, q, r, x, y, z) <= hi;
}
// convexity: the derivative lies between the three third-order derivatives
lemma wenoConvex(real a, real b, real c, real d, real e, real lo, real hi) {
  requires 6*lo <= WT1(a, b, c) <= 6*hi && 6*lo <= WT2(b, c, d) <= 6*hi && 6*lo <= WT3(c, d, e) <= 6*hi;
  use alphasPos(a, b, c, d, e);
  use mixBetween(WA1(a, b, c), WA2(b, c, d), WA3(c, d, e), WT1(a, b, c), WT2(b, c, d), WT3(c, d, e), 6*lo, 6*hi);
  ensures lo <= weno(a, b, c, d, e) <= hi;
}
// exact where the differences agree
lemma wenoExact(real a, real b, real c, real d, real e) {
  requires a == c && b == c && d == c && e == c;
  use wenoConvex(a, b, c, d, e, c, c);
  hide weno;
  ensures weno(a, b, c, d, e) == c;
}

contract LevelSet::gradHJWENO(v1, v2, v3, v4, v5) {
  prop C10;
  entry use alphasPos(v1, v2, v3, v4, v5);
  ensures [weno] result == weno(v1, v2, v3, v4, v5);
}

// difference between neighbouring nodes, the nearest one inside for a position outside the domain
func clampd(int i, int W): int = i < 0 ? 0 : (i > W - 1 ? W - 1 : i);
func dx(arr(real) S, int i, int y, int W): real = S[at(clampd(i, W) + 1, y, W + 1)] - S[at(clampd(i, W), y, W + 1)];
func dy(arr(real) S, int x, int i, int W, int H): real = S[at(x, clampd(i, H) + 1, W + 1)] - S[at(x, clampd(i, H), W + 1)];
func wright(arr(real) S, int x, int y, int W): real = weno(dx(S, x+2, y, W), dx(S, x+1, y, W), dx(S, x, y, W), dx(S, x-1, y, W), dx(S, x-2, y, W));
func wleft(arr(real) S, int x, int y, int W): real = weno(dx(S, x-3, y, W), dx(S, x-2, y, W), dx(S, x-1, y, W), dx(S, x, y, W), dx(S, x+1, y, W));
func wup(arr(real) S, int x, int y, int W, int H): real = weno(dy(S, x, y+2, W, H), dy(S, x, y+1, W, H), dy(S, x, y, W, H), dy(S, x, y-1, W, H), dy(S, x, y-2, W, H));
func wdown(arr(real) S, int x, int y, int W, int H): real = weno(dy(S, x, y-3, W, H), dy(S, x, y-2, W, H), dy(S, x, y-1, W, H), dy(S, x, y, W, H), dy(S, x, y+1, W, H));
// a corner whose two neighbours have its own value: the diagonal difference stands in
func cornerflat(arr(real) S, int x, int y, int W, int H): bool = (x == 0 || x == W) && (y == 0 || y == H)
   && abs(S[at(x == 0 ? 1 : W-1, y, W+1)] - S[at(x, y, W+1)]) < 0.000001 && abs(S[at(x, y == 0 ? 1 : H-1, W+1)] - S[at(x, y, W+1)]) < 0.000001;
func cornergrad(arr(real) S, int x, int y, int W, int H): real = abs(S[at(x, y, W+1)] - S[at(x == 0 ? 1 : W-1, y == 0 ? 1 : H-1, W+1)])*sqrt(2.0);
// Godunov: differences against the direction of motion (s = 1 or -1)
pred sqpos(g) = (g > 0 ? g*g : 0);
func godunov(int s, real l, real r, real d, real u): real = sqrt(sqpos(s*d) + sqpos(s*l) + sqpos(-(s*u)) + sqpos(-(s*r)));
func gradAt(arr(real) S, int x, int y, int W, int H, real v): real = cornerflat(S, x, y, W, H) ? cornergrad(S, x, y, W, H)
   : godunov(v < 0 ? -1 : 1, wleft(S, x, y, W), wright(S, x, y, W), wdown(S, x, y, W, H), wup(S, x, y, W, H));
pred LS_gradAt(L, n) = gradAt(arr(L.signedDistance), col(n, L.mesh.width+1), row(n, L.mesh.width+1), L.mesh.width, L.mesh.height, L.velocity[n]);

// a field linear in x and y: every difference is the slope, whatever the position
pred planar(S, W, H, a, b, c) = forall(i, j; {at(i, j, W+1)} 0 <= i <= W && 0 <= j <= H; S[at(i, j, W+1)] == a*i + b*j + c);
lemma dxPlanar(arr(real) S, int i, int y, int W, int H, real a, real b, real c) {
  requires W >= 1 && 0 <= y <= H && planar(S, W, H, a, b, c);
  assert 0 <= clampd(i, W) <= W - 1;
  hide at;
  ensures dx(S, i, y, W) == a;
}
lemma dyPlanar(arr(real) S, int x, int i, int W, int H, real a, real b, real c) {
  requires H >= 1 && 0 <= x <= W && planar(S, W, H, a, b, c);
  assert 0 <= clampd(i, H) <= H - 1;
  hide at;
  ensures dy(S, x, i, W, H) == b;
}
lemma sidesPlanar(arr(real) S, int x, int y, int W, int H, real a, real b, real c) {
  requires W >= 1 && H >= 1 && 0 <= x <= W && 0 <= y <= H && planar(S, W, H, a, b, c);
  hide at, weno, dx, dy;
  use dxPlanar(S, x-3, y, W, H, a, b, c); use dyPlanar(S, x, y-3, W, H, a, b, c);
  use dxPlanar(S, x-2, y, W, H, a, b, c); use dyPlanar(S, x, y-2, W, H, a, b, c);
  use dxPlanar(S, x-1, y, W, H, a, b, c); use dyPlanar(S, x, y-1, W, H, a, b, c);
  use dxPlanar(S, x, y, W, H, a, b, c); use dyPlanar(S, x, y, W, H, a, b, c);
  use dxPlanar(S, x+1, y, W, H, a, b, c); use dyPlanar(S, x, y+1, W, H, a, b, c);
  use dxPlanar(S, x+2, y, W, H, a, b, c); use dyPlanar(S, x, y+2, W, H, a, b, c);
  use wenoExact(a, a, a, a, a); use wenoExact(b, b, b, b, b);
  ensures wleft(S, x, y, W) == a && wright(S, x, y, W) == a && wdown(S, x, y, W, H) == b && wup(S, x, y, W, H) == b;
}
lemma godunovPlanar(int s, real a, real b) {
  requires s == 1 || s == -1;
  ensures sqpos(s*b) + sqpos(s*a) + sqpos(-(s*b)) + sqpos(-(s*a)) == a*a + b*b;
  ensures godunov(s, a, a, b, b) >= 0 && godunov(s, a, a, b, b)*godunov(s, a, a, b, b) == a*a + b*b;
}
lemma gradPlanar(arr(real) S, int x, int y, int W, int H, real v, real a, real b, real c) {
  requires W >= 1 && H >= 1 && 0 <= x <= W && 0 <= y <= H && !cornerflat(S, x, y, W, H);
  requires planar(S, W, H, a, b, c);
  use sidesPlanar(S, x, y, W, H, a, b, c);
  use godunovPlanar(v < 0 ? -1 : 1, a, b);
  hide at, weno, dx, dy, wleft, wright, wup, wdown, cornerflat, cornergrad, godunov;
  ensures gradAt(S, x, y, W, H, v) >= 0 && gradAt(S, x, y, W, H, v)*gradAt(S, x, y, W, H, v) == a*a + b*b;
}
lemma gradNonneg(arr(real) S, int x, int y, int W, int H, real v) {
  ensures gradAt(S, x, y, W, H, v) >= 0;
}
// the plane: arbitrary coefficients
ufunc plane(int): real;
pred LS_flat(L, n) = cornerflat(arr(L.signedDistance), col(n, L.mesh.width+1), row(n, L.mesh.width+1), L.mesh.width, L.mesh.height);
contract LevelSet::computeGradient(node) {
  prop C10;
  hide weno, at;
  posthide dx, dy, clampd, wleft, wright, wup, wdown;
  requires LS_sizes(this) && M_sizes(mesh) && M_xy(mesh) && M_nodesok(mesh) && node < mesh.nNodes && mesh.width >= 4 && mesh.height >= 4;
  entry use colRow(node, mesh.width+1);
  ensures [corner] LS_flat(this, node) ==> result == LS_gradAt(this, node);
  ensures [forward] !LS_flat(this, node) && velocity[node] >= 0 ==> result == LS_gradAt(this, node);
  ensures [backward] !LS_flat(this, node) && velocity[node] < 0 ==> result == LS_gradAt(this, node);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 1 ==> !LS_flat(this, node);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 1 ==> $arg1 == dx(arr(signedDistance), col(node, mesh.width+1)+2, row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 1 ==> $arg2 == dx(arr(signedDistance), col(node, mesh.width+1)+1, row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 1 ==> $arg3 == dx(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 1 ==> $arg4 == dx(arr(signedDistance), col(node, mesh.width+1)-1, row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 1 ==> $arg5 == dx(arr(signedDistance), col(node, mesh.width+1)-2, row(node, mesh.width+1), mesh.width);
  after_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 1 ==> $ret == wright(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 2 ==> $arg1 == dx(arr(signedDistance), col(node, mesh.width+1)-3, row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 2 ==> $arg2 == dx(arr(signedDistance), col(node, mesh.width+1)-2, row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 2 ==> $arg3 == dx(arr(signedDistance), col(node, mesh.width+1)-1, row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 2 ==> $arg4 == dx(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 2 ==> $arg5 == dx(arr(signedDistance), col(node, mesh.width+1)+1, row(node, mesh.width+1), mesh.width);
  after_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 2 ==> $ret == wleft(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 3 ==> $arg1 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)+2, mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 3 ==> $arg2 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)+1, mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 3 ==> $arg3 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 3 ==> $arg4 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)-1, mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 3 ==> $arg5 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)-2, mesh.width, mesh.height);
  after_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 3 ==> $ret == wup(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 4 ==> $arg1 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)-3, mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 4 ==> $arg2 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)-2, mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 4 ==> $arg3 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)-1, mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 4 ==> $arg4 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width, mesh.height);
  before_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 4 ==> $arg5 == dy(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1)+1, mesh.width, mesh.height);
  after_call gradHJWENO assert calls(gradHJWENO) == old(calls(gradHJWENO)) + 4 ==> $ret == wdown(arr(signedDistance), col(node, mesh.width+1), row(node, mesh.width+1), mesh.width, mesh.height);
}

contract LevelSet::computeGradients() {
  prop C10;
  hide gradAt, at, col, row, cornerflat;
  requires LS_sizes(this) && M_sizes(mesh) && M_xy(mesh) && M_nodesok(mesh) && mesh.width >= 4 && mesh.height >= 4 && LS_band(this);
  assigns gradient[*];
  ensures [upwind] forall(n; {gradient[n]} 0 <= n < mesh.nNodes && LS_inband(this, n); gradient[n] == LS_gradAt(this, n));
  exit use forall(n; {gradient[n]} 0 <= n < mesh.nNodes; gradNonneg(arr(signedDistance), col(n, mesh.width+1), row(n, mesh.width+1), mesh.width, mesh.height, velocity[n]));
  exit use forall(n; {gradient[n]} 0 <= n < mesh.nNodes && !LS_flat(this, n) && planar(signedDistance, mesh.width, mesh.height, plane(0), plane(1), plane(2)); gradPlanar(arr(signedDistance), col(n, mesh.width+1), row(n, mesh.width+1), mesh.width, mesh.height, velocity[n], plane(0), plane(1), plane(2)));
  ensures [nonnegative] forall(n; {gradient[n]} 0 <= n < mesh.nNodes; gradient[n] >= 0);
  ensures [linear] planar(signedDistance, mesh.width, mesh.height, plane(0), plane(1), plane(2)) ==> forall(n; {gradient[n]} 0 <= n < mesh.nNodes && LS_inband(this, n) && !LS_flat(this, n); gradient[n]*gradient[n] == plane(0)*plane(0) + plane(1)*plane(1));
  ensures [zero] forall(n; {gradient[n]} 0 <= n < mesh.nNodes && !LS_inband(this, n); gradient[n] == 0);
  loop 1 {
    inv forall(n; {gradient[n]} 0 <= n < mesh.nNodes; gradient[n] == (LS_inband(this, n) && slot(n) < $i ? LS_gradAt(this, n) : 0));
    dec nNarrowBand - $i;
  }
}
