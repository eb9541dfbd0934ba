// LevelSet: fields, narrow band, update, masks.
pred LS_sizes(L) = M_dims(L.mesh) && L.mesh.nodes.size() == L.mesh.nNodes && L.signedDistance.size() == L.mesh.nNodes && L.velocity.size() == L.mesh.nNodes
   && L.gradient.size() == L.mesh.nNodes && L.narrowBand.size() == L.mesh.nNodes && L.mines.size() >= 1 && L.mines.size() <= 2000000000;

// ---- narrow band
pred LS_in(L, n) = !L.mesh.nodes[n].isMasked && (!L.mesh.nodes[n].isDomain || !L.isFixedDomain) && abs(L.signedDistance[n]) < L.bandWidth;
pred LS_mine(L, n) = LS_in(L, n) && abs(L.signedDistance[n]) > L.bandWidth - 1;
// number of band nodes among the first n (= position of node n in the band list)
func bandPos(int n, arr(bool) masked, arr(bool) domain, bool fixed, arr(real) sd, int bw): int =
  n <= 0 ? 0 : bandPos(n-1, masked, domain, fixed, sd, bw) + ((!masked[n-1] && (!domain[n-1] || !fixed) && abs(sd[n-1]) < bw) ? 1 : 0);
func minePos(int n, arr(bool) masked, arr(bool) domain, bool fixed, arr(real) sd, int bw): int =
  n <= 0 ? 0 : minePos(n-1, masked, domain, fixed, sd, bw) + ((!masked[n-1] && (!domain[n-1] || !fixed) && abs(sd[n-1]) < bw && abs(sd[n-1]) > bw - 1) ? 1 : 0);
pred LS_bandPos(L, n) = bandPos(n, arr(L.mesh.nodes[*].isMasked), arr(L.mesh.nodes[*].isDomain), L.isFixedDomain, arr(L.signedDistance), L.bandWidth);
pred LS_minePos(L, n) = minePos(n, arr(L.mesh.nodes[*].isMasked), arr(L.mesh.nodes[*].isDomain), L.isFixedDomain, arr(L.signedDistance), L.bandWidth);
// the first `upto` nodes are listed exactly, in index order
pred LS_listed(L, upto) = L.nNarrowBand == LS_bandPos(L, upto) && 0 <= L.nNarrowBand <= upto
   && forall(n; {L.mesh.nodes[n].isActive} 0 <= n < upto; L.mesh.nodes[n].isActive <==> LS_in(L, n))
   && forall(n; {LS_bandPos(L, n)} 0 <= n < upto && LS_in(L, n); 0 <= LS_bandPos(L, n) < L.nNarrowBand && L.narrowBand[LS_bandPos(L, n)] == n)
   && forall(i; {L.narrowBand[i]} 0 <= i < L.nNarrowBand; L.narrowBand[i] < upto && LS_in(L, L.narrowBand[i]) && LS_bandPos(L, L.narrowBand[i]) == i);
pred LS_mined(L, upto) = L.nMines == LS_minePos(L, upto) && 0 <= L.nMines <= upto
   && forall(n; {L.mesh.nodes[n].isMine} 0 <= n < upto; L.mesh.nodes[n].isMine <==> LS_mine(L, n))
   && forall(n; {LS_minePos(L, n)} 0 <= n < upto && LS_mine(L, n); 0 <= LS_minePos(L, n) < L.nMines && L.mines[LS_minePos(L, n)] == n)
   && forall(i; {L.mines[i]} 0 <= i < L.nMines; L.mines[i] < upto && LS_mine(L, L.mines[i]) && LS_minePos(L, L.mines[i]) == i);

contract LevelSet::initialiseNarrowBand() {
  prop C06;
  requires LS_sizes(this) && bandWidth > 2 && bandWidth <= 1000000;
  assigns narrowBand[*], mines, nNarrowBand, nMines, mesh.nodes[*].isActive, mesh.nodes[*].isMine;
  ensures [band] LS_listed(this, mesh.nNodes);
  ensures [mines] LS_mined(this, mesh.nNodes);
  ensures LS_sizes(this) && nMines <= mines.size();
  loop 1 {
    inv LS_sizes(this) && nMines <= $i && (nMines < mines.size() || mines.size() >= mesh.nNodes);
    inv LS_listed(this, $i);
    inv LS_mined(this, $i);
    dec mesh.nNodes - $i;
  }
}

// ---- explicit Euler step on the band.  slot(n): position of node n in the band list (any function with this property)
ufunc slot(int): int;
pred LS_band(L) = L.nNarrowBand <= L.mesh.nNodes && forall(i; {L.narrowBand[i]} 0 <= i < L.nNarrowBand; L.narrowBand[i] < L.mesh.nNodes && slot(L.narrowBand[i]) == i)
   && L.nMines <= L.mines.size() && forall(i; {L.mines[i]} 0 <= i < L.nMines; L.mines[i] < L.mesh.nNodes);
pred LS_inband(L, n) = 0 <= slot(n) < L.nNarrowBand && L.narrowBand[slot(n)] == n;
func stepped(real phi, real dt, real grad, real vel, bool domain): real = let s = phi - dt*grad*vel in (domain && s > 0) ? 0 : s;
pred LS_step(L, n, dt) = stepped(L.signedDistance[n], dt, L.gradient[n], L.velocity[n], L.mesh.nodes[n].isDomain);

// the mesh is a grid (established by the Mesh constructor)
pred LS_mesh(L) = M_dims(L.mesh) && M_sizes(L.mesh) && M_nodesok(L.mesh);
contract LevelSet::reinitialise() {
  checked_by C11;
  prop C11;
  requires LS_sizes(this) && LS_mesh(this) && bandWidth > 2 && bandWidth <= 1000000;
  flags may_exit;
  assigns signedDistance[*], narrowBand[*], mines, nNarrowBand, nMines, mesh.nodes[*].isActive, mesh.nodes[*].isMine;
  ensures [signs] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; (signedDistance[n] < 0 <==> old(signedDistance[n]) < 0) && (signedDistance[n] > 0 <==> old(signedDistance[n]) > 0));
  ensures [marched] calls(march) == old(calls(march)) + 1;
  ensures [near] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes && old(signedDistance[n] == 0 || FM_border(this, signedDistance, n)); signedDistance[n] == old(FM_init(this, signedDistance, n)));
  ensures LS_listed(this, mesh.nNodes) && LS_mined(this, mesh.nNodes);
  ensures LS_sizes(this) && nMines <= mines.size();
}

contract LevelSet::update(timeStep) {
  prop C07;
  flags may_exit;
  requires LS_sizes(this) && LS_mesh(this) && bandWidth > 2 && bandWidth <= 1000000 && LS_band(this);
  assigns signedDistance[*], mesh.nodes[*].nBoundaryPoints, narrowBand[*], mines, nNarrowBand, nMines, mesh.nodes[*].isActive, mesh.nodes[*].isMine;
  ensures [reported] result <==> exists(i; 0 <= i < old(nMines) && abs(LS_inband(old(this), old(mines[i])) ? LS_step(old(this), old(mines[i]), timeStep) : old(signedDistance[mines[i]])) < 1);
  ensures [reinitialised] calls(reinitialise) == old(calls(reinitialise)) + (result ? 1 : 0);
  ensures [step] !result ==> forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_inband(old(this), n) ? LS_step(old(this), n, timeStep) : old(signedDistance[n])));
  ensures [band-kept] !result ==> unchanged(narrowBand, mines, nNarrowBand, nMines);
  before_call reinitialise assert forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_inband(old(this), n) ? LS_step(old(this), n, timeStep) : old(signedDistance[n])));
  loop 1 {
    inv unchanged(narrowBand, nNarrowBand, mines, nMines);
    inv signedDistance.size() == mesh.nNodes;
    inv forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_inband(old(this), n) && slot(n) < $i ? LS_step(old(this), n, timeStep) : old(signedDistance[n])));
    dec nNarrowBand - $i;
  }
  loop 2 {
    inv calls(reinitialise) == old(calls(reinitialise));
    inv unmoved(signedDistance, narrowBand, nNarrowBand, mines, nMines);
    inv forall(i; {mines[i]} 0 <= i < $i; abs(signedDistance[mines[i]]) >= 1);
    dec nMines - $i;
  }
}

// ---- holes
func holed(real X, real Y, real R, real x, real y): real = sqrt((X - x)*(X - x) + (Y - y)*(Y - y)) - R;
func hmin(int n, arr(real) X, arr(real) Y, arr(real) R, real x, real y, real d): real =
  n <= 0 ? d : min(hmin(n-1, X, Y, R, x, y, d), holed(X[n-1], Y[n-1], R[n-1], x, y));
func edge(real x, real y, real W, real H): real = min(min(x, W - x), min(y, H - y));
func inhole(int n, arr(real) X, arr(real) Y, arr(real) R, real x, real y): bool =
  n > 0 && (inhole(n-1, X, Y, R, x, y) || holed(X[n-1], Y[n-1], R[n-1], x, y) < 0);
// hmin is the minimum: a lower bound of every entry, attained; negative exactly when some hole contains the point
lemma hminLow(int n, arr(real) X, arr(real) Y, arr(real) R, real x, real y, real d, int j) {
  requires 0 <= n;
  induct n;
  ensures hmin(n, X, Y, R, x, y, d) <= d;
  ensures 0 <= j < n ==> hmin(n, X, Y, R, x, y, d) <= holed(X[j], Y[j], R[j], x, y);
}
lemma hminSign(int n, arr(real) X, arr(real) Y, arr(real) R, real x, real y, real d) {
  requires 0 <= n && d >= 0;
  induct n;
  ensures hmin(n, X, Y, R, x, y, d) < 0 <==> inhole(n, X, Y, R, x, y);
  ensures hmin(n, X, Y, R, x, y, d) <= d;
}
lemma inholeDef(int n, arr(real) X, arr(real) Y, arr(real) R, real x, real y) {
  requires 0 <= n;
  induct n;
  ensures inhole(n, X, Y, R, x, y) <==> exists(j; 0 <= j < n && holed(X[j], Y[j], R[j], x, y) < 0);
}
lemma edgeInt(int c, int r, int W, int H) {
  requires 0 <= c <= W && 0 <= r <= H;
  ensures edge(c, r, W, H) >= 0 && edge(c, r, W, H) == min(min(c, W - c), min(r, H - r));
  ensures (c == 0 || c == W || r == 0 || r == H) ==> edge(c, r, W, H) == 0;
}
pred LS_nx(L, n) = L.mesh.nodes[n].coord.x;
pred LS_ny(L, n) = L.mesh.nodes[n].coord.y;
pred LS_edge(L, n) = edge(LS_nx(L, n), LS_ny(L, n), L.mesh.width, L.mesh.height);
pred LS_hmin(L, n, hs, m) = hmin(m, arr(hs[*].coord.x), arr(hs[*].coord.y), arr(hs[*].r), LS_nx(L, n), LS_ny(L, n), LS_edge(L, n));
pred LS_inhole(L, n, hs, m) = inhole(m, arr(hs[*].coord.x), arr(hs[*].coord.y), arr(hs[*].r), LS_nx(L, n), LS_ny(L, n));

contract LevelSet::closestDomainBoundary() {
  prop C04; prop C05;
  hide col, row;
  requires M_dims(mesh) && mesh.nodes.size() == mesh.nNodes && M_nodesok(mesh) && signedDistance.size() == mesh.nNodes;
  assigns signedDistance[*];
  ensures signedDistance.size() == mesh.nNodes;
  ensures [edge-distance] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == LS_edge(this, n));
  loop 1 {
    inv signedDistance.size() == mesh.nNodes;
    inv forall(n; {signedDistance[n]} 0 <= n < $i; signedDistance[n] == LS_edge(this, n));
    begin assert floor(min(mesh.nodes[$i].coord.x, mesh.width - mesh.nodes[$i].coord.x)) == min(col($i, mesh.width+1), mesh.width - col($i, mesh.width+1));
    begin assert floor(min(mesh.nodes[$i].coord.y, mesh.height - mesh.nodes[$i].coord.y)) == min(row($i, mesh.width+1), mesh.height - row($i, mesh.width+1));
    end use edgeInt(col($i, mesh.width+1), row($i, mesh.width+1), mesh.width, mesh.height);
    dec mesh.nNodes - $i;
  }
}

contract LevelSet::initialise(holes) sig "void (const std::vector<Hole> &)" {
  prop C04;
  requires M_dims(mesh) && mesh.nodes.size() == mesh.nNodes && M_nodesok(mesh) && signedDistance.size() == mesh.nNodes && holes.size() <= 2000000000;
  assigns signedDistance[*];
  ensures signedDistance.size() == mesh.nNodes;
  ensures [minimum] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == LS_hmin(this, n, holes, holes.size()));
  ensures [sign] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] < 0 <==> LS_inhole(this, n, holes, holes.size()));
  ensures [domain-edge] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; mesh.nodes[n].isDomain ==> signedDistance[n] <= 0);
  exit use forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; edgeInt(col(n, mesh.width+1), row(n, mesh.width+1), mesh.width, mesh.height));
  exit use forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; hminSign(holes.size(), arr(holes[*].coord.x), arr(holes[*].coord.y), arr(holes[*].r), LS_nx(this, n), LS_ny(this, n), LS_edge(this, n)));
  loop 1 {
    inv signedDistance.size() == mesh.nNodes;
    inv forall(n; {signedDistance[n]} 0 <= n < $i; signedDistance[n] == LS_hmin(this, n, holes, holes.size()));
    inv forall(n; {signedDistance[n]} $i <= n < mesh.nNodes; signedDistance[n] == LS_edge(this, n));
    dec mesh.nNodes - $i;
  }
  loop 2 {
    inv signedDistance.size() == mesh.nNodes;
    inv signedDistance[i] == LS_hmin(this, i, holes, $i);
    inv forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes && n != i; signedDistance[n] == before(signedDistance[n]));
    dec holes.size() - $i;
  }
}

// ---- default structure: radius-5 holes on two interleaved grids of nx*ny and (nx-1)*(ny-1) holes
func swX(int j, int nx, int ny, real W): real = j < nx*ny ? W/(2*nx) + 2*(j % nx)*(W/(2*nx)) : 2*(W/(2*nx) + ((j - nx*ny) % (nx-1))*(W/(2*nx)));
func swY(int j, int nx, int ny, real H): real = j < nx*ny ? H/(2*ny) + 2*(j / nx)*(H/(2*ny)) : 2*(H/(2*ny) + ((j - nx*ny) / (nx-1))*(H/(2*ny)));
func swiss(int n, int nx, int ny, real W, real H, real x, real y, real d): real =
  n <= 0 ? d : min(swiss(n-1, nx, ny, W, H, x, y, d), holed(swX(n-1, nx, ny, W), swY(n-1, nx, ny, H), 5, x, y));
lemma swissEq(int n, arr(real) X, arr(real) Y, arr(real) R, int nx, int ny, real W, real H, real x, real y, real d) {
  requires 0 <= n && forall(j; {X[j]}{Y[j]}{R[j]} 0 <= j < n; X[j] == swX(j, nx, ny, W) && Y[j] == swY(j, nx, ny, H) && R[j] == 5);
  induct n;
  ensures hmin(n, X, Y, R, x, y, d) == swiss(n, nx, ny, W, H, x, y, d);
}
lemma prodPos(int a, int b, int m) {
  requires 0 <= a <= m && 0 <= b <= m && m >= 0;
  ensures 0 <= a*b <= m*m;
}
lemma divSmall(int i, int n, int m) {
  requires n > 0 && 0 <= i && i <= m;
  ensures 0 <= i / n <= m && 0 <= i % n < n;
}
pred LS_nHolesX(L) = floor(real(L.mesh.width)/30 + 0.5);
pred LS_nHolesY(L) = floor(real(L.mesh.height)/30 + 0.5);
pred LS_nHoles(L) = LS_nHolesX(L)*LS_nHolesY(L) + (LS_nHolesX(L) - 1)*(LS_nHolesY(L) - 1);
contract LevelSet::initialise() {
  prop C04;
  flags wraps;
  hide hmin, swiss;
  requires M_dims(mesh) && mesh.nodes.size() == mesh.nNodes && M_nodesok(mesh) && signedDistance.size() == mesh.nNodes;
  exits_if LS_nHolesX(this) <= 2 || LS_nHolesY(this) <= 2;
  assigns signedDistance[*];
  entry use prodPos(LS_nHolesX(this), LS_nHolesY(this), 1001);
  entry use prodPos(LS_nHolesX(this) - 1, LS_nHolesY(this) - 1, 1001);
  ensures signedDistance.size() == mesh.nNodes;
  ensures [refused] LS_nHolesX(this) > 2 && LS_nHolesY(this) > 2;
  ensures [swiss-cheese] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == swiss(LS_nHoles(this), LS_nHolesX(this), LS_nHolesY(this), mesh.width, mesh.height, LS_nx(this, n), LS_ny(this, n), LS_edge(this, n)));
  exit use forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; swissEq(LS_nHoles(this), arr(holes[*].coord.x), arr(holes[*].coord.y), arr(holes[*].r), LS_nHolesX(this), LS_nHolesY(this), mesh.width, mesh.height, LS_nx(this, n), LS_ny(this, n), LS_edge(this, n)));
  loop 1 {
    inv holes.size() == LS_nHoles(this);
    inv forall(j; {holes[j].coord.x}{holes[j].coord.y}{holes[j].r} 0 <= j < $i; holes[j].coord.x == swX(j, LS_nHolesX(this), LS_nHolesY(this), mesh.width) && holes[j].coord.y == swY(j, LS_nHolesX(this), LS_nHolesY(this), mesh.height) && holes[j].r == 5);
    begin use divSmall($i, LS_nHolesX(this), 4000000);
    dec LS_nHolesX(this)*LS_nHolesY(this) - $i;
  }
  loop 2 {
    inv holes.size() == LS_nHoles(this);
    inv forall(j; {holes[j].coord.x}{holes[j].coord.y}{holes[j].r} 0 <= j < LS_nHolesX(this)*LS_nHolesY(this) + $i; holes[j].coord.x == swX(j, LS_nHolesX(this), LS_nHolesY(this), mesh.width) && holes[j].coord.y == swY(j, LS_nHolesX(this), LS_nHolesY(this), mesh.height) && holes[j].r == 5);
    begin use divSmall($i, LS_nHolesX(this) - 1, 4000000);
    dec (LS_nHolesX(this)-1)*(LS_nHolesY(this)-1) - $i;
  }
}
