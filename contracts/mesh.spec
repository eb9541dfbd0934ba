// Mesh: grid geometry and connectivity.

// node / element numbering: row-major
func col(int n, int w): int = n % w;
func row(int n, int w): int = n / w;
func at(int x, int y, int w): int = x + y*w;

lemma colRow(int n, int w) {
  requires w > 0 && n >= 0;
  ensures 0 <= col(n, w) < w && row(n, w) >= 0 && n == at(col(n, w), row(n, w), w) && n == col(n, w) + row(n, w)*w;
}
lemma rowBound(int n, int w, int h) {
  requires w > 0 && n >= 0 && n < w*h && h > 0;
  use colRow(n, w);
  assert n == col(n,w) + row(n,w)*w;
  assert row(n,w) >= h ==> row(n,w)*w >= h*w;
  ensures 0 <= row(n, w) < h;
}
lemma mulMono(int a, int b, int w) {
  requires w >= 0 && a <= b;
  ensures a*w <= b*w;
}
lemma atCR(int x, int y, int w) {
  requires 0 <= x < w && 0 <= y;
  use colRow(at(x, y, w), w);
  assert at(x, y, w) == x + y*w;
  assert row(at(x, y, w), w) < y ==> row(at(x,y,w), w)*w <= (y-1)*w;
  assert row(at(x, y, w), w) > y ==> row(at(x,y,w), w)*w >= (y+1)*w;
  ensures col(at(x, y, w), w) == x && row(at(x, y, w), w) == y;
}
lemma atBound(int x, int y, int w, int h) {
  requires 0 <= x < w && 0 <= y < h;
  use mulMono(y, h-1, w);
  ensures 0 <= y*w && y*w <= (h-1)*w && 0 <= at(x, y, w) && at(x, y, w) == x + y*w && at(x, y, w) < w*h && at(x, y, w) >= x;
}
lemma modAdd(int a, int w) {
  requires 0 <= a < w;
  ensures (a + w) % w == a;
}

// size restrictions under which the 32-bit index arithmetic is exact
pred M_dims(m) = m.width >= 1 && m.height >= 1 && m.width <= 30000 && m.height <= 30000
   && m.nNodes == (m.width+1)*(m.height+1) && m.nElements == m.width*m.height;
pred M_sizes(m) = m.nodes.size() == m.nNodes && m.elements.size() == m.nElements && m.xyToIndex.size() == m.width+1
   && forall(x; {m.xyToIndex[x].size()} 0 <= x <= m.width; m.xyToIndex[x].size() == m.height+1)
   && forall(n; {m.nodes[n].neighbours.size()} 0 <= n < m.nNodes; m.nodes[n].neighbours.size() == 4)
   && forall(n; {m.nodes[n].elements.size()} 0 <= n < m.nNodes; m.nodes[n].elements.size() == 4)
   && forall(n; {m.nodes[n].boundaryPoints.size()} 0 <= n < m.nNodes; m.nodes[n].boundaryPoints.size() == 4)
   && forall(e; {m.elements[e].nodes.size()} 0 <= e < m.nElements; m.elements[e].nodes.size() == 4)
   && forall(e; {m.elements[e].boundarySegments.size()} 0 <= e < m.nElements; m.elements[e].boundarySegments.size() == 4);
// the node numbering: n == col + row*(width+1)
pred M_grid(m, n) = 0 <= col(n, m.width+1) <= m.width && 0 <= row(n, m.width+1) <= m.height
   && n == col(n, m.width+1) + row(n, m.width+1)*(m.width+1);
pred M_node(m, n) =
      m.nodes[n].coord.x == col(n, m.width+1) && m.nodes[n].coord.y == row(n, m.width+1)
   && (m.nodes[n].isDomain <==> (col(n, m.width+1) == 0 || col(n, m.width+1) == m.width || row(n, m.width+1) == 0 || row(n, m.width+1) == m.height));
// left, right, below, above; nNodes marks a missing neighbour
pred M_neigh(m, n) =
      m.nodes[n].neighbours[0] == (col(n, m.width+1) > 0 ? n - 1 : m.nNodes)
   && m.nodes[n].neighbours[1] == (col(n, m.width+1) < m.width ? n + 1 : m.nNodes)
   && m.nodes[n].neighbours[2] == (row(n, m.width+1) > 0 ? n - (m.width+1) : m.nNodes)
   && m.nodes[n].neighbours[3] == (row(n, m.width+1) < m.height ? n + (m.width+1) : m.nNodes);
// corners anticlockwise from bottom left
pred M_elem(m, e) =
      0 <= col(e, m.width) < m.width && 0 <= row(e, m.width) < m.height && e == col(e, m.width) + row(e, m.width)*m.width
   && m.elements[e].coord.x == col(e, m.width) + 0.5 && m.elements[e].coord.y == row(e, m.width) + 0.5
   && m.elements[e].nodes[0] == at(col(e, m.width), row(e, m.width), m.width+1)
   && m.elements[e].nodes[1] == at(col(e, m.width)+1, row(e, m.width), m.width+1)
   && m.elements[e].nodes[2] == at(col(e, m.width)+1, row(e, m.width)+1, m.width+1)
   && m.elements[e].nodes[3] == at(col(e, m.width), row(e, m.width)+1, m.width+1);
// element (ex,ey) exists and precedes element (x,y) in row-major order
func bef(int ex, int ey, int x, int y, int w, int h): bool = 0 <= ex < w && 0 <= ey < h && (ey < y || (ey == y && ex < x));
pred M_before(m, ex, ey, x, y) = bef(ex, ey, x, y, m.width, m.height);
// stepping to the next element in row-major order
lemma atSame(int a, int b, int c, int d, int w) {
  requires a == c && b == d;
  ensures at(a, b, w) == at(c, d, w);
}
lemma befDef(int a, int b, int x, int y, int w, int h) {
  ensures bef(a, b, x, y, w, h) <==> (0 <= a < w && 0 <= b < h && (b < y || (b == y && a < x)));
}
lemma befStep(int X, int Y, int x, int y, int x2, int y2, int w, int h) {
  requires w > 0 && 0 <= x < w && 0 <= y < h;
  requires (x + 1 < w && x2 == x + 1 && y2 == y) || (x + 1 == w && x2 == 0 && y2 == y + 1);
  ensures bef(X-1, Y-1, x2, y2, w, h) <==> (bef(X-1, Y-1, x, y, w, h) || (X-1 == x && Y-1 == y));
  ensures bef(X, Y-1, x2, y2, w, h) <==> (bef(X, Y-1, x, y, w, h) || (X == x && Y-1 == y));
  ensures bef(X-1, Y, x2, y2, w, h) <==> (bef(X-1, Y, x, y, w, h) || (X-1 == x && Y == y));
  ensures bef(X, Y, x2, y2, w, h) <==> (bef(X, Y, x, y, w, h) || (X == x && Y == y));
}
lemma nextCR(int i, int w) {
  requires w > 0 && i >= 0;
  use colRow(i, w); use colRow(i+1, w);
  assert row(i+1, w) < row(i, w) ==> row(i+1, w)*w <= (row(i, w) - 1)*w;
  assert row(i+1, w) > row(i, w) + 1 ==> row(i+1, w)*w >= (row(i, w) + 2)*w;
  ensures (col(i, w) + 1 < w && col(i+1, w) == col(i, w) + 1 && row(i+1, w) == row(i, w)) || (col(i, w) + 1 == w && col(i+1, w) == 0 && row(i+1, w) == row(i, w) + 1);
}
// elements around node n among those preceding (x,y), in increasing order
pred M_around(m, n, x, y) =
   let X = col(n, m.width+1) in let Y = row(n, m.width+1) in
   let b1 = M_before(m, X-1, Y-1, x, y) in let b2 = M_before(m, X, Y-1, x, y) in
   let b3 = M_before(m, X-1, Y, x, y) in let b4 = M_before(m, X, Y, x, y) in
      m.nodes[n].nElements == (b1 ? 1 : 0) + (b2 ? 1 : 0) + (b3 ? 1 : 0) + (b4 ? 1 : 0)
   && (b1 ==> m.nodes[n].elements[0] == at(X-1, Y-1, m.width))
   && (b2 ==> m.nodes[n].elements[b1 ? 1 : 0] == at(X, Y-1, m.width))
   && (b3 ==> m.nodes[n].elements[(b1 ? 1 : 0) + (b2 ? 1 : 0)] == at(X-1, Y, m.width))
   && (b4 ==> m.nodes[n].elements[(b1 ? 1 : 0) + (b2 ? 1 : 0) + (b3 ? 1 : 0)] == at(X, Y, m.width));
pred M_xy(m) = forall(x, y; {m.xyToIndex[x][y]} 0 <= x <= m.width && 0 <= y <= m.height; m.xyToIndex[x][y] == at(x, y, m.width+1) && 0 <= at(x, y, m.width+1) < m.nNodes);
pred M_nodesok(m) = forall(n; {col(n, m.width+1)}{m.nodes[n].coord.x}{m.nodes[n].coord.y}{m.nodes[n].isDomain} 0 <= n < m.nNodes; M_grid(m, n) && M_node(m, n))
   && forall(n; {m.nodes[n].neighbours[0]}{m.nodes[n].neighbours[1]}{m.nodes[n].neighbours[2]}{m.nodes[n].neighbours[3]} 0 <= n < m.nNodes; M_grid(m, n) && M_neigh(m, n));
pred M_elemsok(m) = forall(e; {col(e, m.width)}{m.elements[e].coord.x}{m.elements[e].nodes[0]}{m.elements[e].nodes[1]}{m.elements[e].nodes[2]}{m.elements[e].nodes[3]} 0 <= e < m.nElements; M_elem(m, e));
pred M_aroundok(m) = forall(n; {m.nodes[n].nElements} 0 <= n < m.nNodes; M_around(m, n, 0, m.height));
// everything a client relies on
pred M_ok(m) = M_dims(m) && M_sizes(m) && M_xy(m) && M_nodesok(m) && M_elemsok(m) && M_aroundok(m);

contract Mesh::initialiseNeighbours(node, x, y) {
  prop C02;
  flags wraps;
  requires M_dims(this) && nodes.size() == nNodes && node < nNodes && nodes[node].neighbours.size() == 4;
  requires 0 <= x <= width && 0 <= y <= height && node == x + y*(width+1);
  entry use atBound(x, y, width+1, height+1);
  entry use x > 0 ==> modAdd(x-1, width+1);
  entry use x < width ==> modAdd(x+1, width+1);
  entry use y > 0 ==> modAdd(y-1, height+1);
  entry use y < height ==> modAdd(y+1, height+1);
  assigns nodes[*].neighbours;
  ensures unchanged(nodes[*].neighbours.size());
  ensures forall(m; {nodes[m].neighbours} m != node; unchanged(nodes[m].neighbours));
  ensures nodes[node].neighbours[0] == (x > 0 ? node - 1 : nNodes);
  ensures nodes[node].neighbours[1] == (x < width ? node + 1 : nNodes);
  ensures nodes[node].neighbours[2] == (y > 0 ? node - (width+1) : nNodes);
  ensures nodes[node].neighbours[3] == (y < height ? node + (width+1) : nNodes);
}

contract Mesh::initialiseNodes() {
  prop C02;
  requires M_dims(this) && M_sizes(this);
  assigns nodes[*].isDomain, nodes[*].isMasked, nodes[*].nElements, nodes[*].nBoundaryPoints, nodes[*].coord, nodes[*].neighbours, xyToIndex;
  ensures M_sizes(this) && M_nodesok(this) && M_xy(this);
  ensures forall(n; {nodes[n].nElements} 0 <= n < nNodes; nodes[n].nElements == 0 && nodes[n].nBoundaryPoints == 0 && !nodes[n].isMasked);
  entry use forall(x, y; {xyToIndex[x][y]} 0 <= x <= width && 0 <= y <= height; atBound(x, y, width+1, height+1));
  exit use forall(x, y; {xyToIndex[x][y]} 0 <= x <= width && 0 <= y <= height; atBound(x, y, width+1, height+1));
  loop 1 {
    inv M_sizes(this);
    inv forall(n; {col(n, width+1)}{nodes[n].coord.x}{nodes[n].coord.y}{nodes[n].isDomain} 0 <= n < $i; M_grid(this, n) && M_node(this, n));
    inv forall(n; {nodes[n].neighbours[0]}{nodes[n].neighbours[1]}{nodes[n].neighbours[2]}{nodes[n].neighbours[3]} 0 <= n < $i; M_grid(this, n) && M_neigh(this, n));
    inv forall(x, y; {xyToIndex[x][y]} 0 <= x <= width && 0 <= y <= height && at(x, y, width+1) < $i; xyToIndex[x][y] == at(x, y, width+1));
    inv forall(n; {nodes[n].nElements} 0 <= n < $i; nodes[n].nElements == 0 && nodes[n].nBoundaryPoints == 0 && !nodes[n].isMasked);
    begin use rowBound($i, width+1, height+1);
    begin use colRow($i, width+1);
    begin use forall(x, y; {xyToIndex[x][y]} 0 <= x <= width && 0 <= y <= height; atCR(x, y, width+1));
  }
}

contract Mesh::initialiseElements() {
  prop C02;
  requires M_dims(this) && M_sizes(this);
  requires forall(n; {nodes[n].nElements} 0 <= n < nNodes; nodes[n].nElements == 0 && M_grid(this, n));
  assigns elements[*].coord, elements[*].nodes, nodes[*].nElements, nodes[*].elements;
  ensures M_sizes(this) && M_elemsok(this) && M_aroundok(this);
  loop 1 {
    inv M_sizes(this);
    inv forall(e; {col(e, width)}{elements[e].coord.x}{elements[e].nodes[0]}{elements[e].nodes[1]}{elements[e].nodes[2]}{elements[e].nodes[3]} 0 <= e < $i; M_elem(this, e));
    inv forall(n; {nodes[n].nElements}{col(n, width+1)} 0 <= n < nNodes; M_grid(this, n) && M_around(this, n, col($i, width), row($i, width)));
    begin use rowBound($i, width, height);
    begin use colRow($i, width);
    begin use forall(a, b; {bef(a, b, col($i, width), row($i, width), width, height)} true; befDef(a, b, col($i, width), row($i, width), width, height));
    begin use nextCR($i, width);
    begin use forall(n; {col(n, width+1)} true;
        befStep(col(n, width+1), row(n, width+1), col($i, width), row($i, width), col($i+1, width), row($i+1, width), width, height));
    begin use atBound(col($i, width), row($i, width), width+1, height+1);
    begin use atBound(col($i, width)+1, row($i, width), width+1, height+1);
    begin use atBound(col($i, width), row($i, width)+1, width+1, height+1);
    begin use atBound(col($i, width)+1, row($i, width)+1, width+1, height+1);
    begin use atCR(col($i, width), row($i, width), width+1);
    begin use atCR(col($i, width)+1, row($i, width), width+1);
    begin use atCR(col($i, width), row($i, width)+1, width+1);
    begin use atCR(col($i, width)+1, row($i, width)+1, width+1);
    end assert at(col($i, width), row($i, width), width) == $i;
    end use atSame(col(at(col($i, width), row($i, width), width+1), width+1), row(at(col($i, width), row($i, width), width+1), width+1), col($i, width), row($i, width), width);
    end use atSame(col(at(col($i, width)+1, row($i, width), width+1), width+1)-1, row(at(col($i, width)+1, row($i, width), width+1), width+1), col($i, width), row($i, width), width);
    end use atSame(col(at(col($i, width)+1, row($i, width)+1, width+1), width+1)-1, row(at(col($i, width)+1, row($i, width)+1, width+1), width+1)-1, col($i, width), row($i, width), width);
    end use atSame(col(at(col($i, width), row($i, width)+1, width+1), width+1), row(at(col($i, width), row($i, width)+1, width+1), width+1)-1, col($i, width), row($i, width), width);
    end assert M_around(this, at(col($i, width), row($i, width), width+1), col($i+1, width), row($i+1, width));
    end assert M_around(this, at(col($i, width)+1, row($i, width), width+1), col($i+1, width), row($i+1, width));
    end assert M_around(this, at(col($i, width)+1, row($i, width)+1, width+1), col($i+1, width), row($i+1, width));
    end assert M_around(this, at(col($i, width), row($i, width)+1, width+1), col($i+1, width), row($i+1, width));
  }
}

contract Mesh::Mesh(width_, height_) {
  prop C02;
  requires width_ >= 1 && height_ >= 1 && width_ <= 30000 && height_ <= 30000;
  ensures M_ok(this) && width == width_ && height == height_;
  loop 1 {
    inv xyToIndex.size() == width + 1;
    inv forall(x; {xyToIndex[x].size()} 0 <= x < $i; xyToIndex[x].size() == height+1);
  }
}

// a point of the domain lies in the element it is mapped to (unit cells; nodes and grid lines within 1e-6
// belong to the cell on their left / below)
pred M_inbox(m, px, py) = 0 <= px <= m.width && 0 <= py <= m.height;
pred M_elemof(m, px, py, e) = e < m.nElements
   && abs(px - m.elements[e].coord.x) <= 0.500001 && abs(py - m.elements[e].coord.y) <= 0.500001
   && (px <= 0.000001 ? m.elements[e].coord.x == 0.5 : px > m.elements[e].coord.x - 0.5)
   && (py <= 0.000001 ? m.elements[e].coord.y == 0.5 : py > m.elements[e].coord.y - 0.5);


contract Mesh::getElement(point) sig "unsigned int (const Coord &) const" {
  prop C03;
  requires M_dims(this) && M_elemsok(this) && M_inbox(this, point.x, point.y);
  entry use atBound(floor(max(point.x - 0.000001, 0.0)), floor(max(point.y - 0.000001, 0.0)), width, height);
  entry use atCR(floor(max(point.x - 0.000001, 0.0)), floor(max(point.y - 0.000001, 0.0)), width);
  ensures [contains] M_elemof(this, point.x, point.y, result);
}

contract Mesh::getElement(x, y) sig "unsigned int (double, double) const" {
  prop C03;
  requires M_dims(this) && M_elemsok(this) && M_inbox(this, x, y);
  entry use atBound(floor(max(x - 0.000001, 0.0)), floor(max(y - 0.000001, 0.0)), width, height);
  entry use atCR(floor(max(x - 0.000001, 0.0)), floor(max(y - 0.000001, 0.0)), width);
  ensures [contains] M_elemof(this, x, y, result);
}

lemma roundTo(real p, int k) {
  requires k - 0.5 <= p && p < k + 0.5;
  ensures floor(p + 0.5) == k;
}
contract Mesh::getClosestNode(point) sig "unsigned int (const Coord &) const" {
  prop C03;
  requires M_dims(this) && M_sizes(this) && M_elemsok(this) && M_nodesok(this) && M_inbox(this, point.x, point.y);
  ensures [nearest] result < nNodes && abs(point.x - nodes[result].coord.x) <= 0.5 && abs(point.y - nodes[result].coord.y) <= 0.5;
  ensures [rounded] nodes[result].coord.x == floor(point.x + 0.5) && nodes[result].coord.y == floor(point.y + 0.5);
  exit use colRow(element, width);
  exit use rowBound(element, width, height);
  exit use atBound(col(element, width), row(element, width), width+1, height+1);
  exit use atBound(col(element, width)+1, row(element, width), width+1, height+1);
  exit use atBound(col(element, width)+1, row(element, width)+1, width+1, height+1);
  exit use atBound(col(element, width), row(element, width)+1, width+1, height+1);
  exit use atCR(col(element, width), row(element, width), width+1);
  exit use atCR(col(element, width)+1, row(element, width), width+1);
  exit use atCR(col(element, width)+1, row(element, width)+1, width+1);
  exit use atCR(col(element, width), row(element, width)+1, width+1);
  exit assert nodes[result].coord.x - 0.5 <= point.x && point.x < nodes[result].coord.x + 0.5;
  exit assert nodes[result].coord.y - 0.5 <= point.y && point.y < nodes[result].coord.y + 0.5;
  exit assert nodes[result].coord.x == col(result, width+1) && nodes[result].coord.y == row(result, width+1);
  exit use roundTo(point.x, col(result, width+1));
  exit use roundTo(point.y, row(result, width+1));
}

contract Mesh::getClosestNode(x, y) sig "unsigned int (double, double) const" {
  prop C03;
  requires M_dims(this) && M_sizes(this) && M_elemsok(this) && M_nodesok(this) && M_inbox(this, x, y);
  ensures [nearest] result < nNodes && abs(x - nodes[result].coord.x) <= 0.5 && abs(y - nodes[result].coord.y) <= 0.5;
  exit use colRow(element, width);
  exit use rowBound(element, width, height);
  exit use atBound(col(element, width), row(element, width), width+1, height+1);
  exit use atBound(col(element, width)+1, row(element, width), width+1, height+1);
  exit use atBound(col(element, width)+1, row(element, width)+1, width+1, height+1);
  exit use atBound(col(element, width), row(element, width)+1, width+1, height+1);
  exit use atCR(col(element, width), row(element, width), width+1);
  exit use atCR(col(element, width)+1, row(element, width), width+1);
  exit use atCR(col(element, width)+1, row(element, width)+1, width+1);
  exit use atCR(col(element, width), row(element, width)+1, width+1);
}

// ---- level set contour on a grid (F: anything with a mesh; S: nodal values): used by fast marching and by LevelSet::reinitialise
pred FM_nb(F, n, j) = F.mesh.nodes[n].neighbours[j];
pred FM_opposed(a, b) = (a < 0 && b > 0) || (a > 0 && b < 0);
pred FM_sgn(a, b) = (a < 0 <==> b < 0) && (a > 0 <==> b > 0);
// node n has a neighbour on the other side of the zero contour
pred FM_across(F, S, n, j) = FM_nb(F, n, j) < F.mesh.nNodes && FM_opposed(S[n], S[FM_nb(F, n, j)]);
pred FM_border(F, S, n) = FM_across(F, S, n, 0) || FM_across(F, S, n, 1) || FM_across(F, S, n, 2) || FM_across(F, S, n, 3);
// distance to the zero of the linear interpolation along an edge (0: none), least of two, perpendicular distance
func frac(real a, real b): real = a/(a - b);
func least(real p, real q): real = p == 0 ? q : (q == 0 ? p : min(p, q));
func invsq(real d): real = d > 0 ? 1.0/(d*d) : 0;
func perp(real dx, real dy): real = sqrt(1.0/(invsq(dx) + invsq(dy)));
pred FM_frac(F, S, n, j) = FM_across(F, S, n, j) ? frac(S[n], S[FM_nb(F, n, j)]) : 0;
pred FM_perp(F, S, n) = perp(least(FM_frac(F, S, n, 0), FM_frac(F, S, n, 1)), least(FM_frac(F, S, n, 2), FM_frac(F, S, n, 3)));
pred FM_init(F, S, n) = S[n] != 0 && FM_border(F, S, n) ? (S[n] < 0 ? -FM_perp(F, S, n) : FM_perp(F, S, n)) : S[n];
