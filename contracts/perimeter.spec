// local perimeter of a boundary point at (x, y) whose neighbours are nb[0..n) among points (X, Y)
func perim(int n, arr(int) nb, arr(real) X, arr(real) Y, real x, real y): real =
  n <= 0 ? 0 : perim(n-1, nb, X, Y, x, y) + sqrt((x - X[nb[n-1]])*(x - X[nb[n-1]]) + (y - Y[nb[n-1]])*(y - Y[nb[n-1]]));

contract Boundary::computePerimeter(point) {
  prop C13; prop C18;
  requires point.nNeighbours <= point.neighbours.size();
  requires forall(k; {point.neighbours[k]} 0 <= k < point.nNeighbours; point.neighbours[k] < points.size());
  ensures [perimeter] result == perim(point.nNeighbours, arr(point.neighbours), arr(points[*].coord.x), arr(points[*].coord.y), point.coord.x, point.coord.y);
  loop 1 {
    inv 0 <= $i <= point.nNeighbours;
    inv length == perim($i, arr(point.neighbours), arr(points[*].coord.x), arr(points[*].coord.y), point.coord.x, point.coord.y);
    dec point.nNeighbours - $i;
  }
}
