// curvature of the local perimeter of point i
pred B_pts(b) = forall(i, k; {b.points[i].neighbours[k]} 0 <= i < b.points.size() && 0 <= k < b.points[i].nNeighbours; b.points[i].neighbours[k] < b.points.size())
   && forall(i; {b.points[i].neighbours.size()}{b.points[i].nNeighbours} 0 <= i < b.points.size(); b.points[i].nNeighbours <= b.points[i].neighbours.size())
   && forall(i; {b.points[i].sensitivities.size()} 0 <= i < b.points.size(); b.points[i].sensitivities.size() >= 1)
   && forall(i; {b.points[i].length} 0 <= i < b.points.size(); b.points[i].length > 0);
pred perimAt(b, i, x, y) = perim(b.points[i].nNeighbours, arr(b.points[i].neighbours), arr(b.points[*].coord.x), arr(b.points[*].coord.y), x, y);
pred curv(b, i, d) = cdiff(perimAt(b, i, b.points[i].coord.x + d*b.points[i].normal.x, b.points[i].coord.y + d*b.points[i].normal.y),
                           perimAt(b, i, b.points[i].coord.x - d*b.points[i].normal.x, b.points[i].coord.y - d*b.points[i].normal.y), d, b.points[i].length);
func itoShift(real s, real t, real c, real len): real = s - t*c/(2*len);

contract Sensitivity::itoCorrection(boundary, temperature) sig "void (Boundary &, double) const" {
  prop C18;
  inline Sensitivity::computeSensitivity;
  hide perim;
  requires delta > 0 && B_pts(boundary) && boundary.points.size() <= 1000000000;
  assigns boundary.points[*].sensitivities[*], boundary.points[*].coord;
  ensures [zero-temperature] temperature == 0 ==> unchanged(boundary);
  ensures [objective] temperature != 0 ==> forall(i; {boundary.points[i].sensitivities[0]} 0 <= i < boundary.points.size();
      boundary.points[i].sensitivities[0] == itoShift(old(boundary.points[i].sensitivities[0]), temperature, curv(boundary, i, delta), boundary.points[i].length));
  ensures [constraints] forall(i, k; {boundary.points[i].sensitivities[k]} k != 0 && 0 <= k && 0 <= i; boundary.points[i].sensitivities[k] == old(boundary.points[i].sensitivities[k]));
  ensures [positions] unchanged(boundary.points[*].coord);
  loop 1 {
    inv 0 <= $i <= boundary.points.size();
    inv unchanged(boundary.points[*].coord);
    inv forall(i; {boundary.points[i].sensitivities[0]} 0 <= i < $i; boundary.points[i].sensitivities[0] == itoShift(old(boundary.points[i].sensitivities[0]), temperature, curv(boundary, i, delta), boundary.points[i].length));
    inv forall(i; {boundary.points[i].sensitivities[0]} $i <= i; boundary.points[i].sensitivities[0] == old(boundary.points[i].sensitivities[0]));
    inv forall(i, k; {boundary.points[i].sensitivities[k]} k != 0 && 0 <= k && 0 <= i; boundary.points[i].sensitivities[k] == old(boundary.points[i].sensitivities[k]));
    dec boundary.points.size() - $i;
  }
}
