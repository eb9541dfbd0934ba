// central difference per unit length
func cdiff(real f1, real f2, real d, real len): real = (f1 - f2) / (2*d) / len;

contract Sensitivity::computeSensitivity(point, callback) {
  prop C17;
  requires delta > 0 && point.length > 0;
  assigns point.coord;
  ensures [central-difference] result == cdiff(cb(point.coord.x + delta*point.normal.x, point.coord.y + delta*point.normal.y), cb(point.coord.x - delta*point.normal.x, point.coord.y - delta*point.normal.y), delta, point.length);
  ensures [restored] unchanged(point);
}
contract Sensitivity::Sensitivity(d) {
  prop C17;
  ensures [delta] delta == d;
}
