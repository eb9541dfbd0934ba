// Stochastic velocities.
func gseq(int n, int g): int = n <= 0 ? g : nd_gen(0, gseq(n-1, g));
// the velocity of point i after the noise: standard deviation a over the square root of its length
func noisy(real v, real a, real len, int g): real = v + (a/sqrt(len))*nd_draw(0, g);
contract LevelSet::computeVelocities(boundaryPoints, timeStep, temperature, rng) sig "double (std::vector<BoundaryPoint> &, double &, const double, MersenneTwister &)" {
  prop C22;
  flags may_exit;
  requires temperature >= 0 && timeStep > 0 && moveLimit > 0 && boundaryPoints.size() <= 1000000000;
  requires forall(i; {boundaryPoints[i].length} 0 <= i < boundaryPoints.size(); boundaryPoints[i].length > 0);
  // what the extension needs (no range of velocities is claimed for it here)
  requires LS_sizes(this) && LS_mesh(this) && M_elemsok(mesh) && V_points(this, boundaryPoints) && !vgood(0);
  assigns timeStep, boundaryPoints[*].velocity, rng.generator, velocity[*], signedDistance[*];
  ensures [scale] result == old(timeStep)/timeStep && result >= 1 && timeStep > 0;
  ensures [unscaled] sqrt(2*temperature*old(timeStep)) <= 0.5*moveLimit ==> result == 1 && timeStep == old(timeStep);
  ensures [scaled] sqrt(2*temperature*old(timeStep)) > 0.5*moveLimit ==> sqrt(2*temperature*timeStep) == 0.5*moveLimit;
  ensures [noise] forall(i; {boundaryPoints[i].velocity} 0 <= i < boundaryPoints.size(); boundaryPoints[i].velocity == noisy(old(boundaryPoints[i].velocity), sqrt(2*temperature/timeStep), boundaryPoints[i].length, gseq(i, old(rng.generator))));
  ensures [draws] rng.generator == gseq(boundaryPoints.size(), old(rng.generator));
  ensures [extended] calls(computeVelocities) == old(calls(computeVelocities)) + 1;
  before_call computeVelocities assert forall(i; {boundaryPoints[i].velocity} 0 <= i < boundaryPoints.size(); boundaryPoints[i].velocity == noisy(old(boundaryPoints[i].velocity), sqrt(2*temperature/timeStep), boundaryPoints[i].length, gseq(i, old(rng.generator))));
  loop 1 {
    inv unchanged(boundaryPoints[*].length, boundaryPoints[*].coord);
    inv rng.generator == gseq($i, old(rng.generator));
    inv calls(computeVelocities) == old(calls(computeVelocities));
    inv noise == sqrt(2*temperature/timeStep);
    inv forall(i; {boundaryPoints[i].velocity} 0 <= i < $i; boundaryPoints[i].velocity == noisy(old(boundaryPoints[i].velocity), noise, boundaryPoints[i].length, gseq(i, old(rng.generator))));
    inv forall(i; {boundaryPoints[i].velocity} $i <= i; boundaryPoints[i].velocity == old(boundaryPoints[i].velocity));
    dec boundaryPoints.size() - $i;
  }
}
