// Optimisation of the boundary displacements.
// sum over the objective and the first m active constraints of scale factor * lambda * sensitivity
func osum(int m, arr(real) F, arr(real) L, arr(int) M, arr(real) S): real =
  m <= 0 ? F[0]*L[0]*S[0] : osum(m-1, F, L, M, S) + F[m]*L[m]*S[M[m]];
// integral over the first n points, fixed ones left out, of displacement * sensitivity k * length
func ofun(int n, arr(real) D, arr(arr(real)) S, arr(real) len, arr(bool) fx, int k, real f): real =
  n <= 0 ? 0 : ofun(n-1, D, S, len, fx, k, f) + (fx[n-1] ? 0 : f*D[n-1]*S[n-1][k]*len[n-1]);
// integral of sensitivity a * sensitivity b * length, times f
func ograd(int n, arr(arr(real)) S, arr(real) len, arr(bool) fx, int a, int b, real f): real =
  n <= 0 ? 0 : ograd(n-1, S, len, fx, a, b, f) + (fx[n-1] ? 0 : S[n-1][a]*S[n-1][b]*len[n-1]*f);
pred O_raw(T, i, L) = osum(T.nConstraints, arr(T.scaleFactors), arr(L), arr(T.indexMap), arr(T.boundaryPoints[i].sensitivities));
pred O_clip(T, i, v) = T.boundaryPoints[i].isDomain ? max(v, T.boundaryPoints[i].negativeLimit) : v;
pred O_disp(T, i, L) = O_clip(T, i, O_raw(T, i, L));
pred O_map(T, nc, orig) = T.indexMap.size() == nc + 1 && T.indexMap[0] == 0 && forall(j; {T.indexMap[j]} 0 <= j <= nc; T.indexMap[j] <= orig) && forall(j, k; {T.indexMap[j], T.indexMap[k]} 0 <= j && j < k && k <= nc; T.indexMap[j] < T.indexMap[k]);
pred O_ok(T) = T.nPoints == T.boundaryPoints.size() && T.displacements.size() == T.nPoints && T.nConstraints <= T.nConstraintsInitial && T.nConstraintsInitial <= 1000000
  && T.scaleFactors.size() == T.nConstraints + 1 && O_map(T, T.nConstraints, T.nConstraintsInitial)
  && forall(i; {T.boundaryPoints[i].sensitivities.size()} 0 <= i < T.nPoints; T.boundaryPoints[i].sensitivities.size() >= T.nConstraintsInitial + 1);

contract Optimise::computeDisplacements(lambda) {
  prop C21;
  requires O_ok(this) && lambda.size() == nConstraints + 1;
  assigns displacements[*];
  ensures [displacement] forall(i; {displacements[i]} 0 <= i < nPoints; displacements[i] == (boundaryPoints[i].isFixed ? old(displacements[i]) : O_disp(this, i, lambda)));
  loop 1 {
    inv forall(i; {displacements[i]} 0 <= i < nPoints; displacements[i] == (i >= $i || boundaryPoints[i].isFixed ? old(displacements[i]) : O_disp(this, i, lambda)));
  }
  loop 2 {
    inv displacements[i] == osum($i - 1, arr(scaleFactors), arr(lambda), arr(indexMap), arr(boundaryPoints[i].sensitivities)) && $i >= 1;
    inv forall(k; {displacements[k]} k != i; displacements[k] == before(displacements[k]));
  }
}
contract Optimise::computeFunction(index) {
  prop C21;
  requires O_ok(this) && index <= nConstraints && constraintDistancesScaled.size() == nConstraints;
  ensures [change] result == ofun(nPoints, arr(displacements), arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), indexMap[index], scaleFactors[index]) - (index == 0 ? 0 : scaleFactors[index]*constraintDistancesScaled[index - 1]);
  loop 1 {
    inv func == ofun($i, arr(displacements), arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), indexMap[index], scaleFactors[index]);
  }
}
contract Optimise::computeGradients(gradient, index) {
  prop C21;
  requires O_ok(this) && index <= nConstraints && gradient.size() == nConstraints + 1;
  assigns gradient[*];
  ensures [gradient] forall(j; {gradient[j]} 0 <= j <= nConstraints; gradient[j] == ograd(nPoints, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), indexMap[index], indexMap[j], scaleFactors[index]*scaleFactors[j]));
  loop 1 {
    inv gradient[0] == 0 && forall(j; {gradient[j]} 1 <= j < $i; gradient[j] == 0);
  }
  loop 2 {
    inv forall(j; {gradient[j]} 0 <= j <= nConstraints; gradient[j] == ograd($i, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), indexMap[index], indexMap[j], scaleFactors[index]*scaleFactors[j]));
  }
  loop 3 {
    inv forall(j; {gradient[j]} 0 <= j <= nConstraints; gradient[j] == ograd(j < $i ? i + 1 : i, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), indexMap[index], indexMap[j], scaleFactors[index]*scaleFactors[j]));
  }
}
contract Optimise::callback(lambda, gradient, index) {
  prop C21;
  requires O_ok(this) && lambda.size() == nConstraints + 1 && index <= nConstraints && constraintDistancesScaled.size() == nConstraints && gradients.size() == nConstraints + 1;
  assigns displacements[*], gradient;
  ensures [displacement] forall(i; {displacements[i]} 0 <= i < nPoints; displacements[i] == (boundaryPoints[i].isFixed ? old(displacements[i]) : O_disp(this, i, lambda)));
  ensures [change] result == ofun(nPoints, arr(displacements), arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), indexMap[index], scaleFactors[index]) - (index == 0 ? 0 : scaleFactors[index]*constraintDistancesScaled[index - 1]);
  ensures [gradient] old(gradient.size()) > 0 ==> gradient.size() == gradients[index].size() && forall(j; {gradient[j]} 0 <= j < gradient.size(); gradient[j] == gradients[index][j]);
}
// ---- the CFL condition
lemma osumScale(int m, arr(real) F, arr(real) L, arr(real) K, arr(int) M, arr(real) S, real c) {
  requires m >= 0 && forall(k; {K[k]} 0 <= k <= m; K[k] == c*L[k]);
  induct m;
  ensures osum(m, F, K, M, S) == c*osum(m, F, L, M, S);
}
pred O_side(T) = forall(i; {T.boundaryPoints[i].negativeLimit} 0 <= i < T.nPoints && T.boundaryPoints[i].isDomain; -T.maxDisplacement <= T.boundaryPoints[i].negativeLimit <= T.maxDisplacement);
contract Optimise::rescaleDisplacements() {
  prop C21;
  requires O_ok(this) && lambdas.size() == nConstraints + 1 && maxDisplacement > 0 && O_side(this);
  requires forall(i; {displacements[i]} 0 <= i < nPoints; displacements[i] == (boundaryPoints[i].isFixed ? 0 : O_disp(this, i, lambdas)));
  assigns displacements[*], lambdas[*];
  ensures [factor] 0 < result && result <= 1;
  ensures [lambdas] forall(j; {lambdas[j]} 0 <= j <= nConstraints; lambdas[j] == result*old(lambdas[j]));
  ensures [displacement] forall(i; {displacements[i]} 0 <= i < nPoints; displacements[i] == (boundaryPoints[i].isFixed ? 0 : O_disp(this, i, lambdas)));
  ensures [cfl] forall(i; {displacements[i]} 0 <= i < nPoints; abs(displacements[i]) <= maxDisplacement);
  loop 1 {
    inv maxDisp == 0 || (maxDisp > maxDisplacement && scale == maxDisplacement/maxDisp);
    inv forall(k; {displacements[k]} 0 <= k < $i && !boundaryPoints[k].isFixed; abs(displacements[k]) <= maxDisplacement || abs(displacements[k]) <= maxDisp);
    after assert maxDisp > 0 ==> 0 < scale && scale < 1 && scale*maxDisp == maxDisplacement;
  }
  loop 2 {
    inv forall(j; {lambdas[j]} 0 <= j <= nConstraints; lambdas[j] == (j < $i ? scale*before(lambdas[j]) : before(lambdas[j])));
  }
  after_call computeDisplacements use forall(i; {boundaryPoints[i].negativeLimit}{displacements[i]} 0 <= i < nPoints; osumScale(nConstraints, arr(scaleFactors), arr(old(lambdas)), arr(lambdas), arr(indexMap), arr(boundaryPoints[i].sensitivities), scale));
  after_call computeDisplacements assert forall(i; {displacements[i]} 0 <= i < nPoints && !boundaryPoints[i].isFixed; O_raw(this, i, lambdas) == scale*old(O_raw(this, i, lambdas)));
  after_call computeDisplacements assert forall(i; {displacements[i]} 0 <= i < nPoints && !boundaryPoints[i].isFixed; old(O_raw(this, i, lambdas)) <= maxDisp && (!boundaryPoints[i].isDomain ==> old(O_raw(this, i, lambdas)) >= -maxDisp));
  after_call computeDisplacements assert forall(i; {displacements[i]} 0 <= i < nPoints && !boundaryPoints[i].isFixed; O_raw(this, i, lambdas) <= maxDisplacement && (!boundaryPoints[i].isDomain ==> O_raw(this, i, lambdas) >= -maxDisplacement));
}
// ---- limits of the multipliers and scale factors
ufunc dblmin(): real;
// largest magnitude of sensitivity k over the first n points, fixed ones left out, at least z
func omax(int n, arr(arr(real)) S, arr(bool) fx, int k, real z): real =
  n <= 0 ? z : (fx[n-1] ? omax(n-1, S, fx, k, z) : max(omax(n-1, S, fx, k, z), abs(S[n-1][k])));
lemma omaxLow(int n, arr(arr(real)) S, arr(bool) fx, int k, real z) { requires n >= 0; induct n; ensures omax(n, S, fx, k, z) >= z; }
lemma omaxGe(int n, arr(arr(real)) S, arr(bool) fx, int k, real z, int j) {
  requires 0 <= j && j < n && !fx[j]; induct n;
  ensures omax(n, S, fx, k, z) >= abs(S[j][k]);
}
lemma odiv(real d, real m, real f, real s) {
  requires d > 0 && m > 0 && f > 0 && 0 <= s && s <= m;
  assert s/m <= 1;
  assert d/m/f*f == d/m;
  assert d/m*s == d*(s/m);
  ensures d/m/f*f*s <= d && d/m/f > 0;
}
pred O_max(T, k, z) = omax(T.boundaryPoints.size(), arr(T.boundaryPoints[*].sensitivities), arr(T.boundaryPoints[*].isFixed), k, z);
contract Optimise::computeLambdaLimits() {
  prop C21;
  requires O_ok(this) && maxDisplacement > 0 && lambdas.size() == nConstraints + 1 && negativeLambdaLimits.size() == nConstraints + 1 && positiveLambdaLimits.size() == nConstraints + 1;
  requires forall(i; {scaleFactors[i]} 0 <= i <= nConstraints; scaleFactors[i] > 0);
  assigns lambdas[*], negativeLambdaLimits[*], positiveLambdaLimits[*];
  ensures [limits] forall(i; {positiveLambdaLimits[i]} 0 <= i <= nConstraints; positiveLambdaLimits[i] == maxDisplacement/O_max(this, indexMap[i], dblmin())/scaleFactors[i] && positiveLambdaLimits[i] > 0);
  ensures [symmetric] forall(i; {negativeLambdaLimits[i]} 0 <= i <= nConstraints; negativeLambdaLimits[i] == -positiveLambdaLimits[i]);
  ensures [range] forall(i; {lambdas[i]} 0 <= i <= nConstraints; negativeLambdaLimits[i] <= lambdas[i] && lambdas[i] <= positiveLambdaLimits[i]);
  loop 1 {
    inv forall(i; {positiveLambdaLimits[i]} 0 <= i < $i; positiveLambdaLimits[i] == maxDisplacement/O_max(this, indexMap[i], dblmin())/scaleFactors[i] && positiveLambdaLimits[i] > 0);
    inv forall(i; {negativeLambdaLimits[i]} 0 <= i < $i; negativeLambdaLimits[i] == -positiveLambdaLimits[i]);
    inv forall(i; {lambdas[i]} 0 <= i < $i; negativeLambdaLimits[i] <= lambdas[i] && lambdas[i] <= positiveLambdaLimits[i]);
  }
  loop 2 {
    inv maxSens == omax($i, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].isFixed), k, dblmin()) && maxSens > 0;
    after use odiv(maxDisplacement, maxSens, scaleFactors[i], 0);
  }
  loop 3 {
    inv negativeLambdaLimits[i] == -positiveLambdaLimits[i] && positiveLambdaLimits[i] == maxDisplacement/maxSens/scaleFactors[i];
    inv forall(k; {lambdas[k]} k != i; lambdas[k] == before(lambdas[k]));
  }
  loop 4 {
    inv negativeLambdaLimits[i] <= lambdas[i];
    inv forall(k; {lambdas[k]} k != i; lambdas[k] == before(lambdas[k]));
  }
}
// ---- scale factors
lemma omaxAbs(int n, arr(arr(real)) S, arr(bool) fx, int k) { requires n >= 0; induct n; ensures omax(n, S, fx, k, 0) >= 0; }
lemma ogradLow(int n, arr(arr(real)) S, arr(real) len, arr(bool) fx, int a, real f) {
  requires n >= 0 && f >= 0 && forall(i; {len[i]} 0 <= i < n; len[i] >= 0); induct n;
  assert S[n-1][a]*S[n-1][a] >= 0;
  assert n >= 1 ==> S[n-1][a]*S[n-1][a]*len[n-1] >= 0;
  assert n >= 1 ==> S[n-1][a]*S[n-1][a]*len[n-1]*f >= 0;
  ensures ograd(n, S, len, fx, a, a, f) >= 0;
}
lemma ogradPos(int n, arr(arr(real)) S, arr(real) len, arr(bool) fx, int a, real f, int j) {
  requires n >= 0 && f > 0 && forall(i; {len[i]} 0 <= i < n; len[i] >= 0) && 0 <= j && j < n && !fx[j] && len[j] > 0 && S[j][a] != 0; induct n;
  use ogradLow(n-1, S, len, fx, a, f);
  assert S[n-1][a]*S[n-1][a] >= 0 && S[j][a]*S[j][a] > 0;
  assert S[n-1][a]*S[n-1][a]*len[n-1] >= 0 && S[j][a]*S[j][a]*len[j] > 0;
  assert S[n-1][a]*S[n-1][a]*len[n-1]*f >= 0 && S[j][a]*S[j][a]*len[j]*f > 0;
  ensures ograd(n, S, len, fx, a, a, f) > 0;
}
ufunc owit(int): int;
// every function has a free point of positive length and non-zero sensitivity; lengths are not negative
pred O_sens(T) = forall(i; {T.boundaryPoints[i].length} 0 <= i < T.nPoints; T.boundaryPoints[i].length >= 0)
  && forall(k; {owit(k)} 0 <= k <= T.nConstraintsInitial; 0 <= owit(k) && owit(k) < T.nPoints && !T.boundaryPoints[owit(k)].isFixed && T.boundaryPoints[owit(k)].length > 0 && T.boundaryPoints[owit(k)].sensitivities[k] != 0);
pred O_s0(T, i) = 1/omax(T.nPoints, arr(T.boundaryPoints[*].sensitivities), arr(T.boundaryPoints[*].isFixed), i, 0);
pred O_g(T, i) = ograd(T.nPoints, arr(T.boundaryPoints[*].sensitivities), arr(T.boundaryPoints[*].length), arr(T.boundaryPoints[*].isFixed), i, i, O_s0(T, i)*O_s0(T, i));
contract Optimise::computeScaleFactors() {
  prop C21;
  requires O_ok(this) && O_sens(this) && forall(j; {indexMap[j]} 0 <= j <= nConstraints; indexMap[j] == j);
  assigns scaleFactors[*];
  ensures [scale] forall(i; {scaleFactors[i]} 0 <= i <= nConstraints; scaleFactors[i] > 0 && scaleFactors[i] == O_s0(this, i)*(1/O_g(this, i)));
  loop 1 {
    inv forall(i; {scaleFactors[i]} 0 <= i < $i; scaleFactors[i] > 0 && scaleFactors[i] == O_s0(this, i));
  }
  loop 2 {
    inv maxSens == omax($i, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].isFixed), i, 0) && maxSens >= 0;
    after use omaxGe(nPoints, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].isFixed), i, 0, owit(i));
    after assert maxSens > 0;
    after assert 1/maxSens > 0;
  }
  loop 3 {
    inv gradient.size() == nConstraints + 1;
    inv forall(i; {scaleFactors[i]} 0 <= i <= nConstraints; scaleFactors[i] > 0 && scaleFactors[i] == (i < $i ? O_s0(this, i)*(1/O_g(this, i)) : before(scaleFactors[i])));
    begin assert scaleFactors[i] == O_s0(this, i) && O_s0(this, i) > 0 && O_s0(this, i)*O_s0(this, i) > 0;
    begin use ogradPos(nPoints, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), i, O_s0(this, i)*O_s0(this, i), owit(i));
    begin assert O_g(this, i) > 0 && 1/O_g(this, i) > 0 && O_s0(this, i)*(1/O_g(this, i)) > 0;
  }
  after_call computeGradients assert gradient[i] == O_g(this, i);
}
// ---- removal of inactive constraints: entry i+1 of every list belongs to the original constraint indexMap[i+1]
ufunc oE(int): bool;
ufunc oC(int): real;
pred O_lists(T) = T.lambdas.size() == T.nConstraints + 1 && T.negativeLambdaLimits.size() == T.nConstraints + 1 && T.positiveLambdaLimits.size() == T.nConstraints + 1
  && T.constraintDistances.size() == T.nConstraints && T.constraintDistancesScaled.size() == T.nConstraints && T.isEquality.size() == T.nConstraints;
pred O_scale(T) = forall(i; {T.scaleFactors[i]} 0 <= i <= T.nConstraints; T.scaleFactors[i] > 0 && T.scaleFactors[i] == O_s0(T, T.indexMap[i])*(1/O_g(T, T.indexMap[i])));
pred O_limits(T) = forall(i; {T.positiveLambdaLimits[i]} 0 <= i <= T.nConstraints; T.positiveLambdaLimits[i] == T.maxDisplacement/O_max(T, T.indexMap[i], dblmin())/T.scaleFactors[i] && T.positiveLambdaLimits[i] > 0)
  && forall(i; {T.negativeLambdaLimits[i]} 0 <= i <= T.nConstraints; T.negativeLambdaLimits[i] == -T.positiveLambdaLimits[i]);
pred O_range(T) = forall(i; {T.lambdas[i]} 0 <= i <= T.nConstraints; T.negativeLambdaLimits[i] <= T.lambdas[i] && T.lambdas[i] <= T.positiveLambdaLimits[i]);
pred O_kept(T) = forall(i; {T.isEquality[i]} 0 <= i < T.nConstraints; T.isEquality[i] == oE(T.indexMap[i+1]))
  && forall(i; {T.constraintDistances[i]} 0 <= i < T.nConstraints; T.constraintDistances[i] == oC(T.indexMap[i+1]));
contract Optimise::computeConstraintDistances(nCurrentConstraints) {
  prop C21;
  requires O_ok(this) && nCurrentConstraints == nConstraints && 1 <= nConstraints && nConstraints <= 25 && O_lists(this);
  requires O_scale(this);
  requires O_limits(this);
  requires O_range(this);
  requires O_kept(this);
  assigns displacements[*], lambdas, scaleFactors, negativeLambdaLimits, positiveLambdaLimits, indexMap, constraintDistances, constraintDistancesScaled, isEquality, nConstraints;
  ensures [shape] O_ok(this) && O_lists(this) && nConstraints <= old(nConstraints);
  ensures [map] forall(j; {indexMap[j]} 0 <= j <= nConstraints; exists(k; 0 <= k && k <= old(nConstraints) && indexMap[j] == old(indexMap[k])));
  ensures [scale] O_scale(this);
  ensures [limits] O_limits(this);
  ensures [range] O_range(this);
  ensures [kept] O_kept(this);
  ensures [fixed] forall(i; {displacements[i]} 0 <= i < nPoints && boundaryPoints[i].isFixed; displacements[i] == old(displacements[i]));
  loop 1 { inv vertices.size() == nVertices && temp.size() == nVertices && forall(k; {vertices[k].size()} 0 <= k < $i; vertices[k].size() == nDim) && forall(k; {temp[k]} 0 <= k < $i; temp[k] >= 0); }
  loop 2 { inv forall(k; {vertices[k].size()} 0 <= k < nVertices; vertices[k].size() == nDim); }
  loop 3 { inv -1 <= j && j < nDim; dec j + 1; }
  loop 4 {
    inv isActive.size() == nCurrentConstraints && constraintDistancesScaled.size() == nConstraints;
    inv forall(i; {displacements[i]} 0 <= i < nPoints && boundaryPoints[i].isFixed; displacements[i] == before(displacements[i]));
  }
  loop 5 {
    inv constraintChanges.size() == nVertices;
    inv forall(i; {displacements[i]} 0 <= i < nPoints && boundaryPoints[i].isFixed; displacements[i] == before(displacements[i]));
  }
  loop 6 { inv lambda.size() == nDim; }
  loop 7 { }
  loop 8 {
    inv nActive <= $i && nConstraints == nCurrentConstraints;
    inv forall(k; {lambdas[k]} 0 <= k <= nActive || $i < k && k <= nConstraints; negativeLambdaLimits[k] <= lambdas[k] && lambdas[k] <= positiveLambdaLimits[k]);
    inv forall(k; {indexMap[k]} $i < k && k <= nConstraints; indexMap[k] == old(indexMap[k]));
    inv forall(k; {lambdas[k]} $i < k && k <= nConstraints; lambdas[k] == old(lambdas[k]));
    inv indexMap[0] == 0 && forall(j, k; {indexMap[j], indexMap[k]} 0 <= j && j < k && k <= nActive; indexMap[j] < indexMap[k]) && indexMap[nActive] <= old(indexMap[$i]);
    inv forall(j; {indexMap[j]} 0 <= j <= nActive; indexMap[j] <= nConstraintsInitial && exists(k; 0 <= k && k <= $i && indexMap[j] == old(indexMap[k])));
    inv forall(k; {scaleFactors[k]} 0 <= k <= nActive || $i < k && k <= nConstraints; scaleFactors[k] > 0 && scaleFactors[k] == O_s0(this, indexMap[k])*(1/O_g(this, indexMap[k])));
    inv forall(k; {positiveLambdaLimits[k]} 0 <= k <= nActive || $i < k && k <= nConstraints; positiveLambdaLimits[k] == maxDisplacement/O_max(this, indexMap[k], dblmin())/scaleFactors[k] && positiveLambdaLimits[k] > 0);
    inv forall(k; {negativeLambdaLimits[k]} 0 <= k <= nActive || $i < k && k <= nConstraints; negativeLambdaLimits[k] == -positiveLambdaLimits[k]);
    inv forall(k; {isEquality[k]} 0 <= k < nActive || $i <= k && k < nConstraints; isEquality[k] == oE(indexMap[k+1]));
    inv forall(k; {constraintDistances[k]} 0 <= k < nActive || $i <= k && k < nConstraints; constraintDistances[k] == oC(indexMap[k+1]));
  }
}
// ---- solve
// the same sum with unscaled multipliers: in the order of the active functions, and at their original positions
func omul(int m, arr(real) L, arr(int) M, arr(real) S): real =
  m <= 0 ? L[0]*S[0] : omul(m-1, L, M, S) + L[m]*S[M[m]];
func oact(int m, arr(real) L, arr(int) M, arr(real) S): real =
  m <= 0 ? L[0]*S[0] : oact(m-1, L, M, S) + L[M[m]]*S[M[m]];
lemma omulEq(int m, arr(real) F, arr(real) Lb, arr(real) La, arr(int) M, arr(real) S) {
  requires m >= 0 && forall(k; {La[k]} 0 <= k <= m; La[k] == Lb[k]*F[k]); induct m;
  ensures osum(m, F, Lb, M, S) == omul(m, La, M, S);
}
lemma oactEq(int m, arr(real) Lb, arr(real) La, arr(int) M, arr(real) S) {
  requires m >= 0 && La[0] == Lb[0] && forall(k; {La[M[k]]} 1 <= k <= m; La[M[k]] == Lb[k]); induct m;
  ensures omul(m, Lb, M, S) == oact(m, La, M, S);
}
lemma omapGap(int n, arr(int) M, int k) {
  requires 0 <= k && k <= n && forall(a, b; {M[a], M[b]} 0 <= a && a < b && b <= n; M[a] < M[b]); induct n;
  ensures M[k] + (n - k) <= M[n];
}
lemma omapGe(arr(int) M, int n) {
  requires 0 <= n && M[0] == 0 && forall(a, b; {M[a], M[b]} 0 <= a && a < b && b <= n; M[a] < M[b]); induct n;
  ensures M[n] >= n;
}
pred O_final(T, i) = O_clip(T, i, oact(T.nConstraints, arr(T.lambdas), arr(T.indexMap), arr(T.boundaryPoints[i].sensitivities)));
pred O_active(T, i) = O_clip(T, i, omul(T.nConstraints, arr(T.lambdas), arr(T.indexMap), arr(T.boundaryPoints[i].sensitivities)));
pred O_fresh(T) = T.displacements.size() == 0 && T.nConstraints == T.nConstraintsInitial && T.nConstraints <= 25 && T.scaleFactors.size() == T.nConstraints + 1 && O_lists(T) && 0 < T.maxDisplacement && T.maxDisplacement < 1
  && 0 < T.boundaryPoints.size() && T.boundaryPoints.size() <= 1000000
  && forall(i; {T.boundaryPoints[i].sensitivities.size()} 0 <= i < T.boundaryPoints.size(); T.boundaryPoints[i].sensitivities.size() >= T.nConstraintsInitial + 1)
  && forall(i; {T.boundaryPoints[i].negativeLimit} 0 <= i < T.boundaryPoints.size() && T.boundaryPoints[i].isDomain; -T.maxDisplacement <= T.boundaryPoints[i].negativeLimit <= T.maxDisplacement)
  && forall(i; {T.boundaryPoints[i].length} 0 <= i < T.boundaryPoints.size(); T.boundaryPoints[i].length >= 0)
  && forall(k; {owit(k)} 0 <= k <= T.nConstraintsInitial; 0 <= owit(k) && owit(k) < T.boundaryPoints.size() && !T.boundaryPoints[owit(k)].isFixed && T.boundaryPoints[owit(k)].length > 0 && T.boundaryPoints[owit(k)].sensitivities[k] != 0)
  && forall(i; {T.isEquality[i]} 0 <= i < T.nConstraints; T.isEquality[i] == oE(i+1)) && forall(i; {T.constraintDistances[i]} 0 <= i < T.nConstraints; T.constraintDistances[i] == oC(i+1));
contract Optimise::solve() {
  prop C21;
  requires O_fresh(this);
  assigns nPoints, nConstraints, boundaryPoints[*].velocity, constraintDistances, constraintDistancesScaled, lambdas, timeStep, isEquality, indexMap, displacements, negativeLambdaLimits, positiveLambdaLimits, scaleFactors, gradients, returnCode;
  ensures [step] timeStep == abs(lambdas[0]) && timeStep > 0;
  ensures [velocity] forall(i; {boundaryPoints[i].velocity} 0 <= i < boundaryPoints.size(); boundaryPoints[i].velocity == displacements[i]/timeStep);
  ensures [cfl] forall(i; {displacements[i]} 0 <= i < boundaryPoints.size(); abs(displacements[i]) <= maxDisplacement);
  ensures [active] O_map(this, nConstraints, nConstraintsInitial) && lambdas.size() == nConstraintsInitial + 1;
  ensures [displacement] forall(i; {displacements[i]} 0 <= i < boundaryPoints.size(); displacements[i] == (boundaryPoints[i].isFixed ? 0 : O_final(this, i)));
  loop 1 { inv lambdas.size() == nConstraints + 1; }
  loop 2 {
    inv gradients.size() == nConstraints + 1;
    inv forall(k; {gradients[k].size()} 0 <= k < $i; gradients[k].size() == nConstraints + 1 && forall(j; {gradients[k][j]} 0 <= j <= nConstraints; gradients[k][j] == ograd(nPoints, arr(boundaryPoints[*].sensitivities), arr(boundaryPoints[*].length), arr(boundaryPoints[*].isFixed), indexMap[k], indexMap[j], scaleFactors[k]*scaleFactors[j])));
  }
  loop 3 { }
  loop 4 { }
  loop 5 {
    inv lambdas.size() == nConstraints + 1;
    inv isAttempted ==> lambdas[0] != 0;
    inv forall(i; {displacements[i]} 0 <= i < nPoints && boundaryPoints[i].isFixed; displacements[i] == before(displacements[i]));
  }
  loop 6 { }
  loop 7 {
    inv forall(k; {lambdas[k]} 0 <= k <= nConstraints; lambdas[k] == (k < $i ? before(lambdas[k])*scaleFactors[k] : before(lambdas[k])));
    after use forall(i; {displacements[i]} 0 <= i < nPoints; omulEq(nConstraints, arr(scaleFactors), arr(before(lambdas)), arr(lambdas), arr(indexMap), arr(boundaryPoints[i].sensitivities)));
    after assert lambdas[0] != 0;
    after let L1 = arr(lambdas);
    after assert forall(i; {displacements[i]} 0 <= i < nPoints; displacements[i] == (boundaryPoints[i].isFixed ? 0 : O_active(this, i)));
  }
  loop 8 {
    inv forall(k; {boundaryPoints[k].velocity} 0 <= k < $i; boundaryPoints[k].velocity == displacements[k]/timeStep);
  }
  loop 9 {
    init use forall(k; {indexMap[k]} 0 <= k <= nConstraints; omapGe(arr(indexMap), k));
    init assert forall(k; {indexMap[k]} 0 <= k <= nConstraints; k <= indexMap[k]);
    inv $i <= nConstraints && lambdas.size() == nConstraintsInitial + 1;
    inv forall(k; {lambdas[k]} 0 <= k <= $i; lambdas[k] == before(lambdas[k]));
    inv forall(k; {indexMap[k]} $i < k && k <= nConstraints; lambdas[indexMap[k]] == before(lambdas[k]));
    after assert lambdas[0] == L1[0] && forall(k; {lambdas[indexMap[k]]} 1 <= k <= nConstraints; lambdas[indexMap[k]] == L1[k]);
  }
  exit use forall(k; {indexMap[k]} 0 <= k <= nConstraints; omapGe(arr(indexMap), k));
  exit use forall(k; {indexMap[k]} 0 <= k <= nConstraints; omapGap(nConstraints, arr(indexMap), k));
  exit assert nConstraints == nConstraintsInitial ==> forall(k; {indexMap[k]} 0 <= k <= nConstraints; indexMap[k] == k);
  exit assert lambdas[0] == L1[0] && forall(k; {lambdas[indexMap[k]]} 1 <= k <= nConstraints; lambdas[indexMap[k]] == L1[k]);
  exit use forall(i; {displacements[i]} 0 <= i < nPoints; oactEq(nConstraints, L1, arr(lambdas), arr(indexMap), arr(boundaryPoints[i].sensitivities)));
}
