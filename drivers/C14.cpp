// C14: area fraction of every cell and their sum, after a discretisation.
#include "bd.h"
const int quick_cases = 2500, thorough_cases = 40000;
static double shoelace(const std::vector<double>& x, const std::vector<double>& y)
{
    double a = 0; size_t n = x.size();
    for (size_t i = 0; i < n; i++) a += x[i]*y[(i+1)%n] - x[(i+1)%n]*y[i];
    return std::fabs(a)/2;
}
// area of the part of the unit cell where the level set is positive, the contour being straight between the zeros of the edges
static double cellarea(const double s[4])
{
    static const int cx[4] = {0, 1, 1, 0}, cy[4] = {0, 0, 1, 1};
    int t[4], cut = 0; double sum = 0; for (int j = 0; j < 4; j++) { t[j] = st_(s[j]); sum += s[j]; }
    for (int j = 0; j < 4; j++) cut += t[j]*t[(j+1)%4] < 0;
    auto zero = [&](int j) { return s[j]/(s[j] - s[(j+1)%4]); };              // from corner j along edge j
    if (cut == 4) {                                                            // two corners are cut off: those outside when the centre is inside
        double a = 0; int off = sum > 0 ? -1 : 1;
        for (int j = 0; j < 4; j++) if (t[j] == off) a += zero(j)*(1 - zero((j+3)%4))/2;
        return sum > 0 ? 1 - a : a;
    }
    std::vector<double> x, y;
    for (int j = 0; j < 4; j++) {
        int p = t[(j+3)%4], n = t[(j+1)%4];
        if (t[j] > 0 || (t[j] == 0 && !(p < 0 && n < 0))) { x.push_back(cx[j]); y.push_back(cy[j]); }
        if (t[j]*n < 0) { double z = zero(j); x.push_back(cx[j] + z*(cx[(j+1)%4] - cx[j])); y.push_back(cy[j] + z*(cy[(j+1)%4] - cy[j])); }
    }
    return shoelace(x, y);
}
void runcase(int k, Rng& r)
{
    Field f = randfield(k, r); LS& l = *f.l; slsm::Mesh& m = l.mesh; const std::vector<double>& S = f.S; unsigned W = m.width, R = W + 1;
    if (r.chance(0.5)) for (unsigned e = 0; e < m.nElements; e++) m.elements[e].area = r.real(-1, 2);
    if (r.chance(0.5)) l.area = 7;
    double a = l.computeAreaFractions(f.b), sum = 0;
    const double tol = 1e-5;                                                   // points closer than 1e-6 are merged
    for (unsigned e = 0; e < m.nElements; e++) {
        unsigned q = e % W + (e / W)*R; unsigned n[4] = {q, q + 1, q + R + 1, q + R}; double s[4]; bool look = true;
        for (int j = 0; j < 4; j++) { s[j] = S[n[j]]; look = look && f.look(n[j], n[(j+1)%4]); }
        double w = m.elements[e].area; sum += w;
        CHECK(w >= -tol && w <= 1 + tol, "element %u has area fraction %.9g", e, w);
        bool in = false, out = false; for (int j = 0; j < 4; j++) { if (st_(s[j]) > 0) in = true; if (st_(s[j]) < 0) out = true; }
        double z = !out ? 1 : !in ? 0 : cellarea(s);
        if (!in || !out) CHECK(w == z, "element %u (%.9g %.9g %.9g %.9g) has area fraction %.17g, not %g", e, s[0], s[1], s[2], s[3], w, z);
        else if (look) CHECK(std::fabs(w - z) < tol, "element %u (%.9g %.9g %.9g %.9g) has area fraction %.9g, not %.9g", e, s[0], s[1], s[2], s[3], w, z);
    }
    CHECK(a == l.area, "the returned area %.17g is not the stored one %.17g", a, l.area);
    CHECK(std::fabs(a - sum) <= 1e-9*(1 + m.nElements), "area %.17g is not the sum of the fractions %.17g", a, sum);
}
