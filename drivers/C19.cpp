// C19: what the saved files contain, and what loading them restores.
#include "bd.h"
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
const int quick_cases = 1200, thorough_cases = 20000;
static std::string slurp(const std::string& f)
{
    std::ifstream i(f.c_str(), std::ios::binary); CHECK(i.good(), "file %s was not written", f.c_str());
    std::stringstream s; s << i.rdbuf(); return s.str();
}
typedef std::vector<std::string> Row; typedef std::vector<Row> Rows;
static Rows rows(const std::string& t)
{
    Rows r; std::istringstream s(t); std::string l;
    while (std::getline(s, l)) { std::istringstream q(l); Row w; std::string x; while (q >> x) w.push_back(x); r.push_back(w); }
    return r;
}
static double number(const std::string& t, const char* what) { char* e; double d = strtod(t.c_str(), &e); CHECK(*e == 0 && !t.empty(), "%s: %s is not a number", what, t.c_str()); return d; }
// one number per entry of v, to the precision of %lf
static void isnumber(const std::string& t, double v, const char* what, unsigned n)
{
    double d = number(t, what); CHECK(std::fabs(d - v) <= 6e-7 + 1e-14*std::fabs(v), "%s %u is written as %s, not %.17g", what, n, t.c_str(), v);
}
static void table(const std::string& f, const std::vector<std::vector<double> >& want, const char* what)
{
    Rows r = rows(slurp(f)); CHECK(r.size() == want.size(), "%s has %zu lines, not %zu", f.c_str(), r.size(), want.size());
    for (size_t i = 0; i < r.size(); i++) {
        CHECK(r[i].size() == want[i].size(), "line %zu of %s has %zu columns, not %zu", i, f.c_str(), r[i].size(), want[i].size());
        for (size_t j = 0; j < r[i].size(); j++) isnumber(r[i][j], want[i][j], what, i);
    }
}
struct Section { std::string name; std::vector<double> v; };
static void vtk(const std::string& f, unsigned W, unsigned H, const char* kind, const std::vector<Section>& s)
{
    Rows r = rows(slurp(f)); Row t;
    CHECK(r.size() > 3 && r[0] == (Row{"#", "vtk", "DataFile", "Version", "3.0"}), "%s: first line", f.c_str());
    CHECK(r[2] == Row{"ASCII"}, "%s: third line", f.c_str());
    for (size_t i = 3; i < r.size(); i++) t.insert(t.end(), r[i].begin(), r[i].end());
    Row w{"DATASET", "RECTILINEAR_GRID", "DIMENSIONS", fmt("%u", W + 1), fmt("%u", H + 1), "1", "X_COORDINATES", fmt("%u", W + 1), "int"};
    for (unsigned i = 0; i <= W; i++) w.push_back(fmt("%u", i));
    for (const char* q : {"Y_COORDINATES"}) w.push_back(q);
    w.push_back(fmt("%u", H + 1)); w.push_back("int");
    for (unsigned i = 0; i <= H; i++) w.push_back(fmt("%u", i));
    for (const char* q : {"Z_COORDINATES", "1", "int", "0"}) w.push_back(q);
    w.push_back(kind); w.push_back(fmt("%zu", s[0].v.size()));
    size_t n = 0;
    for (; n < w.size(); n++) CHECK(n < t.size() && t[n] == w[n], "%s: token %zu is %s, not %s", f.c_str(), n, n < t.size() ? t[n].c_str() : "missing", w[n].c_str());
    for (auto& q : s) {
        const std::string h[] = {"SCALARS", q.name, "float", "1", "LOOKUP_TABLE", "default"};
        for (auto& x : h) { CHECK(n < t.size() && t[n] == x, "%s: token %zu is %s, not %s (section %s)", f.c_str(), n, n < t.size() ? t[n].c_str() : "missing", x.c_str(), q.name.c_str()); n++; }
        for (size_t i = 0; i < q.v.size(); i++, n++) { CHECK(n < t.size(), "%s ends inside section %s", f.c_str(), q.name.c_str()); isnumber(t[n], q.v[i], q.name.c_str(), i); }
    }
    CHECK(n == t.size(), "%s has %zu tokens more than the requested sections", f.c_str(), t.size() - n);
}
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static double wild(Rng& r)
{
    switch (r.below(9)) {
        case 0: return r.range(-5, 5);
        case 1: return r.real(-1e6, 1e6);
        case 2: return r.real(-1e-5, 1e-5);
        case 3: return -0.0;
        case 4: return 0.5*r.range(-9, 9) + 1e-6*r.range(-9, 9);
        default: return r.real(-20, 20);
    }
}
void runcase(int k, Rng& r)
{
    Field f = randfield(k, r); LS& l = *f.l; slsm::Mesh& m = l.mesh; unsigned W = m.width, H = m.height, N = m.nNodes, R = W + 1;
    bool boundary = k % 3 == 0;
    if (!boundary) for (unsigned n = 0; n < N; n++) l.signedDistance[n] = wild(r);
    for (unsigned n = 0; n < N; n++) { l.velocity[n] = wild(r); l.gradient[n] = wild(r); }
    for (unsigned e = 0; e < m.nElements; e++) m.elements[e].area = r.unit();
    const std::vector<double> S = l.signedDistance, V = l.velocity, G = l.gradient;
    slsm::InputOutput io;
    bool numbered = r.chance(0.6), xy = r.chance(0.5), vel = r.chance(0.5), grad = r.chance(0.5);
    unsigned dp = r.below(4) == 0 ? r.below(10) : r.below(3) == 0 ? r.below(200000) : r.below(10000);
    mkdir("out", 0777); mkdir("out/sub", 0777);
    const std::string dir = std::vector<std::string>{"", "out", ".", "out/sub"}[r.below(4)];
    std::string num = fmt("%04u", dp), pre = dir.empty() ? "" : dir + "/";
    note(fmt("%ux%u %s dp=%u dir='%s' xy=%d velocity=%d gradient=%d", W, H, numbered ? "numbered" : "named", dp, dir.c_str(), xy, vel, grad));
    auto name = [&](const char* stem, const char* ext) { return numbered ? pre + stem + num + ext : pre + "file" + ext; };
    distinct(hashmix(dp, W*100 + H));
    std::string fn;
    std::vector<std::vector<double> > want;
    auto xyof = [&](unsigned n) { return std::vector<double>{double(n % R), double(n / R)}; };
    if (boundary) {
        slsm::Boundary& b = f.b; fn = name("boundary-points_", ".txt"); unlink(fn.c_str());
        numbered ? io.saveBoundaryPointsTXT(dp, b, dir) : io.saveBoundaryPointsTXT(fn, b);
        for (unsigned i = 0; i < b.nPoints; i++) want.push_back({b.points[i].coord.x, b.points[i].coord.y, b.points[i].length});
        table(fn, want, "boundary point");
        fn = name("boundary-segments_", ".txt"); unlink(fn.c_str()); want.clear();
        numbered ? io.saveBoundarySegmentsTXT(dp, b, dir) : io.saveBoundarySegmentsTXT(fn, b);
        for (unsigned i = 0; i < b.nSegments; i++) {
            const slsm::Coord &p = b.points[b.segments[i].start].coord, &q = b.points[b.segments[i].end].coord;
            want.push_back({p.x, p.y}); want.push_back({q.x, q.y}); want.push_back({});
        }
        table(fn, want, "segment end");
    }
    else {
        fn = name("area_", ".vtk"); unlink(fn.c_str());
        numbered ? io.saveAreaFractionsVTK(dp, m, dir) : io.saveAreaFractionsVTK(fn, m);
        std::vector<double> A; for (unsigned e = 0; e < m.nElements; e++) A.push_back(m.elements[e].area);
        vtk(fn, W, H, "CELL_DATA", {Section{"area", A}});
        fn = name("area_", ".txt"); unlink(fn.c_str());
        numbered ? io.saveAreaFractionsTXT(dp, m, dir, xy) : io.saveAreaFractionsTXT(fn, m, xy);
        for (unsigned e = 0; e < m.nElements; e++) { std::vector<double> w; if (xy) w = {e % W + 0.5, e / W + 0.5}; w.push_back(A[e]); want.push_back(w); }
        table(fn, want, "element");
        want.clear();
    }
    want.clear();
    fn = name("level-set_", ".vtk"); unlink(fn.c_str());
    numbered ? io.saveLevelSetVTK(dp, l, vel, grad, dir) : io.saveLevelSetVTK(fn, l, vel, grad);
    std::vector<Section> sec{Section{"distance", S}}; if (vel) sec.push_back(Section{"velocity", V}); if (grad) sec.push_back(Section{"gradient", G});
    vtk(fn, W, H, "POINT_DATA", sec);
    fn = name("level-set_", ".txt"); unlink(fn.c_str());
    numbered ? io.saveLevelSetTXT(dp, l, dir, xy) : io.saveLevelSetTXT(fn, l, xy);
    for (unsigned n = 0; n < N; n++) { std::vector<double> w; if (xy) w = xyof(n); w.push_back(S[n]); w.push_back(V[n]); w.push_back(G[n]); want.push_back(w); }
    table(fn, want, "node");
    auto others = [&](LS& q, const std::vector<double>& v, const std::vector<double>& g) { CHECK(q.velocity == v && q.gradient == g, "loading changed the velocities or gradients"); };
    auto scramble = [&]() { for (unsigned n = 0; n < N; n++) l.signedDistance[n] = r.real(-3, 3); };
    scramble();
    numbered ? io.loadLevelSetTXT(dp, l, dir, xy) : io.loadLevelSetTXT(fn, l, xy);
    for (unsigned n = 0; n < N; n++) CHECK(std::fabs(l.signedDistance[n] - S[n]) <= 6e-7 + 1e-14*std::fabs(S[n]), "after loading %s the distance of node %u is %.17g, not %.17g", fn.c_str(), n, l.signedDistance[n], S[n]);
    CHECK(l.signedDistance.size() == N, "number of distances"); others(l, V, G);
    if (r.chance(0.2)) {                                                     // a file of another mesh is refused
        { std::ofstream o(fn.c_str(), std::ios::app); o << "1 2 3 4 5\n"; }
        CHECK(exits([&]() { io.loadLevelSetTXT(fn, l, xy); }), "a text file with %u lines was accepted for %u nodes", N + 1, N);
    }
    else if (r.chance(0.2)) {                                                // the right number of lines, but more numbers than nodes
        std::string t = slurp(fn); t.insert(t.size() - 1, " 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15");
        { std::ofstream o(fn.c_str(), std::ios::binary); o << t; }
        io.loadLevelSetTXT(fn, l, xy);
        for (unsigned n = 0; n < N; n++) CHECK(std::fabs(l.signedDistance[n] - S[n]) <= 6e-7 + 1e-14*std::fabs(S[n]), "after loading %s (with further numbers at the end) node %u", fn.c_str(), n);
        CHECK(l.signedDistance.size() == N, "number of distances");
    }
    unlink(fn.c_str());
    std::vector<double> B = S;
    for (unsigned n = 0; n < N; n++) if (r.chance(0.3)) { uint64_t x = r.next(); memcpy(&B[n], &x, 8); }   // any bit pattern
    l.signedDistance = B;
    fn = name("level-set_", ".bin"); unlink(fn.c_str());
    numbered ? io.saveLevelSetBIN(dp, l, dir) : io.saveLevelSetBIN(fn, l);
    std::string raw = slurp(fn);
    CHECK(raw.size() == 8*(size_t)N && memcmp(raw.data(), B.data(), raw.size()) == 0, "%s does not hold the %u distances", fn.c_str(), N);
    scramble();
    numbered ? io.loadLevelSetBIN(dp, l, dir) : io.loadLevelSetBIN(fn, l);
    for (unsigned n = 0; n < N; n++) CHECK(same(l.signedDistance[n], B[n]), "after loading %s the distance of node %u is %.17g, not %.17g", fn.c_str(), n, l.signedDistance[n], B[n]);
    others(l, V, G);
    unlink(fn.c_str());
    if (k % 50 == 1) {
        CHECK(exits([&]() { io.loadLevelSetBIN(fn, l); }) && exits([&]() { io.loadLevelSetTXT("out/none.txt", l); }), "a missing file was accepted");
        CHECK(exits([&]() { io.saveLevelSetBIN("no/such/file", l); }) && exits([&]() { io.saveLevelSetVTK("no/such/file", l); }) && exits([&]() { io.saveAreaFractionsVTK(dp, m, "no/such"); }), "a file that cannot be written was accepted");
    }
}
