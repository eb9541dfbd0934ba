// C02: mesh numbering and connectivity, recomputed independently.
#include "common.h"
#include "Mesh.cpp"
#include <array>
const int quick_cases = 250, thorough_cases = 1500;
void runcase(int k, Rng& r)
{
    unsigned W, H;
    if (k < 64) { W = 1 + k % 8; H = 1 + k / 8; }
    else { W = r.range(1, k % 10 ? 40 : 300); H = r.range(1, k % 10 ? 40 : 300); }
    note(fmt("Mesh(%u,%u)", W, H));
    slsm::Mesh m(W, H);
    distinct(hashmix(W, H));
    unsigned N = (W+1)*(H+1);
    CHECK(m.width == W && m.height == H && m.nElements == W*H && m.nNodes == N && m.nodes.size() == N && m.elements.size() == W*H, "sizes");
    for (unsigned n = 0; n < N; n++) {
        unsigned x = n % (W+1), y = n / (W+1);
        auto& nd = m.nodes[n];
        CHECK(nd.coord.x == x && nd.coord.y == y, "node %u at (%g,%g)", n, nd.coord.x, nd.coord.y);
        CHECK(nd.isDomain == (x == 0 || y == 0 || x == W || y == H), "node %u domain flag %d", n, (int)nd.isDomain);
        CHECK(m.xyToIndex[x][y] == n, "xyToIndex[%u][%u]=%u", x, y, m.xyToIndex[x][y]);
        CHECK(nd.neighbours.size() == 4, "node %u neighbour list", n);
        unsigned e[4] = {x > 0 ? n-1 : N, x < W ? n+1 : N, y > 0 ? n-(W+1) : N, y < H ? n+(W+1) : N};
        for (int i = 0; i < 4; i++) CHECK(nd.neighbours[i] == e[i], "node %u neighbour %d is %u, expected %u", n, i, nd.neighbours[i], e[i]);
        std::vector<unsigned> els;
        for (int dy = -1; dy <= 0; dy++) for (int dx = -1; dx <= 0; dx++) {
            int ex = (int)x + dx, ey = (int)y + dy;
            if (ex >= 0 && ey >= 0 && ex < (int)W && ey < (int)H) els.push_back(ex + ey*W);
        }
        CHECK(nd.nElements == els.size(), "node %u has %u elements, expected %zu", n, nd.nElements, els.size());
        std::vector<unsigned> got(nd.elements.begin(), nd.elements.begin() + nd.nElements);
        std::sort(got.begin(), got.end());
        CHECK(got == els, "node %u element list", n);
        CHECK(nd.nBoundaryPoints == 0 && !nd.isMasked, "node %u state", n);
    }
    for (unsigned e = 0; e < W*H; e++) {
        unsigned x = e % W, y = e / W; auto& el = m.elements[e];
        CHECK(el.coord.x == x + 0.5 && el.coord.y == y + 0.5, "element %u centre", e);
        unsigned c[4] = {x + y*(W+1), x+1 + y*(W+1), x+1 + (y+1)*(W+1), x + (y+1)*(W+1)};
        CHECK(el.nodes.size() == 4, "element %u corner list", e);
        for (int i = 0; i < 4; i++) CHECK(el.nodes[i] == c[i], "element %u corner %d is %u, expected %u", e, i, el.nodes[i], c[i]);
    }
}
