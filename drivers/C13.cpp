// C13: segments, lengths, adjacency and local perimeter.
#include "bd.h"
const int quick_cases = 1500, thorough_cases = 30000;
void runcase(int k, Rng& r)
{
    Field f = randfield(k, r); LS& l = *f.l; slsm::Mesh& m = l.mesh; slsm::Boundary& b = f.b; unsigned W = m.width;
    CHECK(b.points.size() == b.nPoints && b.segments.size() == b.nSegments, "sizes");
    double total = 0; std::vector<double> len(b.nPoints, 0); std::vector<std::multiset<std::pair<unsigned, unsigned>>> adj(b.nPoints);
    std::vector<std::multiset<unsigned>> ofel(m.nElements);
    for (unsigned i = 0; i < b.nSegments; i++) {
        auto& s = b.segments[i];
        CHECK(s.start < b.nPoints && s.end < b.nPoints && s.element < m.nElements, "segment %u: %u-%u in element %u", i, s.start, s.end, s.element);
        auto &p = b.points[s.start].coord, &q = b.points[s.end].coord;
        double ex = s.element % W, ey = s.element / W;
        for (auto c : {p, q}) CHECK(c.x >= ex - 1e-6 && c.x <= ex + 1 + 1e-6 && c.y >= ey - 1e-6 && c.y <= ey + 1 + 1e-6, "segment %u leaves its element %u", i, s.element);
        double d = std::hypot(p.x - q.x, p.y - q.y);
        CHECK(std::fabs(s.length - d) < 1e-9, "segment %u has length %.17g, its ends are %.17g apart", i, s.length, d);
        total += d; len[s.start] += d/2; len[s.end] += d/2; adj[s.start].insert(std::make_pair(i, s.end)); adj[s.end].insert(std::make_pair(i, s.start)); ofel[s.element].insert(i);
    }
    CHECK(near(b.length, total, 1e-9), "total length %.17g, the segments sum to %.17g", b.length, total);
    for (unsigned i = 0; i < b.nPoints; i++) {
        auto& p = b.points[i];
        CHECK(near(p.length, len[i], 1e-9), "point %u has length %.17g, half its segments is %.17g", i, p.length, len[i]);
        CHECK(p.nSegments == adj[i].size() && p.nNeighbours == adj[i].size() && p.segments.size() >= p.nSegments && p.neighbours.size() >= p.nNeighbours, "point %u lists %u segments and %u neighbours, has %zu", i, p.nSegments, p.nNeighbours, adj[i].size());
        std::multiset<std::pair<unsigned, unsigned>> got; double per = 0;
        for (unsigned j = 0; j < p.nSegments; j++) { got.insert(std::make_pair(p.segments[j], p.neighbours[j])); if (p.neighbours[j] < b.nPoints) per += std::hypot(p.coord.x - b.points[p.neighbours[j]].coord.x, p.coord.y - b.points[p.neighbours[j]].coord.y); }
        CHECK(got == adj[i], "the lists of point %u differ from the segments ending in it", i);
        double cp = b.computePerimeter(p);
        CHECK(near(cp, per, 1e-9), "perimeter of point %u is %.17g, expected %.17g", i, cp, per);
    }
    for (unsigned e = 0; e < m.nElements; e++) {
        std::multiset<unsigned> got;
        for (unsigned j = 0; j < m.elements[e].nBoundarySegments; j++) got.insert(m.elements[e].boundarySegments[j]);
        CHECK(got == ofel[e], "the segment list of element %u differs from the segments naming it", e);
    }
}
