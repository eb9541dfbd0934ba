"""The planted changes (see mkseed.py): written from the property text and the code, kept whether or not a check catches them."""
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

seed('C01-set-leftchild', 'C01', ('src/Heap.cpp', 'if (newDistance > oldDistance)', 'if (newDistance > oldDistance && 2*pos + 2 < heapLength)'),
 'set() raising the value of an entry whose only child is a left child (the last internal node of an even-sized heap), followed by a push next to that child',
 'the raised entry keeps its place above a smaller child, so a later pop does not report the minimum',
 '''    slsm::Heap h(5, false);
    h.push(10, 1.0); unsigned int b = h.push(11, 2.0); h.push(12, 3.0); h.push(13, 2.5);
    // layout: 1.0; 2.0 3.0; 2.5 below 2.0: raise 2.0 to 9.0
    h.set(b, 9.0); h.push(14, 8.0);
    double last = -1; unsigned int a; double v;
    while (!h.empty()) { h.pop(a, v); CHECK(v >= last, "popped %g after %g", v, last); last = v; }''')
seed('C01-siftup-lastchild', 'C01', ('src/Heap.cpp', '            if (rightPos < heapLength)\n', '            if (rightPos + 1 < heapLength)\n'),
 'a pop/raise whose sift path ends at a node whose right child is the very last heap slot and is the smaller child',
 'the last slot is never considered as right child, so heap order is broken and a later pop is not the minimum',
 '''    slsm::Heap h(8, false);
    h.push(1, 1.0); h.push(2, 5.0); h.push(3, 3.0); h.push(4, 7.0);
    // after the pop the head has children 5 and 3, the last slot being the smaller one
    double last = -1; unsigned int a; double v;
    for (int i=0;i<4;i++) { h.pop(a, v); CHECK(v >= last, "popped %g after %g", v, last); last = v; }''')
seed('C02-edge-top', 'C02', ('src/Mesh.cpp', "if ((x == 0) || (x == width) || (y == 0) || (y == height))", "if ((x == 0) || (x == width) || (y == 0) || (y >= width && y == height))"),
 'a mesh wider than it is high',
 'the nodes of the top edge (corners excepted) are not flagged as domain nodes when the mesh is wider than high',
 '''    slsm::Mesh m(5, 3);
    for (unsigned int i=0;i<m.nNodes;i++) { unsigned int x = i % 6, y = i / 6; bool d = x==0||x==5||y==0||y==3;
        CHECK(m.nodes[i].isDomain == d, "node %u", i); }''')
seed('C02-elem-centre', 'C02', [('src/Mesh.cpp', "            elements[i].coord.y = y + 0.5;", "            elements[i].coord.y = (i / height) + 0.5;"), ('src/Mesh.cpp', "            elements[i].coord.x = x + 0.5;", "            elements[i].coord.x = (i - (i / height) * width) + 0.5;")],
 'a mesh that is not square',
 'element centres are computed with the height in place of the width',
 '''    slsm::Mesh m(3, 5);
    for (unsigned int i=0;i<m.nElements;i++) CHECK(m.elements[i].coord.x == i % 3 + 0.5 && m.elements[i].coord.y == i / 3 + 0.5, "element %u", i);''')
seed('C03-negative-clamp', 'C03', ('src/Mesh.cpp', '''        x -= 1e-6;
        y -= 1e-6;

        // Enforce lower bound.
        if (x < 0) x = 0;
        if (y < 0) y = 0;''', '''        if (x > 1) x -= 1e-6;
        if (y > 1) y -= 1e-6;'''),
 'the (x, y) overload asked for a point exactly on the first interior grid line (x == 1 or y == 1)',
 'the two overloads disagree: the point on the first grid line is assigned to the right/upper cell',
 '''    slsm::Mesh m(4, 3); slsm::Coord c(1.0, 0.5);
    CHECK(m.getElement(c) == 0, "coord overload"); CHECK(m.getElement(1.0, 0.5) == 0, "xy overload gives %u", m.getElement(1.0, 0.5));
    CHECK(m.getElement(0.5, 1.0) == 0, "xy overload gives %u", m.getElement(0.5, 1.0));''')
seed('C03-closest-upper', 'C03', ('src/Mesh.cpp', '''        double dx = x - elements[element].coord.x;
        double dy = y - elements[element].coord.y;''', '''        double dx = x - elements[element].coord.x;
        double dy = (y >= height) ? -0.5 : y - elements[element].coord.y;'''),
 'a query of the (x, y) overload exactly on (or beyond) the top edge of the domain',
 'the closest node of a point on the top edge is reported one row too low',
 '''    slsm::Mesh m(3, 2);
    for (unsigned int x=0;x<=3;x++) { unsigned int n = m.getClosestNode(double(x), 2.0); CHECK(n == 8 + x, "closest to (%u,2) is %u", x, n); }''')

LSPRE = '''    typedef std::vector<slsm::Hole> Holes; typedef std::vector<slsm::Coord> Poly; (void) sizeof(Holes); (void) sizeof(Poly);
'''
seed('C04-hole-break', 'C04', ('src/LevelSet.cpp', '''                // If distance is less than current value, then update.
                if (dist < signedDistance[i])
                    signedDistance[i] = dist;
            }
        }
    }

    void LevelSet::initialise(const std::vector<Coord>& points)''', '''                // If distance is less than current value, then update.
                if (dist < signedDistance[i])
                    signedDistance[i] = dist;

                // The node is inside a hole: nothing left to look for.
                if (signedDistance[i] < 0) break;
            }
        }
    }

    void LevelSet::initialise(const std::vector<Coord>& points)'''),
 'overlapping holes, with the hole whose surface is deeper listed after the other',
 'nodes in the overlap get the distance to the first hole of the list instead of the minimum over all holes',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(8, 10, 4)); h.push_back(slsm::Hole(11, 10, 5));
    slsm::LevelSet l(20, 20, h, 0.5, 6, false);
    unsigned int n = l.mesh.xyToIndex[10][10];
    CHECK(std::abs(l.signedDistance[n] + 4) < 1e-9, "node (10,10) has %g, expected -4", l.signedDistance[n]);''')
seed('C04-edge-wide', 'C04', ('src/LevelSet.cpp', '''            unsigned int minY = std::min(mesh.nodes[i].coord.y, mesh.height - mesh.nodes[i].coord.y);
''', '''            unsigned int minY = std::min(mesh.nodes[i].coord.y, std::max(mesh.width, mesh.height) - mesh.nodes[i].coord.y);
'''),
 'a mesh wider than it is high',
 'distances to the top edge are measured from the line y = width',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(5, 5, 2));
    slsm::LevelSet l(30, 10, h, 0.5, 6, false);
    unsigned int n = l.mesh.xyToIndex[20][9];
    CHECK(std::abs(l.signedDistance[n] - 1) < 1e-9, "node (20,9) has %g, expected 1", l.signedDistance[n]);''')
seed('C04-swiss-inner', 'C04', ('src/LevelSet.cpp', 'unsigned int y = int(i / (nx -1));', 'unsigned int y = int(i / (ny -1));'),
 'the default structure on a mesh with a different number of holes in x and y (e.g. 120 x 90)',
 'the inner grid of default holes is laid out with the wrong row length',
 LSPRE + '''    slsm::LevelSet l(120, 90);
    // inner holes at 2*(15 + 15 i, 15 + 15 j): centres (30,30) (60,30) (90,30) (30,60) ...
    for (int x=30;x<=90;x+=30) for (int y=30;y<=60;y+=30) { double d = l.signedDistance[l.mesh.xyToIndex[x][y]]; CHECK(std::abs(d + 5) < 1e-6, "centre (%d,%d) has %g", x, y, d); }''')
seed('C05-clamp-far', 'C05', ('src/LevelSet.cpp', '''            t = std::max(0.0, std::min(1.0, t));

            // Project onto the line.''', '''            t = std::max(0.0, std::min(rSqd < 4 ? 1.0 : rSqd, t));

            // Project onto the line.'''),
 'a segment at least two grid units long, and a point beyond its second end',
 'the distance is measured to the extended line instead of to the end point',
 LSPRE + '''    Poly p; p.push_back(slsm::Coord(6, 6)); p.push_back(slsm::Coord(12, 6)); p.push_back(slsm::Coord(9, 12)); p.push_back(slsm::Coord(6, 6));
    slsm::LevelSet l(40, 40, p, 0.5, 6, false);
    double d = l.signedDistance[l.mesh.xyToIndex[16][6]];
    CHECK(std::abs(d - 4) < 1e-9, "node (16,6) has %g, expected 4", d);''')
seed('C05-vertex-level', 'C05', ('src/LevelSet.cpp', '''                // Point lies above the vertex.
                if (vertices[i+1].y <= point.y)
''', '''                // Point lies above the vertex.
                if (vertices[i+1].y < point.y)
'''),
 'a polygon vertex exactly level with a node (on the same grid row)',
 'downward edges ending at the node\'s height are not counted while the upward edge starting there is, so the winding number is wrong',
 LSPRE + '''    Poly p; p.push_back(slsm::Coord(10, 4)); p.push_back(slsm::Coord(4, 10)); p.push_back(slsm::Coord(10, 16)); p.push_back(slsm::Coord(16, 10)); p.push_back(slsm::Coord(10, 4));
    slsm::LevelSet l(20, 20, p, 0.5, 6, false);
    CHECK(l.signedDistance[l.mesh.xyToIndex[10][10]] < 0, "centre is not inside");
    CHECK(l.signedDistance[l.mesh.xyToIndex[2][10]] > 0, "(2,10) is inside: %g", l.signedDistance[l.mesh.xyToIndex[2][10]]);
    CHECK(l.signedDistance[l.mesh.xyToIndex[18][10]] > 0, "(18,10) is inside: %g", l.signedDistance[l.mesh.xyToIndex[18][10]]);''')
seed('C06-stale-active', 'C06', ('src/LevelSet.cpp', '''            // Flag node as inactive.
            mesh.nodes[i].isActive = false;
''', '''            // Flag node as inactive.
            if (!mesh.nodes[i].isMasked) mesh.nodes[i].isActive = false;
'''),
 'masking nodes that were active in the previous narrow band',
 'freshly masked nodes keep their active flag although they are not in the band',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(10, 10, 5));
    slsm::LevelSet l(20, 20, h, 0.5, 6, false);
    Holes m; m.push_back(slsm::Hole(4, 4, 2)); l.mask(m);
    for (unsigned int i=0;i<l.mesh.nNodes;i++) CHECK(!(l.mesh.nodes[i].isMasked && l.mesh.nodes[i].isActive), "masked node %u is active", i);''')
seed('C06-mine-inner', 'C06', ('src/LevelSet.cpp', 'if (absoluteSignedDistance > mineWidth)', 'if ((signedDistance[i] < 0 ? -2.0 : 1.0) * signedDistance[i] > mineWidth)'),
 'a region outside the structure (negative signed distance) deeper than half the band width',
 'nodes on the outer side are listed as mines from half the band width on',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(15, 15, 8));
    slsm::LevelSet l(30, 30, h, 0.5, 6, false);
    for (unsigned int i=0;i<l.mesh.nNodes;i++) { double a = std::abs(l.signedDistance[i]); CHECK(l.mesh.nodes[i].isMine == (a < 6 && a > 5), "node %u phi %g mine %d", i, l.signedDistance[i], (int) l.mesh.nodes[i].isMine); }''')
seed('C07-first-mine', 'C07', ('src/LevelSet.cpp', 'for (unsigned int i=0;i<nMines;i++)\n        {\n            // Boundary is within', 'for (unsigned int i=nMines;i-->1;)\n        {\n            // Boundary is within'),
 'an update whose only mine within one grid unit is the first of the mine list',
 'the first mine is never checked, so update() reports false and does not reinitialise',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(15, 15, 8));
    slsm::LevelSet l(30, 30, h, 0.5, 6, false);
    std::fill(l.velocity.begin(), l.velocity.end(), 0.0); std::fill(l.gradient.begin(), l.gradient.end(), 0.0);
    unsigned int n = l.mines[0]; l.gradient[n] = 1; l.velocity[n] = l.signedDistance[n] - 0.5;
    CHECK(l.update(1.0), "the boundary is at a mine but update() returned false");''')
seed('C07-domain-active', 'C07', ('src/LevelSet.cpp', '''                if (signedDistance[node] > 0)
                    signedDistance[node] = 0;''', '''                if (signedDistance[node] > 0 && velocity[node] < 0 && !mesh.nodes[node].isMine)
                    signedDistance[node] = 0;'''),
 'a domain-edge node that is also a mine (or is already positive with an outward velocity) moved above zero',
 'a mine node on the domain edge ends up with a positive signed distance',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(15, 0, 5.5));
    slsm::LevelSet l(30, 30, h, 0.5, 6, false);
    std::fill(l.velocity.begin(), l.velocity.end(), 0.0); std::fill(l.gradient.begin(), l.gradient.end(), 0.0);
    unsigned int n = l.mesh.xyToIndex[15][0]; CHECK(l.mesh.nodes[n].isMine, "set-up");
    l.gradient[n] = 1; l.velocity[n] = -6; 
    l.signedDistance[n] = -5.5; 
    bool r = l.update(1.2);  // -5.5 + 7.2 = 1.7 must be cut off at zero, which is within one unit of a mine
    CHECK(r, "update() returned false"); CHECK(l.signedDistance[n] <= 0, "edge node ended at %g", l.signedDistance[n]);''')
seed('C08-remask', 'C08', ('src/LevelSet.cpp', '''                // Point is inside the polygon.
                if (isInsidePolygon(mesh.nodes[i].coord, points))
                {
                    signedDistance[i] = -1e-6;
                    mesh.nodes[i].isMasked = true;
                }''', '''                // Point is inside the polygon.
                mesh.nodes[i].isMasked = isInsidePolygon(mesh.nodes[i].coord, points);
                if (mesh.nodes[i].isMasked) signedDistance[i] = -1e-6;'''),
 'two calls of mask, the second with a polygon',
 'masking with a polygon forgets the nodes masked earlier',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(15, 15, 5));
    slsm::LevelSet l(30, 30, h, 0.5, 6, false);
    Holes m; m.push_back(slsm::Hole(5, 5, 2)); l.mask(m);
    Poly p; p.push_back(slsm::Coord(20.5, 20.5)); p.push_back(slsm::Coord(25.5, 20.5)); p.push_back(slsm::Coord(23, 26)); p.push_back(slsm::Coord(20.5, 20.5)); l.mask(p);
    CHECK(l.mesh.nodes[l.mesh.xyToIndex[5][5]].isMasked, "(5,5) lost its mask"); CHECK(l.mesh.nodes[l.mesh.xyToIndex[23][22]].isMasked, "(23,22) is not masked");''')
seed('C08-rect-corner', 'C08', ('src/LevelSet.cpp', '''                if (mesh.nodes[i].coord.x > points[0].x &&
                    mesh.nodes[i].coord.y > points[0].y &&''', '''                if (mesh.nodes[i].coord.x > points[0].x &&
                    mesh.nodes[i].coord.y > std::min(points[0].y, points[0].x) &&'''),
 'a rectangle whose lower-left corner has a larger y than x',
 'nodes below the rectangle are masked too',
 LSPRE + '''    Holes h; h.push_back(slsm::Hole(15, 15, 5));
    slsm::LevelSet l(30, 30, h, 0.5, 6, false);
    Poly p; p.push_back(slsm::Coord(2.5, 20.5)); p.push_back(slsm::Coord(6.5, 24.5)); l.mask(p);
    CHECK(l.mesh.nodes[l.mesh.xyToIndex[4][22]].isMasked, "(4,22) not masked"); CHECK(!l.mesh.nodes[l.mesh.xyToIndex[4][10]].isMasked, "(4,10) masked");''')
seed('C17-restore-drift', 'C17', ('src/Sensitivity.cpp', '        point.coord = coord;', '        point.coord.x += delta*point.normal.x;\n        point.coord.y += delta*point.normal.y;'),
 'a point whose coordinates do not survive adding and subtracting the displacement in floating point',
 'the point drifts by rounding errors instead of being restored exactly',
 '''    slsm::Sensitivity s(1e-4);
    for (int i=0;i<200000;i++) { slsm::BoundaryPoint p; p.coord.x = 0.1 + 0.0007123*i; p.coord.y = 0.000333*i + 0.01; p.normal.x = cos(i); p.normal.y = sin(i); p.length = 1; p.nNeighbours = 0;
      slsm::Coord c = p.coord; slsm::SensitivityCallback f = [](const slsm::BoundaryPoint& q) { return q.coord.x; };
      s.computeSensitivity(p, f); CHECK(p.coord.x == c.x && p.coord.y == c.y, "point %d moved", i); }''')
seed('C17-short', 'C17', ('src/Sensitivity.cpp', '        sens /= point.length;', '        if (point.length > 10*delta) sens /= point.length;'),
 'a boundary point whose length is small compared to the displacement',
 'the sensitivity of very short boundary points is not divided by the length',
 '''    slsm::Sensitivity s(1e-2); slsm::BoundaryPoint p; p.coord.x = 2; p.coord.y = 3; p.normal.x = 1; p.normal.y = 0; p.length = 0.05; p.nNeighbours = 0;
    slsm::SensitivityCallback f = [](const slsm::BoundaryPoint& q) { return q.coord.x; };
    double d = s.computeSensitivity(p, f); CHECK(std::abs(d - 20) < 1e-6, "got %g, expected 20", d);''')
seed('C18-skip-domain', 'C18', ('src/Sensitivity.cpp', '''            // Compute the local boundary point curvature.
''', '''            // Points on the domain edge only move along it.
            if (boundary.points[i].isDomain && boundary.points[i].nNeighbours < 2) continue;

            // Compute the local boundary point curvature.
'''),
 'a boundary with an open end: a domain point with a single neighbour',
 'the objective sensitivity of open-ended domain points is not corrected',
 '''    slsm::Boundary b; b.points.resize(2); b.nPoints = 2; slsm::Sensitivity s;
    for (int i=0;i<2;i++) { slsm::BoundaryPoint& p = b.points[i]; p.coord.x = i; p.coord.y = 0; p.normal.x = 1; p.normal.y = 0; p.length = 1; p.nNeighbours = 1; p.neighbours[0] = 1 - i; p.isDomain = i == 0; p.sensitivities[0] = 1; }
    // the perimeter of point 0 is 1 - d when displaced by d: curvature -1, corrected sensitivity 1 + T/2
    s.itoCorrection(b, 0.5);
    CHECK(std::abs(b.points[0].sensitivities[0] - 1.25) < 1e-6, "point 0: %g, expected 1.25", b.points[0].sensitivities[0]);
    CHECK(std::abs(b.points[1].sensitivities[0] - 0.75) < 1e-6, "point 1: %g, expected 0.75", b.points[1].sensitivities[0]);''')
seed('C18-neighbour-double', 'C18', ('src/Boundary.cpp', '''            length += sqrt(dx*dx + dy*dy);
        }

        return length;
    }''', '''            double d = sqrt(dx*dx + dy*dy);
            length += std::max(d, 1e-3);
        }

        return length;
    }'''),
 'a boundary point within 1e-3 of a neighbouring one',
 'the perimeter of nearly coincident neighbours is clamped, so their curvature is lost',
 LSPRE + '''    slsm::Boundary b; slsm::BoundaryPoint p, q; p.coord.x = 1; p.coord.y = 1; q.coord.x = 1.0005; q.coord.y = 1; p.nNeighbours = 1; p.neighbours[0] = 1; q.nNeighbours = 0;
    b.points.push_back(p); b.points.push_back(q); b.nPoints = 2;
    double d = b.computePerimeter(b.points[0]); CHECK(std::abs(d - 0.0005) < 1e-9, "perimeter %g", d);''')

BDPRE = LSPRE + '''    // a wide level set whose nodes are all looked at
    std::vector<slsm::Hole> hs(1, slsm::Hole(1, 1, 0.1));
'''
seed('C12-status-negative', 'C12', ('src/Boundary.cpp', 'if (std::abs((*signedDistance)[i]) < 1e-6)', 'if ((*signedDistance)[i] >= 0 && (*signedDistance)[i] < 1e-6)'),
 'a node whose level set value is negative but within 1e-6 of zero (what rounding leaves on a contour through a node)',
 'the node is classed as outside, so boundary points are put on its edges instead of on the node',
 BDPRE + '''    slsm::LevelSet l(4, 4, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<25;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = double(n % 5) - 2; if (n % 5 == 2 && n / 5 % 2) l.signedDistance[n] = -3e-7; }
    b.discretise(l);
    for (unsigned n=0;n<25;n++) if (n % 5 == 2) CHECK(l.mesh.nodes[n].status == slsm::NodeStatus::BOUNDARY, "status of node %u is %d", n, (int) l.mesh.nodes[n].status);''')
seed('C12-last-listed', 'C12', ('src/Boundary.cpp', 'for (unsigned int i=0;i<mesh.nodes[node].nBoundaryPoints;i++)', 'for (unsigned int i=0;i<std::min(2u, mesh.nodes[node].nBoundaryPoints);i++)'),
 'a node whose four edges are all cut (an isolated inside or outside node)',
 'the third point of the node is not recognised when the next element looks for it, so a point coincides with another',
 BDPRE + '''    slsm::LevelSet l(4, 4, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<25;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = n == 12 ? -0.4 : 0.6; }
    b.discretise(l);
    for (unsigned i=0;i<b.nPoints;i++) for (unsigned j=0;j<i;j++)
        CHECK(fabs(b.points[i].coord.x - b.points[j].coord.x) > 1e-9 || fabs(b.points[i].coord.y - b.points[j].coord.y) > 1e-9, "points %u and %u coincide", i, j);''')
seed('C13-merge-wide', 'C13', ('src/Boundary.cpp', """            if ((std::abs(point.x - points[index].coord.x) < 1e-6) &&
                (std::abs(point.y - points[index].coord.y) < 1e-6))""", """            if ((std::abs(point.x - points[index].coord.x) < 1e-3) &&
                (std::abs(point.y - points[index].coord.y) < 1e-3))"""),
 'a contour crossing two edges of a node less than a thousandth of a cell away from it',
 'the second crossing is taken for the first: the segment between them joins a point to itself',
 BDPRE + '''    slsm::LevelSet l(4, 4, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<25;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = n == 12 ? -2e-4 : 0.7; }
    b.discretise(l);
    CHECK(b.nPoints == 4, "%u boundary points", b.nPoints);
    for (unsigned i=0;i<b.nSegments;i++) CHECK(b.segments[i].start != b.segments[i].end, "segment %u joins point %u to itself", i, b.segments[i].start);''')
seed('C13-swap-neighbour', 'C13', ('src/Boundary.cpp', 'points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = segments[i].start;', 'points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = (i > 0 && segments[i-1].element == segments[i].element) ? segments[i-1].start : segments[i].start;'),
 'an element with two boundary segments (all four edges cut)',
 'the end point of the second segment lists a point of the first segment as its neighbour',
 BDPRE + '''    slsm::LevelSet l(4, 4, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<25;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = (n == 6 || n == 12) ? -0.4 : 0.6; }
    b.discretise(l);
    for (unsigned i=0;i<b.nPoints;i++) for (unsigned k=0;k<b.points[i].nSegments;k++) {
        slsm::BoundarySegment& s = b.segments[b.points[i].segments[k]];
        CHECK(b.points[i].neighbours[k] == (s.start == i ? s.end : s.start), "neighbour %u of point %u", k, i); }''')
seed('C13-saddle-length', 'C13', ('src/Boundary.cpp', '''                        segment.start = boundaryPoints[1];
                        segment.end = boundaryPoints[2];
                        segment.element = i;

                        // Compute the length of the boundary segment.
                        segment.length = segmentLength(segment);
''', '''                        segment.start = boundaryPoints[1];
                        segment.end = boundaryPoints[2];
                        segment.element = i;
'''),
 'a saddle element (four cut edges) whose centre is on the other side than its first node, with different segment lengths',
 'the second segment carries the length of the first one',
 BDPRE + '''    for (int t = 0; t < 2; t++) {
    slsm::LevelSet l(1, 1, hs, 0.5, 6, false); slsm::Boundary b;
    double v[4] = {0.3, -1, -1, 0.8};
    for (unsigned n=0;n<4;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = t ? -v[n] : v[n]; }
    b.discretise(l);
    for (unsigned i=0;i<b.nSegments;i++) { slsm::Coord p = b.points[b.segments[i].start].coord, q = b.points[b.segments[i].end].coord;
        CHECK(fabs(b.segments[i].length - hypot(p.x-q.x, p.y-q.y)) < 1e-9, "length of segment %u", i); } }''')
seed('C13-total-node', 'C13', ('src/Boundary.cpp', '''                                // Compute the length of the boundary segment.
                                segment.length = segmentLength(segment);

                                // Update total boundary length.
                                length += segment.length;
''', '''                                // Compute the length of the boundary segment.
                                segment.length = segmentLength(segment);

                                // Update total boundary length.
                                if (index + 1 == (int)nPoints || j < 3) length += segment.length;
'''),
 'an element with one cut edge whose boundary node is its last corner and already has a boundary point that is not the newest',
 'the segment is missing from the total boundary length',
 BDPRE + '''    srand(3);
    for (int t = 0; t < 300; t++) {
    slsm::LevelSet l(5, 5, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<36;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = rand() % 3 - 1.0; }
    b.discretise(l);
    double s = 0; for (unsigned i=0;i<b.nSegments;i++) s += b.segments[i].length;
    CHECK(fabs(s - b.length) < 1e-9, "total %g, segments sum to %g", b.length, s); }''')
seed('C16-fixed-closest', 'C16', ('src/Boundary.cpp', '''                // Update negative move limit.
                if (-d > point.negativeLimit) point.negativeLimit = -d;''', '''                // Update negative move limit.
                if (minBoundary >= levelSet.moveLimit && -d > point.negativeLimit) point.negativeLimit = -d;'''),
 'a boundary point close to a masked node and at the same time closer to the domain edge than the move limit',
 'the negative limit is the distance to the edge although the masked node is closer',
 BDPRE + '''    slsm::LevelSet l(4, 4, hs, 0.9, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<25;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = n / 5 == 0 ? -0.8 : 0.2; }
    for (unsigned n=5;n<10;n++) l.mesh.nodes[n].isMasked = true;
    b.discretise(l);
    for (unsigned i=0;i<b.nPoints;i++) if (b.points[i].coord.x > 0.5 && b.points[i].coord.x < 3.5) CHECK(fabs(b.points[i].negativeLimit + 0.2) < 1e-9, "negative limit %g", b.points[i].negativeLimit);''')
seed('C16-wide-domain', 'C16', ('src/Boundary.cpp', 'double minY = std::min(coord.y, levelSet.mesh.height - coord.y);', 'double minY = std::min(coord.y, std::max(levelSet.mesh.height, levelSet.mesh.width) - coord.y);'),
 'a mesh wider than high and a boundary point near its top edge',
 'a point at (near) the top edge may move out of the domain and is not flagged as domain point',
 BDPRE + '''    slsm::LevelSet l(6, 3, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<28;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = n % 7 - 2.5; }
    b.discretise(l);
    for (unsigned i=0;i<b.nPoints;i++) { double e = std::min(b.points[i].coord.y, 3 - b.points[i].coord.y);
        CHECK(b.points[i].isDomain == (e < 1e-6) && fabs(b.points[i].negativeLimit + std::min(0.5, e)) < 1e-9, "point %u at y=%g: limit %g", i, b.points[i].coord.y, b.points[i].negativeLimit); }''')
seed('C16-fixed-active', 'C16', ('src/Boundary.cpp', '''            if ((std::abs(dx) < 1e-6) && (std::abs(dy) < 1e-6))
                point.isFixed = true;''', '''            if (((std::abs(dx) < 1e-6) && (std::abs(dy) < 1e-6)) || (point.isDomain && (dx*dy == 0) && (std::abs(dx + dy) < 0.1)))
                point.isFixed = true;'''),
 'a boundary point on the domain edge, less than 0.1 from a masked edge node but not on it',
 'the point is flagged fixed although it does not coincide with the masked node',
 BDPRE + '''    slsm::LevelSet l(4, 4, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<25;n++) { l.mesh.nodes[n].isActive = true; l.signedDistance[n] = n % 5 < 2 ? -0.05 : 0.95; }
    for (unsigned n=1;n<25;n+=5) l.mesh.nodes[n].isMasked = true;
    b.discretise(l);
    for (unsigned i=0;i<b.nPoints;i++) CHECK(!b.points[i].isFixed, "point %u is fixed", i);''')

seed('C15-right-column', 'C15', ('src/Boundary.cpp', 'else if (x == levelSet.mesh.width)', 'else if (x + 1 >= levelSet.mesh.width)'),
 'a boundary point next to the last column of nodes inside the domain, in a field curved in x',
 'the normal is made from one-sided differences of an interior node and leans off',
 BDPRE + '''    slsm::LevelSet l(6, 6, hs, 0.5, 6, false); slsm::Boundary b;
    std::vector<double> S(49);
    for (unsigned n=0;n<49;n++) { double x = n % 7, y = n / 7; S[n] = y - 2.5 + 0.05*(x - 4)*(x - 4); l.signedDistance[n] = S[n]; l.narrowBand[n] = n; }
    l.nNarrowBand = 49;
    for (unsigned n=0;n<49;n++) l.mesh.nodes[n].isActive = true;
    b.discretise(l); b.computeNormalVectors(l);
    bool seen = false;
    for (unsigned i=0;i<b.nPoints;i++) if (b.points[i].coord.x == 5) { seen = true;
        double g = 0.05*(4 - 1 + 1 - 0)/2, nx = 0.05*(2*2 - 0)/2, h = sqrt(1 + nx*nx); (void) g;
        CHECK(fabs(b.points[i].normal.x - nx/h) < 1e-9 && fabs(b.points[i].normal.y - 1/h) < 1e-9, "normal (%g, %g), expected (%g, %g)", b.points[i].normal.x, b.points[i].normal.y, nx/h, 1/h); }
    CHECK(seen, "no point there");''')
seed('C15-nearly-on-node', 'C15', ('src/Boundary.cpp', 'isSet[point] = true;', 'isSet[point] = (dx == dy);'),
 'a boundary point on an edge, less than a thousandth of a cell from a node that comes first in the narrow band, and a turning gradient',
 'the other end of the edge is averaged in with a weight that no longer matches that of the node',
 BDPRE + '''    slsm::LevelSet l(4, 4, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<25;n++) { double x = n % 5, y = n / 5; l.signedDistance[n] = x < 2 ? x - 2 : (x - 2)*(1 + y) + (x == 2 ? 1e-4*(1 + y) : 0); l.narrowBand[n] = n; l.mesh.nodes[n].isActive = true; }
    l.nNarrowBand = 25;
    // the contour lies just left of the nodes at x = 2; list those nodes first
    for (unsigned y=0;y<5;y++) std::swap(l.narrowBand[y], l.narrowBand[y*5 + 2]);
    b.discretise(l); b.computeNormalVectors(l);
    bool seen = false;
    for (unsigned i=0;i<b.nPoints;i++) if (b.points[i].coord.y == 2 && fabs(b.points[i].coord.x - 2) < 1e-3) { seen = true;
        unsigned n = 12; double gx = 0.5*(l.signedDistance[n+1] - l.signedDistance[n-1]), gy = 0.5*(l.signedDistance[n+5] - l.signedDistance[n-5]), g = sqrt(gx*gx + gy*gy);
        CHECK(fabs(b.points[i].normal.x - gx/g) < 1e-9 && fabs(b.points[i].normal.y - gy/g) < 1e-9, "normal (%.9g, %.9g), expected that of the node, (%.9g, %.9g)", b.points[i].normal.x, b.points[i].normal.y, gx/g, gy/g); }
    CHECK(seen, "no point there");''')
seed('C15-top-row', 'C15', ('src/Boundary.cpp', '''                    gradY = levelSet.signedDistance[levelSet.mesh.xyToIndex[x][y]]
                          - levelSet.signedDistance[levelSet.mesh.xyToIndex[x][y-1]];''', '''                    gradY = 0.5*(levelSet.signedDistance[levelSet.mesh.xyToIndex[x][y]]
                          - levelSet.signedDistance[levelSet.mesh.xyToIndex[x][y-1]]);'''),
 'a slanted contour meeting an edge that ends on the top row of the mesh',
 'the normal next to the top of the domain is half as steep as it should be',
 BDPRE + '''    slsm::LevelSet l(5, 5, hs, 0.5, 6, false); slsm::Boundary b;
    for (unsigned n=0;n<36;n++) { double x = n % 6, y = n / 6; l.signedDistance[n] = x + 1.5*y - 8.6; l.narrowBand[n] = n; l.mesh.nodes[n].isActive = true; }
    l.nNarrowBand = 36;
    b.discretise(l); b.computeNormalVectors(l);
    for (unsigned i=0;i<b.nPoints;i++) if (!b.points[i].isDomain) CHECK(fabs(b.points[i].normal.x - 1/sqrt(3.25)) < 1e-9 && fabs(b.points[i].normal.y - 1.5/sqrt(3.25)) < 1e-9, "point (%g, %g): normal (%g, %g)", b.points[i].coord.x, b.points[i].coord.y, b.points[i].normal.x, b.points[i].normal.y);''')

MTH = 'src/MersenneTwister.h'
seed('C20-seed-read-back', 'C20', (MTH, """        unsigned int getSeed()
        {
            return seed;""", """        unsigned int getSeed()
        {
            if (seed == 0) seed = generator();
            return seed;"""),
 'the seed zero',
 'getSeed reports another seed than the one in use and moves the generator on',
 '''    slsm::MersenneTwister a, b; a.setSeed(0); b.setSeed(0);
    CHECK(a.getSeed() == 0, "the seed is %u", a.getSeed());
    CHECK(a.normal() == b.normal(), "the streams differ");''', optimise=False)
seed('C20-integer-remainder', 'C20', (MTH, 'return std::uniform_int_distribution<int>{min, max}(generator);', 'return min + int(default_uniform_real_distribution(generator) * (max - min + 1));'),
 'a range so wide that its size does not fit an int',
 'integers outside the requested range',
 '''    slsm::MersenneTwister a; a.setSeed(5);
    for (int i=0;i<100;i++) { int k = a.integer(-2000000000, 2000000000); CHECK(k >= -2000000000 && k <= 2000000000, "drawn %d", k); }
    int lo = 0, hi = 0; for (int i=0;i<100;i++) { int k = a.integer(-2000000000, 2000000000); if (k < -100000000) lo++; if (k > 100000000) hi++; }
    CHECK(lo > 10 && hi > 10, "%d low, %d high", lo, hi);''', optimise=False)
seed('C20-seed-same', 'C20', (MTH, """            seed = seed_;
            generator.seed(seed);""", """            // Nothing to do when the generator already uses this seed.
            if (seed == seed_) return;

            seed = seed_;
            generator.seed(seed);"""),
 'setting the seed a second time to the value already in use, after drawing',
 'the stream is not restarted',
 '''    slsm::MersenneTwister a; a.setSeed(5); double x = a(); a(); a.setSeed(5); double y = a();
    CHECK(x == y, "first draw %g, then %g", x, y);''', optimise=False)
NZ = """    slsm::LevelSet l(20, 20, Holes(1, slsm::Hole(10, 10, 5)), 0.5, 6, false); l.reinitialise(); slsm::Boundary b; b.discretise(l);
    for (unsigned i=0;i<b.nPoints;i++) b.points[i].velocity = 0.1;
"""
NZDEMO = LSPRE + NZ + """    slsm::MersenneTwister g, t; g.setSeed(3); t.setSeed(3); double dt = STEP, T = 0.3, lim = 0.25/(8*T);
    b.points[3].length = 0.01;
    std::vector<slsm::BoundaryPoint> p = b.points; double s = l.computeVelocities(p, dt, T, g);
    CHECK(fabs(s*dt - STEP) < 1e-9, "scale %g", s);
    CHECK(fabs(dt - (STEP > lim ? lim : STEP)) < 1e-9, "time step %g", dt);
    for (unsigned i=0;i<p.size();i++) { double w = 0.1 + sqrt(2*T/dt)/sqrt(p[i].length)*t.normal(0, 1); CHECK(fabs(p[i].velocity - w) < 1e-9, "velocity %u is %g, not %g", i, p[i].velocity, w); }"""
seed('C22-short-points', 'C22', ('src/LevelSet.cpp', 'boundaryPoints[i].velocity += (noise / sqrt(boundaryPoints[i].length)) * rng.normal(0, 1);', 'boundaryPoints[i].velocity += (noise / sqrt(std::max(boundaryPoints[i].length, 0.05))) * rng.normal(0, 1);'),
 'a boundary point whose length is below 0.05',
 'its noise has the amplitude of a longer point', NZDEMO.replace('STEP', '0.05'), optimise=False)
seed('C22-cfl-square', 'C22', ('src/LevelSet.cpp', 'if ((sqrt2T * sqrt(timeStep)) > (0.5 * moveLimit))', 'if ((temperature * timeStep) > (0.25 * moveLimit * moveLimit))'),
 'a time step between one and two times the largest one allowed',
 'the time step is not shortened although the noise exceeds half the move limit', NZDEMO.replace('STEP', '0.15'), optimise=False)

G3 = """    std::vector<slsm::Hole> hs(1, slsm::Hole(1, 1, 0.1)); slsm::LevelSet l(8, 8, hs, 0.5, 60, false);
"""
seed('C10-near-right', 'C10', ('src/LevelSet.cpp', """                v2 = signedDistance[mesh.xyToIndex[x+2][y]] - signedDistance[mesh.xyToIndex[x+1][y]];

                // Approximate derivatives outside of domain.
                v1 = v2;""", """                v2 = signedDistance[mesh.xyToIndex[x+2][y]] - signedDistance[mesh.xyToIndex[x+1][y]];

                // Approximate derivatives outside of domain.
                v1 = v3;"""),
 'a curved field moving left two nodes from the right edge',
 'the difference standing in for the one outside the domain is not the nearest one',
 LSPRE + G3 + """    for (unsigned n=0;n<81;n++) { double x = n % 9; l.signedDistance[n] = -x*x*x/20 - x; l.velocity[n] = 1; }
    // the same field mirrored in x is differentiated at the mirrored node
    slsm::LevelSet m(8, 8, hs, 0.5, 60, false); for (unsigned n=0;n<81;n++) { m.signedDistance[n] = l.signedDistance[(n/9)*9 + 8 - n%9]; m.velocity[n] = 1; }
    l.computeGradients(); m.computeGradients();
    for (unsigned n=0;n<81;n++) CHECK(fabs(l.gradient[n] - m.gradient[(n/9)*9 + 8 - n%9]) < 1e-9, "gradient of node %u is %.9g, of its mirror image %.9g", n, l.gradient[n], m.gradient[(n/9)*9 + 8 - n%9]);""")
seed('C10-one-sided', 'C10', ('src/LevelSet.cpp', """            if (gradLeft > 0)   grad += gradLeft * gradLeft;
            if (gradUp < 0)     grad += gradUp * gradUp;
            if (gradRight < 0)  grad += gradRight * gradRight;""", """            if (gradLeft > 0)   grad += gradLeft * gradLeft;
            else if (gradRight < 0) grad += gradRight * gradRight;
            if (gradUp < 0)     grad += gradUp * gradUp;"""),
 'a node on a ridge of the field (both one-sided derivatives point upwind)',
 'only one of the two is counted',
 LSPRE + G3 + """    for (unsigned n=0;n<81;n++) { l.signedDistance[n] = -fabs(double(n % 9) - 4); l.velocity[n] = 1; }
    l.computeGradients();
    slsm::LevelSet m(8, 8, hs, 0.5, 60, false); for (unsigned n=0;n<81;n++) { m.signedDistance[n] = l.signedDistance[(n%9)*9 + n/9]; m.velocity[n] = 1; }
    m.computeGradients();
    for (unsigned n=0;n<81;n++) CHECK(fabs(l.gradient[n] - m.gradient[(n%9)*9 + n/9]) < 1e-9, "gradient of node %u is %.9g, of its transpose %.9g", n, l.gradient[n], m.gradient[(n%9)*9 + n/9]);""")
seed('C10-stale', 'C10', ('src/LevelSet.cpp', 'std::fill(gradient.begin(), gradient.end(), 0.0);', 'for (unsigned int i=0;i<mesh.nNodes;i++) if (!mesh.nodes[i].isActive && velocity[i] != 0) gradient[i] = 0.0;'),
 'a node that left the narrow band between two gradient computations and has zero velocity',
 'its old gradient is kept',
 LSPRE + """    slsm::LevelSet l(20, 20, Holes(1, slsm::Hole(10, 10, 4)), 0.5, 3, false); l.reinitialise();
    for (unsigned n=0;n<l.mesh.nNodes;n++) l.velocity[n] = 0;
    l.computeGradients();
    for (unsigned n=0;n<l.mesh.nNodes;n++) l.signedDistance[n] = hypot(n%21 - 10.0, n/21 - 10.0) - 8;
    l.reinitialise(); l.computeGradients();
    for (unsigned n=0;n<l.mesh.nNodes;n++) CHECK(l.mesh.nodes[n].isActive || l.gradient[n] == 0, "node %u is outside the band, its gradient is %g", n, l.gradient[n]);""")

# ---- C11
C11REF = r'''#include <vector>
#include <cmath>
#include <algorithm>
struct Ref {
    int W, H, N; std::vector<double> o, v; std::vector<int> st; bool delicate; int ntied;
    int nb(int n, int j) const { int x = n % (W+1), y = n / (W+1); if (j == 0) return x > 0 ? n-1 : -1; if (j == 1) return x < W ? n+1 : -1; if (j == 2) return y > 0 ? n-W-1 : -1; return y < H ? n+W+1 : -1; }
    void close(double a, double b) { if (std::fabs(a - b) < 1e-8) delicate = true; }
    Ref(unsigned W_, unsigned H_, const std::vector<double>& s) : W(W_), H(H_), N((W_+1)*(H_+1)), o(s), v(s), st(N, 0), delicate(false), ntied(0) {}
    bool opp(int a, int b) const { return (o[a] < 0 && o[b] > 0) || (o[a] > 0 && o[b] < 0); }
    int freeze() {
        int c = 0;
        for (int n = 0; n < N; n++) {
            if (o[n] == 0) { st[n] = 2; c++; continue; }
            double s = 0; bool border = false;
            for (int d = 0; d < 2; d++) {
                double best = 2;
                for (int j = 2*d; j < 2*d+2; j++) { int m = nb(n, j); if (m >= 0 && opp(n, m)) { border = true; best = std::min(best, o[n]/(o[n]-o[m])); } }
                if (best < 2) s += 1/(best*best);
            }
            if (border) { st[n] = 2; c++; v[n] = std::copysign(std::sqrt(1/s), o[n]); }
        }
        return c;
    }
    double update(int n) {
        double a = 0, b = 0, c = -1;
        for (int d = 0; d < 2; d++) {
            int pick = -1, dir = 0;
            for (int j = 2*d; j < 2*d+2; j++) {
                int m = nb(n, j);
                if (m < 0 || st[m] != 2) continue;
                if (pick >= 0) close(std::fabs(v[m]), std::fabs(v[pick]));
                if (pick < 0 || std::fabs(v[m]) < std::fabs(v[pick])) { pick = m; dir = j; }
            }
            if (pick < 0) continue;
            int q = nb(pick, dir);
            if (q >= 0 && st[q] == 2 && v[q] != v[pick]) close(std::fabs(v[q]), std::fabs(v[pick]));
            if (q >= 0 && st[q] == 2 && std::fabs(v[q]) <= std::fabs(v[pick])) { double t = (4*v[pick] - v[q])/3; a += 2.25; b -= 4.5*t; c += 2.25*t*t; }
            else { double t = v[pick]; a += 1; b -= 2*t; c += t*t; }
        }
        double D = b*b - 4*a*c;
        if (a > 0) close(D, 0);
        if (!(D > 0)) return v[n];
        return o[n] > 0 ? (-b + std::sqrt(D))/(2*a) : (-b - std::sqrt(D))/(2*a);
    }
    void run() {
        for (int n = 0; n < N; n++) if (st[n] == 0) { bool t = false; for (int j = 0; j < 4; j++) { int m = nb(n, j); if (m >= 0 && st[m] == 2) t = true; } if (t) { v[n] = update(n); st[n] = 1; } }
        for (;;) {
            int best = -1;
            for (int n = 0; n < N; n++) if (st[n] == 1 && (best < 0 || std::fabs(v[n]) < std::fabs(v[best]))) best = n;
            if (best < 0) break;
            double val = std::fabs(v[best]); std::vector<int> q;
            for (int n = 0; n < N; n++) if (st[n] == 1) { if (std::fabs(v[n]) == val) q.push_back(n); else close(std::fabs(v[n]), val); }
            if (q.size() > 1) { ntied++; delicate = true; }   // which of two equal values comes first is not specified
            for (int n : q) st[n] = 2;
            for (int n : q) for (int j = 0; j < 4; j++) {
                int m = nb(n, j);
                if (m < 0 || st[m] == 2) continue;
                v[m] = update(m); st[m] = 1;
                int p = nb(m, j);
                if (p >= 0 && st[p] == 1) v[p] = update(p);
            }
        }
    }
};
'''
seed('C11-thin-feature', 'C11', ('src/FastMarchingMethod.cpp', 'if (dist[dim] == 0 || dist[dim] > d)', 'if (dist[dim] == 0 || j % 2)'),
 'a feature one cell thick: a node with the zero contour on both sides in the same direction, the first crossing being the nearer one',
 'the distance of the node is measured to the farther crossing',
 """    slsm::Mesh m(6, 3); std::vector<double> s(28);
    for (unsigned n=0;n<28;n++) s[n] = fabs(double(n % 7) - 3.1) - 0.4;
    slsm::FastMarchingMethod f(m, false); f.march(s);
    for (unsigned n=0;n<28;n++) if (n % 7 == 3) CHECK(s[n] > -0.34, "node %u is %.9g", n, s[n]);
    std::vector<double> t(28); for (unsigned n=0;n<28;n++) t[n] = fabs(double(n % 7) - 2.9) - 0.4;
    slsm::FastMarchingMethod g(m, false); g.march(t);
    for (unsigned n=0;n<28;n++) CHECK(fabs(s[n] - t[(n/7)*7 + 6 - n%7]) < 1e-9, "node %u is %.9g, its mirror image %.9g", n, s[n], t[(n/7)*7 + 6 - n%7]);""")
seed('C11-next-to-zero', 'C11', ('src/FastMarchingMethod.cpp', 'if ((signedDistanceCopy[i] * signedDistanceCopy[neighbour]) < 0)', 'if ((signedDistanceCopy[i] < 0) != (signedDistanceCopy[neighbour] < 0))'),
 'a level set with nodes exactly on the zero contour',
 'a negative node next to a zero node counts as cut by the contour: it is frozen although no neighbour has the opposite sign',
 """    // a contour two nodes wide: the two sides mirror each other
    slsm::Mesh m(9, 6); std::vector<double> s(70);
    for (unsigned n=0;n<70;n++) { double x = n % 10; s[n] = x < 4 ? 2*(x - 4) : x > 5 ? 2*(x - 5) : 0; }
    slsm::FastMarchingMethod f(m, false); f.march(s);
    for (unsigned n=0;n<70;n++) { unsigned k = (n/10)*10 + 9 - n%10; CHECK(fabs(s[n] + s[k]) < 1e-9, "node %u is %.9g, the opposite one %.9g", n, s[n], s[k]); }""")
seed('C11-only-decrease', 'C11', ('src/FastMarchingMethod.cpp', """                            // Calculate and store udpdated distance estimate.
                            double d = updateNode(naddr);
                            (*signedDistance)[naddr] = d;

                            // Neighbour is in trial band.
                            if (nodeStatus[naddr] & FMM_NodeStatus::TRIAL)
                            {
                                // Update value in heap.
                                heap->set(heapPtr[naddr], std::abs(d));
                            }""", """                            // Calculate and store udpdated distance estimate.
                            double d = updateNode(naddr);

                            // Estimates only ever get smaller.
                            if ((nodeStatus[naddr] & FMM_NodeStatus::TRIAL) && std::abs(d) > std::abs((*signedDistance)[naddr]))
                                d = (*signedDistance)[naddr];
                            (*signedDistance)[naddr] = d;

                            // Neighbour is in trial band.
                            if (nodeStatus[naddr] & FMM_NodeStatus::TRIAL)
                            {
                                // Update value in heap.
                                heap->set(heapPtr[naddr], std::abs(d));
                            }"""),
 'a trial node whose second order estimate, once a second neighbour in line is accepted, is larger than its first one',
 'the tentative value is no longer the upwind solution from the accepted neighbours',
 """    int compared = 0;
    for (int k=0;k<40;k++) {
        slsm::Mesh m(13, 11); std::vector<double> s(168);
        for (unsigned n=0;n<168;n++) { double x = n % 14, y = n / 14; s[n] = sin(0.7*x + 0.157*k)*cos(0.9*y - 0.311*k) + 0.012*k; }
        Ref q(13, 11, s); q.freeze(); q.run(); if (q.delicate) continue;
        slsm::FastMarchingMethod f(m, false); f.march(s); compared++;
        for (unsigned n=0;n<168;n++) CHECK(fabs(s[n] - q.v[n]) < 1e-7, "field %d node %u: %.17g, fast marching gives %.17g", k, n, s[n], q.v[n]);
    }
    CHECK(compared > 5, "only %d fields compared", compared);""", top=C11REF)
seed('C09-unit-distance', 'C09', ('src/LevelSet.cpp', 'else if (rSqd <= 1.0)', 'else if (rSqd < 1.0)'),
 'a boundary point on a grid line crossing, so that the neighbours of its node are at exactly unit distance',
 'those neighbours are left without the velocity of the point',
 LSPRE + """    slsm::LevelSet l(20, 20, Holes(1, slsm::Hole(10, 10, 4)), 0.5, 6, false); l.reinitialise();
    std::vector<slsm::BoundaryPoint> b(1); b[0].coord.x = 10; b[0].coord.y = 14; b[0].velocity = 3;
    l.computeVelocities(b);
    CHECK(fabs(l.velocity[14*21 + 10] - 3) < 1e-12, "the node itself has %g", l.velocity[14*21 + 10]);
    // the neighbours lie at the contour as well (or next to it): they are mapped, not extended
    slsm::LevelSet m(20, 20, Holes(1, slsm::Hole(10, 10, 4)), 0.5, 6, false);
    for (unsigned n=0;n<441;n++) m.signedDistance[n] = n/21 + 0.3*(n%21) - 17.05;
    m.reinitialise(); b[0].coord.x = 10; b[0].coord.y = 14; m.computeVelocities(b);
    int k[5] = {14*21+10, 14*21+9, 14*21+11, 13*21+10, 15*21+10};
    for (int i=0;i<5;i++) { bool cut = false; int w[4] = {-1, 1, -21, 21}; for (int j=0;j<4;j++) if (m.signedDistance[k[i]]*m.signedDistance[k[i]+w[j]] < 0) cut = true;
        if (cut) CHECK(fabs(m.velocity[k[i]] - 3) < 1e-12, "node %d has velocity %g", k[i], m.velocity[k[i]]); }""")
seed('C09-coinciding', 'C09', ('src/LevelSet.cpp', """                        // Update velocity estimate if not already set.
                        if (!isSet[neighbour])
                        {
                            velocity[neighbour] += boundaryPoints[i].velocity / rSqd;
                            weight[neighbour] += 1.0 / rSqd;
                        }""", """                        // Update velocity estimate.
                        velocity[neighbour] += boundaryPoints[i].velocity / rSqd;
                        weight[neighbour] += 1.0 / rSqd;"""),
 'a boundary point coinciding with a node, followed in the list by a point within unit distance whose closest node is another one',
 'the node gets a mixture of the two velocities instead of that of the coinciding point',
 LSPRE + """    slsm::LevelSet l(20, 20, Holes(1, slsm::Hole(10, 10, 4)), 0.5, 6, false);
    for (unsigned n=0;n<441;n++) l.signedDistance[n] = n/21 - 14.0;
    l.reinitialise();
    std::vector<slsm::BoundaryPoint> b(2); b[0].coord.x = 10; b[0].coord.y = 14; b[0].velocity = 3; b[1].coord.x = 10.75; b[1].coord.y = 14; b[1].velocity = -5;
    l.computeVelocities(b);
    CHECK(fabs(l.velocity[14*21 + 10] - 3) < 1e-12, "the node of the coinciding point has velocity %g", l.velocity[14*21 + 10]);""")
seed('C09-left-over', 'C09', ('src/LevelSet.cpp', """            isSet[i] = false;
            weight[i] = 0;
            velocity[i] = 0;""", """            isSet[i] = false;
            weight[i] = 0;
            if (mesh.nodes[i].isActive) velocity[i] = 0;"""),
 'velocities computed a second time with a fixed domain (or a mask): nodes at the contour that are not in the narrow band',
 'the velocity of such a node from the time before enters the mean, and from there the extension',
 LSPRE + """    slsm::LevelSet l(20, 20, Holes(1, slsm::Hole(0, 10.3, 4.2)), 0.5, 6, true); l.reinitialise();
    for (unsigned n=0;n<441;n++) l.velocity[n] = 100;
    slsm::Boundary b; b.discretise(l);
    for (unsigned i=0;i<b.points.size();i++) b.points[i].velocity = 1;
    l.computeVelocities(b.points);
    for (unsigned n=0;n<441;n++) CHECK(!l.mesh.nodes[n].isActive || l.velocity[n] < 1 + 1e-9, "node %u has velocity %g, no point is faster than 1", n, l.velocity[n]);""")

# ---- C14
C14TOP = r'''#include <vector>
#include <cmath>
#include "Hole.h"
#include "Boundary.h"
#include "LevelSet.h"
static slsm::LevelSet field(unsigned w, unsigned h, double (*f)(double, double))
{
    std::vector<slsm::Hole> hs(1, slsm::Hole(1, 1, 0.1));
    slsm::LevelSet l(w, h, hs, 0.5, 20, false);
    for (unsigned n=0;n<l.mesh.nNodes;n++) l.signedDistance[n] = f(l.mesh.nodes[n].coord.x, l.mesh.nodes[n].coord.y);
    return l;
}
static double kink(double x, double y) { double u = x - 3, v = y - 3; return u + v < -0.5 ? 0.5 : (u < 0.5 && v < 0.5 ? 0.0 : (u > 0.5 && v > 0.5 ? -1.0 : 0.5)); }
static double checker(double x, double y) { return ((int(x) + int(y)) % 2) ? 0.5 : -0.5; }
static double corner(double x, double y) { return (x == 3 && y == 4) ? -0.02 : 0.6; }
'''
seed('C14-corner-before', 'C14', ('src/LevelSet.cpp', """                // Previous node.
                unsigned int n2 = (i == 0) ? 3 : (i - 1);
                n2 = element.nodes[n2];

                // Check that node isn't part""", """                // Previous node.
                unsigned int n2 = (i == 0) ? 2 : (i - 1);
                n2 = element.nodes[n2];

                // Check that node isn't part"""),
 'a cut cell whose lower left corner lies on the contour, between two corners inside, with the upper right corner outside',
 'the corner is left out of the polygon and the area fraction comes out a corner triangle short',
 """    slsm::LevelSet l = field(6, 6, kink); slsm::Boundary b; b.discretise(l); l.computeAreaFractions(b);
    // one corner of cell (3,3) is outside (-1), its neighbours are 0.5, the opposite corner is exactly on the contour
    double a = l.mesh.elements[3*6 + 3].area, e = 1 - 0.5*(2.0/3.0)*(2.0/3.0);
    CHECK(fabs(a - e) < 1e-9, "area fraction %g, the cut corner leaves %g", a, e);""", top=C14TOP)
seed('C14-saddle-zero', 'C14', ('src/Boundary.cpp', "levelSet.mesh.elements[i].status = (lsfSum > 0) ? ElementStatus::CENTRE_INSIDE", "levelSet.mesh.elements[i].status = (lsfSum >= 0) ? ElementStatus::CENTRE_INSIDE"),
 'a cell with four cut edges whose nodal values add up to exactly zero',
 'the segments are those of a centre outside, the status says inside: the polygon is put together from the wrong corners',
 """    slsm::LevelSet l = field(4, 4, checker); slsm::Boundary b; b.discretise(l); double t = l.computeAreaFractions(b);
    for (unsigned e=0;e<16;e++) CHECK(fabs(l.mesh.elements[e].area - 0.25) < 1e-9, "element %u has area fraction %g, its two inside corners cut off 1/8 each", e, l.mesh.elements[e].area);
    CHECK(fabs(t - 4) < 1e-9, "total %g", t);""", top=C14TOP)
seed('C14-short-segment', 'C14', ('src/LevelSet.cpp', """            unsigned int segment = element.boundarySegments[i];

            // Add start point""", """            unsigned int segment = element.boundarySegments[i];

            // A segment shorter than the tolerance doesn't contribute.
            if (boundary.segments[segment].length < 0.05) continue;

            // Add start point"""),
 'a contour that cuts off a small part of a cell next to one of its corners, outside',
 'the polygon becomes the triangle of the three other corners: the area fraction drops from nearly one to one half',
 """    slsm::LevelSet l = field(6, 6, corner); slsm::Boundary b; b.discretise(l); l.computeAreaFractions(b);
    double c = 0.02/0.62, e = 1 - 0.5*c*c; int k[4] = {3*6 + 2, 3*6 + 3, 4*6 + 2, 4*6 + 3};
    for (int i=0;i<4;i++) CHECK(fabs(l.mesh.elements[k[i]].area - e) < 1e-9, "element %d has area fraction %.12g, not %.12g", k[i], l.mesh.elements[k[i]].area, e);""", top=C14TOP)

# ---- C19
C19PRE = """    std::vector<slsm::Hole> hs(1, slsm::Hole(2.3, 2.6, 1.2)); slsm::LevelSet l(5, 4, hs, 0.5, 6, false); slsm::InputOutput io;
"""
seed('C19-gradient-alone', 'C19', ('src/InputOutput.cpp', """        if (isGradient)
        {""", """        if (isVelocity && isGradient)
        {"""),
 'a rectilinear grid file asked for with the gradient but without the velocity',
 'the gradient section is missing from the file',
 C19PRE + """    for (int v=0;v<2;v++) for (int g=0;g<2;g++) {
        io.saveLevelSetVTK("f.vtk", l, v, g);
        std::ifstream f("f.vtk"); std::stringstream s; s << f.rdbuf(); std::string t = s.str();
        CHECK((t.find("SCALARS velocity") != std::string::npos) == (v == 1), "velocity %d gradient %d: velocity section", v, g);
        CHECK((t.find("SCALARS gradient") != std::string::npos) == (g == 1), "velocity %d gradient %d: gradient section", v, g);
    }""")
seed('C19-low-to-high', 'C19', ('src/InputOutput.cpp', """            unsigned int end = boundary.segments[i].end;
""", """            unsigned int end = boundary.segments[i].end;

            // Write the segment from its lower to its higher point.
            if (start > end) std::swap(start, end);
"""),
 'a boundary with segments whose start point has the higher index',
 'those segments are written from end to start, so their direction (inside to the same side) is lost',
 C19PRE + """    slsm::Boundary b; b.discretise(l); io.saveBoundarySegmentsTXT("s.txt", b);
    std::ifstream f("s.txt");
    for (unsigned i=0;i<b.nSegments;i++) {
        double x, y, u, v; f >> x >> y >> u >> v;
        const slsm::Coord &p = b.points[b.segments[i].start].coord, &q = b.points[b.segments[i].end].coord;
        CHECK(f && fabs(x - p.x) < 1e-5 && fabs(y - p.y) < 1e-5 && fabs(u - q.x) < 1e-5 && fabs(v - q.y) < 1e-5, "segment %u is written from (%g,%g) to (%g,%g)", i, x, y, u, v);
    }""")
seed('C19-five-digits', 'C19', ('src/InputOutput.cpp', """        num << std::right << datapoint;

        fileName.str("");
        if (!outputDirectory.empty()) fileName << outputDirectory << "/";
        fileName << "boundary-points_" """, """        num << std::right << datapoint % 10000;

        fileName.str("");
        if (!outputDirectory.empty()) fileName << outputDirectory << "/";
        fileName << "boundary-points_" """.replace('% 10000', '% 10000')),
 'a data point beyond 9999',
 'boundary points of data point 10000 overwrite those of data point 0',
 C19PRE + """    slsm::Boundary b; b.discretise(l); unsigned k[] = {0, 37, 9999, 10000, 123456}; const char* n[] = {"0000", "0037", "9999", "10000", "123456"};
    for (int i=0;i<5;i++) { io.saveBoundaryPointsTXT(k[i], b); std::string f = std::string("boundary-points_") + n[i] + ".txt"; CHECK(std::ifstream(f.c_str()).good(), "%s was not written", f.c_str()); }""")
seed('C19-corner-not-centre', 'C19', ('src/InputOutput.cpp', """            if (isXY) fprintf(pFile, "%lf %lf ", mesh.elements[i].coord.x, mesh.elements[i].coord.y);""", """            const Coord& coord = mesh.nodes[mesh.elements[i].nodes[0]].coord;
            if (isXY) fprintf(pFile, "%lf %lf ", coord.x, coord.y);"""),
 'area fractions written as text with coordinates',
 'the lower left corner of the element is written in place of its centre',
 C19PRE + """    io.saveAreaFractionsTXT("a.txt", l.mesh, true); std::ifstream f("a.txt");
    for (unsigned e=0;e<l.mesh.nElements;e++) { double x, y, a; f >> x >> y >> a; CHECK(f && fabs(x - (e % 5 + 0.5)) < 1e-5 && fabs(y - (e / 5 + 0.5)) < 1e-5, "element %u is at (%g,%g)", e, x, y); }""")

# ---- C21
C21TOP = """#include <functional>
#include "Boundary.h"
#include "Optimise.h"
namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_optimise; }
static slsm::BoundaryPoint point(double a, double b, double c) {
    slsm::BoundaryPoint p; p.length = 1; p.isFixed = false; p.isDomain = false; p.negativeLimit = -0.5; p.positiveLimit = 0.5; p.velocity = 0;
    p.sensitivities.resize(3); p.sensitivities[0] = a; p.sensitivities[1] = b; p.sensitivities[2] = c; return p;
}
"""
C21PRE = """    std::vector<slsm::BoundaryPoint> p; p.push_back(point(1, 0.5, -2)); p.push_back(point(-0.5, 1, 0.5)); p.push_back(point(0.25, -1, 1));
    std::vector<double> lambdas(3, 0.1), distances(2, 0.0); double dt = 0;
"""
seed('C21-clip-partial', 'C21', ('src/Optimise.cpp', """                    displacements[i] += scaleFactors[j] * lambda[j] * boundaryPoints[i].sensitivities[k];
""", """                    displacements[i] += scaleFactors[j] * lambda[j] * boundaryPoints[i].sensitivities[k];

                    // The point can't move outside of the domain.
                    if (boundaryPoints[i].isDomain) displacements[i] = std::max(displacements[i], boundaryPoints[i].negativeLimit);
"""),
 'a point on the domain boundary that the objective and the first constraint move outwards and the second constraint moves back in',
 'its displacement starts from the limit in place of the sum, and is too large',
 C21PRE + """    p[1].isDomain = true; p[1].negativeLimit = 0; p[1].sensitivities[0] = -1; p[1].sensitivities[1] = -1; p[1].sensitivities[2] = 2;
    slsm::Optimise o(p, distances, lambdas, dt, 0.5, false, std::vector<bool>(2, true));
    nlopt::stub_optimise = [](nlopt::opt& q, std::vector<double>& x, double& f) { for (int j=0;j<3;j++) x[j] = 0.3*q.ub[j]; f = 0; return nlopt::SUCCESS; };
    o.solve();
    for (int i=0;i<3;i++) {
        double d = 0; for (int j=0;j<3;j++) d += lambdas[j]*p[i].sensitivities[j];
        if (p[i].isDomain && d < 0) d = 0;
        CHECK(fabs(p[i].velocity*dt - d) < 1e-9, "point %d moves by %g, not %g", i, p[i].velocity*dt, d);
    }""", top=C21TOP, optimise=True)
seed('C21-index-of-active', 'C21', ('src/Optimise.cpp', "        unsigned int j = indexMap[index];", "        unsigned int j = index;"),
 'an inequality constraint ahead of an active one is far from being broken and is left out',
 'the change of the remaining constraint is integrated with the sensitivities of the one left out',
 C21PRE + """    distances[0] = 100; distances[1] = 0;
    slsm::Optimise o(p, distances, lambdas, dt, 0.5); int bad = 0;
    nlopt::stub_optimise = [&](nlopt::opt& q, std::vector<double>& x, double& f) {
        std::vector<double> g;
        if (q.n != 2) { bad = 2; return nlopt::SUCCESS; }
        for (int j=0;j<2;j++) x[j] = 0.1*q.ub[j];
        f = q.objective.f(x, g, q.objective.data);
        // sign and ratio do not depend on the scale factor: linear in the displacements
        double c = q.constraints[0].f(x, g, q.constraints[0].data), want = 0;
        for (int i=0;i<3;i++) want += o.displacements[i]*p[i].sensitivities[2];
        want *= o.scaleFactors[1];
        if (fabs(c - want) > 1e-9) bad = 1;
        return nlopt::SUCCESS; };
    o.solve();
    CHECK(bad != 2, "the first constraint is not left out"); CHECK(bad == 0, "the change of the active constraint is not the integral over its sensitivities");""", top=C21TOP, optimise=True)
seed('C21-cfl-domain', 'C21', ('src/Optimise.cpp', """                // Absolute displacement.
                double disp = std::abs(displacements[i]);
""", """                // Absolute displacement (movement towards the domain boundary is limited already).
                double disp = boundaryPoints[i].isDomain ? -displacements[i] : std::abs(displacements[i]);
"""),
 'a point near the domain boundary that moves inwards further than any other, beyond the limit',
 'the displacements are not rescaled and the point moves further than the CFL limit',
 C21PRE + """    p[0].isDomain = true; p[0].negativeLimit = -0.2; p[0].sensitivities[2] = 1; p[0].sensitivities[1] = 1;
    slsm::Optimise o(p, distances, lambdas, dt, 0.5, false, std::vector<bool>(2, true));
    nlopt::stub_optimise = [](nlopt::opt& q, std::vector<double>& x, double& f) { for (int j=0;j<3;j++) x[j] = 0.9*q.ub[j]; f = 0; return nlopt::SUCCESS; };
    o.solve();
    for (int i=0;i<3;i++) CHECK(fabs(p[i].velocity*dt) <= 0.5 + 1e-9, "point %d moves by %g, the limit is 0.5", i, p[i].velocity*dt);""", top=C21TOP, optimise=True)
seed('C21-no-shift', 'C21', ('src/Optimise.cpp', """                scaleFactors[nActive+1] = scaleFactors[i+1];
                negativeLambdaLimits[nActive+1]""", """                if (nActive != i) scaleFactors[nActive+1] = std::min(scaleFactors[nActive+1], scaleFactors[i+1]);
                negativeLambdaLimits[nActive+1]"""),
 'an inequality constraint is left out whose scale factor is smaller than that of an active one after it',
 'the limits of the active multiplier no longer fit its scale factor: its largest displacement is not the CFL limit, and the start may lie anywhere',
 C21PRE + """    for (int i=0;i<3;i++) p[i].sensitivities[1] *= 50;
    distances[0] = 1000; distances[1] = 0;
    slsm::Optimise o(p, distances, lambdas, dt, 0.5); double big = 0;
    nlopt::stub_optimise = [&](nlopt::opt& q, std::vector<double>& x, double& f) {
        std::vector<double> g; x[0] = 0; x[1] = q.ub[1];
        f = q.objective.f(x, g, q.objective.data);
        for (int i=0;i<3;i++) big = std::max(big, fabs(o.displacements[i]));
        x[0] = 0.1*q.ub[0]; return nlopt::SUCCESS; };
    o.solve();
    CHECK(fabs(big - 0.5) < 1e-9, "the active constraint at its limit moves the boundary by %g, not by the CFL limit", big);""", top=C21TOP, optimise=True)
