#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the long lines stay editable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
T = 'The unit tests '
p('C01', 'The min-heap is a correct addressable priority queue',
  'For every history of push, set and pop operations within the declared capacity, the heap holds exactly the entries pushed and not yet popped; push returns a handle (back pointer) that keeps identifying that entry, set changes the value of exactly that entry, and peek/pop always report an entry whose value is the minimum of those stored, together with the address it was pushed with. A popped entry is gone, size()/empty() count the remaining entries, no operation touches memory outside the heap\'s arrays, and pushing onto a full or popping an empty heap is refused.',
  ['histories', 'inputs'], 'all capacities, all sequences of push/set/pop with arbitrary addresses and values (ties included)',
  T + 'run three fixed push/pop/set sequences of four entries; neither longer histories, ties, handle reuse after pops nor small capacities are reached.',
  ['src/Heap.cpp', 'src/Heap.h'], [('sift up / sift down', 'src/Heap.cpp siftUp, siftDown'), ('handles', 'src/Heap.cpp push, set: backPointer')],
  [('heap', 'permutation of list entries in heap order', 'Heap.h'), ('backPointer', 'entry -> position in the heap', 'Heap.h')], ['push', 'pop', 'set', 'peek', 'size', 'empty'])
p('C02', 'Mesh numbering, adjacency and connectivity are exact',
  'For every width and height the mesh has (width+1)*(height+1) nodes and width*height unit elements in row-major order: node k lies at (k mod (width+1), k div (width+1)), an element\'s four nodes are its corners anticlockwise from the bottom left, its coordinate is the cell centre, and the (x,y)-to-node map is the inverse of the coordinates. Every node lists its left, right, lower and upper neighbour (in that order), with the value nNodes (and only there) where the neighbour would lie outside the domain; every node\'s element list is exactly the elements having it as a corner; and the domain flag is set exactly on the nodes of the outer edge.',
  ['configurations'], 'all mesh sizes (within 32-bit node indices), every node and element',
  T + 'look at a handful of nodes of one or two small meshes.',
  ['src/Mesh.cpp', 'src/Mesh.h'], [('construction', 'src/Mesh.cpp initialiseNodes, initialiseElements, initialiseNeighbours')], [('nodes, elements, xyToIndex', 'the mesh tables', 'Mesh.h')], ['Mesh::nodes', 'Mesh::elements', 'Mesh::xyToIndex'])
p('C03', 'Point location: containing element and closest node',
  'For every point of the closed domain, getElement returns an existing element that contains the point (to within 1e-6); a point on a grid line shared by two cells is assigned to the left / lower one. getClosestNode returns a node that is at least as close to the point as every other node. Both overloads (Coord and x,y) agree.',
  ['inputs', 'configurations'], 'all mesh sizes and all real points with 0<=x<=width, 0<=y<=height, including corners, edges, grid lines and cell centres',
  T + 'query a few interior points of a single mesh; edges, corners and grid lines are not covered.',
  ['src/Mesh.cpp'], [('floor with rounding guard', 'src/Mesh.cpp getElement'), ('quadrant selection', 'src/Mesh.cpp getClosestNode')], (), ['Mesh::getElement', 'Mesh::getClosestNode'])
p('C04', 'Initial level set of holes is the minimum signed distance',
  'After constructing a level set from holes, the signed distance of every node equals the minimum of its distance to the closest domain edge and, over all holes, its distance to the hole centre minus the hole radius: negative exactly inside a hole, at most zero on the domain edge. The default (no holes given) structure is the documented Swiss cheese: radius-5 holes on two interleaved regular grids, and too small a mesh is refused.',
  ['inputs', 'configurations'], 'all mesh sizes, all hole vectors (any number, overlapping, partly outside, radius zero), every node',
  T + 'check one mesh with one hole at a few nodes.',
  ['src/LevelSet.cpp', 'src/Hole.cpp'], [('distance minimum', 'src/LevelSet.cpp initialise(holes), closestDomainBoundary')], [('signedDistance', 'nodal level set', 'LevelSet.h')], ['LevelSet::signedDistance'])
p('C05', 'Point-to-segment distance and polygon initialisation',
  'The distance used for piecewise-linear shapes is the Euclidean distance from the point to the closest point of the segment (degenerate segments included). A point counts as inside a closed polygon exactly when its winding number is non-zero, and initialising from a closed polygon gives every node the smaller of its distance to the nearest domain edge and to the nearest polygon edge, negated exactly for nodes inside the polygon.',
  ['inputs', 'configurations'], 'all closed polygons with real vertices (clockwise or not, concave, non-integer), all nodes / points',
  T + 'use one integer-coordinate square.',
  ['src/LevelSet.cpp'], [('projection clamp', 'src/LevelSet.cpp pointToLineDistance'), ('winding number', 'src/LevelSet.cpp isInsidePolygon, isLeftOfLine'), ('initialise(points)', 'src/LevelSet.cpp')], (), ['LevelSet(points) constructor', 'LevelSet::mask(points)'])
p('C06', 'Narrow band and mines contain exactly the right nodes',
  'After the narrow band is (re)built it lists, each exactly once, precisely the nodes that are not masked, are not domain-boundary nodes of a fixed-domain problem, and whose absolute signed distance is below the band width; those nodes and only those are flagged active. The mine list is exactly the band nodes whose absolute signed distance exceeds band width minus one, and the per-node mine flag agrees with it.',
  ['inputs', 'configurations', 'histories'], 'all signed distance fields, band widths, masks, fixed or free domains, and repeated rebuilds',
  T + 'count the nodes of one freshly constructed field.',
  ['src/LevelSet.cpp'], [('initialiseNarrowBand', 'src/LevelSet.cpp')], [('narrowBand, mines, isActive, isMine', 'band bookkeeping', 'LevelSet.h, Mesh.h')], ['LevelSet::narrowBand', 'LevelSet::mines', 'Node::isActive', 'Node::isMine'])
p('C07', 'The level set update is one explicit Euler step on the band only',
  'update(dt) changes the signed distance of each narrow-band node from phi to phi - dt*|grad phi|*velocity, except that a node on the domain edge never ends up positive; no other node changes. It reports true, and reinitialises, exactly when after that step a mine node is less than one grid unit from the boundary; otherwise it returns false.',
  ['inputs', 'configurations', 'histories'], 'all fields, velocities, gradients, time steps and bands',
  T + 'never call update with non-trivial velocities.',
  ['src/LevelSet.cpp'], [('update', 'src/LevelSet.cpp update')], (), ['LevelSet::update', 'LevelSet::signedDistance'])
p('C08', 'Masking marks exactly the nodes inside the given region',
  'Masking with holes marks exactly the nodes strictly inside some hole; masking with two points marks exactly the nodes strictly inside the rectangle they span (lower-left, upper-right); masking with a closed polygon marks exactly the nodes inside it. Masks accumulate: a node once masked stays masked, masked nodes are outside the structure, are never active, and never move in an update.',
  ['inputs', 'configurations', 'histories'], 'all hole vectors, rectangles and polygons, all meshes, sequences of mask calls',
  T + 'contain no masking test.',
  ['src/LevelSet.cpp'], [('mask', 'src/LevelSet.cpp mask (two overloads)')], [('isMasked', 'per-node flag', 'Mesh.h')], ['Node::isMasked', 'LevelSet::signedDistance'])
p('C09', 'Boundary velocities map to nodes by inverse-square weighting and extend',
  'Velocity extension first gives each node touched by boundary points (its own closest ones, or those within unit distance through a neighbour) the inverse-square-distance weighted mean of their velocities, or the velocity of the boundary point coinciding with it. It then fills active nodes with a distance-weighted mean of already accepted neighbours, so every extended velocity lies between the smallest and largest velocity of its sources; the signed distance field is unchanged by the extension.',
  ['inputs', 'configurations'], 'all boundary point sets, velocities and signed distance fields',
  T + 'do not check extended velocities beyond a constant field.',
  ['src/LevelSet.cpp', 'src/FastMarchingMethod.cpp'], [('inverse distance interpolation', 'src/LevelSet.cpp initialiseVelocities'), ('extension', 'src/FastMarchingMethod.cpp finaliseVelocity')], (), ['LevelSet::velocity'])
p('C10', 'Upwind WENO gradients: correct stencils, exact on linear fields',
  'The gradient of every narrow-band node is the upwind (Godunov) combination of the four one-sided fifth-order Hamilton-Jacobi WENO derivatives, whose stencils use the nearest available difference in place of those outside the domain; it is non-negative and zero outside the band. Each one-sided derivative is a convex combination of three third-order stencils, so on a field that is linear in x and y the gradient is exact at every node, edges and corners included, whatever the velocity sign. At a corner whose two neighbours have its own value to within 1e-6 the diagonal difference times the square root of two stands in.',
  ['inputs', 'configurations'], 'all signed distance and velocity fields on meshes at least 4 cells wide and high, every node position class',
  T + 'check a handful of nodes of one field.',
  ['src/LevelSet.cpp'], [('WENO weights', 'src/LevelSet.cpp gradHJWENO'), ('stencil selection', 'src/LevelSet.cpp computeGradient')], (), ['LevelSet::computeGradients', 'LevelSet::gradient'])
p('C11', 'Fast marching reinitialisation: frozen set, signs, ordering, upwind solve',
  'Reinitialisation freezes exactly the nodes on the zero contour or with a neighbour of opposite sign, giving the latter the distance to the linearly interpolated contour; it changes no node\'s sign, and accepts every remaining node, always the one with the smallest tentative distance next. Each tentative value is the upwind solution of the discrete Eikonal equation from the accepted neighbours (second order where two are available in line, first order otherwise), or the previous estimate where that equation has no real solution.',
  ['inputs', 'configurations'], 'all sign-changing level set fields on all meshes',
  T + 'compare the field of one circle against a loose tolerance.',
  ['src/FastMarchingMethod.cpp', 'src/Heap.cpp'], [('frozen set', 'src/FastMarchingMethod.cpp initialiseFrozen'), ('upwind update', 'updateNode, solveQuadratic'), ('marching loop', 'solve')], [('nodeStatus', 'NONE/TRIAL/FROZEN', 'FastMarchingMethod.h')], ['LevelSet::reinitialise', 'FastMarchingMethod::march'])
p('C12', 'Boundary points lie on the interpolated zero contour, once each',
  'Discretisation classifies every node as inside, outside or on the boundary (|phi|<1e-6) and every element as inside (no outside node), outside (an outside node and no inside node) or cut. Every boundary point lies either on a boundary node or on a mesh edge joining an inside and an outside node, at the point where the linear interpolation of the level set vanishes, and no two boundary points coincide.',
  ['inputs', 'configurations'], 'all level set fields whose narrow band covers the contour, all meshes',
  T + 'check the coordinates for a few hand-made cut patterns.',
  ['src/Boundary.cpp'], [('status', 'src/Boundary.cpp computeMeshStatus'), ('edge interpolation', 'src/Boundary.cpp discretise, isAdded')], [('points', 'boundary points', 'Boundary.h')], ['Boundary::points', 'Node::status', 'Element::status'])
p('C13', 'Boundary segments, lengths and adjacency are consistent',
  'Every segment joins two boundary points of the element it names and has their Euclidean distance as its length; the total boundary length is the sum of the segment lengths. Each boundary point\'s length is half the summed length of the segments ending in it, and its segment and neighbour lists contain exactly those segments and their other end points; the local perimeter of a point is the summed distance to its neighbours.',
  ['inputs', 'configurations'], 'all level set fields, all meshes, discretisation repeated on the same objects',
  T + 'check the lists for a few single-element patterns.',
  ['src/Boundary.cpp'], [('segmentLength, computePointLengths, computePerimeter', 'src/Boundary.cpp')], [('segments', 'boundary segments', 'Boundary.h')], ['Boundary::segments', 'Boundary::length', 'BoundaryPoint::length'])
p('C14', 'Element area fractions are the cut polygon areas',
  'After discretisation the area fraction of an element is one when it is inside, zero when it is outside, and otherwise the area of the part of the cell on the structure side of its boundary segments, in [0,1] (as long as the segment ends lie on the edges of the cell: points closer than 1e-6 are merged, which can move an end off its edge by that much); computeAreaFractions returns the sum over all elements. The area of a convex polygon does not depend on the order its vertices are supplied in.',
  ['inputs', 'configurations'], 'all level set fields and cut patterns (1, 2 and 4 cut edges, boundary nodes), all meshes',
  T + 'check single-element patterns with half-cell cuts.',
  ['src/LevelSet.cpp', 'src/Boundary.cpp'], [('cutArea, polygonArea, isClockwise', 'src/LevelSet.cpp')], (), ['Element::area', 'LevelSet::area'])
p('C15', 'Boundary normals are unit vectors along the level set gradient',
  'The normal of every interior boundary point with a non-vanishing level set gradient nearby is a unit vector: the normalised inverse-square-distance mean of the unit gradients of the adjacent narrow-band nodes, using central differences inside and one-sided differences on the domain edge, pointing into the structure. For a linear level set it is exactly the direction of the gradient.',
  ['inputs', 'configurations'], 'all level set fields, meshes and boundary point positions',
  T + 'check one circle with a tolerance.',
  ['src/Boundary.cpp'], [('computeNormalVectors', 'src/Boundary.cpp')], (), ['BoundaryPoint::normal'])
p('C16', 'Move limits keep points inside the domain and off masked nodes',
  'Every boundary point gets the move limit as its positive limit, and as its negative limit minus the smallest of the move limit, its distance to the closest domain edge, and, when its closest node is masked and does not coincide with it, its distance to that node. A point within 1e-6 of the domain edge is flagged as domain point and a point coinciding with a masked node is flagged fixed, and no others are.',
  ['inputs', 'configurations'], 'all boundary point positions, move limits, masks and meshes',
  T + 'do not look at limits near the domain edge or masks.',
  ['src/Boundary.cpp'], [('initialisePoint', 'src/Boundary.cpp')], (), ['BoundaryPoint::negativeLimit', 'positiveLimit', 'isDomain', 'isFixed'])
p('C17', 'Sensitivities are central differences per unit length; point restored',
  'computeSensitivity evaluates the callback exactly at the point displaced by plus and minus delta along its normal and returns their difference divided by twice delta and by the point\'s length. The boundary point is exactly as before when it returns.',
  ['inputs'], 'all boundary points, normals, deltas and callback functions',
  T + 'use one linear callback.',
  ['src/Sensitivity.cpp'], [('computeSensitivity', 'src/Sensitivity.cpp')], (), ['Sensitivity::computeSensitivity', 'BoundaryPoint::coord'])
p('C18', 'The Ito correction subtracts the scaled curvature from the objective only',
  'The Ito correction lowers the objective sensitivity of every boundary point by temperature times its finite-difference curvature (of the local perimeter) over twice its length, and changes no other sensitivity, coordinate or length. With zero temperature nothing changes.',
  ['inputs', 'configurations'], 'all boundaries, temperatures and deltas',
  T + 'contain no test of the correction.',
  ['src/Sensitivity.cpp', 'src/Boundary.cpp'], [('itoCorrection', 'src/Sensitivity.cpp'), ('computePerimeter', 'src/Boundary.cpp')], (), ['BoundaryPoint::sensitivities'])
p('C19', 'Saved files carry the fields, and loading restores them',
  'Saving a level set to binary and loading it into a level set of the same mesh restores every signed distance bit for bit; text files restore it to the printed precision, with or without coordinates. Every file lists all nodes, elements, points or segments in index order in the documented columns, the optional velocity and gradient sections appear exactly when requested, and numbered files are named with the zero-padded data point in the given directory.',
  ['inputs', 'configurations'], 'all field values, mesh sizes, option flags, data point numbers and directories',
  T + 'contain no input/output test.',
  ['src/InputOutput.cpp'], [('save*/load*', 'src/InputOutput.cpp')], (), ['InputOutput'])
p('C20', 'Random streams are reproducible from the seed and within range',
  'After setting a seed, the sequence of uniform, integer and normal variates depends only on that seed and the calls made since, not on earlier use of the generator, and getSeed reports the seed in use. Uniform variates lie in [0,1], integers in the closed range asked for, and normal(mean, deviation) is centred and scaled as requested.',
  ['histories', 'inputs'], 'all seeds and all interleavings of draws and reseeding',
  T + 'contain no generator test.',
  ['src/MersenneTwister.h'], [('setSeed', 'src/MersenneTwister.h')], (), ['MersenneTwister'])
p('C21', 'Optimised displacements are the weighted sensitivities within CFL limits',
  'The displacement of every free boundary point is the sum over active functions of scale factor times lambda times sensitivity, cut off at the negative move limit for domain points, and fixed points are never moved; objective and constraint changes and their gradients are the length-weighted sums over free points. After solving, no displacement exceeds the CFL limit, velocities are displacements over the effective time step |lambda0|, and multipliers of the constraints kept active are returned in their original positions.',
  ['inputs', 'configurations'], 'all boundary point sets, sensitivities, numbers of constraints and active subsets, and any optimiser answer within the lambda limits',
  T + 'contain no optimiser test (it needs NLopt, absent here).',
  ['src/Optimise.cpp', 'src/Optimise.h'], [('computeDisplacements, computeFunction, computeGradients, rescaleDisplacements, computeLambdaLimits, computeScaleFactors, computeConstraintDistances, solve', 'src/Optimise.cpp')], (), ['Optimise::solve', 'BoundaryPoint::velocity', 'timeStep', 'lambdas'])
p('C22', 'Stochastic velocities respect the CFL time step and noise amplitude',
  'Adding thermal noise first shortens the time step exactly when sqrt(2*T*dt) exceeds half the move limit, to the largest step for which it does not, and returns the factor by which it was divided (one otherwise). Each boundary point\'s velocity then changes by one independent standard normal draw times sqrt(2T/dt) over the square root of its length, in point order, before being extended.',
  ['inputs', 'configurations'], 'all temperatures, time steps, move limits, point lengths and random streams',
  T + 'contain no stochastic test.',
  ['src/LevelSet.cpp'], [('computeVelocities with temperature', 'src/LevelSet.cpp')], (), ['LevelSet::computeVelocities', 'BoundaryPoint::velocity'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
