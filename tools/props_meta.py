HN = 'Seeded exploration under ASan+UBSan; evidence holds for the generated histories only, not a proof.'
CPP = 'src/geomap/cppmap.cxx'
HXX = 'src/geomap/cppmap.hxx'
PYM = 'src/python_bindings/cppmapmodule.cxx'
PYU = 'src/python_bindings/cppmapmodule_utils.cxx'
CPPMAP_H = HXX
PYN = 'Seeded exploration of the extension module built with ASan+UBSan; evidence holds for the generated histories only, not a proof.'
ML = 'python/maputils/maputils.py'
SL = 'python/maputils/statistics.py'
LIBN = 'The Python 2 sources are converted by lib2to3 as the build of the repository does; GUI, drawing and SciPy-dependent functions of the library are outside.'
META = [
 dict(id='C01', title='A map always stays a valid planar topology',
  statement='After construction and after any sequence of edge splits, edge merges, face merges, bridge removals and node removals, the map is a valid planar subdivision: darts are paired consistently, the darts around every node form one cycle in geometric (counter-clockwise) order, every dart lies on exactly one face contour which matches its left face, outer contours run positively and holes negatively, and the Euler relation between nodes, edges, faces and components holds. Every connected component lying in the interior of a face is a hole of the innermost face around it. Node, edge and face counts equal the number of cells an iteration visits.',
  over=['histories', 'inputs'], quant='all planar maps (incl. loops, bridges, isolated nodes, nested components, label gaps, crack-edge maps) and all operation histories on them',
  why='There are unboundedly many subdivisions and histories; the repository has no passing test of the library at all, and a corrupt orbit shows only at a later operation.',
  files=[CPP, HXX], mech=[('Euler operations', CPP), ('sigma orbits', CPP), ('initContours/embedFaces', CPP), ('Face contours', HXX)], observe='after construction and after every operation',
  tech='structural invariant monitor (planarity, orbits, nesting, Euler) evaluated after every operation of random histories', note=HN),
 dict(id='C02', title='Each Euler operation changes exactly what it says',
  statement='Splitting an edge, merging two edges, merging two faces, removing a bridge and removing a node change exactly the cells these operations name; all other cells keep labels, geometry, neighbourhood order and flags. Surviving edges have exactly the concatenated or divided geometry, the union face keeps the contours of both operands minus the removed edge, and counts change by exactly one. The returned cell is the surviving one.',
  over=['histories', 'inputs'], quant='all operations applicable in all reachable map states',
  why='Tests would sample a few operations on one map; wrong behaviour depends on dart direction, self-loops, shared contours and hole configuration.',
  files=[CPP, HXX], mech=[('splitEdge/mergeEdges', CPP), ('removeBridge/mergeFaces', CPP), ('removeIsolatedNode', CPP)], observe='snapshot before and after every operation',
  tech='reference-model transition oracle comparing full snapshots before/after every operation', note=HN),
 dict(id='C03', title='Refused or vetoed operations leave the map unchanged',
  statement='An operation whose preconditions do not hold is rejected, and an operation vetoed by a registered callback reports failure; in both cases the map (topology, geometry, labels, flags, label image) is as before. A vetoed composite operation never leaves a half-done state: what remains is a valid map. A rejected relabelling leaves all labels as they were.',
  over=['histories', 'inputs', 'fault_sequences'], quant='all operations at all applicable and inapplicable cells, with vetoes injected at every callback',
  why='The failing callback has to hit at each possible point of each history.',
  files=[CPP, HXX], mech=[('preconditions', CPP), ('pre* callbacks', HXX), ('changeFaceLabels', CPP)], observe='snapshot around refused operations',
  tech='fault injection (vetoing callbacks, invalid operands) with snapshot comparison', note=HN),
 dict(id='C04', title='Modification callbacks report every change, once and in order',
  statement='Registered callbacks are invoked for every modification exactly once and in the documented order: the pre callback before anything changes, the post callback with the surviving cell after it. Replaying the reported events reproduces the change of cell counts and labels. Pixels handed to the pixel-association callback are exactly those newly gained by the face.',
  over=['histories'], quant='all operation histories',
  why='Event streams over arbitrary histories, including composites, cannot be enumerated in tests.',
  files=[HXX, CPP], mech=[('sigc hooks', HXX), ('associatePixels', CPP)], observe='all callbacks the library offers',
  tech='online trace checker on the event stream of all callbacks', note=HN),
 dict(id='C05', title='Cached geometry always equals recomputed geometry',
  statement='Whenever length, area, bounding box or scanlines of an edge, or area, bounding box or scanlines of a face are asked for, they equal the values recomputed from the current geometry, no matter which of them were queried before earlier modifications.',
  over=['histories'], quant='all interleavings of queries and modifications',
  why='Stale caches need a query, a certain modification and another query.',
  files=[CPP, HXX, 'src/geomap/polygon.hxx'], mech=[('edge caches', 'src/geomap/polygon.hxx'), ('face flags', CPP)], observe='edge and face accessors',
  tech='differential monitor of cached values against independent recomputation over random query/modify interleavings', note=HN),
 dict(id='C06', title='Label image and pixel areas follow the faces',
  statement='In a map with a label image, at any time every pixel not touched by an edge carries the label of the face around it, every pixel touched by k edges carries -k, and each face reports exactly the number of pixels which carry its label. Lookup by label returns the face in which the pixel lies also after any number of merges.',
  over=['histories', 'inputs'], quant='all maps and operation histories',
  why='Correct incremental maintenance depends on sub-pixel geometry and on the history of merges.',
  files=[CPP, HXX, 'src/geomap/labellut.hxx'], mech=[('label image maintenance', CPP), ('LabelLUT', 'src/geomap/labellut.hxx')], observe='label image, face(label image), pixelArea',
  tech='label image oracle by independent geometric rasterisation after every operation', note=HN),
 dict(id='C07', title='Rebuilding or relabelling gives the same map as before',
  statement='Switching the label image off and on again at any point yields the image and pixel areas a continuously maintained one has, and never changes topology or geometry. Permuting face labels renames faces everywhere consistently (darts, contours, label image, pixel areas) and nothing else.',
  over=['histories', 'inputs'], quant='all map states and all face label permutations',
  why='The outcome depends on label order versus nesting order of faces and on previous merges.',
  files=[CPP, HXX], mech=[('setHasLabelImage', CPP), ('changeFaceLabels', CPP)], observe='label image before/after rebuild',
  tech='metamorphic monitor (rebuild vs. incremental image; relabel vs. renamed snapshot)', note=HN),
 dict(id='C08', title='A copied map is equal to and independent of its original',
  statement='A copy of a map has the same cells, labels, order, geometry, flags and label image as the original, and the same operation on both has the same effect. Operations on one never show in the other, and either may be destroyed first.',
  over=['histories', 'inputs'], quant='all map states and subsequent histories on original and copy',
  why='Sharing between copies shows only after specific later operations or lifetimes.',
  files=[CPP, HXX], mech=[('GeoMap copy constructor', CPP)], observe='both maps after each operation',
  tech='differential lock-step monitor of original and copy under ASan', note=HN),
]
PGN = 'src/geomap/polygon.hxx'
META += [
 dict(id='C15', title='Polygon length, area and bounding box never go stale',
  statement='After any sequence of polygon edits (appending, inserting, erasing, moving or replacing points, extending by another polygon at either end, splitting, reversing, swapping, clearing, copying) the reported length, signed area and bounding box equal the values computed from the current points, no matter which of them were asked for before. Splitting and extending keep all points in order.',
  over=['histories', 'inputs'], quant='all interleavings of edits and queries on all point sequences',
  why='A stale value needs one specific query between two specific edits; the number of interleavings is unbounded.',
  files=[PGN], mech=[('cached properties of PointArray/Polygon/BBoxPolygon', PGN)], observe='length(), partialArea(), boundingBox() after each edit',
  tech='model-based monitor: reference point list and recomputed properties after each edit of random edit/query sequences', note=HN),
 dict(id='C16', title='Scanlines classify every pixel of a polygon correctly',
  statement='The scanlines of a closed polygon classify every pixel: pixels touched by its boundary are reported as crossed, all other pixels inside it are counted with the sign of its orientation and pixels outside are not reported. Scanlines of concatenated curves are the sum of the parts, filling a polygon writes exactly its interior pixels, and no pixel outside the target image is written.',
  over=['inputs'], quant='all closed and open polygons including axis-parallel, half-integer, degenerate and partly invisible ones',
  why='Errors hide in special alignments of segments with the pixel grid.',
  files=[PGN], mech=[('scanPoly/Scanlines', PGN), ('ScanlinesIter, fillScannedPoly, drawScannedPoly', PGN)], observe='scanline segments and drawn images',
  tech='geometric oracle (winding number, exact segment/pixel intersection) evaluated for every pixel of random polygons', note=HN),
 dict(id='C17', title='Polygon algorithms return geometrically correct results',
  statement='The convex hull contains all points, is convex and uses only input points; simplification keeps end points, drops only points within the given distance and only those; point-in-polygon, centroid and nearest-point queries agree with their geometric definition. Arc-length resampling stays on the curve at the requested spacing, and smoothing of curves equals the Gaussian average of the curve and commutes with translation, rotation and scaling; a digital curve is reduced to one line per maximal digital straight segment, and cubic spline control points give the least-squares approximation of the curve. All of these terminate and stay within the data for degenerate input (collinear, repeated or few points, large filters).',
  over=['inputs'], quant='all polygons including degenerate ones',
  why='Degenerate configurations (ties, duplicates, collinear runs) are far too many to test by example.',
  files=[PGN], mech=[('convexHull', PGN), ('simplifyPolygon', PGN), ('Polygon::contains', PGN), ('resamplePolygon*', PGN), ('simplePolygonFilter', PGN), ('simplifyPolygonDigitalLine', PGN), ('polygonSplineControlPoints', PGN)], observe='results of the polygon algorithms',
  tech='independent geometric oracles and metamorphic checks on random degenerate polygons under sanitizers', note=HN),
]
CRK = 'src/geomap/crackedgemap.cxx'
META += [
 dict(id='C11', title='A crack-edge map describes exactly the regions of a label image',
  statement='The crack-edge map of a label image has exactly one bounded face per 4-connected (or, on request, 8-connected) region of equal labels; each face has the area of its region in pixels and reports the label of its region, and every boundary between two differently labelled pixels is covered by exactly one edge; where two diagonals compete under 8-connectivity, the larger label stays connected. Edges along the image border are protected, and no node is left that could be removed by merging its two edges except on closed curves. Converting crack edges to mid-crack edges moves the curves but keeps topology, and all queries answered before it are answered for the new geometry afterwards.',
  over=['inputs'], quant='all label images up to the explored size, both connectivities, and operation histories after mid-crack conversion',
  why='Correctness depends on local pixel configurations (crossings, one-pixel regions, rings, the border) and their combinations.',
  files=[CRK, HXX], mech=[('CrackEdgeMapGenerator', CRK), ('crackEdgesToMidcracks', CRK)], observe='resulting map, face source labels, edge geometry',
  tech='independent region-labelling and crack-coverage oracle on random label images', note=HN),
]
UTH, UTC = 'src/geomap/cppmap_utils.hxx', 'src/geomap/cppmap_utils.cxx'
META += [
 dict(id='C09', title='Queries and navigation agree with the current geometry',
  statement='At any time, point location and containment name exactly the face around a point, and the nearest-node query returns an existing node at the smallest distance (or none if none is within the limit), also with several nodes at one position and after nodes were moved or removed. Navigating around nodes, along edges and along face contours forward and backward are inverses of each other, and the points, lengths and areas reported for darts and contours are those of the underlying curves. A position moved along a curve always reports the arc length, segment and coordinates belonging to each other, whichever way it was reached, and stops at either end.',
  over=['histories', 'inputs'], quant='all maps, modification histories and query arguments',
  why='Answers depend on index structures maintained over the history and on positions relative to nodes, segment ends and image borders.',
  files=[CPP, HXX], mech=[('faceAt/nearestNode', CPP), ('node index (nodeMap)', CPP), ('Dart', HXX), ('DartPosition', HXX), ('contour functions', HXX)], observe='results of all queries after random histories',
  tech='differential oracle (brute-force geometry) for queries, reference model for dart positions', note=HN),
 dict(id='C10', title='The map built from nodes and edges does not depend on how it was built',
  statement='Building a map from the same nodes and curves in any insertion order, direction, scale, with any of the sorting modes, and with edges added and removed again before initialisation gives the same planar map: the same order of edges around nodes, the same faces, and the same nesting. Edges which coincide for a while are ordered by where they part, and if they are to be merged, each common part becomes one edge carrying the flags of all of them, with the curves moved by at most a few step lengths. A stored edge order restores the same map; two edges leaving a node in the same direction are rejected by direct sorting, and a map is initialised only once.',
  over=['inputs', 'histories'], quant='all planar subdivisions and all construction sequences leading to them',
  why='The number of construction orders and geometries is unbounded; errors depend on angles, scale, nesting depth and label order.',
  files=[CPP, HXX], mech=[('addNode/addEdge/removeEdge on graphs', CPP), ('sortEdgesDirectly/sortEdgesEventually', CPP), ('splitParallelEdges', CPP), ('embedFaces', CPP), ('setSigmaMapping', CPP)],
  observe='constructed maps in terms of the input curves',
  tech='metamorphic monitor over permuted/scaled constructions plus geometric invariant monitor and a generator-known ground truth for parallel edges', note=HN),
 dict(id='C12', title='Bulk operations do exactly the requested simplification',
  statement='Removing a set of edges or bridges, merging across all edges of a pair of faces, and simplifying away isolated or degree-2 nodes do exactly what was requested and nothing else: requested edges vanish, all other curves keep their geometry and flags, faces are united exactly where their separating edges vanished, and remaining nodes keep their place. They report the number of elementary operations performed, may be refused in parts by callbacks without leaving traces, and yield a valid map. Drawing a map into an image labels every pixel by the face (or edge) at that pixel, innermost faces last.',
  over=['histories', 'inputs', 'fault_sequences'], quant='all maps, all requested sets of cells and all refusals',
  why='The outcome depends on the order in which bridges, loops and free edges appear while others are removed.',
  files=[UTC, UTH], mech=[('removeEdges/removeBridges', UTC), ('mergeDegree2Nodes/removeIsolatedNodes', UTC), ('mergeFacesCompletely', UTC), ('drawLabelImage', UTC)], observe='map before/after, number of operations',
  tech='set-level reference oracle (segment multiset, union-find of faces, degree rules) around each bulk operation with injected vetoes', note=HN),
 dict(id='C13', title='Protected edges are never removed while protection is active',
  statement='While edge protection is attached to a map, no operation removes an edge marked as protected or merges it with an unprotected one, whether the operation is single, composite or bulk, and everything not involving protected edges proceeds as without protection; a refused operation leaves the map unchanged. Detaching or destroying the protection ends its effect and the map remains fully usable.',
  over=['histories', 'fault_sequences'], quant='all maps, sets of protected edges and operation histories, including attaching, detaching and destroying the protection',
  why='Protection must hold along every history, including indirect removal by composite operations.',
  files=[UTC, UTH], mech=[('EdgeProtection hooks', UTH)], observe='decision of each operation and map state after it',
  tech='reference decision oracle for every operation of random histories with protection attached/detached/destroyed, under ASan', note=HN),
 dict(id='C14', title='Face statistics always equal those of the faces pixels',
  statement='Colour statistics attached to a map report, at any time and after any history of merges and refused merges, for each face exactly the count, mean and variance of the image pixels carrying the label of that face; faces too small to contain enough pixels have at least the requested number of interpolated samples, never an undefined mean. Region images and differences between neighbouring faces follow from these values. Copies are independent, and statistics may be detached or destroyed before the map.',
  over=['histories', 'inputs'], quant='all maps, images and merge histories',
  why='Incremental merging of statistics must agree with recomputation on every history; sub-pixel faces only arise in specific geometry.',
  files=['src/geomap/facestatistics.hxx'], mech=[('FaceColorStatistics', 'src/geomap/facestatistics.hxx')], observe='statistics of all faces after each operation',
  tech='differential monitor against statistics recomputed from the label image after every operation', note=HN),
]
FES, FEH = 'src/cellimage/foureightsegmentation.cxx', 'src/cellimage/foureightsegmentation.hxx'
PYR, CST = 'src/cellimage/cellpyramid.hxx', 'src/cellimage/cellstatistics.hxx'
META += [
 dict(id='C18', title='A boundary image is decomposed completely and consistently into cells',
  statement='The pixel-based map of a thin boundary image assigns every pixel to exactly one node, edge or face: region pixels get the same face exactly if they are 4-connected, boundary pixels belong to connected edges and to nodes which do not touch each other, and only pixels completely enclosed by a node may be added to it. Recorded sizes, bounding boxes, counts, contours and scans of cells agree with the pixels, navigation around nodes and faces is invertible and covers every dart exactly once, and the Euler relation holds. Thin images are always accepted; if corners are treated as nodes, other images are decomposed as consistently or rejected with an error; and copies and maps re-imported from the cell image are the same and independent.',
  over=['inputs'], quant='all thin boundary images (and unthinned ones when corners become nodes) up to the explored size, both corner rules',
  why='Correctness depends on combinations of local pixel configurations which no list of examples exhausts.',
  files=[FES, FEH, 'src/cellimage/cellconfigurations.hxx'], mech=[('initCellImage', FES), ('label0Cells/label1Cells/label2Cells', FES), ('labelCircles', FES), ('nodeList/edgeList/faceList initialisation', FES), ('DartTraverser', FEH)],
  observe='cell image, cell lists, dart navigation and scan iterators', tech='independent connected-component and boundary oracle over every pixel and dart of random boundary images under sanitizers', note=HN),
 dict(id='C19', title='Operations on pixel-based maps change exactly what they have to',
  statement='Removing an isolated node, merging two faces, removing a bridge or merging two edges of a pixel-based map moves exactly the pixels of the removed cells to the surviving cell, which is one of the merged ones (the infinite face always survives), and leaves all other pixels, cells and anchors as they were; the result is again a consistent map. Operations applied to a dart that does not allow them are rejected with an error and change nothing. Copies are independent and react in the same way.',
  over=['histories', 'inputs'], quant='all maps and all sequences of applicable and inapplicable operations',
  why='Failures need particular contours, bounding boxes or dart anchors that only arise along specific histories.',
  files=[FES, FEH], mech=[('removeIsolatedNode', FES), ('mergeFaces', FES), ('removeBridge', FES), ('mergeEdges', FES), ('findComponentAnchor', FES)], observe='complete snapshots before and after each operation',
  tech='transition oracle on complete snapshots plus invariant monitor after every operation of random histories', note=HN),
 dict(id='C20', title='Every level of a pyramid can be revisited exactly as it was',
  statement='A pyramid records a level for every operation or completed composite operation; whichever way a level is reached later (directly, step by step in any number of portions, upwards or downwards, from checkpoints), its map and its statistics are exactly those at the time the level was the top one. Operations on a pyramid have the same effect as on a plain map, rejected operations leave the number of levels and all levels unchanged, also within nested, empty and subsequently created composites. Cutting the pyramid at a level discards exactly the levels above it.',
  over=['histories'], quant='all sequences of operations, composites, cuts, checkpoints and visits',
  why='The state reached depends on the interleaving of operations, composites, cuts and checkpoints.',
  files=[PYR], mech=[('history and checkpoints of CellPyramid', PYR), ('Level::gotoLevel/approachLevel', PYR), ('composite operations', PYR), ('cutAbove', PYR)], observe='level snapshots, level indices and counts, traces seen by the statistics',
  tech='offline replay oracle: recorded snapshots and statistics event traces compared whenever a level is revisited', note=HN),
 dict(id='C21', title='Statistics and protection stay correct across pyramid levels',
  statement='At every level of a pyramid, with edge rethinning switched off, the statistics of each face cover exactly the pixels it consists of (its region pixels and the edges removed from it), those of each edge cover its pixels (edges along the infinite face count as maximally strong), and rejected operations do not alter them. Protecting or releasing an edge at any level does so for all edges it was merged from, an edge is protected exactly if one of these is, and automatic protection follows the number of marked pixels. The recorded region of changes contains every pixel changed since it was last cleared.',
  over=['histories', 'inputs'], quant='all images, operation sequences, protections and visits of levels',
  why='Values are maintained incrementally along every history and shared between levels.',
  files=[CST, 'src/cellimage/cellstatistics.cxx'], mech=[('CellStatistics hooks', CST), ('mergedEdges_/protectEdge', CST), ('EdgeProtection', CST), ('lastChanges_', CST)], observe='statistics, protection flags and change regions at visited levels',
  tech='reference model of statistics and protections, compared after every operation and at revisited levels', note=HN),
]
DSL, SPW = 'src/geomap/vigra/dsl.hxx', 'src/geomap/vigra/subpixel_watershed.hxx'
META += [
 dict(id='C22', title='The Python map interface is faithful and safe',
  statement='A pickled, copied or incrementally rebuilt map has the same cells, labels, flags, geometry, topology, areas and label image as the original and then evolves independently. Iterators, orbits, contours and points of the Python objects enumerate exactly the existing cells and their geometry, bad labels and indices are rejected, and objects of removed cells are inert instead of dangerous. Callbacks are called exactly as documented with the right arguments, a false, missing or failing answer cancels the operation without any trace on the map, and disconnected callbacks stay silent.',
  over=['inputs', 'histories'], quant='all maps, operation sequences, callback answers and moments of disconnection',
  why='The language boundary multiplies the states of the map with lifetimes, conversions and exceptions.',
  files=[PYM, PYU, CPPMAP_H], mech=[('GeoMapPickleSuite', PYM), ('add*Callbacks', PYM), ('cell and dart iterators', PYM), ('pyCrackConnectionImage/pyCrackEdgeGraph/FaceGrayStatistics', PYU)], observe='all results of the Python module, recorded callback events, raised exceptions, sanitizer reports',
  tech='model-based stress of the sanitized Python extension module with full-state comparison before and after each operation', note=PYN),
 dict(id='C23', title='The Python curve and polygon interface computes what it documents',
  statement='Python polygons, boxes and rectangles behave like lists of points and intervals whose length, area, bounding box, arc lengths, containment, slices, copies and pickled versions are always those of the current points, and scan conversion draws, fills, marks and unmarks exactly the documented pixels also for polygons that exceed the image. Tangent, curvature, derivative, smoothing, resampling and optimal-scale estimates along open and closed curves, parabola and polyline statistics, quantiles, clipping at a line and composed tangent lists equal their definitions at every point of the curve. Empty, too short, mismatched or out-of-range arguments are rejected or give an empty result and never touch foreign memory.',
  over=['inputs', 'histories'], quant='all curves, filter scales, clipping lines, images and operation sequences',
  why='The estimates depend on every point of the curve and on its border treatment, and the cached measures on the order of operations.',
  files=['src/python_bindings/polygon.cxx', 'src/python_bindings/statistics.cxx', 'src/python_bindings/pythondiff2d.cxx', POLY if 'POLY' in globals() else 'src/geomap/polygon.hxx'], mech=[('Polygon list interface', 'src/python_bindings/polygon.cxx'), ('tangentList*/curvatureList/gaussianConvolveByArcLength', 'src/python_bindings/polygon.cxx'), ('fill/drawScannedPoly, mark/removeEdge*LabelImage', 'src/python_bindings/polygon.cxx'), ('PolylineStatistics/QuantileStatistics/ParabolaFit', 'src/python_bindings/statistics.cxx')], observe='all results of the Python functions, raised exceptions, sanitizer reports',
  tech='differential monitor of the sanitized Python extension module against direct evaluation of the definitions', note=PYN),
 dict(id='C24', title='Digital straight lines, tangents and label tables are exact',
  statement='A digital straight line contains exactly the grid points of its strip, mirroring and conversion to 4-connectivity map its points accordingly, and its slope and intercepts are those of the bounding lines. Growing a line by a point at either end succeeds exactly if all points still form a digital line, then contains all of them with the simplest slope, and otherwise changes nothing; the tangent of a digital curve at a point is the longest symmetric digital line around that point, or an error at the ends of open curves. A label merge table maps every label to the survivor of all merges, lists exactly the labels merged into each survivor, and its copies are independent.',
  over=['inputs', 'histories'], quant='all line parameters, point sequences, digital curves and merge sequences',
  why='Recognition depends on the whole sequence of points and the number of sequences grows exponentially.',
  files=[DSL, 'src/geomap/labellut.hxx'], mech=[('DigitalStraightLine', DSL), ('addPoint', DSL), ('tangentDSL', DSL), ('LabelLUT', 'src/geomap/labellut.hxx')], observe='line parameters after each added point, tangent lengths, label table contents',
  tech='differential monitor against brute-force recognition over all slopes and a set-based model of label merges', note=HN),
 dict(id='C25', title='Critical points and flow lines of images are what they claim to be',
  statement='Every reported minimum, saddle or maximum of an interpolated image lies inside the image, has vanishing gradient and the curvatures of its type, and is at least the requested distance from all others; every clear critical point reachable from a starting pixel is reported, and with a mask only those near masked pixels are. The nearest-maximum lookup finds the closest maximum ahead. A flow line starts at its saddle along the direction of upward curvature, its two halves run in opposite directions, it climbs in bounded steps within the image, and it ends at the maximum it names or only where the image is flat or ends.',
  over=['inputs'], quant='all images, spline orders, masks and search parameters',
  why='Convergence, classification and termination depend on the shape of the interpolated function in every facet.',
  files=[SPW, 'src/geomap/vigra/map2d.hxx'], mech=[('findCriticalPointsNewtonMethod(If)', SPW), ('updateMaxImage/nearestMaximum', SPW), ('flowLine/findEdge', SPW), ('Map2D::nearest', 'src/geomap/vigra/map2d.hxx')], observe='reported critical points, flow line points and end indices',
  tech='analytical oracle (gradients and curvatures of a double-precision reference spline, independent Newton searches, brute-force lookup) over random images under sanitizers', note=HN),
 dict(id='C26', title='Memory is used cleanly over the whole life of every object',
  statement='No operation of the library on maps, label images, polygons, crack edges, cell images, pyramids, statistics, digital lines or subpixel analyses reads or writes outside of its live objects, whatever the history and input. No result or decision depends on a value that was never initialised. After the last object of a workload has been destroyed, copied, replaced or dropped by an exception, nothing it allocated remains unreachable.',
  over=['inputs', 'histories'], quant='all inputs, operation histories and orders of destruction',
  why='A stray access or an uninitialised value usually goes unnoticed by a test that only looks at results.',
  files=[CPPMAP_H, 'src/geomap/cppmap.cxx', 'src/geomap/polygon.hxx', 'src/cellimage/cellpyramid.hxx'], mech=[('GeoMap construction, copying and destruction', 'src/geomap/cppmap.cxx'), ('label image ownership', 'src/geomap/cppmap.cxx'), ('CellPyramid histories and composite operations', 'src/cellimage/cellpyramid.hxx'), ('Polygon containers', 'src/geomap/polygon.hxx')], observe='every memory access, value initialisation and heap block of the running workloads',
  tech='Valgrind memcheck (shadow memory and leak search) over the workloads of all other properties', note=HN.replace('ASan+UBSan', 'Valgrind memcheck') if 'ASan' in HN else HN),
 dict(id='C27', title='Segmentation procedures merge exactly the regions their criterion selects',
  statement='Automatic merging by cost always performs the cheapest allowed merge next, stops at the requested number of regions or cost and leaves no cheaper pair; removing small regions, merging a face into its best neighbour, merging or classifying faces by label, removing unprotected edges and superfluous nodes end with exactly the region partition their criterion defines, and never touch protected edges. Seeded growing on the map or on labels assigns every reachable face to the seed that an independent priority flood gives it, spanning trees are minimal, and regional minima and waterfall labels are those of the dual graph. Points found in faces lie in them, and values mapped to cells, classes of faces and protected faces are those of the map. Each procedure leaves a consistent map and ends for every map, also without seeds, candidates or faces.',
  over=['inputs', 'histories'], quant='all maps, cost functions, seeds, thresholds, labels and protected edges',
  why='The order of merges changes the costs and neighbourhoods of all later ones.',
  files=['python/maputils/maputils.py'], mech=[('AutomaticRegionMerger/thresholdMergeCost', ML), ('SeededRegionGrowing/seededRegionGrowingStatic', ML), ('applyFaceClassification/mergeFacesByLabel/mergeFaceToBestNeighbor', ML), ('removeSmallRegions/removeCruft/removeUnProtectedEdges', ML), ('minimumSpanningTree/regionalMinima/waterfallLabels', ML)], observe='partition of the original faces, labels and map state after each procedure, recorded merges with their costs',
  tech='differential monitor of the Python library on the sanitized extension module against independent graph models', note=LIBN),
 dict(id='C28', title='Copies, histories and derived maps of the Python library reproduce their source',
  statement='Copying map contents or rebuilding a map from its edges gives the same nodes, edges, geometry, flags and topology, with or without selected cells. A recorded history of operations replayed on an equal map, also after saving, loading or pickling it, gives the same map and rejects maps on which it cannot be carried out. The dual map and the tree map have one node per region and one edge per adjacency or tree edge. A path of darts concatenates exactly the points, lengths, faces and contours of its darts, in both directions.',
  over=['inputs', 'histories'], quant='all maps, operation sequences and paths',
  why='Reproduction must hold for every history and every combination of label gaps, loops and holes.',
  files=['python/maputils/maputils.py', 'python/maputils/dartpath.py'], mech=[('copyMapContents/copyMap/mapFromEdges', ML), ('LiveHistory/History', ML), ('dualMap/mst2map', ML), ('Path/contour', 'python/maputils/dartpath.py')], observe='full state of original and derived maps, history commands and files, points and lengths of paths',
  tech='model-based monitor of the Python library on the sanitized extension module with full-state comparison', note=LIBN),
 dict(id='C29', title='Edge and region statistics of the Python library follow every merge and split',
  statement='At every moment of a history of merges and splits the cost of an edge is the combination of the costs of the original edges it consists of, the saddles, pass values, basin depths and dynamics of watershed edges are those of the original watersheds and minima in them, and average, range and quantiles of gradients and the list of tangents along an edge, a common boundary or a path equal those recomputed from the original curves. Watersheds never merge with the image border, edges without combinable cost never merge, unpickled statistics equal the originals and detached ones no longer interfere. Shape measures and percent point functions of distributions equal their definitions.',
  over=['inputs', 'histories'], quant='all maps, statistics and histories of merges, splits and added edges',
  why='Statistics are updated incrementally by callbacks, so one wrong update shows only after particular sequences of operations.',
  files=['python/maputils/statistics.py', 'src/python_bindings/statistics.cxx'], mech=[('StaticEdgeCosts/MergedEdges', SL), ('WatershedStatistics/WatershedBasinStatistics', SL), ('EdgeGradientStatistics/EdgeTangents', SL), ('PolylineStatistics/QuantileStatistics', 'src/python_bindings/statistics.cxx'), ('PercentPointFunction', SL)], observe='values of all statistics after each operation, vetoed operations, pickled copies',
  tech='incremental statistics of the Python library on the sanitized extension module compared with recomputation from the original curves', note=LIBN),
]
NOT_APPLICABLE = {}
