#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

PM, PN = 'src/quadtrees/point/mod.rs', 'src/quadtrees/point/node.rs'
BM, BN = 'src/quadtrees/bounds/mod.rs', 'src/quadtrees/bounds/node.rs'
KN, SO, ND, IT, QM = 'src/quadtrees/knn.rs', 'src/quadtrees/sorted.rs', 'src/node.rs', 'src/iter.rs', 'src/quadtrees/mod.rs'
GM, GG, GX = 'src/geom/mod.rs', 'src/geom/geometry.rs', 'src/geom/math.rs'
ED, EM, SD, SM, SR = 'src/geom/euclidean/dist.rs', 'src/geom/euclidean/math.rs', 'src/geom/spherical/dist.rs', 'src/geom/spherical/math.rs', 'src/geom/spherical/to_radians.rs'

prop('C01', 'Every accepted datum stays stored, exactly once',
 "After any sequence of insertions into a point or bounds quadtree, every datum whose insertion returned Ok is stored in the tree exactly once, however often the nodes around it are subdivided and however many stored data coincide with it. An insertion that returns an error leaves the stored data exactly as they were.",
 ['inputs', 'histories', 'configurations'], 'every history of inserts, every datum, every bounds, max_depth and max_children',
 'The tests insert at most nine data in three hand-picked layouts; losing a datum needs a particular subdivision (stuck data, a full node at the depth limit, a boundary point) that they do not reach.',
 [PM, PN, BM, BN, ND],
 [('take the sub-nodes, delegate, put them back', PN + ' PointNode::insert'), ('re-insertion of all children after subdivision', PN + ' / ' + BN + ' insert'), ('stuck children', BN + ' BoundsNode::insert')],
 [('children / stuck_children', 'data held by a node itself', PN + ', ' + BN), ('nodes', 'the four sub-nodes of an interior node', PN + ', ' + BN)],
 ['iteration over &tree', 'retrieve'])

prop('C02', 'size() equals the number of stored data',
 "At every moment size() equals the number of insertions that have returned Ok since the tree was created, which is the number of data the tree's iterator yields. A rejected insertion does not change it, and a new tree has size 0.",
 ['inputs', 'histories'], 'every history of accepted and rejected inserts on either tree',
 'The tests look at the size after a few accepted inserts and one rejected one; the counter is separate state and may drift from the contents on any other path.',
 [PM, BM], [('counter bumped after the node accepted the datum', PM + ' / ' + BM + ' insert')],
 [('size', 'count of accepted insertions', PM + ', ' + BM)], ['QuadTree::size'])

prop('C03', 'A datum is admitted exactly when it lies within the closed bounds',
 "A point quadtree accepts a datum if and only if its point lies inside or on the boundary of the tree's bounds; a bounds quadtree accepts a datum if and only if it has a bounding box and that box lies inside or on the boundary of the tree's bounds. A refused datum yields Error::OutOfBounds, or Error::CannotMakeBbox when the datum has no bounding box; an admissible datum is never refused.",
 ['inputs', 'histories', 'configurations'], 'every bounds rectangle, every datum position (each side, edges and corners included), every tree state',
 'The tests reject one point outside both upper edges; they never use an edge, a corner, a single out-of-range coordinate or an empty geometry.',
 [PM, BM, GX], [('closed containment tests', GX + ' pt_in_rect / rect_in_rect'), ('bounds check before the root insert', PM + ' / ' + BM + ' insert')], (), ['QuadTree::insert'])

prop('C04', 'Depth and capacity limits hold and insertion always terminates',
 "No node is ever deeper than the maximum depth the tree was created with, and after every insertion a node without sub-nodes holds more data than the maximum number of children only if it is at that maximum depth. A node is subdivided only when it is full, and every insertion terminates for every max_depth and max_children, including 0 and including data that all coincide; trees created from bounds alone use the documented default limits.",
 ['inputs', 'histories', 'configurations'], 'every max_depth (u8), max_children (usize), insertion history, coincident data included',
 'One unit test inserts three equal points with limits 2 and 2; off-by-one errors, swapped limits and runaway subdivision show only for other limits or deeper trees.',
 [PM, PN, BM, BN, ND], [('subdivide only when full and above max_depth', PN + ' / ' + BN + ' insert'), ('sub-nodes one level deeper with the same limits', ND + ' Node::subdivide')],
 [('depth, max_depth, max_children', 'structural limits of a node', PN + ', ' + BN)], ['tree structure, Display output'])

prop('C05', 'Quadrants tile their parent and hold only what lies within them',
 "When a node is subdivided its four sub-nodes' rectangles exactly tile the parent's rectangle at its midpoint, without gap or overlap beyond shared edges. At every moment each datum stored under a sub-node lies within that sub-node's closed rectangle (its point for a point quadtree, its whole bounding box for a bounds quadtree), and a bounds quadtree keeps at an interior node only data that do not fit the sub-node their centre falls in.",
 ['inputs', 'histories', 'configurations'], 'every bounds rectangle and every datum position, midlines and edges included, after every history',
 'The tests check the placement of four points well inside quadrants; a wrong rectangle or a wrong side on a midline sends only particular data astray.',
 [ND, PN, BN], [('four rectangles around the midpoint', ND + ' Node::subdivide'), ('sub-node choice by comparison with the midpoint', ND + ' Node::find_sub_node'), ('containment test before descending', BN + ' insert')],
 [('bounds', 'rectangle of a node', PN + ', ' + BN)], ['distance-based searches, retrieve'])

prop('C06', 'Iterating a tree yields every stored datum exactly once',
 "Iterating over a reference to a quadtree yields each stored datum exactly once and nothing else, whatever the shape of the tree (empty sub-nodes, data stuck at interior nodes, several levels), and then ends.",
 ['inputs', 'histories'], 'every reachable tree',
 'One test iterates over a one-level tree of six points; skipping an empty sub-node, a stuck datum or the last quadrant depends on the shape.',
 [IT, ND, PN, BN], [('children first, then each sub-node in turn', IT + ' DescendantIter::next'), ('children chained with stuck children', BN + ' children')], (), ['IntoIterator for &PointQuadTree / &BoundsQuadTree'])

prop('C07', 'Iteration is in preorder, quadrants in fixed counterclockwise order',
 "Iteration yields a node's own data before any data of its sub-nodes, and the sub-nodes' data in the order: lower-x/lower-y quadrant, higher-x/lower-y, higher-x/higher-y, lower-x/higher-y, recursively.",
 ['inputs', 'histories'], 'every reachable tree',
 'The tests compare one sequence per tree with sparse quadrants; orders that agree on those data differ elsewhere.',
 [IT, ND, BN], [('fixed array order of the sub-nodes', ND + ' Node::subdivide'), ('DescendantIter walks children, then nodes front to back', IT)], (), ['IntoIterator for &PointQuadTree / &BoundsQuadTree'])

prop('C08', 'Point retrieve returns all data of the leaf cell the query falls in',
 "For a query inside or on the bounds, retrieve on a point quadtree yields exactly the stored data that share the leaf cell the query's position is routed to, each once; in particular every stored datum at the query's own position is yielded, midlines and edges included. For a query outside the bounds it yields nothing.",
 ['inputs', 'histories'], 'every reachable point quadtree and every query position',
 'The tests retrieve three positions; insertion and retrieval must choose the same quadrant on every midline and level, which sampled positions do not show.',
 [PM, PN, ND], [('insert and retrieve share the sub-node choice', ND + ' Node::find_sub_node'), ('bounds check', PM + ' retrieve')], (), ['QuadTree::retrieve on PointQuadTree'])

prop('C09', 'Bounds retrieve misses no datum that overlaps the query',
 "For a query whose bounding box lies within the bounds, retrieve on a bounds quadtree yields every stored datum whose bounding box overlaps the query's bounding box with positive area, and every stored datum with the same bounding box as the query; it yields no datum twice and nothing that is not stored. For a query outside the bounds or without a bounding box it yields nothing.",
 ['inputs', 'histories'], 'every reachable bounds quadtree and every query geometry',
 'One unit test runs four queries on seven rectangles; a missed collision needs a query straddling particular midlines or a datum stuck at a particular level.',
 [BM, BN, IT], [('own and stuck data, then the containing sub-node or all intersecting sub-nodes', BN + ' BoundsNode::retrieve'), ('containment test', GX + ' rect_in_rect')], (), ['QuadTree::retrieve on BoundsQuadTree'])

prop('C10', 'find and find_r return a nearest datum within the closed radius',
 "When the distance from the comparator to a node's or datum's bounding rectangle never exceeds its distance to anything inside, find_r with radius r returns a stored datum together with its own distance, which is at most r and at most the distance of every stored datum; data at distance exactly r qualify. It returns Error::NoneInRadius exactly when no stored datum is within distance r, and find is find_r with an infinite radius.",
 ['inputs', 'histories', 'configurations'], 'every reachable tree of either kind, every comparator, every radius',
 'The tests query a handful of points on trees of at most nine data; a wrong prune loses the nearest datum only in particular arrangements of cells, distances and ties.',
 [QM, PM, BM], [('depth-first search pruned by node distance', PM + ' / ' + BM + ' find_r'), ('bounding-box shortcut', BM + ' find_r'), ('find delegates to find_r', QM)], (), ['QuadTreeSearch::find / find_r'])

prop('C11', 'knn and knn_r return the k nearest data in ascending order',
 "When the distance from the comparator to a node's bounding rectangle never exceeds its distance to anything inside, knn_r returns distinct stored data paired with their own distances, in non-decreasing order of distance, none beyond r and no more than k. Every stored datum left out is beyond r, or k data were returned and it is at least as far as each of them; knn is knn_r with an infinite radius.",
 ['inputs', 'histories', 'configurations'], 'every reachable tree of either kind, every comparator, every k (0 included) and radius',
 'Two tests use k = 3 on four points; an ordering or cut-off mistake needs particular interleavings of cell and datum distances.',
 [QM, KN], [('best-first search over a distance-sorted stack', KN + ' knn'), ('stop at k results or beyond r', KN)], (), ['QuadTreeSearch::knn / knn_r'])

prop('C12', 'sorted yields every datum exactly once in ascending distance',
 "When the distance from the comparator to a node's bounding rectangle never exceeds its distance to anything inside and all distances are available, sorted yields every stored datum exactly once, paired with its own distance, in non-decreasing order of distance, and then ends.",
 ['inputs', 'histories'], 'every reachable tree of either kind and every comparator inside the bounds',
 'One example sorts nine points from a corner; a missed re-sort or lost entry shows only in other interleavings.',
 [SO], [('best-first stack, re-sorted when nodes are expanded', SO + ' SortIter::next')], (), ['QuadTreeSearch::sorted'])

prop('C13', 'Searches report the documented errors',
 "find_r and knn_r fail with Error::CalcMethodNotSet on a tree without a calculation method, with Error::OutOfBounds when the comparator does not touch the tree's bounds, and find_r fails with Error::Empty on an empty tree where knn_r returns an empty list. An error of a distance calculation for a datum or node they examine is returned by them and never swallowed, knn_r reports a non-finite distance as Error::InvalidDistance, whereas sorted never fails: it yields nothing when the bounds check cannot be passed and only skips data and nodes whose distance is an error or not finite.",
 ['inputs', 'histories', 'configurations', 'fault_sequences'], 'every tree, comparator, calculation method, and every pattern of failing distance calculations',
 'No test checks any of these error paths.',
 [PM, BM, KN, SO], [('checks at the start of each search', PM + ', ' + BM + ', ' + KN + ', ' + SO), ('? on every distance', KN + ', find_r'), ('ok().and_then(finite)', SO)], (), ['QuadTreeSearch methods'])

prop('C14', "Every distance follows the tree's calculation method",
 "A tree created with CalcMethod::Euclidean measures every datum and every node with the Euclidean distance, one created with CalcMethod::Spherical measures both with the haversine distance, and with CalcMethod::None every measurement is Error::CalcMethodNotSet; the tree reports the method it was created with. The distance is always between the comparator's geometry and the datum's geometry or the given rectangle.",
 ['inputs', 'configurations'], 'every calculation method, geometry type and constructor',
 'The tests use Euclidean and spherical points; an arm that mixes methods or drops an error is invisible for other combinations.',
 [GM, GG, PM, BM], [('dispatch on the method', GM + ' GeomCalc::dist_geom / dist_bbox'), ('with_calc / into_calc', GM + ', ' + GG), ('calc_method passed through constructors', PM + ', ' + BM)],
 [('calc_method', 'calculation method of the tree', PM + ', ' + BM)], ['GeomCalc::dist_geom', 'GeomCalc::dist_bbox', 'QuadTreeSearch::calc_method'])

prop('C15', 'Euclidean distance is the planar distance for every pair of shapes',
 "For each ordered pair of the five supported shapes, through concrete types or either geometry wrapper, the Euclidean distance is the planar distance between exactly those two shapes, a rectangle counting as the filled polygon of its corners; both argument orders agree.",
 ['inputs'], 'all 25 shape pairs, all wrapper forms, all coordinates',
 'The tests measure point-point and point-line only; a wrong arm of the dispatch concerns one pair.',
 [ED, EM], [('5 x 5 dispatch to geo::Euclidean::distance', ED)], (), ['DistEuclidean::dist_euclidean'])

prop('C16', 'Haversine distance supports the same shape pairs in both orders',
 "Haversine distance is available for a point with every supported shape in either argument order, and for two rectangles; both orders give the same value, equal to the corresponding point-shape or rectangle-rectangle calculation, through concrete types or either wrapper. Every other pair yields Error::InvalidDistance, never a wrong value and never unbounded recursion.",
 ['inputs'], 'all 25 shape pairs, all wrapper forms',
 'The tests measure points against points and lines; one direction of one pair can be wrong or missing unnoticed.',
 [SD], [('5 x 5 dispatch', SD)], (), ['DistHaversine::dist_haversine'])

prop('C17', 'Euclidean rectangle distance is the exact gap between the rectangles',
 "The Euclidean distance between two rectangles is 0 when they overlap or touch, the gap along the other axis when their projections overlap or touch on one axis, and the distance between the nearest corners otherwise. It is never negative and is symmetric.",
 ['inputs'], 'all relative positions of two rectangles, touching and degenerate ones included',
 'No test calls it; each relative position takes its own branch.',
 [EM], [('overlap case split', EM + ' dist_rect_rect')], (), ['DistEuclidean for Rect'])

prop('C18', 'Haversine point distance is the great-circle formula, symmetric',
 "The haversine distance of two points is 2*asin(sqrt(sin^2(dlat/2) + cos(lat1)*cos(lat2)*sin^2(dlng/2))) of their radian coordinates, x being the longitude and y the latitude. It is symmetric in its arguments and 0 for equal points.",
 ['inputs'], 'all pairs of points',
 'The unit tests evaluate a few pairs, several on the equator or one meridian where wrong terms vanish.',
 [SM], [('haversine formula', SM + ' dist_pt_pt')], (), ['spherical::math::dist_pt_pt'])

prop('C19', 'Spherical point-to-shape distances reduce to the right nearest piece',
 "The spherical distance from a point to a segment is the point distance to the start, the end or the planar projection onto the segment, according to where that projection falls; to a line string it is the smallest over all its segments; to a polygon it is 0 for points in it and otherwise the smallest over its exterior and all interior rings. To a rectangle it is 0 for points in the closed rectangle and otherwise the distance to the edge facing the point, the left or right edge taking precedence when the point is also above or below.",
 ['inputs'], 'every point, segment, line string, polygon with any number of rings, rectangle',
 'The unit tests sample a few placements; the case split (zero-length segments, each side of a rectangle, several holes) is wider.',
 [SM], [('projection parameter', SM + ' dist_pt_line'), ('minimum over segments', SM + ' dist_pt_linestring'), ('edge choice', SM + ' dist_pt_rect'), ('rings', SM + ' dist_pt_poly')], (), ['spherical::math functions'])

prop('C20', 'Spherical rectangle distance picks the facing edges or corners',
 "The spherical distance between two rectangles is 0 when they overlap or touch; the smaller latitude difference of facing edges when their longitudes overlap; and otherwise the point distance between the facing edges, chosen across the antimeridian when that is nearer in wrapped longitude, at the shared latitude furthest from the equator when their latitudes overlap and at the nearest corner latitudes when they do not.",
 ['inputs'], 'all relative positions of two rectangles including wrapped ones',
 'The unit tests cover a few positions each; sign and side mistakes concern single branches.',
 [SM], [('overlap case split with wrapped longitude', SM + ' dist_rect_rect')], (), ['spherical::math::dist_rect_rect'])

prop('C21', 'Radian conversion converts every coordinate once, in place or not',
 "to_radians returns the same kind of shape with every coordinate of the input, in the same order, converted from degrees to radians exactly once, holes included, and does not alter its input; to_radians_in_place turns the shape into exactly the value that to_radians would have returned. This holds for all five shapes and the geometry wrapper.",
 ['inputs'], 'every shape, any number of coordinates and holes',
 'The tests convert a rectangle and some points; the in-place variants and the other shapes are untested.',
 [SR], [('map_coords / map_coords_in_place with one conversion function', SR)], (), ['ToRadians'])

prop('C22', 'Geometry wrappers preserve the shape they wrap',
 "Converting a shape or a geo::Geometry into the crate's Geometry, viewing it as a geometry reference and taking its bounding box all refer to the same kind of shape with unchanged coordinates; converting a geo::Geometry of any other kind yields Error::UnsupportedGeometry. The bounding box of a wrapper is the bounding box of the wrapped shape, and is missing only when the shape has no coordinates.",
 ['inputs'], 'all five shapes and all other geo::Geometry variants',
 'No test converts a geo::Geometry or asks a wrapper for its bounding box.',
 [GG, GM], [('From / TryFrom / AsGeom / BoundingRect impls', GG + ', ' + GM)], (), ['From, TryFrom, AsGeom, BoundingRect'])

prop('C23', 'No tree operation panics on finite input',
 "Creating a tree, inserting, iterating, retrieving, and searching never panic or overflow when coordinates and distances are not NaN, for every reachable tree, limits, radius and k, including empty trees, limits of 0, the maximum depth and queries outside the bounds; nested calls are bounded by the depth of the tree, so that they do not exhaust the call stack.",
 ['inputs', 'histories', 'configurations'], 'every public tree operation on every reachable tree',
 'Every unwrap, expect, index and arithmetic step relies on an invariant that tests only sample.',
 [ND, IT, PN, BN, KN, SO, PM, BM], [('always four sub-nodes', IT + ' DescendantIter::new'), ('finite distances before sorting', KN + ', ' + SO), ('depth below max_depth before depth + 1', PN + ', ' + BN)], (), ['all public tree operations'])

prop('C24', 'Queries leave the tree untouched and trees are shareable across threads',
 "size, retrieve, iteration, find, find_r, knn, knn_r, sorted and displaying a tree never change the tree's observable state, so their results do not depend on which queries ran before. The trees contain no interior mutability, global state or unsafe code: whenever the datum type is Send or Sync, so is the tree, and concurrent queries through shared references are free of data races.",
 ['inputs', 'histories', 'schedules'], 'every interleaving and history of queries from any number of threads',
 'Tests are single-threaded and never compare repeated queries under sharing; a cache or counter behind a shared reference passes them.',
 [PM, PN, BM, BN, IT, KN, SO, QM], [('queries take &self and hold only plain data', 'all tree types')], (), ['Send / Sync of the tree types'])

prop('C25', 'Stored data can only change through insertion',
 "Outside the crate there is no way to obtain mutable access to a stored datum, to a node, to the counter or to the calculation method of a tree, or to take a datum out: the only public operation that needs a mutable tree is insertion, and everything queries hand out are shared references.",
 ['programs'], 'every program using the public interface',
 'Tests cannot quantify over the programs a user may write.',
 ['src/lib.rs', PM, BM, QM, IT, ND], [('private fields and modules', 'src/lib.rs, ' + PM + ', ' + BM), ('DatumIter yields &D', IT)], (), ['public API surface'])

prop('C26', 'Displaying a tree describes every node once, indented by depth',
 "Displaying a tree writes one header line and then exactly one line for every node, in preorder with sub-nodes in their fixed order, indented in proportion to the node's depth and giving the node's minimum corner and the number of data it holds itself; nothing is omitted and errors of the output sink are passed on.",
 ['inputs', 'histories'], 'every reachable tree, every output sink',
 'One test checks that the header word appears in the output.',
 [ND, PM, BM, PN, BN], [('recursive display', ND + ' Node::display')], (), ['Display for the trees'])

prop('C27', 'Spherical search returns the true great-circle nearest datum',
 "On a tree using spherical distances, find, knn and sorted return the data that are truly nearest on the sphere, also near the poles and across the antimeridian.",
 ['inputs', 'histories'], 'every spherical tree and comparator',
 'The tests sample points in one octant near the equator.',
 [SM, PM, BM, KN, SO], [('node distance as a lower bound of datum distances', SM + ' dist_pt_rect / dist_rect_rect')], (), ['QuadTreeSearch with CalcMethod::Spherical'])

prop('C28', 'Distances are accurate to floating-point precision',
 "Euclidean and haversine distances differ from the exact real value by no more than a small multiple of the rounding unit, for near-coincident and near-antipodal inputs too.",
 ['inputs'], 'all finite coordinates',
 'Tests compare a few values with a tolerance.',
 [EM, SM], [('haversine formula', SM)], (), ['distance functions'])

prop('C29', 'Searches look only into nodes that may hold an answer',
 "find_r and knn_r calculate the distance of a datum below the root only if the node holding it is no farther from the comparator than the radius. find, and knn asked for one neighbour, never calculate the distance of a datum held by a node that is farther away than a datum they have measured before, and sorted never that of a datum held by a node farther away than a datum it has measured but not yet yielded.",
 ['inputs', 'histories', 'configurations'], 'every reachable tree of either kind, every comparator and radius',
 'Tests compare answers only; a search that examines the whole tree answers correctly and is merely slow.',
 [PM, BM, KN, SO], [('pruning by node distance', PM + ', ' + BM), ('distance-ordered stack', KN + ', ' + SO)], (), ['data whose geometry a search asks for', 'running time'])

prop('C30', 'Bounds retrieve leaves out the quadrants the query does not concern',
 "For a query within the bounds, every datum that retrieve on a bounds quadtree yields is stored at a node that contains the query and to which insertion would route it, or anywhere below a sub-node of the last such node whose rectangle meets the query's bounding box; a query that fits the quadrant its centre falls in gets nothing from the other quadrants.",
 ['inputs', 'histories'], 'every reachable bounds quadtree and every query geometry within the bounds',
 'One unit test runs four queries on seven rectangles; extra data from a quadrant that merely shares a coordinate range go unnoticed.',
 [BM, BN, ND], [('overlap filter on sub-nodes', BN + ' retrieve'), ('routing by the centre of the bounding box', ND + ' find_sub_node')], (), ['retrieve'])

with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
