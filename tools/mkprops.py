#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long lines stay editable)."""
import json, os
R='src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[R+f for f in files],
        state=[dict(name=a,meaning=b,where=R+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=R+b) for a,b in mech],
        observe_at=observe or [],hook_needed=None)))
ST=[("root node","the tree of cells and the data each holds","quadtrees/{point,bounds}/mod.rs"),("size","count of accepted data","quadtrees/{point,bounds}/mod.rs")]
p("C01","Every accepted datum stays in the quadtree exactly once",
 "After any sequence of insertions, interleaved with any queries, iterating a quadtree yields exactly the data whose insertion succeeded, each one once (equal data as often as it was inserted), and the reported size is their number. This holds for point and bounds quadtrees, every numeric type, and every maximum depth and maximum children per cell including zero.",
 ["histories","inputs","configurations"],"all insertion histories x all data (duplicates, data on cell borders, data larger than a cell) x all max_depth/max_children x numeric types",
 "Tests insert at most nine data with two configurations, and never check iteration for a bounds quadtree; losing or repeating a datum needs a particular redistribution (cascade, stuck data, zero capacity).",
 ["quadtrees/point/node.rs","quadtrees/bounds/node.rs","quadtrees/point/mod.rs","quadtrees/bounds/mod.rs","iter.rs","node.rs"],
 [("redistribution of children on subdivision","quadtrees/point/node.rs insert, quadtrees/bounds/node.rs insert"),("taking and replacing sub-nodes","same"),("descendant iteration","iter.rs DescendantIter, node.rs descendants")],ST,["IntoIterator for &quadtree","QuadTree::size"])
p("C02","Insertion accepts exactly what lies within the bounds, and fails cleanly",
 "An insertion succeeds exactly when the datum's position (point quadtree) or whole bounding box (bounds quadtree) lies within the closed bounds of the quadtree; borders and corners are inside. Otherwise it fails, with OutOfBounds, or CannotMakeBbox if the geometry has no bounding box. A failed insertion changes nothing that can be observed: size, contents, structure and query results stay as they were.",
 ["inputs","histories","configurations"],"all data (inside, on each border and corner, just outside, straddling, empty, NaN) at every point of every history",
 "Tests try one point that is outside on both axes; each border, straddling boxes, empty geometries, and the state after a failure in a subdivided tree are not tried.",
 ["quadtrees/point/mod.rs","quadtrees/bounds/mod.rs","geom/math.rs","geom/geometry.rs"],
 [("bounds check before delegating","quadtrees/*/mod.rs insert"),("pt_in_rect / rect_in_rect","geom/math.rs")],ST,["Result of QuadTree::insert","QuadTree::size","iteration","Display"])
p("C03","Point retrieve yields exactly the data sharing the position's leaf cell",
 "Retrieving from a point quadtree yields exactly the data held by the one leaf cell that the position falls in: every stored datum at that same position is always included, each datum at most once, and nothing from any other cell. A position outside the closed bounds yields nothing.",
 ["histories","inputs","configurations"],"all histories x all query positions (on cell borders, corners, empty cells, out of bounds) x configurations",
 "Tests retrieve from four positions in shallow trees; routing of queries must agree with routing of insertions for every position, at every depth, including ties on mid-lines.",
 ["quadtrees/point/node.rs","quadtrees/point/mod.rs","node.rs"],
 [("same sub-node choice for insert and retrieve","node.rs find_sub_node"),("leaf contents","quadtrees/point/node.rs retrieve")],ST,["QuadTree::retrieve"])
p("C04","Bounds retrieve never misses a colliding datum",
 "Retrieving from a bounds quadtree with a geometry whose bounding box lies within the bounds yields every stored datum whose bounding box overlaps it (by more than a shared border) or equals it, each at most once. What else it yields is limited to the data held by the cells on the way down to the smallest cell that holds the query box, and everything in those quadrants of that cell which the box touches. A query box that is not wholly within the bounds, or no box at all, yields nothing.",
 ["histories","inputs","configurations"],"all histories x all query boxes (inside one cell, straddling, degenerate, on mid-lines, whole bounds) x configurations",
 "One test with seven rectangles and four queries; a miss needs a particular relative position of query, datum, and the mid-lines of an inner cell.",
 ["quadtrees/bounds/node.rs","quadtrees/bounds/mod.rs","iter.rs","node.rs"],
 [("stuck children yielded on the way down","quadtrees/bounds/node.rs retrieve"),("descendants of every intersecting quadrant","quadtrees/bounds/node.rs retrieve"),("chained iterators","iter.rs ChainSelfIter")],ST,["QuadTree::retrieve"])
p("C05","Cells subdivide exactly by capacity and depth, at their midpoints",
 "A cell subdivides exactly when it is above the maximum depth and more data than the maximum children have come to it, so a leaf above the maximum depth never holds more than that and no cell is deeper than it. Subdividing splits a cell at its midpoint into four quadrants; a datum descends into the quadrant of its position (the centre of its bounding box), with mid-lines belonging to the side of the lower coordinate, except that in a bounds quadtree it stays in a cell whose quadrant for it does not wholly contain its bounding box. The quadtree's display shows one line per cell, in preorder, with its lower corner, its depth by indentation and how many data it holds.",
 ["histories","inputs","configurations"],"all histories x all configurations (max_depth 0..255, max_children 0..n), float and integer coordinates",
 "Two unit tests look inside two tiny trees with max_children 4 and 2; the display is only checked to contain its title.",
 ["node.rs","quadtrees/point/node.rs","quadtrees/bounds/node.rs"],
 [("subdivision guard","quadtrees/*/node.rs insert"),("quadrant choice and split","node.rs find_sub_node, subdivide"),("display","node.rs display")],
 [("children / stuck_children / nodes","data held by a cell, and its quadrants","quadtrees/*/node.rs")],["Display of the quadtree","iteration","retrieve"])
p("C06","Iteration is a complete, repeatable preorder walk",
 "Iterating a quadtree visits cells in preorder, a cell's own data before that of its quadrants, and the quadrants in the fixed order low-x/low-y, high-x/low-y, high-x/high-y, low-x/high-y; the order within one cell is unspecified. Iterating does not consume or change anything, so iterating again yields the same data in the same order of cells, also when an earlier iteration was abandoned, and an exhausted iterator stays exhausted.",
 ["histories","inputs","configurations"],"all tree shapes reachable by insertions (unbalanced, stuck data at several levels, empty quadrants), all partial consumptions",
 "One test iterates a point quadtree with one subdivided cell; bounds quadtrees are never iterated in a test.",
 ["iter.rs","node.rs","quadtrees/point/mod.rs","quadtrees/bounds/mod.rs"],
 [("DescendantIter","iter.rs"),("descendants","node.rs")],[],["IntoIterator for &quadtree"])
p("C07","find returns a nearest datum and its distance",
 "With Euclidean distances, find returns a stored datum that is at least as near to the comparator as every other stored datum, together with its distance, whatever the kind of comparator and data (points, lines, line strings, polygons with or without holes, rectangles) and the shape of the tree. When several are nearest, any one of them may be returned.",
 ["histories","inputs","configurations"],"all histories x all comparators inside or touching the bounds x configurations x geometry kinds",
 "A handful of points and segments, point comparators only; a wrongly skipped cell or datum shows only when the nearest datum lies in that cell.",
 ["quadtrees/point/mod.rs","quadtrees/bounds/mod.rs","geom/mod.rs","geom/euclidean/dist.rs","geom/euclidean/math.rs"],
 [("pruning by cell distance","quadtrees/*/mod.rs find_r"),("bounding-box prefilter","quadtrees/bounds/mod.rs find_r"),("distance dispatch","geom/mod.rs dist_geom, dist_bbox")],ST,["QuadTreeSearch::find"])
p("C08","find_r finds a nearest datum exactly when one is within the radius",
 "With Euclidean distances, find_r returns a nearest stored datum and its distance whenever that distance is at most the radius, a datum at exactly the radius included (a radius of zero finds data at the comparator), and fails with NoneInRadius whenever every stored datum is further away than the radius.",
 ["histories","inputs","configurations"],"all histories x comparators x radii (zero, exactly at a datum, between data, negative, infinite)",
 "One radius is tried, in one tree; the boundary case is never tried.",
 ["quadtrees/point/mod.rs","quadtrees/bounds/mod.rs"],
 [("initial minimum is r; inclusive comparisons","quadtrees/*/mod.rs find_r")],ST,["QuadTreeSearch::find_r"])
p("C09","knn returns the k nearest data in distance order",
 "With Euclidean distances, knn returns min(k, stored) data, each stored datum at most once, with their distances, in non-decreasing order of distance, such that no datum left out is nearer than one returned. For k of zero that is none, and equal distances may come in any order.",
 ["histories","inputs","configurations"],"all histories x comparators x k (0, 1, ..., more than stored) x configurations x geometry kinds",
 "Two tests on one tree of four points, k = 3 only, and point quadtrees only.",
 ["quadtrees/knn.rs","quadtrees/point/mod.rs","quadtrees/bounds/mod.rs","geom/mod.rs"],
 [("best-first work stack","quadtrees/knn.rs")],ST,["QuadTreeSearch::knn"])
p("C10","knn_r returns the nearest k of exactly the data within the radius",
 "With Euclidean distances, knn_r returns what knn would if only the data at a distance of at most the radius were stored: it never returns a datum further away than the radius, and leaves out a datum within the radius (or at exactly the radius) only if it already returns k that are no further away. With nothing within the radius it returns an empty result, not an error.",
 ["histories","inputs","configurations"],"all histories x comparators x k x radii (zero, exact, between, negative, infinite)",
 "One radius on one tree of four points.",
 ["quadtrees/knn.rs"],[("stop once the top of the stack is further than r","quadtrees/knn.rs")],ST,["QuadTreeSearch::knn_r"])
p("C11","sorted yields every datum once, in distance order",
 "With Euclidean distances, the sorted iterator yields every stored datum exactly once with its distance, in non-decreasing order of distance, for any comparator that touches the bounds, and agrees with find and knn on the distances. Once exhausted it stays exhausted.",
 ["histories","inputs","configurations"],"all histories x comparators x configurations x geometry kinds",
 "One test sorts nine points from a corner; bounds quadtrees are never sorted in a test.",
 ["quadtrees/sorted.rs"],[("best-first stack","quadtrees/sorted.rs SortIter")],ST,["QuadTreeSearch::sorted"])
p("C12","Spherical searches return the nearest data by great-circle distance",
 "With spherical distances and a point or rectangle as comparator, find, find_r, knn, knn_r and sorted keep their guarantees (nearest first, nothing nearer left out, radius inclusive) with respect to the great-circle distances of the stored data, up to floating-point rounding. This includes data on the other side of the antimeridian from the comparator and data near the poles.",
 ["histories","inputs","configurations"],"all histories of points, lines, line strings, polygons and rectangles on the sphere x comparators x k and radii",
 "Three tests with a handful of points near the equator in one hemisphere; skipping a cell wrongly needs the antimeridian or high latitudes.",
 ["quadtrees/point/mod.rs","quadtrees/bounds/mod.rs","quadtrees/knn.rs","quadtrees/sorted.rs","geom/mod.rs","geom/spherical/math.rs","geom/spherical/dist.rs"],
 [("cell distance is a lower bound of data distance","geom/spherical/math.rs dist_pt_rect, dist_rect_rect_nearest"),("pruning","quadtrees/*")],ST,["QuadTreeSearch methods with CalcMethod::Spherical"])
p("C13","Euclidean distance is the true planar distance between any two geometries",
 "The Euclidean distance between any two of the supported geometries is the smallest distance between a point of one and a point of the other (the inside of polygons and rectangles belongs to them, the inside of holes does not): zero exactly when they touch or overlap, never negative, and the same in both directions. The distance of a geometry to a bounding box is that to the box as a rectangle.",
 ["inputs"],"all pairs of valid finite geometries of the five kinds (degenerate, nested, in holes, touching, aligned on one axis)",
 "No test covers distances other than point-point and point-line; the rectangle-rectangle test module is an empty TODO.",
 ["geom/euclidean/dist.rs","geom/euclidean/math.rs","geom/mod.rs"],
 [("dispatch on kinds","geom/euclidean/dist.rs"),("dist_rect_rect","geom/euclidean/math.rs")],[],["GeomCalc::dist_geom","GeomCalc::dist_bbox","DistEuclidean"])
p("C14","Spherical distance follows the haversine rules for every supported pair",
 "In radians: two points are at their great-circle distance; a point is at the great-circle distance to the nearest point of a rectangle (zero inside), to the point of a line nearest in longitude/latitude, to the nearest segment so measured of a line string or of a polygon's rings (zero inside a polygon, not in its holes). Two rectangles are at distance zero if they overlap, at their latitude gap if their longitudes overlap, otherwise at the distance between facing sides, the short way around the globe, at the latitude they share that is nearest to a pole, or at their facing corners if they share none. Distances are finite, non-negative and the same in both directions where both are supported; unsupported pairs fail with InvalidDistance rather than yield a number.",
 ["inputs"],"all pairs of geometries of the five kinds with coordinates anywhere on the globe (poles, antimeridian, antipodes, degenerate)",
 "Unit tests cover about twenty rectangles and points, none at a pole or antipodal, and none of the error cases.",
 ["geom/spherical/math.rs","geom/spherical/dist.rs","geom/mod.rs"],
 [("haversine and projections","geom/spherical/math.rs"),("support matrix","geom/spherical/dist.rs")],[],["GeomCalc::dist_geom","DistHaversine"])
p("C15","Queries that cannot be answered fail in the documented way",
 "Without a calculation method find, find_r, knn and knn_r fail with CalcMethodNotSet and sorted yields nothing, while insertion, size, retrieve and iteration work as ever. With one, a comparator that does not touch the closed bounds makes find, find_r, knn and knn_r fail with OutOfBounds, also on an empty quadtree, and sorted yield nothing; a comparator that touches them on an empty quadtree makes find and find_r fail with Empty, while knn and knn_r return an empty result and sorted yields nothing.",
 ["inputs","histories","configurations"],"all calculation methods x all comparators (outside, touching a border or corner, inside) x empty and filled trees x k and r",
 "No test makes a search fail, other than one NoneInRadius.",
 ["quadtrees/point/mod.rs","quadtrees/bounds/mod.rs","quadtrees/knn.rs","quadtrees/sorted.rs","geom/mod.rs","error.rs"],
 [("early errors","quadtrees/*/mod.rs find_r, quadtrees/knn.rs, quadtrees/sorted.rs"),("CalcMethod dispatch","geom/mod.rs")],ST,["QuadTreeSearch methods"])
p("C16","Data that cannot be measured is reported by find and knn and skipped by sorted",
 "When some stored data has no distance to the comparator (an unsupported spherical pair), sorted yields exactly the rest, in distance order. find, find_r, knn and knn_r either fail with InvalidDistance or return a result that is correct for the measurable data; they do fail if they would have to use such data (knn asking for all data without a radius, or find when all data is of that kind). A comparator that cannot be measured at all makes them fail with InvalidDistance and sorted yield nothing.",
 ["inputs","histories","configurations"],"all mixtures of measurable and unmeasurable data x comparators x k and r x tree shapes",
 "No test has a distance that fails.",
 ["quadtrees/knn.rs","quadtrees/sorted.rs","quadtrees/bounds/mod.rs","geom/spherical/dist.rs"],
 [("skip on error","quadtrees/sorted.rs"),("propagate errors","quadtrees/knn.rs, quadtrees/bounds/mod.rs")],ST,["QuadTreeSearch methods"])
p("C17","Contents decide everything: insertion order and queries leave no trace",
 "Two quadtrees of the same kind, bounds and limits holding the same data have the same structure (the same cells holding the same data) and so retrieve the same data, in whatever order it was inserted and whatever queries were made in between. Queries change nothing: the same query on an unchanged quadtree gives the same answer, up to order among equals.",
 ["histories","schedules"],"all permutations of insertions, all interleavings of queries",
 "Every test builds its tree in one order and asks each query once.",
 ["quadtrees/point/node.rs","quadtrees/bounds/node.rs","node.rs","iter.rs"],
 [("capacity rule depends on counts only","quadtrees/*/node.rs insert"),("queries take &self","quadtrees/mod.rs")],ST,["Display","retrieve","all searches"])
p("C18","Every representation of the same geometry behaves the same",
 "A geometry gives the same results as stored datum and as comparator whether it is a plain geometry type, the owned or the borrowed geometry enum, or a user type that produces it, and in single as in double precision (up to rounding); integer quadtrees hold, retrieve and iterate data as floating-point ones do, with midpoints rounded down. Distances asked through the enums, or with either operand wrapped, equal those of the plain types.",
 ["inputs","configurations"],"all geometry kinds x all wrappings of datum and comparator x numeric types x entry points",
 "Tests use f64 with plain points, lines and rectangles only; the enums, f32 and the integers are never used.",
 ["geom/geometry.rs","geom/mod.rs","geom/euclidean/dist.rs","geom/spherical/dist.rs","quadtrees/point/mod.rs","quadtrees/bounds/mod.rs"],
 [("AsGeom implementations and enum dispatch","geom/mod.rs, geom/geometry.rs"),("operand forwarding","geom/*/dist.rs")],[],["all QuadTree and QuadTreeSearch methods","DistEuclidean","DistHaversine"])
p("C19","Conversions keep kind and coordinates",
 "Converting a geometry from degrees to radians multiplies every coordinate of it (ends, rings and holes included) by pi/180, keeps its kind, vertex order and counts, and gives the same in place as by copy. Converting from the general geometry type keeps the five supported kinds as they are and fails with UnsupportedGeometry for every other.",
 ["inputs"],"all geometries of every kind, in both precisions, owned enum or plain",
 "Only point and rectangle conversion is used, in one example, and the enum conversion never.",
 ["geom/spherical/to_radians.rs","geom/geometry.rs"],
 [("ToRadians implementations","geom/spherical/to_radians.rs"),("From / TryFrom","geom/geometry.rs")],[],["ToRadians","Geometry::from","Geometry::try_from"])
p("C20","Every operation terminates without panicking, at any size and shape of tree",
 "For finite data and bounds whose extents are representable in the numeric type (for searches, the squares of distances too, without overflow or underflow, down to the size of the smallest cell), every insertion, query and iteration terminates without panicking or exhausting the stack. This includes every maximum depth from 0 to 255, a maximum children of zero, bounds without width or height, coincident data, large trees, trees in which many cells or data are passed over before a result, and iterators used after they are exhausted.",
 ["inputs","histories","configurations"],"all configurations x degenerate and extreme inputs x tree sizes up to tens of thousands",
 "Tests use at most nine data and depth 4.",
 ["quadtrees/sorted.rs","quadtrees/knn.rs","quadtrees/point/node.rs","quadtrees/bounds/node.rs","iter.rs","node.rs"],
 [("depth guard takes priority over capacity","quadtrees/*/node.rs insert"),("non-recursive sorted iterator","quadtrees/sorted.rs")],ST,["every public method"])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
