#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one P(...) per property)."""
import json, os
OUT = []
def P(id, title, statement, quant, why, files, mech, over=("inputs",), observe=(), state=()):
    assert len(title) <= 80, title
    OUT.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

PE = "src/planar/primitives/envelope.rs"; LE = "src/linear/primitives/envelope.rs"
PP = "src/planar/primitives/position.rs"; LP = "src/linear/primitives/position.rs"
PS = "src/planar/primitives/segment.rs"; LS = "src/linear/primitives/segment.rs"
PT = "src/planar/types/"; PV = "src/planar/validation/"; FB = "src/flatbush/mod.rs"
HB = "src/flatbush/hilbert.rs"; LR = "src/planar/algorithms/loop_relation.rs"
CH = "src/planar/algorithms/convex_hull.rs"; WK = "src/serde/wkt.rs"; LT = "src/linear/types/"

P("C01", "A bounding box is normalised however its two corners are given",
  "Building a planar or linear bounding box from any two positions yields, independently on every axis, the smaller coordinate in the lower corner and the larger in the upper corner, whichever order or diagonal the positions are given in; a NaN coordinate yields to the other one. The box of a position or of a segment is the box of its end positions, and the lower-corner and upper-corner accessors return exactly these corners, or nothing for the empty box.",
  "every pair of positions, including NaN coordinates, and every relative order of the coordinates on each axis",
  "Tests build a dozen boxes with one or two diagonals; the claim is over every order of every axis, and swapped-axis or swapped-corner slips hide on the sampled diagonals.",
  [PE, LE, PP, LP, PS, LS, "src/coordinate.rs"],
  [("componentwise min/max construction", "Envelope::new, Position::min/max/min_max, Coordinate::min_max"), ("box of a position or segment", "HasEnvelope impls")],
  observe=["Envelope::new", "Envelope::min", "Envelope::max", "HasEnvelope::envelope"])
P("C02", "Box containment and intersection are the exact closed-box predicates",
  "For planar and linear boxes, 'a contains b' is true exactly when, on every axis, a's lower bound <= b's lower bound and b's upper bound <= a's upper bound, and 'a intersects b' exactly when on every axis each lower bound <= the other's upper bound (touching counts). Both answers are false as soon as either box is empty.",
  "every pair of boxes, every ordering of their eight (planar) or four (linear) bounds including ties, and the empty box on either side",
  "The tests compare a few hand-picked boxes; a strict comparison, or a comparison dropped on one side of one axis, only shows on ties or on one of the orderings of eight bounds.",
  [PE, LE], [("closed-interval comparisons per axis", "Envelope::contains, Envelope::intersects")],
  observe=["Envelope::contains", "Envelope::intersects"])
P("C03", "Merging boxes gives the least box covering them, with empty as identity",
  "Merging or expanding a planar or linear box with another yields on every axis the minimum of the lower bounds and the maximum of the upper bounds, and the empty box is the identity on either side; in-place expansion agrees with merging. The box of a sequence of items is the merge over every item of the sequence, starting from the empty box.",
  "every pair of boxes (every order of the bounds, empties on each side) and every finite sequence of items",
  "Tests merge a handful of boxes; dropping an item, an axis, or the empty-identity rule is only visible for particular orders and sequences.",
  [PE, LE], [("union of two boxes", "Envelope::merge, Envelope::expand"), ("fold over a sequence", "Envelope::of")],
  observe=["Envelope::merge", "Envelope::expand", "Envelope::of"])
P("C04", "Buffering and centring a box use its own bounds on each axis",
  "Buffering a box by d lowers every lower bound by d and raises every upper bound by d, leaving the empty box empty. The centre of a box is on each axis the mean of that axis's bounds, and the empty box has no centre.",
  "every box and every buffer distance",
  "The existing tests never buffer a box and take the centre of symmetric boxes only, on which swapped axes or bounds cannot be seen.",
  [PE, PP], [("buffer / center", "Envelope::buffer, Envelope::center")], observe=["Envelope::buffer", "Envelope::center"])
P("C05", "Finiteness validation accepts exactly finite, ordered coordinates",
  "Validating a position, point or segment (planar or linear position and segment) succeeds exactly when every one of its coordinates is finite, and otherwise returns an error. Validating a box succeeds exactly when it is empty, or all its bounds are finite and the lower bound does not exceed the upper bound on any axis.",
  "every combination of finite, infinite and NaN coordinates and every order of box bounds",
  "Tests feed one or two NaN positions; forgetting one coordinate of one end, or accepting infinities, is invisible to them.",
  [PP, LP, PS, LS, PE, LE, PV + "point.rs"], [("validate", "Position::validate, Segment::validate, Envelope::validate, Point::validate")],
  observe=["Position::validate", "Segment::validate", "Envelope::validate", "Point::validate"])
P("C06", "Position arithmetic, products and conversions act componentwise",
  "Sum, difference, scaling and division of positions act on each coordinate separately; the cross product is x1*y2 - y1*x2 and the dot product x1*x2 + y1*y2. Conversions between coordinate pairs, arrays, NaN-free keys and positions keep every coordinate on its own axis, the conversion to a NaN-free key fails exactly when some coordinate is NaN, and positions are equal exactly when all their coordinates are.",
  "every pair of planar or linear positions and every scalar",
  "Only a few symmetric values are tested; swapped axes or operands survive symmetric samples.",
  [PP, LP], [("operator impls, cross/dot, From impls", "Position")], observe=["Position"])
P("C07", "Orientation and measures follow their defining formulas",
  "A position is reported left of, on, or right of a segment's line exactly as the cross product of the segment's direction with the offset from the segment's start is positive, zero or negative. Squared length, length, determinant, signed and absolute triangle area equal their textbook polynomial in the coordinates, and the length of a polyline (or collection) is the sum of the lengths of all its consecutive segments.",
  "every segment, triangle, polyline and position with non-NaN coordinates",
  "Tests evaluate each formula on a few unit-size shapes, where sign or operand slips cancel; the identity has to hold in every coordinate.",
  [PS, "src/planar/primitives/triangle.rs", PT + "line_string.rs", PT + "multi_line_string.rs"],
  [("position_location, length, determinant, area", "Segment, Triangle, LineString::length, MultiLineString::length")], observe=["Segment::position_location", "Segment::length", "Triangle::area", "LineString::length"])
P("C08", "Two segments intersect as the geometry of their carrier lines dictates",
  "For non-degenerate segments with non-parallel directions the intersection is a single position iff the crossing parameters lie in the closed unit interval on both segments; for parallel segments it is empty unless they are collinear and their parameter ranges overlap, in which case it is the position or sub-segment spanned by the clamped overlap. A zero-length segment intersects another segment in its own position exactly when that position lies on the other segment.",
  "every pair of segments with finite coordinates (over exact arithmetic), including parallel, collinear, touching and zero-length ones",
  "The tests list some twenty configurations; each guard combines several sign conditions, and a bound made strict or a swapped parameter only shows on particular configurations.",
  [PS], [("intersection by cross products", "Segment::intersect_segment"), ("on-segment test", "Segment::contains")], observe=["Segment::intersect_segment", "Segment::contains"])
P("C09", "Segments sharing an end position meet exactly there, bit for bit",
  "When two segments that do not overlap share an end position, the position reported as their intersection is that end position itself, not a recomputed approximation of it. Whenever an overlap reaches an end of the first segment, the reported overlap uses that end unchanged.",
  "every pair of segments sharing an end, whatever the magnitudes of their coordinates",
  "Exactness depends on rounding: tests use small integers, where recomputed positions happen to be exact, and validity checks compare these positions for equality.",
  [PS, PV + "line_string.rs", PV + "multi_line_string.rs", LR], [("shared ends returned unchanged", "Segment::intersect_segment")], observe=["Segment::intersect_segment", "LineString::validate"])
P("C10", "A geometry's reported box is the union of its parts' boxes",
  "Whichever constructor or conversion builds a geometry, the bounding box it reports is the merge of the boxes of all the positions (points, polylines, polygons) it was built from; for a polygon, of its exterior ring. No operation of the library changes the reported box or the parts of an existing geometry afterwards.",
  "every public constructor and conversion of every planar and linear type, every input sequence, and every sequence of later library calls",
  "The cached box is set separately in each constructor; tests read it for few of them and cannot show that no method leaves it stale.",
  [PT + "line_string.rs", PT + "polygon.rs", PT + "multi_point.rs", PT + "multi_line_string.rs", PT + "multi_polygon.rs", LT + "multiline.rs", LT + "multipoint.rs"],
  [("box computed in every constructor", "new / From impls"), ("no writes after construction", "all methods take &self")], over=("inputs", "histories"), observe=["HasEnvelope::envelope"],
  state=[("cached box", "bounding box computed at construction", "planar and linear collection types")])
P("C11", "Constructors and conversions keep every part, once and in order",
  "Building a polyline, polygon, multi-geometry, segment, triangle or linear type from a list or tuple keeps every given element exactly once, in the given order and role (start/end, exterior/holes), with no element dropped, duplicated or reordered.",
  "every constructor and conversion, every input length",
  "Tests convert lists of two or three elements and mostly look at the box or validity of the result.",
  [PT + "line_string.rs", PT + "polygon.rs", PT + "multi_point.rs", PT + "multi_line_string.rs", PT + "multi_polygon.rs", PS, "src/planar/primitives/triangle.rs", LT + "line.rs", LT + "multiline.rs", LT + "multipoint.rs"],
  [("From impls and new", "types")], observe=["From impls", "new"])
P("C12", "The geometry wrapper is lossless and delegates to the wrapped value",
  "Wrapping a concrete geometry keeps its kind and value, each as-kind accessor returns the wrapped value exactly when the kind matches and nothing otherwise, and the empty accessor succeeds exactly for empty geometries. Dimension, type name, box, emptiness, simplicity and boundary of the wrapper are those of the wrapped value for every kind.",
  "all seven kinds x every wrapper operation and every wrapped value",
  "7 kinds x 13 operations are dispatch entries; tests hit only a few, and a crossed entry is silent when the values coincide.",
  [PT + "geometry.rs"], [("enum dispatch", "delegate_accessor!, From impls, as_*")], observe=["Geometry"])
P("C13", "Dimension and type name are fixed per kind",
  "Empty geometries, points and multipoints have dimension 0, polylines and collections of them 1, polygons and multipolygons 2, for every value. The type name of each kind is its own OGC-style name, distinct between kinds and independent of the value.",
  "every value of all seven kinds",
  "The tests never call these accessors for most kinds.",
  [PT + f for f in ("empty.rs", "point.rs", "multi_point.rs", "line_string.rs", "multi_line_string.rs", "polygon.rs", "multi_polygon.rs")],
  [("dimension / geometry_type", "per type")], observe=["dimension", "geometry_type"])
P("C14", "Emptiness and closedness mean what their parts say",
  "A polyline or multipoint is empty exactly when it has no positions, a polygon when its exterior is, and a collection when all its members are; planar points never are and the Empty geometry always is; a box is empty exactly when it is the empty box. A polyline is closed exactly when it has at least four positions and its first equals its last; a collection of polylines is closed when all of them are, and a polyline is a ring when it is closed and simple.",
  "every geometry value of every size",
  "Tests look at one or two sizes; an any/all confusion or an off-by-one size bound needs collections mixing empty and non-empty members, or three-position loops.",
  [PT + f for f in ("empty.rs", "point.rs", "multi_point.rs", "line_string.rs", "multi_line_string.rs", "polygon.rs", "multi_polygon.rs")],
  [("is_empty / is_closed / is_ring", "per type")], observe=["is_empty", "is_closed", "is_ring"])
P("C15", "Element accessors return the element asked for, or nothing",
  "Counting, indexed, first and last accessors of polylines and linear collections return exactly the element at that place of the stored sequence, and nothing when it does not exist. Segment i of a polyline joins its i-th and (i+1)-th positions, and iterating its segments yields all n-1 of them in order; asking for a segment that does not exist panics, as documented, and never invents one.",
  "every sequence length and every index",
  "Tests index into short sequences in range; off-by-one and swapped-end slips show at the bounds.",
  [PT + "line_string.rs", PT + "multi_point.rs", PT + "point.rs", LT + "line.rs", LT + "multiline.rs", LT + "multipoint.rs"],
  [("get_point/get_segment/segments_iter/start_point/end_point/num_points", "types")], observe=["get_point", "get_segment", "segments_iter"])
P("C16", "Boundary of points, polylines and polygons follows the OGC rule",
  "The boundary of the Empty geometry, of a point and of a multipoint is empty; that of a closed or position-less polyline is empty and that of any other polyline is its first and last positions in this order. The boundary of a polygon is its exterior followed by all its holes, and the boundary of a multipolygon is the concatenation of the boundaries of all its polygons that have a non-empty ring.",
  "every geometry of these kinds",
  "Tests check boundaries of a few shapes; no test has holes, several polygons or empty members at once.",
  [PT + f for f in ("empty.rs", "point.rs", "multi_point.rs", "line_string.rs", "polygon.rs", "multi_polygon.rs")],
  [("boundary", "per type")], observe=["boundary"])
P("C17", "Multi-polyline boundary is the odd-count endpoints, sorted and unique",
  "A position is in the boundary of a collection of polylines exactly when it is an endpoint of an odd number of its open polylines (positions with NaN are ignored); the boundary lists each such position once, in ascending order, and is empty when there is none.",
  "every collection of polylines and every multiplicity of shared endpoints",
  "Parity needs the same endpoint three or more times; tests share endpoints at most twice and never mix closed members in.",
  [PT + "multi_line_string.rs"], [("toggle in an ordered set", "MultiLineString::boundary")], observe=["MultiLineString::boundary"])
P("C18", "A geometry is simple exactly when its validation succeeds",
  "For every kind of geometry the simplicity query answers true exactly when validation of the same value returns success; the Empty geometry is simple and valid.",
  "every value of all seven kinds",
  "Tests query simplicity on a few shapes per kind; agreement must hold for every value.",
  [PT + f for f in ("empty.rs", "point.rs", "multi_point.rs", "line_string.rs", "multi_line_string.rs", "polygon.rs", "multi_polygon.rs")],
  [("is_simple", "per type")], observe=["is_simple", "validate"])
P("C19", "Polyline validation accepts exactly the documented polylines",
  "A polyline is valid exactly when it is empty, or has at least two positions, all finite, no two consecutive ones equal, and no two of its segments meet except consecutive segments at their shared position and, for a closed polyline, the first and last segments at the closing position. Every segment and every pair of segments with intersecting boxes is examined before success is reported.",
  "every polyline (any length, any pair of segments)",
  "Tests validate about twenty short polylines; a skipped pair, a wrong adjacency exemption or an open polyline touching its start with its last segment is outside them.",
  [PV + "line_string.rs", FB], [("validation loop with spatial index", "LineString::validate"), ], observe=["LineString::validate"])
P("C20", "Multipoint validation rejects exactly bad or repeated points",
  "A multipoint is valid exactly when all its points are finite and pairwise different. Making it simple keeps exactly the finite points, each once, in ascending order, and gives the Empty geometry when none remains.",
  "every multipoint",
  "Duplicates at any distance and any mix of invalid points must be caught; the tests have adjacent duplicates and one NaN.",
  [PV + "multi_point.rs", PT + "multi_point.rs"], [("hash-set duplicate check", "MultiPoint::validate"), ("ordered set", "MultiPoint::make_simple")], observe=["MultiPoint::validate", "MultiPoint::make_simple"])
P("C21", "Polygon validation checks every ring and every pair of rings",
  "A polygon is reported valid only if it is empty, or its exterior and each hole are closed valid polylines, each hole is contained in the exterior, and every two holes with intersecting boxes are separate; any other outcome of these comparisons is an error, and a polygon satisfying all of them is never rejected. Rings are compared only after both were found closed and valid.",
  "every polygon, any number of holes, every pair of holes",
  "Tests have at most two holes; skipping a hole, a pair or one relation outcome goes unseen.",
  [PV + "polygon.rs", FB, LR], [("ring checks", "Polygon::validate")], observe=["Polygon::validate"])
P("C22", "Multi-polyline validation checks members and every crossing pair",
  "A collection of polylines is reported valid exactly when every member is valid and any two members with intersecting boxes meet only in isolated positions that are in the boundary (end positions) of both; overlaps, and meetings with a closed member, are errors. Every pair of members and every pair of their segments with intersecting boxes is examined before success is reported.",
  "every collection of polylines and every pair of segments of different members",
  "Tests cover pairs of two-segment lines only; a dropped pair or an 'or' for an 'and' in the endpoint rule goes unseen.",
  [PV + "multi_line_string.rs", FB], [("pairwise segment check", "MultiLineString::validate")], observe=["MultiLineString::validate"])
P("C23", "Multipolygon validation checks members and every overlapping pair",
  "A collection of polygons is reported valid exactly when every member is valid and, for any two members with intersecting boxes, their exteriors are separate, or one exterior lies within the other polygon's exterior and within one of that polygon's holes while being separate from the holes before it. Crossing exteriors, an exterior crossing or containing a hole, and nesting outside any hole are errors.",
  "every collection of polygons, every pair, every number of holes",
  "Tests have a few pairs with at most one hole; swapped nesting roles, a missed hole, or state carried over from another pair needs more.",
  [PV + "multi_polygon.rs", FB, LR], [("pairwise exterior/hole check", "MultiPolygon::validate")], observe=["MultiPolygon::validate"])
P("C24", "Ring comparison classifies by vertex parity and never panics",
  "When validation compares two closed valid rings, they are taken as separate when their boxes do not meet, and as crossing when two of their segments overlap, meet away from every segment end, or vertices of one ring lie both inside and outside the other; otherwise each ring is inside or outside the other by the even-odd rule over the other's segments, each taken half-open in y under one convention for all of them. A ring all of whose vertices lie on the other says nothing by itself: the other ring decides, and nothing panics. Two rings that would each be inside the other, or that both have all their vertices on the other, are taken as crossing.",
  "every pair of closed rings with finite coordinates, including rings touching at all their vertices",
  "The tests compare some twenty ring pairs; shared vertices everywhere, vertices on the level of other vertices and the y-band traversal are each sampled once or never.",
  [LR, PS, FB], [("crossing rule", "Segment::find_winding_number"), ("parity classification", "loop_relation"), ("y-band traversal", "loop_relation")], observe=["Polygon::validate", "MultiPolygon::validate"])
P("C25", "The spatial index stores every item once under covering nodes",
  "Building the index (sorted or not) from n items stores each item's own index with that item's box exactly once at the leaf level, pads every level up to a multiple of the degree with never-matching empty boxes, and gives every parent the merge of the boxes of exactly its own children. The root is the last node and its box is reported as the index's box; the index of no items is a single empty node.",
  "every number of items, every degree that is a power of two >= 2, every item order",
  "Level arithmetic breaks at particular counts (degree, degree+1, degree squared...); tests build a few sizes with degrees 4 to 16 and never look at parent boxes.",
  [FB, HB, PE], [("level-by-level packing", "Flatbush::new/new_unsorted"), ("child addressing", "Flatbush::get_children, root_node")], over=("inputs", "configurations"), observe=["Flatbush::new", "Flatbush::get_children", "Flatbush::root_node"],
  state=[("tree", "all nodes, level by level", FB), ("level offsets", "first node of each level", FB)])
P("C26", "Index queries report exactly the items whose boxes meet the query",
  "A box query returns every item whose box intersects the query box and no other, each once; a within-distance query is the box query with the position's box extended by the distance on each side of each axis. Subtrees are discarded only because their own box does not intersect the query.",
  "every built index and every query box, position and distance",
  "Completeness is over all trees and queries; tests compare small grids.",
  [FB], [("pruned traversal", "Flatbush::find_intersection_candidates"), ("distance query", "Flatbush::find_candidates_within")], over=("inputs", "configurations"), observe=["Flatbush::find_intersection_candidates", "Flatbush::find_candidates_within"])
P("C27", "The self-join reports every intersecting pair once, smaller index first",
  "The self-join of an index returns, for any two different items whose boxes intersect, the pair of their indices exactly once with the smaller index first, and nothing else; an item is never paired with itself. Subtree pairs are discarded only when their boxes do not intersect or as the mirror image of a pair that is kept.",
  "every built index (any size, degree and leaf order)",
  "Losing or doubling pairs depends on where items land in the tree; tests join a few small sets.",
  [FB], [("pair traversal with mirror removal", "Flatbush::find_self_intersection_candidates")], over=("inputs", "configurations"), observe=["Flatbush::find_self_intersection_candidates"])
P("C28", "The join of two indexes reports every intersecting pair, first index first",
  "Joining two indexes returns the pair (index in the first, index in the second) for every two items whose boxes intersect, exactly once, and nothing else, whatever the two tree heights and degrees are. Node pairs are discarded only when their boxes do not intersect, and each node's children come from its own index.",
  "every pair of built indexes, including different heights and degrees",
  "Tests join trees of two sizes with the same degree; the descent rule matters when heights differ either way.",
  [FB], [("pair traversal descending the higher node", "Flatbush::find_other_rtree_intersection_candidates")], over=("inputs", "configurations"), observe=["Flatbush::find_other_rtree_intersection_candidates"])
P("C29", "The space-filling-curve key only orders items and is total",
  "The curve key influences only the order of the leaves: it is computed for every item whatever its box (empty, degenerate, infinite or NaN items, or items all on one vertical or horizontal line) without panicking, and items without a usable centre, or with a centre outside the total box, sort last. A usable centre is scaled per axis from the total box to the 16-bit grid.",
  "every list of items with any coordinates",
  "A panic needs all items on one axis-parallel line, or non-finite or extreme coordinates; the tests spread items in both axes.",
  [HB, FB], [("scaling and guards", "Hilbert::new, safe_hilbert, hilbert")], observe=["Flatbush::new"])
P("C30", "WKT conversion keeps kind, coordinates, order and emptiness",
  "Parsing WKT yields one geometry per parsed item in order, of the matching kind, with every coordinate pair kept as (x, y) in order, the first ring of a polygon as exterior and the others as holes in order. An empty point or a polygon without rings becomes the Empty geometry, or is left out inside a multi-geometry.",
  "every WKT text",
  "Tests parse one example per kind.",
  [WK], [("per-kind conversion", "from_wkt_*")], observe=["parse_wkt"])
P("C31", "WKT parsing reports problems as errors and never panics in the crate",
  "Parsing any text returns either geometries or an error: a parser error is returned to the caller, and a geometry kind the library does not support is reported as an error rather than by panicking or being silently dropped.",
  "every input text, including geometry collections, alone or nested",
  "Tests parse supported kinds only.",
  [WK], [("error propagation", "parse_wkt"), ("exhaustive kinds", "from_wkt_geometry")], observe=["parse_wkt"])
P("C32", "Results are deterministic: hash order never reaches an output",
  "Every public operation returns the same result for the same arguments in every run: iteration order of hash-based containers never influences a returned value, and where sets are turned into geometry output an ordered container is used.",
  "every run (random hash seeds) and every input",
  "Hash seeds differ per process; a test sees one order per run and accepts it.",
  [PT + "multi_point.rs", PT + "multi_line_string.rs", LR, PV + "multi_point.rs"], [("ordered sets for output; hash sets only for membership", "MultiPoint, MultiLineString, loop_relation")], over=("inputs", "schedules"), observe=["make_simple", "boundary", "validate"])
P("C33", "The library is pure: no shared state, I/O, unsafe code or hidden mutation",
  "Operations depend only on their arguments: no global or thread-local state, interior mutability, I/O, time, randomness or unsafe code is used, so shared references can be used from several threads at once and repeated queries agree. All geometry and index types are Send and Sync for every coordinate type.",
  "every call history and thread interleaving",
  "A test cannot exclude hidden state or show thread-safety for all interleavings.",
  ["src/"], [("plain data, &self queries", "whole crate")], over=("schedules", "histories"), observe=["every public function"])
P("C34", "The convex hull is a closed chain of exterior vertices kept by right turns",
  "The hull of a polygon is a closed sequence (first position equals last) made only of positions of its exterior, obtained by examining every exterior position; a position is skipped only when it is strictly left of neither current end edge of the hull, and hull positions are removed only while the turn they make is not a right turn in the construction order.",
  "every simple closed exterior",
  "Tests hull three small shapes; a dropped vertex, a wrong end or a weakened turn test needs particular vertex orders.",
  [CH, "src/planar/algorithms/implementation.rs"], [("deque construction", "convex hull")], observe=["Polygon::convex_hull"])
P("C35", "Representative points depend on the geometry they represent",
  "The point-on-surface of a polygon is the start of its exterior (nothing when empty) and that of a multipolygon is the one of its first non-empty polygon. The centroid of a polygon or multipolygon is a function of its positions: it moves when the geometry is translated.",
  "every polygon and multipolygon",
  "Tests do not call these functions.",
  [PT + "polygon.rs", PT + "multi_polygon.rs"], [("point_on_surface, centroid", "Polygon, MultiPolygon")], observe=["centroid", "point_on_surface"])
P("C36", "The one-dimensional types are consistent with their stored data",
  "A linear point is empty exactly when its coordinate is NaN, and then has no coordinate and an empty box; a linear line without segment is empty with an empty box and no ends, otherwise its ends and box are its segment's; linear multi-types are empty exactly when they hold no elements, and their empty constructors give that state with an empty box. Every constructor and conversion of a one-dimensional type keeps the given elements in order and its value reports the union of their boxes, and counting or getting elements answers from the stored ones (nothing beyond the last).",
  "every linear value",
  "Each accessor is tested on one or two values, mostly non-empty.",
  [LT + "point.rs", LT + "line.rs", LT + "multiline.rs", LT + "multipoint.rs"], [("emptiness and accessors", "linear types")], observe=["linear::types"])
P("C37", "Validation and index queries do not panic on any geometry",
  "Validating any geometry, asking whether it is simple, closed, empty or for its boundary, and building or querying an index with a degree that is a power of two >= 2, never reaches an explicit panic or a failing unwrap for any coordinates, including NaN, infinities, empty and degenerate parts; indexing uses only indices below the length of the sequence indexed, and no length or index computation goes below zero. Rings are compared only when both have passed validation and are closed, and comparing such rings never panics.",
  "every geometry value with arbitrary coordinates",
  "Panics sit on paths that need degenerate or special inputs no test has.",
  [PV, FB, HB, LR, PT], [("guards before every unwrap/index/panic", "validation, index, ring comparison")], observe=["validate", "is_simple", "Flatbush"])
P("C38", "The index refuses unsupported degrees instead of misbehaving",
  "Building an index with a degree that is not a positive power of two is refused by a panic before any tree is built, for sorted and unsorted construction alike; a supported degree is recorded unchanged and used for packing and for child addressing.",
  "every degree and every item list",
  "One test passes one bad degree to one constructor.",
  [FB], [("degree check", "Flatbush::new, Flatbush::new_unsorted")], over=("configurations", "inputs"), observe=["Flatbush::new", "Flatbush::new_unsorted"])
P("C39", "Equality compares kind and every part in order; clones are equal",
  "Two positions, segments, boxes, segment intersections or geometries (planar and one-dimensional) are == exactly when they are of the same kind and have the same number of parts with equal coordinates in the same order; nothing of the stored parts is ignored and nothing else (direction, rotation, ring start, emptiness) is identified. Geometries of different kinds are never equal, even when both are empty. A clone is the value it was cloned from.",
  "every pair of values of every type",
  "Tests compare a few equal values; that no two different values compare equal needs all of them: same boxes, same lengths, equal prefixes, reversed or rotated sequences.",
  [PT + f for f in ("line_string.rs", "polygon.rs", "multi_point.rs", "multi_line_string.rs", "multi_polygon.rs", "geometry.rs", "point.rs")] + [PE, PS, PP],
  [("PartialEq, Clone", "per type")], observe=["== on geometries", "clone"])
P("C40", "Every operation terminates",
  "No operation of the crate loops or recurses forever, whatever the geometry, box, index, degree or text it is given: every loop takes a step of a finite sequence in every round, or moves towards a bound it cannot pass (elements left to take, levels left to build or to descend), and no function reaches itself.",
  "every loop and every call cycle of the crate, every input",
  "A test that ends says nothing of the next input; a loop that stalls needs a particular size, degree or coincidence of coordinates.",
  [FB, CH, LR] + [PV + f for f in ("polygon.rs", "line_string.rs", "multi_line_string.rs", "multi_polygon.rs", "multi_point.rs")], [("worklists", "index queries"), ("packing loop", "index construction"), ("hull loops", "convex hull")], observe=["termination of every public operation"])
P("C91", "The curve key is a bijection that preserves locality",
  "The curve key maps the cells of the 65536 x 65536 grid one-to-one onto the 32-bit integers, and the cells with keys k and k + 1 always share a side, so that items close in key are close in the plane.",
  "all 2^32 grid cells", "Tests compare some hundred cells.", [HB], [("bit-parallel curve", "hilbert_normalized")], observe=["Flatbush::new"])
# ---- not applicable -------------------------------------------------------
P("C90", "The convex hull is convex, minimal and covers the exterior",
  "For every simple closed exterior the returned hull is convex and no smaller convex region contains all positions of the exterior.",
  "every simple polygon", "Tests hull three small shapes.", [CH], [("Melkman's algorithm", "convex hull")], observe=["Polygon::convex_hull"])
P("C92", "Ring comparison gives the true topological relation",
  "For every pair of simple rings the relation found is the topological one (separate, contains, within, crosses), including rings that touch at arbitrarily many positions.",
  "every pair of simple rings", "Tests compare some twenty pairs.", [LR], [("vertex parity", "loop_relation")], observe=["Polygon::validate"])
P("C93", "Intersection verdicts are robust to floating-point rounding",
  "The verdicts of intersection and validation are those of exact real arithmetic for every finite input.",
  "every finite input", "Tests use small integers.", [PS, LR], [("plain floating-point predicates", "Segment")], observe=["Segment::intersect_segment", "validate"])
P("C94", "Index queries visit a logarithmic number of nodes on average data",
  "For well-distributed items the number of nodes visited by a box query grows logarithmically with the number of items, plus the number of results.",
  "all item counts", "No performance test exists.", [FB, HB], [("packed tree, curve order", "Flatbush")], observe=["Flatbush"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for o in OUT: f.write(json.dumps(o) + "\n")
    print(len(OUT))
