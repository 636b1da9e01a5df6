#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=list(state),
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
A = "src/algorithm/"; K = "src/kernel/"; D = "src/data_structure/"; I = A + "intersection/"; L = A + "location/"

prop("C01", "Two line segments meet exactly where their point sets meet",
 "The intersection of two closed line segments lists their single common point, or, when they overlap, exactly the two ends of the common part, or nothing when they are disjoint; zero-length segments count as points. No point is listed twice, and the answer does not depend on the order of the two segments, on the direction of either, on whether they touch at an end or cross inside, or on where and in what orientation the pair lies.",
 ["inputs"], "all pairs of line segments with moderate coordinates (|x|,|y| up to about 100), including shared ends, T-junctions, collinear, overlapping, nested, identical and zero-length ones",
 "Existing tests try eight hand-picked pairs; the answer is decided by nested sign and tolerance cases, each wrong only for particular relative positions.",
 [I + "line_segment_2_line_segment_2.rs", I + "segment_2_segment_2.rs", L + "point_2_line_segment_2.rs"],
 [("line_segment_2_line_segment_2_intersection", I + "line_segment_2_line_segment_2.rs"), ("segment_2_segment_2_intersection", I + "segment_2_segment_2.rs")],
 observe=["returned point list", "boolean predicate"])
prop("C02", "A line segment meets a circle exactly where its points lie on the circle",
 "The intersection of a line segment with a circle lists exactly the points of the segment at the radius' distance from the centre: none, one (a tangent point, or a crossing with the other end inside) or two, each once. Ends lying exactly on the circle count, a segment strictly inside or outside has none, and neither the order of arguments nor the direction of the segment matters.",
 ["inputs"], "all segments of positive length and circles with moderate coordinates, including tangents, chords, ends on the circle, segments starting at or passing through the centre, and segments inside the circle",
 "Existing tests sample a few positions; inside/outside/tangent/end-on-circle combinations multiply and every branch is separately breakable.",
 [I + "line_segment_2_circle_segment_2.rs", I + "segment_2_segment_2.rs", L + "point_2_circle_segment_2.rs"],
 [("line_segment_2_circle_segment_2_intersection", I + "line_segment_2_circle_segment_2.rs")], observe=["returned point list", "boolean predicate"])
prop("C03", "Two circles meet exactly in the points at both radii's distance",
 "The intersection of two different circles lists exactly the points lying on both: none when apart, nested or concentric, one when they touch from outside or inside, two otherwise, each once. The result is the same set whichever circle comes first and wherever the pair lies.",
 ["inputs"], "all pairs of circles that are not the same circle, with moderate coordinates and radii, including external and internal tangency",
 "Existing tests use a handful of pairs; tangency and nesting are boundary cases between tolerance comparisons.",
 [I + "circle_segment_2_circle_segment_2.rs", I + "segment_2_segment_2.rs"],
 [("circle_segment_2_circle_segment_2_intersection", I + "circle_segment_2_circle_segment_2.rs")], observe=["returned point list", "boolean predicate"])
prop("C04", "An arc meets a curve exactly where its circle does, within the arc's angles",
 "The intersection of an arc with a line segment, a circle or another arc lists exactly the common points of the supporting curves that lie within the angular range of every arc involved, its ends included, whether or not the range passes the zero direction and however many whole turns its angles carry. Two arcs of one circle are represented by the ends of each that lie on the other.",
 ["inputs"], "all arcs with moderate coordinates and any source and target angles, against segments, circles (other than the arc's own) and arcs",
 "Existing tests use a few arcs; the angular test must be right for every pair of angles, wrap-around and ends included.",
 [I + "line_segment_2_arc_segment_2.rs", I + "circle_segment_2_arc_segment_2.rs", I + "arc_segment_2_arc_segment_2.rs", L + "point_2_arc_segment_2.rs"],
 [("point_2_arc_segment_2_location", L + "point_2_arc_segment_2.rs"), ("*_arc_segment_2_intersection", I)], observe=["returned point list", "boolean predicate"])
prop("C05", "Intersection is symmetric and agrees with its predicate, for all pairs of kinds",
 "For any two curves of any kinds, intersecting them in either order gives the same set of points without repetition, and the yes/no predicate is true exactly when that set is not empty. This holds also through the dynamic entry point that only knows both as curves.",
 ["inputs"], "all ordered pairs of curves of the kinds line segment, circle, arc, including coincident ones",
 "Existing tests cover some ordered pairs and some branches; the predicates are separate code from the constructions and can drift apart on inputs no test has.",
 [I + "segment_2_segment_2.rs", I + "line_segment_2_line_segment_2.rs", I + "line_segment_2_circle_segment_2.rs", I + "circle_segment_2_circle_segment_2.rs", I + "circle_segment_2_arc_segment_2.rs", I + "arc_segment_2_arc_segment_2.rs", I + "line_segment_2_arc_segment_2.rs"],
 [("segment_2_segment_2_intersection / is_segment_2_segment_2_intersected", I + "segment_2_segment_2.rs")], observe=["returned point list", "boolean predicate"])
prop("C06", "The sweep finds exactly the intersections of any set of line segments",
 "After any history of pushes of line segments, the sweep's intersection query returns, each once, exactly the points where two or more of the pushed segments meet (for overlapping segments the ends of the common part), whatever the order of pushing and the direction of each segment. Repeating the query, or pushing more and querying again, gives the same as pushing everything to a fresh sweep.",
 ["histories", "inputs"], "all histories of pushes and queries over line segments of positive length with moderate coordinates, including verticals and horizontals, repeated and overlapping segments, many segments through one point",
 "Existing tests run a few fixed scenes; the status structure's order depends on the whole set and every degenerate coincidence is a separate path.",
 [I + "sweep_segment_2_intersection.rs", D + "avl_tree.rs", D + "priority_queue.rs"],
 [("Sweep2::intersection", I + "sweep_segment_2_intersection.rs"), ("event queue and status tree", I + "sweep_segment_2_intersection.rs")], observe=["returned point list"])
prop("C07", "The sweep agrees with pairwise intersection for any mix of curves",
 "For any set of line segments, circles and arcs, the sweep's query returns every point in which two of them intersect pairwise, lists no point twice, and lists no point that does not lie on at least two of the curves. The answer does not depend on the order of pushing, and asking again or pushing further curves behaves as if all had been pushed to a fresh sweep.",
 ["histories", "inputs"], "all histories of pushes and queries over mixes of segments, circles and arcs with moderate coordinates",
 "Existing tests run a few fixed scenes; tangencies, common points of many curves and ends on other curves are not sampled.",
 [I + "sweep_segment_2_intersection.rs", K + "circle_segment_2.rs", K + "arc_segment_2.rs"],
 [("Sweep2::intersection", I + "sweep_segment_2_intersection.rs"), ("monotone", K + "arc_segment_2.rs")], observe=["returned point list"])
prop("C08", "Lines and rays meet exactly where their point sets meet",
 "Two lines, or a line and a ray, that are not parallel report exactly their common point, or none when it would lie behind the ray's origin; parallel ones, identical included, report none. A segment and a ray report exactly their common point, or, when they are collinear, exactly the ends of the segment that lie on the ray; a ray includes its origin and only the half line ahead of it, and the predicates are true exactly when a point is reported.",
 ["inputs"], "all pairs (line, line), (line, ray), (segment, ray) with moderate coordinates, including parallel, collinear, touching at an end or at the ray's origin, and missing each other",
 "Existing tests cover few or none of these pairs; ahead/behind and on-end cases depend on signs and tolerances for every direction.",
 [I + "line_2_line_2.rs", I + "line_2_ray_2.rs", I + "line_segment_2_ray_2.rs", K + "line_2.rs", K + "ray_2.rs"],
 [("*_intersection", I)], observe=["returned optional point", "boolean predicate"])
prop("C09", "A point is located against lines, rays and line segments as it lies",
 "A point is reported on a line, ray or closed line segment exactly when it lies on it, ends and origin included. Relative to a ray or segment any other point is reported left or right of the directed curve, or collinear when it lies on its line beyond it, and the yes/no predicates agree with the location.",
 ["inputs"], "all points and all lines, rays and segments (zero length included for segments, where a point is on it or not) with moderate coordinates",
 "Existing tests locate a few points against axis-parallel curves; collinear-but-outside and slanted cases are not covered.",
 [L + "point_2_line_2.rs", L + "point_2_ray_2.rs", L + "point_2_line_segment_2.rs"],
 [("point_2_line_2_location, point_2_ray_2_location, point_2_line_segment_2_location", L)], observe=["location enum", "boolean predicates"])
prop("C10", "A point is located against circles and arcs as it lies",
 "A point is on a circle, inside or outside it according to its distance from the centre compared with the radius. It is on an arc exactly when it is on the arc's circle in a direction from the centre within the arc's angular range, both ends included.",
 ["inputs"], "all points, circles and arcs with moderate coordinates, and all angles of arcs including ranges across zero and the full turn",
 "Existing tests sample a few points; range membership must hold for all angle pairs.",
 [L + "point_2_circle_segment_2.rs", L + "point_2_arc_segment_2.rs"],
 [("point_2_circle_segment_2_location", L + "point_2_circle_segment_2.rs"), ("point_2_arc_segment_2_location", L + "point_2_arc_segment_2.rs")], observe=["location enum", "boolean predicates"])
prop("C11", "A point is located against a triangle as it lies, in any vertex order",
 "A point is on a triangle's boundary exactly when it lies on one of its edges or corners, inside exactly when it is in the interior, and outside otherwise, whichever way round and from whichever corner the triangle is given. The inside, outside and boundary predicates agree with the location.",
 ["inputs"], "all points and all non-degenerate triangles with moderate coordinates",
 "Existing tests use one triangle; both orientations and the lines that extend the edges matter.",
 [L + "point_2_triangle_2.rs", K + "triangle_2.rs"],
 [("point_2_triangle_2_location", L + "point_2_triangle_2.rs")], observe=["location enum", "boolean predicates"])
prop("C12", "A point is located against any simple polygon as it lies",
 "A point is on a simple polygon's boundary exactly when it lies on one of its edges, inside exactly when the boundary winds around it, and outside otherwise. This holds for convex and non-convex polygons, for either orientation, for any starting vertex and for points level with vertices or in line with edges.",
 ["inputs"], "all points and all simple polygons with moderate coordinates, including collinear consecutive vertices, horizontal edges and deep notches",
 "Existing tests use one or two shapes; the ray-crossing parity is wrong only for points level with particular vertices.",
 [L + "point_2_polygon_2.rs", K + "polygon_2.rs"],
 [("point_2_polygon_2_location", L + "point_2_polygon_2.rs")], observe=["location enum", "boolean predicates"])
prop("C13", "The convex hull is the smallest convex polygon around the points",
 "The convex hull of a list of points has as vertices exactly the extreme points of the set, each once, listed counterclockwise starting from the lowest-x (then lowest-y) one; points inside, on hull edges, or repeated are not vertices. The result does not depend on the order of the input, and one point or collinear points give that point or the two outermost ones.",
 ["inputs"], "all non-empty lists of points with moderate coordinates, in any order, with repetitions and collinear runs",
 "Existing tests check one scene; collinear and repeated points in particular orders decide the stack discipline.",
 [A + "convex_hull/convex_hull_2.rs", K + "point_2.rs"],
 [("convex_hull_2", A + "convex_hull/convex_hull_2.rs"), ("Ord for Point2", K + "point_2.rs")], observe=["returned vertex list"])
prop("C14", "A polygon is simple exactly when its boundary is a simple closed curve",
 "A polygon of three or more vertices is reported simple exactly when consecutive edges share only their common vertex and no other two edges share any point. Crossings, touching vertices, a vertex on another edge, repeated vertices and edges folding back on each other all make it non-simple, for every starting vertex and orientation.",
 ["inputs"], "all vertex lists of length three or more with moderate coordinates",
 "Existing tests check a couple of shapes; touching without crossing is easy to miss and depends on the sweep finding every contact.",
 [K + "polygon_2.rs", I + "sweep_segment_2_intersection.rs"],
 [("Polygon2::is_simple", K + "polygon_2.rs")], observe=["boolean"])
prop("C15", "Polygon area, edges and convexity follow from its vertices",
 "The signed area of a polygon is that of its vertex cycle: positive counterclockwise, negative clockwise, unchanged by choosing another starting vertex or moving the polygon. Fewer than three vertices have area zero. Its edges join consecutive vertices and close the cycle, and a simple polygon is reported convex exactly when no vertex is reflex.",
 ["inputs"], "all simple polygons with moderate coordinates and any starting vertex; area and edges for every vertex list",
 "Existing tests check one area; convexity depends on every consecutive triple, including the ones that wrap around.",
 [K + "polygon_2.rs"], [("area, edges, is_convex", K + "polygon_2.rs")], observe=["area", "edges", "boolean"])
prop("C16", "Ear cutting triangulates every simple polygon",
 "For every simple polygon with n vertices the triangulation has exactly n-2 triangles, all corners being polygon vertices, whose interiors are disjoint, which lie within the polygon and whose areas add up to the polygon's area. It terminates without failing for either orientation, any starting vertex, and polygons with collinear vertices or vertices touching a diagonal. A list of three or more vertices that is not a simple polygon is refused (the call panics).",
 ["inputs"], "all simple polygons with moderate coordinates, convex or not, either orientation",
 "Existing tests triangulate one or two shapes; which ears are cut and in what order depends on the whole polygon.",
 [A + "triangulation/earcut_2.rs", D + "circular_doubly_linked_list.rs"],
 [("earcut_2", A + "triangulation/earcut_2.rs")], observe=["returned triangles"])
prop("C17", "A projection is the nearest point of the line or segment",
 "Projecting a point to a line gives the point of the line nearest to it (the connecting vector is perpendicular to the line). Projecting to a line segment gives that foot when it lies on the segment and otherwise no point, independent of the segment's direction.",
 ["inputs"], "all points, lines and segments of positive length with moderate coordinates",
 "Existing tests project to axis-parallel lines; slanted lines and feet at or beyond segment ends are not covered.",
 [A + "projection/point_2_line_2.rs", A + "projection/point_2_line_segment_2.rs"],
 [("point_2_line_2_projection, point_2_line_segment_2_projection", A + "projection/")], observe=["returned point"])
prop("C18", "An arc keeps its geometry, and its monotone pieces cover exactly the arc",
 "An arc runs counterclockwise on its circle from the direction of its source angle to that of its target angle, whatever whole turns the angles carry, and its reported source and target are the points in those directions (of an arc that is the full turn only the circle is specified). Splitting an arc or circle into monotone pieces yields pieces of the same circle, each wholly in the upper or lower half and marked so, joined end to end without overlap and together covering exactly the original.",
 ["inputs"], "all circles and arcs, all source and target angles including negative ones and several turns",
 "Existing tests split one or two arcs; the pieces depend on where both angles fall relative to the half turns.",
 [K + "arc_segment_2.rs", K + "circle_segment_2.rs"],
 [("ArcSegment2::new, monotone, is_top", K + "arc_segment_2.rs"), ("CircleSegment2::monotone", K + "circle_segment_2.rs")], observe=["angles, ends and pieces"])
prop("C19", "Points are compared by a consistent equality and sweep order",
 "Point equality ignores differences well below the number type's tolerance and separates points that differ by well more; the order is total and consistent with it, and a smaller x, then a smaller y, is the greater point, so that a priority queue of points yields them from left to right and bottom to top. The turn of three points is the sign of their signed area, hence invariant under rotating the triple and opposite under exchanging two points.",
 ["inputs"], "all points with moderate coordinates, for both number types, including pairs closer than the tolerance",
 "Existing tests compare a few points; order and equality laws quantify over all pairs and triples.",
 [K + "point_2.rs", K + "number_type.rs"], [("Ord, PartialEq, turn", K + "point_2.rs"), ("NumberType tolerance", K + "number_type.rs")], observe=["comparison results"])
prop("C20", "Vectors and lines obey plane vector algebra",
 "Vector and point sums, differences, scaling, length, distance, dot and cross product and normalisation are those of the plane (the zero vector normalises to itself); the angle from one vector to another is the counterclockwise one in [0, 2pi). A line through two points contains both, and two lines are equal exactly when they contain the same points, however their coefficients are scaled.",
 ["inputs"], "all vectors and pairs of points with moderate coordinates, for both number types",
 "Existing tests check a few values; angles must be right in every quadrant and on every axis.",
 [K + "vector_2.rs", K + "line_2.rs"], [("Vector2 operations, radian_to", K + "vector_2.rs"), ("Line2::from_points, PartialEq", K + "line_2.rs")], observe=["returned values"])
prop("C21", "A triangle's orientation, area and edges stay consistent through reversals",
 "A new triangle is counterclockwise exactly when its corners turn left, its area is the corners' area with a positive sign for counterclockwise and negative for clockwise, and its edges are directed cyclically joining the corners. After any number of reversals the orientation has flipped that many times, the area has the matching sign and the same size, and the corners are unchanged.",
 ["histories", "inputs"], "all triangles with moderate coordinates and all sequences of reversals and queries",
 "Existing tests reverse one triangle once.",
 [K + "triangle_2.rs"], [("new, orientation, reverse_orientation, area", K + "triangle_2.rs")],
 observe=["orientation", "area", "edges", "vertices"])
prop("C22", "The ordered tree behaves as a sorted container over every history",
 "After any history of insertions, deletions and clears the ordered tree lists exactly the keys inserted and not deleted since, in ascending order. In the mode that keeps equal keys a new one is listed after those present and a deletion removes exactly one of them; in the other mode inserting a present key changes nothing, and deleting an absent key never changes anything. Every operation compares keys only a number of times logarithmic in the number held.",
 ["histories"], "all histories of insert, delete, clear and listing, in both duplicate modes",
 "Existing tests run a few short sequences; rebalancing cases depend on the shape left by the whole history.",
 [D + "avl_tree.rs"], [("AVLTree", D + "avl_tree.rs")],
 state=[dict(name="tree", meaning="multiset of keys in order, balanced", where=D + "avl_tree.rs")],
 observe=["in-order contents", "query results"], hook="cfg(rcgal_verif) makes data_structure public")
prop("C23", "The circular list keeps its ring through every history",
 "After any history of insertions (into the empty list or after an element) and deletions the circular list holds exactly the live elements in ring order: following next from the head visits all of them, ends at the tail and returns to the head, prev is its inverse, and the length matches. Deleting the last element leaves an empty list that can be used again.",
 ["histories"], "all histories of inserting after any element and deleting any element",
 "Existing tests run a few short sequences.",
 [D + "circular_doubly_linked_list.rs"], [("CircularDoublyLinkedList", D + "circular_doubly_linked_list.rs")],
 state=[dict(name="ring", meaning="cyclic sequence of elements", where=D + "circular_doubly_linked_list.rs")],
 observe=["ring traversal forwards and backwards"], hook="cfg(rcgal_verif) makes data_structure public")
prop("C24", "The priority queue always yields the greatest remaining element",
 "Every pop of the priority queue returns a greatest element among those pushed and not popped or cleared since, and nothing exactly when there is none, and emptiness is reported accordingly. Elements that compare equal are all returned.",
 ["histories"], "all histories of push, pop, clear and emptiness queries",
 "Existing tests run one sequence.",
 [D + "priority_queue.rs"], [("PriorityQueue", D + "priority_queue.rs")],
 state=[dict(name="queue", meaning="multiset of elements", where=D + "priority_queue.rs")],
 observe=["returned elements"], hook="cfg(rcgal_verif) makes data_structure public")
prop("C25", "Half-edge records keep the links they were given",
 "A vertex lists exactly the edges added to it and not removed, in order of addition; removing an edge removes those with the same end points in the same direction and no other. An edge returns the ends, twin, next, previous and kind last set for it, its straight form joins its ends, and vertices and edges are equal exactly when their coordinates are.",
 ["histories"], "all histories of adding and removing edges and setting links on a small half-edge structure",
 "Existing tests build one structure.",
 [K + "vertex_2.rs", K + "edge_2.rs"], [("Vertex2 add/remove_edge", K + "vertex_2.rs"), ("Edge2 setters and getters", K + "edge_2.rs")],
 state=[dict(name="links", meaning="edges of a vertex; ends, twin, next, prev of an edge", where=K + "edge_2.rs")],
 observe=["getters", "equality"])
prop("C26", "The WebAssembly interface answers as the native library does",
 "For every call the WebAssembly binding of a shape or algorithm returns the result of the native library for the same arguments, passing every coordinate, angle and list through unchanged and in order.",
 ["inputs"], "all calls of the exported bindings with moderate coordinates",
 "Existing tests only build for the native target and never execute the bindings.",
 ["src/wasm/kernel/*.rs", "src/wasm/algorithm/**/*.rs"], [("wasm-bindgen wrappers", "src/wasm/")], observe=["values returned to JavaScript"])
prop("C27", "Segments, arcs, triangles and edges are equal exactly when they coincide",
 "Two line segments are equal exactly when they have the same source and the same target, two arcs (given within one turn) when they have the same centre, radius and angles, two triangles when they have the same corners in the same order and the same orientation, and two straight edges when they join equal points in the same direction; a straight edge never equals an arc. Equality is symmetric, and differences well below the tolerance in a coordinate or angle do not matter while differences well above it do.",
 ["inputs"], "all pairs of segments, arcs (of less than a full turn), triangles and edges with moderate coordinates",
 "Existing tests compare at most one pair of each; a defect in one coordinate shows only for things that agree in all others.",
 [K + "line_segment_2.rs", K + "arc_segment_2.rs", K + "triangle_2.rs", K + "edge_2.rs"],
 [("PartialEq", K + "line_segment_2.rs"), ("PartialEq", K + "arc_segment_2.rs"), ("PartialEq", K + "edge_2.rs"), ("derived PartialEq", K + "triangle_2.rs")], observe=["boolean"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
