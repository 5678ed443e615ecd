#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "src/crossings.rs"; SW = "src/crossings/sweep.rs"; EV = "src/events.rs"; LP = "src/line_or_point.rs"; AC = "src/active.rs"
BO = ["src/bops.rs", "src/bops/op.rs", "src/bops/rings.rs", "src/bops/laminar.rs"]
MO = ["src/monotone/chains.rs", "src/monotone/sweep.rs", "src/monotone/segment.rs"]
SC = ["src/monotone/mono_poly.rs"]; RA = "src/monotone/rasterize.rs"
SP = ["src/splay/tree.rs", "src/splay/set.rs", "src/splay/node.rs"]
UT = "the unit tests use a handful of fixed inputs; the property ranges over every"
EX = "Inputs are exact: coordinates whose pairwise intersections are representable, as on an integer lattice."
def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, na=na)
PBT = "property-based testing: "
EXN = "Random search, no proof of absence. Exact integer oracle; assumes the lattice domain represents the combinatorial configurations (general floats are covered by C06/C11 with conditioning)."
PROPS = [
 P("C01", "Intersections reports every intersecting pair once", "For every collection of line segments and points (whose intersections are exactly representable), iterating `Intersections` reports every unordered pair of inputs that share at least one point exactly once, however many segments overlap, share end points or pass through one point. No pair is reported that does not intersect.",
   ["inputs"], "all collections of segments and points, any size, with overlaps, duplicates, points, verticals and degenerate contacts", UT+" arrangement (the tests count pairs for two arrangements of at most 6 lines)",
   [X, SW, AC, EV], [("pairs of the segments at each event point are enumerated and filtered by first_segment/at_left", X+" Intersections::intersection/step"), ("sweep splits segments at every intersection", SW+" handle_event")],
   PBT+"exact brute-force pair model over generated arrangements", EXN+" Two recorded findings (D1 missing, D2 repeated) are tolerated only for pairs matching their exact signature."),
 P("C02", "Each reported intersection has the right geometry", "Every tuple yielded by `Intersections` carries the true intersection of its two inputs: a single point (flagged proper exactly when interior to both) or the overlapping segment, identical to what `line_intersection` yields for the two lines in the order reported. Pairs that do not intersect are never reported.",
   ["inputs"], "every reported pair of every collection of segments and points", UT+" pair and kind of contact (no test looks at the reported geometry)",
   [X, SW], [("line_intersection is evaluated on the whole input lines", X+" Intersections::intersection")],
   PBT+"exact integer intersection oracle plus differential against line_intersection", EXN),
 P("C03", "CrossingsIter yields exactly the event points in order", "For every collection of segments and points (whose intersections are exactly representable), `CrossingsIter` yields exactly the set of end points, intersection points and ends of overlaps of the inputs, each once, in strictly increasing lexicographic order (by x, then y).",
   ["inputs"], "all collections of segments and points", UT+" arrangement (the tests count the points of two arrangements)",
   [X, SW, EV, LP], [("event heap ordered by point and event type", EV), ("points of the same event are merged", X+" CrossingsIter::next")],
   PBT+"exact brute-force arrangement model", EXN),
 P("C04", "Every event point lists exactly its incident segments", "After `CrossingsIter` yields a point, the segments it lists there belong exactly to the inputs that contain the point; each listed piece is part of its input, is ordered left to right, and starts or ends at the point as its `at_left` flag says.",
   ["inputs"], "every event point of every collection of segments and points", UT+" event point (no test looks at the listed segments)",
   [X, SW, AC], [("left/right event callbacks", SW+" handle_event"), ("Crossing::from_segment", SW)],
   PBT+"exact incidence oracle at every yielded point", EXN),
 P("C05", "Pieces reported by CrossingsIter tile every input", "At every event point exactly one piece of each input containing it ends there (unless the point is the input's left end) and exactly one starts there (unless it is the right end); ended pieces run between consecutive event points of their input and so tile it without gaps or repeats, even when inputs overlap. A piece flagged as first starts at its input's left end, an uncut input is flagged first, and a piece flagged as overlapping is followed by a piece overlapping it.",
   ["inputs", "histories"], "all pieces over the whole sweep of every collection of segments and points", UT+" sweep history; the tests only count",
   [X, SW], [("segments are split at intersections, overlap chains are split together", SW+" adjust_for_intersection/create_segment/chain_overlap")],
   PBT+"tiling invariant over the whole sweep history", EXN+" Finding D1 (the first piece of a cut line may lack the first flag) is the documented exception in the statement."),
 P("C08", "Boolean operations compute the even-odd combination of the regions", "For every two polygons or multi-polygons, valid or self-intersecting (whose edge intersections are exactly representable), the result of intersection, union, difference and xor covers exactly the points (off the boundaries) whose even-odd membership in the operands satisfies the operation, and covers each once. The trait methods and `boolean_op` agree, for `Polygon` and for `MultiPolygon`, whatever the orientation or starting vertex of the rings, repeated vertices, holes, and rings without area.",
   ["inputs"], "all pairs of (multi-)polygons, all four operations, both entry points, f64 and f32", UT+" pair of polygons and every point of the plane (the tests compare a few unions with expected text)",
   BO, [("even-odd status of both operands is propagated bottom-up through the sweep", "src/bops/op.rs sweep"), ("output edges are linked to rings by angle", "src/bops/rings.rs"), ("rings are nested into polygons", "src/bops/laminar.rs assemble")],
   PBT+"exact slab decomposition oracle, membership compared in every cell of the joint arrangement", EXN),
 P("C09", "Boolean operations return valid geometry", "Every result of a boolean operation (exactly representable inputs) consists of closed rings with area that do not visit a vertex twice; no two result edges cross, overlap or touch except at shared end points; holes lie inside their exterior and do not overlap each other, the interior of a result polygon is connected, and distinct result polygons do not overlap. Every result edge is part of an edge of an operand, and every result vertex is an operand vertex or a crossing of operand edges.",
   ["inputs"], "all pairs of (multi-)polygons, all four operations", UT+" output (no test checks validity of the output)",
   BO, [("maximal chains are linked into rings at vertices of degree four and more", "src/bops/rings.rs Rings::finish"), ("hole assignment", "src/bops/laminar.rs assemble")],
   PBT+"exact validity predicate over the output rings", EXN),
 P("C10", "Results of boolean operations are operands of further operations", "For every program of boolean operations over exactly representable operands in which results are used as operands again, every intermediate and final result covers exactly the points that the program's Boolean expression selects. The algebraic laws (commutation, absorption, De Morgan, A minus A is empty, and so on) follow.",
   ["histories", "inputs"], "all programs of up to eight operations over two to four operands", UT+" program; no test feeds a result back",
   BO, [("output rings reuse exact vertices of the inputs", "src/bops/rings.rs"), ("shared and overlapping edges between operands", "src/bops/op.rs")],
   PBT+"stateful generation of operation programs against the exact arrangement model", EXN),
 P("C06", "Crossings of segments in general position are all found", "For every collection of segments with arbitrary floating point coordinates whose distinct features (end points, crossings, segments) are well separated compared to rounding, `CrossingsIter` yields each end point exactly and each crossing once, near its true position, in order, with exactly the incident segments and pieces that tile them, and `Intersections` reports each intersecting pair exactly once with the right kind and place.",
   ["inputs"], "all well-separated collections of segments and points with full-mantissa coordinates, f64 and f32", UT+" arrangement; in the tests every crossing but a few is exactly representable",
   [X, SW, AC, LP], [("segments are cut at rounded intersection points", SW+" adjust_for_intersection"), ("points out of order by rounding are moved to the next float", LP+" intersect_line_ordered")],
   PBT+"exact integer oracle for the topology, rounding tolerance for positions", "Random search. Only separated inputs are claimed (2^-30 of the extent for f64, 2^-9 for f32); nearly degenerate floats are outside the documented guarantees. Finding D1 is tolerated by its exact signature."),
 P("C07", "Crossing iterators do not depend on how lines are given or consumed", "For every collection of lines the points, crossings and pairs reported are the same whether the lines are given by value, by reference, boxed, shared or as a user's own type, from iterators with any size hint, and whether the iterator is kept in place, moved between steps or created again. The returned items are the very items given, the crossing lists are empty before the first and after the last step, the iterators stay at their end, and dropping one at any step releases every item exactly once.",
   ["inputs", "histories"], "all collections of lines, all ways of wrapping them and all consumption histories", UT+" wrapping and consumption history (the tests use one type and consume to the end)",
   [X, SW], [("the Crossable trait is implemented for lines, references and smart pointers", X+" Crossable"), ("the iterator can be moved while the active set refers to its storage", SW)],
   PBT+"differential between nine wrappings and four ways of moving the iterator, with reference counts", EXN),
 P("C11", "Boolean operations are right for polygons in general position", "For every two polygons or multi-polygons with arbitrary floating point coordinates whose distinct features are well separated compared to rounding, each boolean operation covers the points (off the boundaries) that the operation selects, in closed non-crossing rings whose vertices are vertices or crossings of the operands, and leaves no point covered twice.",
   ["inputs"], "all well-separated pairs of (multi-)polygons with full-mantissa coordinates, f64 and f32", UT+" pair of polygons",
   BO+[SW], [("rounded crossings are shared by the edges cut there", SW), ("output edges are linked by equal coordinates", "src/bops/rings.rs")],
   PBT+"membership on both sides of every edge of the exact arrangement", "Random search. Only separated inputs are claimed (2^-30 of the extent for f64, 2^-9 for f32): for nearly degenerate floats the crate makes no promise."),
 P("C32", "Edges tilted by a few units in the last place are handled", "For segments and polygon edges that are vertical, horizontal or sloped up to a few units in the last place (so that a computed crossing need not lie between the ends of its edge), but otherwise well separated: `CrossingsIter` yields each end exactly and each crossing once, strictly in order, with exactly the incident segments; `Intersections` reports each crossing pair once and nothing else; and each boolean operation covers exactly the cells the operation selects, once, with no needless edges.",
   ["inputs"], "all grids of segments and pairs of cell sets, sheared and scaled, with every node moved by a few units in the last place, f64 and f32", UT+" arrangement (two tests use one fixed grid each)",
   BO+[X, SW, LP], [("computed crossings are moved behind the start of the line", LP+" intersect_line_ordered"), ("pieces that lead back from a crossing beyond the end", SW+" adjust_for_intersection"), ("regions for both directions of an edge", "src/bops/op.rs Edge")],
   PBT+"topology of the untilted grid as the oracle", "Random search; apart from the tilt the features are separated by a few percent of the extent."),
 P("C12", "Monotone pieces partition the polygon", "For every valid polygon, with or without holes, every point off the edges is in exactly one piece returned by `monotone_chains` if it is in the polygon and in none otherwise, and no piece has its top chain below its bottom chain anywhere.",
   ["inputs"], "all valid polygons over f64, f32 and integer scalars, including repeated vertices and vertical edges", UT+" polygon (the tests decompose a few fixed ones and check signed area for one family)",
   MO, [("split and merge vertices insert diagonals by swapping chains", "src/monotone/chains.rs"), ("active edge order", "src/monotone/sweep.rs")],
   PBT+"exact slab decomposition oracle", "Random search, no proof of absence. The oracle is exact; only valid polygons are claimed (rings may not touch or cross)."),
 P("C13", "Monotone pieces use every edge once and only vertex diagonals", "For every valid polygon, each piece is a pair of strictly lexicographically increasing chains with common ends and positive area, all of whose vertices are polygon vertices; every polygon edge bounds exactly one piece from one side, every other piece edge is a diagonal that bounds exactly one piece from above and one from below, and every polygon vertex occurs in some piece.",
   ["inputs"], "all valid polygons", UT+" polygon; no test looks at the edges of the pieces",
   MO, [("chains are extended by the sweep's segments", "src/monotone/chains.rs Chain::push"), ("helper swap at merge vertices", "src/monotone/chains.rs")],
   PBT+"edge accounting over the pieces", "Random search; exact comparison of coordinates."),
 P("C14", "The monotone sweep classifies every vertex", "For every valid polygon, the events yielded by `MonotoneSweep` visit every distinct vertex exactly once in increasing lexicographic order, and each is typed start, end, split, merge or continue according to the directions and the convexity of the polygon at the vertex; after the last event the iterator stays at its end.",
   ["inputs"], "all valid polygons, any orientation of the rings", UT+" vertex configuration",
   ["src/monotone/sweep.rs", "src/monotone/segment.rs"], [("the vertex type follows from the edges starting and ending and from the region below", "src/monotone/sweep.rs")],
   PBT+"exact local classification of every vertex", "Random search; exact orientation tests."),
 P("C15", "A monotone polygon accepts exactly well-formed chains and keeps them", "`MonoPoly::new` accepts a pair of chains exactly when both have the same distinct ends and are strictly lexicographically increasing, and panics otherwise; the accessors, the pair conversion, the conversion to a polygon (top chain, then bottom chain backwards) and the bounding box all describe the chains given.",
   ["inputs"], "all chain pairs, well-formed or with a defect", UT+" chain pair (no test constructs one directly)",
   SC, [("asserts on the chains", "src/monotone/mono_poly.rs MonoPoly::new"), ("conversions", "src/monotone/mono_poly.rs")],
   PBT+"predicate and conversion model over valid and mutated chains", "Random search."),
 P("C16", "Scanning a monotone polygon yields the trapezoids between its chains", "For every monotone polygon, start position and sequence of advances (lazy, callback, one by one or abandoned midway), the scan yields contiguous trapezoids of positive width, from the current position to the requested one (limited to the polygon's extent), none spanning a chain vertex; their corners lie on the chains (one-sided limits at vertical steps), top is never below bottom, and the area reported is that of the trapezoid to a few units in the last place, wherever it lies.",
   ["inputs", "histories"], "all monotone polygons of positive width and all sequences of advances", UT+" advance history (the tests scan two polygons to the end)",
   SC, [("advance_to/advance_upto/advance_next share the position", "src/monotone/mono_poly.rs MonoScanner"), ("interpolation on the current edge", "src/monotone/mono_poly.rs")],
   PBT+"reference interpolation and position model over advance histories", "Random search; interpolated values are compared within rounding (1e-12 relative for f64)."),
 P("C17", "Slice areas per cell are exact", "For every monotone polygon, window, number of cells and sequence of slices, the area accumulated in each cell is the previous content plus the area of the part of the polygon in that slice and cell, except that parts above (below) the window count like clamped to its edge, i.e. add nothing, and the scan moves to the end of the slice (limited to the polygon's extent).",
   ["inputs", "histories"], "all monotone polygons, windows, cell counts and slice sequences", UT+" slice and window (one test rasterises one polygon)",
   [RA]+SC, [("areas of the trapezoid clipped to each cell row", RA+" cross_area")],
   PBT+"reference integration of clamped linear functions", "Random search; areas within rounding."),
 P("C18", "Slice bounds give the cells a monotone polygon reaches", "For every monotone polygon, window, number of cells and sequence of slices, the bounds query reports that the slice is outside exactly when the polygon's part of the slice has no vertical overlap with the window, and otherwise the cells of the lowest bottom and of the highest top (limited to the window), together with the highest bottom and the lowest top; the variant for outer bounds reports the same cells. The scan moves to the end of the slice.",
   ["inputs", "histories"], "all monotone polygons, windows, cell counts and slice sequences", UT+" slice and window",
   [RA]+SC, [("minimum and maximum over the scanned trapezoids", RA+" cross_bounds/cross_ubounds")],
   PBT+"reference minima and maxima over the slice", "Random search; exact where all interpolations are exact (dyadic), within rounding elsewhere."),
 P("C19", "The splay tree and set are an ordered map and set", "For every sequence of operations and every comparator that is a total preorder, insert, remove, get, get_mut, contains, find_key/find, next, prev, min, max, indexing, extend, clear, len, is_empty and consuming iteration return what an ordered map (set) would: strict successor and predecessor of present and absent keys, the key first inserted is kept and the old value returned on a repeated insert, and references obtained by queries stay valid during further queries.",
   ["histories", "inputs"], "all operation sequences, key distributions and comparators", UT+" history (the tests make a few fixed sequences of up to a hundred or so inserts)",
   SP, [("top-down splay", "src/splay/tree.rs splay"), ("next/prev search after a splay", "src/splay/tree.rs")],
   PBT+"stateful model-based testing against BTreeMap", "Random search over histories up to 3500 operations."),
 P("C20", "Splay tree iteration yields each item in order once and drops each once", "Consuming a splay tree or set from both ends in any interleaving yields every item exactly once in order, with exact size hints, staying at its end; every key and value is dropped exactly once, whether taken, left in a half-used iterator, overwritten, removed, cleared or dropped with the tree. Trees of any shape and depth can be consumed, cleared and dropped on an ordinary stack.",
   ["histories", "inputs"], "all trees, depths and consumption histories", UT+" tree shape and consumption history; leaks and depth are not tested",
   SP, [("iterator dismantles the tree by rotations", "src/splay/tree.rs IntoIter"), ("iterative drop", "src/splay/tree.rs clear/Drop")],
   PBT+"ordered model with per-item drop accounting, paths of up to 150000 nodes", "Random search."),
 P("C21", "The vertical order of segments and points is geometric", "For every two segments or points that share a common sweep position (segments overlapping in lexicographic range; a point within the range of a segment; equal points), their comparison is the exact vertical order at that position: below is less, equal exactly for collinear overlapping segments or equal points, a segment through a point compares greater than the point, and reversing the arguments reverses the result; different points are not ordered.",
   ["inputs"], "all pairs within the preconditions over f64, f32, i64, i32 coordinates", UT+" pair (the tests compare a handful)",
   [LP], [("orientation tests of the later start and the earlier end", LP+" partial_cmp")],
   PBT+"exact rational oracle in the sheared plane", "Random search; the oracle is exact."),
 P("C22", "The intersection of two segments is exact, bounded and orderable", "The intersection of a segment or point with a segment is nothing, a point or an overlap exactly as the two truly meet; end point contacts and overlaps are exact, a computed crossing is close to the true one and lies within both bounding boxes. The ordered variant returns the same, except that a point which would precede the start of the first segment is moved to the next representable abscissa; intersecting with a degenerate second argument panics.",
   ["inputs"], "all pairs of segments on grids up to 2^30 and steep segments a few ulps wide, f64 and f32", UT+" pair; no test reaches the rounding cases",
   [LP], [("delegates to line_intersection, overlap ordered", LP+" intersect_line"), ("next-after correction", LP+" intersect_line_ordered")],
   PBT+"exact integer oracle, rounding-aware comparison", "Random search; distance to the true crossing is only compared where the angle exceeds 0.01."),
 P("C23", "Sweep points are ordered lexicographically and lines normalised", "For all finite coordinates, including signed zeros, sweep points compare by x and then y in every comparison operator, in min, max and clamp, and in sorting, and a line converted for sweeping becomes a point if its ends are equal and otherwise a line from its lexicographically smaller to its larger end, with accessors that agree.",
   ["inputs"], "all point sets and lines over f64, f32, i64, i32, i16", UT+" pair of coordinates",
   [EV, LP], [("Ord for SweepPoint", EV), ("From<Line>", LP)],
   PBT+"integer reference order", "Random search."),
 P("C25", "Splay operations are amortised logarithmic", "For every sequence of inserts, lookups (get, get_mut, find_key, contains, index; find, contains of the set) and removals the total number of key comparisons is at most a small constant times the number of operations times the logarithm of the number of keys, whatever the order of the keys.",
   ["histories"], "all operation sequences that splay", UT+" history; tests do not count comparisons, and a tree that never rebalances returns the same answers",
   SP, [("zig-zig rotation in top-down splay", "src/splay/tree.rs splay")],
   PBT+"comparison counting over adversarial and random access patterns", "Random search; the constants are measured with a margin of two."),
 P("C26", "The sweep is complete and near-linear at every size", "For inputs of every size and shape, up to 100000 and more items, the crossing iterators report exactly the arrangement (all event points in order, all pieces there, all pairs) and need at most a constant times (n + k) log n coordinate comparisons, bytes of memory and processor time, where n is the number of items and k the number of pieces reported, as documented.",
   ["inputs"], "structured families of up to 131072 items whose arrangement is known in closed form, and random arrangements", UT+" size; running time and large inputs are not tested",
   [X, SW, AC]+SP, [("events are taken from a heap and neighbours from a splay tree", SW), ("documented O((n + k) log n)", X+" CrossingsIter")],
   PBT+"closed-form counts and comparison counting through a counting scalar type", "Random search over thirteen families; only comparisons of coordinates are counted; the constant is measured with a margin of three or more."),
 P("C28", "Boolean operations scale to large operands", "For operands of every size, up to 100000 and more edges, the boolean operations return the right number of polygons and holes and the right area, and need at most a constant times (n + k) log n coordinate comparisons, bytes of memory and processor time, where k is the number of pieces into which crossings cut the edges.",
   ["inputs"], "structured families of operand pairs (bars, annuli, sieves, teeth, rows, copies, nested boxes) under affine maps, reversal and shuffling", UT+" size; running time and large operands are not tested",
   BO+[SW, AC], [("one sweep over the edges of both operands", "src/bops/op.rs sweep"), ("rings are linked and nested", "src/bops/rings.rs, src/bops/laminar.rs")],
   PBT+"closed-form results and comparison counting through a counting scalar type", "Random search over seven families; only comparisons of coordinates are counted; the constant is measured with a margin of three or more."),
 P("C24", "Splay collections stay memory safe under any comparator", "Whatever the comparator does, including panicking at any call, answering inconsistently or changing its order, no operation of the splay tree or set hangs, reads or returns an item that was dropped, drops an item twice or yields it twice, and every key and value is dropped exactly once by the time the collection is gone.",
   ["histories", "faults"], "all operation sequences with panics injected at any comparator call and five kinds of unruly comparators", UT+" comparator; no test has one that panics or is inconsistent",
   SP, [("the tree is in pieces while the comparator runs", "src/splay/tree.rs splay"), ("queries through UnsafeCell", "src/splay/tree.rs root_mut")],
   PBT+"stateful generation with fault injection into the comparator and a registry of live items", "Random search. Comparators that call back into the same collection are not claimed."),
 P("C27", "Rasterising through monotone pieces gives the polygon's area per cell", "For every valid polygon and every grid, adding up the slice areas of all its monotone pieces column by column gives, in every cell, the area of the polygon within the cell, and every cell holding a part of the polygon is within the slice bounds of some piece; a scan may start before or inside the piece and run past it.",
   ["inputs"], "all valid polygons (with holes), grids of up to 20x20 cells at arbitrary positions, f64 and f32", UT+" polygon and grid (the tests rasterise a few polygons and compare total areas)",
   MO+SC+[RA], [("pieces partition the polygon", "src/monotone/chains.rs"), ("areas and bounds per slice", RA)],
   PBT+"independent integration of the polygon's edges over every cell", "Random search; areas within rounding."),
 P("C29", "Decomposition scales and makes no needless pieces", "For valid polygons of every size, the monotone pieces add up to the polygon's area, use every edge once, and number at most one plus the number of split and merge vertices minus the number of holes; the sweep over the polygon classifies all vertices and needs at most a constant times n log n coordinate comparisons, bytes of memory and processor time.",
   ["inputs"], "random polygons and eight structured families of up to 40000 vertices", UT+" size; large polygons and the number of pieces are not tested",
   MO, [("one diagonal per split or merge vertex", "src/monotone/chains.rs"), ("splay tree of active edges", "src/monotone/sweep.rs")],
   PBT+"closed-form counts, Euler's relation and comparison counting through a counting scalar type", "Random search. The chain bookkeeping is quadratic in the number of pieces; only the sweep's comparisons are bounded."),
 P("C30", "Results depend on the input alone", "Every sweep, boolean operation and decomposition gives the same result, to the last detail and in the same order, when it is repeated, when all log messages are formatted by an installed logger, when it is advanced in alternation with another computation, and on another thread; formatting messages never panics.",
   ["inputs", "histories"], "all computations over generated inputs, under four circumstances", UT+" input; tests run each computation once",
   [X, SW, "src/bops/op.rs", "src/bops/rings.rs", "src/monotone/chains.rs", "src/monotone/sweep.rs"], [("trace and debug messages along all paths", SW), ("active set refers to its storage", AC)],
   PBT+"metamorphic comparison of full results", EXN),
 P("C31", "Safe use of the library makes no invalid memory access", "For every input and history of calls (arrangements, iterators moved or abandoned midway, boolean programs, decompositions, scans, map and set histories, panicking or inconsistent comparators; and input without any restriction, such as nearly degenerate, self-intersecting, huge or not finite, on which it may panic), no operation reads or writes memory outside a live object or violates a precondition of the unsafe functions it calls.",
   ["inputs", "histories", "faults"], "the generated cases of eighteen other properties, under AddressSanitizer", "a test passes although memory is misused; no test runs under a sanitizer",
   [SW, AC, "src/monotone/sweep.rs"]+SP, [("get_unchecked on the slab of segments", SW), ("references to the storage kept in the active set", AC), ("UnsafeCell tree", "src/splay/tree.rs")],
   PBT+"the other properties' generators under AddressSanitizer and unsafe-precondition checks", "Random search; detects accesses to freed or foreign memory, not every kind of undefined behaviour."),
]
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"] or ["public API"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[],
        notes="No hooks in /repo: all checks use the public API. /repo carries fix: commits only (see known-findings.txt).")
    for p in PROPS:
        if p["na"]: m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
        m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh "+p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
            evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    for p in PROPS: assert len(p["title"]) <= 80, p["id"]
main()
