#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "workspace/boostvoronoi_core/src/"
X = "workspace/boostvoronoi_ext/src/"
IN = "every valid input: any number of integer points and of segments that meet only at shared end points, with no point inside a segment"
GEOTESTS = "The test suite builds a few hundred fixed inputs, nearly all with fewer than ten sites, and mostly asserts element counts; "
P = []
def prop(id, title, statement, text, why, files, mech, observe, technique, note, over=("inputs",), state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe] if isinstance(observe, str) else observe}
    if state: a["state"] = state
    if hook: a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why, anchors=a), technique, note))

SWEEP = [("sweep line: site and circle event processing", C + "builder.rs"), ("circle event formation, fast and exact", C + "predicate/"), ("beach line ordering", C + "predicate.rs, " + C + "beach_line.rs")]
LINK = [("edge insertion and linking", C + "diagram.rs"), ("removal of degenerate edges and final linking", C + "builder.rs, " + C + "diagram.rs")]
BUILD = [C + "builder.rs", C + "diagram.rs", C + "predicate.rs", C + "predicate/lazy_circle_formation.rs", C + "predicate/exact_circle_formation.rs", C + "predicate/circle_existence.rs", C + "beach_line.rs", C + "circle_event.rs", C + "site_event.rs"]
ORC = "Random and structured inputs from 21 generator families in seven size classes (2 to 32 bit coordinates, drawn-out inputs, up to 220 points and 90 segments), seeded, shrunk on failure. "

prop("P01", "Every vertex is at the centre of an empty circle through its sites",
 "For every valid input, each vertex of the diagram is equally far from all the sites whose cells meet there, and no other site is nearer to it than those. The position is accurate to double precision, apart from input detail too fine for that precision to tell apart.",
 IN + "; coordinates up to 14 bits, and their enlargements to 32 bits, judged at 256 ulp; otherwise up to 30 bits with a relative slack of 1e-6",
 GEOTESTS + "no test checks a vertex against all sites, and most wrong vertices need particular near-degenerate site arrangements.",
 BUILD, SWEEP, "vertex coordinates and the cells around each vertex", "property-based testing against a double-double distance oracle",
 ORC + "Each vertex is compared with every site in about 106-bit arithmetic.")
prop("P02", "The half-edge structure is well formed",
 "For every valid input, every half-edge has a twin that names it back, a next and a previous half-edge that name it back and belong to the same cell, and starts where the previous one ends. Each cell's boundary is exactly one loop reached from its incident edge, each vertex's incident edge starts there, the half-edges of a vertex form one ring, and the traversal iterators visit precisely these.",
 IN, GEOTESTS + "they do not verify the links of the whole structure on any input outside those.", [C + "diagram.rs", C + "builder.rs", C + "beach_line.rs"], LINK + [("traversal iterators", C + "diagram.rs")],
 "twin, next, prev, vertex, cell and incident-edge links, and the iterators", "property-based testing with a structural invariant over the whole half-edge graph", ORC + "Every link of every element and both kinds of iterator are checked.")
prop("P03", "Cells correspond one to one to the distinct input sites",
 "For every valid input there is exactly one cell per distinct point (input points and segment end points) and per distinct segment, and nothing else. Each cell's source index and category identify input of exactly that position: an input point, a segment's start or end, or a segment. A cell has boundary edges whenever its site has a region of its own.",
 IN + ", with and without repeated points and segments", GEOTESTS + "source indices are asserted for a handful of cells.", [C + "builder.rs", C + "diagram.rs", C + "site_event.rs"],
 [("site event creation and de-duplication", C + "builder.rs"), ("cell creation", C + "diagram.rs")], "cell list: source index and category", "property-based testing against a set model of the input sites", ORC + "Cells are resolved through the input lists and compared with the exact set of sites.")
prop("P04", "The diagram is one planar graph with a single ring of unbounded cells",
 "For every valid input the diagram is connected and satisfies Euler's relation between its cells, edges and vertices. No two vertices coincide, so no edge has both ends in one place. All rays to infinity form one closed ring around the outside, and a diagram that has vertices contains no full lines.",
 IN, GEOTESTS + "counts are asserted for those inputs only, and a wrong topology can have the right counts.", BUILD, SWEEP + LINK, "element counts and links", "property-based testing with Euler and ring-at-infinity invariants", ORC)
prop("P05", "Edge classes match the two sites they separate",
 "For every valid input an edge is secondary exactly when it separates a segment from one of its own end points, and primary otherwise. It is curved exactly when it separates a segment from a point that is not one of its end points. The two halves of an edge agree and separate two different cells, and only edges between two points or between a segment and its end point are unbounded.",
 IN, GEOTESTS + "flags are compared for a few edges.", BUILD, [("edge insertion", C + "diagram.rs"), ("edge classification by site events", C + "diagram.rs")], "primary and linear flags of each half-edge", "property-based testing against the classification computed from the input sites", ORC)
prop("P06", "Every point of every edge is nearest to the two sites it separates",
 "For every valid input, each point of an edge, taken as the bisector piece between its ends (a straight line, a parabola piece, or a ray for unbounded edges), is equally far from the sites of the two cells it separates, and no site is nearer. Each half-edge has its own cell on its left.",
 IN + "; sampled points along every edge, rays followed to a thousand times the size of the input", GEOTESTS + "no test evaluates a point of an edge.", BUILD, SWEEP + LINK, "edges, their cells and their end vertices", "property-based testing against a double-double distance oracle", ORC + "Interior points of each edge are compared with every site.")
prop("P07", "No edge is missing: neighbours lead to the nearest site from anywhere",
 "For every valid input and every query position, moving from any cell to a neighbouring cell whose site is nearer ends at the site that is nearest of all. For points, two sites are neighbours exactly when some circle passes through both with no site inside it.",
 IN + " and every query position", GEOTESTS + "a missing edge is only noticed if a total count is asserted.", BUILD, SWEEP + LINK, "cells and the adjacency given by twin edges", "property-based testing: greedy walk against brute-force nearest site; exact brute-force Delaunay graph for points", ORC + "The Delaunay relation for up to 11 points is decided in exact 128/256-bit integers.")
prop("P08", "Placement and order of the input do not matter",
 "Shifting, scaling by an integer, rotating by quarter turns or mirroring the input moves, scales, rotates or mirrors the diagram and changes nothing else. Reordering points or segments, reversing segments, and repeating points, segments or end points of segments give exactly the same diagram, with the same numbering, apart from which of equal inputs a cell names.",
 IN + ", every placement within the coordinate range and every order of the input", GEOTESTS + "no test compares two builds.", BUILD, [("site sorting and de-duplication", C + "builder.rs"), ("event order", C + "predicate.rs")] + SWEEP, "diagrams of related inputs", "metamorphic property-based testing", "Related inputs are built and compared: by site and position for motions, bit for bit for order and repetition.")
prop("P09", "Building is deterministic and independent of other builds",
 "Building the same input again gives an identical diagram, including numbering, links, coordinates and colours. Builds done in between or at the same time on other threads have no influence.",
 IN + ", any number of builds, in any interleaving on several threads", "No test builds an input twice; hidden shared state or iteration order over hashed containers would show only in particular sequences.", BUILD, [("build state", C + "builder.rs"), ("beach line storage", C + "beach_line.rs")], "the whole diagram", "property-based testing: repeated and concurrent builds compared bit for bit", "Each input is built several times, with unrelated builds in between and on two threads.", over=("inputs", "schedules"))
prop("P10", "Building a valid input always succeeds and always ends",
 "Every valid input, from the empty one to tens of thousands of sites, at any scale up to the whole range of 32 bit coordinates, builds to a diagram: no error, no panic, no arithmetic overflow, no endless loop.",
 IN + "; up to 30000 sites", GEOTESTS + "panics and overflows need particular magnitudes or degenerate arrangements.", BUILD + [C + "robust_sqrt_expr.rs", X + "extended_int.rs", X + "robust_fpt.rs"], SWEEP + LINK, "the result of building", "property-based testing with debug assertions and overflow checks on", ORC + "Plus grids, circles, combs, polygons and polylines of up to 30000 sites.")
prop("P11", "The number types chosen do not change the diagram",
 "The same coordinates given as 32 bit or 64 bit integers give exactly the same diagram. Asking for single precision output gives the double precision diagram with its vertices rounded, apart from edges too short for single precision to keep.",
 IN, GEOTESTS + "nearly all use one pair of number types.", [C + "builder.rs", C + "lib.rs", C + "diagram.rs"], [("number conversion", C + "lib.rs"), ("vertex creation", C + "diagram.rs")], "diagrams built with different number types", "differential property-based testing between number types", ORC, over=("inputs", "configurations"))
prop("P12", "The flat, thread-safe form of a diagram is the same diagram",
 "Converting a diagram to its thread-safe form keeps every cell, vertex and edge, their numbering, links, coordinates, flags and colours, and so does writing it out and reading it back. All its navigation queries agree with the stored links, queries for elements that do not exist report an error, and changing one element's colour changes nothing else.",
 IN + ", every colouring, every element and every index out of range", "The tests convert a few diagrams and never compare them element by element.", [C + "sync_diagram.rs", C + "diagram.rs"], [("conversion", C + "diagram.rs"), ("queries", C + "sync_diagram.rs"), ("serialisation", C + "diagram.rs")], "the converted diagram and its queries", "property-based testing: round trip and model of the queries", ORC)
prop("P25", "Diagrams equal those of the original C++ implementation",
 "For every valid input on which the original C++ implementation produces a correct diagram, this one produces the same diagram: the same edges between the same sites, of the same class, with the same vertices.",
 IN, GEOTESTS + "some were copied from the original for a handful of inputs.", BUILD, SWEEP + LINK, "the whole diagram", "differential property-based testing against Boost.Polygon", ORC + "The reference is the installed Boost.Polygon, itself checked by the oracle wherever the two differ.")
prop("P26", "A vertex is marked as lying on a site exactly when it does",
 "For every valid input, a vertex carries the mark of coinciding with an input site exactly when an input point or the end point of an input segment lies at its position.",
 IN, GEOTESTS + "the mark is asserted on a few vertices.", [C + "builder.rs", C + "diagram.rs", C + "circle_event.rs", C + "predicate.rs"], [("marking of site vertices", C + "predicate.rs, " + C + "circle_event.rs, " + C + "builder.rs")], "the mark of each vertex", "property-based testing against the geometric definition", ORC)
prop("P28", "Input may be given in pieces and in any accepted form",
 "Adding points and segments in several calls, by reference, by value or as coordinate arrays, gives the same diagram and source indices as adding them at once. A segment whose ends coincide is treated as a point, and points offered after segments are refused with an error.",
 IN + ", every division into calls and every accepted form", "The tests add each list in one call.", [C + "builder.rs", C + "geometry.rs"], [("input collection", C + "builder.rs")], "diagrams and source indices; the error for late points", "metamorphic property-based testing over sequences of builder calls", ORC, over=("inputs", "histories"))

prop("P13", "Colours are kept per element and exterior colouring reaches the exterior",
 "A new diagram has colour zero everywhere. Setting or combining a colour on one edge or vertex gives that element exactly that colour and changes no other element, no link, no coordinate and no flag. Colouring the exterior gives the colour to exactly the edges and vertices that can be reached from the unbounded edges over primary edges without passing a vertex that lies on a site. It ends for every colour and any size of diagram.",
 IN + ", every sequence of colour operations, every 27 bit colour; exterior colouring of up to 20000 sites on a default thread stack",
 "The tests colour a few diagrams once and look at single elements; combinations of earlier colours, wide colours and large diagrams are not exercised.", [C + "diagram.rs"], [("colour bits beside the flags", C + "diagram.rs: ColorBits, set_color, or_color"), ("exterior colouring", C + "diagram.rs: color_exterior_edges")],
 "the colour of every edge and vertex after each operation", "stateful property-based testing against a model of all colours", "Random sequences of up to 12 operations; after each one, all colours and the whole diagram are compared with the model.", over=("inputs", "histories"), state=[{"name": "colour", "meaning": "27 bit colour of each edge and vertex, stored beside its flags", "where": C + "diagram.rs"}])
prop("P24", "Queries on a diagram agree with what is stored in it",
 "For every element, each query of the diagram (twin, next, cell, end vertices, rotation, finiteness, line, colour, source, flags, box of all vertices) gives what the stored links say, and asking changes nothing. A query for an element that does not exist reports an error or nothing; it never panics.",
 IN + ", every element and every index out of range", "The tests use queries on existing elements of fixed inputs, and never ask for a missing one.", [C + "diagram.rs"], [("queries by index", C + "diagram.rs: edge_get_*, vertex_get_*, cell queries"), ("box of all vertices", C + "diagram.rs: vertices_get_aabb")],
 "the result of each query", "property-based testing against an independent reading of the stored links", ORC)

prop("P14", "Reading an input file gives exactly the points and segments written in it",
 "Every well-formed text, with any line ends and spacing, is read to exactly its points and segments, in order, whatever pieces the reader delivers it in. Other text is read up to the first line that does not fit the format, and nothing is invented. A reader that fails, or bytes that are no text, end with an error. Reading never panics and never goes on forever.",
 "every byte sequence, every division into reads, every point of failure of the reader", "Two tests read one well-formed text each; malformed text, short reads and failing readers are not exercised.", [C + "file_reader.rs"], [("counted sections and line parsing", C + "file_reader.rs: read_boost_input_buffer"), ("splitting of a line", C + "file_reader.rs: split")],
 "the points, segments or error returned", "property-based testing against a reference parser, with short reads and injected read errors", "Random well-formed and damaged texts; the reader delivers random pieces or fails at a random byte.", over=("inputs", "fault_sequences"))
prop("P15", "A bounding box covers exactly what was put into it",
 "After any sequence of updates with points, lines, vertices and coordinates, a box is the smallest one that contains all of them. Containment tests agree with it (undecided only for a line half inside), growing by a percentage grows it about its centre, and an empty box reports that it is empty.",
 "every sequence of updates, growths and tests", "The tests make three small boxes.", [C + "visual_utils.rs"], [("box updates and tests", C + "visual_utils.rs: Aabb2")], "the corners of the box and its containment tests", "stateful property-based testing against a model that keeps every point", "Sequences of updates in all forms, in single and double precision.", over=("histories",), state=[{"name": "box", "meaning": "lower and upper corner, or nothing yet", "where": C + "visual_utils.rs: Aabb2"}])
prop("P16", "The affine transform maps box to box and back again",
 "A transform made for two boxes keeps the aspect ratio, maps the centre of the source to the centre of the destination and the whole source inside the destination. Every form of the transform gives the same numbers, the way back is its inverse wherever precision allows, and a position without an integer source is an error.",
 "every pair of boxes and every position", "One test transforms a few points between two boxes.", [C + "visual_utils.rs", C + "geometry.rs"], [("transform and way back", C + "visual_utils.rs: SimpleAffine")], "transformed coordinates", "property-based testing: round trip, fixed points and agreement of forms", "Boxes of all sizes and offsets, in single and double precision.")
prop("P17", "A discretized curved edge stays on its parabola and within the distance asked",
 "Dividing a curved edge ends, keeps its two end points and puts every further point on the parabola between point and segment, in order along it and between the ends. The arc is nowhere further from the resulting line pieces than the distance asked for.",
 "every curved edge of every diagram, and every arc of a point and a segment in any placement", "One test discretizes one edge; precision at the ends and small distances are not exercised.", [C + "visual_utils.rs"], [("subdivision of the arc", C + "visual_utils.rs: discretize"), ("position along the segment", C + "visual_utils.rs: point_projection")], "the points produced", "property-based testing against the equation of the parabola", "Random arcs, through the identity and through scaling transforms, and all curved edges of random diagrams.")
prop("P18", "Multi-word integers compute exactly",
 "For all integers that fit the type, sums, differences, products, negations and signs of multi-word integers are exact, in every form of each operator, and conversion from native integers and to floating point is right. Zero has one form.",
 "every sequence of operations on values within the capacity of the type, from every native integer", "The tests add and multiply a few small values; carries over several words, cancellation of leading words and the limits of native integers are not exercised.", [X + "extended_int.rs"],
 [("addition, subtraction and multiplication word by word", X + "extended_int.rs"), ("conversion to a float and its exponent", X + "extended_int.rs: p")], "value, sign and float conversion of results", "model-based property-based testing against an independent big integer", "Random programs over a stack of values up to 48 words; each result is compared with an independent implementation.", over=("inputs", "programs"))
prop("P19", "Floats with a wide exponent compute like floats without a range",
 "For all values, sums, differences, products, quotients and square roots of floats with an extended exponent have at most the rounding error of a double, at any exponent. Every form of an operator gives the same result, and signs are right.",
 "every sequence of operations on values with exponents up to a billion", "The tests use values of ordinary size; sums of very different or extreme exponents, zeros and assigning forms are not exercised.", [X + "extended_exp_fpt.rs"],
 [("alignment of exponents in sums", X + "extended_exp_fpt.rs: add, sub"), ("normalisation", X + "extended_exp_fpt.rs: new")], "fraction, exponent and sign of results", "model-based property-based testing against double-double arithmetic with a separate exponent", "Random programs over values with independent fractions and exponents.", over=("inputs", "programs"))
prop("P20", "Tracked error bounds of robust floats are never too small",
 "For all values, a robust float keeps the sum, difference, product, quotient or square root of its operands together with an error bound that is never smaller than the real error by more than first order rounding. A difference of two positive sums represents exactly the signed value that its operations describe.",
 "every sequence of operations on values of any sign within double range", "The tests check a few values and never the bound.", [X + "robust_fpt.rs"],
 [("error propagation", X + "robust_fpt.rs: RobustFpt"), ("separate positive and negative sums", X + "robust_fpt.rs: RobustDif")], "value, relative error bound and difference of results", "model-based property-based testing: true value carried in double-double arithmetic", "Random programs; the true value of each result is carried along and compared with value and bound.", over=("inputs", "programs"))
prop("P21", "Sums of square roots are evaluated to a few ulp whatever cancels",
 "For all integers, expressions that sum up to four integer multiples of square roots, and the two nested ones used for a point and two segments, are evaluated with the right sign and within a few ulp of the true value, however much cancels. A sum that is exactly zero gives zero.",
 "every list of factors and of arguments that are not negative, up to hundreds of bits", "Twelve fixed sums are tested; nearly complete cancellation is needed to reach the alternative evaluation paths.", [C + "robust_sqrt_expr.rs", X + "extended_int.rs", X + "extended_exp_fpt.rs"],
 [("sums of two, three and four roots", C + "robust_sqrt_expr.rs: eval2, eval3, eval4"), ("special forms", C + "robust_sqrt_expr.rs: sqrt_expr_evaluator_pss3, sqrt_expr_evaluator_pss4")], "the value returned", "property-based testing against multi-precision integer square roots", "Factors are arranged to cancel to any depth; the true value is computed to at least 60 bits, or shown to be zero.", hook="the expression evaluators are private; verif_hooks::sqrt_expr calls them")
prop("P22", "Circle events touch their three sites, and orientation tests are exact",
 "For every valid input, each circle formed while building touches the three sites it was formed for within about 64 ulp of the size of the input, and its centre and lowest point are each within 64 ulp of the value they should have. The orientation of three integer points is exact, and two floats compare equal exactly when they are at most the given number of representable values apart.",
 IN + ", every three points, every two floats", "The tests never look at a circle event, and near-collinear points or nearly equal floats are not exercised.", BUILD, [("fast circle formation", C + "predicate/lazy_circle_formation.rs"), ("exact circle formation", C + "predicate/exact_circle_formation.rs"), ("orientation", C + "predicate/orientation_predicate.rs"), ("comparison in units of last place", C + "ctypes.rs")],
 "circles formed, sign of orientation, comparison result", "property-based testing against a double-double distance oracle and 128 bit integers", ORC + "All circle events of a build are recorded through the hook and solved anew by Newton's method in about 106 bits.", hook="circle events are private; verif_hooks records them, and calls the private orientation and comparison functions")
prop("P23", "Coordinates survive conversion between geometry and number types",
 "Converting a point, line or vertex to or from arrays and the types of geo, cgmath, glam, mint and nalgebra keeps every coordinate in its place. A cast between number types gives the same number, rounded once to a float or cut toward zero to an integer, and is refused exactly when the number does not fit. A builder accepts every form of input and makes the same diagram of it.",
 "every pair of coordinates of every accepted number type; " + IN, "The tests convert a few small points such as (1, 2) and never a number that does not fit.", [C + "geometry.rs", C + "lib.rs", C + "diagram.rs", C + "builder.rs"], [("conversions of points and lines", C + "geometry.rs"), ("number casts", C + "lib.rs"), ("input conversion", C + "builder.rs")], "coordinates after conversion; result or refusal of casts; diagrams built from each form", "property-based testing: round trips and exact integer arithmetic; metamorphic over forms of input", "Random integers and floats at and around every limit of the types; random inputs given in seven forms.")
#MORE

IMPLEMENTED = {p[0]["id"] for p in P}
def main():
    P.sort(key=lambda p: p[0]["id"])
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": t, "level": "exploration", "level_note": n.strip()} for p, t, n in P]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}
    if HOOKS: m["hooks"] = HOOKS
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks")
HOOKS = {'guard': 'cfg(verif_hooks)', 'enable': 'RUSTFLAGS="--cfg verif_hooks" (run.sh does so for P21 and P22)', 'source_commits': ['12f1f7e']}
if __name__ == "__main__": main()
