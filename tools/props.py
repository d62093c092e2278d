"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, state=state or [], observe=observe or []))


PATH = "svgio/path.py"
BASIC = "svgio/basic.py"
NODES = "svgio/nodes.py"

prop("P01", "Path data text means exactly the segments of the SVG grammar",
     "Parsing a string of SVG path data yields exactly the sequence of segments the SVG grammar and its drawing-state rules give it: "
     "absolute and relative forms, implicitly repeated argument groups, smooth reflections, arcs with compact flags and "
     "segment-completing closes all denote the same points whatever legal number spelling and separators are used. "
     "No legal path data is rejected, reordered, merged or dropped.",
     ["inputs", "programs"],
     "every command sequence over the 20 command letters (with repetitions and segment-completing closes) up to a depth, and every number spelling x separator at every argument position of every command; long paths of up to 1025 commands",
     "The tests parse a few dozen fixed strings; the meaning of a command depends on the whole prefix (pen position, subpath start, last control point), so the space is a product of command histories and spellings.",
     [PATH], [{"name": "SVGPathParser / SVGPathTokens", "where": PATH}, {"name": "Path builder callbacks", "where": PATH}],
     "bounded-exhaustive model conformance: all token sequences run on the parser and on an independent state machine",
     "All command sequences and spellings inside the bound are executed on the real parser next to an independent drawing-state machine; beyond the bound nothing is claimed.",
     state=[{"name": "pen", "meaning": "current point, subpath start, last control point", "where": "Path.current_point/z_point/smooth_point"}],
     observe=["iteration over Path(text)", "segment points"])

prop("P02", "Malformed path data is reported and parsing always terminates",
     "Path data that starts with a moveto and is not in the path grammar (a missing or extra argument, an illegal arc flag, an unknown character, a truncated number) "
     "is rejected with an error rather than silently accepted as something else. "
     "Parsing always terminates, whatever the text.",
     ["inputs", "fault_sequences"],
     "every token string up to a length over command letters, numbers, flags and junk, and every single-token corruption of every command",
     "Error handling is sampled by a handful of bad strings in the tests; a missing argument can occur at every position of every command.",
     [PATH], [{"name": "SVGPathParser.parse argument requirements", "where": PATH}],
     "bounded-exhaustive fault enumeration of token strings against a recursive grammar recogniser",
     "Complete over the stated token alphabet and lengths and over all one-token corruptions; compares accept/reject with an independent recogniser.",
     observe=["exception or result of Path(text)"])

prop("P03", "Path data written by d() re-reads as the same path",
     "Writing any path that path data can express as text, in absolute, relative or as-parsed form and with smooth shorthand forced, forbidden or as-parsed, "
     "gives path data that re-reads as the same segments with the same points, for numbers of every magnitude. "
     "A segment written on its own, from its start point, re-reads as itself in the form asked for, else in its own form. Writing a path does not change it.",
     ["inputs", "programs", "configurations"],
     "every path made by a bounded command sequence or built segment by segment (also nearly smooth ones) x every output mode; long paths of up to 1025 segments or subpaths",
     "The tests round-trip a few strings in one or two modes; the shorthand decision depends on the previous segment and the mode, and number formatting on the magnitudes.",
     [PATH], [{"name": "Path.d / Subpath.d / segment d methods", "where": PATH}, {"name": "number formatting of coordinates", "where": BASIC}],
     "bounded-exhaustive round-trip over all command sequences x all serialisation modes",
     "All paths inside the bound in all nine output modes; coordinates compared to 1e-9 of the largest coordinate, arcs by five interior points.",
     observe=["Path.d(relative, smooth)", "str(path)"])

prop("P04", "Builder calls and incremental parsing equal parsing the whole text",
     "Building a path through the drawing methods (move, line, horizontal, cubic, arc, closed, ...), in any order and with any number of repeated arguments, "
     "gives the same segments as parsing the same commands, in the relative or absolute form asked for, and leaves the current, first and subpath-start points where the drawing rules put them. "
     "Appending path data to an existing path gives the same result as parsing the concatenated text.",
     ["programs", "histories"],
     "every sequence of builder calls up to a depth; every pair of commands split between two parses, by four ways of appending",
     "Tests call the builder methods once each from fixed states; each call reads the state the earlier ones left.",
     [PATH], [{"name": "Path.move/line/.../closed/parse/__iadd__", "where": PATH}],
     "bounded-exhaustive exploration of call sequences against an independent drawing-state machine",
     "All call sequences inside the bound are executed on the real objects.",
     observe=["segments", "current_point, z_point, first_point"])

prop("P05", "Editing a path as a list keeps it one connected drawing",
     "Whatever sequence of item and slice assignments, deletions, insertions, appends, extensions, pops and clears is applied to a path, "
     "the path holds exactly the segments the same edits would leave in a list (indices, negative indices and slices mean what they mean for lists, and invalid ones raise the same errors). "
     "After every edit each segment starts where the previous one ends and every close returns to the start of its own subpath.",
     ["histories", "programs"],
     "every edit history up to a depth over some 200 edits (index, slice, text and segment forms) from six start paths; long paths of up to 1025 segments",
     "An edit relinks neighbours from state left by earlier edits; the tests try single edits on one or two paths.",
     [PATH], [{"name": "Path.__setitem__/__delitem__/insert/extend/append/validate_connections", "where": PATH}],
     "explicit-state breadth-first search over edit histories on the real Path, in lockstep with a list model",
     "Complete over the stated edits, start paths and depth; histories merged only when the full modelled path content is equal. Arcs are compared by kind and end points.",
     state=[{"name": "segment list", "meaning": "kind, start, inner points, end of every segment", "where": "Path._segments"}],
     observe=["iteration", "len", "segment start/end"])

prop("P06", "Path measurements never go stale after an edit",
     "After any history of edits to a path, made through the path or through its subpaths, with length and point queries interleaved anywhere, "
     "length(), point() and npoint() give what a newly built path with the same segments gives.",
     ["histories", "programs"],
     "every history of up to 2 (thorough 3) of 37 edits from 4 paths with none or any of three measurements before each edit",
     "The lengths are cached at the first measurement; a stale answer needs a measurement, then a particular edit, then another measurement.",
     [PATH], [{"name": "Path._length/_lengths cache and its invalidation", "where": PATH}],
     "bounded-exhaustive exploration of edit/measure histories, compared with a freshly built equal path",
     "Every history inside the bound runs on the real objects; no merging of states.",
     state=[{"name": "cached lengths", "meaning": "total and per-segment fractions", "where": "Path._length, Path._lengths"}],
     observe=["Path.length", "Path.point", "Path.npoint"])

prop("P07", "Reversing a path or subpath keeps the drawing and only flips its direction",
     "Reversing a segment, a subpath or a whole path draws exactly the same curves in the opposite order and direction, keeps closed subpaths closed and open ones open, "
     "and leaves the rest of the path and its connections intact. Reversing twice gives back the same drawing, and lengths are unchanged.",
     ["inputs", "histories"],
     "every path of one to three subpaths built from up to 3 pieces of 8 kinds, open and closed; every subpath of every pair; with measurements before and after; long paths of up to 1025 segments or subpaths",
     "Reversal moves the close and the move and depends on every neighbour; the tests reverse a few hand-made paths.",
     [PATH], [{"name": "Path.reverse, Subpath.reverse, segment reverse", "where": PATH}],
     "bounded-exhaustive exploration of paths, compared with an independently reversed drawing",
     "All paths inside the bound; each subpath starts with a move and is closed, if at all, at its end. A reversed closed outline may start at another corner.",
     observe=["segments after reverse()", "Path.length"])

prop("P08", "A subpath is an exact window onto its path",
     "The subpaths of a path partition it: one per move, in order, and indexing, slicing, iterating, measuring the bounds of, or writing out a subpath never shows a segment outside it. "
     "Any history of writes through a subpath object (assignment, deletion, +=, *=) changes exactly that part of the path, leaves the path connected, and the window follows its new end.",
     ["inputs", "histories"],
     "every path of up to 4 commands of 7 kinds with every index and slice of each subpath; every history of up to 2 (thorough 3) of about 100 writes through each subpath of 6 paths; long paths of up to 1025 segments or subpaths",
     "A window keeps indices into a list that the writes themselves shift; single writes in tests do not show a window that drifted.",
     [PATH], [{"name": "Subpath", "where": PATH}, {"name": "Path.as_subpaths/subpath/count_subpaths", "where": PATH}],
     "exhaustive enumeration of windows and explicit-state search over write histories against a list model",
     "One subpath object writes at a time: the library leaves other windows undefined after a write.",
     state=[{"name": "window", "meaning": "first and last index", "where": "Subpath._start, Subpath._end"}],
     observe=["Subpath iteration, len, index, slice, d, bbox", "Path iteration"])

prop("P09", "Arcs are the ellipse arcs the SVG implementation notes define",
     "For every start point, end point, radii, rotation and flags, an arc built from path data or any of the endpoint constructors starts and ends exactly at its end points and runs along the ellipse, "
     "in the direction and the extent that SVG's endpoint-to-centre conversion prescribes. Negative radii count as positive, radii that are too small are scaled up, and a zero radius is a straight line.",
     ["inputs", "configurations"],
     "the full product of radii (negative, too small, extreme ratios), rotations, chords, flags and five ways of construction, the degenerate arcs, and the product at sizes of 2^-30 to 2^30",
     "The conversion has a case split per flag, sign and scaling; tests cover a handful of hand-picked arcs.",
     [PATH], [{"name": "Arc.svg_parameterize and the Arc constructor", "where": PATH}],
     "bounded-exhaustive grid of arc parameters against an independent implementation of SVG 2 B.2",
     "Complete over the stated grid; arcs whose chord is a diameter to 1e-6 are compared to 1e-3 only.",
     observe=["Arc.center, rx, ry, sweep, point(t)"])

prop("P10", "point() and npoint() run along the path from its start to its end",
     "For every path and every position from 0 to 1, Path.point and Path.npoint (list, tuple or array) give the same point: the one the drawn segments pass when that fraction of the total length has gone by segment, "
     "starting at the path's start and ending exactly at its end. For lines, beziers and closes point(t) and npoint give the Bernstein form of the control points.",
     ["inputs"],
     "every path of up to 3 (thorough 4) of 15 pieces at 15 positions and every junction; every line, quadratic and cubic with control points on a grid; arcs by their sweep up to a turn and a half, alone and in paths; short paths at sizes of 2^-30 to 2^30; long paths of up to 1025 segments or subpaths; the ends of arcs with radii of up to 1e8 chords",
     "Errors sit at junctions, zero-length segments, next to 1 and in mixed paths; tests sample a few positions of a few paths.",
     [PATH], [{"name": "Path.point/npoint, segment point/npoint", "where": PATH}],
     "bounded-exhaustive enumeration of paths x positions against an independent length and curve model",
     "At a junction of two subpaths either side is accepted; within a segment the position is the curve parameter, as the library defines it.",
     observe=["Path.point", "Path.npoint", "segment point/npoint"])

prop("P11", "A bounding box is exactly the extent of what is drawn",
     "The bounding box of every line, close, quadratic, cubic and arc, rotated or transformed by any matrix, contains the whole drawn segment and touches it on all four sides. "
     "Asking for it changes nothing, and the box of a subpath is the union of the boxes of its drawn segments.",
     ["inputs"],
     "every quadratic and cubic with coordinates on a grid, every line, every arc of a parameter grid (also nearly level ones), arcs by their sweep up to a turn and a half, arcs under 18 matrices, and a selection at sizes of 2^-30 to 2^30; long paths of up to 1025 segments or subpaths",
     "Extrema depend on degenerate derivatives (linear, constant, double roots) that a few sampled curves do not hit.",
     [PATH], [{"name": "bbox and local_extremizer methods", "where": PATH}],
     "bounded-exhaustive grid enumeration against closed-form extrema",
     "Complete over the stated grids; arcs moved by a matrix are compared with dense evaluation of the moved reference arc.",
     observe=["segment.bbox()", "Subpath.bbox()"])

prop("P12", "Lengths are right to the requested error",
     "length(error) of every segment and of every path is the arc length of the drawn curve within the requested error (or a millionth of the length, without scipy a "
     "thousandth, if that is more), whatever error was asked for before. It is never shorter than the chord and does not change under rotations and translations or when asked again.",
     ["inputs", "configurations", "histories"],
     "every line, quadratic and cubic on a coordinate grid, every arc of the parameter grid, arcs by their sweep up to a turn and a half, all paths of up to 3 (thorough 4) of 15 pieces also moved rigidly, a selection at sizes of 2^-30 to 2^30, and the scipy-free fallback; long paths of up to 1025 segments or subpaths",
     "The closed forms have singular cases (collinear, cusps, coincident points, circles, degenerate arcs).",
     [PATH], [{"name": "length, _line_length, _exact_length, _integral_length methods", "where": PATH}],
     "bounded-exhaustive grid enumeration against independent high-accuracy quadrature",
     "Complete over the stated grids; default error compared to 1e-6 relative.",
     observe=["segment.length", "Path.length"])

prop("P13", "Transforming a path moves every one of its points by the matrix",
     "Multiplying a segment, a path or its subpaths by any sequence of invertible matrices (including reflections, quarter turns, skews and non-uniform scales, given as Matrix or text) "
     "gives the curve whose point at every parameter is the matrix applied to the original's point there, and keeps the path connected. "
     "The in-place forms change the object itself, the others leave the operands alone.",
     ["inputs", "programs"],
     "13 segments and arcs of up to one and a half turns x every sequence of up to 2 (thorough 3) of 18 matrices; all paths of 2 (thorough 3) pieces x 18 matrices x 10 operator forms; paths after every history of up to 2 (thorough 3) of 27 edits, then moved in 4 ways; segments and matrices at sizes of 2^-30 to 2^30; long paths of up to 1025 segments or subpaths",
     "Arcs carry axes and a signed sweep that reflections and repeated products must keep consistent.",
     [PATH, BASIC], [{"name": "__mul__/__imul__/__matmul__ of segments and paths", "where": PATH}],
     "bounded-exhaustive matrix sequences on the real objects against pointwise transformation of a reference curve",
     "Complete over the stated segments, paths and matrices; tolerance 2e-6 of the matrix size.",
     observe=["segment.point", "start, end"])

prop("P14", "Curves standing in for arcs stay on the arc",
     "Approximating an arc by quadratic or cubic curves gives the asked (or default) number of connected curves, from the arc's start to its end, each staying on the ellipse within the accuracy of the approximation and following the same direction. "
     "Replacing the arcs of a path this way changes only its arcs and leaves the path connected.",
     ["inputs", "configurations"],
     "the arc parameter grid x default, 1, 4 and 7 curves; arcs by their sweep up to a turn and a half; arcs with radii of up to 1e8 chords; all paths of up to 3 (thorough 4) pieces that contain arcs x cubics/quads x two error settings",
     "Tests approximate a few arcs; rotation, direction, scaled-up radii and neighbours in the path all enter.",
     [PATH], [{"name": "Arc.as_cubic_curves/as_quad_curves, Path.approximate_arcs_with_*", "where": PATH}],
     "bounded-exhaustive arc grid against the implicit ellipse equation",
     "Complete over the grid; slices of more than a quarter turn are only checked for number, ends and kind.",
     observe=["yielded curves", "Path iteration"])

prop("P15", "Copies and results of operators are independent and equality means content",
     "copy(), Path(path), * and @ and + on paths and segments give objects equal in content whose later edits never show in the operand, nor the other way round, and reading or combining objects never changes them. "
     "Two paths, subpaths or segments compare equal exactly when their segments have the same kinds and points; == is symmetric and != is its negation.",
     ["histories", "programs"],
     "3 paths x 11 derivations x all interleavings of up to 2 (thorough 3) of 17 edits on both; 10 segments x 8 derivations x up to 3 of 4 edits; all pairs of a pool of paths and segments",
     "Aliasing shows only when one of two derived objects is edited later in a particular way.",
     [PATH], [{"name": "__copy__, Path.__init__, __add__, __radd__, __mul__, __eq__", "where": PATH}],
     "bounded-exhaustive interleavings of edits on pairs of derived objects against separately built objects",
     "Segments handed to append, insert, extend or item assignment become the path's own and are not copied.",
     observe=["segment points of both objects", "==, !="])

prop("P16", "Results do not depend on numpy or scipy being installed",
     "Lengths, points, point lists and bounding boxes of every path are the same (what depends on lengths to a thousandth of the length), with numpy and scipy, without scipy, and without both.",
     ["inputs", "configurations", "fault_sequences"],
     "all paths of up to 3 (thorough 4) of 16 pieces and arcs by their sweep x three library configurations; long paths of up to 129 segments or subpaths",
     "The tests run in one environment only; every numeric method has a separate fallback.",
     [PATH], [{"name": "try/except ImportError fallbacks in length and npoint", "where": PATH}],
     "exhaustive library-absence fault configurations over a bounded-exhaustive path space, differential",
     "Complete over the stated paths and the three configurations.",
     observe=["length, point, npoint, bbox"])


prop("P23", "Length arithmetic keeps quantities right across units",
     "Adding, subtracting, scaling, negating, dividing and comparing lengths of any convertible units (with lengths, text or numbers) gives the physically right quantity, "
     "and lengths that cannot be combined without more information raise ValueError and compare unequal rather than giving a number. "
     "Only the in-place forms change their left operand, a failed operation changes nothing, and no operation changes the right operand.",
     ["inputs", "histories"],
     "all pairs of 6 (thorough 11) amounts x 14 units in every operator and operand form; every history of up to 4 (thorough 5) in-place operations",
     "The rules are a table over pairs of units and operand forms, and each entry is separate code; tests touch a few entries.",
     [BASIC], [{"name": "Length operators", "where": BASIC}],
     "bounded-exhaustive enumeration of operand pairs and operation histories against a quantity model",
     "Conversion factors accepted to 6e-5 (the library uses 1.3333 px per pt); px/pt/pc form one family, mm/cm/in another, every other unit its own.",
     state=[{"name": "quantity", "meaning": "amount and unit", "where": "Length.amount, Length.units"}],
     observe=["result of the operator", "operands afterwards"])

prop("P24", "Lengths resolve to pixels exactly when the needed context is given",
     "A length of any unit resolves to the CSS pixel value when the context it needs is given (ppi for mm, cm and in, a relative length for %, font size and height for em and ex, a viewbox for vw, vh, vmin, vmax) and stays an equal length otherwise. "
     "Conversions to mm, cm and inches resolve back to the same pixels, and a length written as text re-reads as the same length.",
     ["inputs", "configurations"],
     "every amount x 14 units x every combination of known context; every number spelling x unit x surrounding blanks",
     "Resolution is a case split over unit and available context; tests check a few combinations.",
     [BASIC], [{"name": "Length.value, to_mm, to_cm, to_inch, __init__, __str__", "where": BASIC}],
     "bounded-exhaustive configuration enumeration against the CSS unit definitions",
     "Conversion factors accepted to 6e-5.",
     observe=["Length.value", "to_mm/to_cm/to_inch", "str, repr"])

prop("P25", "Colour text means the CSS colour and re-reads as itself",
     "Every SVG colour keyword, 3-, 4-, 6- and 8-digit hex value and rgb(), rgba(), hsl() and hsla() function, in any case and spacing, gives the channels CSS defines for it, with out-of-range components clipped. "
     "Every colour written as text, hex or an integer, or copied, reads back as the same four channels, and two colours are equal exactly when their channels are.",
     ["inputs"],
     "all 147 keywords, all 3-digit and 4-digit (quick: 5 values a place) hex values, every byte in every place, and grids of the functional forms",
     "A table of 147 entries and several parsers; the tests check a dozen colours.",
     [BASIC], [{"name": "Color.parse and its parse_color_* methods, hex/rgb/argb/rgba properties", "where": BASIC}],
     "exhaustive enumeration of colour text against the CSS tables and formulas",
     "Percentages, fractional alpha and hsl compared to one step of 255.",
     observe=["red, green, blue, alpha", "hex, hexa, rgb, rgba, argb, str, repr"])

prop("P26", "Writing one colour channel changes exactly that channel",
     "After any history of writes to the red, green, blue, alpha, opacity, rgb, rgba and argb properties, blends and copies, a colour holds in each channel the last value written there, clipped to its range, "
     "and every way of reading it agrees. The colour none has no channels: reading gives None, writing raises ValueError and changes nothing.",
     ["histories", "inputs"],
     "every history of up to 3 (thorough 4) of 59 writes from 4 colours; every subset of channel keywords; every property of none",
     "All channels share one integer; a wrong mask shows only for particular values of the other channels.",
     [BASIC], [{"name": "Color channel properties", "where": BASIC}],
     "explicit-state breadth-first search over write histories against a four-channel model",
     "Complete over the stated writes and depth; states merge when the modelled channels are equal (the colour holds nothing else).",
     state=[{"name": "value", "meaning": "packed rgba integer", "where": "Color.value"}],
     observe=["red, green, blue, alpha, opacity, rgb, rgba, argb, hex"])

prop("P27", "Hue, saturation and lightness agree with the channels",
     "Hue (in degrees), saturation, lightness, luma, luminance, brightness, blackness and intensity of every colour have their defined values. "
     "Setting hue, saturation, lightness or hsl, in any order and repeatedly, gives the colour with those components to one channel step and keeps the alpha.",
     ["inputs", "histories"],
     "every colour of a channel grid read and written back; every history of up to 3 (thorough 4) of 23 hsl writes from 5 colours",
     "Conversions have a branch per sector and special cases for grey, black and white.",
     [BASIC], [{"name": "Color.hue/saturation/lightness/hsl, rgb_to_hsl, hsl_to_int", "where": BASIC}],
     "bounded-exhaustive enumeration of colours and write histories against colorsys",
     "Compared to one step of 255 a channel.",
     observe=["hue, saturation, lightness, hsl, luma, ..."])

prop("P28", "Compositing and colour distance follow their definitions",
     "Color.over and blend give source-over compositing for every pair of colours and alphas: an opaque top wins, a transparent top leaves the bottom. "
     "The colour distance is the red-mean distance, symmetric, never negative, zero for equal colours, and the same whether operands are colours, text or integers.",
     ["inputs"],
     "every pair of a grid of channels and alphas, in every operand form",
     "Rounding, division by a zero total alpha and operand forms are separate paths that tests sample once.",
     [BASIC], [{"name": "Color.over, blend, distance_sq, distance, distance_to", "where": BASIC}],
     "bounded-exhaustive enumeration of colour pairs against real-number formulas",
     "Channels compared to one step of 255; distances to the rounding of the integer formula.",
     observe=["Color.over", "blend", "distance", "distance_sq"])

prop("P29", "Distinct colours never repeat",
     "Color.distinct(i) is a different opaque colour for every different index, and the same colour whenever it is asked for the same index.",
     ["inputs"],
     "every index below 300000 (thorough: every index below 2^24, where the colours run out)",
     "The recursion changes with the size of the index; a collision between far-away indices cannot be seen by sampling.",
     [BASIC], [{"name": "Color.distinct", "where": BASIC}],
     "exhaustive enumeration of all indices with a bitmap of all colours",
     "Complete for all 2^24 indices in the thorough tier.",
     observe=["Color.distinct"])


prop("P17", "Arcs built from points, bulges, radii, centres or sweeps are the arcs asked for",
     "An arc built from its ends and a control point, bulge, sagitta, radius or centre (with radii, rotation or a bounding box), or from one end, a centre and a sweep, starts and ends at the given points, "
     "lies on the circle or ellipse that the data determine, passes through the control point if one is given, and turns clockwise unless ccw is asked for.",
     ["inputs", "configurations"],
     "grids of starts, ends, control points, bulges, radii, centres, ellipses, sweeps and directions through every constructor form",
     "The constructor is a cascade of keyword cases with special cases for axis-parallel chords; tests build half a dozen arcs.",
     [PATH], [{"name": "Arc.__init__", "where": PATH}],
     "bounded-exhaustive enumeration of constructor arguments against closed-form circles and ellipses",
     "Complete over the stated grids. Control points in line with the ends and zero bulges are left out.",
     observe=["Arc.start, end, center, sweep, point(t)"])

prop("P18", "repr of a value is an expression for an equal value",
     "The repr of a point, matrix, colour, length, angle, path segment, path or subpath is a Python expression that evaluates to an equal value with the same numbers to twelve decimals, "
     "including missing start points, negative and very small or large numbers, no colour and translations with units. "
     "The text of a point reads as the same point, and taking the repr changes nothing.",
     ["inputs"],
     "numbers of many magnitudes in every place of every kind of value, every kind of segment, arcs of 12 magnitudes of sweep, and paths by every bounded command sequence",
     "The tests compare the repr of a few values; a repr drops or misplaces an argument only for particular forms, such as a missing start point, a missing colour or an arc turned the other way.",
     [BASIC, PATH], [{"name": "__repr__ of the value types and segments", "where": BASIC}, {"name": "__repr__ of segments, Path and Subpath", "where": PATH}],
     "bounded-exhaustive round trip: repr evaluated by Python and compared number by number",
     "All combinations inside the bound, numbers compared to 2e-12 relative; the relative and smooth forms of segments are not part of the value.",
     observe=["repr(value)", "eval"])

prop("P19", "The closest point of a line is the orthogonal projection, kept on the line",
     "The point of a line or close that is closest to a given point is the orthogonal projection onto it, moved to the nearer end if it falls outside and staying outside if bounds are not respected. "
     "A line without length gives its only point, the answer is the same without numpy, and asking changes nothing.",
     ["inputs", "configurations"],
     "every line with ends on a 4 x 4 grid, also without length, x every point of a grid x bounded or not x numpy present or missing",
     "The tests ask for two points of one line; lines without length, points beyond the ends and the numpy path behave differently.",
     [PATH], [{"name": "Linear.closest_segment_point", "where": PATH}],
     "bounded-exhaustive comparison with exact rational projection, library absence injected as a fault",
     "All lines and points of the grids; results compared to 1e-9.",
     observe=["Line.closest_segment_point", "Close.closest_segment_point"])

prop("P20", "Matrix operations compose exactly as 2x3 affine algebra",
     "After any sequence of pre_ and post_ scale, translate, rotate, skew (also about a point) and cat operations, products with matrices or text, inversions and resets, a Matrix holds the composition in the documented order, "
     "and its entries, determinant, inverse and the ways of applying it to points and vectors all agree. "
     "In-place forms change the matrix itself; all other forms leave their operands alone and give independent results.",
     ["histories", "inputs"],
     "every history of up to 2 (thorough 3) of 80 operations from 4 matrices; every operation at 81 anchors; inverses at 8 (thorough 25) magnitudes; every entry changed for equality",
     "Order of composition and translation terms only show in sequences of operations that do not commute.",
     [BASIC], [{"name": "Matrix", "where": BASIC}],
     "explicit-state breadth-first search over operation histories against a tuple model",
     "Complete over the stated operations and depth; states merge when the modelled six entries agree to 1e-8.",
     state=[{"name": "entries", "meaning": "a b c d e f", "where": "Matrix.a..f"}],
     observe=["six entries", "determinant", "point_in_matrix_space", "transform_point", "transform_vector"])

prop("P21", "A transform list is the product of its functions in SVG order",
     "Parsing any transform list of SVG 1.1 and CSS 2D functions, in any case and with any legal separators, number spellings and angle units, gives the matrix product that SVG defines. "
     "Translations and centres given as lengths or percentages resolve to the same matrix whether the context is given at once or in a later render(), and stay open until it is.",
     ["inputs", "configurations"],
     "24 function forms in 84 spellings, all pairs in 3 spellings and 5 joints, triples; every argument in 11 number spellings; every length unit and resolution",
     "Meaning depends on function, argument count, unit, spelling and order; tests parse a few fixed lists.",
     [BASIC, "svgio/constants.py"], [{"name": "Matrix.parse, Matrix.render", "where": BASIC}],
     "bounded-exhaustive enumeration of transform text against tuple affine algebra",
     "Complete over the stated forms; lists that mix length families and percentages after rotations are left out.",
     observe=["six entries of Matrix(text)"])

prop("P22", "A viewBox maps onto its viewport as preserveAspectRatio says",
     "For every viewport, viewBox and preserveAspectRatio value, the transform of a Viewbox is the one SVG 2 section 8.2 prescribes: uniform and inside for meet, uniform and covering for slice, stretched for none, aligned as asked. "
     "The transform is empty exactly when nothing changes or a number is missing, however the viewBox was given, and a Viewbox written as text re-reads the same to twelve decimals.",
     ["inputs", "configurations"],
     "every viewport x viewBox x preserveAspectRatio text of a grid, five ways of giving the viewBox, every subset of missing numbers, viewBoxes 1e-1 to 1e-8 away from the viewport",
     "Ten alignments, two fits and number signs multiply; tests check a few combinations.",
     [BASIC], [{"name": "Viewbox.viewbox_transform", "where": BASIC}],
     "bounded-exhaustive configuration enumeration against the formula of SVG 2 section 8.2 and extent conditions",
     "Complete over the stated grid; viewboxes with a zero size are left out.",
     observe=["Viewbox.transform", "str(Viewbox)"])

prop("P30", "Angles convert between units and compare modulo a full turn",
     "Every angle given or parsed in degrees, radians, gradians, turns or percent has the right value in every other unit, normalised and as positive degrees. "
     "Two angles are equal exactly when they differ by whole turns, also either side of the turn, and != is the negation; only multiples of a quarter turn are orthogonal.",
     ["inputs"],
     "every number x unit x case; all pairs of angles either side of a turn; quarter turns with offsets; angles of up to 1e18 degrees",
     "Comparison modulo a turn fails only at the wrap-around.",
     [BASIC], [{"name": "Angle", "where": BASIC}],
     "bounded-exhaustive enumeration against unit arithmetic",
     "Complete over the stated grid; equality tolerance 1e-11 rad as in the library.",
     observe=["Angle.as_*, ==, !=, is_orthogonal, normalized"])

prop("P31", "Point arithmetic is plane and complex arithmetic for every operand kind",
     "Sums, differences, products, equality and construction of points give the same plane or complex arithmetic result for points, tuples, lists, complex numbers, numbers and text; "
     "distances, angles, polar points, reflections and points in between agree with plane geometry. In-place forms change only the left operand, all others and those that fail change nothing.",
     ["inputs", "histories"],
     "all pairs of a set of points x 6 operand kinds x every operator form; 10 operands that are no points; all triples of a grid for orientation; every history of up to 3 (thorough 4) of 10 edits",
     "Each operator tries a chain of operand kinds in turn; half-applied attempts only show for particular kinds.",
     [BASIC], [{"name": "Point", "where": BASIC}],
     "bounded-exhaustive enumeration against complex arithmetic",
     "Complete over the stated sets. Powers are left out (the library rounds them).",
     observe=["Point.x, y", "operands afterwards"])

prop("P32", "The convex hull is exactly the corners of the point set, in order",
     "Point.convex_hull yields each corner of the convex hull of any set of points once, in order around it, and nothing else; it terminates also for points in a line, repeated points and single points.",
     ["inputs"],
     "all sets of up to 9 points of a 3x3 grid (thorough: up to 7 of a 4x4 grid), permutations and repetitions of selections, smaller sets at sizes of 2^-40 to 2^20 and nearly flat corners",
     "Failures need points in a line or level with the first corner; random points in tests avoid them.",
     [BASIC], [{"name": "Point.convex_hull, Point.orientation", "where": BASIC}],
     "exhaustive enumeration of point sets on a grid against a monotone-chain hull",
     "Complete over the stated grid; coordinates for which the orientation test is exact.",
     observe=["Point.convex_hull"])


prop("P33", "Every way to build or join segments and paths gives the same drawing",
     "Every documented constructor form of a segment (positional or keyword arguments; points as Point, tuple, list, complex number or text) gives the same segment, and a path made of a list, a tuple, another path or a subpath holds the same connected drawing. "
     "Joining text, segments, paths and subpaths with + or += gives the segments of the left followed by those of the right, connected; + leaves both operands alone and its result shares nothing with them.",
     ["inputs", "programs"],
     "5 kinds of segments x starts or none x ends x 5 kinds of operands x flags x every constructor form; all lists of up to 4 (thorough 5) segments through 8 ways to make a path; 6 drawings x 12 continuations and 9 segments in every operand form; long paths of up to 257 parts",
     "The tests build segments in one or two forms; dropped arguments and shared segments depend on the form and the operand kind.",
     [PATH], [{"name": "segment constructors", "where": PATH}, {"name": "Path.__init__ / __add__ / __radd__ / __iadd__, Subpath likewise", "where": PATH}],
     "bounded-exhaustive product of constructor and operator forms against a list model",
     "All combinations of the stated forms and operands; joins svgio does not define are left out.",
     observe=["segment points and flags", "segments of the joined path"])

prop("P34", "An arc tells the radii, rotation, angles and parameters of its ellipse",
     "For every arc, the radii, rotation, start and end angles and parameters, theta and delta are those of its ellipse. "
     "point_at_t, t_at_point, point_at_angle and angle_at_point agree with the ellipse in every quadrant and are inverse to each other modulo a full turn; asking changes nothing. "
     "get_ellipse gives an ellipse element that draws just that ellipse, whole.",
     ["inputs"],
     "6 ellipses x rotations x centres x starts x sweeps x 49 (thorough 97) angles of both signs, also just beside them; a selection at sizes of 2^-30 to 2^30",
     "The tests use these through arc construction; quadrant decisions at multiples of a quarter turn and rotations are special cases each.",
     [PATH], [{"name": "Arc.point_at_t / t_at_point / point_at_angle / angle_at_point / get_start_t", "where": PATH}],
     "bounded-exhaustive comparison with the parametric ellipse",
     "All arcs and angles of the grids, to 1e-9 of the ratio of the radii.",
     observe=["Arc queries"])

prop("P35", "Making closes direct adds only their lines and changes no drawing",
     "direct_close puts a line before exactly those closes that have a length and leaves every close without length, whatever happened to the path before. "
     "The drawing, its length and its subpaths stay the same, doing it again changes nothing, and a direct outline that is reversed still begins and ends at its move. "
     "as_points lists the defining points of all segments, in order.",
     ["inputs", "histories"],
     "every path of up to 3 (thorough 4) of 12 pieces after each of 8 preparations; every closed outline of up to 2 (thorough 3) pieces and pairs of them, made direct and reversed; closes of length 1 to 1e-11; long paths of up to 129 segments or subpaths",
     "No test calls either; closes in the middle, in a row, after moves or after zero-length lines are cases of their own.",
     [PATH], [{"name": "Path.direct_close, Path.as_points", "where": PATH}],
     "bounded-exhaustive exploration of paths and preparations against a list model",
     "Complete over the stated paths and preparations.",
     observe=["segments after direct_close()", "as_points()"])

prop("P40", "Loading gives one node per element, as in the file",
     "Loading XML, from a file, a stream or into an existing node, gives exactly one node per element, in document order and nested as in the file, with the element's name and attributes, "
     "of the class that belongs to its SVG name (a plain node for all others), and linked to its parent and document. Comments, instructions, encodings and namespace prefixes make no difference, and XML that is not well-formed is rejected.",
     ["inputs", "configurations"],
     "every ordered tree of up to 6 elements x element names; every element name x place x prefix; every attribute name x value; every source kind x comments and CDATA; every node parsed into",
     "Every later feature reads the loaded tree; a mistake in the node stack shows only for particular nestings.",
     [NODES], [{"name": "Node.parse, BOOTSTRAP", "where": NODES}],
     "bounded-exhaustive enumeration of documents against the tree they were written from",
     "Complete over the stated trees and alphabets. XML syntax itself is the expat parser's.",
     state=[{"name": "node tree", "meaning": "list of children, parent, document, attributes", "where": "Node"}],
     observe=["Document(source)", "Node.parse", "tag(), attributes, parent, document"])

prop("P41", "Saving and loading lose nothing, also after edits",
     "The text of a node (str or xml) and the file written for a document are well-formed XML of exactly the current tree: every element, attribute and text, including unknown elements, other namespaces and characters that need escaping. "
     "Written files are SVG documents that load as an equal tree, whatever edits (attributes, built, parsed-in, removed or reordered nodes) came before. Comments, instructions and namespace prefixes are not part of the tree.",
     ["inputs", "histories"],
     "every tree of up to 5 elements x names, every text position, every attribute name x value, every history of up to 3 (thorough 4) edits; each node saved in every way",
     "The README promises lossless saving; the tests only print the text.",
     [NODES], [{"name": "Node.xml, Document.write", "where": NODES}],
     "bounded-exhaustive round trips and breadth-first search over edit histories, read back by an independent parser",
     "Complete over the stated trees and histories; compared through xml.etree with the generating tree.",
     observe=["str(node)", "Node.xml", "Document.write, read"])

prop("P42", "Elements are found by their id and by url(#id)",
     "get_element_by_id and get_element_by_url('url(#id)') give the element of the document with that id, however it came into the document (loaded, parsed into any node, built on any node, added with its descendants) and whatever its name; "
     "unknown ids give None. Documents never share ids or nodes.",
     ["inputs", "histories"],
     "every tree of up to 5 elements x which have ids; every pair of 21 ids; trees of up to 300 elements added at once; every history of up to 3 (thorough 4) of 29 ways to bring nodes into one of two documents",
     "The index is filled in several places; a path that forgets it shows only for nodes that came that way.",
     [NODES], [{"name": "Document.objects, get_element_by_id, get_element_by_url, add, ElementBuilder", "where": NODES}],
     "breadth-first search over histories on two documents plus bounded-exhaustive trees",
     "Complete over the stated trees and histories. Ids are unique; the index does not follow unlinked nodes or changed id attributes.",
     state=[{"name": "objects", "meaning": "id to node", "where": "Document.objects"}],
     observe=["get_element_by_id", "get_element_by_url"])

prop("P43", "Tree navigation and node comparison follow the tree",
     "First and last child, next and previous sibling, parent, owner document, child counts and their element variants are those of the tree the node is in, also among siblings with equal content and after nodes were built or parsed in. "
     "is_same_node is identity; is_equal_node compares name, attributes, text (blanks too) and children, in order, at every depth.",
     ["inputs", "histories"],
     "every tree of up to 6 equal elements (thorough 8) and of two kinds, all pairs of nodes; every single difference at every element of trees of up to 5; every history of up to 4 edits",
     "Siblings of equal content and differences deep in the tree are what tests leave out.",
     [NODES], [{"name": "Node navigation properties, is_equal_node", "where": NODES}],
     "bounded-exhaustive enumeration of trees and edit histories against an independent tree",
     "Complete over the stated trees and histories.",
     observe=["Node.first_child ... previous_element_sibling", "is_equal_node, is_same_node"])

prop("P44", "Inherited properties come from the nearest ancestor, others from no one",
     "fill, stroke, stroke width and the fill and stroke opacities of an element are those of the element itself or else of its nearest ancestor that has them, with the opacity, if it is a number, applied to the colour. "
     "Geometry, links, transforms and ids come from the element alone. Edits of any element are seen at once, and reading changes nothing.",
     ["inputs", "histories"],
     "10 elements x up to 4 levels x each property absent or one of 3 values at every level; 7 opacities that are no numbers; 12 containers; every geometry attribute of 15 elements at every subset of levels; every history of up to 3 (thorough 5) of 24 edits",
     "Whether a value leaks or is missed depends on which levels have it.",
     [NODES], [{"name": "Document.get_values, GraphicalElement", "where": NODES}],
     "bounded-exhaustive enumeration of attribute placements and breadth-first search over edits against the inheritance rule",
     "Complete over the stated placements. Style sheets, the style attribute, inherit and currentColor are not resolved by the library.",
     observe=["fill, stroke, stroke_width, fill_opacity, stroke_opacity", "shape properties"])

prop("P45", "Building a node equals parsing its element",
     "parent.rect(...), and every other builder and node class, with any number of positional arguments and any attributes, gives the same node as parsing the element with these attributes, "
     "as the last child of the parent and linked to the parent's document. Programs of builder calls give exactly the tree they describe.",
     ["inputs", "programs"],
     "every builder and class x every number of positional arguments x numbers and text x keyword sets x 7 parents; every program of up to 4 (thorough 5) of 18 builder calls",
     "Each class maps its positional arguments by hand; tests build one line.",
     [NODES], [{"name": "ElementBuilder, Node.__getattribute__, shape constructors", "where": NODES}],
     "bounded-exhaustive enumeration of builder calls and breadth-first search over programs against parsing and an independent tree",
     "Complete over the stated calls and programs.",
     observe=["Node builder attributes", "str(node)"])

prop("P46", "Images give back their embedded data",
     "data of an image with a base64 link of type png, jpg, jpeg or svg+xml is exactly the embedded bytes, whichever link attribute holds it and however the node was made. All other images have no data.",
     ["inputs"],
     "4 media types x every payload of up to 3 bytes of 7 values, all byte values, all lengths to 69 x 2 link attributes; 9 links without data",
     "No test reads an image; each type has its own offset.",
     [NODES], [{"name": "Image.data, Image.href", "where": NODES}],
     "bounded-exhaustive enumeration of payloads",
     "Complete over the stated payloads.",
     observe=["Image.data"])

prop("P47", "A path element draws its path data",
     "A path element, however it was made, loaded or edited, gives as segments(False) exactly the segments of its d attribute, and as segments() the same shape moved by its own transform, anew each time; its bounding box is the extent of what these draw, without the moves. "
     "Without path data there are no segments and no box. Asking changes nothing.",
     ["inputs", "programs"],
     "all path data of up to 3 (thorough 4) pieces x 6 ways to make the element, and x 7 transforms; 8 kinds of path of up to 1025 segments; programs of up to 3 (thorough 5) writes and looks at two elements",
     "No test asks a loaded element for its drawing.",
     [NODES, PATH], [{"name": "Path.segments, Shape.bbox", "where": NODES}],
     "bounded-exhaustive enumeration of path data, transforms and edits against an independent path machine",
     "Complete over the stated path data, transforms and programs. Only the element's own transform applies: those of the elements around it are not part of its outline.",
     observe=["nodes.Path.segments()", "nodes.Path.bbox()"])

prop("P48", "A basic shape draws the outline SVG defines for it",
     "A rect (rounded or not), circle, ellipse, line, polyline or polygon element, however it was made, loaded or edited, gives as segments(False) the outline SVG 2 defines for its attributes, in user units, missing ones being 0 (a missing rx or ry of a rect being the other one, both cut to half a side), and as segments() this outline moved by the element's own transform; both are connected. "
     "A shape without size (sides or radii of zero or less) or points gives none. bbox is the extent of the outline, d its path data, and asking changes neither the element nor later answers.",
     ["inputs", "programs"],
     "rects of 4 x 4 sizes x 7 x 7 radii, circles and ellipses of 16 centres and 5 (x 5) radii, lines between 16 x 16 points, 9 sides and radii of zero, less and more, polylines and polygons of up to 3 (thorough 4) of 4 points in 14 spellings, also with a coordinate too many (which is left out), and of up to 1025 points, 7 transforms, 7 units, sizes of 1e-9 to 1e9, 6 ways to make them; every sequence of up to 3 (thorough 4) edits; histories of making",
     "Which attributes are there, which are zero and how large radii are against the sides decide the outline; no test draws a shape element.",
     [NODES, PATH, BASIC], [{"name": "Rect.segments, Circle.segments, Ellipse.segments, Line.segments, Polyline, Polygon, Shape.bbox, Shape.d", "where": NODES}],
     "bounded-exhaustive enumeration of shapes, transforms and edit histories against outlines built from the SVG definitions",
     "Complete over the stated shapes. Lengths that need a context (percentages, em, viewport units) and one negative radius beside one that is not are left out; lines of no length in an outline do not count.",
     observe=["segments", "bbox", "d", "attributes"])

prop("P49", "A circle or ellipse element knows the points, angles and arcs of its ellipse",
     "For a circle or ellipse element with radii above zero point_at_t, point, t_at_point, angle_at_point, point_at_angle, center and unit_matrix agree with the ellipse its attributes describe at every angle of either sign. "
     "arc_t and arc_angle give the arc of that ellipse between the two parameters or directions, the way round asked for.",
     ["inputs"],
     "6 circles and ellipses x 2 centres x 3 ways to make them x all multiples of a 24th (thorough 96th) of a turn in two turns, with offsets of 1e-7; arcs from 12 (24) starts over 10 (48) sweeps, either way, and over 15 of a turn to two and a half",
     "Quadrants, quarter points and directions more than a turn away are separate cases; no test asks a shape element for any of this.",
     [NODES, PATH], [{"name": "_RoundShape.point_at_t, point_at_angle, t_at_point, angle_at_point, arc_t, arc_angle, unit_matrix", "where": NODES}],
     "bounded-exhaustive enumeration of ellipses, angles and sweeps against the parametric ellipse",
     "Complete over the stated ellipses and angles; element coordinates, without the transform.",
     observe=["points", "angles", "arcs"])

prop("P50", "The viewBox of an element is fitted into its position and size",
     "For every svg, image and pattern element, however it was made, loaded or edited and wherever it stands, viewbox_transform is the transform SVG 2 section 8.2 prescribes for its own viewBox, x, y, width, height and preserveAspectRatio attributes as they are now, lengths being in user units and a missing x or y 0. "
     "It is empty where the viewBox is missing or incomplete or the width or height is missing or relative to something unknown; attributes of other elements do not matter, and asking changes nothing.",
     ["inputs", "configurations", "programs"],
     "9 positions x 9 sizes x 7 viewBoxes, each also absent, x up to 8 preserveAspectRatio values on 3 elements made in 7 ways; every subset of the six attributes; sizes and places of zero; 10 units; every history of up to 2 (thorough 3) of 24 edits of two elements; each attribute missing inside every combination of elements that have it",
     "No test asks a loaded element for its viewBox transform; which attributes are missing, where others have them, and what they were before multiply.",
     [NODES, BASIC], [{"name": "SVG.viewbox_transform, Image.viewbox_transform, Pattern.viewbox_transform", "where": NODES}, {"name": "Viewbox.viewbox_transform, Viewbox.set_viewbox, Viewbox.property_by_values", "where": BASIC}],
     "bounded-exhaustive enumeration of configurations and explicit-state search over edit histories against the formula of SVG 2 section 8.2",
     "Complete over the stated grids. viewBoxes of no size and negative sizes are left out.",
     observe=["viewbox_transform", "attributes"])


prop("P51", "Deep copies and pickles are independent and equal",
     "At every point of its history a path, subpath, segment, colour, length, matrix, point, angle, viewbox, element without a document or whole document can be copied with copy.deepcopy and pickled with every protocol, and the copy has the same type and content; paths, segments and values equal their copy. "
     "Afterwards every edit of one side has the effect it would have had without the copying, and nothing of it shows on the other side. In the copy of a document parents, siblings, the document of each node and what ids find are nodes of the copy.",
     ["histories", "programs", "inputs"],
     "6 paths, 7 subpaths, 7 segments, 22 values, 11 elements and 4 documents x every history of up to 1 to 2 (thorough 2 to 3) of 3 to 10 edits x deepcopy and 6 pickle protocols x one more edit of either side",
     "No test deep-copies or pickles anything; what breaks (weak references, hooks that need state, shared objects) does not show in any single-object test.",
     [PATH, BASIC, NODES], [{"name": "Node.__init__, Node.__getattribute__, Document.__init__", "where": NODES}, {"name": "Point, Color, Length, Matrix, Angle, Viewbox", "where": BASIC}, {"name": "Path, Subpath, PathSegment", "where": PATH}],
     "explicit-state search over edit histories with a copy taken at each state and either side continued, against the same history without the copy",
     "Complete over the stated histories. copy.copy of nodes and copies of a single node out of a document are left out.",
     observe=["copy", "original", "ids", "links"])

prop("P52", "What is given is not held, and what is answered belongs to the asker",
     "Points given to a segment, to a path's building calls, to a shape or to another point, and matrices, colours, lengths and view boxes given to make others, are copied: editing them afterwards never changes what was made, nor the other way round. "
     "Points, segments, paths and matrices answered by point, first_point, current_point, smooth_point, z_point, npoint, segments() of shapes, curves for arcs and operators can likewise be edited without changing what they were asked of, nor do later edits of that change them. "
     "Iterating a path, its subpaths, item access, as_points and attributes give the path's own segments and points instead.",
     ["histories", "programs"],
     "240 ways to get one thing from another x all interleavings of up to 2 (thorough 3) in-place edits of the two sides",
     "A shared point shows only when one side is edited in place after the other was made, and there is one such pair for every argument of every form.",
     [PATH, BASIC, NODES], [{"name": "Point(), Arc.__init__, Curve constructors, Path builder calls, point()", "where": PATH}],
     "bounded-exhaustive interleavings of in-place edits of both sides against each side edited alone",
     "Segments handed to a path become its own; a Length given as a component of a Matrix is held by it.",
     observe=["both sides as plain data"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    na = {n["property"] for n in NA}
    man = {
        "version": 1,
        "setup_cmd": "./run.sh --selftest",
        "checks": [{
            "property": p["id"], "quick_cmd": "./run.sh %s" % p["id"],
            "thorough_cmd": "./run.sh %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
        } for p in PROPS if p["id"] not in na],
        "not_applicable": NA,
        "notes": "No hooks in /repo: everything is observed through the public API. Known findings: KNOWN_FINDINGS.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
