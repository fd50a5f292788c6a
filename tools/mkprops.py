import json
P=[]
def p(id,title,st,over,qt,why,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=["homog2d.hpp"],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed="no")))
p("P01","A polyline's reported values always match its current vertices",
 "After any sequence of operations on an open or closed polyline (setting, translating, moving, rotating, mirroring, minimizing, clearing, assigning, copying, comparing, querying), every value it reports - vertices, size, segment count, length, area, centroid, bounding box, simple-polygon and convexity status - equals the value computed from scratch from the vertices that sequence produces. Asking for a value, in whatever order and however often, never changes any later answer.",
 ["histories","inputs"],"all sequences of modifying and querying operations on one or several polylines, all vertex lists",
 "Tests query a handful of fixed polylines, nearly always once after construction; a stale or partially invalidated cache needs a query / modify / query history that no test performs.",
 [("lazily cached length/area/centroid/isSimple","homog2d.hpp base::PolylineBase, priv PolylineAttribs"),("p_setAttribs / setBad invalidation in the modifiers","PolylineBase::set/translate/moveTo/rotate/minimize/clear")],
 [("attributes cache","cached measures with validity flags","detail::PlineAttribs/_attribs"),("vertex vector","current vertices, possibly reordered by comparison","_plinevec")],
 ["PolylineBase public accessors"])
p("P02","Polyline equality means 'same figure' and comparing never changes a figure",
 "Two closed polylines compare equal exactly when the vertex cycle of one is a rotation, possibly reversed, of the other's; two open ones exactly when their vertex lists are the same or mutually reversed; operator!= is always the negation. Equality is reflexive, symmetric and transitive, is not affected by which queries or comparisons were made earlier on either operand, and comparing leaves both operands describing the same figure.",
 ["inputs","histories"],"all pairs and triples of polylines, all start vertices and directions, including spikes, repeated vertices and collinear neighbours, any prior queries",
 "Tests compare a few convex figures; canonicalisation ties (spikes, collinear neighbours of the smallest vertex, repeated vertices) are never reached.",
 [("normalisation to a canonical vertex order","PolylineBase::p_normalizePoly"),("operator== / !=","PolylineBase")],
 [("normalized flag","whether the vertex list is in canonical order","_plIsNormalized")])
p("P03","Minimizing a polyline removes exactly the redundant vertices",
 "Minimizing a polyline removes exactly those vertices (for an open one, interior vertices) at which the outline continues straight on, and no other; the remaining vertices keep their order and coordinates. Hence the figure - its length, area and set of covered points - is unchanged, and a second minimization changes nothing.",
 ["inputs","histories"],"all open and closed polylines, whatever their position, direction, start vertex and the operations (rotation, mirror, translation) that produced them",
 "Tests minimize six fixed figures; directions on the branch cut of the angle computation and collinear runs across the start vertex are not sampled.",
 [("p_minimizePL","homog2d.hpp PolylineBase::p_minimizePL"),("minimize","PolylineBase::minimize")])
p("P04","Quarter/half-turn rotations and mirrors about a point are exact and composable",
 "Rotating a polyline or flat rectangle by a quarter turn, half turn, or mirroring it, about the origin or about any reference point (including one of the object's own points), maps every vertex to its exact image about that point and leaves the reference point fixed. Hence four equal quarter turns, a turn followed by its inverse, or the same mirror twice give back the original figure.",
 ["inputs","histories"],"all polylines and rectangles, all reference points (also ones taken from the object itself), all sequences of rotations and mirrors",
 "Tests rotate one square about fixed independent points; an aliased reference point or a long sequence is never tried.",
 [("rotate(Rotate) and rotate(Rotate,refpt)","homog2d.hpp PolylineBase and FRect_"),("free rotate()","homog2d.hpp")])
p("P05","Polygon measures and classification are exact for every polygon",
 "For every vertex list, a closed polyline is reported as a simple polygon exactly when no two of its edges meet other than at the shared vertex of consecutive ones; for a simple polygon the reported area and centroid are the exact ones, and it is reported convex exactly when no vertex turns against the others (straight-through vertices allowed). An open polyline is never a polygon, has zero area and is not convex, and none of the answers depends on the start vertex or the direction of the vertices.",
 ["inputs"],"all vertex lists, convex, concave, self-crossing, self-touching or degenerate, both directions, every start vertex",
 "Tests use about ten fixed figures; touching, overlapping and collinear configurations are a vanishing fraction of inputs and are not sampled.",
 [("isSimple","PolylineBase::isSimple"),("isConvex","PolylineBase::isConvex"),("area, centroid","PolylineBase::p_ComputeSignedArea, centroid")])
p("P06","A point is inside a polygon exactly when it is in the open interior",
 "For every simple closed polyline and every point, the point is reported inside exactly when it lies in the polygon's open interior: not when it is outside, on an edge or on a vertex. The answer exists for every such pair (no failure), and does not depend on the vertex order, on where the polygon lies, or on alignment of the point with edges or vertices.",
 ["inputs"],"all simple polygons, convex or not, all points, including points aligned with edges and vertices",
 "Tests probe nine points on two convex polygons; alignment cases of a concave polygon are not covered.",
 [("ray casting","homog2d.hpp detail/priv impl_isInsidePoly"),("Point2d::isInside(polyline)","LPBase::isInside")])
p("P07","'Is inside' between primitives means strict containment",
 "One primitive (point, segment, rectangle, circle, polyline) is reported inside another (rectangle, circle, closed polyline) exactly when it lies wholly within it without touching its boundary; nothing is inside an open polyline, a line or a segment, and a line is inside nothing. The relation is therefore irreflexive, asymmetric and transitive, and does not depend on the vertex order or numeric type of the operands.",
 ["inputs"],"all pairs and triples of primitives, in every relative position including touching and crossing",
 "Tests sample a few positions per pair; the grid of touching / aligned / overlapping positions is not covered.",
 [("isInside member functions","Segment/FRect/Circle/PolylineBase::isInside"),("pointIsInside helpers","detail::ptIsInside")])
p("P08","Intersection of lines and segments is exact and symmetric",
 "For any two segments, or a line and a segment, an intersection is reported exactly when they share a single point (for segments: end points included, and parallel or collinear pairs give none), and the reported point is that point. Swapping the operands, reversing either, or changing numeric type gives the same answer; two lines intersect unless parallel.",
 ["inputs"],"all pairs of segments, oriented segments and lines",
 "Tests sample about thirty hand-picked pairs; touching and nearly-touching configurations of all orientations are not covered.",
 [("segment/segment, segment/line intersection","SegVec::intersects, LPBase::intersects"),("detail::crossProduct / parallel test","homog2d.hpp")])
p("P09","Circle intersections report exactly the common points",
 "A circle and a line or segment, and two circles, are reported to intersect exactly when they have a common point, and the reported points are all the common points, each once (one for tangency or when only one crossing lies on the segment, end points included; identical circles report none). The answer is the same with the operands swapped.",
 ["inputs"],"all circle/line, circle/segment, circle/circle pairs in every position class (crossing, tangent, end point on the circle, one end inside, disjoint, nested)",
 "Tests use about twenty fixed pairs; combinations such as one end point on the circle and the other outside are not all covered.",
 [("Circle intersection","Circle_::intersects, detail::computeIntersectLine etc., SegVec::intersects(Circle)")])
p("P10","Intersections with outlines report every common point and no other",
 "The intersection of two objects of which at least one is an outline (rectangle, open or closed polyline), with a line, segment, circle, rectangle or polyline, reports exactly the points that an edge of one shares with a non-parallel edge (or with the curve, or the line) of the other, in sorted order: none is missing, none is invented, and disjoint outlines or edges that merely run along each other contribute none. Each point is reported once, except that a polyline is searched edge by edge, so that a point at one of its vertices (or where it crosses itself) may be repeated, at most once per pair of edges meeting there. Swapping the operands reports the same set.",
 ["inputs"],"all pairs of outline primitives on any coordinates",
 "Tests check some sizes and a few coordinates; duplicates at shared vertices and missing touching points depend on the relative position.",
 [("IntersectM accumulation, duplicates removal","detail::IntersectM, FRect_::intersects, PolylineBase::intersects")])
p("P11","Rectangle intersection area is the exact common rectangle",
 "For every two axis-aligned rectangles, an intersection area is reported exactly when their open interiors overlap, and it is the rectangle of all their common points; identical and nested rectangles included. The result is the same with the operands swapped and for every numeric type.",
 ["inputs"],"all pairs of rectangles in every relative position (169 interval configurations and their coordinates)",
 "Tests sample 13 figures; the code has a case analysis over shared corners / edges that has far more combinations.",
 [("intersectArea / intersectRectArea","FRect_::intersectArea")])
p("P12","Rectangle union outlines exactly the union; area ratio is exact",
 "For every two axis-aligned rectangles that overlap or share part of an edge, the union is a closed outline without redundant vertices enclosing exactly the points in either rectangle, so its area is the sum of both minus the common area; it is empty when they are disjoint. The area ratio (intersection over union) is the exact quotient, 0 for disjoint ones, 1 exactly for identical ones, and both are independent of operand order.",
 ["inputs"],"all pairs of rectangles in every relative position",
 "Tests sample a few figures; the outline is produced by a cell-grid walk whose cases depend on the relative position of eight coordinates.",
 [("unionArea cell walk","priv::runion, FRect_::unionArea"),("IoU","homog2d.hpp free function IoU")])
p("P13","A homography always acts as the matrix its history defines",
 "After any sequence of matrix operations (initialising, setting or adding translation, rotation, scale or shear, assigning cells, multiplying, inverting, transposing, normalising, copying, comparing), applying the homography to a point or a line gives exactly the image under the matrix that sequence defines, whatever was computed before. Transformed points stay on transformed lines, and inverting twice, or applying a transformation and then its inverse, restores the original.",
 ["histories","inputs"],"all sequences of matrix operations interleaved with applications to points and lines",
 "Tests build a matrix and use it once; a cached derived matrix going stale needs apply / modify / apply histories.",
 [("lazily cached inverse-transpose used for lines","Hmatrix_::_hmt, _hasChanged"),("normalisation flag","Matrix_::_isNormalized")],
 [("matrix cells","current homography","Matrix_::_mdata"),("cache","inverse transpose","Hmatrix_::_hmt")])
p("P14","Transforming a primitive equals transforming its points",
 "Applying a homography to a segment, oriented segment, open or closed polyline, rectangle, or container of primitives gives the primitive built from the images of its points, in the same order, direction and kind; applying an affine one to a circle or ellipse gives the ellipse of the image points. Applying a product of homographies equals applying them one after the other.",
 ["inputs","histories"],"all primitives and containers, all invertible matrices",
 "Tests apply few matrices to few primitives; direction of oriented segments, containers of each kind and composition are barely sampled.",
 [("operator*(Homogr,X), applyTo","homog2d.hpp Hmatrix_::applyTo, operator*"),])
p("P15","Points and lines obey projective duality",
 "The line through two distinct points contains both, the crossing of two non-parallel lines lies on both, and these constructions do not depend on operand order; building them from coincident points or parallel lines is refused. Equality of points and lines does not depend on the scale of their homogeneous representation, and coordinates read back equal the ones given.",
 ["inputs"],"all points and lines, including points with arbitrary homogeneous scale, and horizontal/vertical/through-origin lines",
 "Tests use a few pairs with small coordinates; sign and scale normalisation has several branches (vertical, horizontal, through origin).",
 [("cross product construction and normalisation","LPBase, detail::crossProduct, p_normalizePL"),("operator== of points/lines","LPBase")])
p("P16","Segments keep their kind's ordering, direction and measures",
 "Through any sequence of construction, conversion, assignment, translation, moving, reversing and splitting, a plain segment lists its end points in sorted order and compares equal regardless of how it was given, while an oriented segment keeps its direction and differs from its reverse; non-modifying operators leave their operand unchanged. Length, centre, squared length, angle, orientation, supporting line, split parts and side-of-point answers agree with the end points.",
 ["histories","inputs"],"all end points, all sequences of operations and conversions between the two kinds and numeric types",
 "Tests check single calls on few segments; conversions and operator histories are not covered.",
 [("SegVec constructors and ordering","base::SegVec"),("unary minus, getParallelSegs, split","base::SegVec")])
p("P17","Distances and closest-point answers are exact",
 "The distance between points, from a point to a line, and from a point to a segment is the exact Euclidean one; for a segment the accompanying indication says which end point or interior part is nearest. The closest-point pair of two polylines, and the nearest/farthest points of a container, achieve the true minimum/maximum, independently of the order of operands or elements.",
 ["inputs"],"all points, lines, segments, polylines and containers, including ties, repeated points and the query point in the container",
 "Tests use five fixed sets; duplicates of the query point and ties are order-dependent.",
 [("distTo","LPBase::distTo, SegVec::distTo"),("getClosestPoints, findNearestPoint...","homog2d.hpp")])
p("P18","Bounding boxes are tight, and independent of order",
 "The bounding box of a primitive, of two primitives of any kinds, or of a container (of one kind or of mixed run-time kinds) is the smallest axis-aligned rectangle containing all of them, whatever the order of arguments or elements; elements without extent information (empty polylines, lines) do not influence it. A request for which no box with an area exists is refused, again independently of order.",
 ["inputs","configurations"],"all primitives, all ordered pairs of kinds, all containers, all permutations",
 "Tests check some pairs in one order only; the result for empty or unbounded elements depends on position.",
 [("getBB overloads","homog2d.hpp getBB, getPointPair, getBB_CommonType")])
p("P19","The convex hull is the minimal convex polygon around its points",
 "For every set of points that are not all on one line, the convex hull is a convex polygon whose vertices are exactly the extreme points of the set, each listed once, and every input point lies inside or on it. The result does not depend on the order in which the points are listed nor on repetitions.",
 ["inputs"],"all point sets, including collinear runs, repeated points and grids, in every listing order",
 "Tests check one 4-point figure; collinear points seen from the pivot and repeated points depend on the listing order.",
 [("Graham scan","homog2d.hpp convexHull, priv::chull")])
p("P20","Extreme points are correct whatever the listing order",
 "The top-most, bottom-most, left-most and right-most points reported for a container of points or a polyline have the extreme coordinate and the documented tie-break, and are the same points whatever the listing order. Points selected as lying inside an area are exactly the points of the input that are inside it, in input order.",
 ["inputs"],"all containers (vector, list, array) and polylines, including ties and repeated coordinates",
 "Tests use one figure per direction.",
 [("getTopmostPoint & co, getExtremePoint","homog2d.hpp"),("getPtsInside","homog2d.hpp")])
p("P21","The circle built from a set of points is the smallest enclosing one",
 "The circle built from two or more points contains them all, and no smaller circle does, whatever their number, order, repetition or alignment. Building one never affects how other circles are accepted or rejected later, also when the request fails.",
 ["inputs","histories"],"all point sets of size two or more including collinear, cocircular and repeated ones; all later circle constructions",
 "Tests check one set of two points and one of four; three points, collinear and cocircular sets are not covered, nor is the global setting used during the computation.",
 [("Welzl algorithm","Circle_::set(container), priv::MEC helpers"),("radius check switch","thr::doNotCheckRadius")])
p("P22","An ellipse reports the parameters that define it, and comparing is harmless",
 "An ellipse built from centre, semi-axes and angle, or obtained by transforming a circle or ellipse, reports the centre, major and minor semi-axes, direction, area, axis lines, bounding boxes and point membership of that ellipse, in every orientation including vertical. Translating, moving, copying, comparing with another ellipse in any position, and querying never change these answers except as the operation says.",
 ["inputs","histories"],"all centres, axes, angles; sequences of translations, copies, comparisons and queries",
 "Tests construct five ellipses, none vertical, none compared after which values are re-read.",
 [("conic matrix <-> parameters","Ellipse_::p_init, p_computeParams"),("comparison normalises the matrix in place","Ellipse_::operator==")],
 [("conic matrix","symmetric 3x3","Matrix_::_mdata"),("cached parameters","only with the speed option","Ellipse_::_par")])
p("P23","Answers do not depend on numeric type or build options",
 "For coordinates that every numeric type represents exactly, the same program using float, double or long double (with an intermediate type at least as wide as double), with the speed-optimised ellipse option, run-time polymorphism or warnings on or off, and with run-time checks on or off where no check fires, gives the same discrete answers and the same values within rounding. Mixing numeric types in one operation gives the same answer as a single type.",
 ["configurations","inputs"],"all programs over exactly representable coordinates; all numeric types, all supported build options",
 "The test suite is built per type with few inputs, and never compares the runs.",
 [("templates on the numeric type; HOMOG2D_OPTIMIZE_SPEED, HOMOG2D_NOCHECKS, HOMOG2D_INUMTYPE","homog2d.hpp")])
p("P24","A refused operation leaves everything as it was",
 "When an operation is refused by throwing (invalid geometry, too few points, identical points, null scale or radius, non-invertible matrix, empty container, bad index), every object involved keeps the state it had before the call, later calls behave as if the refused one had not been made, and the library's error counter has increased (a cell index outside a matrix excepted). Nothing is refused that is documented as valid, and every documented invalid request is refused.",
 ["fault_sequences","histories"],"all refused requests, interleaved anywhere in a history of successful operations",
 "Tests check that a few calls throw, but not the state of the object or of the library afterwards.",
 [("checks before modification; HOMOG2D_THROW_ERROR_*","homog2d.hpp")],
 [("error counter","number of errors thrown","err::errorCount")])
p("P25","Run-time polymorphic access agrees with direct access",
 "Calling an operation on a primitive held in the variant type, or through the root-class pointer, gives the same type, length, area, size, bounding box, transformed object and drawing as calling it on the object itself, for every kind of primitive and any mix of kinds in a container. Converting a variant to its concrete kind succeeds exactly for the kind it holds.",
 ["inputs","configurations"],"all kinds of primitives, all operations available polymorphically, any mix of kinds",
 "Tests exercise a few kinds for a few operations.",
 [("variant functors","fct namespace"),("rtp::Root virtuals","rtp namespace")])
p("P26","Drawing settings apply to exactly the calls they are given to",
 "Drawing settings set on a parameter object, installed as default, reset, or copied are the ones used by exactly the later drawings they govern; drawing never modifies the settings or the object drawn. Each drawing appends its element after the existing content of an SVG image, which is always a well-formed document of the declared size, and images are independent of each other.",
 ["histories","inputs"],"all sequences of setting changes, default installations, resets, draws, and image operations",
 "Tests only check that drawing compiles and produces a non-empty file.",
 [("DrawParams default/current values","img::DrawParams"),("SVG stream","img::Image<SvgImage>")],
 [("default values","static defaults","DrawParams::p_getDefault")])
p("P27","SVG export then import gives back the same primitives",
 "Any sequence of points-free primitives (segments, circles, rectangles, ellipses, open and closed polylines) drawn into an SVG image and read back yields the same kinds, in drawing order, with the same coordinates to printed precision. Unknown elements in the document never disturb the others.",
 ["inputs","histories"],"all sequences of drawable primitives with coordinates exactly printable",
 "Tests import two fixed documents.",
 [("draw to SVG","draw(Image<SvgImage>)"),("svg::Visitor import","svg namespace")])
p("P28","SVG path strings are read according to their commands",
 "For every path string made of absolute or relative move, line, horizontal, vertical and close commands with any number of coordinate groups, the imported point lists are those the commands define, one list per sub-path, without consecutive duplicates, and the closed flag tells whether the path ends with a close command. Strings with an unsupported command, an unknown letter, or a wrong number of values are refused.",
 ["inputs"],"all command sequences, separators and groupings",
 "Tests check eight strings.",
 [("path parser state machine","svg::svgp::parsePath, getNextElem, SvgValuesBuffer")],
 [("previous point, mode, pending values","parser state","svgp::SvgValuesBuffer, SvgPathCommand")])
p("P29","Rectangles and circles keep their invariants through any history",
 "Through any sequence of construction, setting, translating, moving, rotating, scaling/extension, assignment and conversion, a rectangle keeps its first corner at the smaller and second at the larger coordinates with positive width and height, and a circle its positive radius; corners, size, centre, area, perimeter, diagonals, edges, bounding and enclosing figures agree with them.",
 ["histories","inputs"],"all sequences of operations on rectangles and circles",
 "Tests call each function once on few objects.",
 [("FRect_ corner ordering","FRect_::set, getCorrectPoints"),("Circle_","Circle_::set/translate/moveTo")])
p("P30","Copies and conversions preserve value and are independent",
 "A copy, an assignment, or a conversion to another numeric type of any primitive or matrix is equal to its source and reports the same values; afterwards modifying or querying one never affects the other. This also holds for copies taken after earlier queries or comparisons, and for self-assignment and aliased arguments.",
 ["histories","configurations"],"all primitives, all interleavings of copy / convert / modify / query on source and copy",
 "Tests check that conversions compile, not independence after further operations.",
 [("copy/conversion constructors, operator=","all primitive classes")])
p("P31","Angles, parallels, orthogonals and sides are geometrically right",
 "The angle between two lines or segments, the parallelism test, the parallel, orthogonal and rotated lines, the parallel and orthogonal segments, bisector, line points at a distance, and the side of a point or line answers agree with exact geometry for every direction and operand order. In particular, constructed lines pass through the required point or lie at the required distance, and side answers flip exactly when the direction is reversed.",
 ["inputs"],"all lines, segments and points, including horizontal, vertical and through-origin lines",
 "Tests sample a few directions; sign conventions depend on quadrant and normalisation.",
 [("getAngle, getOrthogLine, getParallelLine(s), getRotatedLine, getPoints, side, getBisector","LPBase, SegVec")])
p("P32","Homographies from point pairs and library bindings preserve values",
 "The homography computed from four point pairs in general position maps each source point to its target, with either linear-algebra backend. Points and matrices converted to or from OpenCV, Boost Geometry or plain arrays and vectors keep their values, and an object assigned from such a source behaves in every later operation as one built with those values.",
 ["inputs","histories","configurations"],"all four-point pairs in general position, all points, polylines and matrices exchanged, before and after other uses of the object",
 "Tests convert a few values, and never use an object before it is assigned from a foreign type.",
 [("buildFrom4Points, operator=(cv::Mat), copyTo, getPt, boost conversions","Hmatrix_, LPBase, PolylineBase")])
p("P33","Offset polygons lie at the requested distance, or are refused",
 "For every simple polygon and every distance, the offset polygon has each of its edges parallel to the corresponding edge of the source at exactly that distance (outside when positive, inside when negative), one vertex per corner (two at a convex corner when the split option is set, the edge between them being at the same distance from that corner), in the same order; vertices that lie between aligned edges do not count. When no such polygon exists (distance null or too large, source not a simple polygon), an empty polygon is returned and nothing is thrown; the source figure stays the same. The regular polygon constructor places its n vertices at the requested radius and equal angles and returns the distance between consecutive points and the radius of the inscribed circle.",
 ["inputs","histories"],"all simple polygons, all distances of either sign, with and without the split option",
 "Tests check three rectangles and a cross at one distance.",
 [("getOffsetPoly","PolylineBase::getOffsetPoly, OffsetPolyParams"),("regular polygon","CPolyline_( radius, n )")],
 [("vertex order made canonical in place","normalization flag","PolylineBase::p_normalizePoly")])
p("P34","Tolerances act when, and only where, they are documented to",
 "The five tolerances can be read, set, saved and restored at any time, and hold the build-time value until set; no operation of the library changes them. Each decision documented to rest on a tolerance (identical points, refused lines, segments, circles and rectangles, aligned points, parallel lines, minimized vertices, points at infinity, refused or equal matrices, point on a line or circle) is taken with its current value, including for figures built before it was set; raising another tolerance neither changes that decision nor any computed coordinate.",
 ["histories","inputs","configurations"],"all interleavings of tolerance changes and decisions, figures near every limit, values set at build time",
 "Tests run with default tolerances, at which inputs close to a limit are never met.",
 [("tolerances","namespace thr, HOMOG2D_THR_ZERO_* symbols"),("decisions","LPBase comparison, isParallelTo, areCollinear, Matrix_::inverse, getCorrectPoints, p_minimizePL")],
 [("the five tolerances and the radius switch","static variables","thr::nullDistance ...")])
p("P35","Drawings on raster images show the figure, in its color, and nothing else",
 "Drawing an object on an OpenCV image (member, free, image, container, pair forms) changes only pixels that lie within the line thickness of the figure (or of its points, indexes, texts when these are requested), gives them the color of the settings, and reaches every part of the figure that is inside the image, whatever part of it lies outside; lines are drawn across the whole image, points only if inside. Nothing else changes: other images, and the object drawn. Clearing and sizing give a uniform image of the stated color and size, an image built on a user matrix draws in it, and a written file reads back identical.",
 ["histories","inputs"],"all objects and positions, inside, across and outside of the image, all settings, sequences of drawings on several images",
 "Tests draw a few figures to files that nobody compares.",
 [("OpenCV drawing","SECTION .2 - CLASS DRAWING MEMBER FUNCTIONS (OpenCv)"),("lines and points","LPBase::impl_draw_LP, detail::drawPt"),("image","img::Image<cv::Mat>")])
p("P36","Importing an SVG document delivers its shapes, in order, or refuses it",
 "For every well-formed SVG document, the import delivers, in document order, exactly the circles, rectangles, segments, ellipses (rotated ones included), polygons, polylines and path figures the document describes, whatever the spelling of numbers, the order of attributes, additional attributes, groups and elements of other kinds. An element that cannot be read (absent or unreadable attribute, impossible figure) delivers nothing, or has the import refused with an exception, after which the shapes that come before are still available; an unreadable path is ignored and does not affect other elements. A visitor used for several documents accumulates their shapes. The image size is the one in the file, or is refused. No document, not even an empty one, crashes the program.",
 ["inputs","histories"],"all documents: every kind of element with every spelling of its attributes, sequences of elements and documents",
 "Tests import a few well-formed files.",
 [("import","svg::Visitor, svg::getImgSize, svg::printFileAttrib"),("attributes","svgp::getAttribValue, importSvgPoints, getEllipseRotateAttr")])
p("P37","Printing shows the values of the object, in order, and changes nothing",
 "Writing any object on a stream (point, point at infinity, line, segments, circle, rectangle, ellipse, polylines, empty polyline, homography, pair, container, intersection result, drawing settings, or the same object through its base class) writes on that stream, and on no other, the values that its accessors return, in their order, with the precision and the format the stream was set to. It returns that stream, leaves its format as it was, and neither printing nor the history of the object (moves, comparisons, intersections computed before) changes what is written.",
 ["inputs","histories"],"all objects, stream formats and histories of objects",
 "Tests look at no text output, except drawing files.",
 [("streaming operators","SECTION  - STREAMING OPERATORS"),("others","IntersectM, Intersect, DrawParams, Matrix_, detail::EllParams, rtp::Root operator <<")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
