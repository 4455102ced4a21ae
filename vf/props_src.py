"""Source of /verif/properties.jsonl (python3 vf/props_src.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

B, U, PU, T = "PathLib/Bezier.py", "PathLib/BezierUtilities.py", "PathLib/PathUtilities.py", "PathLib/Transform.py"
CF, MI, SP, CO, CP = "PathLib/CurveFitting.py", "PathLib/MatrixInversion.py", "PathLib/SegmentPen.py", "PathLib/Color.py", "PathLib/ContourPlotter.py"

prop("C01", "Transform chains apply their steps in order to every point",
     "A Transform made from several matrices maps every point where applying the single-matrix transforms one after the other, first to last, would take it (perspective matrices included, wherever the denominators are not zero). Applying a transform to a segment, contour or list of contours transforms each point in its place, keeps the nesting, and changes neither the argument nor the matrices; multiplyRowByMatrix, multiplyMatrixByMatrix and concatenateMatrices are the matrix products, first to last; a Transform gives the same answers however often it was used before.",
     ["inputs", "histories"], "all chains of 1..n affine or perspective 3x3 matrices (ints and floats), all points and nested point lists, all sequences of uses of one Transform",
     "The tests apply five fixed transforms to a handful of points; the order of composition, the homogeneous division and aliasing of arguments only show on chains and points they do not contain.",
     [T], [("concatenateMatrices / multiplyRowByMatrix", T), ("applyToPoint/Segment/Contour/Contours", T)], ["Transform(*matrices).applyTo*", "Transform.transform"],
     [("Transform._transform", "product of the matrices, row vector convention", T)])
prop("C02", "Named transforms perform exactly the geometric map they are named after",
     "translate, scale, shear, mirror, mirrorAround, rotation, rotationAbout, moveAndRotate, rotateAndMove, perspective and perspectiveFrom, and the rotatePointAbout/SegmentAbout/ContourAbout/ContoursAbout helpers, map every point to its image under that map: for any angle, both rotation directions, any center or offset, and with the documented defaults (90 degrees, counter-clockwise, about the given point). Transform.sin and Transform.cos are sine and cosine of degrees. Rotating integer points by a multiple of 90 degrees within two full turns about an integer point gives exactly the integer result.",
     ["inputs"], "all parameters of every constructor, all points",
     "The tests look at a few angles and centers; sign, order and center mistakes that cancel for those values stay hidden.",
     [T, PU], [("_rotationMatrix, _mirrorMatrix, ... and the classmethods", T), ("rotate*About", PU)], ["Transform.<constructor>(...).applyToPoint", "PathUtilities.rotate*About"])
prop("C03", "Bounds rectangles are the tightest around their points",
     "A bounds rectangle made from points, a contour or several contours has exactly the least and greatest x and y of those points as its edges, whatever their magnitude, order or number (empty contours contribute nothing). Its width, height, area, diagonal, contour, center, points and positions by percentage are those of that rectangle, and crossesX, crossesY and enclosesPoint hold exactly for the coordinates between its edges, edges included.",
     ["inputs"], "all finite point lists, contours and lists of contours, including empty ones, ints and floats of any magnitude",
     "No test constructs a bounds rectangle except indirectly from two lines with small coordinates.",
     [PU], [("BoundsRectangle.__init__, fromContour, fromCoutours", PU)], ["BoundsRectangle(...) attributes and methods"])
prop("C04", "Rectangle union, intersection and relations agree with the point sets",
     "The union of two rectangles is the smallest rectangle containing both (the other one if one is empty), and does not depend on the order or grouping of several unions. Two non-empty rectangles have an intersection exactly if they share a point (touching counts), and it is exactly the set of shared points; encloses() and relationTo() (encloses, else enclosed, else intersects, else separate) answer as the point sets do. None of these operations changes its operands.",
     ["inputs", "histories"], "all pairs and sequences of rectangles, including touching, degenerate and (for union and intersection) empty ones",
     "No test calls any of these operations.",
     [PU], [("union, intersection, encloses, relationTo", PU)], ["BoundsRectangle.union/intersection/encloses/relationTo"])
prop("C05", "Measurements and classification of lines are those of the end points",
     "For any line, length, slope (infinite exactly for vertical lines), slopeAngle (from vertical, 0 to 90 degrees), rawSlopeAngle (direction from start to end, in degrees), deltas, end points and midpoint are those of the segment from its first to its last point. A segment is classified vertical, horizontal or diagonal exactly if it has two points and they differ accordingly; end points, deltas and midpoint accept complex points, minMax orders its two arguments, and toMicros(u, n) is 1000u/n.",
     ["inputs"], "all lines with int or float coordinates in every direction, and longer segments",
     "The tests measure three lines in the first quadrant.",
     [PU], [("length, slope, slopeAngle, rawSlopeAngle, midpoint, is*Line", PU)], ["PathUtilities functions"])
prop("C06", "Line intersection and point-on-line tests are exact on integer coordinates",
     "For lines with integer coordinates (up to 100000 in absolute value), intersectionPoint() returns a point exactly if the lines are not parallel and the two segments, ends included, share a point, and then returns that point; otherwise it returns None. pointOnLine() is true exactly for the points of the segment, both end points included. The result does not depend on the order of the lines or the direction in which they are given.",
     ["inputs"], "all pairs of lines, and all points and lines, with integer coordinates; vertical, horizontal, touching, parallel and collinear ones included",
     "The tests try four pairs of lines and three points.",
     [PU, U], [("lli8 determinants and bounds test", U), ("pointOnLine cross product", PU)], ["intersectionPoint", "pointOnLine"])
prop("C07", "Curve evaluation gives the point of the Bezier polynomial",
     "For a curve of any order from 1 up, get(t) for 0 <= t <= 1 is the point of the Bezier curve of its control points, exactly the first and last control point for t = 0 and t = 1; midpoint is get(0.5), and start, end, startX, startY, endX, endY and order describe the control points. getLUT(n) returns n points of the curve at evenly spaced parameters, including both ends, for every n >= 2 and whatever tables were requested before.",
     ["inputs", "histories"], "all control points, orders 1 to 8, parameters, and sequences of table sizes",
     "No test touches the Bezier class.",
     [B], [("_compute", B), ("getLUT cache", B)], ["Bezier.get, midpoint, getLUT, start, end"],
     [("Bezier._lut", "cached lookup table", B)])
prop("C08", "Splitting a curve keeps every point of it",
     "split(t) returns two curves of the same order that trace exactly the parts of the curve before and after t, joined in the point at t, and split(t1, t2) with t1 < t2 the part between t1 and t2, for all parameters in [0, 1], also when pieces are split again. hull(t) lists the control points followed by all the points of the de Casteljau construction, level by level, the last being the point at t. All this holds for every order.",
     ["inputs", "histories"], "all curves of any order, all parameter pairs, all chains of splits",
     "No test touches the Bezier class; index mistakes in the hull show only for one order and one half.",
     [B, U], [("hull and split", B), ("map, lerp", U)], ["Bezier.split", "Bezier.hull"])
prop("C09", "Order raising and the ABC points keep the curve's geometry",
     "raiseOrder() returns a curve of one order more that has the same point at every parameter, for every order and any number of times in a row. For quadratic and cubic curves getABC(t) returns A, the point B of the curve at t, C on the baseline through the end points and the line AB, the ratio |BC|/|AB|, and the hull at t, wherever AB is not parallel to the baseline.",
     ["inputs", "histories"], "all curves of order 1 to 8 raised repeatedly; all quadratic and cubic curves and parameters in (0, 1)",
     "No test touches the Bezier class.",
     [B, U], [("raiseOrder", B), ("getABC, quadraticRatio, cubicRatio, lli4", B)], ["Bezier.raiseOrder", "Bezier.getABC"])
prop("C10", "Curve bounds are tight: nothing sticks out, every edge is touched",
     "For every line, quadratic and cubic curve, bbox and boundsRectangle contain every point of the curve and each edge is reached by one (up to rounding); extrema lists, per coordinate, only parameters in [0, 1], and between neighboring ones that coordinate does not turn. The bounds of a BContour or BOutline are the tight bounds of all its curves, skeletonBounds are the bounds of the control points with 40 units added on the right, and overlaps() holds exactly if the bounds of the two curves share a point.",
     ["inputs"], "all control points of orders 1 to 3: monotone, S-shaped, raised, degenerate, huge coordinates",
     "No test touches curve bounds; missing or wrong extrema show only on curves with interior extrema in the affected coordinate.",
     [B, U], [("extrema, droots", B), ("_getminmax, bbox", B)], ["Bezier.bbox, boundsRectangle, extrema, overlaps", "BContour/BOutline.boundsRectangle"],
     [("_extrema, _bbox, _boundsRectangle", "cached results", B)])
prop("C11", "Aligning is a rigid motion, and the tight bounding box is rotated with it",
     "align(segment) moves the curve rigidly (no scaling, no mirroring) so that the segment's first point comes to the origin and its direction to the positive x axis (a segment or curve that ends where it starts counts as pointing to the right); without an argument the segment is from the curve's first to its last control point. tightbbox is the smallest rectangle with sides parallel and perpendicular to the line from the curve's start to its end that contains the curve, as a closed contour of four lines.",
     ["inputs"], "all curves of order 1 to 3 and alignment segments in every direction",
     "No test touches the Bezier class.",
     [B, T], [("_align, align, tightbbox", B), ("moveAndRotate, rotateAndMove", T)], ["Bezier.align", "Bezier.tightbbox"])
prop("C12", "Normals are unit vectors, left of the direction of travel",
     "Where the derivative of a line, quadratic or cubic curve does not vanish, normal(t) is the unit vector perpendicular to it that points to its left (counter-clockwise). offset(t, d) returns the point at t, that normal, and the point d along the normal, for every d, zero and negative ones included. dcPoints lists the control points of all the curve's derivatives, first to last, for every order.",
     ["inputs"], "all regular points of curves of order 1 to 3, all distances",
     "No test touches the Bezier class.",
     [B], [("_derivative, normal, offset(t, d)", B)], ["Bezier.normal", "Bezier.offset(t, d)"])
prop("C13", "Answers about a curve do not depend on what was asked before",
     "Any sequence of queries on a curve object (evaluation, tables, bounds, extrema, length, splits, reduction, intersections, offsets, alignment, hulls, ...) gets the same answers as the same queries on new objects with the same control points, in any order and however often repeated. No query changes the control points, answers given earlier, other curves passed as arguments, or the precision of the decimal context.",
     ["histories", "inputs"], "all sequences of queries on one or several curve objects of order 1 to 3",
     "No test touches the Bezier class, and its eight cached attributes can only go wrong in sequences of calls.",
     [B], [("lazily computed cached attributes", B)], ["every public query of Bezier"],
     [("_dcPoints, _extrema, _length, _bbox, _boundsRectangle, _lut", "caches", B)])
prop("C14", "A contour's derived data stays in step with its curves through edits",
     "After any sequence of replacing and deleting curves of a BContour (negative indices included, at least one curve left), its bounds, start, end, iteration, indexing, lookup tables of any size, closest points and path data are those of a contour newly made from the current curves, whatever was asked before the edit; the bounds of a BOutline are those of its contours as they are now.",
     ["histories"], "all sequences of edits and queries of a contour",
     "No test touches BContour; stale caches need an edit between two queries.",
     [B], [("BContour.__setitem__, __delitem__, _changed, getLUT", B)], ["BContour item assignment and deletion, getLUT, boundsRectangle, start, end, d, findClosestPoint", "BOutline.boundsRectangle"],
     [("_beziers, _bounds, _lut, _lutSteps, _start, _end", "curves and data derived from them", B)])
prop("C15", "Curve length is the arc length",
     "The length of a line, quadratic or cubic curve lies (to 0.5 percent) between the length of any inscribed polygon and that of the control polygons of any subdivision; it is exact to 1e-6 for lines and for curves whose speed is a polynomial, does not depend on the direction of travel, and the lengths of the two parts of a split add up to it (to 0.5 percent). It is never negative and asking for it leaves the decimal context's precision unchanged.",
     ["inputs"], "all regular curves of order 1 to 3",
     "No test touches the Bezier class.",
     [B, U], [("Legendre-Gauss quadrature, tValues and cValues", U), ("length, _arcfun", B)], ["Bezier.length"])
prop("C16", "Intersections of a curve with a line are sound and complete",
     "Every parameter lineIntersects() returns for a line segment lies in [0, 1] and its point on the segment (up to rounding), and every place where the curve crosses the segment from one side to the other, strictly inside both, is among them. roots() does the same for the x axis or the infinite line of a given segment. For quadratic and cubic curves intersectWithLine() returns a point of the curve on the infinite line of the given line if it crosses it, and None if curve and line have no point in common.",
     ["inputs"], "all curves of order 1 to 3 and all lines of non-zero length in every direction, not containing the curve",
     "No test touches the Bezier class; the cubic root formulas have six cases.",
     [B, U], [("roots: linear, quadratic, Cardano cases and polishing", B), ("lineIntersects filter", B)], ["Bezier.lineIntersects, roots, intersectWithLine"])
prop("C17", "Curve intersections are sound and complete to the threshold",
     "For each pair of parameters returned by intersects(curve, threshold) both lie in [0, 1] and the two points are less than twice the threshold apart; for curves that cross transversally, every crossing has a returned pair whose points are within the threshold (plus rounding) of it. The same holds for the self-intersections of a cubic loop whose crossing is found between pieces of its reduction that are not neighbors.",
     ["inputs"], "all pairs of regular curves of order 1 to 3 that do not overlap along a stretch, all thresholds from 0.05 to 2 units",
     "No test touches the Bezier class.",
     [B], [("pairiteration, curveIntersects, selfIntersects", B)], ["Bezier.intersects", "Bezier.selfIntersects"],
     [("_t1, _t2", "the parameters a piece has in the original curve", B)])
prop("C18", "Reducing a curve partitions it",
     "reduce() of a regular curve returns either nothing (it cannot be reduced) or curves that, in order, trace the original completely from start to end without gaps or overlaps, each exactly a part of it, with no extremum inside any of them. Curves with a convex control polygon that turns by less than 120 degrees in all can always be reduced, and all pieces but the last of each stretch between the parameters that extrema lists are simple: their control points are on one side of the line through their ends, and the normals at their ends differ by less than 60 degrees. simple() tells exactly that of any curve.",
     ["inputs"], "all regular quadratic and cubic curves, and lines",
     "No test touches the Bezier class.",
     [B], [("reduce: two passes, step 0.01", B), ("simple", B)], ["Bezier.reduce", "Bezier.simple"])
prop("C19", "Offset curves run at the distance asked for",
     "For lines, and for curves with a convex control polygon that turns by less than 120 degrees in all, offset(d) returns curves joined end to end that start and end at distance d along the normals at the curve's ends, to the left for positive and right for negative d; a line is just moved sideways. Every joint is at distance d along the normal at a point of the curve, and while |d| is at most a fifth of the chord the middle of each returned curve is at 0.5 d to 1.25 d along the normal at the middle of its part. Each returned curve that is not flat is its part scaled: scale(d) of a simple curve moves both ends by d along their normals and keeps the start direction (for cubics also the end direction), and moves the inner control points on the lines to the point in which the normals at the ends meet; with a distance function f the control points (of the cubic curve, if it is quadratic) move by f(0), f(1/3), f(2/3) and f(1). A cubic curve whose tangents at the ends are parallel has no such point, and scale() refuses it with a ValueError.",
     ["inputs"], "all gentle curves of order 2 and 3 and lines, all distances and distance functions",
     "No test touches the Bezier class.",
     [B], [("offset, scale", B)], ["Bezier.offset(d)", "Bezier.scale"])
prop("C20", "The closest point found is on the contour and beats every sample",
     "findClosestPoint(point, steps) returns a point of the contour together with its exact distance from the given point, and no point of the contour's lookup table with that number of steps (2 or more) is closer. Between the neighbors of the nearest sample (on both curves at a joint, and where a closed contour ends and starts) the search is refined: where the squared distance is convex there, the point found is as near as the nearest one, up to the distance the curve travels in a quarter of a percent of its parameter. The answer does not depend on the queries made before.",
     ["inputs", "histories"], "all contours of one or more curves, all points, all step counts of 2 or more",
     "No test touches BContour; off-by-one mistakes show only at the joints of curves and for certain step counts.",
     [B], [("_findClosest, _refineBinary, findClosestPoint index arithmetic", B)], ["BContour.findClosestPoint"])
prop("C21", "SVG path data of a contour describes exactly that contour",
     "Reading the string BContour.d() by the rules of SVG path data (M, L, H, V, Q, C, implicit repetition of commands) gives back exactly the start point and the lines, quadratic and cubic curves of the contour, in order, coordinate for coordinate; only lines of zero length may be left out.",
     ["inputs"], "all contours of lines, quadratic and cubic curves, with any number of consecutive segments of the same kind, ints, floats and negative numbers",
     "No test calls d(); omitted command letters matter only for particular neighbors.",
     [B], [("d, getCommand", B)], ["BContour.d"])
prop("C22", "The segment pen records exactly the outline drawn with it",
     "After any sequence of complete contours drawn with moveTo, lineTo, curveTo, qCurveTo and closePath, contours holds, in order, one closed contour of connected segments per drawn contour: the lines (zero-length ones left out), cubic curves, and quadratic curves with implied on-curve points half way between consecutive off-curve points, plus a closing line if the last point is not the first. A qCurveTo ending in None draws a closed curve through implied points only; contours already recorded never change, and a contour without segments is not recorded.",
     ["histories", "inputs"], "all sequences of drawing commands, any number of off-curve points",
     "No test touches the pen.",
     [SP], [("moveTo, lineTo, curveTo, qCurveTo, closePath", SP)], ["SegmentPen.contours"],
     [("_contour, _lastOnCurve, _contours", "contour under construction, pen position, result", SP)])
prop("C23", "Components are placed where their transformation puts them",
     "addComponent(name, (xx, xy, yx, yy, dx, dy)) appends, after the contours already there, every contour of the named glyph with each point (x, y) moved to (xx*x + yx*y + dx, xy*x + yy*y + dy), with components of components transformed from the inside out. The component's glyph and other uses of it are unaffected, whatever the order and number of uses.",
     ["inputs", "histories"], "all glyph sets with components nested to any depth, all transformations including the identity",
     "No test touches the pen.",
     [SP, T], [("addComponent", SP)], ["SegmentPen.addComponent, contours"])
prop("C24", "Curve fitting interpolates the points, whatever was computed before",
     "fit(points) returns the points, the basis matrix, the time values and control point columns such that the Bezier curve of these control points passes through each point at its time value; time values run from 0 to 1, in proportion to the distance along the polygon, or evenly spaced (computeTimeValues, for all or the first n points). binomial(n, k) is the binomial coefficient for every 0 <= k <= n and basisMatrix(n) converts Bezier control points to polynomial coefficients, in whatever order and however often they are called.",
     ["inputs", "histories"], "all lists of 2 to 7 distinct points not too unevenly spaced; all n up to 40 in any order of calls",
     "The tests check one product and one transposition; the table of coefficients grows with calls beyond n = 6.",
     [CF, MI], [("binomial lookup table growth", CF), ("basisMatrix, formTMatrix, bestFit, fit", CF)], ["fit, binomial, basisMatrix, computeTimeValues"],
     [("binomialCoefficients", "table of rows, extended on demand", CF)])
prop("C25", "Matrix inversion, multiplication and transposition are correct",
     "matrixInvert() of a square matrix of fractions returns its exact inverse, and None exactly if it is singular; for invertible matrices of ints or floats the product with the result is the identity up to rounding, and for non-square matrices the result is None. multiply() and transpose() give the matrix product and the transpose for all matching shapes, row() and col() the rows and columns, getPointValuesColumn() the column of one coordinate of points; none of them changes its arguments.",
     ["inputs"], "all matrices up to 6x6, with zeros on the diagonal, repeated and dependent rows, ints, floats and fractions",
     "The tests invert two matrices and multiply one pair.",
     [MI, CF], [("Gaussian elimination with pivoting", MI), ("multiply, transpose", CF)], ["matrixInvert, multiply, transpose"])
prop("C26", "Colors: keywords by the CSS table, hues in a full cycle",
     "Color.fromName() accepts each of the 147 CSS color keywords in any mixture of upper and lower case and returns its red, green and blue values, returns None for names that do not consist of letters, and raises ValueError for other words. randomHSLColor() advances the hue by 73 degrees each time from the last one set (modulo 360), half saturated and half light, so 360 calls from integer hues visit every hue once; randomRGBColor() always yields components between 0 and 255.",
     ["inputs", "histories"], "all keywords and their upper and lower case variants, all other strings; all sequences of setCurrentHue and randomHSLColor",
     "No test touches Color (its base class is in a package that is not installed).",
     [CO], [("_keywords, _forKeyword", CO), ("_current_hue", CO)], ["Color.fromName, randomHSLColor, setCurrentHue, randomRGBColor"],
     [("_current_hue", "the last hue used", CO)])
prop("C27", "Drawing leaves the plotter's fill and stroke settings as they were",
     "Pushing fill or stroke attributes sets exactly the attributes given (0 is a value) and popping restores the settings in effect at the matching push, for any nesting of fill and stroke. Every drawing method of the plotter draws with the color it is given and leaves the fill and stroke settings as it found them, for every combination of its optional arguments.",
     ["histories", "inputs"], "all sequences of pushes, pops and drawing calls with all combinations of optional arguments",
     "No test touches the plotter (its base class is in a package that is not installed).",
     [CP], [("push/pop attribute stacks", CP), ("draw* methods", CP)], ["fill and stroke settings of the engine before and after each call", "attributes of the drawn elements"],
     [("_fillAttributeStack, _strokeAttributeStack", "saved settings", CP)])
prop("C28", "What the plotter draws is the outline it was given",
     "The path elements drawContours(), drawPaths(), drawPointsAsSegments(), drawCurve() and drawHull() produce, read by the rules of SVG path data, describe exactly the contours, curves, points and construction lines they were given, in order, in poly mode and not (zero-length lines may be left out); drawContours() closes every contour exactly if that was asked for, drawCurve(), drawPointsAsSegments() and drawHull() close nothing, drawPaths() closes nothing it was asked not to close. Circles are drawn at the given points with the given radius, in order, cycling through the given colors; drawSkeleton() labels every control point, just below and to the right of it, with its coordinates; arrows and texts are drawn where they were asked for, texts in the label font set. A new plotter shows the bounds it is made for, with margins of a twentieth of their width and height in whole units, a frame of 10 units, and labels half as high as the upper margin.",
     ["inputs", "histories"], "all contours, paths, point lists and colors, both modes, any sequence of calls on one plotter",
     "No test touches the plotter.",
     [CP], [("drawContours, drawPaths, drawPointsAsSegments, drawPointsAsCircles, getCommand", CP)], ["elements added to the drawing"],
     [("_lastCommand, _pen", "command repetition in poly mode, pen position", CP)])
prop("C29", "Outlines, contours and curves keep every point they are built from",
     "Building a BOutline, BContour or Bezier from contours, segments or points, iterating and indexing them, and converting with segmentFromPoints, pathFromSegments, unzipPoints and flatten keeps every contour, segment and control point in order and unchanged, as does giving the parts of one object to build another. direction is up, down or flat for lines by their end points, up (down) for quadratic and cubic curves exactly if the y coordinates of the control points never decrease (never increase, and not up), and mixed for all other curves.",
     ["inputs", "histories"], "all nested lists of control points; conversions back and forth",
     "No test touches these classes.",
     [B, PU], [("BOutline, BContour constructors and helpers, _computeDirection", B), ("flatten", PU)], ["BOutline/BContour iteration and indexing, helpers", "Bezier.direction"])

prop("C30", "Polynomial roots, line crossings and other helpers are what they say",
     "quadraticRoots() and droots() return only real roots (or nan) of the polynomial of degree 1 or 2 with the given Bernstein coefficients, and all of them (up to rounding). lli8, lli4, lli, and intersectWithLine of a straight line return the point in which two infinite lines meet, None exactly if they are parallel. lerp and map interpolate linearly, beyond the ends too; angle(o, p, q) is the signed angle from p to q around o, crt the cube root, sqrt the square root (nan for negative numbers), quadraticRatio and cubicRatio the ratios of the ABC construction; approximately and between tell exactly whether numbers are equal or in the interval up to the precision; removeDuplicates keeps the first of equal elements, in order.",
     ["inputs"], "all coefficients, lines, points and numbers, ints, fractions and floats, tiny and huge ones",
     "No test calls any of them directly; near-double roots, vanishing leading coefficients and parallel lines do not occur.",
     [U], [("quadraticRoots, droots, lli8, map, angle, ...", U)], ["functions of BezierUtilities"])
prop("C31", "Fitting with fewer control points than points gives the least squares fit",
     "bestFit(points, basisMatrix(k), times, k), with up to 5 control points and times well apart, returns the columns of k control points for which the sum of the squared distances between the curve at the times and the points is least; with as many control points as points (the default) the curve passes through them. formTMatrix(times, k) is the matrix of the powers 0 to k-1 of the times, one row per power, and its transpose. Arguments stay unchanged.",
     ["inputs", "histories"], "all point lists, increasing times and numbers of control points, in any sequence of calls",
     "No test touches curve fitting.",
     [CF, MI], [("formTMatrix, bestFit, multiply", CF), ("matrixInvert", MI)], ["CurveFitting.bestFit, formTMatrix"])

prop("C32", "From a glyph to its picture, every step keeps the outline",
     "Draw glyphs with the pen, components included, and build an outline from its contours: the outline, its bounds, the path data of its contours, the lengths of its curves and the paths the plotter draws from it are those of what was drawn. They stay so while the outline is transformed or rotated as a whole, curves are split, raised to a higher order or replaced (in place or in a new outline), and it is built again from its own parts, in any order and number: every curve remains the part it should be of the curve it comes from, moved as the transformations say, and whatever was asked before does not matter.",
     ["histories", "inputs"], "all drawings, and all sequences of transformations, splits, order raises, replacements, rebuilds and questions after them",
     "No test takes an object of one module to another; units that are right by themselves can disagree about conventions (row vectors, closing lines, order of contours, kinds of containers).",
     [SP, B, T, CP], [("contours recorded", SP), ("BOutline, BContour, split, raiseOrder, bounds, d", B), ("applyToContours", T), ("drawContours, drawPaths", CP)],
     ["SegmentPen.contours -> BOutline -> Transform.applyToContours -> boundsRectangle, d(), drawPaths()"],
     [("the outline at hand", "control points of every curve after each step", B)])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
