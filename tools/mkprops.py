#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Parsing any document terminates and never panics",
 "For every XML document and every error mode, Parse returns normally (a result, an error, or both): it never panics, recurses without bound or loops forever. This holds for any attribute text (empty, truncated or garbage colours, numbers, selectors, path data), any nesting of elements, and any references between definitions, including definitions that refer to themselves or to each other.",
 ["inputs"], "all element nestings, reference graphs and attribute texts",
 "The tests parse a few well-formed icons; malformed attribute text and self-referencing definitions are never tried.",
 ["svg.go", "parse.go", "parse_path.go", "svg_elements.go", "patterns.go", "units.go", "styles.go"],
 [("length checks before indexing attribute text", "patterns.go"), ("style stack push/pop", "parse.go, svg.go"), ("use expansion", "svg_elements.go useF")],
 ["svg.Parse"])
prop("C02", "Path data yields exactly the absolute geometry it describes",
 "For every sequence of M, L, H, V, C, S, Q, T and Z path commands that starts with a move, absolute or relative, with any number of repeated argument groups, the resulting path contains exactly the described moves, lines, quadratics, cubics and closes in order, each coordinate within 1/64 px of its exact absolute value. Relative coordinates are taken from the current point, which a close moves back to its subpath's start, and S and T reflect the previous control point only when the previous command was a curve of the same family (otherwise the control point is the current point). Drawing on after a close starts a new subpath, with its own move, at the point the close returned to; a close without an open subpath adds nothing. A command with the wrong number of arguments is reported as an error.",
 ["inputs", "programs"], "all command sequences, argument counts and argument values",
 "The tests only check that icon files parse without error; no coordinate of any path is ever compared.",
 ["parse_path.go", "path.go"],
 [("segment interpreter", "parse_path.go addSeg"), ("relative to absolute conversion", "parse_path.go pointsToAbs/valsToAbs"), ("control reflection", "parse_path.go reflectControl*")],
 ["Svg.SvgPaths[i].Path"], [{"name": "current point, control point, subpath start, last command", "meaning": "path interpreter state", "where": "parse_path.go pathCursor"}])
prop("C03", "Number lists are split and valued by the SVG number grammar",
 "In path data and in point lists, numbers are recognised wherever the SVG grammar allows them: optional sign, integer and/or fraction, optional e/E exponent with optional sign, separated by white space and/or a comma, or by nothing when the next number starts with a sign or with a second decimal point. Each recognised number contributes its decimal value (numbers beyond the range of a float64 may be rejected), in order, and text that is not such a number is reported as an error or separates numbers; it never makes a number vanish, merge with or split from its neighbours.",
 ["inputs"], "all number-list texts",
 "TestReadFloat samples five strings of one helper; signs, exponents and separators are not covered.",
 ["parse_path.go", "units.go"],
 [("tokeniser", "parse_path.go getPoints/readFloat")], ["Svg.SvgPaths[i].Path"])
prop("C04", "Elliptical arcs connect their endpoints along the requested ellipse",
 "Every elliptical arc command starts at the current point and ends exactly at its own endpoint, also when several arcs follow in one command. Every on-curve point lies on an ellipse with the requested radii and rotation (radii scaled up equally only when the endpoints are too far apart), and the large-arc and sweep flags select the corresponding arc. A zero radius draws a straight line, and coincident endpoints draw nothing.",
 ["inputs"], "all radii, rotations, flags and endpoints",
 "No test looks at arc geometry.",
 ["parse_path.go", "shapes.go"],
 [("centre computation", "shapes.go findEllipseCenter"), ("arc to cubics", "shapes.go addArc"), ("arc arguments", "parse_path.go addSeg/addArcFromA")],
 ["Svg.SvgPaths[i].Path"])
prop("C05", "Basic shapes produce the outline their attributes define",
 "rect, circle, ellipse, line, polyline and polygon each produce the outline their own attributes define (coordinates within 2/64 px; at round rect corners within 4/64 px, times the ratio ry/rx when that is above 1; curves between them within 1/500 of the radius), with rect, circle, ellipse and polygon closed and line and polyline open, whatever the attribute order and whatever elements were parsed before. Missing coordinates count as 0, a single corner radius of a rect applies to both axes and radii are limited to half the size, and a rect, circle or ellipse with a zero size, or a polyline or polygon without points, draws nothing.",
 ["inputs", "histories"], "all attribute values, attribute orders and preceding elements",
 "The shape icons are only parsed; no outline is compared and no shape follows an unrelated element in a controlled way.",
 ["svg_elements.go", "shapes.go", "parse_path.go"],
 [("shape readers", "svg_elements.go rectF/circleF/lineF/polylineF/polygonF"), ("outline builders", "shapes.go addRoundRect/addRect, parse_path.go ellipseAt")],
 ["Svg.SvgPaths[i].Path"])
prop("C06", "Lengths convert to pixels by fixed ratios and the right viewBox axis",
 "A length in px (or without a unit), cm, mm, Q, in, pt or pc converts to pixels by the CSS ratios (1in = 96px = 2.54cm = 25.4mm = 101.6Q = 72pt = 6pc), with optional white space around the number. A percentage is taken of the viewBox width for horizontal attributes, of its height for vertical ones, and of its normalised diagonal sqrt((w^2+h^2)/2) for radii of circles, stroke widths, dashes and dash offsets; an unknown unit or non-numeric length is an error.",
 ["inputs"], "all numbers, units, attributes and viewBoxes",
 "TestUnits samples eleven strings of one helper and no percentage against a viewBox.",
 ["units.go", "svg_elements.go", "parse.go"],
 [("unit table", "units.go toPx/findUnit"), ("percentage reference", "units.go resolveUnit")], ["Svg.SvgPaths", "SvgMask"])
prop("C07", "Colour values parse to the colour they denote",
 "#rgb and #rrggbb hex colours, rgb() with integers or whole percentages, and the SVG colour names (in any letter case) give exactly the opaque 8-bit colour they denote, with out-of-range rgb() components clamped to 0..255 or 0%..100%. 'none' turns the paint off, which is different from black, and any other text that is not a url reference is reported as an error rather than becoming some colour.",
 ["inputs"], "all colour texts",
 "No test checks any colour value.",
 ["patterns.go", "parse.go"],
 [("colour parser", "patterns.go parseSVGColor/parseSVGColorNum/parseColorValue")], ["PathStyle.FillerColor", "PathStyle.LinerColor", "GradStop.StopColor"])
prop("C08", "An element's style depends only on itself and its ancestors",
 "The style of a drawn element is the default style updated by the presentation attributes and style declarations of its ancestors, outermost first, and finally by its own, a style declaration winning over the same attribute on the same element whatever their order, and the last of several declarations of one property in a style attribute over the earlier ones. Opacities multiply along the ancestor chain, mask references accumulate along it, and nothing set on an earlier sibling, on an element that has ended, or inside a definition or its instances ever changes another element's style, now or later.",
 ["inputs", "histories"], "all element trees and attribute assignments",
 "Tests never read back a style; leaking needs particular sibling/nesting histories.",
 ["parse.go", "svg.go", "svg_elements.go", "types.go"],
 [("style stack", "parse.go pushStyle, svg.go EndElement"), ("style attribute reader", "parse.go readStyleAttr")], ["Svg.SvgPaths[i].Style"],
 [{"name": "styleStack", "meaning": "styles of the open elements", "where": "parse.go svgCursor"}])
prop("C09", "Transform attributes compose in SVG order along the ancestor chain",
 "For every list of matrix, translate, scale, rotate (with or without centre), skewX and skewY functions, on any chain of nested elements, the element's final transform maps a point the way SVG defines: the element's own list applied right to left, then each ancestor's list, innermost ancestor first. Optional arguments default as in SVG (translate(x) = translate(x,0), scale(s) = scale(s,s)), and an unknown function or a wrong argument count is an error.",
 ["inputs", "programs"], "all transform lists, nestings and numeric arguments",
 "No test evaluates a transform.",
 ["parse.go", "matrix.go"],
 [("transform list interpreter", "parse.go parseTransform/readTransformAttr"), ("matrix operations", "matrix.go")], ["PathStyle.Transform"])
prop("C10", "Matrix2D operations obey affine algebra",
 "For all matrices and points, a.Mult(b) transforms a point as b followed by a; Translate, Scale, Rotate, SkewX and SkewY of a matrix equal multiplying it on the right by the corresponding elementary transform; Identity is neutral; and for every invertible matrix, Invert undoes Transform in both directions. TransformVector is Transform without the translation, and the fixed-point transforms (TFixed, MoveTo, LineTo, QuadTo, CubicTo) agree with Transform on every point to within 1/64.",
 ["inputs"], "all matrices, angles and points",
 "There is no test of the matrix type at all.",
 ["matrix.go"], [("matrix methods", "matrix.go")], ["Matrix2D methods"])
prop("C11", "use instantiates a definition without side effects",
 "An element inside defs is not drawn by itself; each use of its id draws the defined content (a whole group when the id is a group's) once, in the definition's order, shifted by the use's x and y, with the style the use element gives it plus the content's own attributes. Instantiating does not alter the definition, so any number of uses of the same or of other ids, in any order, each draw what they would draw alone, and nothing drawn outside the instance is shifted or restyled; using an unknown id is an error.",
 ["inputs", "histories"], "all definition sets and sequences of uses",
 "One icon with a defs section is parsed, and its result is never inspected.",
 ["svg_elements.go", "parse.go", "svg.go"], [("definition store", "parse.go readStartElement, svg.go EndElement"), ("instantiation", "svg_elements.go useF")], ["Svg.SvgPaths"],
 [{"name": "defs/currentDef/curX/curY", "meaning": "stored definitions and current instance offset", "where": "svg.go, parse.go"}])
prop("C12", "Gradients keep their definition and are bound by reference id",
 "fill or stroke url(#id) binds the gradient defined before it under that id with its own direction, units, spread, transform and all its stops in document order with their offset, colour and opacity, percentages being resolved against the unit square or the viewBox according to the gradient's units. Stops without a colour take the referencing element's inherited paint without altering the stored gradient or any other element that references it, and a gradient never receives another gradient's stops or attributes.",
 ["inputs", "histories"], "all gradient definitions and reference histories",
 "No test inspects a gradient.",
 ["patterns.go", "svg_elements.go"], [("gradient readers", "svg_elements.go linearGradientF/radialGradientF/stopF"), ("binding", "patterns.go readGradURL/localizeGradIfStopClrNil")], ["PathStyle.FillerColor", "PathStyle.LinerColor"])
prop("C13", "Masks own exactly the shapes inside them",
 "Shapes inside a mask element, in or outside defs, are collected in document order into that mask, under its id with its x, y, width and height, and are not drawn; shapes outside are drawn and never end up in a mask. An element's style lists exactly the mask ids referenced by its ancestors and itself, outermost first, unaffected by any other element's references, and a malformed mask reference is an error.",
 ["inputs", "histories"], "all element trees with masks and mask references",
 "TestMask only counts the masks of one icon.",
 ["svg.go", "parse.go", "svg_elements.go", "mask.go"], [("mask collection", "svg_elements.go maskF, parse.go readStartElement, svg.go EndElement"), ("selector", "parse.go parseSelector")], ["Svg.SvgMasks", "PathStyle.Masks"])
prop("C14", "Error modes: strict reports, ignore and warn skip without side effects",
 "In strict mode an unknown element, path command or keyword value of a presentation property makes Parse return an error (an element inside defs when it is used). In ignore and warn modes it is skipped and everything else, including the children of an unknown element, parses exactly as if it were not there, with warn mode logging a message and ignore mode staying silent; malformed values of supported attributes are errors in every mode.",
 ["inputs", "configurations"], "all error modes and positions of unknown content",
 "The tests use one mode for all icons and never compare results across modes.",
 ["parse.go", "parse_path.go", "svg_elements.go"], [("error mode handling", "parse.go handleError/readStartElement, parse_path.go addSeg, svg_elements.go useF")], ["svg.Parse result and error"])
prop("C15", "Document results: viewBox, sizes, titles and one path per drawn element",
 "The parsed document has one path per drawn element, in document order, each independent of the others' data. Its viewBox is the four viewBox numbers, with the root's width and height attributes (numbers or absolute lengths) filling in a missing or zero width or height; Width and Height hold the attribute texts; and each title and desc element contributes its complete character data, in order, even when it comes in several pieces. The result is the same with or without the SVG namespace, declared as default or with a prefix.",
 ["inputs"], "all documents within the supported subset",
 "Tests check no field of the parsed document except a mask count.",
 ["svg.go", "svg_elements.go", "parse.go"], [("token loop", "svg.go Parse"), ("svgF/titleF/descF", "svg_elements.go"), ("path copy", "parse.go readStartElement")], ["Svg fields"])
prop("C16", "A path's text form is path data for the same path",
 "For every path of move, line, quadratic, cubic and close operations whose subpaths each start with a move and whose coordinates are within 65536 px, ToSVGPath (and String) returns path data that, parsed strictly, yields the same sequence of operations, with every coordinate within 1/64 px.",
 ["inputs"], "all paths",
 "No test prints a path.",
 ["path.go", "parse_path.go"], [("operation formatting", "path.go String/ToSVGPath")], ["Path.ToSVGPath"])
prop("C17", "Render options map the viewBox onto the target rectangle",
 "With Target(x,y,w,h), the option transform maps the viewBox onto exactly that rectangle: viewBox origin to (x,y) and opposite corner to (x+w,y+h), for any viewBox origin and non-zero viewBox size. Without a target the transform is the identity, opacity defaults to 1, and when options are given in any order or repeatedly the last of each kind wins without affecting the other kind.",
 ["inputs", "configurations"], "all viewBoxes, targets and option lists",
 "The renderer packages have no tests.",
 ["renderer/options.go", "matrix.go"], [("options", "renderer/options.go")], ["renderer.Options"])
prop("C18", "The gg renderer paints every path as parsed",
 "For every parsed image and option list, the gg renderer paints each path in order: all its subpaths, every coordinate mapped by the element transform and then the target transform, filled if and only if it has a fill paint (with its fill rule) and stroked if and only if it has a stroke paint (with its dash, dash offset, width times the mean scale, caps and joins), open subpaths staying open. A dash list with a negative length, or whose lengths are all zero, is drawn as a solid line. For an image opacity within [0,1], paint alpha is the colour's alpha times the element's opacity times the image opacity, gradient stops keep their offset and colour, and an element referencing a known mask is clipped by the last referenced mask while others are not clipped.",
 ["inputs"], "all paths, styles, transforms and options",
 "The renderer packages have no tests.",
 ["renderer/gg/draw.go", "matrix.go"], [("gg driver", "renderer/gg/draw.go")], ["calls on the gg context"])
prop("C19", "The draw2d renderer paints every path as parsed",
 "For every parsed image and option list, the draw2d renderer paints each path in order: all its subpaths, every coordinate mapped by the element transform and then the target transform, filled if and only if it has a fill paint (with its fill rule) and stroked if and only if it has a stroke paint (with its dash, dash offset, width times the mean scale, caps and joins), open subpaths staying open. A dash list with a negative length, or whose lengths are all zero, is drawn as a solid line. For an image opacity within [0,1], paint alpha is the colour's alpha times the element's opacity times the image opacity.",
 ["inputs"], "all paths, styles, transforms and options",
 "The renderer packages have no tests.",
 ["renderer/draw2d/draw.go", "matrix.go"], [("draw2d driver", "renderer/draw2d/draw.go")], ["calls on the draw2d graphic context"])
prop("C20", "The rasterx renderer paints every path as parsed",
 "For every parsed image and option list, the rasterx renderer paints each path in order: all its subpaths, every coordinate mapped by the element transform and then the target transform, filled if and only if it has a fill paint (with its fill rule) and stroked if and only if it has a stroke paint (with width times the mean scale, miter limit, caps, gap and join), open subpaths staying open. The paint's opacity is the element's opacity times the image opacity, and gradients are handed over with their direction, stops, spread, units, bounds and matrix.",
 ["inputs"], "all paths, styles, transforms and options",
 "The renderer packages have no tests.",
 ["renderer/rasterx/draw.go", "matrix.go", "patterns.go"], [("rasterx driver", "renderer/rasterx/draw.go")], ["calls on the rasterx filler, stroker and scanner"])
prop("C21", "Read failures surface as errors at any point",
 "If the underlying stream or XML decoder fails at any point, Parse returns that error and never reports success; text that is not well-formed XML, an unknown character encoding in the XML header and a document without any element are errors, while a known encoding is read; and what was parsed before a failure is unaffected by it. ParseFile reports a file it cannot open, otherwise returns what Parse returns for the file's contents, and closes the file exactly once on every outcome.",
 ["fault_sequences", "inputs"], "all failure points",
 "TestInvalidXML samples one document without elements.",
 ["svg.go"], [("token loop error return", "svg.go Parse"), ("open/close", "svg.go ParseFile")], ["svg.Parse", "svg.ParseFile"])
prop("C22", "Each parse is independent of every earlier parse",
 "Parsing a document gives the same result whatever documents were parsed before it in the process, and does not change results already returned or the exported defaults (DefaultStyle, Identity).",
 ["histories"], "all pairs of documents parsed in sequence",
 "Tests parse files in sequence but compare nothing.",
 ["svg.go", "parse.go", "types.go", "svg_elements.go"], [("per-call state", "svg.go Parse"), ("style copy", "parse.go pushStyle")], ["svg.Parse", "svg.DefaultStyle", "svg.Identity"])
prop("C23", "Presentation keywords and numbers set exactly their own style field",
 "Every supported presentation property (fill-rule, stroke-linecap, stroke-leadlinecap, stroke-linejoin, stroke-linegap, stroke-miterlimit, stroke-width, stroke-dashoffset, stroke-dasharray, opacity, fill-opacity, stroke-opacity), given as attribute or in a style declaration in any letter case of its name and with white space around name and value, sets exactly its own style fields to the denoted value and leaves all other fields at their inherited values. opacity scales both opacities, fill-opacity only the fill's, stroke-opacity only the stroke's.",
 ["inputs"], "all properties, values and notations",
 "No test reads a style field.",
 ["parse.go", "units.go"], [("style attribute reader", "parse.go readStyleAttr"), ("declaration splitting", "parse.go pushStyle")], ["PathStyle fields"])
prop("C24", "Gradient extent and colour helpers",
 "ApplyPathExtent on a bounding-box gradient sets the bounds to exactly the extent and returns the gradient matrix scaled by the extent's width and height, while on a user-space gradient it changes nothing and returns the gradient matrix. GetColor returns a plain colour itself, the first coloured stop of a gradient, and black when there is no colour.",
 ["inputs"], "all gradients, extents and paints",
 "No test calls these helpers.",
 ["patterns.go"], [("ApplyPathExtent/GetColor", "patterns.go")], ["Gradient.ApplyPathExtent", "svg.GetColor"])
prop("C25", "Rendering leaves the image unchanged and is repeatable",
 "Drawing an image with any of the three renderers and any options changes nothing about the image, its masks, paths, styles and gradients, about the options, or about the exported defaults. Drawing the same image again, with the same or other options, therefore paints exactly what drawing it first would have painted.",
 ["histories", "inputs"], "all images and pairs of drawings",
 "The renderer packages have no tests.",
 ["renderer/gg/draw.go", "renderer/draw2d/draw.go", "renderer/rasterx/draw.go", "renderer/options.go"],
 [("per-drawing state", "renderer/*/draw.go"), ("gradient copies", "renderer/rasterx/draw.go"), ("options", "renderer/options.go")],
 ["Draw of each renderer", "svg.Svg after drawing"])
prop("C26", "Concurrent parsing and drawing share no mutable state",
 "Any number of goroutines may parse documents of their own at the same time, and may draw the same parsed image on drawing contexts of their own, also while other goroutines parse: no two of them ever access the same memory without synchronisation when one of them writes it, so no schedule changes what any of them computes.",
 ["schedules", "inputs"], "all pairs of calls and all their interleavings",
 "The tests run nothing concurrently, and a race shows only under particular schedules and inputs.",
 ["svg.go", "parse.go", "patterns.go", "units.go", "svg_elements.go", "renderer/gg/draw.go", "renderer/draw2d/draw.go", "renderer/rasterx/draw.go"],
 [("package level tables are never written after initialisation", "svg_elements.go, units.go, types.go, matrix.go"), ("all parse state lives in the call", "svg.go Parse"), ("drawing only reads the image", "renderer/*/draw.go")],
 ["svg.Parse", "Draw of each renderer"])
prop("C27", "Path building methods and names of modes",
 "For every sequence of Start, Line, QuadBezier, CubeBezier, Stop and Clear calls, a path holds exactly the operations of the calls since the last Clear, in order and with exactly the given points, Stop adding a close only when asked to. Every join, cap and gap mode has its own name as text, and other values have none of these names; NewPlainColor keeps its components; LineWidthScale is the mean of the horizontal and vertical scaling members.",
 ["histories", "inputs"], "all call sequences, points and mode values",
 "No test calls these methods directly.",
 ["path.go", "types.go", "patterns.go", "matrix.go"],
 [("path operations", "path.go Start/Line/QuadBezier/CubeBezier/Stop/Clear"), ("names", "types.go String")], ["svg.Path", "JoinMode.String, CapMode.String, GapMode.String"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
