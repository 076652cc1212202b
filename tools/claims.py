claim("C02", "Bounds: command pairs with 1 or 2 argument groups (all letters, absolute and relative), triples over a reduced set (thorough: all), paths after paths and leading closes, argument counts 0..9 (thorough: 0..15); coordinates are arbitrary in [-100000,100000]; commands with 150 argument groups.")
claim("C08", "Bounds: every pair of 22 declarations in 3 placements on parent and child, chains of up to four elements, siblings, definitions and uses, two or three declarations in one style attribute, 80 nested groups; symbolic numbers.")
claim("C10", "Bounds: matrix entries in [-100,100] and points in [-100000,100000]; angles through symbolic sine/cosine.")
claim("C16", "Bounds: paths of up to four operations (and one of 150 with four symbolic coordinates), coordinates within +-65536 px.")
claim("C17", "Bounds: viewBox origins and targets within +-100000, viewBox sizes from 1/1000 to 1000000; option lists of up to three options with any values, and of 40.")
claim("C24", "Bounds: gradients of up to four stops (and of 80); extents within +-100000.")
claim("C03", "Bounds: every text of up to 5 characters over digits, signs, points, e/E and separators, and lists of up to 3 symbolic numbers in every notation; 12 separators of all kinds of white space; lists of 200 numbers.")
claim("C06", "Bounds: every length attribute (positions, sizes, radii, corner radii, centres, gradient and mask geometry, stroke widths, dashes), every unit, symbolic numbers within +-100 (percentages within +-200) and symbolic viewBox sizes up to 10000; error texts of up to 4 characters.")
claim("C07", "Bounds: every #-text of up to 8 characters, rgb() components within +-1000000 (integers) and +-100000 (percentages), all colour names in symbolic letter case, every text one edit away from a valid colour, other texts of up to 4 characters.")
claim("C09", "Bounds: lists of up to 3 functions and chains of up to 3 elements, symbolic arguments; 22 angles up to 1000 degrees in either direction; 40 functions in a list or chain; angles through symbolic sine/cosine/tangent.")
claim("C11", "Bounds: up to three definitions with nested groups, up to three uses with symbolic offsets; 40 definitions used twice.")
claim("C13", "Bounds: trees of up to three levels with masks in and outside defs; selector texts of up to 6 characters; 30 masks and chains of 40 references.")
claim("C14", "Bounds: one unknown element, command or keyword in each position of a representative document; a malformed value of every supported attribute; 60 unknown elements, commands or values.")
claim("C15", "Bounds: symbolic viewBox numbers and sizes, up to three titles and descriptions in pieces of up to three characters, up to three paths, svg elements inside the document; 300 paths and 60 titles.")
claim("C21", "Bounds: every position of a failure in a representative document, every kind of empty document, XML only a lenient decoder accepts, declared encodings, files through a recorded file system.")
claim("C23", "Bounds: every property and keyword, symbolic numbers, letter case of every letter (thorough) and up to two white space characters around names and values.")
claim("C22", "Bounds: every ordered pair of seven kinds of documents with symbolic coordinates, the first in every error mode; documents with the same texts and other meanings; every ordered pair of 14 documents with unknown or malformed content in every pair of modes.")
claim("C05", "Bounds: coordinates within +-100000 and sizes up to 100000 px (circles, ellipses and round rects: 20000) (radii and heights of round rects and ellipses in fixed ratios to a symbolic size), attribute orders, six kinds of preceding elements.")
claim("C04", "Bounds: arcs of 4 radius ratios, 4 rotations, 6 chords and all flags at every scale in [8,60] and every position within +-500; up to three arcs in a command; an arc between any other two commands, 30 arcs in a command, arcs of 9 ratios, 13 rotations, 17 chords at 6 scales from 0.05 to 5000; degenerate arcs with symbolic values. Thorough: 8 ratios, 13 rotations, 14 chords, scales from 1.")
claim("C12", "Bounds: gradients of up to 2 (thorough: 3) stops in every notation, every direction attribute absent, number, percentage or length, symbolic viewBox; three gradients with up to 2 (thorough: 3) references in every arrangement; 30 gradients with up to 50 stops.")
claim("C01", "Bounds: every text of up to 3 (thorough: 4) symbolic bytes between typical beginnings and ends for 27 attributes, unusual texts and extreme numbers, every nesting of three (thorough: four) of 15 elements, every reference pattern among three (thorough: four) definitions; the XML decoder is replaced by its token stream.")
claim("C18", "Bounds: paths of 9 forms up to 8 operations, any 26.6 coordinates within +-1000, any transform, view box and target, all opacities; every sequence of two (thorough: three) elements of 8 kinds, and one of 33 elements; two masks with every reference pattern. gg's drawing primitives are replaced by recording ones.")
claim("C19", "Bounds: paths of 9 forms up to 8 operations, any 26.6 coordinates within +-1000, any transform, view box and target, all opacities; every sequence of two (thorough: three) elements of 8 kinds, and one of 33 elements. The draw2d context is a recording one.")
claim("C20", "Bounds: paths of 9 forms up to 8 operations, any 26.6 coordinates within +-1000, any transform, view box and target, all opacities; every sequence of two (thorough: three) elements of 8 kinds, and one of 33 elements; gradients of up to 3 stops. rasterx's path primitives and colour functions are replaced by recording ones.")
claim("C25", "Bounds: images of two (thorough: three) elements of 8 kinds with any coordinates, opacities, widths, dashes and gradients, with masks for gg; drawn twice with the same or other options.")
claim("C26", "Bounds: two goroutines; every pair of 7 kinds of documents, every pair of equal or neighbouring declarations of 22, images of two elements of 8 kinds drawn on two contexts, drawing while parsing. Every store to memory that two calls can both reach, outside locks and atomics, is found on every path and confirmed with the race detector. Memory inside the standard library and the drawing libraries is outside.")
claim("C27", "Bounds: every sequence of 4 (thorough: 5) calls with any 32-bit points, 200 calls with some symbolic points; every 8-bit mode value.")
