"""Per property: bounds of the two tiers, the oracle, and the reason this reaches what tests cannot."""
TEXTS = {
'P01': ("6 data types x 5 projections (4 real, 1 raw) x {all outcome sequences (18/12/10 source outcomes per pixel: data, none, limits, NaN, infinities, out of type range) for maps of 1-2 pixels; all shapes 1..6 x 1..6 x prograde/retrograde x 4 outcome rotations} x data ranges x blank values x 4 traversal orders. Maps beyond 8 and 16 bit counters (300x260, 70001x1 and the like) for every type and projection. Through the program: 6 types x 10 pairs of user limits x 4 pairs of limits recorded in the photo x blank, single planes and pairs, 48 data at and around the edges of every type. Latitude and longitude planes (with grids) of maps of 1300x1000 and 1000x1300 through the program, every pixel.",
        "Same with maps of up to 3 pixels for all outcome sequences, shapes 1..9 x 1..9 and every outcome rotation.",
        "A reference map built pixel by pixel from the definition: the recorded outcome at the place the projection reported for that offset, truncated toward zero, or the blank; placement, multiplicity and absence of other writes are recorded by an instrumented source; ASan/UBSan watch memory."),
'P02': ("6 data types x all pairs of minimum/maximum (or none) from a list of limits at and around the edges of every type x 3 ways of giving them x all data in a probe list with neighbours (nextafter) and infinities/NaN; NaN limits in 5 ways. Through the program: the space of limits, types and data given under P01; every kind of computed plane, alone and in pairs, x 6 types x 7-8 physical limits, given by input, configuration or both.",
        "Same space (already complete for its lists), with the full probe list for every type.",
        "Real arithmetic on (possibly 64 bit) limits: a datum is stored iff min <= datum <= max and it fits the type; otherwise blank; minimum above maximum or NaN is refused."),
'P03': ("All sequences of 5 operations (4 for non-32-bit types) out of 19 on an extrema object for 6 types (set/unset/update/merge/reset/convert), and all assignments of 8 data classes to the pixels of up to 2 planes of 2 pixels, with/without blank and limits. Through the program: the space of limits, types and data given under P01, header extrema of one and two planes, of photos and of computed planes (physical units); 7 scales x 6 zeros given by the user x 6 types x 3 limits, to the digits a header holds.",
        "Sequences of 6 operations; 3 planes.",
        "Multiset of the data seen so far: minimum and maximum recomputed from it after every operation."),
'P04': ("2 rotations x 5 bodies (one almost spherical) x centric/graphic x 11 latitude bounds x 23 longitude bounds (down to a millionth of a degree) x all shapes up to 4x4; every refusal (4 bounds x out-of-range and NaN values). Maps beyond 8 and 16 bit counters (300x260, 70001x1 and the like). Centres up to 0.0001 degrees on either side of the edge of the visible side; 9 scales from 1 mm to 1e6 km per pixel, unset ones included. Through the program: latitude and longitude planes of maps over the options of the projection, in every order the language permits, both rotations, 3 axis ratios.",
        "Shapes up to 9x9 plus 360x180, 101x67, 1x500, 500x1.",
        "Closed formula for the pixel centre's latitude and longitude, in long double."),
'P05': ("2 rotations x 8 axis ratios x 2 sizes x all shapes 1..23 x 1..23; scale factors at 179 latitudes x 6 ratios. Maps beyond 8 and 16 bit counters (300x260, 70001x2, 2400x31, 192x161 and the like). Through the program: latitude and longitude planes of maps over the options of the projection, in every order the language permits, both rotations, 3 axis ratios.", "Shapes 1..41 x 1..41.",
        "Isometric latitude of the ellipsoid in long double; conformality, symmetry, strict monotonicity and termination checked directly."),
'P06': ("2 rotations x 2 poles x 6 axis ratios x 12 maximum latitudes (none, both hemispheres, next to the equator and a pole) x all shapes up to 5x5; all refusals. Maps beyond 8 and 16 bit counters (300x260, 70001x1 and the like). Through the program: latitude and longitude planes of maps over the options of the projection, in every order the language permits, both rotations, 3 axis ratios.", "Shapes up to 9x9 plus three large ones.",
        "Ellipsoidal polar stereographic radius in long double."),
'P07': ("2 rotations x 3 bodies x 9 sub-observer latitudes (poles and latitudes next to them included) x 4 longitudes x 6 position angles x 3 scales x 5 shapes x all kinds of centre; all refusals. Maps beyond 8 and 16 bit counters (300x260, 70001x1 and the like). Through the program: latitude and longitude planes of maps over the options of the projection, in every order the language permits, both rotations, 3 axis ratios.", "11 latitudes, 8 position angles, 4 scales, 7 shapes.",
        "Line of sight / ellipsoid intersection in long double from the definitions; pixels within a small tolerance of the limb are not judged."),
'P08': ("4 projections x 2 rotations x 3 axis ratios x each projection's options (bounds, latitude type, pole, maximum latitude, sub-observer point, position angle, scale, centre) x 6 shapes (one 300x260, also in close-up: 1 km per pixel of a body of 1000 km, maximum latitude 89 and -85) x 3 pairs of intervals, also after another grid was drawn. Through the program: a fixed 1/11 to 1/59 of all options of each projection x 2 rotations x 3 axis ratios x 2 shapes x 4 ways of giving intervals; 12 pairs of intervals from half a degree to more than the globe x 4 projections x 4 shapes down to 1x1, also from the configuration; maps of 1500x1200 and 700x1300 pixels.", "9 shapes, 9 interval pairs, all option lists in full; 0.2 km per pixel; 4606 grids through the program.",
        "Exact positions of meridians and parallels by the projection's formula: every mark is within 1.5 pixels of a line, every line is marked along its visible length; values are only 0 and 255; ASan watches the image."),
'P09': ("2 rotations x 2 bodies x 3 sub-observer latitudes x 3 longitudes x 4 position angles x 3 ranges x 3 kinds of scale x 2 scales x optical axis given or not x 7 centres (on axis, on its line, on its sample, off, by latitude/longitude) x distortion on/off, 84 surface points each; 7 emission limits x terminator x 16 sun positions on a reduced set; contradictory and out-of-range geometry. Through the program: 6 observers x 6 notations of the position angle x 3 optical axes x 2 ranges x 2 rotations x centre by pixel or by latitude/longitude at the axis (2) x scale by km, arc seconds or lens, a third of the product by a fixed rule, every map pixel; 128 views from low over the body, part of which lies behind the camera.", "3 bodies, 5 latitudes, 4 longitudes, 5 angles, 4 ranges, 8 centres, 325 surface points; the whole product of input notations.",
        "An independent pinhole camera (camera.h) in long double, built from the definitions by a different construction (triads) than the code's rotation matrices."),
'P10': ("The camera space of P09; every visible surface point there and back, and a grid of image positions classified as body or sky; sky removal on whole photos.", "The thorough camera space of P09.",
        "Inverse of the reference camera by ray/ellipsoid intersection; the mask is compared with the reference disk away from its limb."),
'P11': ("5 image shapes x 2 rotations x 3 disk sizes x 2 shifts x sky removal x interpolation x all border strips 0..2 on four sides x 16 (4) NaN patterns, 960 positions each; all constructions with 0..4 samples/lines, 9x9 strip values, wrong sizes; every pixel of photos of 300x260, 70001x2 and 2x70001; 12 scales from 1 to 1e-22 km per pixel. Through the program: all combinations of nibbling (7), interpolation, sky removal, emission limit, terminator, Galileo lens, undefined pixels, 2 rotations, 3 geometries, less the larger ones for some geometries, every map pixel.", "6 shapes, 3 shifts, 2880 positions; all combinations of the photo options.",
        "The pixel under the position, if valid, else none; brute-force distance to the nearest edge or masked pixel; ASan for out-of-bounds reads."),
'P12': ("All 6^4 values (NaN included) of the four surrounding pixels x 9 positions of the square x all in-pixel fractions of a list x 2 widths; all border strips of all images 2..5 x 2..5. Infinite pixels next to positions that give them no weight.", "7^4 values.",
        "Textbook bilinear formula and min/max of the valid neighbours."),
'P13': ("3 strategies x all lists of up to 5 images out of all kinds (data, none, NaN, zero/large weights) x initial value of the output. Through the program: all pairs and most triples of five kinds of photo (nibbled, sky removed with undefined pixels, interpolated, terminator) x 4 averaging entries x 4 pairs of data limits, every map pixel. Mosaics of up to 300 photos (numbers around the powers of two), each with data everywhere or at few places.", "Lists of up to 6 images; all triples with all limits.",
        "First / mean / weighted mean over exactly the images having data."),
'P14': ("5 planes x 2 rotations x 3 bodies x 5 x 4 observers x 5 ranges x suns x 5 scale/offset pairs on a 10 degree grid of the whole body (and just off the special points). Through the program: floating point maps of all planes for 6 observers x 4 ranges x 4 suns x 2 rotations x 3 axis ratios.", "5 bodies, all observers and suns, 5 degree grid.",
        "Definitions with vectors in long double."),
'P15': ("6 types x 20 minima x all widths of a list (edges of every type and decade); and, through the program, all 6 backplane kinds x 6 types singly and in all ordered pairs, with observers, blanks, rotations and user scales. Maps of up to 300 planes, each with its recorded scale.", "All ordered triples of planes, 5 observers, 3 blanks.",
        "Fit, invertibility and resolution recomputed; physical values from the geometric definition compared with stored x recorded scale + recorded zero."),
'P16': ("10 bodies x 721 latitudes and a ladder of latitudes towards the poles and equator down to 1e-12; all lines from 4 ranges x 56 positions x 7x7 aims x 3 direction lengths; exact tangents; axis-parallel lines with exactly known answers; all constructor arguments of a list. Every pair of bodies differing in one radius asked by turns.", "7201 latitudes, 13x13 aims.",
        "Ellipse formulas in long double; for axis-parallel lines exact rational answers."),
'P17': ("All sequences of set/unset/merge operations to depth 3-5 (by focus) on each group of parameters for user and derived parameter sets, with merges from both kinds; all sequences of data types. Through the program: all divisions of up to 3 photos over planes x the photos' types x subsets of header values given by them x 7 sets of user values x an extra backplane.", "One step deeper; 6 data types in triples, all user sets.",
        "An abstract merge model run in lockstep; every getter compared after every operation."),
'P18': ("All ordered pairs of all map entries in one file and in separate files, all triples of 7; all ordered pairs of all planes; all ordered pairs of mosaic images. All ordered pairs of entries that differ in one setting (photo geometry and preparation, observers, suns, bodies, shapes, each projection option, grid intervals), as maps and as planes; long sequences of up to 257 maps and planes in 3 strides.", "Triples of the core entries, triples of 14 planes.",
        "The same map, plane or image made alone by the same program: pixels and header compared."),
'P19': ("All single deletions, duplications, truncations, neighbour swaps, insertions/replacements from a pool of entries, misspellings and malformed values of three full input files; all pairs of optional entries left out; every keyword's values at and around its domain's limits; all unit notations of latitudes, longitudes, angles, ranges and radii; 17 x 17 map sizes up to 2^64 whose product cannot be counted.", "All pair swaps, all pair deletions, all insertions at every line, triples of optional entries.",
        "A reference grammar (regular expression over entries) with a table of value domains; directory contents before and after; for units the reference geometry or the map of the plain notation."),
'P20': ("All combinations of 7 types x 1..3 planes x grid x blank x 3 scale/zero settings x shapes (one of 300x230), and 7 scales x 7 zeros (1 and 0 included) of every type; all combinations of header texts from user and photo, texts of every length around the header record's (up to 300 characters, with quotes) from either, repeated comments; projections x grid options. Maps of 1300x1000 and 1000x1300 with and without grid, every pixel; up to 300 planes of photos and computed planes; up to 300 comments; file names of up to 255 characters.", "Five more shapes, everything with every shape.",
        "A strict FITS reader written for this purpose (checksums, padding, card syntax) and the expected pixels from the reference camera."),
'P21': ("For every scenario, every file operation of the run (counted by ptrace) fails once, fails from then on, is cut short, or the process is killed there; file size limits every 360 bytes and around every FITS block.", "More and larger scenarios; limits every 64 bytes; reruns after every fault.",
        "The map of the faultless run; source files compared byte for byte."),
'P22': ("All token strings up to 5 tokens over {2,3,+,-,*,/,^,(,)} with and without blanks, every function with 12 arguments in 35 contexts, number formats; all strings up to 3 tokens that are not expressions; undefined values. Nested parentheses, functions and signs, chains of every operator, digits and blanks up to 2000 long.", "7 tokens; non-expressions up to 5 tokens.",
        "A recursive-descent evaluator; the value is read back from the BZERO keyword."),
'P23': ("6 FITS data types x scalings x undefined pixels x {plain, compressed, extension, followed by another, cubes} x 5 flat fields x 4 inversions; all photo shapes 2..6 x 2..6 and 300x260, 260x300, 600x2; damaged files. Photos and flat fields of 1300x1000 and 1000x1300; all ordered pairs of 18 preparations (photo, flat field, inversion) as planes of one map; extreme pixel values of every type (1e300, infinities, 2^62).", "4 geometries, everything combined, shapes up to 11x11.",
        "Physical values computed from the generated file; reference camera for placement."),
'P24': ("0..3 observers x 5 projections x all shapes up to 5x5 x 1..3 planes x data or none x every number of visited pixels; console for every map size up to 230 and for eleven larger ones up to 43000000 x 2 planes x 0..2 unvisited; observers of maps of 257x3, 300x260, 70001x1.", "Shapes up to 8x8, sizes up to 450.",
        "The sequence 1..n, done once; console text parsed."),
'P25': ("5 image sizes x 401 lines x all samples on a half-pixel grid; null correction. Through the program: photos of 9 sizes around 400 and 800 samples, observers, rotations, centre by pixel or axis, sky removal, interpolation, correction on and off, every map pixel.", "1601 lines.", "The documented cubic formula in long double and the identity of the composition."),
'P26': ("All pairs of configured and overriding entries within each kind, with and without the other kinds; all 32 lookup situations; malformed files.", "The full product of the three kinds.",
        "Effective settings computed by precedence; verified on pixels and grid lines."),
'P27': ("Breadth-first search of the reachable directory states from all initial states under all runs, to depth 3.", "Depth 6, more runs.",
        "Each run must change exactly the maps named by its input, to the contents of a fresh run."),
'P28': ("19 functions x 4 bracket shapes x 401 targets, every row of maps of 8 sizes up to 2400x2400 by the equations of both conformal projections on 7 bodies between the poles themselves, and from 17 guesses without a bracket; almost-equality of 14 numbers x -8..8 ulps x 8 tolerances; quadratics with 9x9 roots x 5 coefficients x 4 units of the roots x 3 of the coefficients.", "4001 targets.",
        "Function value at the returned argument; ulp distance; known roots."),
'P29': ("All argument sequences of length 0..2 over 21 arguments (good, bad, missing, empty, repeated and directory input files, files with several maps and with overlapping map names, names with blanks and leading dashes, the double dash, every option, unknown options), of length 3 over 9 and of length 4 over 5 of them. Up to 300 input files in either order, with and without a bad one; 6 kinds of unreadable file (loops, missing directories, no permission for an unprivileged user, ...) at every position.", "Length 3 over all 21, length 4 over 7.",
        "A ten-line model of the conventional reading of a command line; which maps exist afterwards and what each holds."),
}
