#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property text)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

V = "include/um2/stdlib/vector.hpp"; S = "include/um2/stdlib/string.hpp"; SV = "include/um2/stdlib/string_view.hpp"
p("P01", "Vector behaves as a value-semantic sequence under any operation history",
  "After any sequence of constructions, copies, moves, assignments, growth, shrinking, insertions at either end of its life cycle and element writes, a growable array holds exactly the elements an ideal sequence would hold, in order, and copies are independent of their source. No operation touches memory outside its own storage, uses an element after its lifetime, loses or destroys an element twice, or leaks storage. Appending one of the array's own elements appends the value that element had before the call.",
  ["histories", "inputs"], "all operation histories up to a bounded length over two live arrays, all element values, trivially copyable and owning element types",
  "tests/stdlib/vector.cpp calls each operation once or twice from a fixed small state; interactions (aliasing at full capacity, shrink then grow, self assignment, move-from reuse) are quantified over histories.",
  [V], [("grow / recommend / reserve / append / construct-destroy range", V), ("copy/move assignment", V)],
  [("begin/end/end_cap", "owned storage, live prefix, capacity", V)], ["size(), operator[], front/back, iteration, allocation and destruction events"])
p("P02", "String behaves as an owning text value in both storage modes",
  "A string's length and characters always equal those of an ideal text value built by the same operations (construction from literals, numbers, views and other strings, copy, move, assignment, append, concatenation, slicing, comparison), whether the text is held inline or on the heap, and it is always zero terminated. No operation reads or writes outside the string's storage, leaks, or frees twice, including appending a string to itself or a part of itself and converting numbers of any magnitude.",
  ["histories", "inputs"], "all byte contents, all lengths through the inline/heap boundary, all short operation histories, every number value converted",
  "tests/stdlib/string.cpp uses fixed literals on each side of the boundary; it never converts large-magnitude numbers, never self-appends at the boundary and never mixes histories.",
  [S, SV], [("short/long representation switch", S), ("growth and append", S), ("numeric constructors", S)],
  [("representation union", "inline buffer or heap pointer with capacity", S)], ["size(), data(), operator==, c string terminator"])
p("P03", "StringView searching, trimming, tokenising and ordering match their definition",
  "For every text and every pattern, searching for a character or pattern returns the position of the first (or last) match or 'not found', prefix/suffix tests and ordering agree with the textual definition, and slices denote exactly the requested characters. Repeatedly taking delimiter-separated tokens yields every non-delimiter run exactly once in order and never reads outside the text.",
  ["inputs"], "all byte strings up to a bounded length, all delimiters, all positions",
  "tests/stdlib/string_view.cpp checks a handful of literal texts; off-by-one at first/last position, repeated delimiters and needle-overlapping are quantified over texts.",
  [SV, "include/um2/stdlib/cstring/memcmp.hpp", "include/um2/stdlib/cstring/strlen.hpp"],
  [("find / find_first_of / find_last_of / substr / compare", SV), ("token extraction and leading-space removal", SV)])
p("P04", "Text and numbers convert faithfully, including lattice text and ASCII counters",
  "Parsing the decimal text of any representable integer gives that integer back, consumes exactly its characters, and lattice text becomes the rows and columns of numbers written in it with ragged input rejected. The fixed-width ASCII counters used in file names and cell names step through consecutive integers with carries and produce, for each index, the zero-padded text of index.",
  ["inputs"], "all integers of the type, all digit strings within bounded width, all small lattice texts, all counter values of bounded width",
  "Existing tests parse a few literals and step a counter a few times; carry chains and negative/limit values are quantified over inputs.",
  ["include/um2/common/strto.hpp", "include/um2/common/string_to_lattice.hpp", "src/mpact/model.cpp", S],
  [("string to number", "include/um2/common/strto.hpp"), ("lattice parser", "include/um2/common/string_to_lattice.hpp"), ("getASCIINumber / incrementASCIINumber", "src/mpact/model.cpp")])
p("P05", "Sorting, permutation and range algorithms are correct for every input order",
  "Every sorting routine returns an ordered rearrangement of its input, a sort permutation lists each index once and orders the values it refers to, applying a permutation moves each element to its stated place and an inverted permutation undoes it. Range copy/fill/equality/min/max/ordering helpers agree with their mathematical definition for every range, including empty ones.",
  ["inputs"], "all value orders (with ties) of arrays up to a bounded length, all permutations up to a bounded length",
  "Tests check one or two orders per routine; the branchless networks have 6 and 24 orders plus ties.",
  ["include/um2/common/branchless_sort.hpp", "include/um2/common/insertion_sort.hpp", "include/um2/common/permutation.hpp", "include/um2/stdlib/algorithm/copy.hpp", "include/um2/stdlib/algorithm/is_sorted.hpp", "include/um2/stdlib/algorithm/max_element.hpp", "include/um2/stdlib/algorithm/lexicographical_compare.hpp"],
  [("sorting networks", "include/um2/common/branchless_sort.hpp"), ("insertion sort", "include/um2/common/insertion_sort.hpp"), ("permutations", "include/um2/common/permutation.hpp")])
M = "include/um2/math/morton.hpp"
p("P06", "Morton encoding is a bijective, order-nested interleaving in every build mode",
  "Encoding integer coordinates interleaves their bits, decoding returns exactly the encoded coordinates, and distinct coordinates never share a code; the hardware-accelerated and portable builds give the same codes. Encoding normalised real coordinates equals encoding their quantised integer cell, is monotone in each coordinate, stays inside the code range on the closed unit cube, and sorting points by code is a permutation of the points.",
  ["inputs", "configurations"], "all 2^32 / 2^64 coordinate pairs and triples within the documented limits, both build modes, all reals of the unit interval",
  "tests/math/morton.cpp checks 8x8 and a few random codes in a single build mode.",
  [M, "include/um2/geometry/morton_sort_points.hpp"], [("mortonEncode / mortonDecode (integer)", M), ("normalised encode/decode", M), ("mortonSort / mortonLess", "include/um2/geometry/morton_sort_points.hpp")])
VC = "include/um2/math/vec.hpp"; MT = "include/um2/math/mat.hpp"
p("P07", "Small vectors and matrices obey componentwise and linear algebra laws",
  "Vector arithmetic, comparisons, reductions, norms, dot, cross and normalisation act componentwise as defined, identically for sizes stored in SIMD registers and sizes stored as plain arrays. Matrix access, addition, scaling, matrix-vector and matrix-matrix products, determinant, transpose-like constructors, rotation and inverse satisfy their defining equations for every entry, and inverse times the matrix is the identity whenever the determinant is not zero.",
  ["inputs", "configurations"], "all entries, sizes 1-4 (8 for vectors), SIMD and scalar builds",
  "tests use a single fixed vector/matrix with small integers; wrong index or aliasing in a lane is invisible when entries coincide.",
  [VC, MT, "include/um2/geometry/point.hpp"], [("SIMD and scalar operators", VC), ("Mat operators", MT)])
MX = "include/um2/math/matrix.hpp"
p("P08", "Dynamic matrices address, slice and combine entries consistently",
  "A runtime-sized matrix stores each entry at one place addressed consistently by (row, column), linear index and column view; construction, identity/zero/fill, transposition, addition, subtraction and scaling act entrywise for every shape, and products and linear solves hand the numerical back end the operands, leading dimensions and shapes that denote the documented result.",
  ["inputs", "configurations"], "all shapes up to a bounded size and all entries; the BLAS/LAPACK kernels are replaced by their mathematical contract",
  "tests/math/matrix.cpp uses one or two shapes; non-square leading-dimension mistakes need shape variety.",
  [MX, "src/math/matrix.cpp"], [("Matrix accessors and operators", MX), ("gemm / gesv / geev wrappers", "src/math/matrix.cpp")])
p("P09", "Statistics match their mathematical definition for every sample",
  "Sum, mean, median, variance and standard deviation of a range equal their mathematical definition for every sample and every length, including lengths on both sides of the blocked-summation threshold, and the input is not changed.",
  ["inputs"], "all values, lengths 1..12 symbolic plus lengths around the blocking threshold",
  "tests/math/stats.cpp checks a single ramp; the pairwise split above the threshold and the even-length median are quantified over length and order.",
  ["include/um2/math/stats.hpp"], [("pairwise sum, mean, median, variance", "include/um2/math/stats.hpp")])
p("P10", "Quadratic and cubic solvers return exactly the real roots",
  "For every real coefficient set with a non-zero leading coefficient, each value reported as a root is a root of the polynomial, every distinct real root is reported, and 'no real root' is signalled exactly when there is none.",
  ["inputs"], "all real coefficients within bounds (quadratic: exhaustive over the reals; cubic: trigonometric branch by contract of the math library)",
  "tests check three or four fixed coefficient sets; sign choices for cancellation avoidance depend on coefficient signs.",
  ["include/um2/math/quadratic_equation.hpp", "include/um2/math/cubic_equation.hpp"], [("solveQuadratic", "include/um2/math/quadratic_equation.hpp"), ("solveCubic", "include/um2/math/cubic_equation.hpp")])
G = "include/um2/geometry/"
p("P11", "Axis-aligned boxes bound, combine, contain and are pierced exactly",
  "A box reports extents, centroid, corners and containment consistent with its two extreme corners, growing or uniting boxes gives the smallest box containing both, and bounding a set of points gives the tight box. A ray-box query reports exactly the parameters at which the ray enters and leaves the box, and reports a miss exactly when no point of the ray lies in the box.",
  ["inputs"], "all boxes, points and ray directions, including axis-parallel rays",
  "tests probe a unit box with a few rays; slab logic with negative and zero direction components is quantified over inputs.",
  [G + "axis_aligned_box.hpp", G + "ray.hpp"], [("slab intersection, operator+, scale, contains", G + "axis_aligned_box.hpp")])
p("P12", "Straight segments: interpolation, length, nearest point, side and ray hits",
  "Points of a segment interpolate linearly between its ends, its length and bounding box are those of the segment, the nearest point and distance to any point are minimal over the segment, and the left-of test agrees with orientation. Ray and segment-segment intersection queries report a hit exactly when the sets meet, at a parameter whose point lies on both.",
  ["inputs"], "all endpoint coordinates, query points and rays in the plane (and 3D where defined)",
  "tests use axis-aligned unit segments; sign errors cancel there.",
  [G + "line_segment.hpp", G + "ray.hpp", G + "point.hpp"], [("interpolate, length, pointClosestTo, isLeft, intersect, intersects", G + "line_segment.hpp")])
p("P13", "Triangles and quadrilaterals: measures, containment, orientation, flip, rays",
  "For every non-degenerate triangle and convex quadrilateral: area, centroid, perimeter, mean chord length and bounding box equal the geometric value, containment is true exactly for points inside, orientation reports the sign of the area and flipping reverses it without changing the shape, and the crossing list with any ray is exactly the crossings with its edges. Interpolation reproduces corners and edges, and the derivative is the derivative of the interpolation.",
  ["inputs"], "all vertex coordinates satisfying convexity/non-degeneracy, all parameters, query points and rays",
  "tests use unit triangles/squares where many wrong formulas agree.",
  [G + "triangle.hpp", G + "quadrilateral.hpp", G + "polygon.hpp", G + "polytope.hpp"], [("area/centroid/contains/flip/isCCW/intersect/meanChordLength", G + "polygon.hpp")])
p("P14", "Quadratic segments: interpolation, bounds, nearest point, left test, ray hits",
  "A quadratic segment passes through its two ends and its middle node, its derivative is that of its interpolation, its bounding box contains the curve tightly, its enclosed area is the area between curve and chord, and reported nearest points are not farther than any other curve point. Ray queries report exactly the points common to ray and curve, and the left-of and curvature tests agree with geometry.",
  ["inputs"], "all three control points of non-degenerate curves, all rays; polynomial-root steps over the reals",
  "tests use eight canned curves; branch boundaries (straight, sign of curvature, extrema inside the parameter range) are quantified over inputs.",
  [G + "quadratic_segment.hpp"], [("interpolate, boundingBox, pointClosestTo, isLeft, intersect, enclosedArea", G + "quadratic_segment.hpp")])
p("P15", "Quadratic triangles and quads: measures, orientation, flip, containment",
  "For every valid quadratic triangle and quadrilateral: interpolation passes through all nodes, edges are the documented node triples, area and centroid equal the integrals over the curved shape, orientation agrees with the sign of the area, and flipping reverses orientation while describing the same curved shape. Linear shapes expressed as quadratic elements give the linear measures.",
  ["inputs"], "all node coordinates within bounds",
  "tests use unit shapes with at most one bulged edge; node-index mistakes on other edges are invisible.",
  [G + "quadratic_triangle.hpp", G + "quadratic_quadrilateral.hpp", G + "polygon.hpp", G + "polytope.hpp"], [("getEdge/area/centroid/flip/interpolate", G + "quadratic_quadrilateral.hpp")])
p("P16", "Modular rays cover the cell with equal spacing and close on periodic cells",
  "For every cell size, requested angle and spacing, the modular ray set starts on the cell boundary, all rays are parallel with unit direction in the requested quadrant, counts along both sides are the smallest that do not exceed the requested spacing, spacing is uniform, and the angle is adjusted so that every ray's exit is another ray's entry under periodic translation.",
  ["inputs"], "all sizes/angles/spacings giving bounded ray counts",
  "tests check three angles on one box.",
  [G + "modular_rays.hpp"], [("ModularRayParams", G + "modular_rays.hpp")])
RG = "include/um2/mesh/regular_grid.hpp"; RL = "include/um2/mesh/rectilinear_grid.hpp"
p("P17", "Regular grids tile their box and locate points in the right cell",
  "A regular grid's cells tile its bounding box: cell (i,j,k) spans exactly its index range, centroids and corners agree, totals multiply, flat and multi-indices correspond one to one, and the cell located for a point contains it. Index ranges intersecting a query box cover every cell that meets the box, and values addressed through a partition are those stored for that cell.",
  ["inputs"], "all origins, spacings, cell counts up to a bound, query points and boxes, dimensions 1-3",
  "tests use integer spacings and a few cells.",
  [RG, "include/um2/mesh/regular_partition.hpp"], [("getBox/getFlatIndex/getCellIndexContaining/getCellIndicesIntersecting", RG), ("child access", "include/um2/mesh/regular_partition.hpp")])
p("P18", "Rectilinear grids rebuild the tiling given by their boxes or divisions",
  "A rectilinear grid built from divisions, a single box, per-cell size lists with an id map, or a complete set of boxes has strictly increasing divisions that reproduce the given cells; each cell's box and extents are those divisions, flat and multi-indices correspond, and a partition maps each cell to the value of the box it came from. A pair of boxes that are not neighbours is rejected.",
  ["inputs"], "all division coordinates and box orders for bounded cell counts, dimensions 1-3",
  "tests use one 2x2 layout in a single order.",
  [RL, "include/um2/mesh/rectilinear_partition.hpp"], [("constructor from boxes / id map", RL), ("getBox, getFlatIndex, getCellIndexContaining", RL)])
p("P19", "Element and mesh type tables agree with each other for every identifier",
  "For every element and mesh kind, the number of points, the VTK and XDMF identifiers, and the mesh kind inferred from a set of element kinds are mutually consistent: converting to an external identifier and back is the identity, and unknown identifiers are classified as invalid.",
  ["inputs"], "all integer identifiers and all element-kind combinations",
  "tests check the listed values only; unlisted identifiers and swapped pairs are quantified over all ids.",
  ["include/um2/mesh/element_types.hpp", "src/mesh/polytope_soup.cpp"], [("type conversion tables", "include/um2/mesh/element_types.hpp")])
FV = "src/mesh/face_vertex_mesh.cpp"; FVH = "include/um2/mesh/face_vertex_mesh.hpp"
p("P20", "Mesh connectivity queries are mutually consistent for every face set",
  "In a face-vertex mesh the vertex-to-face lists contain exactly the faces that use each vertex, faces and edges returned are those of the stored connectivity, the face found for a point contains the point (and 'none' is returned exactly when no face does), orientation normalisation leaves every face counter-clockwise with the same vertex set, and bounding box and areas are those of the faces.",
  ["inputs"], "all small connectivities (including holes and disconnected faces) and all vertex coordinates within bounds; linear and quadratic, triangle and quadrilateral meshes",
  "tests use five canned meshes.",
  [FVH, FV], [("populateVF / faceContaining / flipFace / getFace / getEdge", FV)], [("v, fv, vf_offsets, vf", "vertices, connectivity, inverse connectivity", FVH)])
p("P21", "Ray-mesh intersection lists are complete, grouped by face and safe",
  "For every mesh and ray, intersecting returns, per face in offset order, exactly the crossings of the ray with that face's edges; offsets partition the coordinate list, the plain coordinate list contains the same values, and no write happens outside the caller's buffers when they are large enough.",
  ["inputs"], "all rays and bounded meshes with symbolic vertex positions",
  "tests shoot two rays into a canned mesh.",
  [FVH, FV, G + "polygon.hpp"], [("FaceVertexMesh::intersect / intersectHelper / sortRayMeshIntersections", FV)])
p("P22", "Mesh sorting and validation keep geometry and detect every bad mesh",
  "Reordering vertices and faces along the Morton curve changes only numbering: the multiset of faces as point lists is unchanged, and repeated sorting is harmless for meshes anywhere in the plane. Validation leaves good meshes untouched, orients clockwise faces, and reports meshes whose faces overlap along an edge, whose boundary is not one closed loop, or whose quadratic faces intersect themselves.",
  ["inputs"], "all vertex positions and connectivities within bounds",
  "tests only feed good meshes plus a couple of bad ones.",
  [FVH, FV], [("mortonSort, mortonSortVertices, mortonSortFaces", FV), ("validate", FV)])
PS = "src/mesh/polytope_soup.cpp"; PSH = "include/um2/mesh/polytope_soup.hpp"
p("P23", "Polytope soup edits keep elements, sets and data attached to each other",
  "Adding vertices, elements and sets, appending soups, extracting sets and subsets, sorting sets and comparing soups preserve the association of each element with its type, vertex coordinates, set membership and per-element data. A subset contains exactly the set's elements with their geometry and every other set restricted to them; appending keeps both sides' content with shifted numbering; comparison is zero exactly for equal soups.",
  ["histories", "inputs"], "all small soups over all element kinds, all set memberships, all data values, all bounded edit histories",
  "tests use one two-element soup.",
  [PSH, PS], [("addElement/addElset/getSubset/operator+=/sortElsets/compare", PS)], [("vertices, element types/offsets/connectivity, elset names/offsets/ids/data", "the soup", PSH)])
p("P24", "Soup and mesh are two views of the same mesh; power regions conserve power",
  "Converting a soup to a typed mesh and back preserves every face as an ordered list of point positions and leaves faces counter-clockwise; mesh kind reported for the soup is that of its elements. The power list of a solution contains one entry per connected region of powered elements, its values sum to the total power, and each position is the area-weighted centre of that region.",
  ["inputs"], "all small meshes, positions and power values",
  "tests convert canned meshes and never exercise several regions touching late.",
  [FV, PS, "src/mpact/powers.cpp", "src/mpact/source.cpp"], [("FaceVertexMesh(PolytopeSoup) / operator PolytopeSoup", FV), ("getPowers", "src/mpact/powers.cpp"), ("getSource", "src/mpact/source.cpp")])
p("P25", "Mesh files are read into exactly the mesh the text describes",
  "Reading an Abaqus or VTK file yields exactly the vertices, elements (type and connectivity) and element sets that the text lists, in order, with external numbering translated, for every count and numbering, and malformed or unsupported content is rejected rather than misread or read out of bounds.",
  ["inputs"], "all bounded file texts of the grammar with arbitrary digits and whitespace placement",
  "tests read a few canned files.",
  [PS], [("readAbaqusFile / readVTKFile", PS), ("token and number parsing", SV)])
p("P26", "XDMF files are read as written, and refused where they cannot be",
  "Writing any soup to the XDMF format and reading it back gives an equal soup: vertices, element kinds, connectivity, element sets and their data, including mixed-kind meshes, three-dimensional positions and sets without data. A file of another program is read exactly for every number width the reader supports; anything it does not support is reported and never silently dropped.",
  ["inputs"], "all small soups over all element kinds, symbolic vertex values, set memberships and data, and files with each supported and unsupported width and entry; HDF5/XML libraries replaced by in-memory models",
  "tests round-trip a few canned meshes.",
  [PS], [("writeXDMFFile / readXDMFFile", PS)])
X = "src/physics/cross_section.cpp"
p("P27", "Cross sections validate, collapse and interpolate as defined",
  "Validation reports exactly the cross-section sets with negative, inconsistent or wrongly sized data; collapsing to one group averages every reaction and preserves the scattering-matrix sum relation; temperature interpolation is linear in the square root of temperature between tabulated points, exact at them and clamped outside. Isotope identifiers are 1000 times the atomic number plus mass number for every element symbol.",
  ["inputs"], "all group counts up to a bound, all cross-section values and temperatures, all symbol/mass texts",
  "tests check a single benchmark table and two temperatures.",
  ["include/um2/physics/cross_section.hpp", X, "src/physics/nuclide.cpp"], [("validate/collapseTo1GroupAvg", X), ("interpXS/toZAID", "src/physics/nuclide.cpp")])
p("P28", "Material compositions give the number densities and cross sections they state",
  "Adding nuclides by density, weight fraction or atom percent yields the defined number densities for every density and fraction, enriched fuel compositions conserve the stated weight fractions and mass, and populating macroscopic cross sections is the density-weighted sum of the interpolated nuclide data for every reaction, group and scattering pair.",
  ["inputs"], "all densities, fractions, enrichments, temperatures and library values, bounded nuclide and group counts",
  "tests use a single composition.",
  ["include/um2/physics/material.hpp", "src/physics/material.cpp"], [("addNuclide*, setUO2, populateXSec", "src/physics/material.cpp")])
p("P29", "Cross-section library files are read into exactly the data they list",
  "Reading a multigroup library yields the group structure, fission spectrum, and for each nuclide the identifier, mass, temperatures and each reaction and scattering value at the group and temperature where the file lists it; looking up a nuclide returns that nuclide or reports its absence.",
  ["inputs"], "all values in bounded library texts (file access modelled in memory)",
  "tests depend on a library file that is not available, so only the C5G7 table is exercised.",
  ["src/physics/cross_section_library.cpp", "include/um2/physics/cross_section_library.hpp"], [("MPACT library parser", "src/physics/cross_section_library.cpp")])
MD = "src/mpact/model.cpp"; MDH = "include/um2/mpact/model.hpp"
p("P30", "Model building places every cell where its text map says, and counts add up",
  "Building coarse cells, modules, lattices, assemblies and the core places each child at the row and column written by the user (first written row at the top), with extents equal to the sum of children, renumbered so that ids refer to the child added, and total counts equal to the sum over the placed hierarchy. Extents, boxes and z-slices of a completed model tile the core.",
  ["inputs", "histories"], "all id maps of bounded shapes, all extents and slice heights, all bounded build histories",
  "tests use symmetric or constant maps where row reversal and transposition are invisible.",
  [MDH, MD], [("addCoarseCell/addRTM/addLattice/addAssembly/addCore/numXTotal", MD)], [("core/assembly/lattice/rtm/coarse cell arrays", "nested spatial hierarchy", MDH)])
p("P31", "Model building rejects inconsistent requests and leaves the model usable",
  "A request that names a missing child, material or mesh, uses wrong extents, ragged maps, unequal child sizes, unordered slice heights, or repeats the core is reported as an error and adds nothing to the hierarchy, while every consistent request is accepted and returns the next id.",
  ["inputs", "histories"], "all id values, extents, map shapes and slice lists within bounds",
  "tests never exercise rejections (an error terminates the process by default).",
  [MDH, MD], [("argument validation in the add functions", MD)])
p("P32", "Generated pin meshes have the right rings, areas, connectivity and materials",
  "A generated rectangular mesh has the requested cells tiling the pin, and a generated cylindrical mesh has, for every radii/ring/azimuth choice, the documented number of faces and vertices, faces that tile the pin without overlap with each material ring's area equal to the analytic ring area within tolerance for its element order, counter-clockwise faces, and material ids assigned ring by ring from the centre outward.",
  ["inputs"], "all radii and pitch values, bounded ring and azimuth counts, both element orders",
  "tests build one or two fixed pins and compare stored vertex positions.",
  [MD, FV], [("addCylindricalPinMesh / addRectangularPinMesh / addCylindricalPinCell", MD)])
p("P33", "A model flattened to a soup puts every cell's mesh at its place",
  "Flattening a model yields, for every placed coarse cell, its mesh translated to the cell's position in the core with the cell's materials and hierarchy set names; the number of elements equals the sum over placed cells, and element sets for each level contain exactly the elements under that placement.",
  ["inputs"], "all small hierarchies with symbolic extents, material assignments and repeated placements",
  "tests check a 1x1 or symmetric core against stored files.",
  [MD], [("Model::operator PolytopeSoup", MD)])
p("P34", "Writing a model and reading it back restores the same model",
  "Writing a model all of whose parts are placed to the XDMF format and reading it back restores the shape of the hierarchy, every placement, extents, slice planes, cell meshes, material names and material ids. The accompanying cross-section file lists every material with its values group by group.",
  ["inputs"], "all small hierarchies and extents; HDF5/XML libraries replaced by in-memory models",
  "tests round-trip one canned model.",
  [MD], [("writeXDMFFile / readXDMFFile, getNXbyNY, mapFlatIndexToLattice2D", MD)])
p("P35", "Homogenised and chord-length data are area-weighted averages of the cell",
  "The homogenised cross section of a coarse cell is the area-weighted average of its faces' material cross sections for every group and reaction, a cell of a single material homogenises to that material, and mean chord lengths and material areas are those of the cell's faces.",
  ["inputs"], "all face areas, material assignments and cross-section values within bounds",
  "tests use the benchmark pin only.",
  [MD], [("getCoarseCellHomogenizedXSec, getMeanChordLengths, writeMaterialVolumes", MD)])
p("P36", "The C interface returns exactly what the C++ model holds, within buffer limits",
  "Every C entry point returns the same counts, ids, extents, materials, heights, face data and sorted ray intersections that the C++ model holds for the same indices, writes exactly the number of items it reports, and the unique-height lists contain each distinct (cell, height) pair once in ascending height.",
  ["inputs", "histories"], "all small models, indices and ray parameters",
  "tests/api checks a single model.",
  ["src/um2c.cpp", "include/um2c.h"], [("um2MPACT* wrappers", "src/um2c.cpp")])
p("P37", "Logging filters by level, keeps messages intact and never overruns its buffer",
  "A message is emitted exactly when its severity is enabled, contains its arguments' text in order with the configured decorations, and an error ends the process exactly when configured to. A message longer than the buffer ends the program with a failed assertion instead of writing outside the buffer.",
  ["inputs", "configurations"], "all levels, option combinations, argument kinds and message lengths up to past the buffer size",
  "tests print a few short messages and compare nothing at the buffer boundary.",
  ["include/um2/common/logger.hpp", "src/common/logger.cpp"], [("toBuffer/printMessage/setPreamble/setPostamble", "src/common/logger.cpp")])
p("P38", "Colours and numeric helper functions hold for every argument",
  "Colour construction and comparison keep the stated channels for every channel value, named colours have the channels of the web standard, and the numeric helpers (clamp, min, max, abs, copysign, rounding, in-range casts) satisfy their mathematical definition for every floating-point argument.",
  ["inputs"], "all channel values and all double values including signed zeros and infinities",
  "tests check a few values.",
  ["include/um2/common/color.hpp", "include/um2/stdlib/algorithm/clamp.hpp", "include/um2/stdlib/math/abs.hpp", "include/um2/stdlib/math/copysign.hpp", "include/um2/stdlib/math/rounding_functions.hpp", "include/um2/stdlib/math/trigonometric_functions.hpp", "include/um2/stdlib/math/roots.hpp", "include/um2/stdlib/utility/pair.hpp"],
  [("Color", "include/um2/common/color.hpp"), ("clamp/min/max/abs", "include/um2/stdlib/algorithm/clamp.hpp")])
p("P39", "Meshing-library calls arrive unchanged",
  "Every wrapper of a meshing-library function makes exactly one call, to the function of the same name, with the caller's arguments in the caller's order or the library's default for those left out. Results and lists filled in by the library reach the caller unchanged.",
  ["inputs"], "every wrapped function and every value of its arguments and results",
  "tests call about twenty of the 350 wrappers and look at the result of a few; swapped arguments of the same type or a dropped option compile.",
  ["src/gmsh/base_gmsh_api.cpp", "include/um2/gmsh/base_gmsh_api.hpp"], [("wrappers", "src/gmsh/base_gmsh_api.cpp")])
p("P40", "Material and cell groups survive CAD operations",
  "After shapes are fragmented, intersected or cut, each group holds exactly the pieces of its former members, and a piece claimed by several materials belongs to the one listed first, carrying that material's colour. Pins, pin lattices and overlaid coarse cells appear at the requested places with the requested materials, and requests that do not fit together are refused.",
  ["inputs"], "every tag, every assignment of members to groups, every split of shapes into pieces and every ring size, place and order of materials within the bounds",
  "tests run a handful of drawings; which piece ends in which group depends on overlaps, order of materials and tags that few drawings combine.",
  ["src/gmsh/model.cpp"], [("groups", "src/gmsh/model.cpp")])
p("P41", "Groups and colours stored beside a CAD file come back with it",
  "Saving a drawing with its extra information and opening it again restores every group of curves, surfaces or volumes with its name and exactly its members, and every colour of a surface or volume, although the shapes are numbered afresh. Without extra information nothing is restored, and missing files are reported.",
  ["inputs"], "every numbering of the shapes, every small subset and list lengths around the line length as members, every colour",
  "tests save one small drawing; lists around the line length, gaps in the numbering and several colours are not tried.",
  ["src/gmsh/io.cpp"], [("info files", "src/gmsh/io.cpp")])
p("P42", "Requested mesh sizes and kinds reach the mesher",
  "The mesh size asked for in a material follows from its total cross section and the target ratio of mean free path to chord length, and grows linearly with the distance from the fuel, or from the absorber's own edge, beyond the threshold. A generated mesh has the requested shape and order of elements whatever was generated before, and requests that do not fit the drawing are refused.",
  ["inputs", "histories"], "every cross section, target, threshold, scale and distance within the bounds, every order of groups, every pair of kinds of mesh in succession",
  "no test meshes with these sizes; the size at a point is the result of an expression text that only the mesher evaluates.",
  ["src/gmsh/mesh.cpp"], [("size fields", "src/gmsh/mesh.cpp")])
p("P43", "Imported cell meshes land in their cell with their materials",
  "Importing one mesh file into a grid of coarse cells gives each cell exactly the faces of its set, measured from the cell's lower left corner, with the material of the set each face belongs to, looked up by name. A face without a material or a material that the model does not have is refused.",
  ["inputs"], "every cell size and place, every kind of face, order of cells, and assignment of materials to faces within the bounds",
  "tests import one file with one kind of face; the mapping from set names to cells and materials depends on the order of sets, materials and faces.",
  ["src/mpact/model.cpp", "src/mesh/polytope_soup.cpp"], [("import", "src/mpact/model.cpp")])
p("P44", "Input deck and cross-section files state the model's data",
  "The files written beside a model for the transport code name the case and the model file, list every material in order with its density, temperature, isotopes and number densities, and give every group's cross sections. Each section starts on a line of its own, and the ray spacing is a quarter of the representative mean chord length.",
  ["inputs", "configurations"], "every number density, cross section and cell width, every number of materials and isotopes and every form of file name within the bounds",
  "no test reads these files back; a swapped column or a missing line end only shows in the transport code.",
  ["src/mpact/model.cpp"], [("input deck and cross-section writers", "src/mpact/model.cpp")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
