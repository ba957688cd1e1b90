prop("C01", "Tolerant comparisons of reals are a consistent order",
     "For all real numbers, the library's tolerant equality is reflexive, symmetric, and true exactly when the difference is within the relative (or, near zero, absolute) tolerance it is given; exactly one of tolerantly-equal, tolerantly-lower and tolerantly-greater holds, and the lower-or-equal and greater-or-equal tests are the corresponding unions. Rounding and ceiling helpers return the integer they name for every argument.",
     ["inputs"], "all pairs of real numbers and all positive tolerances", "The tests sample a handful of literals; the guarantee is for all reals, including values of different magnitude and sign around the tolerance threshold.",
     ["src/core/math/util/Real.h", "src/core/math/util/Real.cpp"], [("relative/absolute tolerance comparison", "src/core/math/util/Real.cpp equal, lower, greater, lowerEqual, greaterEqual, round, ceil")])
prop("C02", "Cartesian vectors behave as three-dimensional vectors",
     "Addition, subtraction, scaling, dot and cross products, norms, normalisation, rotation, cyclic permutation, angle, equality, order and collinearity/coplanarity tests of Cartesian vectors give the mathematically defined result for every vector. The in-place and the value-returning forms agree, and operands other than the target are never modified.",
     ["inputs"], "all vectors of real (and integer) components, all scalars, axes and angles", "The tests check a few concrete vectors; the algebraic laws are universally quantified over the reals.",
     ["src/core/math/vector/Cartesian.h", "src/core/math/vector/Cartesian.hpp"], [("component-wise operators and products", "src/core/math/vector/Cartesian.hpp")])
prop("C03", "Boxes stay ordered and form the containment/intersection lattice",
     "Whatever corners a box is built from, its minimum corner is component-wise not above its maximum corner; growing it by a point or box yields the smallest box enclosing both, and containment, intersection, equality and strict-surrounding tests agree with the point sets. Classification as point, line, surface or volume, and the corners, edges and faces derived from a box, match its degenerate axes.",
     ["inputs"], "all pairs of corner points, all points, all boxes, including degenerate ones", "Tests build a few boxes; corner orderings, degeneracies and relative positions form an unbounded input space.",
     ["src/core/geometry/Box.h", "src/core/geometry/Box.hpp"], [("corner normalisation", "src/core/geometry/Box.hpp set, operator<<"), ("set operations", "src/core/geometry/Box.hpp isInnerPoint, intersect, isIntersected")])
prop("C05", "Grids are built and edited without losing or moving positions",
     "A grid built from a box and a cell count or step, or from given positions, has evenly spaced (or exactly the given) positions along each axis starting at the lower corner, covering the box, with no superfluous cell; copies and assignments have the same positions. Appending or prepending steps, enlarging a boundary and scaling leave every other position and axis as specified: existing positions are kept, new cells follow outwards with the requested (or boundary) size and cover the padding, and scaling multiplies every position.",
     ["inputs"], "all boxes, cell counts, steps and position lists of any length, all paddings and cell sizes", "Tests build a few small grids; the number of positions and their spacing are unbounded inputs.",
     ["src/core/geometry/Grid.h", "src/core/geometry/Grid.hpp"], [("construction from box", "src/core/geometry/Grid.hpp Grid(BoxRD, ...)"), ("edits", "src/core/geometry/Grid.hpp setAdditionalSteps, enlargeBound, applyScalingFactor")])
prop("C06", "A grid locates every coordinate in the right cell",
     "For every increasing grid and every coordinate, the cell reported contains the coordinate (or its nearest node, with rounding), and cell plus fraction reconstructs the coordinate; coordinates within tolerance of a node snap to it with zero fraction, and coordinates off the grid are reported as such with the outermost cell. Multi-axis queries combine the per-axis answers, and boxes of cell indices map to the positions of their nodes.",
     ["inputs"], "all grids of any number of positions and all coordinates", "Tests locate a few coordinates in uniform grids; grids and coordinates are unbounded inputs, with rounding and tolerance boundary cases.",
     ["src/core/geometry/Grid.h", "src/core/geometry/Grid.hpp"], [("cell search", "src/core/geometry/Grid.hpp getCellPair, getNaturalCell, getCVecI3Fractional, getCell, getStep")])
prop("C07", "Grid queries report its true extent, regularity, steps and contents",
     "A grid's bounding box spans its first and last positions; its minimum step is attained and no step is smaller; it is regular along an axis exactly when all steps of that axis agree, and cartesian exactly when all steps of all axes agree. The positions returned for a range are exactly the grid's own positions inside it, in increasing order without repetition, and the cell centres and nodes inside a box are those of its cells and nodes, each once.",
     ["inputs"], "all grids of any number of positions, all ranges and boxes", "Tests query a few grids; steps that differ in a single place anywhere in a long axis are never sampled.",
     ["src/core/geometry/Grid.h", "src/core/geometry/Grid.hpp"], [("queries", "src/core/geometry/Grid.hpp isRegular, isCartesian, getMinimumSpaceStep, getPosInRange, getCenterOfCellsInside, getPos")],
     note="Extent, minimum step, regularity and cartesian tests, and soundness of range queries are proved for all inputs; completeness of range queries is bounded to three positions per axis, and the lists of cell centres and nodes are only executed natively on bounded grids (not counted as proved).")
prop("C09", "Fractional lattice positions classify and reduce consistently",
     "A lattice position of cell indices and fractions in [0,1] is classified as node, edge, face or cell by its number of non-negligible fractions, with the axis of the edge or the normal of the face as direction. Reducing its range moves, one at a time, the fraction nearest to a node onto that node until the requested range is reached; normalising moves full fractions to the next cell; joining and moving positions change only the fractions they are meant to, and queries never change the position.",
     ["inputs"], "all cell indices and all fractions in [0,1]", "Tests use a handful of fractions; ties, negligible and full fractions per axis combine into many unsampled cases.",
     ["src/core/math/vector/CVecI3Fractional.h", "src/core/math/vector/CVecI3Fractional.cpp"], [("range classification and reduction", "src/core/math/vector/CVecI3Fractional.cpp getRangeBase, getDirBase, reduceTopology, reduceCoords, move, join")])
prop("C16", "Fixed-size matrices obey matrix algebra",
     "Sums, differences, scaling, products, transposes, matrix-vector products, determinants and row/column copies of fixed-size matrices are the mathematically defined ones for every entry, copies are independent, and operands other than the target are never modified. An invertible matrix times its computed inverse is the identity, whatever pivoting it needs; equality holds exactly when all entries agree up to rounding, and order is lexicographic.",
     ["inputs"], "all entries of the matrices of sizes 1x1 to 4x4 used by the library", "Tests check a few literal matrices; entries are unbounded and pivot patterns are many.",
     ["src/core/math/matrix/Static.hpp", "src/core/math/matrix/Matrix.hpp"], [("element-wise and product operators", "src/core/math/matrix/Static.hpp"), ("LU factorisation with pivoting", "src/core/math/matrix/Matrix.hpp factorizeLU_, invertFactorized_")],
     note="Proved for every entry at the listed shapes (templates instantiated at the sizes the library uses); the 4x4 inverse is only executed natively on bounded entries.")
prop("C17", "Run-time sized matrices: arithmetic, submatrices, sorting, inversion",
     "Run-time sized matrices copy, assign, add, scale, fill, multiply, transpose, reshape, cut out rows and columns, convolve and form Kronecker products exactly as defined on entries, without touching memory outside the matrix or changing their operands. Sorting rows yields the same rows in order of the given columns; removing repetitions keeps each distinct row once; merging and searching sorted rows agree with their definition; QR factorisation and inversion multiply back to the original.",
     ["inputs"], "all matrices of any size and entries", "Tests exercise a few shapes; shape combinations, repeated rows and one-row or one-column matrices are unsampled.",
     ["src/core/math/matrix/Dynamic.hpp", "src/core/math/matrix/Matrix.hpp"], [("element storage and arithmetic", "src/core/math/matrix/Dynamic.hpp"), ("row sorting", "src/core/math/matrix/Matrix.hpp sortRows, QSRows_, partitionRows_")],
     level="other", note="Bounded: the verifier discharges the contracts for every entry at stated small shapes, and the same contracts are executed natively under AddressSanitizer on random matrices up to the stated sizes; not counted as a proof for all sizes.")
prop("C10", "Groups keep, find, number and remove their objects by identifier",
     "A group holds the objects added to it, in order, shared with any other group that holds them; a group of identified objects finds each by its identifier, rejects zero and repeated identifiers with an error naming the identifier, and reports absent ones as an error. New objects are numbered after all present identifiers; removal, by position or identifier, takes out exactly the chosen objects, keeps the others in order and lets identifiers be reused; choosing by position or type yields exactly those objects. Copies, assignments and clones are independent, and no object is released while a group holds it.",
     ["inputs", "histories"], "all identifiers and all sequences of additions, removals, copies and queries", "The tests add a few objects in one order; identifier patterns, repeated positions, ownership across copies and histories are unbounded.",
     ["src/core/group/Group.h", "src/core/group/Group.hpp", "src/core/group/Identifiable.h", "src/core/group/Identifiable.hpp", "src/core/group/Cloneable.hpp", "src/core/class/Identification.h"],
     [("storage, choice and removal", "src/core/group/Group.hpp add, get, getOf, getOfOnly, remove"), ("identifier map", "src/core/group/Identifiable.hpp add, addId, getId, existId, removeId, postprocess_")],
     level="other", note="Identifications and identifiable objects are proved for all values; groups are verified for all identifiers but a bounded number of objects (up to three), stated per driver, and the bounded obligations are not counted as proved. Memory releases are part of the obligations.")
prop("C11", "Coordinate groups find, add and keep coordinates by position",
     "A coordinate group finds a coordinate at a position exactly when it holds one there, for real positions (equal or clearly different) and for cells, and adds a new coordinate only where there was none, unless overlap is asked for, numbering it after those present. After removal, assignment, clearing or scaling (by any factor), lookup by position agrees with the coordinates actually held. Coordinates of the same type are equal exactly when number, position and their conformal or relative data are; coordinates of different types are different.",
     ["inputs", "histories"], "all positions, numbers, factors and sequences of additions, removals and scalings", "The tests look up a few literal positions; the index kept beside the list must agree with it after every history.",
     ["src/core/geometry/coordinate/Group.h", "src/core/geometry/coordinate/Group.hpp", "src/core/geometry/coordinate/Coordinate.h", "src/core/geometry/coordinate/Conformal.cpp", "src/core/geometry/coordinate/Relative.cpp"],
     [("position index", "src/core/geometry/coordinate/Group.hpp addPos, getPos, getAllInPos, remove, applyScalingFactor, postprocess_"), ("equality", "src/core/geometry/coordinate Coordinate.h, Conformal.cpp, Relative.cpp operator==")],
     level="other", note="Equality and copies of coordinates are proved for all values; groups are verified for all positions but a bounded number of coordinates (up to three), not counted as proved.")
prop("C18", "Local axes rotate and displace rigidly",
     "For all Euler angles and origins, the transformation of local axes is the product of the rotations about z, x and z again, orthonormal and orientation keeping; converting a vector to global axes rotates it and then displaces it to the origin, and converting a tensor rotates it on both sides. Default axes are the global ones, and conversion never changes the axes or its argument.",
     ["inputs"], "all Euler angles, origins, vectors and tensors", "The tests have no case for it beyond a literal rotation; the laws are universally quantified over angles.",
     ["src/core/math/axis/Local.h", "src/core/math/axis/Local.cpp"], [("transformation", "src/core/math/axis/Local.cpp getTransformationMatrix, convertToGlobal")])
prop("C22", "Output request domains store, copy, compare and classify what is asked",
     "A domain reports exactly the time, frequency and transfer function data it was given (a transfer function file only when one is used); copies and assignments request the same, and changing the final time or sampling period changes nothing else. Its type names exactly the kinds of domain requested, and two domains are equal exactly when they request the same.",
     ["inputs"], "all times, frequencies, flags and file names", "Tests use one or two domains; each of the eleven fields and eight kinds must be kept and compared.",
     ["src/core/outputRequest/Domain.h", "src/core/outputRequest/Domain.cpp"], [("storage, comparison and classification", "src/core/outputRequest/Domain.cpp Domain, operator=, operator==, getDomainType")])
prop("C12", "Elements describe their coordinates, sides, extent and data truthfully",
     "Every element returns its coordinates in the given order, the vertices among them and, for each side, its coordinates and vertices; quadratic elements linearize to their vertices. Bounds are those of the outermost coordinates of the element or side; areas, normals and volumes are those of its geometry; rectangular, regular, curved and planar tests, face lookup, and points inside tetrahedra, agree with the positions. Copies are equal and independent; elements differ when type, number, layer, material or a coordinate does. Conformal lines take only conformal coordinates.",
     ["inputs"], "all coordinate positions, for nodes, lines, triangles, quadrilaterals, tetrahedra, hexahedra (linear and quadratic) and polygons", "Tests build two or three elements with literal positions; most sides, areas and bounds are never queried.",
     ["src/core/geometry/element/Element.h", "src/core/geometry/element/Element.hpp", "src/core/geometry/element/Line2.hpp", "src/core/geometry/element/Quadrilateral4.hpp", "src/core/geometry/element/Triangle3.cpp", "src/core/geometry/element/Triangle6.cpp", "src/core/geometry/element/Tetrahedron4.cpp", "src/core/geometry/element/Tetrahedron10.cpp", "src/core/geometry/element/Hexahedron8.hpp", "src/core/geometry/element/Surface.hpp", "src/core/geometry/element/Volume.hpp", "src/core/geometry/element/Polygon.cpp", "src/core/geometry/element/Polyhedron.cpp", "src/core/geometry/element/LineConformal.cpp"],
     [("sides and bounds", "src/core/geometry/element/Element.hpp getSideCoordinates, getSideVertices, getBound, getBoundOfFace"), ("areas and volumes", "src/core/geometry/element Triangle3.cpp, Tetrahedron4.cpp, Hexahedron8.hpp"), ("equality", "src/core/geometry/element/Element.hpp operator==")],
     note="Polygons (five and six vertices), points inside tetrahedra (six tetrahedra, every point) and the lexicographic order of vertices (a grid of 3x3x3 points) are bounded, not counted as proved. Tetrahedra lying in an oblique plane are outside what is stated.")
prop("C04", "A chopped box is tiled by its pieces",
     "Chopping a box by a grid or by a step yields boxes that lie within it, as flat as it is, that cover it and do not overlap; no piece crosses a plane of the grid, none is longer than the step, and there is exactly one piece per grid cell the box reaches into (one per unit cell for integer boxes chopped by default), whether or not a grid plane lies in the box.",
     ["inputs"], "all boxes, grids and steps (grid positions and box limits equal or further apart than the grid's tolerance)", "Tests count the pieces of one integer box; where the box starts and ends between grid planes is never varied.",
     ["src/core/geometry/Box.h", "src/core/geometry/Box.hpp"], [("chopping", "src/core/geometry/Box.hpp chop(grid), chop(step)")],
     level="other", note="Bounded: for the grid, one axis is symbolic (any three positions, any box) and the others concrete; for steps, all integer boxes within stated small ranges. The same contracts run natively on wider ranges. Not counted as proved.")
prop("C15", "Elements convert faithfully between positions and grid cells",
     "A node, axis-aligned segment, rectangle or box whose corners are nodes of the grid (within its tolerance) is structured; any other element is not. Converting a structured element to cells, or cells to positions, gives an element of the same kind, number, layer and material with the coordinates of the given group that have the same numbers, in the same order; a number missing from the group, or a coordinate at another place, is reported as an error naming it. Elements made from a box take its corners in order, reusing the coordinates already there; boxes of another shape are refused.",
     ["inputs"], "all elements on and off a grid, and all coordinate groups", "The tests convert no element; every corner can be missing, displaced or reordered.",
     ["src/core/geometry/element/Element.hpp", "src/core/geometry/element/Node.hpp", "src/core/geometry/element/Line2.hpp", "src/core/geometry/element/Quadrilateral4.hpp", "src/core/geometry/element/Hexahedron8.hpp", "src/core/geometry/coordinate/Conformal.cpp", "src/core/geometry/coordinate/Relative.cpp"],
     [("structured test", "src/core/geometry/element/Element.hpp vertexInCell, vertexInBound"), ("conversion", "src/core/geometry/element/Element.hpp vertexToStructured, vertexToUnstructured"), ("elements from boxes", "src/core/geometry/element Node.hpp, Line2.hpp, Quadrilateral4.hpp, Hexahedron8.hpp constructors from a box")],
     level="other", note="Bounded: one grid and every shape of element on it, with each corner displaced, missing or elsewhere; conformal and relative fractions are any reals. The same contracts run natively on other places and sizes. Not counted as proved.")
prop("C14", "Meshes own what they hold; copies and conversions are faithful",
     "A mesh holds its own copies of the coordinates, elements and layers it is made from: each element refers to the mesh's coordinates and layers of the same numbers and keeps its material, so that the originals may change or go. Copies, clones and assigned meshes are the same mesh, independently, including grid and terminations. Converting between structured and unstructured meshes keeps numbers, coordinates, layers and materials and leaves the mesh unchanged, dropping only elements with no counterpart. The extent of a mesh is that of its elements or grid, scaling scales it, and reassigning makes groups of elements refer to the mesh's own.",
     ["inputs", "histories"], "all meshes, and all changes to the originals afterwards", "The tests build one small mesh and never modify or release the originals; dangling references show up only later.",
     ["src/core/geometry/mesh/Mesh.h", "src/core/geometry/mesh/Unstructured.h", "src/core/geometry/mesh/Unstructured.cpp", "src/core/geometry/mesh/Structured.h", "src/core/geometry/mesh/Structured.cpp", "src/core/geometry/mesh/Geometric.cpp", "src/core/geometry/BoundTerminations.hpp"],
     [("ownership and reassignment", "src/core/geometry/mesh/Unstructured.h, Structured.h constructors, operator=, reassignPointers"), ("conversion", "src/core/geometry/mesh/Unstructured.cpp getMeshStructured, Structured.cpp getMeshUnstructured"), ("terminations", "src/core/geometry/BoundTerminations.hpp")],
     level="other", note="Bounded: meshes of four coordinates, three elements and two layers, with releases of memory checked; the same contracts run natively with other numbers, layers and materials. Not counted as proved.")
prop("C13", "Groups of elements choose, bound and change exactly the elements asked for",
     "Choosing the elements of a group by material, layer, both, coordinate or extent gives exactly the elements that have it, each once, in order and the same objects; removal by material takes out exactly those. Separating by layers, and looking up by vertices in any order, finds every element. The extent of a group, or of faces, is that of the outermost coordinates of all of them, real and integer; the closest vertex is one that no other is closer than. Setting material or layer changes exactly the elements asked for. Reassigning coordinates, layers or materials to another group uses the ones with the same numbers and reports missing ones; none stays none.",
     ["inputs"], "all groups of elements, with any materials, layers, numbers and positions", "Tests query one or two groups; combinations of shared, missing and repeated materials, layers and coordinates are unsampled.",
     ["src/core/geometry/element/Group.h", "src/core/geometry/element/Group.hpp", "src/core/geometry/element/Element.cpp"],
     [("choice", "src/core/geometry/element/Group.hpp getMatId, getLayerId, getMatLayerId, getCoordId, getInsideBound, separateByLayers, getIndexByVertexId"), ("extent and closest vertex", "src/core/geometry/element/Group.hpp getBound, getClosestVertex"), ("changes", "src/core/geometry/element/Group.hpp setModel, setLayer, reassignPointers, removeMatId")],
     level="other", note="Bounded: three or four elements, with any numbers of materials, layers and vertices and any positions along an axis. The same contracts run natively. Not counted as proved. linearize() of a group does not compile for any type of element, so nothing is stated about it.")
prop("C08", "Polynomial algebra and simplex interpolation and integration are exact",
     "The value of a polynomial is the sum of its monomials; derivatives, products in the same or separate variables, quotients by a number and removal of null monomials have exactly the values they should, and copies are equal. On a line, triangle or tetrahedron of any order, nodes are all index combinations, vertices and sides list their nodes in order; each Lagrange polynomial is one at its node, zero at the others, they add up to one anywhere, their derivatives are derivatives, and the weights integrate every polynomial up to the order.",
     ["inputs"], "all coefficients, powers, points and orders", "Tests compare a few sums and one order; exactness is stated for every monomial, node and point.",
     ["src/core/math/function/Polynomial.h", "src/core/math/function/Polynomial.hpp", "src/core/math/simplex/Simplex.cpp", "src/core/math/simplex/Line.hpp", "src/core/math/simplex/Triangle.hpp", "src/core/math/simplex/Tetrahedron.hpp"],
     [("polynomial algebra", "src/core/math/function/Polynomial.hpp"), ("nodes and sides", "src/core/math/simplex Line.hpp, Triangle.hpp, Tetrahedron.hpp constructors, PMatrix, RMatrix"), ("interpolation and weights", "src/core/math/simplex/Simplex.cpp silvesterPol, lagrangePolynomials, integrate")],
     level="other", note="Bounded: polynomials of up to four monomials with any coefficients; lines of order 1 to 4, triangles of order 1 to 3 and tetrahedra of order 1 and 2 evaluated exactly by the verifier, at any point for the partition of unity; higher orders are executed natively. Not counted as proved.")
prop("C19", "Functions of time and magnitudes evaluate, copy and compare truthfully",
     "A Gaussian is its envelope, centred at its delay, times its carrier; a band limited signal is a modulated sinc in a Gaussian envelope and refuses limits that are not positive and increasing. An interpolated function takes the given values at the given points, straight segments between them and the end values beyond, whatever their order, also when read from a file; without points it reports an error. Functions are equal exactly when kind and data are. Magnitudes evaluate their function; copies, clones and assigned magnitudes are equal and independent, also without function; sampled magnitudes take the sampled values.",
     ["inputs"], "all parameters, arguments, points and files", "Tests evaluate a few points of one function; copies that share or lose the function, and arguments between and beyond points, are unsampled.",
     ["src/core/math/function/Gaussian.cpp", "src/core/math/function/BandLimited.cpp", "src/core/math/function/LinearInterpolation.hpp", "src/core/source/magnitude/Magnitude.cpp", "src/core/source/magnitude/Numerical.cpp"],
     [("values", "src/core/math/function Gaussian.cpp, BandLimited.cpp, LinearInterpolation.hpp operator()"), ("ownership", "src/core/source/magnitude/Magnitude.cpp Magnitude, operator=")],
     note="Interpolated functions are verified for up to three points with any coordinates, and reading from and sampling to files is only executed natively; these are bounded, not counted as proved. The sign of the phase of getFourier is not stated.")
prop("C20", "Sources keep their data and their own magnitude; plane waves are transverse",
     "A plane wave keeps the direction and polarization it is given, as vectors or angles, and refuses null or not perpendicular ones; its electric field is its polarization times the magnitude at each time, its magnetic field direction times electric field over the vacuum impedance; its angles are those of its vectors. Random plane waves keep their number and variation, dipoles their dimensions, generators and sources on lines their type and hardness. Copies, clones and assigned sources have the same data and elements and a magnitude of their own; setting or adding elements changes nothing else; converting to a sampled magnitude happens once.",
     ["inputs", "histories"], "all directions, polarizations, angles, magnitudes, and copies and releases", "Tests check the angles of six directions; fields, errors, copies and ownership of the magnitude are untested.",
     ["src/core/source/Source.h", "src/core/source/Source.cpp", "src/core/source/PlaneWave.cpp", "src/core/source/Dipole.cpp", "src/core/source/Generator.cpp", "src/core/source/OnLine.cpp"],
     [("fields and angles", "src/core/source/PlaneWave.cpp init_, getElectromagneticField, cartesianToPolar"), ("ownership", "src/core/source/Source.cpp Base, operator=")],
     note="Conversion of a source to a sampled magnitude goes through files and is executed natively only (bounded).")
prop("C23", "Port weights are those of the mode, relative to the port",
     "A coaxial port weighs radially, over the distance and the logarithm of the ratio of radii, when excited by voltage, and around its origin, over the circumference, by current; taking new elements centres it on them, keeping the ratio of radii. A rectangular waveguide weighs as its TE or TM mode, relative to its own corner and size, with no weight along its walls. Ports out of a plane of constant z, without elements or without mode are refused, leaving them as they were. Copies and assigned ports keep dimensions, mode, elements and a magnitude of their own; the normal is that of the elements.",
     ["inputs"], "all origins, radii, rectangles, positions and modes", "Tests query two points of one port each, at the origin; other modes, positions, origins and walls are unsampled.",
     ["src/core/source/port/Port.cpp", "src/core/source/port/TEM.cpp", "src/core/source/port/TEMCoaxial.cpp", "src/core/source/port/Waveguide.cpp", "src/core/source/port/WaveguideRectangular.cpp"],
     [("weights", "src/core/source/port TEMCoaxial.cpp, WaveguideRectangular.cpp getWeight"), ("validation", "src/core/source/port Waveguide.cpp Waveguide, TEMCoaxial.cpp set")],
     note="Modes of rectangular waveguides are verified up to 2,2 for any rectangle (far walls for two rectangles): bounded, not counted as proved. The doubles nearest to multiples of pi/2 stand for them.")
prop("C21", "Physical models keep, validate, derive and copy their data",
     "Every physical model keeps the number, name and parameters given: boundaries and predefined models, gaps, multiports, wires, multilayers, surface impedances and volume materials. Copies and clones have equal data and outlive the original; wires with ends own their multiports, which are swapped and replaced one by one. Null permittivity or permeability of a layer, more than one set of fitting options, magnetic conductivity of dispersive materials, and wrong or missing files are refused. Absolute constants, impedance and admittance, the conductivity beside the poles, and tensors of crystals and ferrites in global axes have their physical values; models are found by number.",
     ["inputs", "histories"], "all parameters, angles, poles, and copies and releases", "Tests build a few models and read some parameters back; copies, ends of wires, poles, tensors and refusals are untested.",
     ["src/core/physicalModel/PhysicalModel.cpp", "src/core/physicalModel/bound", "src/core/physicalModel/predefined", "src/core/physicalModel/gap/Gap.cpp", "src/core/physicalModel/multiport", "src/core/physicalModel/wire", "src/core/physicalModel/surface", "src/core/physicalModel/volume"],
     [("ownership of the ends of wires", "src/core/physicalModel/wire/Extremes.cpp"), ("validation", "src/core/physicalModel/surface/Multilayer.cpp, SIBCFile.cpp, volume/Dispersive.cpp constructors"), ("derived quantities", "src/core/physicalModel/volume Classic.cpp, AnisotropicCrystal.cpp, AnisotropicFerrite.cpp, PML.cpp")],
     note="Multilayers and surface impedances are verified with two layers or poles, dispersive materials with up to two poles; files are only used natively.")
prop("C24", "Output requests keep their data; copies of a simulation are self-contained",
     "An output request keeps its name, type, domain and elements, bulk currents their direction and step, far fields their angles; renaming it or setting or adding elements changes nothing else. Bulk current requests over elements with a material are refused, and no others. Copies, clones and groups of requests are equal and independent. A copied or assigned simulation has the same solver, models, mesh, sources and requests, all its own: its elements refer to its models, coordinates and layers, and its sources and requests to its elements. It outlives the original, releases once everything it held, also when assigned to, and absent parts stay absent.",
     ["inputs", "histories"], "all data, materials and combinations of parts, and copies, assignments and releases", "No test copies or assigns a simulation; requests are read back once.",
     ["src/core/outputRequest/OutputRequest.h", "src/core/outputRequest/OutputRequest.hpp", "src/core/outputRequest/OutputRequest.cpp", "src/core/outputRequest/BulkCurrent.cpp", "src/core/outputRequest/FarField.cpp", "src/core/Data.cpp", "src/core/Data.h", "src/core/solver/Info.h"],
     [("requests", "src/core/outputRequest/OutputRequest.hpp, BulkCurrent.cpp, FarField.cpp"), ("copies of a simulation", "src/core/Data.cpp Data, operator=")],
     note="Simulations are verified for a mesh of three elements with any combination of parts and any data, and settings of the solver natively only; these are bounded, not counted as proved. A copy of sources or requests without a mesh is not stated.")
prop("C25", "Settings give back what was put into them",
     "A tree of settings gives back every member under the name or position it was added with, after additions and erasures in any order; lists keep their order. Merging keeps the members of both sides, those of the right winning, and merges nested groups by the same rule. Copies are equal and independent, and a part of a tree can be assigned or added to the whole. Each value is of one kind; numbers, flags and texts read back unchanged; an integer is read from a number as its floor, and what is no number or does not fit is refused, as are missing names, positions and values.",
     ["inputs", "histories"], "all trees, names, values and sequences of additions, erasures, merges and assignments", "Tests print one tree; erasing, merging, copying into itself and the exactness of numbers are untested.",
     ["src/core/argument/Object.h", "src/core/argument/Object.hpp", "src/core/argument/StringParser.h"],
     [("members by name and position", "src/core/argument/Object.hpp addMember, eraseMember, operator()"), ("merging and copies", "src/core/argument/Object.hpp operator=, operator+=, addObject")],
     note="Trees with up to three members are verified for all sequences of operations stated in each driver, with names of any order; deeper trees and texts of numbers are executed natively. These are bounded, not counted as proved.")
prop("C26", "A command line means what was asked for, however it is written",
     "Options take the values given to them by letter, long name, unambiguous abbreviation, glued to the letter or after an equals sign, in any order; positions take the remaining values in theirs; flags count or switch. Absent arguments get their defaults, and only those; absent required ones, values outside the choices, too few or too many values and ambiguous abbreviations are refused. Groups keep theirs under their name, and of exclusive ones at most one is accepted. Unknown arguments are refused, or returned in order when asked for. Parsing twice gives the same; a refused declaration leaves the others as they were.",
     ["inputs", "histories"], "all declarations and ways of writing the same command line", "Tests parse a handful of command lines once; abbreviations, groups, repeated parses and refused declarations are untested.",
     ["src/core/argument/Parser.cpp", "src/core/argument/Group.cpp", "src/core/argument/Option.cpp", "src/core/argument/Positional.cpp", "src/core/argument/Argument.cpp", "src/core/argument/OptionBase.cpp", "src/core/argument/Switch.cpp", "src/core/argument/MultiSwitch.cpp", "src/core/argument/MultiOption.cpp", "src/core/argument/MultiPositional.cpp"],
     [("parsing", "src/core/argument/Parser.cpp parseKnownArgs, parseArgs"), ("groups", "src/core/argument/Group.cpp parse, check"), ("help and usage", "src/core/argument/Parser.cpp printUsage, printHelp")],
     level="other", note="Bounded: declarations and command lines are chosen and executed natively; no obligation is discharged for all inputs, since the code is made of text streams, sets and maps of strings.")
prop("C27", "File names are taken apart correctly; folders are made and removed alone",
     "The folder, base name, extension and name of a project's file are those of its path, whatever points and slashes it has, and asking for them leaves it unchanged; the folder and base name put together are the file. A relative path starts below the folder. Files and folders exist exactly when they do, and what does not exist is neither. Making, changing and removing folders affects the one named, also when the name has blanks, quotes or other characters of the shell, and nothing else; removing what is not there does no harm.",
     ["inputs"], "all file names and folders", "No test uses names with points in folders, blanks or quotes.",
     ["src/core/filesystem/Project.cpp", "src/core/filesystem/Project.h"],
     [("names", "src/core/filesystem/Project.cpp getFolder, getBasename, getExtension, removeExtension, relativeTo"), ("folders", "src/core/filesystem/Project.cpp makeDir, rmDir, isFolder")],
     level="other", note="Bounded: names and folders are chosen and executed natively, as an unprivileged user within a folder of its own; the code calls the shell and the file system, so no obligation is discharged for all inputs.")
prop("C28", "A project file in JSON becomes the simulation it describes, or is refused",
     "Reading a project gives the solver with its settings, all materials, layers, coordinates, elements, grid, connectors, sources and output requests of the file, each with its number, name, kind, parameters and order, whatever order, blanks and numbers it is written with; elements refer to the materials and layers of the simulation, sources and requests to its elements. Geometry, with ports and boxes, is scaled as asked. Angles in degrees become radians. Files of another version, cut, or with unknown kinds, wrong numbers or missing parameters are refused; without complete geometry there is no mesh, source nor request.",
     ["inputs"], "all projects, and all ways of writing them", "The tests only read five files without error; their grids are of an old format, so that no mesh, source or request of theirs is ever read.",
     ["src/parser/json/Parser.cpp", "src/parser/json/Parser.h", "src/core/parser/Parser.cpp"],
     [("reading", "src/parser/json/Parser.cpp Parser::read"), ("geometry", "src/parser/json/Parser.cpp readGeometricMesh, readGrids, readElements"), ("sources and requests", "src/parser/json/Parser.cpp readSources, readOutputRequests")],
     level="other", note="Bounded: projects are generated and read natively, with addresses checked; the parser works on text streams and a general JSON library, so no obligation is discharged for all inputs. Materials read from files of their own are part of C21.")
prop("C29", "An STL file becomes its triangles, layer by layer, or is refused",
     "Reading an STL file gives a mesh of one perfect conductor with a layer for each solid, in order, with the name of the solid, whatever word it is and also when it is missing; each facet is a triangle of the layer of its solid whose vertices are at the three written places, whatever blanks and number formats are used. Numbers of layers, triangles and coordinates do not repeat, coordinates of the triangles belong to the mesh and there are no others. Files with facets that do not have three vertices of three numbers, or that are cut within one, are refused.",
     ["inputs"], "all files", "Tests read files of a single solid and only count elements and coordinates.",
     ["src/parser/stl/Parser.cpp"],
     [("reading", "src/parser/stl/Parser.cpp Parser::read")],
     level="other", note="Bounded: files are generated and read natively, with addresses checked; the parser works on text streams, so no obligation is discharged for all inputs.")
prop("C30", "Files written for visualisation show what the simulation has",
     "Exporting a simulation to VTK writes a collection with one file for each combination of material and layer that has elements, each source and output request, each side of the grid with a boundary, and the grid; names of parts are theirs and each part has a file of its own, also when names are equal or have slashes or characters of XML. Each file has exactly the elements of its part, with their kinds and their vertices in order at their places; points, connections and offsets agree with the announced numbers. Exporting does not change the simulation, and doing it again gives the same files.",
     ["inputs"], "all simulations", "No test exports anything.",
     ["src/exporter/vtk/Exporter.cpp", "src/exporter/vtk/Exporter.h", "src/core/exporter/Exporter.cpp"],
     [("parts", "src/exporter/vtk/Exporter.cpp writeMesh_"), ("files", "src/exporter/vtk/Exporter.cpp writeFile_, getPoints_, writeCells_"), ("grid and boundaries", "src/core/exporter/Exporter.cpp getGridElems, getBoundary")],
     level="other", note="Bounded: simulations are generated, exported and the files read back natively, with addresses checked; the exporter writes text streams, so no obligation is discharged for all inputs.")
prop("C31", "Samples, averages, transforms and spherical vectors are exact",
     "For any number of samples, linear and logarithmic ranges have as many as asked for, evenly spaced (in exponent) from one end to the other; sums and means are of all the values, mean differences those of the ends shared out, and the discrete time Fourier transform at any frequency is the mean of the samples turned back by their phase, times their span. Spherical coordinates of a vector have its length and lead back to it, and those of a direction lead to the unit vector there; a field in spherical components keeps each of them along the radial, polar and azimuthal directions.",
     ["inputs"], "all ends, counts, values, frequencies, vectors and directions", "Tests transform one signal and convert one vector; the laws are universally quantified over lengths and values.",
     ["src/core/math/util/SpaceGenerator.hpp", "src/core/math/util/Statistic.hpp", "src/core/math/util/DTFT.cpp", "src/core/math/vector/Spherical.cpp"],
     [("samples and averages", "src/core/math/util SpaceGenerator.hpp linspace, logspace; Statistic.hpp sum, mean, meanDifference"), ("transform", "src/core/math/util/DTFT.cpp getDTFT"), ("coordinates", "src/core/math/vector/Spherical.cpp operator=, convertToCartesian, convertSphericalVectorField")])
prop("C32", "Neighbours of an element are those that share its faces and vertices",
     "In the graph of a mesh the neighbour of a volume by one of its faces is the volume that has the same face, if any, with the number it has there; the surfaces and lines of a face or segment are those with its vertices, in either orientation. The inner face of a surface is the face of a volume whose side normal agrees with that of the surface, or the only one; surfaces without volumes have none. Vertices have all the elements around them and elements all those that share a vertex with them; components are connected, apart from each other and complete. Copies, also assigned, are the same graph, of their own.",
     ["inputs", "histories"], "all meshes of volumes, surfaces and lines, and copies", "Tests build two graphs of one mesh and check a couple of neighbours; copies, surfaces, orientation and components are untested.",
     ["src/core/geometry/graph/Connectivities.h", "src/core/geometry/graph/Connectivities.cpp", "src/core/geometry/graph/Graph.h", "src/core/geometry/graph/Graph.hpp", "src/core/geometry/graph/Vertices.h", "src/core/geometry/graph/Vertices.hpp"],
     [("faces", "src/core/geometry/graph/Connectivities.cpp Connectivities, getNeighFace, getInnerFace, getOuterFace"), ("vertices and components", "src/core/geometry/graph/Graph.hpp, Vertices.hpp")],
     level="other", note="Bounded: meshes are generated and their graphs built natively, with addresses checked; graphs are maps keyed by addresses and sets of vertices, so no obligation is discharged for all inputs.")
prop("C33", "Options of meshers and solvers are those set, and only those",
     "Options start with their defaults; each one set keeps its value until set again and leaves every other as it was, and copies stay as they were. The number of time steps is the smallest that reaches the final time, and when it is set itself the final time is that many steps. Settings of a file, in any order and in any subset, set the options they name and only those, including the boundary at each side of the grid; unknown words are refused. Arguments for a solver state exactly what differs from the defaults, and arguments of a command line what was written on it.",
     ["inputs", "histories"], "all values, sequences of changes, and subsets of settings", "No test sets more than one option or reads options from settings.",
     ["src/mesher/Options.h", "src/mesher/Options.cpp", "src/solver/Options.h", "src/solver/Options.cpp", "src/core/geometry/BoundTerminations.h"],
     [("options", "src/mesher/Options.cpp, src/solver/Options.cpp setters and getters"), ("settings", "src/mesher/Options.cpp set, strToMesher, strToMesherMode; src/solver/Options.cpp set"), ("arguments", "src/solver/Options.cpp toArgsStr; src/mesher/Options.cpp addArguments")],
     note="Settings and command lines are maps of texts and executed natively only (bounded).")
