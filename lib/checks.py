"""The registered checks: property id -> function(tier) -> exit code."""
import os, sys, time
import vf

H = os.path.join(vf.ROOT, "harness")


def simple(prop, source, variant="serial", level="exploration", rule="", assumptions=(), opt="-O1", libs=(), flags=(), case_seconds=60, sanitize=None, extra_sources=()):
    def f(tier):
        t0 = time.time()
        b = vf.Build(variant, opt=opt, sanitize=sanitize, tag=(sanitize or "").replace(",", "_"))
        b.add_kernel()
        exe = b.add_exe(prop.lower(), [os.path.join(H, source)] + list(extra_sources), flags=flags, libs=libs)
        b.run()
        res = vf.run_shards(exe, prop, tier, case_seconds=case_seconds, timeout=700 if tier == "quick" else 6 * 3600)
        return vf.finish(prop, tier, level, res, t0, rule, assumptions)
    return f


def preprocessor_sources():
    """The library part of the preprocessor, as it is in the tree now."""
    base = os.path.join(vf.REPO, "applications", "Preprocessor", "lib")
    out = []
    for d, _, files in os.walk(base):
        out += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


PRE = ("-I" + os.path.join(vf.REPO, "applications", "Preprocessor", "lib"),)
CHECKS = {}
CHECKS["C23"] = simple("C23", "c23.cpp", level="model_checking",
    rule="every sequence of up to 6 (thorough 7) insert/stretch/refine/fill/coarsen/clear operations on a forest of up to 7 (8) entries; after each sequence every traversal mode, forwards, backwards, zig-zag and with mode changes, is compared with an explicit reference forest")
CHECKS["C01"] = simple("C01", "c01.cpp", variant="mcmpi", level="model_checking",
    rule="every assignment of the elements of each catalogue mesh (1D-3D, all shapes, periodic and not) to 1..3 (thorough 4) processes x file variants (listing order, format version, extra pull requests); every process is a forked instance of the real reader under the model-checking MPI; all views are compared with the whole mesh")
CHECKS["C02"] = simple("C02", "c02.cpp", variant="mcmpi", level="model_checking",
    rule="every element-to-process assignment x basis setup x unknown selection x layout (for 1-2 processes all of them in one reset history) x send semantics; all orders in which the numbering messages can be received (3 processes: up to 2 deviations from the default order, thorough: all)")
CHECKS["C03"] = simple("C03", "c03.cpp", variant="mcmpi", level="model_checking",
    rule="every element-to-process assignment of each catalogue mesh to 1..3 (thorough 4) processes x basis setup x history of synchronisations, owner updates and ghost updates, under eager and rendezvous sends; and every root, payload length, operation and posting order of the message wrappers")
CHECKS["C04"] = simple("C04", "c04.cpp", variant="mcmpi", level="model_checking", case_seconds=120,
    rule="every time integrator: all order conditions (rooted trees) of its advertised order, of its error estimate and its TVD claim; every integrator x solver interface (one side at a time, both sides, linear, linear with sources) x mesh x element-to-process assignment in the bound, under eager or rendezvous sends: one history of initial solution, derivatives, fixed and adaptive steps, errors, scalings and copies, compared after every operation on every owned and ghost element with the single-process run, and that with an independent integration; complete solver runs over a table of end times, step sizes and output frames")
CHECKS["C11"] = simple("C11", "c11.cpp", level="model_checking",
    rule="every rule of every reference shape x every monomial up to its stated order; every lookup (shape, order 0..14, linear and curvilinear); every history of three creations/replacements of two live basis function sets x the tables that are consulted (all, or any single kind; thorough: every subset) with all tabulations (values, gradients, curls; element, every face, every face orientation) compared with direct evaluation")
CHECKS["C13"] = simple("C13", "c13.cpp", level="model_checking", flags=("-O2",),
    rule="every pair of element shapes that can share a face or an edge x every vertex labelling of both elements (hence every relative orientation) x swapped file order x every order (quick 3D up to 4, thorough 5-7) x unknown; traces of all shared degrees of freedom compared on a lattice of every shared face, edge and node, and attachment of every function checked on every face")
CHECKS["C14"] = simple("C14", "c14.cpp", level="model_checking", flags=("-std=c++17", "-O2"), case_seconds=200,
    rule="every basis function set (discontinuous, monomial, curl-conforming, and the vertex/edge/face/interior pieces of the conforming sets in every orientation) x every implemented order (quick: 3D up to 4): every derivative/curl route on a lattice against exact polynomial differentiation of the values, number of functions, linear independence and span of the advertised polynomial space")
CHECKS["C12"] = simple("C12", "c12.cpp", level="model_checking",
    rule="every reference shape (0D-4D, curvilinear variants up to order 4, thorough 6) x every sub-entity of every codimension, compared with the face lattice of the polytope; every boundary map on a lattice incl. derivatives and normals; every vertex symmetry x every labelling x every face embedding for the orientation maps")
CHECKS["C15"] = simple("C15", "c15.cpp", level="model_checking",
    rule="every refinement map of every shape x every child, face and part of a face: node lists, images, derivatives on a lattice, volumes, coverage and disjointness on lattices of the parent, face refinements and the children covering them")
CHECKS["C16"] = simple("C16", "c16.cpp", level="model_checking",
    rule="every time integrator x every rooted tree up to one order above the reported one (order conditions of the scheme and of its embedded comparison scheme), row sums, monotonicity of the TVD schemes; every lookup (order 0..7, stages 0..9, TVD or not, default argument)")
CHECKS["C17"] = simple("C17", "c17.cpp", level="model_checking", flags=("-O2",),
    rule="every element shape (linear and quadratic, 1D-4D) x affine image (incl. reflections, far and thin) x every displacement of up to two nodes (triangle, line: all nodes) x container order: images, Jacobians (automatic differentiation of the interpolation definition) and inverses on a lattice; every history of three (thorough four) node updates, reinit and copies; moving catalogue meshes and locating points in them")


def c18(tier):
    """Real and complex entries; only the linear algebra part of the kernel is built."""
    t0 = time.time()
    b = vf.Build("serial", tag="linalg")
    src = [s for s in vf.kernel_sources() if "/LinearAlgebra/" in s or os.path.basename(s) == "Logger.cpp"]
    harness = os.path.join(H, "c18.cpp")
    exes = [("real", b.add_exe("c18-real", src + [harness], kernel=False)),
            ("complex", b.add_exe("c18-complex", src + [harness], flags=("-DHPGEM_USE_COMPLEX_PETSC",), kernel=False))]
    b.run()
    res = vf.Result()
    for tag, exe in exes:
        res.merge(vf.run_shards(exe, "C18", tier, tag="-" + tag, timeout=350 if tier == "quick" else 3 * 3600))
    return vf.finish("C18", tier, "model_checking", res, t0,
        "every operation of the fixed-size and run-time sized vectors and matrices x every shape up to 4 (0 to 4 at run time) x entry patterns incl. every unit matrix (bilinear operations are decided on these), all 0/1 and +-1 matrices for determinants, every pivot order for solves, every side/transpose of triangular solves, aliased and const operands; real and complex entries; compared with the definition on exactly representable numbers")


CHECKS["C18"] = c18
CHECKS["C21"] = simple("C21", "c21.cpp", level="model_checking", flags=("-O2",),
    rule="every argument list of up to 3 (thorough 4) tokens over 39 tokens of every lexical category, every option x every value x a following option, every list of up to 4 (5) tokens with a required option and terminators; each parsed by a fresh process and compared with a reference grammar; every coordinate text of up to 6 (7) characters over a 10 letter alphabet")
CHECKS["C22"] = simple("C22", "c22.cpp", level="model_checking", flags=("-O2",),
    rule="every history of up to 3 (thorough 4) face matrix operations for 0..2 (3) functions per side, every history of 1-2 (2-3) store operations on the elements and faces of three small meshes for 1..3 unknowns with equal and unequal function counts, compared item for item with a reference store; every history of up to 3 (4) basis assignments with all (unknown, function, side) index triples")
CHECKS["C19"] = simple("C19", "c19.cpp", level="model_checking", flags=("-O2",),
    rule="every history of up to 4 (3D views: 3, thorough: 5) set operations (element/face, point, quadrature rule, quadrature point, transformation per unknown) with nothing, some or everything read and every result buffer overwritten in between, on element, internal face and boundary face views in 1D-3D; elements of different shapes and basis functions, periodic faces with shifted and rotated sides; everything the view returns is compared with direct evaluation and with a fresh view")
CHECKS["C24"] = simple("C24", "c24.cpp", level="model_checking", flags=("-O2",),
    rule="every combination of two shapes that can meet x every vertex labelling of both (all relative orientations, reflections) x three coordinate families, and the catalogue meshes (periodic, hybrid): every monomial up to degree 2-4 (thorough 4) integrated over every element and face with every exact rule against an independent parametrisation, outflow against divergence, points and normals from both sides, every integration route (scalar, vector, matrix, pair, integrand objects, explicit and default rules, unscaled) on one reused integrator against direct sums, integration by parts for all pairs of basis functions and Stokes' theorem for the curl-conforming ones")
CHECKS["C10"] = simple("C10", "c10.cpp", level="model_checking", flags=("-O2",) + PRE, extra_sources=preprocessor_sources(),
    rule="every sequence of up to 5 (thorough 6) union and find operations on 5 (6) items against the naively closed relation; every partial map of vertices as a merge request (one or two in a row) on small 1D-3D meshes; every order and direction of connecting the sides of 1D-3D grids of every shape: nodes, edges, faces, coordinates and vertex orders of the result and of the plan compared with the closure of the requests")
CHECKS["C07"] = simple("C07", "c07.cpp", variant="mcmpi", level="model_checking", flags=("-O2",) + PRE, extra_sources=preprocessor_sources(),
    rule="every dimension x numbers of elements per direction (1D up to 8, 2D up to 5x5, 3D up to 4x4x4 with at most 48 cells; thorough 12, 8x8, 6x6x6) x element shape x periodic directions x box: the generated elements against the grid (vertices, validity, every cell filled once), the derived nodes, edges and faces against the geometry, the written file with an independent reader, and the mesh that the solver reads from it on one and two processes")
CHECKS["C08"] = simple("C08", "c08.cpp", variant="mcmpi", level="model_checking", flags=("-O2",) + PRE, extra_sources=preprocessor_sources(),
    rule="every assignment of the elements of the catalogue meshes and of periodic meshes whose elements touch themselves to 1..3 (thorough 4) partitions x how the mesh was built (complete, copied, periodic sides connected in both orders): the written file is read by an independent reader and compared item by item (elements, zones, partitions, ghost layers, nodes, edges, faces, coordinates bit for bit), and read by the solver on as many processes; difficult coordinate values and the sizes at which the numbers get another digit")
CHECKS["C09"] = simple("C09", "c09.cpp", variant="mcmpi", level="model_checking", flags=("-O2",) + PRE, extra_sources=preprocessor_sources(),
    rule="every catalogue mesh written as a Gmsh 2.2 file in every combination (within groups) of node tags, node order, element order and numbers, lower-dimensional elements, number of tags, source of the zones, line ends, unused nodes and listing of the periodic pairs: elements, vertices up to a symmetry of the shape, zones, nodes, edges and faces of the imported mesh, the written file and the mesh the solver reads; native files of version 1 read once or repeatedly with their process bindings")
CHECKS["C27"] = simple("C27", "c27.cpp", variant="mcmpi", level="model_checking", flags=("-O2",) + PRE, extra_sources=preprocessor_sources(),
    rule="every 2D and 3D catalogue mesh (all element types, mixed, periodic) written as a Centaur file of every supported version and type x number of entries per line x node and element order x every way to divide the elements of each type over 1..3 zones x listing of the periodic pairs (direction, invalid lines, empty and diagonal sets, order) and ignoring them: elements, vertices up to a symmetry of the shape, zones, nodes, edges and faces of the imported mesh, the written file and the mesh the solver reads; quadratic tetrahedra node by node")
DGMAX = os.path.join(vf.REPO, "applications", "DG-Max")
CHECKS["C25"] = simple("C25", "c25.cpp", variant="mcmpi", level="model_checking",
    flags=("-std=c++17", "-O1", "-I" + DGMAX, "-I" + os.path.join(H, "fakepetsc")),
    extra_sources=tuple(os.path.join(DGMAX, *f.split("/")) for f in (
        "DGMaxLogger.cpp", "DGMaxProgramUtils.cpp", "ElementInfos.cpp", "Utils/KSpacePath.cpp", "Utils/KPhaseShift.cpp", "Utils/MatrixBlocks.cpp",
        "Utils/FaceKPhaseShiftBuilder.cpp", "Utils/CGDGMatrixKPhaseShiftBuilder.cpp", "Utils/PredefinedStructure.cpp", "Utils/StructureDescription.cpp",
        "Utils/ZoneStructureDescription.cpp")),
    rule="every path of up to 4 (thorough 5) corners from a table x 1..5 (7) steps; every path text over a small vocabulary; every element-to-process assignment of periodic 2D/3D meshes x orders x gauge: the phase shifts that the real builders and matrices insert (PETSc calls recorded) against the phases of the definition, from all processes")
CHECKS["C28"] = simple("C28", "c28.cpp", variant="complex", level="model_checking", flags=("-std=c++17", "-O2", "-I" + DGMAX),
    extra_sources=tuple(os.path.join(DGMAX, *f.split("/")) for f in (
        "DGMaxLogger.cpp", "ElementInfos.cpp", "Algorithms/AbstractDiscretization.cpp", "Algorithms/DGMaxDiscretization.cpp", "Algorithms/DivDGMaxDiscretization.cpp")),
    rule="all pairs of triangles and of tetrahedra with a common face (several labellings, thorough: all) x discretisation (DGMax, DivDGMax) x order x projector x handling of the mass matrix (kept, inverted, orthogonalised) or the 8 combinations of fluxes x material on the left x material on the right (two dielectrics, magnetic, absorbing layer, varying complex tensor) x boundary condition of every face x history (computed once, after other materials and functions, vectors again afterwards): every stored element and face matrix and vector, the fields at a point, error norms, energy fluxes through and squared fields on every face against an independent evaluation of the weak forms")
CHECKS["C30"] = simple("C30", "c30.cpp", variant="mcmpi-complex", level="model_checking",
    flags=("-std=c++17", "-O1", "-I" + DGMAX, "-I" + os.path.join(H, "fakepetsc")),
    extra_sources=tuple(os.path.join(DGMAX, *f.split("/")) for f in (
        "DGMaxLogger.cpp", "DGMaxProgramUtils.cpp", "ElementInfos.cpp", "Utils/PredefinedStructure.cpp", "Utils/StructureDescription.cpp",
        "Utils/ZoneStructureDescription.cpp", "Utils/FluxFacets.cpp", "Utils/PMLTransmission.cpp", "Algorithms/AbstractDiscretization.cpp", "Algorithms/DGMaxDiscretization.cpp", "Algorithms/DivDGMaxDiscretization.cpp")),
    rule="every text of up to 6 (thorough 8) characters split; descriptions of absorbing layers from a vocabulary of valid and invalid fields; every map from the elements of small 2D/3D meshes to zones (cuts for the larger ones) x set of absorbing layers x every element-to-process assignment to 1..3 (4) processes x material description (rules, inline or file): materials of all elements including the copies of other processes' elements, bounding boxes, stretching tensors at the vertices for two wavenumbers, names and values of fluxes and transmissions on every process against direct sums over the whole mesh; error norms of both discretisations on every process for every element-to-process assignment")
CHECKS["C31"] = simple("C31", "c31.cpp", variant="mcmpi-complex", level="model_checking",
    flags=("-std=c++17", "-O1", "-DHPGEM_USE_ANY_PETSC", "-I" + DGMAX, "-I" + os.path.join(H, "fakepetsc6"), "-I" + H),
    extra_sources=tuple(os.path.join(DGMAX, *f.split("/")) for f in (
        "DGMaxLogger.cpp", "DGMaxProgramUtils.cpp", "ElementInfos.cpp", "Utils/PredefinedStructure.cpp", "Utils/StructureDescription.cpp",
        "Utils/ZoneStructureDescription.cpp", "Algorithms/AbstractDiscretization.cpp", "Algorithms/DGMaxDiscretization.cpp", "Algorithms/DivDGMaxDiscretization.cpp",
        "Algorithms/HarmonicSolver.cpp")) + tuple(os.path.join(vf.REPO, "kernel", "Utilities", f) for f in ("GlobalMatrix.cpp", "GlobalVector.cpp")),
    rule="every history of up to two harmonic problems (three on the smallest mesh) over 16 problems x report of changes (exact, everything, one too many) x one or two solver calls x absorbing layer x DG-Max/DivDG-Max x every element-to-process assignment to 1..2 (thorough 3) processes: coefficients, fields, curls, fluxes of every result against a dense system of that problem alone on a new mesh; PETSc replaced by a reference implementation over the model-checking MPI")
CHECKS["C32"] = simple("C32", "c32.cpp", variant="mcmpi", level="model_checking",
    flags=("-std=c++17", "-O1", "-DHPGEM_USE_ANY_PETSC", "-I" + os.path.join(H, "fakepetsc6"), "-I" + H),
    extra_sources=tuple(os.path.join(vf.REPO, "kernel", "Utilities", f) for f in ("GlobalMatrix.cpp", "GlobalVector.cpp")),
    rule="every catalogue mesh x unknowns and order x every element-to-process assignment to 1..3 processes x six problems (diffusion or coupled advection-reaction; element and face sources, one of them, told to the interface or not) x every history of up to 2 (one process: 3) solves: the coefficients of owned and neighbouring elements against a dense system built from the same formulas with independent quadrature loops; PETSc replaced by a reference implementation over the model-checking MPI")
CHECKS["C33"] = simple("C33", "c33.cpp", variant="mcmpi-complex", level="model_checking",
    flags=("-std=c++17", "-O1", "-DHPGEM_USE_ANY_PETSC", "-I" + DGMAX, "-I" + os.path.join(H, "fakepetsc6"), "-I" + H),
    extra_sources=tuple(os.path.join(DGMAX, *f.split("/")) for f in (
        "DGMaxLogger.cpp", "DGMaxProgramUtils.cpp", "ElementInfos.cpp", "Utils/PredefinedStructure.cpp", "Utils/StructureDescription.cpp",
        "Utils/ZoneStructureDescription.cpp", "Algorithms/AbstractDiscretization.cpp", "Algorithms/DGMaxDiscretization.cpp",
        "Algorithms/DGMaxTimeIntegration.cpp")) + tuple(os.path.join(vf.REPO, "kernel", "Utilities", f) for f in ("GlobalMatrix.cpp", "GlobalVector.cpp")),
    rule="every mesh x material x order x every element-to-process assignment to 1..2 (thorough 3) processes x every history of one or two solver calls over scheme (CO2, CO4), steps, stride, source and boundary terms, conductivity: number, times and coefficients of all stored solutions against dense stepping with the scheme's definition; PETSc replaced by a reference implementation over the model-checking MPI")
CHECKS["C34"] = simple("C34", "c34.cpp", variant="complex", level="model_checking", flags=("-std=c++17", "-O2", "-I" + DGMAX),
    extra_sources=tuple(os.path.join(DGMAX, *f.split("/")) for f in (
        "DGMaxLogger.cpp", "ElementInfos.cpp", "Utils/HomogeneousBandStructure.cpp", "Utils/BandstructureUtils.cpp", "Utils/BraggStackBandstructure.cpp", "Utils/KSpacePath.cpp", "ProblemTypes/Harmonic/InterfaceReflectionField.cpp",
        "ProblemTypes/Harmonic/SampleHarmonicProblems.cpp", "ProblemTypes/Harmonic/TrenchReflectionProblem.cpp", "ProblemTypes/Time/SampleTestProblems.cpp")),
    rule="dimension x analytic solution (plane wave, reflection at an interface, exact-field, scattering and sine problems, trench with and without absorbing layer, four problems in time, band structures of a homogeneous medium and of a stack of two layers, paths in k-space) x every combination of its parameters from small sets (directions, polarisations, phases, frequencies, materials, positions, types of boundary condition of every face, types of element, lattices, k-points): field, curl, double curl, source, initial and boundary values and boundary types at a set of points against the equations evaluated with sixth-order differences; spectra against all lattice points and the roots of a transfer matrix")
CHECKS["C29"] = simple("C29", "c29.cpp", level="model_checking", flags=("-std=c++17", "-O1"),
    rule="every format of up to 6 (thorough 8) characters over {letter, placeholder, backslash} x 0..3 arguments (which contain placeholders and backslashes themselves) x every way to send a message (all levels, log, assertions, fail; text as pointer or string) x strict and lenient loggers; every message level x logger level x route; every default handler in a process of its own with and without the signal ignored; every history of up to 6 (8) messages and nested suppressions: handler, module and text of every message against a reference")
CHECKS["C20"] = simple("C20", "c20.cpp", variant="mcmpi", level="model_checking", flags=("-std=c++17", "-O1"),
    rule="every byte string of up to two bytes, all strings of 3-4 bytes over the values at which a bit group changes and all lengths up to 70 (300) encoded and decoded; every catalogue mesh x output order 1..6 (9) x arrays (scalar, vector, tensor, several at once or after each other) x time level x element-to-process assignment: the files are read by an independent XML/base64 reader and compared cell for cell with the cell types, point order and values that VTK prescribes; every history of up to 3 (4) timed writes; every sequence of Tecplot zones (new or reused geometry) and Gnuplot writes, checked line by line")
CHECKS["C05"] = simple("C05", "c05.cpp", variant="mcmpi", level="model_checking", flags=("-O1",),
    rule="every element-to-process assignment of the catalogue meshes to 1..3 (thorough 4) processes x basis setup x every pair of row and column selections of unknowns (one index object or two, all layouts) x face-coupling tables (all of them up to 4 pairs): the counts of every row on every process against the set of functions that share an element, or a face with an allowed coupling, with it")
CHECKS["C06"] = simple("C06", "c06.cpp", variant="mcmpi", level="model_checking",
    flags=("-O1", "-DHPGEM_USE_ANY_PETSC", "-I" + os.path.join(H, "fakepetsc6"), "-I" + H),
    extra_sources=tuple(os.path.join(vf.REPO, "kernel", "Utilities", f) for f in ("GlobalMatrix.cpp", "GlobalVector.cpp")),
    rule="every element-to-process assignment of the catalogue meshes to 1..3 (thorough 4) processes x basis setup x starting selection of unknowns: every history of two (thorough three) operations on a global matrix (assemble again, with new local matrices, other numbering, other selection, explicit couplings, mesh removed; one or two index objects; element and/or face matrices) and on a global vector (the same, and coefficients collected from and written to the elements, all or one unknown): every entry on every process against the sum of the local contributions, the reserved rows, the boundary entries of every face, and all stored coefficients; PETSc replaced by a reference implementation over the model-checking MPI that reports misuse")
