#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A distributed mesh read is one consistent mesh for every partitioning",
  "When a mesh file is read by any number of processes, every element is owned by exactly one process, each process also holds every element that shares a node with an element it owns, and all faces, edges, nodes, zones, boundary types and coordinates it sees agree with the undistributed mesh. "
  "The send and receive lists that processes keep for each other are mirror images: what process p will push to q is, in the same order, exactly what q expects to pull from p.",
  ["configurations", "histories"],
  "for all meshes in the bounded family, all numbers of processes up to the bound, all assignments of elements to processes",
  "Unit tests run in one process and read meshes that have one partition; the list construction for ghost layers is never executed with more than one process.",
  ["kernel/Base/MeshManipulator_Impl.h", "kernel/Base/Submesh.cpp", "kernel/Base/Mesh_Impl.h", "kernel/Base/MeshFileInformation.cpp"],
  [("mesh reader", "MeshManipulator::readMesh"), ("push/pull lists", "Submesh::addPush, addPull")])

p("C02", "Global degree-of-freedom numbering is a consistent bijection",
  "For every mesh distribution, choice of basis functions and selection of unknowns, the global numbering gives each degree of freedom exactly one number, the numbers are exactly 0..N-1, all processes agree on the number of every degree of freedom they share, and each process owns the contiguous range it reports. "
  "The documented orderings (sequential, blocked per process, blocked globally) are respected, and constructing the numbering terminates for every order in which messages may arrive.",
  ["schedules", "configurations"],
  "for all message-arrival orders and send-buffering behaviours, all assignments of elements to at most the bounded number of processes, all layouts and unknown selections",
  "The numbering tests run in one process, so the message exchange that numbers shared entities is never executed, let alone under adverse arrival orders.",
  ["kernel/Utilities/GlobalIndexing.cpp", "kernel/Utilities/GlobalIndexing.h"],
  [("numbering construction", "GlobalIndexing::reset"), ("message exchange", "GlobalIndexing::constructBlocked, constructUnblocked")])

p("C03", "Ghost synchronisation delivers exactly the owner's data",
  "After a ghost synchronisation every copy of an element on a non-owning process holds precisely the coefficients that its owner had when the synchronisation started, and the owner's data is unchanged. "
  "This holds for every order of message delivery, and the exchange never deadlocks.",
  ["schedules", "configurations"],
  "for all delivery orders and send-buffering behaviours, all element-to-process assignments in the bound, all time-level/unknown selections",
  "Existing tests run in one process, where synchronisation is an empty loop.",
  ["kernel/Base/HpgemAPIBase_Impl.h", "kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Base/MpiContainer.h"],
  [("ghost exchange", "HpgemAPIBase::synchronize"), ("wrappers", "MPIContainer::send, receive, sync")])

p("C04", "Explicit time stepping gives the same solution for every partitioning",
  "Running the explicit solver interface on a distributed mesh produces, on every process and for every element it owns, the coefficients, error norms and adaptive step sizes of the single-process run, up to rounding. "
  "This holds for every element-to-process assignment and every message order, and for every available time integrator. A run ends exactly at the requested final time and its output frames are equally spaced, also when the step size does not divide the interval.",
  ["schedules", "configurations"],
  "for all delivery orders, all element-to-process assignments in the bound, all time integrators",
  "Self tests compare against analytic solutions in one process only; the synchronisation points of the solver loop have no effect there.",
  ["kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Base/HpgemAPIBase_Impl.h", "kernel/Base/TimeIntegration/ButcherTableau.h"],
  [("time step", "HpgemAPISimplified::computeOneTimeStep, scaleAndAddVector..., synchronize")])

p("C05", "Sparsity estimates never under-count and match the coupling rules",
  "For every mesh, basis, unknown selection and coupling rule, the number of diagonal-process and off-diagonal-process entries predicted for each matrix row equals the number of distinct columns that assembling all element and face contributions allowed by the rule would touch.",
  ["configurations", "inputs"],
  "for all meshes, partitions, basis function kinds, unknown subsets and face-coupling tables in the bound",
  "The tests compare a handful of hand counts on one mesh in one process.",
  ["kernel/Utilities/SparsityEstimator.cpp", "kernel/Utilities/Table2D.h"],
  [("row counting", "SparsityEstimator::computeSparsityEstimate")])

p("C06", "Global matrices and vectors equal the sum of their local contributions",
  "After assembly a global matrix or vector equals, entry for entry, the sum of all element contributions and of the contributions of each face counted once, placed by the global numbering. "
  "Writing coefficients to a global vector and reading them back returns the original coefficients, and restricting to one unknown touches only that unknown; this holds after any sequence of re-initialisation and re-assembly.",
  ["histories", "configurations"],
  "for all meshes, bases, unknown selections and operation sequences in the bound",
  "Existing tests only check that solving a Poisson problem converges, with one unknown and one assembly.",
  ["kernel/Utilities/GlobalMatrix.cpp", "kernel/Utilities/GlobalVector.cpp", "kernel/Utilities/ElementLocalIndexing.cpp", "kernel/Utilities/FaceLocalIndexing.cpp"],
  [("assembly", "GlobalPetscMatrix::assemble, GlobalPetscVector::assemble"), ("scatter", "GlobalPetscVector::writeTimeIntegrationVector")])

p("C07", "Generated structured meshes are valid and tile the requested box",
  "For every dimension, number of elements per direction, box, element shape and combination of periodic directions, the generated mesh consists of non-degenerate elements that cover the box exactly once, and two elements share a face, edge or node exactly when they geometrically touch there (taking periodicity into account). "
  "Reading the written file in the solver reproduces that mesh: the same elements, with faces on the outer boundary exactly in the non-periodic directions.",
  ["inputs", "configurations"],
  "for all dimensions 1-3, element counts per direction, shapes and periodicity flags in the bound",
  "Tests use a few pre-generated files that were made once and are never regenerated.",
  ["applications/Preprocessor/lib/hpgem.cpp", "applications/Preprocessor/lib/mesh/MeshImpl/Mesh_Impl.h", "applications/Preprocessor/lib/output_impl.h", "kernel/Base/MeshManipulator_Impl.h"],
  [("structured generator", "Preprocessor::StructuredReader"), ("mesh topology", "Preprocessor::Mesh::addElement, addNode"), ("file writer", "outputMesh")])

p("C08", "A written partitioned mesh file describes one mesh with complete ghost layers",
  "For every assignment of elements to partitions the written file lists each element once with its own partition and zone, names as shadow partitions exactly the other partitions that contain an element sharing a node with it, and lists for every node, edge and face exactly the partitions that need it. "
  "Coordinates survive the write/read cycle bit for bit.",
  ["configurations"],
  "for all element-to-partition assignments of meshes in the bound",
  "No test writes a partitioned file; the partition count is one in every test mesh.",
  ["applications/Preprocessor/lib/output_impl.h", "applications/Preprocessor/lib/mesh/Mesh.h"],
  [("writer", "outputMesh, printOtherEntities")])

p("C09", "Importing a foreign mesh file preserves the mesh it describes",
  "Importing a mesh from a Gmsh file, or from an earlier native file, yields exactly the elements, vertices, zones and periodic identifications the file describes, independent of the order in which the file lists nodes and elements and of the tag numbers it uses.",
  ["inputs"],
  "for all orderings and renumberings of nodes/elements of the bounded family of files, all element shapes",
  "Tests cover single fixed files.",
  ["applications/Preprocessor/lib/gmsh.cpp", "applications/Preprocessor/lib/gmsh.h", "applications/Preprocessor/lib/MeshFactory.h", "applications/Preprocessor/lib/hpgem.cpp"],
  [("gmsh reader", "GmshReader"), ("native reader", "PreprocessorReader")])

p("C10", "Merging nodes for periodicity is an equivalence-closed identification",
  "Whatever the order in which merge requests are given, the merged mesh identifies exactly those nodes connected by a chain of requests, keeps one set of coordinates per distinct location, and leaves every element with its own vertices in the original order. "
  "The union-find used for this answers 'same set' exactly for the reflexive-symmetric-transitive closure of the requested unions.",
  ["histories", "inputs"],
  "for all sequences of unions and merges in the bound",
  "Tests run a few chosen sequences.",
  ["applications/Preprocessor/lib/utils/SparseUnionFind.cpp", "applications/Preprocessor/lib/MergePlan.h", "applications/Preprocessor/lib/TransformationConnector.h", "applications/Preprocessor/lib/MeshFactory.h"],
  [("union-find", "SparseUnionFind::unionSets, findSet"), ("merge", "MergePlan::computeMergePlan, executeMerge")])

p("C11", "Quadrature rules integrate every polynomial up to their stated order",
  "Every quadrature rule offered for a reference shape integrates all polynomials of total degree up to its reported order exactly (to rounding), has all its points inside the shape, and the lookup by shape and order returns a rule for that shape with at least the requested order. Basis function values, gradients and curls tabulated at the points of a rule equal direct evaluation, for every history of basis function sets created and destroyed.",
  ["inputs", "configurations"],
  "for all offered rules, all monomials up to the stated order, all (shape, order) requests",
  "Tests pick some monomials per rule with loose tolerances.",
  ["kernel/Integration/QuadratureRules/*", "kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp"],
  [("rules", "GaussQuadratureRulesFor*.cpp"), ("lookup", "AllGaussQuadratureRules::getRule")])

p("C12", "Reference shapes agree with their own topology and boundary maps",
  "For every reference shape, its sub-entity node lists, entity-of-entity lists, counts, barycentre, inside test and codimension maps describe one and the same polytope: each boundary map sends the vertices of the sub-shape to the listed vertices of the shape, and lookups are mutual inverses. "
  "For every relative orientation of two faces sharing the same vertices, the selected face-to-face map sends each vertex of one onto the same vertex of the other.",
  ["configurations", "inputs"],
  "for all shapes, all sub-entities, all vertex permutations (symmetries), all vertices and a grid of points",
  "Tests check single shapes by hand with copied tables and only some orientations.",
  ["kernel/Geometry/Reference*.cpp", "kernel/Geometry/Mappings/MappingToRef*.cpp", "kernel/Geometry/FaceGeometry.cpp"],
  [("topology tables", "ReferenceGeometry::getCodim*"), ("orientation index", "getCodim0MappingIndex")])

p("C13", "Conforming basis functions are continuous across every element interface",
  "With the conforming discretisations, the degrees of freedom that two elements share across a common face, edge or node represent the same trace, and functions not attached to an entity vanish there. "
  "This holds for every orientation in which two elements can meet and every supported order and shape.",
  ["configurations", "inputs"],
  "for all shapes, orders, relative vertex numberings of neighbouring elements, and interface points on a unisolvent grid",
  "Convergence tests use structured meshes in which only a few relative orientations occur.",
  ["kernel/FE/BasisFunctions*Conforming*.cpp", "kernel/FE/BasisFunctions3DNedelec.cpp", "kernel/FE/BasisFunctions3DAinsworthCoyle.cpp", "kernel/Base/MeshManipulator_Impl.h", "kernel/FE/OrientedBasisFunctionSet.h"],
  [("orientation handling", "OrientedBasisFunctionSet::checkOrientation"), ("set selection", "MeshManipulator::useDefaultConformingBasisFunctions")])

p("C14", "Basis function derivatives and dimensions are exact for every set",
  "For every offered basis set, shape and order, the reported gradients and curls are the true derivatives of the reported values, the number of functions equals the dimension of the advertised polynomial space, and the functions are linearly independent and span that space.",
  ["inputs", "configurations"],
  "for all sets, orders up to the bound and evaluation points on a unisolvent grid",
  "Tests compare a few points with finite differences.",
  ["kernel/FE/*"],
  [("basis functions", "kernel/FE/BasisFunctions*.cpp"), ("helpers", "kernel/FE/helperFunctions.cpp")])

p("C15", "Refinement maps partition the parent consistently",
  "For every shape and refinement option, the children's images tile the parent without overlap or gap, their volumes add up, the maps' derivatives are exact, and the listed sub-entity nodes match the images of the children's vertices. "
  "The refinement induced on each face of the parent is the listed refinement of that face, and the listed child and child face cover it.",
  ["configurations", "inputs"],
  "for all refinement maps of all shapes, all their children and faces, and all points of a lattice",
  "The unit tests compare the maps' derivatives with differences at sample points; that the children tile the parent and that the lists agree with the maps is not tested.",
  ["kernel/Geometry/Mappings/RefinementMapsFor*.h", "kernel/Geometry/Mappings/RefinementMapping.h"],
  [("maps", "RefinementMapping::refinementTransform"), ("lists", "RefinementMapping::getSubElementLocalNodeIndices, getCodim1RefinementMaps, getSubElementAndLocalFaceIndex")])

p("C16", "Every time integrator has its advertised order and error estimate",
  "Every offered time integrator satisfies all consistency (row-sum) and order conditions for the order it reports, uses only earlier stages in each stage, its embedded error estimate is of lower order, and looking an integrator up by order and number of stages returns one with those characteristics.",
  ["inputs", "configurations"],
  "for all offered integrators and all rooted trees up to their order; all lookups in the bound",
  "Tests only run some of the integrators in convergence studies.",
  ["kernel/Base/TimeIntegration/*"],
  [("tableaus", "kernel/Base/TimeIntegration/*.cpp"), ("lookup", "AllTimeIntegrators::getRule")])

p("C17", "Reference-to-physical maps interpolate the nodes with exact Jacobians",
  "For every element shape and all node positions in the family, the mapping to physical space sends reference vertices to the element's nodes, its Jacobian is the true derivative of the mapping, mapping back is its inverse, and updating node positions gives the same mapping as constructing it anew.",
  ["inputs", "histories"],
  "for all shapes, all distortions on a small lattice, all grid points, all update sequences in the bound",
  "Tests use a few random geometries with loose finite differences.",
  ["kernel/Geometry/Mappings/MappingToPhys*", "kernel/Geometry/ElementGeometry.cpp", "kernel/Geometry/FaceGeometry.cpp"],
  [("mappings", "MappingToPhys*::transform, calcJacobian, inverseTransform, reinit")])

p("C18", "Dense linear algebra agrees with exact arithmetic definitions",
  "Every operation on the small fixed-size and the medium dynamic-size vectors and matrices (arithmetic, products, transposes, sub-blocks, inverse, determinant, solves, norms, concatenation, slicing) returns what its mathematical definition says for all shapes, does not disturb its operands, and in-place forms agree with out-of-place forms even when operands alias.",
  ["inputs", "histories"],
  "for all shapes and small-integer entries in the bound, all operation pairs",
  "Tests cover one shape and one value set per operation.",
  ["kernel/LinearAlgebra/*"],
  [("matrices", "SmallMatrix, MiddleSizeMatrix"), ("vectors", "SmallVector, MiddleSizeVector")])

p("C19", "Element and face views depend only on their current settings",
  "Whatever sequence of elements, faces, quadrature rules, points, transformations and reads a physical element or face view has gone through, the values, gradients, normals, weights and solution traces it returns equal those of a fresh view given only the current settings and agree with the quantities computed from the element and face directly, and a returned result buffer starts from zero for the next use.",
  ["histories"],
  "for all sequences of set and get operations up to the bound on meshes with different element shapes and orders",
  "Tests use each view once on meshes with a single element type and order.",
  ["kernel/Base/PhysicalElement_Impl.h", "kernel/Base/PhysicalFace_Impl.h", "kernel/Base/LazyCached.h"],
  [("lazy caches", "LazyCached::get, reset"), ("invalidation", "PhysicalElement::setElement, PhysicalFace::setFace")])

p("C20", "Output files describe every element and its point values faithfully",
  "The visualisation writers emit, for every mesh and data function, exactly one cell per active element of the right type whose points are the element's vertices (or higher-order points) in the format's order, with the data evaluated at those points, and binary blocks decode to exactly the emitted values with correct length headers.",
  ["inputs", "configurations"],
  "for all meshes, shapes, orders and payload lengths in the bound",
  "Tests compare a few stored files.",
  ["kernel/Output/*"],
  [("VTK writer", "VTKSpecificTimeWriter"), ("base64", "kernel/Output/base64.cpp"), ("Tecplot writer", "TecplotDiscontinuousSolutionWriter")])

p("C21", "Command line parsing is faithful for every argument list",
  "For every argument list the parser either assigns every option exactly the value written for it (last one wins, unspecified options keep their default) or rejects the list with an error; options after the terminator are left untouched, required options are enforced, and malformed numbers are rejected rather than replaced by another value.",
  ["inputs"],
  "for all argument lists up to the bounded length over a token alphabet that covers every lexical category",
  "Tests try a few fixed lists.",
  ["kernel/Base/CommandLineOptions.cpp", "kernel/Base/CommandLineOptions.h", "kernel/Base/CommandLineHelpers.h"],
  [("parser", "parse_options, CommandLineOption::parse")])

p("C22", "Element and face data are stored and returned without interference",
  "Data stored on an element or face (coefficients per unknown and time level, time-integration vectors, local matrices and vectors) is returned unchanged until the same item is overwritten, storing one item never changes another, and local indices of (unknown, basis function, side) triples are a bijection onto the local degrees of freedom.",
  ["histories", "configurations"],
  "for all sequences of set, get and resize operations up to the bound, all numbers of unknowns and basis functions",
  "Tests set each item once.",
  ["kernel/Base/ElementData.cpp", "kernel/Base/FaceData.cpp", "kernel/Base/FaceMatrix.cpp", "kernel/Base/Element.cpp", "kernel/Base/Face.cpp", "kernel/Base/ElementBasisFunctions.cpp"],
  [("storage", "ElementData, FaceData, FaceMatrix"), ("index maps", "convertToSingleIndex")])

p("C23", "Hierarchy traversal visits exactly the requested entities in order",
  "For every refinement history of the mesh hierarchy, iterating over the active entities, over one level, or in pre- or post-order visits each entity in that view exactly once in the documented order, forwards and backwards alike, and parent, child, sibling and level queries agree with the refinement history.",
  ["histories"],
  "for all sequences of insert, refine and coarsen operations up to the bound and all traversal modes, including mode changes mid-way",
  "Tests build a couple of trees.",
  ["kernel/Base/LevelTree_Impl.h", "kernel/Base/TreeIterator.h", "kernel/Base/TreeEntry.h"],
  [("tree", "LevelTree, TreeEntry, TreeIterator")])

p("C24", "Element and face integrals satisfy the divergence theorem on every mesh",
  "On every mesh in the family the integral of the divergence of a polynomial field over each element equals the sum of its outward fluxes through its faces, interior fluxes seen from both sides cancel, face normals are orthogonal to the face and point from left to right, and the integrals do not depend on which integration route or basis transformation is used.",
  ["inputs", "configurations"],
  "for all meshes, shapes, distortions, relative face orientations and monomial fields in the bound",
  "Tests integrate a few functions on uniform meshes.",
  ["kernel/Integration/*", "kernel/Geometry/FaceGeometry.cpp", "kernel/Base/PhysicalFace_Impl.h", "kernel/Base/PhysicalElement_Impl.h"],
  [("integrals", "ElementIntegral::integrate, FaceIntegral::integrate"), ("normals", "FaceGeometry::getNormalVector")])

p("C25", "Wave-vector paths and Bloch phase shifts are exact in the Maxwell solver",
  "Walking any prescribed path through reciprocal space visits the prescribed corner points with the prescribed number of equally spaced steps in between, and for each visited wave vector every coupling across a periodic boundary carries exactly the phase factor of the lattice vector it crosses while all other couplings are unchanged.",
  ["inputs", "histories"],
  "for all paths, step counts and wave vectors on the bounded lattice",
  "Tests run complete eigenvalue problems for one path.",
  ["applications/DG-Max/Utils/KSpacePath.cpp", "applications/DG-Max/Utils/KPhaseShift.cpp", "applications/DG-Max/Utils/FaceKPhaseShiftBuilder.cpp"],
  [("paths", "KSpacePath"), ("phase shifts", "KPhaseShifts::apply")])

p("C26", "Discretisation errors shrink at the theoretical rate",
  "For smooth problems the error of the computed solution decreases with mesh width and polynomial order at the rate the discretisation theory predicts.",
  ["inputs"], "for all smooth problems as the mesh width tends to zero",
  "An asymptotic statement over infinitely many meshes; self tests sample three or four mesh widths.",
  ["applications/PoissonTest", "tests/self"],
  [("convergence tests", "tests/self/ConvergenceTest.h")])

p("C27", "Importing a Centaur mesh file preserves the mesh it describes",
  "For every two- and three-dimensional mesh described by a Centaur file - any version, element types, zones, listing order, record layout and periodic node pairs - the imported mesh has exactly the described elements, vertices, zones and connectivity, periodic nodes, edges and faces are identified exactly when the file says so and periodicity is not ignored, and the written mesh means the same to the solver.",
  ["inputs", "configurations"],
  "for all mesh files in the bound: element types and mixtures, versions, zones, orders of nodes and elements, entries per line, listings of periodic pairs",
  "No unit test reads a Centaur file.",
  ["applications/Preprocessor/lib/centaur.cpp", "applications/Preprocessor/lib/FortranUnformattedFile.cpp", "applications/Preprocessor/lib/MeshFactory.h", "applications/Preprocessor/lib/MeshSource.h"],
  [("Centaur reader", "CentaurReader"), ("Fortran records", "FortranUnformattedFile")])

p("C28", "Maxwell discretisations store exactly the matrices of their weak forms",
  "For every mesh, order, material and boundary condition the matrices and vectors that the Maxwell discretisations (DGMax and DivDGMax) store on elements and faces are the integrals of their weak forms - mass, curl, divergence constraint, averages, jumps, stabilisation and prescribed boundary values, with the material of the side a function lives on - also after earlier computations with other data, and the fields, error norms and energy fluxes computed from coefficients are those of the field that the coefficients describe.",
  ["inputs", "configurations", "histories"],
  "for all elements with a common face, labellings, orders, materials on either side, boundary conditions, fluxes, mass matrix handlings and histories in the bound",
  "Tests compare a few eigenvalues or errors of complete solves with stored numbers on uniform meshes with one material.",
  ["applications/DG-Max/Algorithms/DGMaxDiscretization.cpp", "applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp", "applications/DG-Max/Algorithms/AbstractDiscretization.cpp", "applications/DG-Max/ElementInfos.cpp", "applications/DG-Max/MaterialTensor.h"],
  [("element integrals", "computeElementIntegrals"), ("face integrals", "computeFaceIntegrals"), ("fields and fluxes", "computeFields, computeEnergyFluxes, computeFieldL2Integral, computeL2Error")])

p("C29", "Log messages are formatted and routed faithfully and errors stop the program",
  "Every message that passes the level of its logger reaches the handler of its own level exactly once, with the module's name and with each placeholder replaced by the argument at its position, in order, whatever the arguments and the escapes in the text; messages below the level reach no handler, a failed assertion or fatal or error message ends the program with the default handlers, and warnings are suppressed exactly inside the outermost suppression.",
  ["inputs", "histories"],
  "for all message formats, numbers of arguments, levels, loggers, handlers and histories of messages and suppressions in the bound",
  "Tests only use the logger in passing and replace the handlers with stubs.",
  ["kernel/Logger.h", "kernel/Logger.cpp"],
  [("formatting", "Logger::createMessage"), ("routing", "Logger::operator(), log, assert_debug, assert_always, fail"), ("suppression", "Logger::suppressWarnings"), ("default handlers", "printMessage, printFatal, printError")])

p("C30", "Maxwell materials, layers and fluxes follow the zones of the whole mesh",
  "For every mesh with zones, every material description, every set of absorbing layers and every distribution over processes, each element (also a copy of another process's element) has the material of the first rule that matches its zone, stretched as prescribed by the layer of its zone, whose extent and attenuation are those of the whole zone; and the fluxes and transmissions that every process reports are, for each facet between or at the boundary of zones, the sums over the faces of the whole mesh, each counted once and from the documented side; error norms are those of the whole mesh. Malformed descriptions are refused.",
  ["inputs", "configurations"],
  "for all zone maps of the meshes, process assignments, layers, material rules and description texts in the bound",
  "Tests only use meshes with one zone on one process and no absorbing layers.",
  ["applications/DG-Max/DGMaxProgramUtils.cpp", "applications/DG-Max/PMLElementInfos.h", "applications/DG-Max/Utils/FluxFacets.cpp", "applications/DG-Max/Utils/PMLTransmission.cpp", "applications/DG-Max/Utils/ZoneStructureDescription.cpp", "kernel/Base/Zone.cpp"],
  [("layers", "applyPMLs, computeZoneBoundingBoxes, PMLElementInfos"), ("materials", "determineStructureDescription, readMesh"), ("fluxes", "FluxFacets, PMLTransmission"), ("error norms", "computeL2Error, computeError"), ("texts", "parsePMLZoneDescription, stringSplit")])

p("C31", "Every harmonic problem of a sequence is solved as if it were alone",
  "When a driver hands a sequence of harmonic problems to the Maxwell solver, in one call or several, telling (at least) what changed between consecutive problems, each result is the solution of the current problem alone: of S - omega^2 M + omega Z with the source, boundary conditions, materials and frequency-dependent absorbing layers of that problem, whatever was solved before, on every distribution over processes; it belongs to that problem and mesh, and is handed over exactly once.",
  ["histories", "inputs", "configurations"],
  "for all sequences of problems, reports of changes and process assignments in the bound",
  "The tests solve one problem at a time; what is reused between problems depends on the history of changes.",
  ["applications/DG-Max/Algorithms/HarmonicSolver.cpp", "applications/DG-Max/Algorithms/HarmonicSolver.h", "applications/DG-Max/Utils/Dispersive.h", "kernel/Utilities/GlobalMatrix.cpp", "kernel/Utilities/GlobalVector.cpp"],
  [("sequence", "HarmonicSolver::solve"), ("reuse", "Workspace::computeIntegrals, assembleSolverMatrix"), ("dispersion", "DispersionContainer, checkDispersion")])

p("C32", "The steady-state interface solves exactly the system of its integrands",
  "A program built on the linear steady-state interface that supplies integrands for the stiffness matrix on elements and faces and, where it says there are such terms, source terms on elements and faces, ends every solve with the solution of -S u = f in the solution vector of every element it holds, where S and f are the integrals of those integrands over all elements and all faces: for all meshes, numbers of unknowns, orders and distributions over processes, and whatever was solved before. Source terms that are said not to exist are not asked for.",
  ["histories", "inputs", "configurations"],
  "for all meshes, process assignments, problems and histories of solves in the bound",
  "The tests solve one scalar Poisson problem once, mostly on one process, and compare only an error norm.",
  ["kernel/Base/HpgemAPILinearSteadyState_Impl.h", "kernel/Base/HpgemAPILinear_Impl.h", "kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Integration/ElementIntegral_Impl.h", "kernel/Integration/FaceIntegral_Impl.h", "kernel/Base/PhysicalFace_Impl.h", "kernel/Utilities/GlobalMatrix.cpp"],
  [("solve", "solveSteadyStateWithPetsc, createSourceTerms"), ("integrands", "computeStiffnessMatrixAtElement, computeStiffnessMatrixAtFace, integrateSourceTermAtElement, integrateSourceTermAtFace")])

p("C33", "Maxwell time integration stores what its scheme gives at every stored time",
  "For every problem eps E'' + sigma E' + curl curl E = source(x)Ts(t) with boundary field g(x)Tg(t), every mesh, material map (a conductivity only in vacuum and with CO2) and distribution over processes, and whatever the solver object solved before, a call of the Maxwell time integrator stores the discrete solution at time 0, after every `snapshotStride` steps and after the last step, and reports those times with it: starting from the projections of the given field and derivative, stepped with the leap-frog scheme (CO2: forces averaged over both ends of the step) or the five-stage fourth-order symmetric composition (CO4), with the source and boundary terms taken at the times of the stages.",
  ["histories", "inputs", "configurations"],
  "for all schemes, numbers of steps, strides, combinations of terms, meshes, process assignments and histories of two calls in the bound",
  "No test runs the time integrator at all.",
  ["applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp", "applications/DG-Max/Algorithms/DGMaxTimeIntegration.h", "applications/DG-Max/Algorithms/DGMaxDiscretization.cpp", "kernel/Utilities/GlobalVector.cpp"],
  [("steps", "DGMaxTimeIntegration::solve, getCoeffCO4"), ("stored solutions", "TimeIntegrationParameters::numberOfSnapshots, printErrors")])

p("C34", "Analytic Maxwell solutions solve the problems they are given for",
  "For every direction, polarisation, phase, frequency, material, position, mesh and choice of boundary conditions, the analytic solutions that come with DG-Max satisfy what they are given for: the curl and double curl of a field pattern are those of its field, plane waves and the reflection at an interface solve Maxwell's equations with continuous tangential fields and the given incident wave, the source and boundary values of exact-field, scattering, sine and trench problems (with and without absorbing layer, 2D and 3D) are those of their solution for each type of boundary condition, the time-dependent problems satisfy their wave equation, initial and (separated) boundary values, and the band structures of a homogeneous medium and a stack of layers contain every mode below the frequency limit exactly as often as it occurs, at a point and along a line.",
  ["inputs", "configurations"],
  "for all combinations of the parameter values, boundary types, element types, lattices and k-points in the bound",
  "Tests use these solutions as the truth for a few parameter values; nothing checks the solutions themselves for other materials, dimensions and boundary types.",
  ["applications/DG-Max/ProblemTypes/HarmonicProblem.h", "applications/DG-Max/ProblemTypes/FieldPattern.h", "applications/DG-Max/ProblemTypes/Harmonic/*", "applications/DG-Max/ProblemTypes/Time/SampleTestProblems.cpp", "applications/DG-Max/ProblemTypes/TimeIntegrationProblem.h", "applications/DG-Max/Utils/PlaneWave.h", "applications/DG-Max/Utils/HomogeneousBandStructure.cpp", "applications/DG-Max/Utils/BraggStackBandstructure.cpp", "applications/DG-Max/Utils/BandstructureUtils.cpp", "applications/DG-Max/Utils/KSpacePath.cpp"],
  [("boundary values", "ExactHarmonicProblem::boundaryCondition, TrenchReflectionProblem::boundaryCondition"), ("interface", "InterfaceReflectionField"), ("bands", "HomogeneousBandStructure::computeLinearSpectrum, computeLines; BraggStackBandstructure::computeLinearSpectrum")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
