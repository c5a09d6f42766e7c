#!/usr/bin/env python3
# Source of properties.jsonl (run: tools/gen_properties.py > properties.jsonl)
import json
I="libdiskpp/include/diskpp/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("M01","Mesh generators and refinement always yield a consistent cell complex",
  "Every mesh the built-in generators produce (triangles, quadrangles, hexagons, tetrahedra, single elements, in one, two and three dimensions), after any number of refinements, is a conforming partition of its domain: cell measures are positive and add up to the measure of the domain, every face belongs to one or two cells, every face/edge/node of a cell is stored exactly once, in sorted order, and is found again by lookup. The numbers of cells, faces, edges and nodes are those of that subdivision of the unit domain (in particular they satisfy Euler's relation). Two meshes built by the same sequence of steps are identical.",
  ["configurations","histories"],
  "for every generator, mesh storage kind and sequence of refinement steps up to the bound: all cells, faces, edges and nodes",
  "tests build two or three meshes and look at boundary numbering only; conformity after arbitrary refinement histories is never examined",
  [I+"mesh/meshgen.hpp",I+"mesh/meshgen_fvca5hex.hpp",I+"mesh/mesh.hpp",I+"mesh/mesh_storage.hpp",I+"loaders/loader_uniform.hpp"],
  [("simple_mesher refine",I+"mesh/meshgen.hpp"),("fvca5_hex_mesher::make_level",I+"mesh/meshgen_fvca5hex.hpp"),("make_single_element_mesh",I+"mesh/meshgen.hpp"),("mesh::lookup",I+"mesh/mesh.hpp")])
p("M02","Boundary faces and their ids survive refinement",
  "A face is reported as a boundary face exactly when one cell only is attached to it, boundary and internal iterators together visit each face exactly once, and every boundary face carries the number of the side of the domain it lies on, for every generator and after any refinement sequence. Neighbour queries agree: the neighbour of a cell through an internal face is the other cell sharing it, and there is none through a boundary face.",
  ["configurations","histories"],
  "for every generator and refinement sequence up to the bound: every face and every cell-face pair",
  "one test looks at boundary numbering of unrefined 2D meshes by sampling; other storage kinds, 3D, refinement and neighbour queries are untested",
  [I+"mesh/meshgen.hpp",I+"mesh/mesh.hpp",I+"mesh/meshgen_fvca5hex.hpp",I+"mesh/mesh_utility.hpp"],
  [("boundary_info marking",I+"mesh/mesh_storage.hpp"),("connectivity_via_faces",I+"mesh/mesh_utility.hpp"),("mark_internal_faces",I+"loaders/loader_utils.hpp")])
p("G01","Planar element geometry is exact on every simple polygon",
  "For every triangle, rectangle and simple polygonal cell, convex or not and whatever vertex it starts from, the reported measure, barycenter and diameter are those of the polygon, the outward normals of its faces have unit length and, weighted by face length, sum to zero and reproduce twice the area in the divergence theorem. Face measures and barycenters are the length and midpoint of the segment, and a point is reported as inside a convex cell exactly when it is (for non-convex cells no answer is promised).",
  ["inputs"],"all simple polygons with vertices on a small integer lattice, up to the bound on vertices, in every cyclic starting position and in counter-clockwise order, plus all lattice triangles and rectangles in any orientation",
  "the existing test checks a few hand-made shapes; non-convex polygons, starting positions and normals are sampled at most",
  [I+"geometry/geometry_all.hpp",I+"geometry/geometry_generic.hpp",I+"geometry/geometry_simplicial.hpp",I+"geometry/geometry_hexahedral.hpp",I+"geometry/geometry_generic_triangulations.hpp"],
  [("measure/barycenter/diameter/normal",I+"geometry/geometry_all.hpp"),("triangulate",I+"geometry/geometry_generic_triangulations.hpp"),("is_inside",I+"geometry/geometry_all.hpp")])
p("G02","Solid element geometry is exact on tetrahedra, boxes and polyhedra",
  "For every tetrahedron, axis-aligned box and polyhedral cell the reported volume, diameter and faces are those of the solid (and so is the barycenter on tetrahedra and boxes; on general polyhedra it is the average of the vertices), the outward unit normals weighted by face area sum to zero and reproduce three times the volume in the divergence theorem, and face areas and diameters (and barycenters of triangles and rectangles) are those of the planar face. A point is reported as inside a tetrahedron exactly when it is. The bounding box of a mesh is the smallest axis-parallel box containing all its points.",
  ["inputs","configurations"],"all non-degenerate lattice tetrahedra up to the bound, all small-integer boxes, all cells of the generated 3D meshes, and their polyhedral copies",
  "existing tests evaluate one unit tetrahedron/cube; orientation and ordering dependent branches are not covered",
  [I+"geometry/geometry_all.hpp",I+"geometry/geometry_simplicial.hpp",I+"geometry/geometry_hexahedral.hpp",I+"geometry/geometry_generic.hpp",I+"mesh/mesh.hpp"],
  [("measure, normal",I+"geometry/geometry_all.hpp"),("bounding_box",I+"mesh/mesh.hpp")])
p("G03","Polygons are always cut into triangles that tile them",
  "Splitting any simple polygon, convex or not, into triangles yields triangles with the polygon's own vertices (or its centre, where documented), of positive area, that do not overlap and whose areas add up to the area of the polygon; integrating over the polygon through that splitting gives the exact integral of every polynomial up to the requested degree, with all integration weights positive where the element rule guarantees it.",
  ["inputs"],"all simple lattice polygons up to the bound, every starting vertex, every monomial up to the bound on degree",
  "one sample polygon list is triangulated by the existing test; quadrature on non-convex polygons is not tested",
  [I+"geometry/geometry_generic_triangulations.hpp",I+"contrib/earcut.hpp",I+"quadratures/bits/quad_phys_generic.hpp","libdiskpp/contrib/triangle/triangle_mesher.c"],
  [("triangulate_nonconvex_polygon",I+"geometry/geometry_generic_triangulations.hpp"),("integrate on generic cells",I+"quadratures/bits/quad_phys_generic.hpp")])
p("Q01","Reference quadrature rules are exact up to their stated degree",
  "Each numerical integration rule (Gauss and Gauss-Lobatto on segments, tensorised on quadrangles and hexahedra, all triangle and tetrahedron families) integrates every polynomial up to the degree it was requested for exactly, with weights adding up to its measure and points inside the element (except for the Dunavant rules of degrees 11, 15, 16, 18 and 20, which are published with points outside), for every degree the library offers, on every segment, triangle, convex quadrangle, tetrahedron and parallelepiped, whatever its vertex order. (Over a scalar interval given with its ends reversed the integral changes sign.) Degrees that are not offered are refused, never answered with a less accurate rule.",
  ["inputs","configurations"],"all rule families x all requested degrees x all monomials up to the degree x a set of affine elements including reversed vertex orders",
  "tests sample some families and degrees at loose tolerance",
  [I+"quadratures/bits/quad_raw_gauss.hpp",I+"quadratures/bits/quad_raw_gauss_lobatto.hpp",I+"quadratures/bits/quad_raw_triangle.hpp",I+"quadratures/bits/quad_raw_tetra.hpp",I+"quadratures/bits/raw_simplices.hpp",I+"quadratures/bits/quad_raw_dunavant.hpp","libdiskpp/contrib/jburkardt/src"],
  [("gauss_legendre, gauss_lobatto, triangle_gauss, dunavant, grundmann_moeller, tetrahedron arbq",I+"quadratures/bits")])
p("Q02","Integrating over mesh cells and faces is exact for polynomials",
  "On every cell and every face of every supported mesh, integrating any polynomial of total degree up to the requested one gives its exact integral, the weights sum to the measure of the element, and the divergence theorem holds between each cell and its faces, whatever the storage kind, element shape or vertex order.",
  ["inputs","configurations"],"all cells and faces of all generated meshes up to the bound x all requested degrees x all monomials",
  "existing tests use a few monomials on four element shapes",
  [I+"quadratures/bits/quad_phys_generic.hpp",I+"quadratures/bits/quad_phys_simplicial.hpp",I+"quadratures/bits/quad_phys_cartesian.hpp",I+"quadratures/quad_bones.hpp"],
  [("integrate(msh, elem, degree)",I+"quadratures/quadratures.hpp")])
p("B01","Scalar polynomial bases span the full space with correct derivatives",
  "On every cell and face, the scalar basis of degree k has as many functions as the dimension of the polynomial space, is linearly independent, reproduces every polynomial of degree up to k through projection, its functions of degree at most j are the first ones of the basis, and its gradients, Laplacians and other derivatives are the derivatives of its functions.",
  ["inputs","configurations"],"all element shapes in dimensions 1, 2 and 3, all degrees up to the bound, all basis functions, evaluated at enough points to determine polynomials of that degree",
  "tests look at 1D and 2D monomial bases for one function",
  [I+"bases/bases_scalar.hpp",I+"bases/bases_new.hpp",I+"bases/bases_utils.hpp",I+"bases/bases_operations.hpp"],
  [("scaled_monomial_scalar_basis",I+"bases/bases_scalar.hpp"),("scalar_monomial",I+"bases/bases_new.hpp")])
p("B02","Vector- and matrix-valued bases span their spaces with correct operators",
  "On every cell and face, vector, matrix, symmetric-matrix, Raviart-Thomas and tangential bases have as many functions as their documented space has dimensions, are linearly independent, every function has the documented shape (symmetric where promised, tangential to the face where promised), and the gradients, symmetric gradients, divergences and curls they report are those of the functions.",
  ["inputs","configurations"],"all element shapes in 2D and 3D, all degrees up to the bound, all basis functions",
  "not covered by the existing unit tests",
  [I+"bases/bases_vector.hpp",I+"bases/bases_matrix.hpp",I+"bases/bases_utils.hpp"],
  [("scaled_monomial_vector_basis, scaled_monomial_vector_basis_RT, tangential bases",I+"bases/bases_vector.hpp"),("matrix and symmetric matrix bases",I+"bases/bases_matrix.hpp")])
p("B03","Projections and mass matrices act as exact L2 operators",
  "Projecting a function onto the polynomials of a cell or face returns polynomials of that degree unchanged, is idempotent, leaves an error orthogonal to the space, and mass, stiffness and right-hand-side integrals equal the exact integrals of the products they stand for, for every pair of test and trial degrees.",
  ["inputs","configurations"],"all element shapes, all basis degrees and all polynomials up to the bound, including trial degrees above the test degree",
  "tests only check the interpolation error of one smooth function",
  [I+"bases/bases_operations.hpp",I+"bases/bases_new.hpp",I+"bases/bases_all.hpp",I+"methods/implementation_hho/methods_hho.hpp"],
  [("project_function",I+"methods/implementation_hho/methods_hho.hpp"),("L2_projector",I+"bases/bases_operations.hpp")])
p("B04","Special scalar bases keep their defining property",
  "Harmonic basis functions have zero Laplacian and together span all harmonic polynomials of the degree, Legendre basis functions are mutually orthogonal on their element, and each reports the gradients of its own functions, on every element and for every degree offered.",
  ["inputs","configurations"],"all supported element shapes, all degrees up to the bound, all functions",
  "one test looks at harmonic functions on one triangle",
  [I+"bases/bases_scalar.hpp",I+"bases/bases_new.hpp"],
  [("harmonic and Legendre bases",I+"bases/bases_scalar.hpp")])
p("H01","Scalar HHO reconstructions are exact on polynomials",
  "For every cell shape and every admissible combination of cell, face and reconstruction degrees, the potential and gradient reconstructions applied to the interpolant of a polynomial of degree at most k+1 return that polynomial (its gradient), constants have zero reconstruction energy, and the local bilinear form is symmetric, positive semi-definite and equal to the energy of the reconstruction.",
  ["inputs","configurations"],"all element shapes in 2D and 3D x all (cell,face) degree combinations up to the bound x all monomials up to degree k+1 x all local unknowns",
  "convergence-rate programs exist in the application folder, but nothing in the test-suite checks the operators",
  [I+"methods/implementation_hho/scalar_hho_laplacian.hpp",I+"methods/implementation_hho/vector_hho_gradrec.hpp",I+"methods/implementation_hho/scalar_hho_divrec.hpp",I+"methods/implementation_hho/methods_hho.hpp",I+"methods/hho_slapl.hpp"],
  [("make_scalar_hho_laplacian, make_vector_hho_gradrec",I+"methods/implementation_hho")])
p("H02","Scalar HHO stabilizations are consistent and control the kernel",
  "Every scalar stabilization is symmetric and positive semi-definite, vanishes on interpolants of polynomials up to the degree it is designed for (k+1 for the HHO form, the cell degree for the others), and together with the reconstruction energy vanishes on constants only.",
  ["inputs","configurations"],"all element shapes x all degree combinations up to the bound x all monomials x all stabilization variants and scalings",
  "not covered by the test-suite",
  [I+"methods/implementation_hho/scalar_stabilization.hpp",I+"methods/hho_slapl.hpp"],
  [("make_scalar_hho_stabilization, make_scalar_hdg_stabilization, make_scalar_dg_stabilization",I+"methods/implementation_hho/scalar_stabilization.hpp")])
p("H03","Vector HHO operators are exact and have the right kernels",
  "Vector Laplacian, symmetric-gradient, full-gradient, matrix-gradient and divergence reconstructions satisfy their variational definition and return the exact quantity on interpolants of vector polynomials up to their design degree, the local forms are symmetric positive semi-definite, the stabilizations vanish on interpolants of the polynomials they are designed for, and reconstruction plus stabilization vanishes exactly on constants (full gradient) or, from degree one on, rigid motions (symmetric gradient).",
  ["inputs","configurations"],"all element shapes in 2D and 3D x degree combinations up to the bound x all vector monomials x all local unknowns",
  "not covered by the test-suite",
  [I+"methods/implementation_hho/vector_hho_laplacian.hpp",I+"methods/implementation_hho/matrix_hho_gradrec.hpp",I+"methods/implementation_hho/vector_stabilization.hpp",I+"methods/implementation_hho/scalar_hho_divrec.hpp"],
  [("make_vector_hho_symmetric_laplacian, make_matrix_hho_gradrec, make_vector_hho_stabilization",I+"methods/implementation_hho")])
p("H09","Curl operators of the Maxwell discretizations are exact and consistent",
  "For every cell, face and degree, the hybrid curl reconstructions (2D, 3D, full polynomial, Nedelec, and the divergence companion) satisfy their variational definition and return the curl of vector polynomials up to the design degree; the curl stabilizations are symmetric, positive semi-definite, vanish on interpolants of polynomials of their degree and control the tangential jumps; the impedance, plane-wave and mass terms equal the integrals they stand for; and the tangential projections return the L2 projections of the given field on cells and faces.",
  ["inputs","configurations"],"all 3D (and 2D where the operator exists) element shapes x degree combinations up to the bound x all vector monomials x all local unknowns",
  "not covered by the test-suite",
  [I+"methods/implementation_hho/curl.hpp"],
  [("curl_reconstruction*, curl_hdg_stabilization*, project_tangent*, maxwell_prj",I+"methods/implementation_hho/curl.hpp")])
p("H04","Static condensation and recovery reproduce the uncondensed solution",
  "For every element and degree combination, eliminating the cell unknowns, solving for the face unknowns and recovering the cell unknowns gives exactly the solution of the full local system, for the scalar, vector and curl variants (the cell block being symmetric positive definite for the HHO variants, any invertible real or complex block for the Schur complements of the curl ones); the condensed matrix is the Schur complement, hence symmetric when the system is; right-hand sides of other sizes than the documented ones are refused.",
  ["inputs","configurations"],"all element shapes x degree combinations x all unit right-hand sides up to the bound, on systems of every supported kind",
  "not covered by the test-suite",
  [I+"methods/implementation_hho/scalar_hho_condensation.hpp",I+"methods/implementation_hho/vector_hho_condensation.hpp",I+"methods/implementation_hho/curl.hpp",I+"methods/hho_slapl.hpp"],
  [("static_condensation / static_decondensation",I+"methods/implementation_hho/scalar_hho_condensation.hpp")])
p("H05","The scalar assembler builds the right global system for any boundary set",
  "For every mesh, degree and assignment of Dirichlet, Neumann and Robin conditions to boundary faces, the assembled matrix and right-hand side equal the sum of the local contributions restricted to the free unknowns with Dirichlet values moved to the right-hand side; assembling cells in any order gives the same system, and the extracted local solution has the Dirichlet values on Dirichlet faces and the global values elsewhere.",
  ["configurations","histories"],"small meshes x all subsets of boundary faces for each condition type x all cell assembly orders up to the bound",
  "no test assembles a system with more than one condition type",
  [I+"methods/implementation_hho/assembler_hho.hpp",I+"methods/hho_assemblers.hpp",I+"boundary_conditions/boundary_conditions.hpp"],
  [("diffusion_condensed_assembler, scalar_primal_hho_assembler",I+"methods/implementation_hho/assembler_hho.hpp"),("block assemblers",I+"methods/hho_assemblers.hpp")])
p("H06","The vector assemblers impose exactly the requested constraints",
  "For every assignment of the vector boundary conditions (full, per-component and clamped Dirichlet, Neumann, Neumann combined with per-component Dirichlet, and contact) to boundary faces, the assembled vector and mechanics systems equal the sum of local contributions restricted to the unconstrained components, the constrained components of the recovered solution carry the imposed values, and the number of unknowns is the number of unconstrained ones; the Stokes systems moreover contain the pressure coupling and the zero-mean constraint of the pressure.",
  ["configurations","histories"],"small 2D and 3D meshes x every condition type on every subset of boundary sides",
  "not covered by the test-suite",
  [I+"methods/implementation_hho/assembler_hho.hpp",I+"boundary_conditions/boundary_conditions.hpp"],
  [("vector_primal_hho_assembler, vector_mechanics_hho_assembler, assembler_mechanics, stokes_assembler",I+"methods/implementation_hho/assembler_hho.hpp")])
p("H07","Complete HHO solvers reproduce polynomial solutions",
  "Solving the Poisson problem, the vector Laplacian or linear elasticity on any supported mesh with data taken from a polynomial of degree at most the one the scheme resolves returns that polynomial's interpolant up to rounding, for every mesh type, degree and combination of Dirichlet and Neumann sides that makes the problem well posed.",
  ["inputs","configurations"],"all mesh types and refinement levels up to the bound x all degree combinations x all monomial solutions x Dirichlet/Neumann choices of the sides",
  "the application programs print convergence rates which no test checks",
  [I+"methods/implementation_hho",I+"methods/hho_slapl.hpp",I+"methods/hho_assemblers.hpp"],
  [("assembly, condensation and recovery pipeline",I+"methods/implementation_hho/assembler_hho.hpp")])
p("H08","Degrees and unknown counts are always consistent",
  "The number of unknowns reported for a cell, a face, a cell with its faces, and a whole mesh equals the size of the corresponding bases for every degree and mixture of degrees; a setter changes exactly the degree it names, and inadmissible combinations of cell, face and reconstruction degrees are refused or corrected as documented, never kept.",
  ["configurations","histories"],"all triples of degrees and all sequences of setter calls up to the bound; all per-face degree maps on small meshes",
  "not covered by the test-suite",
  [I+"methods/implementation_hho/utils_hho.hpp",I+"adaptivity/adaptivity.hpp",I+"bases/bases_utils.hpp"],
  [("hho_degree_info",I+"methods/implementation_hho/utils_hho.hpp"),("MeshDegreeInfo, CellDegreeInfo",I+"adaptivity/adaptivity.hpp")])
p("K01","Boundary conditions report exactly what was imposed",
  "After any sequence of declarations (everywhere, per boundary id, for Dirichlet, Neumann, Robin and contact types), each boundary face reports exactly the type, id and value of the condition declared for it, faces with none report none, internal faces never carry one, and the counts of faces with each type equal the number of faces that report it. Where several declarations of one kind name the same face, the last one counts.",
  ["histories"],"all sequences of declarations up to the bound on small meshes, all faces after each step, scalar and vector",
  "no test constructs boundary conditions",
  [I+"boundary_conditions/boundary_conditions.hpp"],
  [("BoundaryConditions",I+"boundary_conditions/boundary_conditions.hpp")],
  state=[("per-face condition tables","condition type and id of each face, and counters per type")])
p("L01","Loading a mesh file yields the mesh written in it",
  "For every supported file format, and for geometries and meshes read through GMSH, loading a well-formed file produces a mesh with exactly the nodes, cells, faces, boundary ids and connectivity the file describes, whatever order the file lists its entities in and wherever cells start their vertex list; every face of a cell is found, subdomain ids are kept, faces attached to one cell are marked as boundary, and listed faces between two cells are marked as internal interfaces. Meshes holding a kind of cell that the GMSH loader at hand does not support are refused.",
  ["inputs"],"small meshes written in every format, with all admissible permutations of nodes, cells and vertex rotations up to the bound",
  "the repository ships sample meshes, but no test checks what the loaders produce",
  [I+"loaders/loader_fvca5.hpp",I+"loaders/loader_fvca6.hpp",I+"loaders/loader_medit.hpp",I+"loaders/loader_netgen.hpp",I+"loaders/loader_cartesian.hpp",I+"loaders/loader_poly.hpp",I+"loaders/loader_gmsh.hpp"],
  [("mesh_loader::read_mesh / populate_mesh",I+"loaders/loader.hpp")])
p("L02","Missing or truncated mesh files are reported, never half-loaded",
  "When a mesh file is missing, empty, cut at any point or refers to a node that does not exist, the loader terminates and reports failure or throws; it does not crash, does not loop forever, and never reports success for a file that has lost an entry (a cut inside the very last number, which leaves a well-formed file, only has to terminate).",
  ["inputs","fault_sequences"],"for every format: every prefix of a small valid file, and every single out-of-range index",
  "no test feeds a loader an invalid file",
  [I+"loaders/loader_fvca5.hpp",I+"loaders/loader_fvca6.hpp",I+"loaders/loader_medit.hpp",I+"loaders/loader_netgen.hpp",I+"loaders/loader_cartesian.hpp",I+"loaders/loader_poly.hpp",I+"loaders/strtot.hpp","libdiskpp/src/common/mapped_file.cpp"],
  [("read_mesh",I+"loaders")])
p("T01","A mesh hierarchy nests and locates points correctly",
  "In a hierarchy of refined triangular meshes every cell of a level is contained in its parent, the children of a cell tile it, boundary faces keep their ids across levels, and locating a point of any level in another level returns a cell that contains it.",
  ["configurations","inputs"],"all hierarchies up to the bound on levels x initial meshes x all cells x all lattice points of each cell",
  "not covered by the test-suite",
  [I+"mesh/mesh_hierarchy.hpp"],[("mesh_hierarchy",I+"mesh/mesh_hierarchy.hpp")])
p("R01","Rational and point arithmetic obey exact arithmetic",
  "Rational numbers behave as the exact quotients they denote under every sequence of additions, subtractions, multiplications, divisions, comparisons and conversions, equal values compare equal whatever operations produced them, and point and vector arithmetic is componentwise exact.",
  ["inputs","histories"],"all pairs of small fractions with all operators, all operator sequences up to the bound, signs included",
  "not covered by the test-suite",
  [I+"mesh/rational.hpp",I+"mesh/point.hpp"],[("rational",I+"mesh/rational.hpp"),("point",I+"mesh/point.hpp")])
p("P01","Plasticity laws stay admissible along every loading history",
  "Along any sequence of strain increments and state updates, hardening laws keep the stress inside the current yield surface, plastic strain deviatoric and non-decreasing in the cumulated measure, total strain equal to elastic plus plastic, repeating a step without updating changes nothing, elastic unloading does not alter plastic state, and the reported tangent is the derivative of the stress.",
  ["histories"],"all strain paths up to the bound over a set of increments with update or repeat at each step, for each law and dimension",
  "the existing test compares one monotonic tension path",
  [I+"mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp",I+"mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp",I+"mechanics/behaviors/laws/behaviorlaws.hpp",I+"mechanics/behaviors/laws/law_qp_bones.hpp"],
  [("compute_whole / update",I+"mechanics/behaviors/laws"),("Behavior",I+"mechanics/behaviors/laws/behaviorlaws.hpp")],
  state=[("internal variables","previous and current elastic strain, plastic strain and cumulated plastic strain")])
p("P02","Stress, tangent and energy of elastic laws agree with each other",
  "For every elastic and hyperelastic law, in two and three dimensions, the stress is the derivative of the stored energy where one is given, the tangent is the derivative of the stress with its symmetries (the Hencky-Mises law documents elastic moduli instead), the undeformed state has zero stress (except for the cavitation law, whose documented energy has none), rigid rotations do not change the energy, and inverted deformations are refused; the logarithmic-strain wrapper gives the same agreement, also when principal stretches coincide.",
  ["inputs"],"all laws and material variants x a lattice of deformations including repeated principal stretches, rotated in all lattice orientations",
  "the existing test uses one deformation path and no derivative check",
  [I+"mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp",I+"mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp",I+"mechanics/behaviors/laws/LinearElasticityLaw/LinearElasticityLaw.hpp",I+"mechanics/behaviors/laws/HenckyMises/HenckyMises_qp.hpp",I+"mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp",I+"mechanics/behaviors/logarithmic_strain/LogarithmicStrain_qp.hpp"],
  [("compute_whole, compute_energy",I+"mechanics/behaviors/laws"),("compute_projector_PK2",I+"mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp")])
p("P03","Tensor algebra and stress/strain conversions are exact",
  "Fourth-order tensor products, contractions, transposes and identities follow their index definitions, conversions between stress measures and between strain measures are mutually inverse and agree with their definitions, and packing a tensor in the external-solver layout and unpacking it returns the same tensor, for every dimension and layout size.",
  ["inputs"],"all basis tensors (which determine the linear maps completely) in dimensions 2 and 3, all layout sizes, a lattice of deformation gradients",
  "not covered by the test-suite",
  [I+"mechanics/behaviors/maths_tensor.hpp",I+"mechanics/behaviors/tensor_conversion.hpp",I+"mechanics/stress_tensors.hpp",I+"mechanics/deformation_tensors.hpp",I+"mechanics/behaviors/maths_utils.hpp"],
  [("tm_prod, Kronecker, ProductSup/Inf, ContractedProduct",I+"mechanics/behaviors/maths_tensor.hpp"),("convertMatrixToMgis/FromMgis",I+"mechanics/behaviors/tensor_conversion.hpp")])
p("P04","The time-step list always covers the interval",
  "For any sequence of splitting and completing time steps, the remaining steps start where the last completed one ended, follow each other without gap or overlap, and end exactly at the requested final time; the counters of completed, remaining and total steps agree with the steps, and a split step has its level increased by one.",
  ["histories"],"all interval lists up to the bound and all sequences of split and complete operations up to the bound, explored as a state graph",
  "not covered by the test-suite",
  [I+"mechanics/NewtonSolver/TimeManager.hpp"],[("ListOfTimeStep",I+"mechanics/NewtonSolver/TimeManager.hpp")],
  state=[("list of steps","remaining steps with start, end and level, and number completed")])
p("V01","Virtual element operators are exact on polynomials",
  "On every polygonal cell and for every degree, the local projectors reproduce polynomials of the method's degree from their degrees of freedom, the local stiffness matrix is symmetric positive semi-definite with exactly the constants in its kernel and has the exact energy on polynomials, and faces are traversed counter-clockwise.",
  ["inputs","configurations"],"all lattice polygons and generated cells up to the bound x all degrees offered x all monomials",
  "not covered by the test-suite",
  [I+"methods/implementation_vem/methods_vem_2d.hpp"],[("matrix_G, matrix_B, matrix_D, projector_nabla",I+"methods/implementation_vem/methods_vem_2d.hpp")])
p("D01","Discrete geometric operators satisfy the exactness identities",
  "On every tetrahedral mesh the discrete gradient, curl and divergence compose to zero, primal and dual geometric quantities of each cell are dual to each other and sum to three times its volume, and the constitutive matrices are symmetric positive definite and exact on constant fields.",
  ["inputs","configurations"],"all lattice tetrahedra up to the bound and all cells of generated meshes, all constant fields",
  "tests evaluate one tetrahedron",
  [I+"methods/implementation_dga/methods_dga.hpp"],[("primal/dual vectors, edge_matrix, face_matrix, grad/curl matrices",I+"methods/implementation_dga/methods_dga.hpp")])
p("D02","Nodal finite elements and DG assembly are exact and order-independent",
  "The first-order nodal element has basis functions that are one at their node and sum to one, its mass, stiffness and load integrals are exact, and the discontinuous Galerkin assemblers produce the block system given by the local contributions whatever the order in which cells and faces are assembled.",
  ["inputs","configurations","histories"],"all lattice triangles up to the bound; small meshes with all assembly orders up to the bound",
  "not covered by the test-suite",
  [I+"cfem/cfem.hpp",I+"methods/implementation_dg/assembler.hpp"],[("cfem",I+"cfem/cfem.hpp"),("discontinuous_galerkin_assembler",I+"methods/implementation_dg/assembler.hpp")])
p("E01","Exported result files contain the mesh and the fields",
  "Writing a mesh and its nodal or zonal, scalar, vector or complex fields to a visualisation database and reading it back yields the same nodes, cells, connectivity and values, for every mesh storage kind; operations on a database that is not open are refused and any sequence of create, open, write and close leaves a readable file.",
  ["configurations","histories"],"all mesh storage kinds x field kinds, and all operation sequences up to the bound",
  "no test reads a written file back",
  [I+"output/silo.hpp"],[("silo_database",I+"output/silo.hpp")])
p("E02","Post-processing meshes carry every cell and vertex once",
  "Converting a computational mesh for post-processing yields elements that tile each cell, with nodes at the mesh vertices (and points added inside cells and faces of polyhedra), numbered consistently between connectivity, cell lists and coordinates, for every mesh type.",
  ["configurations"],"all mesh types and levels up to the bound, all cells",
  "not covered by the test-suite",
  [I+"output/postMesh.hpp",I+"output/gmshDisk.hpp",I+"output/gmshConvertMesh.hpp"],[("PostMesh",I+"output/postMesh.hpp")])
p("F01","Memory-mapped file reading is safe over any call sequence",
  "For any sequence of opening (existing, empty or missing files), reading lines and closing, the reader returns exactly the lines of the file in order, reports whether it is open truthfully, and neither touches file descriptors or memory it does not own nor leaks those it does.",
  ["histories"],"all operation sequences up to the bound over files with all line structures up to the bound, explored as a state graph with the descriptor table observed after each step",
  "no test uses it directly",
  ["libdiskpp/src/common/mapped_file.cpp",I+"common/mapped_file.h"],[("mapped_file","libdiskpp/src/common/mapped_file.cpp")],
  state=[("mapping","descriptor, address range, read position, open flag")])
for x in P: print(json.dumps(x))
