EQ = "src/FEM/Equation/"
OP = "src/Optimize/"
p("P01", "Plane-strain elements compute the exact linear-elastic forms",
  "For every geometry, integration rule, material and thickness the plane-strain stiffness is the quadrature of B^T D B t (so it is symmetric and produces no force under any rigid motion), the reduced-integration, B-bar and incompatible-mode variants integrate the volumetric/deviatoric/condensed parts their names promise, the mass matrix carries the full element mass, body and surface forces are the consistent nodal loads of the given load function, and every row is labelled with the degree of freedom it belongs to.",
  ["inputs", "configurations"], "symbolic coordinates or integration points and weights, material, thickness and loads, per element type",
  SAMPLES + "one regular mesh with one material: swapped terms that vanish on rectangles, for thickness 1 or at symmetric points cannot show.",
  [EQ+"PlaneStrain.h"], [("stiffness, SRI, B-bar, Wilson-Taylor, mass, loads", EQ+"PlaneStrain.h")])
p("P02", "Plane-stress, solid and truss elements compute exact linear-elastic forms",
  "For every geometry, integration rule and material the plane-stress and three-dimensional stiffness matrices are the quadrature of B^T D B (symmetric, no force under rigid motion), mass and load vectors are the consistent ones for plane stress, and the truss has axial stiffness EA/l in its own direction; rows are labelled with the right degrees of freedom.",
  ["inputs", "configurations"], "symbolic coordinates or integration points and weights, material, thickness and loads, per element type",
  SAMPLES + "one mesh and material per sample; distorted elements never occur.",
  [EQ+"PlaneStress.h", EQ+"Solid.h", EQ+"Truss.h"], [("plane stress", EQ+"PlaneStress.h"), ("solid", EQ+"Solid.h"), ("truss", EQ+"Truss.h")])
p("P03", "Shell and beam elements compute the degenerated-solid stiffness",
  "The shell (five and six degrees of freedom per node) and beam stiffness matrices are the quadrature of the degenerated-solid virtual work with their local constitutive law and shear correction, symmetric and free of force under every rigid translation and rotation, with every row labelled by its node and degree of freedom.",
  ["inputs", "configurations"], "plane and warped shells, straight, curved and twisted beams; symbolic integration points, thickness/section, material",
  SAMPLES + "flat plates and straight beams only.",
  [EQ+"Shell.h", EQ+"Beam.h"], [("5- and 6-dof shell", EQ+"Shell.h"), ("3-D beam", EQ+"Beam.h")])
p("P04", "Heat, advection and reaction-diffusion elements compute their weak forms",
  "Capacity, conduction, advection, reaction, source and flux terms and their consistent tangents are the exact quadrature of their weak forms for every geometry and field; constant fields produce no conduction or advection; stabilisation terms scale with the residual operator and stabilisation parameter they are defined by.",
  ["inputs", "configurations"], "symbolic geometry or integration points, fields, velocities and coefficients",
  SAMPLES + "one velocity and one mesh.",
  [EQ+"HeatTransfer.h", EQ+"Advection.h", EQ+"ReactionDiffusion.h"], [("heat", EQ+"HeatTransfer.h"), ("advection and SUPG", EQ+"Advection.h"), ("reaction-diffusion", EQ+"ReactionDiffusion.h")])
p("P05", "Stokes and Navier-Stokes elements: exact weak forms and consistent tangents",
  "The viscous, pressure, continuity, convective, mass, permeability and stabilisation terms are the exact quadrature of their weak forms; the tangent matrix is the derivative of the residual vector for every state; rigid motion of the fluid causes no viscous force; velocity and pressure rows carry their own degree-of-freedom labels.",
  ["inputs", "configurations"], "symbolic geometry or all nodal velocities and pressures, density, viscosity, permeability, time step, mixed and equal-order pairs",
  SAMPLES + "Newton iterations still converge with a slightly wrong tangent, and one flow is sampled.",
  [EQ+"Stokes.h", EQ+"NavierStokes.h"], [("Stokes", EQ+"Stokes.h"), ("Navier-Stokes residual/tangent/SUPG/decoupled", EQ+"NavierStokes.h")])
p("P06", "Homogenisation computes the characteristic loads and effective tensor",
  "The homogenisation stiffness, macroscopic-strain load vectors and effective elasticity contributions (including the check matrix) are the exact quadrature of their definitions with the given elasticity, for every geometry and corrector field; B-bar and incompatible-mode variants split or condense exactly the parts they name.",
  ["inputs", "configurations"], "symbolic geometry or integration points, material, correctors, full elasticity matrix",
  SAMPLES + "one symmetric cell with one material.",
  [EQ+"Homogenization.h"], [("homogenisation forms", EQ+"Homogenization.h")],
  "B-bar with a given elasticity matrix is checked for square-symmetric D only.")
p("N01", "Nonlinear elements: exact internal force and consistent tangent",
  "Total-Lagrange (St. Venant-Kirchhoff) and updated-Lagrange (neo-Hookean) elements return the exact internal force for every displacement, scaled by the thickness, vanishing under rigid motion; the tangent stiffness equals the derivative of that force; the follower pressure acts along the current normal.",
  ["inputs", "configurations"], "symbolic displacements, geometry or integration points, material, thickness",
  SAMPLES + "Newton iterations hide an inconsistent tangent and thickness 1 hides a missing factor.",
  [EQ+"PlaneStrain.h", EQ+"Solid.h"], [("plane-strain TL/UL and pressure", EQ+"PlaneStrain.h"), ("solid TL/UL", EQ+"Solid.h")],
  "Follower-pressure tangent: the symmetrised linearisation the code documents; updated-Lagrange entries use one integration point.")
p("O01", "Filters average with their weights; sensitivities obey the chain rule",
  "Density filters return the weighted mean of the neighbourhood (with the Heaviside projection where applicable), sensitivity filters the weighted mean they are defined by, and filtered sensitivities are the transpose (chain rule) of the variable filter for every neighbourhood, weight set and field.",
  ["inputs", "configurations"], "symbolic weights, densities, sensitivities and projection parameter; symmetric and asymmetric neighbourhoods",
  SAMPLES + "regular meshes with uniform weights in the interior hide a missing transpose.",
  [OP+"Filter/DensityFilter.h", OP+"Filter/HeavisideFilter.h", OP+"Filter/SensitivityFilter.h"], [("density filter", OP+"Filter/DensityFilter.h"), ("Heaviside filter", OP+"Filter/HeavisideFilter.h"), ("sensitivity filters", OP+"Filter/SensitivityFilter.h")])
p("O02", "The optimality-criteria update respects limits and finds the multiplier",
  "Each optimality-criteria step changes a variable to the damped criterion value clamped by the move limit and the admissible range, bisects the multiplier according to the sign of the constraint until the requested bracket, and convergence is declared exactly when the relative change of the objective is below the tolerance, whatever its sign.",
  ["inputs", "histories"], "symbolic design, gradients, move limit; every sequence of constraint outcomes during bisection; every pair of objectives",
  SAMPLES + "one optimisation history with positive objectives.",
  [OP+"Solver/OC.h"], [("update, bisection, convergence", OP+"Solver/OC.h")])
p("O03", "MMA: defined subproblem, exact Newton steps, correct stopping",
  "The method of moving asymptotes moves asymptotes by the oscillation rule of the iteration history, keeps the design inside bounds and move limits, builds the separable convex subproblem whose value and gradient match the originals at the current point, solves its perturbed optimality conditions with exact Newton directions, keeps all positive quantities positive in the line search, reduces the barrier only when the residual allows it, and reports convergence exactly when the relative objective change is below the tolerance, whatever its sign.",
  ["inputs", "histories"], "symbolic designs, histories, gradients, multipliers; every outcome of residual comparisons; every pair of objectives",
  SAMPLES + "optimisation still converges with slightly wrong asymptotes or Newton steps.",
  [OP+"Solver/MMA.h"], [("asymptotes, subproblem, primal-dual Newton, convergence", OP+"Solver/MMA.h")],
  "White-box parts (subproblem, Newton) are tied to the private helper interface; when that interface changes they are reported inconclusive and only the public behaviour is decided.")
p("O04", "CONLIN: defined subproblem, exact Newton steps, correct stopping",
  "Convex linearisation builds the separable convex subproblem by the sign of each derivative with value and gradient matching the originals at the current point, keeps the design inside bounds and move limits, solves the perturbed optimality conditions with exact Newton directions and a positivity-preserving line search, and reports convergence exactly when the relative objective change is below the tolerance, whatever its sign.",
  ["inputs", "histories"], "symbolic designs, gradients, multipliers; every outcome of residual comparisons; every pair of objectives",
  SAMPLES + "no stable sample exercises unusual signs or more constraints than variables.",
  [OP+"Solver/CONLIN.h"], [("subproblem, primal-dual Newton, convergence", OP+"Solver/CONLIN.h")],
  "White-box parts (subproblem, Newton) are tied to the private helper interface; when that interface changes they are reported inconclusive and only the public behaviour is decided.")
ME="src/PrePost/Mesher/"; IM="src/PrePost/Import/"
p("M01", "Rectangle meshes and ground structures: exact geometry and topology",
  "For every extent and division, the rectangle meshers (first order, second order, graded) return nodes on the prescribed grid, convex counter-clockwise elements that cover the rectangle exactly, conform to one another and use every node; boundary edges are exactly the outline; selection of elements, edges and prescribed degrees of freedom returns exactly those whose nodes satisfy the predicate; the ground structure connects every pair of nodes within the given length exactly once.",
  ["inputs", "configurations"], "symbolic extents, growth ratios, maximal lengths; all divisions and selected nodes within bounds",
  SAMPLES + "square divisions and unit extents hide swapped directions, and no test looks at selections that reject some nodes.",
  [ME+"SquareMesh.h", ME+"GrandStructure.h"], [("rectangle meshers", ME+"SquareMesh.h"), ("ground structure", ME+"GrandStructure.h")],
  "Growth ratio exactly 1 of the graded mesher (geometric series formula divides by zero) is outside the bounds.")
p("M02", "Annular and perforated meshes: exact geometry and topology",
  "For every size and division, the meshers of the circular annulus, the rectangular frame, the grid with a hole and the rectangle with a circular hole return nodes on the prescribed curves, convex counter-clockwise conforming elements covering the domain exactly and using every node, boundary edges that are exactly the inner and outer outline, and prescribed lists that contain exactly the nodes at which the predicate holds.",
  ["inputs", "configurations"], "symbolic radii and extents; all divisions and selected nodes within bounds",
  SAMPLES + "an error in wrap-around indices or in the coordinates given to the predicate shows only for particular divisions or predicates.",
  [ME+"AnnulusMesh.h", ME+"SquareAnnulusMesh.h", ME+"SquareCircleAnnulusMesh.h"], [("circular annulus", ME+"AnnulusMesh.h"), ("frame and grid with hole", ME+"SquareAnnulusMesh.h"), ("circular hole", ME+"SquareCircleAnnulusMesh.h")])
p("M03", "Delaunay mesher returns a valid triangulation of the given outline",
  "For outlines given clockwise (holes counter-clockwise), the Delaunay mesher returns counter-clockwise triangles of positive area that conform to one another, cover the region exactly (holes left out), use every node and keep the given vertices in order; the reported edges are exactly the boundary of the mesh, none is longer than the requested size, and the prescribed list holds exactly the nodes that satisfy the predicate, wherever the vertices are and whichever outline vertex comes first.",
  ["inputs"], "one or two symbolic vertex coordinates on triangles, convex and concave quadrilaterals, a hexagon, outlines that touch the start triangle's directions, an L shape and an outline with a hole; hence every order of swaps and refinements that they induce",
  SAMPLES + "one L-shaped outline is meshed and the result is only written to a file.",
  [ME+"Delaunay.h"], [("insertion, swapping, refinement, smoothing", ME+"Delaunay.h")],
  "Vertex positions collinear with two other points up to the mesher's own tolerance are excluded; outline edges that cross several edges of the intermediate mesh are a recorded finding.")
p("X01", "VTK export and import transport the model unchanged",
  "The VTK writer produces a well-formed file holding exactly the given points (padded with zeros to three coordinates), cells, cell types and point/cell data with the right counts; the readers return exactly the points, cells and named data of the file, for every value and dimension and in any order of requests, and an empty result for names the file does not hold.",
  ["inputs", "histories"], "symbolic values; all sizes, dimensions, orders of two requests within bounds",
  SAMPLES + "one file is read in file order.",
  ["src/PrePost/Export/ExportToVTK.h", IM+"ImportFromVTK.h", IM+"ImportFromVTK2.h"], [("writer", "src/PrePost/Export/ExportToVTK.h"), ("readers", IM+"ImportFromVTK.h")],
  "Number formatting is the standard library's (symbolic numbers travel as tokens); file streams are in-memory stand-ins in the symbolic run and real scratch files in the replay.")
p("X02", "CSV importers transfer every row exactly",
  "The CSV importers append every data row of the file in order with the right node, element and component indices, skip the header, blank lines and entries marked free, accept LF/CRLF endings and a missing final newline, leave components that a row does not give alone, and return false without touching the model when the file does not exist.",
  ["inputs", "configurations"], "symbolic values and node numbers, every pattern of free/numeric entries, five file layouts",
  SAMPLES + "the sample files have complete rows and one layout.",
  [IM+"ImportFromCSV.h"], [("importers", IM+"ImportFromCSV.h")],
  "Text-to-number conversion is the standard library's.")
LZ="src/LinearAlgebra/Solvers/Lanczos.h"
p("E01", "Lanczos eigen-solvers: orthonormal basis, exact projection, right mode",
  "Every Lanczos variant builds a basis orthonormal in the inner product of the problem (the mass matrix for the generalised ones) in which the (shift-inverted) operator is the tridiagonal matrix it diagonalises, re-orthogonalises where it says so, returns the k-th eigenvalue of the original problem as k-th value (transformed back from the shift) with the eigenvector that belongs to it; bisection returns the requested eigenvalue of a symmetric tridiagonal matrix and inverse iteration its unit eigenvector.",
  ["inputs"], "symbolic matrix entries, shift, mass matrix and Ritz values; every scale for bisection; n <= 4, m <= 5",
  SAMPLES + "identity-like mass matrices hide the wrong inner product.",
  [LZ], [("bisection, inverse iteration, five Lanczos processes", LZ)],
  "Break-down (zero off-diagonal) and convergence of many-step processes are outside; the processes are observed through stand-ins for the small eigen-solver and the linear solver (optional white-box harness).")
