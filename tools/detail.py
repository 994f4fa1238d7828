D = dict(
L01="Every operator is called on matrices/vectors whose entries are all symbolic, for each shape; the result is compared entry-wise with the definition, operands are compared with their value before the call.",
L02="Determinant against the Leibniz sum (and multiplicativity); inverse by multiplying back on both sides under |det| > bound.",
L03="Construct/copy/assign/self-assign/destroy scripts chosen by symbolic selectors; the engine's memory model decides aliasing, double free, leaks and uninitialised reads, the obligations compare values before and after.",
S01="Write histories with symbolic positions (bit-vector columns) and values; any read must return the last write (ite chain over the history) and zero elsewhere; structure invariants of the compressed form through reads, products and conversions.",
S02="Every pattern (solver case split over the mask), symbolic values; compared with the dense sums/products. The OpenMP loop of the product is executed with all threads and checked for conflicting accesses.",
K01="PA = LU, permutation property, A x = b, re-use of the factors, bounded multipliers; pivot comparisons fork symbolically so every pivot order is explored.",
K02="Residual of the returned vector below the tolerance for any magnitude of b; exactness after n steps; first step equals steepest descent; zero right-hand side.",
K03="As K02 for BiCGSTAB, BiCGSTAB2, scaled and ILU(0) variants, plus the exact half step.",
K04="(LU)_ij = A_ij on the pattern, no entry outside, preconditioner solve multiplied back by L U; diagonal extraction and scaling.",
K05="Textbook SOR sweep written in the harness compared for 0..2 sweeps with symbolic relaxation factor; SOR-preconditioned CG; zero entries in b.",
F01="Cardinality, partition of unity, polynomial reproduction, derivative of N by the engine's symbolic differentiation-by-coefficients (central identity on a symbolic direction), for all local coordinates.",
F02="Quadrature sum of a polynomial with symbolic coefficients against its exact integral; points inside the domain.",
B01="Numbering written as a direct definition over the sets of fixed/tied dofs; all sets by solver case split, symbolic values.",
A01="Dense gather of symbolic element matrices by definition, compared with every overload of Assembling / Disassembling for all prescription patterns.",
G01="Shoelace area, triple product volume, centroid, Lagrange cardinal polynomials, averages and line integrals against closed forms.",
P01="The oracle evaluates the weak form from its own shape functions, Jacobian and constitutive law at the same symbolic integration points (rules are replaced by a harness rule class with symbolic points and weights), entry by entry; further obligations: symmetry, rigid motions, total mass, load resultants, labels.",
P02="As P01 for plane stress, 3-D solid and truss.",
P03="Degenerated-solid strain in the harness (own directors, local frames, Jacobian), compared as bilinear form on symbolic dof vectors, rigid motions and symmetry.",
P04="Weak forms of heat, diffusion, advection, reaction from own shape functions; SUPG parameter and shock-capturing term by their defining formula, also at lengths of 1e9 and velocities of 1e-9. units_* entries (here and in P01, P02, P06, N01) scale the coefficients or the thickness by 1e-7..1e9 and compare relative results.",
P05="Residual against the weak form; tangent against the directional derivative of the code's own residual in a symbolic direction; rigid fluid motion; decoupled scheme steps; adjoint = transpose; SUPG/PSPG terms at velocities of 1e-7..1e4.",
P06="Characteristic loads and effective tensor as integrals of (I - eps(chi))^T D (I - eps(chi)).",
N01="Internal force against the energy gradient of the constitutive law written in the harness; tangent applied to a symbolic direction against the exact derivative of the force (polynomial/rational differentiation by coefficient extraction).",
O01="Weighted means by definition; chain rule: <filtered sensitivities, dx> = <sensitivities, d(filtered)/dx dx> for every direction. Weights from 1e-12 to 1e9 and sensitivities up to 1e12 in size are covered by entries of their own.",
O02="Every sequence of constraint outcomes during bisection is a symbolic choice; the harness tracks the bracket and checks each trial design passed to the callback and the final design. oc_bracket follows the bisection far down an unbalanced bracket, oc_late lets the constraint turn late.",
O03="Black box: convergence test for every pair of objectives. White box (optional): the subproblem is observed through the KKT-norm hook, value/gradient matching at the current point, asymptote rule over symbolic histories, Newton direction satisfies the linearised perturbed KKT system, KKT norm and dense solver as units, line-search/barrier logic for every outcome of residual comparisons. Step-length entries let one block of the interior-point vector range over three decades while the rest is fixed; two entries run whole histories of updates (2, 4, 7, 10) so that the asymptote rule is seen late.",
O04="As O03 for CONLIN (fixed asymptotes by sign of the derivative).",
M01="Coordinates against the grid formula, convexity of every corner by the cross product, total area, directed-edge table (each edge once per direction), boundary edges = outline, selections for a predicate that singles out or rejects any one node.",
M02="As M01; circles through their defining equation (cos/sin atoms of the sector angle), perforated grids through the set of cells.",
M03="Signed areas (positive; sum = polygon area minus holes), directed-edge table, reported edges = unmatched directed edges, given vertices unchanged. sqrt atoms for distances, acos atoms for the (unused) angles.",
X01="An independent reader of the legacy VTK grammar in the harness parses what the writer produced; files written by the harness are read by the code with every pair of requests; round trip. Symbolic doubles are printed as unique tokens that the parser maps back to the symbolic value. big_* entries write and read meshes of 70 points and 66 cells of up to 27 nodes.",
X02="Files are generated by the harness from symbolic contents in five layouts; the model after the import is compared with the contents, including the untouched part.",
E01="Black box: bisection on families with known spectrum and symbolic scale, inverse iteration, linear combination. White box (optional): the small eigen-solver and ScalingCG are specialised by recording/exact stand-ins; basis Gram matrix, projected operator, mapping of Ritz values, orthogonality after a perturbed linear solve.",
)
