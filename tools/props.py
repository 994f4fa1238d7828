#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py). Only properties with a harness in harness/index.json are claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _note=note))
LA = "src/LinearAlgebra/"
SAMPLES = "The repository's tests only run whole sample programs on one fixed mesh and compare the resulting field with a stored file; "

p("L01", "Dense vector and matrix algebra equals its mathematical definition",
  "Every operation on dense vectors and matrices (sums, differences, scaling, products, transpose, dot/inner products, norms, normalisation, outer products, blocks, concatenation, diagonal, cross product) returns exactly the mathematically defined result with the right shape. Operands that are not the target of an in-place operation are left unchanged.",
  ["inputs"], "all real entries, all shapes up to the bound, including aliasing of operand and result",
  SAMPLES + "they exercise a handful of shapes and values and cannot distinguish, say, a transposed block written with swapped offsets in a shape they never use.",
  [LA+"Models/Vector.h", LA+"Models/Matrix.h"], [("dense vector operators", LA+"Models/Vector.h"), ("dense matrix operators", LA+"Models/Matrix.h")])
p("L02", "Determinant and inverse are exact for every non-singular matrix",
  "The determinant of a square matrix equals its Leibniz expansion, and the inverse multiplied with the matrix on either side gives the identity, whenever the matrix is non-singular — including matrices that need row exchanges.",
  ["inputs"], "all real square matrices up to the bound, including zero leading entries and equal-magnitude pivots",
  SAMPLES + "inverses there are of well-conditioned Jacobians; pivot orders that need exchanges never occur.",
  [LA+"Models/Matrix.h"], [("determinant", LA+"Models/Matrix.h"), ("inverse", LA+"Models/Matrix.h")])
p("L03", "Dense containers have value semantics and own their storage exactly once",
  "Copying, assigning (including self-assignment and assignment between different sizes), passing and destroying vectors and matrices never aliases two objects, never reads or frees storage twice and never leaks; a copy stays equal to the source as it was when copied.",
  ["histories", "inputs"], "all sequences of construct/copy/assign/modify/destroy up to the bound over several objects of different sizes",
  SAMPLES + "leaks and dangling reads there go unnoticed, and the operation orders that cause them are a matter of history, not of one input.",
  [LA+"Models/Vector.h", LA+"Models/Matrix.h"], [("copy/assignment/destructor", LA+"Models/Vector.h"), ("copy/assignment/destructor", LA+"Models/Matrix.h")])
p("S01", "A sparse matrix behaves as a finite map from positions to values",
  "After any sequence of writes, reading any position of a sparse matrix returns the value last written there and zero where nothing was written; converting the building form to the compressed form preserves every entry, and the compressed form keeps strictly increasing column indices with consistent row offsets.",
  ["histories", "inputs"], "all sequences of set/get on both sparse forms up to the bound, all orders and positions, symbolic values",
  SAMPLES + "insertion order there is fixed by one mesh, so branches for inserting before, between or after existing entries are sampled once.",
  [LA+"Models/CSR.h", LA+"Models/LILCSR.h"], [("get/set/binary search", LA+"Models/CSR.h"), ("row lists", LA+"Models/LILCSR.h")])
p("S02", "Sparse products and sums agree with the dense definition",
  "Sparse matrix-vector products, sums, differences, scalings and the other arithmetic of the sparse forms give the same result as the dense definition for every sparsity pattern, and leave their operands unchanged.",
  ["inputs"], "every sparsity pattern up to the bound with symbolic values, empty rows included",
  SAMPLES + "patterns there are symmetric and have full diagonals.",
  [LA+"Models/CSR.h", LA+"Models/LILCSR.h"], [("operator overloads", LA+"Models/CSR.h"), ("operator overloads", LA+"Models/LILCSR.h")])
p("K01", "The direct solver returns the exact solution",
  "LU factorisation with partial pivoting followed by substitution satisfies A x = b for every non-singular matrix, whatever row exchanges it needs: the pivot list is a permutation, the factors multiply to the permuted matrix, multipliers stay bounded, and one factorisation serves any number of right-hand sides.",
  ["inputs"], "all symbolic entries and right-hand sides with bounded-away-from-zero determinant up to the bound, every pivot order",
  SAMPLES + "pivot orders that occur in one matrix only.", [LA+"Solvers/LU.h"], [("factorisation and substitution", LA+"Solvers/LU.h")])
p("K02", "Conjugate-gradient solvers return the solution of the linear system",
  "For every symmetric positive definite system the conjugate-gradient family (plain, scaled, preconditioned) ends with a vector whose residual is below the requested tolerance and never with NaN, including right-hand sides that are zero or for which an intermediate step is exact.",
  ["inputs"], "all SPD systems up to the bound, all right-hand sides",
  SAMPLES + "degenerate right-hand sides, exact intermediate steps never occur.", [LA+"Solvers/CG.h"], [("CG family", LA+"Solvers/CG.h")])
p("K03", "BiCGSTAB solvers return the solution of nonsymmetric systems",
  "For every nonsingular system on which the method does not break down, the stabilised bi-conjugate-gradient family (plain, scaled, preconditioned) ends with a vector whose residual is below the requested tolerance and never with NaN, including zero right-hand sides and steps that become exact half-way.",
  ["inputs"], "all nonsymmetric systems up to the bound, all right-hand sides",
  SAMPLES + "one matrix per sample, so breakdown and half-step exits are never taken.", [LA+"Solvers/CG.h"], [("BiCGSTAB family", LA+"Solvers/CG.h")])
p("K04", "Incomplete LU keeps the pattern, matches A on it and its solves are exact",
  "Zero-fill incomplete factorisation reproduces the matrix exactly on the sparsity pattern, creates no entry outside it, and the preconditioner solve applies exactly the inverse of the product of the two factors.",
  ["inputs"], "every sparsity pattern with full diagonal up to the bound, symbolic values",
  SAMPLES + "a wrong preconditioner only slows convergence there, so the final field still matches.", [LA+"Solvers/CG.h"], [("ILU(0) and preconditioner solve", LA+"Solvers/CG.h")])
p("K05", "Relaxation solvers converge to, and only stop at, a solution",
  "Successive over-relaxation performs the textbook sweep, and when it stops before its iteration limit the returned vector satisfies the stopping criterion the user asked for.",
  ["inputs"], "all symbolic systems and relaxation factors up to the bound",
  SAMPLES + "only a single well-conditioned system is sampled.", [LA+"Solvers/CG.h"], [("SOR", LA+"Solvers/CG.h")])
FE = "src/FEM/Controller/"
p("F01", "Shape functions interpolate exactly and derivatives match",
  "For every element type the shape functions are one at their own node and zero at all others, sum to one everywhere, reproduce every polynomial the element type promises, and the reported derivatives are the derivatives of the reported shape functions.",
  ["inputs", "configurations"], "all element types, every local coordinate (symbolic)",
  SAMPLES + "several element types are used by no sample at all, and integration points sample a few coordinates.", [FE+"ShapeFunction.h"], [("shape function tables", FE+"ShapeFunction.h")])
p("F02", "Quadrature rules integrate their full polynomial degree exactly",
  "Every quadrature rule integrates every polynomial up to its nominal degree exactly over its reference domain, with all points inside the domain.",
  ["inputs", "configurations"], "all rules, all polynomials of the nominal degree (symbolic coefficients)",
  SAMPLES + "a slightly wrong weight passes a 1e-5 field comparison, and most rules are unused.", [FE+"GaussIntegration.h"], [("point and weight tables", FE+"GaussIntegration.h")])
p("B01", "Boundary conditions and numbering are exact and complete",
  "Prescribing, tying and renumbering degrees of freedom gives each free unknown its own equation number without gaps, marks exactly the prescribed ones as not solved for, gives tied ones one shared number, and scattering a solution writes every free unknown and leaves prescribed values untouched.",
  ["inputs", "histories"], "every subset of prescribed and tied degrees of freedom up to the bound, symbolic values",
  SAMPLES + "one fixed set of supports per sample.", [FE+"BoundaryCondition.h", FE+"Assembling.h"], [("dirichlet/periodic/renumbering", FE+"BoundaryCondition.h"), ("scatter", FE+"Assembling.h")])
p("A01", "Assembly sums element contributions into the right equations",
  "The assembled system equals the sum of all element contributions gathered to the equation numbers of their degrees of freedom, with prescribed values moved to the right-hand side with the correct sign, for every element connectivity, mapping and set of prescribed or tied unknowns.",
  ["inputs", "configurations"], "every prescription pattern, overlapping elements, mixed fields, symbolic element matrices and vectors",
  SAMPLES + "non-zero prescribed values, tied unknowns and mixed fields are sampled by at most one mesh each.", [FE+"Assembling.h"], [("assembly overloads", FE+"Assembling.h")])
p("G01", "Generic element utilities and interpolation helpers are exact",
  "Support springs, element area/volume, nodal averaging, centroids, mapping from element to node values and the numeric helpers compute exactly the defined quantity for every geometry and every set of active components.",
  ["inputs", "configurations"], "symbolic geometry and values, every subset of components up to the bound",
  SAMPLES + "these helpers are used with one component selection.", ["src/FEM/Equation/General.h", "src/FEM/Equation/Numeric.h"], [("springs, areas, averaging", "src/FEM/Equation/General.h")])
EXTRA = os.path.join(HERE, "tools", "props_more.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())
NA = globals().get("NA", [])
idx = json.load(open(os.path.join(HERE, "harness/index.json")))
claimed = [q for q in P if q["id"] in idx]
na = {x["property"] for x in NA}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in P:
        if q["id"] in idx or q["id"] in na:
            f.write(json.dumps({k: v for k, v in q.items() if k != "_note"}, ensure_ascii=False) + "\n")
BASE = "All inputs within the bounds listed per entry in evidence (sizes, loop unrollings, value boxes). Floating point is modelled as exact real arithmetic over IEEE constants, with an absolute obligation tolerance of 1e-7; counterexamples are replayed in IEEE doubles on the real code. Trusts: clang-18 front end, the /verif/engine executor, z3. "
m = {"version": 1, "setup_cmd": "bash engine/build.sh build",
     "checks": [{"property": q["id"], "quick_cmd": "python3 check.py " + q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                 "technique": "symbolic execution of the LLVM IR of the real code + SMT (z3), bounded", "level": "model_checking", "level_note": BASE + q["_note"]} for q in claimed],
     "not_applicable": NA, "notes": "No hooks in /repo: harnesses in /verif/harness include /repo/src directly. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties;", len(claimed), "claimed; missing harness:", [q["id"] for q in P if q["id"] not in idx and q["id"] not in na])
