#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a})
T = "the eleven tests run the whole pipeline on fixed polynomials and compare final answers or run random self-checks; "
p("C01", "The monomial list of a degree is complete, sorted and duplicate-free",
  "The list of exponent vectors of a given length and degree contains every vector of non-negative integers with that sum exactly once, in strictly increasing order of the order used for polynomials.",
  "every number of variables and every degree; completeness ranges over every exponent vector", T + "a missing or repeated monomial of a degree they do not use is invisible",
  ["tools/tuple_list_generator.cc"], [("tuple_list_generator", "tools/tuple_list_generator.cc")], observe=["tools.h: tuple_list_generator"])
p("C02", "The order on exponent vectors is a strict total monomial order",
  "Comparison of exponent vectors of equal length is irreflexive, antisymmetric, transitive and total, distinct vectors never compare equivalent, and adding the same vector to both sides keeps the order.",
  "every pair and triple of exponent vectors", T + "maps keyed by exponent vectors silently merge or lose entries only for particular pairs",
  ["vec_int64.h"], [("operator< and vi64less", "vec_int64.h")])
p("C03", "Exponent-vector arithmetic is exact",
  "Sums, differences, scalar multiples, dot products, matrix-vector products and array conversions of exponent vectors are entrywise exact, also when the output aliases an input; lowering one exponent by one is exact and refused for a non-positive exponent; stepping down by e removes e units in total, first from the lowest-numbered variable with a positive exponent.",
  "all vectors (entries up to 2^20 in size), all aliasings, all step counts", T + "they only meet small exponents along the reduction paths they take",
  ["vec_int64.h", "vec_int64/diff.cc", "vec_int64/tweak.cc", "vec_int64/tweak_step.cc"], [("add, sub, mul, operators", "vec_int64.h"), ("diff", "vec_int64/diff.cc"), ("tweak, tweak_step", "vec_int64/tweak*.cc")])
p("C04", "Binomial coefficients are exact or refused",
  "The multi-precision binomial coefficient is exact, and the 64-bit one is exact whenever the value fits in a signed 64-bit integer and stops the program with an error otherwise.",
  "every n and k with 0 <= k <= n", T + "the values near the 64-bit boundary never occur in them",
  ["tools/binomial.cc", "tools/binomial_ZZ.cc"], [("binomial", "tools/binomial.cc"), ("binomial_ZZ", "tools/binomial_ZZ.cc")])
p("C05", "Factorials and their p-adic unit parts are exact",
  "The exponent of p in n! follows Legendre's formula; the p-adic factorial of a range start..n returns that range's exponent of p and stores exactly the prime-to-p part in the coefficient ring; the generic factorial of a range is the product of the range.",
  "every n, every start and every prime", T + "a wrong exponent for one residue class of n shows only at higher precision",
  ["tools/valuation_of_factorial.cc", "tools/factorial_p_adic.cc", "tools.h"], [("valuation_of_factorial", "tools/valuation_of_factorial.cc"), ("factorial_p_adic", "tools/factorial_p_adic.cc"), ("factorial<R>", "tools.h")])
p("C06", "Changes of variables are substitutions",
  "Applying a matrix to the variables of a homogeneous polynomial gives a polynomial of the same degree whose value at any point is the value of the original at the image point; the expansion of a monomial along an arithmetic progression of exponents is the product of the corresponding linear factors.",
  "every polynomial, matrix and evaluation point over the integers, Z/p^N and F_p", T + "no test checks the substituted polynomial, and the degenerate-hypersurface path uses it on random matrices only",
  ["tools.h", "tools/change_of_variables_monomial.cc"], [("change_of_variables", "tools.h"), ("change_of_variables_monomial", "tools/change_of_variables_monomial.cc")])
p("C07", "Conversions between the number libraries lose nothing",
  "Converting integers, vectors and matrices between the number types used by the program (arbitrary precision, word-size modular, row-major arrays) preserves every value, sign and position, whatever the destination held before.",
  "every integer value, sign and size, every matrix shape", T + "row/column mix-ups vanish on square matrices and sign or limb errors need particular sizes",
  ["conv.h", "conv/conv.cc"], [("conv overloads", "conv/conv.cc")])
p("C08", "Matrix and vector kernels compute the exact product",
  "Matrix-matrix, matrix-vector, scalar and inner products, products with transposes and modular differences equal the mathematical definition for every shape and every entry, for integers, residues mod p^N and word-size residues.",
  "every shape and every entry", T + "only square matrices of reduced entries reach most kernels",
  ["matrix.h", "matrix/mul.cc", "matrix/mul_tranpose.cc", "matrix/transpose_mul_tranpose.cc"], [("mul, mul_transpose, transpose_mul_transpose", "matrix/*.cc")])
p("C09", "Trace and characteristic polynomial are exact",
  "The trace is the sum of the diagonal and the characteristic polynomial of an integer matrix is det(x - M), coefficient by coefficient from the constant term.",
  "every integer matrix", T + "they compare the characteristic polynomial only after correction by the functional equation, which hides errors in half of the coefficients",
  ["matrix/trace.cc", "matrix/charpoly.cc"], [("trace", "matrix/trace.cc"), ("charpoly", "matrix/charpoly.cc")])
p("C10", "The Weil polynomial is recovered from its truncation",
  "Given a Frobenius matrix whose characteristic polynomial agrees with a Weil polynomial modulo the stated p-adic precisions, and precisions that determine each coefficient by the Weil bounds and the functional equation, the corrected characteristic polynomial equals that Weil polynomial exactly, for either sign of the functional equation.",
  "every Weil polynomial of the given degree, weight and prime, every truncation error, every sufficient precision vector", T + "only the handful of polynomials of their examples, all with generic coefficients, are recovered",
  ["matrix/charpoly_frob.cc"], [("charpoly_frob", "matrix/charpoly_frob.cc")], over=("inputs", "configurations"))
p("C11", "Over F_p a linear map is split by a coordinate complement and right inverse",
  "For every matrix T over F_p, with either back end, the returned increasing index set B of coordinate vectors is a basis of the cokernel of T and the returned matrix U satisfies (T + J_B) U = identity, whatever the output variables held before; T is not modified.",
  "every matrix over F_p of every shape and rank", T + "the matrices are those of their examples; rank-deficient or empty ones are not met",
  ["solve_system/solve_system.cc"], [("solve_system_zz_p and back ends", "solve_system/solve_system.cc")])
p("C12", "The splitting lifts to Z/p^N",
  "For every matrix T over Z/p^N whose residue matrix has the stated complement, with either back end, the right inverse satisfies (T + J_B) U = identity modulo p^N, for single- and multi-word moduli and for maps from the zero space, whatever the outputs held before.",
  "every lift of every residue matrix, every precision", T + "only the lifts produced by their examples",
  ["solve_system/solve_system.cc"], [("solve_system_padic and back ends", "solve_system/solve_system.cc")])
p("C13", "Smoothness of the hypersurface is decided exactly",
  "The smoothness test answers yes exactly when the partial derivatives of the polynomial have no common zero over the algebraic closure of F_p (for p not dividing the degree, exactly when the hypersurface is smooth).",
  "every homogeneous polynomial over F_p of the given degree and number of variables", T + "only smooth examples are ever given to it",
  ["dr/init.cc", "dr/isSmooth.cc"], [("isSmooth", "dr/isSmooth.cc")])
p("C14", "Non-degeneracy is decided exactly",
  "For p not dividing the degree, the non-degeneracy test answers yes exactly when the toric partial derivatives x_i df/dx_i have no common zero over the algebraic closure of F_p, i.e. the hypersurface meets every coordinate stratum smoothly and avoids the coordinate points.",
  "every homogeneous polynomial over F_p of the given degree and number of variables", T + "it is met with a handful of polynomials",
  ["dr_nd/dr_nd.cc"], [("isND", "dr_nd/dr_nd.cc")])
p("C15", "One pole-reduction step of the Jacobian model is the Griffiths-Dwork relation",
  "The matrix reducing from the space at u+v to the space at u sends each form to a cohomologous one: for every numerator G the identity of the Griffiths-Dwork reduction holds with the stored decomposition, at every u at once, and is the same whether evaluated over the integers or modulo p^N.",
  "every lift of the polynomial, every numerator, every u", T + "path-independence is tested on random paths of two fixed examples",
  ["dr/compute_reduction_matrix_J.cc", "dr/compute_reduction_matrix_J_ZZ.cc", "dr/get_reduction_matrix_J.cc"], [("compute_reduction_matrix_J", "dr/compute_reduction_matrix_J.cc")])
p("C16", "All reduction routes of the Jacobian model give the same vector",
  "Reducing a numerator from u+kv to u gives the same result modulo p^N step by step, through the polynomial-matrix route and through the integer routes, for every vector, direction and number of steps.",
  "every vector, direction v, base point u and number of steps", T + "each run uses one route",
  ["dr/reduce_vector_J.cc", "dr/reduce_vector_J_ZZ.cc", "dr/reduce_vector_J_poly.cc", "dr/reduce_vector_J_poly_ZZ.cc"], [("reduce_vector_J*", "dr/reduce_vector_J*.cc")], over=("inputs", "configurations"))
p("C17", "Numerators map to the cohomology basis consistently",
  "The inclusion of the reduced space into polynomials places each coefficient at its monomial; the final reduction is the identity on basis forms and satisfies the pole-order relation; a form and the same form multiplied by f over f have the same coordinates.",
  "every numerator, monomial and lift of the polynomial", T + "the relation is tested for one lift and small pole order",
  ["dr/compute_inclusion_matrix_J.cc", "dr/compute_final_reduction_matrix_J.cc", "dr/monomial_to_basis_J.cc"], [("inclusion and final reduction", "dr/*.cc")])
p("C18", "One pole-reduction step of the non-degenerate model is exact",
  "The matrix reducing from the space at u+v to the space at u in the non-degenerate model satisfies the toric Griffiths-Dwork relation for every numerator and every u, and its expansion along a line u+xv agrees with it for every x.",
  "every lift of the polynomial, every numerator, every u and x", T + "tested on random paths of fixed examples",
  ["dr_nd/dr_nd.cc"], [("compute_reduction_matrix_ND, compute_reduction_matrix_ND_poly", "dr_nd/dr_nd.cc")])
p("C19", "All reduction routes of the non-degenerate model give the same vector",
  "Step-by-step, polynomial-matrix, integer, multi-word and word-size finite-difference reductions of a vector over any number of steps give the same result modulo p^N.",
  "every vector, matrix polynomial, number of steps and modulus size", T + "each run uses one route",
  ["dr_nd/dr_nd.cc", "matrix.h"], [("reduce_vector_ND*, finitediff_flint_nmod", "dr_nd/dr_nd.cc, matrix.h")], over=("inputs", "configurations"))
p("C20", "The non-degenerate spaces map to the cohomology basis consistently",
  "The inclusion of each graded piece places coefficients at the right monomials, and the map from the reduced space to the cohomology basis is the composition of inclusion and final reduction with the pole factorials.",
  "every lift of the polynomial and every vector", T + "never compared on its own",
  ["dr_nd/dr_nd.cc"], [("compute_inclusion_matrix_ND, compute_coKernels_ND_to_basis", "dr_nd/dr_nd.cc")])
p("C21", "Powers of the defining polynomial are exact",
  "The list of powers of the defining polynomial used for Frobenius holds exactly 1, f, f^2, ..., each coefficient correct modulo the working precision, with no monomial of the wrong degree.",
  "every polynomial and every power", T + "a wrong coefficient of a high power affects only high precision digits",
  ["hypersurface/compute_fpow.cc"], [("compute_fpow", "hypersurface/compute_fpow.cc")])
p("C22", "Frobenius on a form is the truncated lift, by every route of the Jacobian model",
  "The Frobenius image of a basis form to a given number of terms has the coordinates prescribed by the truncated p-th power series, reduced to the basis, and the integer and p-adic routes and every loop strategy agree modulo the working precision.",
  "every lift of the polynomial, basis form, number of terms and loop strategy", T + "one route and strategy per run",
  ["hypersurface/frob_J_ZZ.cc", "hypersurface/frob_J_ZZ_p.cc", "hypersurface/frob_matrix_J.cc"], [("frob_J_*", "hypersurface/*.cc")], over=("inputs", "configurations"))
p("C23", "Frobenius in the non-degenerate model is the truncated lift, by every route",
  "The Frobenius image of a basis form in the non-degenerate model has the coordinates prescribed by the truncated series, and the integer, p-adic and multi-word routes and every loop strategy agree modulo the working precision.",
  "every lift of the polynomial, basis form, number of terms and loop strategy", T + "one route and strategy per run",
  ["hypersurface_nd/hypersurface_nd.cc"], [("frob_ND_*", "hypersurface_nd/hypersurface_nd.cc")], over=("inputs", "configurations"))
p("C24", "The answer does not depend on the number of threads",
  "Frobenius matrices and reduced vectors are the same whatever number of threads is configured, including one.",
  "every thread count and every branch selected by it", T + "thread counts are fixed per machine",
  ["hypersurface/frob_matrix_J.cc", "hypersurface_nd/hypersurface_nd.cc"], [("thread-count dependent branches", "hypersurface_nd/hypersurface_nd.cc")], over=("configurations", "schedules"))
p("C25", "Saved state reloads to the same state",
  "Saving a local or global object to a file and loading it back restores every table and parameter, for any file name, and later computations give the same results.",
  "every content of the tables, every file name", T + "saving is not tested at all",
  ["dr/save.cc", "dr_nd/dr_nd.cc", "hypersurface/save.cc"], [("save and file constructors", "dr/save.cc")], over=("inputs", "histories"))
p("C26", "Printed polynomials read back unchanged",
  "Writing a polynomial (a map from exponent vectors to coefficients) to a stream and reading it back gives the same polynomial, for every polynomial including the zero polynomial.",
  "every polynomial and coefficient type", T + "the input files of the tests are hand-written",
  ["tools.h"], [("stream operators for polynomials", "tools.h")])
p("C27", "Input formats are equivalent and invalid inputs are refused",
  "The entry point gives the same result for the coefficient-vector, dictionary and dense-list forms of one polynomial, picks the model that applies, and stops with an error when the hypersurface is singular.",
  "every polynomial and every input form", T + "one format per example",
  ["wrapper.h", "wrapper/zeta_function.cc"], [("zeta_function overloads", "wrapper/zeta_function.cc")], over=("inputs", "configurations"))
p("C28", "The default precision determines the zeta function",
  "The default working precision, number of series terms and per-column precisions suffice, by the Weil bounds and the functional equation, to determine every coefficient for every supported prime, dimension and degree.",
  "every prime, dimension and degree", T + "a handful of (p, n, d)",
  ["tools/default_args.cc", "wrapper/zeta_function.cc"], [("default_args", "tools/default_args.cc")], over=("inputs", "configurations"))
p("C29", "Random coordinate changes are invertible and give usable equations",
  "The random matrix used for coordinate changes has determinant one, and a coordinate change that is accepted makes the equation non-degenerate and describes the same hypersurface.",
  "every outcome of the random generator", T + "random draws on one example",
  ["matrix/random_SL_matric.cc", "wrapper/zeta_function.cc"], [("random_SL_matrix, find_change_of_variables", "matrix/random_SL_matric.cc")])
p("C30", "Both models give the same Frobenius matrix",
  "For a hypersurface to which both apply, the Jacobian and the non-degenerate computation produce Frobenius matrices that agree modulo the claimed precision.",
  "every lift of a non-degenerate polynomial", T + "few examples",
  ["hypersurface/frob_matrix_J.cc", "hypersurface_nd/hypersurface_nd.cc"], [("frob_matrix_*", "hypersurface*/")], over=("inputs", "configurations"))
p("C31", "The geometric Picard number counts the cyclotomic roots",
  "The geometric Picard number computed from a characteristic polynomial of Frobenius is the number of its roots, with multiplicity, of the form p times a root of unity.",
  "every Weil polynomial of weight two", T + "one example",
  ["tools/geometric_picard.cc"], [("geometric_picard", "tools/geometric_picard.cc")])
p("C32", "A constructed object is complete and depends only on the polynomial",
  "However a hypersurface or its local data is constructed (from a map or a coefficient vector, over Z/p^N or over F_p, or at random; with any options), it holds the given polynomial and its residue, all monomial lists with their lookups, the right Hilbert polynomials, bases, and in every degree relations that split every polynomial, and a hypersurface holds the zeroth power of its equation.",
  "every constructor, option and lift of a polynomial", T + "one constructor per class",
  ["dr/init.cc", "dr/constructors.cc", "dr_nd/dr_nd.cc", "hypersurface/constructors.cc", "hypersurface_nd/hypersurface_nd.cc"], [("constructors", "dr, dr_nd, hypersurface, hypersurface_nd")], over=("inputs", "configurations"))
p("C33", "The zeta function counts points",
  "For a smooth plane curve the polynomial returned by the entry point is the characteristic polynomial of Frobenius: its power sums are q^k + 1 minus the number of points over every extension, whatever lift of the equation is given and whichever model is used.",
  "every smooth curve of the listed families over the listed primes and every lift of its equation", T + "one curve per prime with a precomputed answer, and the comparison in the wrapper test is vacuous",
  ["wrapper/zeta_function.cc", "tools/default_args.cc", "matrix/charpoly_frob.cc", "hypersurface/frob_J_ZZ.cc", "hypersurface_nd/hypersurface_nd.cc"], [("zeta_function", "wrapper/zeta_function.cc")], over=("inputs", "configurations"))
p("C34", "Earlier requests do not change an answer",
  "Every request on an object (reduction matrices, final reductions, bases, inclusions, solutions of the splitting system, Frobenius columns and matrices) gives the answer a freshly constructed object gives to it as its only request, whatever requests were made before it, in whatever order and degree.",
  "every history of requests", T + "one fixed order of requests",
  ["dr/get_reduction_matrix_J.cc", "dr/get_final_reduction_matrix_J.cc", "dr/get_solve_J.cc", "dr_nd/dr_nd.cc", "hypersurface/frob_matrix_J.cc", "hypersurface_nd/hypersurface_nd.cc"], [("de_Rham_local::get_*, de_Rham_non_degenerate_local::get_*", "dr, dr_nd")], over=("inputs", "histories"))
p("C35", "The entry point delivers the precision asked for",
  "For every requested absolute precision and every prime p >= 2n + r, the number of series terms and working precision the entry point chooses make every entry of the returned Frobenius matrix correct modulo p^abs; the polynomial is exact whenever the precision determines it or deducing it was asked for, and otherwise correct modulo p^abs; smaller primes are refused.",
  "every precision and prime", T + "the default precision only",
  ["wrapper/zeta_function.cc", "tools/default_args.cc"], [("zeta_function", "wrapper/zeta_function.cc")], over=("inputs", "configurations"))
exec(open(os.path.join(V, "vp/docs_edits.py")).read()) if os.path.exists(os.path.join(V, "vp/docs_edits.py")) else None
cfg = json.load(open(V + "/vp/checks.json"))
open(V + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
NA = globals().get("NOT_APPLICABLE", {})
checks, na = [], []
for x in P:
    i = x["id"]
    if i in cfg and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 vp/run.py %s --tier quick" % i, "thorough_cmd": "python3 vp/run.py %s --tier thorough" % i,
          "technique": "symbolic execution of the compiled C++ sources with SMT (z3), counterexamples replayed on the real build",
          "level": cfg[i].get("level", "model_checking"),
          "level_note": cfg[i].get("note", "The property is an assertion over all values of the symbolic inputs within the stated bounds; every path of the real code is explored and each assertion is decided by polynomial normal forms over Z/m and by z3. Trusts the models of NTL/FLINT/GMP primitives in shim/ (validated by replaying solver models on the real libraries), the compiler and z3.")})
    else: na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 vp/run.py --prebuild", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
