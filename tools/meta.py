#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/meta.py  rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "ntl-extras/"
IN, CF, HI, SC = "inputs", "configurations", "histories", "schedules"
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, claimed=True, reason=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[N+f if not f.startswith("/") else f[1:] for f in files],
                  mech=[dict(name=a, where=(N+b if not b.startswith("/") else b[1:])) for a, b in mech], note=note, claimed=claimed, reason=reason, observe=observe))

prop("C01", "Field, vector and constant-matrix helpers compute their definitions",
 "The multiplicative order of a field element is its exact order, and a requested element of order at least (or prime-to) a bound really has such an order. Batch inversion returns the entrywise inverses in place or out of place, precomputed constant multiplications give the true products, and the shift, reversal and diagonal constant matrices act as their definitions, with products by vectors and matrices matching.",
 [IN, CF], "every prime modulus in every supported size class, every element, every vector and matrix shape including empty ones, in-place and out-of-place calls",
 "the tests look at one or two moduli and a handful of sizes with dense random data; wrong orders of special elements, empty or length-1 vectors and aliasing are not reached",
 ["lzz_p_extra/src/lzz_p_extra.cpp", "vec_lzz_p_extra/src/vec_lzz_p_extra.cpp", "mat_lzz_p_extra/src/mat_lzz_p_extra.cpp"],
 [("order / element_of_order", "lzz_p_extra/src/lzz_p_extra.cpp"), ("inv, mulmod precomputation", "vec_lzz_p_extra/src/vec_lzz_p_extra.cpp"), ("Z/J/diagonal products", "mat_lzz_p_extra/src/mat_lzz_p_extra.cpp")])
prop("C02", "Truncated division, Taylor shift and shifted addition are exact",
 "For polynomials a and b with b(0) invertible, the truncated quotient q satisfies q*b = a modulo x^m with degree below m. Shifting the variable by a constant returns exactly f(x+c) for every degree the shift object was prepared for, and adding a polynomial times a power of x gives exactly that sum, whichever operands are aliased.",
 [IN, CF], "every prime modulus (every FFT mode), every degree, precision, shift amount and aliasing pattern",
 "the tests run a few random dense inputs at one or two moduli; zero and short operands, aliasing and thresholds between algorithms are not covered",
 ["lzz_pX_extra/src/lzz_pX_extra.cpp"], [("InvTruncMul", "lzz_pX_extra/src/lzz_pX_extra.cpp"), ("zz_pX_shift_DAC / zz_pX_shift_large_characteristic", "lzz_pX_extra/src/lzz_pX_extra.cpp"), ("add_LeftShift", "lzz_pX_extra/src/lzz_pX_extra.cpp")])
prop("C03", "Polynomial middle product equals the slice of the full product",
 "For bounds dA and dB, the middle product of a and c is the polynomial formed by coefficients dA to dA+dB of the product of a (cut at degree dA) with c. This holds for every algorithm and threshold, every modulus size, any actual lengths of the operands and any aliasing of the output.",
 [IN, CF], "every prime modulus, every pair of degree bounds, operands shorter or longer than the bounds, output aliased or not",
 "the tests use balanced dense operands at a few moduli; overflow in delayed reductions and unbalanced sizes depend on modulus and length together",
 ["lzz_pX_middle_product/src/lzz_pX_middle_product.cpp"], [("tKarMul_aux / tPlainMul", "lzz_pX_middle_product/src/lzz_pX_middle_product.cpp"), ("middle_FFT", "lzz_pX_middle_product/src/lzz_pX_middle_product.cpp")])
prop("C04", "Multipoint evaluation and interpolation are exact inverse maps",
 "For points in general position, in geometric progression or roots of unity, evaluating a polynomial (or a vector or matrix of polynomials) gives its exact value at each announced point, and interpolating recovers the unique polynomial of degree below the number of points with given values. The result depends only on the mathematical input: not on previous calls on the same object, on the chosen FFT mode, nor on what degrees were prepared beforehand.",
 [IN, HI, CF], "every prime modulus, every number of points from one up, every degree below it, every sequence of evaluate, interpolate, mode-switch and prepare calls on one object",
 "the tests use one object once per size with default settings; histories of prepared degrees and mode changes, low-2-adicity FFT moduli and tiny sizes are not exercised",
 ["lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp", "lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp", "lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp"],
 [("evaluate / interpolate", "lzz_pX_CRT/src"), ("prepare_degree, set_FFT_evaluate, unset_FFT_interpolate", "lzz_pX_CRT/src")])
prop("C05", "Transposed evaluation and interpolation are the transposes",
 "For every multipoint object, transposed evaluation of a vector w returns the sums over the points of w_i times point_i to the k, for k below the requested output size, and transposed interpolation is the inverse of that map. In-place variants return the same values as out-of-place ones.",
 [IN, HI, CF], "every prime modulus, point family, number of points, output size up to the number of points, and history of calls on the object",
 "the tests check a handful of sizes with full output size; truncated outputs and call histories are not covered",
 ["lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp", "lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp", "lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp"],
 [("t_evaluate / t_interpolate", "lzz_pX_CRT/src"), ("t_mul_right / t_mul_left", "lzz_pX_CRT/src")])
prop("C06", "Multiple remainders and Chinese remaindering are inverse and exact",
 "Reducing a polynomial modulo a list of pairwise coprime moduli returns the exact remainders. Recombining remainders gives the unique polynomial of degree below the product's degree with these remainders, and the master polynomial is the product of the moduli.",
 [IN, CF], "every prime modulus, every list of coprime moduli with mixed degrees, every input degree including far above the product's degree",
 "the tests use equal-degree random moduli and dense inputs at a few sizes",
 ["lzz_pX_CRT/src/lzz_pX_CRT.cpp"], [("multimod / combine", "lzz_pX_CRT/src/lzz_pX_CRT.cpp"), ("build_subproduct_tree", "lzz_pX_CRT/src/lzz_pX_CRT.cpp")])
prop("C07", "Fixed small-length transforms multiply polynomials exactly",
 "For the naive, Karatsuba and Montgomery style transforms, forward-transforming two short polynomials, multiplying entrywise and transforming back yields exactly their product. The left and right forward maps may differ, and every entry is fully reduced.",
 [IN, CF], "every prime modulus and every pair of coefficient vectors of the transform's length, including short and zero polynomials",
 "the tests use a few dense inputs",
 ["lzz_pX_CRT/lzz_pX_CRT.h", "lzz_pX_CRT/src/lzz_pX_Transform.cpp", "lzz_pX_CRT/src/lzz_pX_Transform_naive.cpp", "lzz_pX_CRT/src/lzz_pX_Transform_montgomery.cpp"],
 [("forward_left / forward_right / backward", "lzz_pX_CRT/src")])
prop("C08", "Structured scalar matrices act as the dense matrix they represent",
 "Toeplitz, Hankel, triangular Toeplitz, circulant and Sylvester matrices multiply vectors and matrices from the left and from the right exactly as the dense matrix obtained by expanding them. Their dimensions, entries, transposes and expansions agree with the defining data, and where solving or inversion is offered it returns a true solution or inverse.",
 [IN, CF], "every prime modulus, every rectangular or square shape from one up, every defining vector including zero and sparse ones",
 "the tests use square dense random instances at few sizes; degenerate shapes and singular instances are not reached",
 ["structured_lzz_p/src/hankel_lzz_p.cpp", "structured_lzz_p/src/toeplitz_lzz_p.cpp", "structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp", "structured_lzz_p/src/circulant_column_lzz_p.cpp", "structured_lzz_p/src/circulant_row_lzz_p.cpp", "structured_lzz_p/src/sylvester_lzz_p.cpp"],
 [("mul_right / mul_left / to_dense", "structured_lzz_p/src"), ("sylvester solve / inverse", "structured_lzz_p/src/sylvester_lzz_p.cpp")])
prop("C09", "Toeplitz-like and Hankel-like matrices match their displacement generators",
 "A matrix given by displacement generators for the Toeplitz or Hankel operators (plus and minus variants) expands to the unique dense matrix with that displacement. Its products with vectors and matrices on either side, transposed products included, equal those of the dense matrix.",
 [IN, CF], "every prime modulus, shape, displacement rank from zero up and generator pair",
 "the tests check a few shapes with dense random generators",
 ["structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp", "structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp", "structured_lzz_p/src/hankel_like_minus_lzz_p.cpp", "structured_lzz_p/src/hankel_like_plus_lzz_p.cpp"],
 [("generators, mul_right / mul_left, to_dense", "structured_lzz_p/src")])
prop("C10", "Cauchy and Cauchy-like matrices multiply, solve and invert exactly",
 "Cauchy matrices on geometric progressions, and the low displacement rank matrices built on them, expand to the matrix with the announced entries and multiply vectors and matrices accordingly. Solving and inverting succeed exactly when possible: a reported solution satisfies the system, a reported inverse is a two-sided inverse, and failure is reported only for inconsistent or singular matrices (or a breakdown announced by the interface).",
 [IN, CF, HI], "every prime modulus large enough for the points, every shape and rank, singular and inconsistent systems included, any thread-count setting offered by the interface",
 "the tests only use invertible random instances; rank-deficient systems, thresholds and rectangular shapes are not reached",
 ["structured_lzz_p/src/cauchy_geometric_lzz_p.cpp", "structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp"],
 [("mul_right / to_dense", "structured_lzz_p/src/cauchy_geometric_lzz_p.cpp"), ("invert_grp / solve_grp / invert_leading_principal_minor_grp", "structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp")])
prop("C11", "Block-structured (mosaic) matrices match their dense expansion",
 "Matrices assembled from Toeplitz or Hankel blocks expand to the dense matrix formed by these blocks, multiply vectors and matrices on both sides accordingly, and their displacement generators reproduce them. Where system solving or inversion is offered, an answer it reports as successful is correct.",
 [IN, CF], "every prime modulus, block layout with uneven block sizes, and block contents",
 "the tests use a few layouts; the solving and inversion tests fail at this commit and are not part of the stable suite",
 ["structured_lzz_p/src/mosaic_hankel_lzz_p.cpp", "structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp"],
 [("mul_right / mul_left / to_dense / generators", "structured_lzz_p/src"), ("to_cauchy_grp, solve, inv", "structured_lzz_p/src/mosaic_hankel_lzz_p.cpp")])
prop("C12", "Structured polynomial matrices act as their dense expansion",
 "Triangular Toeplitz, circulant, Sylvester and Toeplitz-like matrices with polynomial entries multiply vectors and matrices exactly as their dense expansion does, on either side. Truncated products equal the product reduced modulo the given power of x, and a reported truncated inverse or solution satisfies its defining congruence.",
 [IN, CF], "every prime modulus, shape, uneven entry degrees, truncation order",
 "the tests use small uniform-degree random instances",
 ["structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp", "structured_lzz_pX/src/toeplitz_like_plus_lzz_pX.cpp", "structured_lzz_pX/src/sylvester_lzz_pX.cpp", "structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp"],
 [("mul_right, mul_right_trunc, to_dense", "structured_lzz_pX/src"), ("sylvester inv_trunc / solve", "structured_lzz_pX/src/sylvester_lzz_pX.cpp")])
prop("C13", "Bivariate arithmetic and resultants are exact",
 "Bivariate polynomial sums, products by every available strategy, evaluations, reversals and shifts equal the schoolbook result. The resultant of two bivariate polynomials with respect to y, by each method offered, equals the determinant of their Sylvester matrix, up to a non-zero constant for the block-projection methods, whenever the method's genericity and field-size conditions hold.",
 [IN, CF], "every prime modulus large enough, every pair of bidegrees and coefficient patterns, including zero and univariate inputs",
 "the resultant test is not part of the stable suite and the arithmetic tests use dense inputs of a few sizes",
 ["lzz_pXY/src/lzz_pXY.cpp"], [("mul, mul_naive, mul_kronecker, trunc", "lzz_pXY/src/lzz_pXY.cpp"), ("resultant", "lzz_pXY/src/lzz_pXY.cpp")])
prop("C14", "Polynomial-matrix utilities and linear arithmetic are exact under aliasing",
 "Additions, subtractions, negation, scaling, constant-matrix products, coefficient access, truncation, shifts, reversal, transposition, evaluation, block extraction and conversions between matrix-of-polynomials and coefficient-list forms give exactly the schoolbook result, for any shapes the interface allows. The result is the same when the output variable is one of the inputs, and other inputs are left unchanged.",
 [IN, CF], "every prime modulus, shape (rectangular, empty), uneven degrees, shift amounts and aliasing pattern",
 "the tests cover a few shapes with uniform degree and no aliasing",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_arith.cpp"],
 [("LeftShift, trunc, reverse, conv, ident, random", "mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp"), ("add, sub, mul, neg", "mat_lzz_pX_extra/src/mat_lzz_pX_arith.cpp")])
prop("C15", "Shifted degrees, leading matrices and form predicates match their definitions",
 "For every polynomial matrix and shift, row and column degrees, pivots, degree matrices and leading matrices are the ones defined in the literature. The reduced, weak Popov, ordered weak Popov and Popov predicates, and the strongest detected form, hold exactly when the definition does, row-wise and column-wise.",
 [IN], "every matrix shape with zero rows or columns and ties in degrees, every integer shift including large and negative entries",
 "the tests compare against a few fixed matrices; ties, zero rows, empty shifts and column orientation combine in ways they do not sample",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp"], [("row_degree, row_pivots, leading matrices", "mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp"), ("is_row_popov and the other predicates", "mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp")])
prop("C16", "Every polynomial-matrix multiplication algorithm returns the exact product",
 "The product of two polynomial matrices is the schoolbook product, whatever algorithm is selected, automatically or by name (naive, Waksman, evaluation with any point family, dense-evaluation, three-prime, transform-based). It holds at every dimension and degree across the selection thresholds, for constant factors, for zero matrices, and when the output is one of the inputs.",
 [IN, CF], "every prime modulus (word-size, FFT, tiny), every compatible triple of dimensions, every pair of degrees, uneven entry degrees, aliasing",
 "the multiplication test is not in the stable suite and samples a few balanced sizes; thresholds depend on modulus kind, dimension and degree together",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp"], [("multiply dispatcher", "mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp"), ("multiply_waksman / multiply_evaluate / multiply_3_primes / multiply_transform", "mat_lzz_pX_extra/src")])
prop("C17", "Matrix middle products and transposed products return the exact slice",
 "The middle product of polynomial matrices with bounds dA and dB is the matrix of coefficients dA to dA+dB of the product, for the automatic choice and for each named algorithm within its stated degree bounds. The transposed product returns the slice of the reversed operand's product, and the output may alias an input.",
 [IN, CF], "every prime modulus, dimensions, degree bounds, operands shorter than the bounds, aliasing",
 "the middle product test is not in the stable suite and uses full-degree operands only",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp"], [("middle_product dispatcher and variants", "mat_lzz_pX_extra/src"), ("t_multiply_evaluate_geometric", "mat_lzz_pX_extra/src")])
prop("C18", "Precomputed multipliers and partial linearization give the same product",
 "An object precomputed from a left factor multiplies every right factor within the degree bound it was built for exactly as a direct product does, however many times and in whatever order it is used. Partial linearization followed by recombination preserves the matrix, and products computed through linearization equal direct products.",
 [IN, HI, CF], "every prime modulus, left factor, degree bound, sequence of right factors with varying shapes and degrees",
 "the multiplier test is not in the stable suite; each object is used once with full-degree operands",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp"],
 [("mat_lzz_pX_lmultiplier family, get_lmultiplier", "mat_lzz_pX_extra/src"), ("column_partial_linearization, right_parlin_multiply", "mat_lzz_pX_extra/src")])
prop("C19", "Truncated inverses and lifted expansion slices satisfy their congruences",
 "For a square polynomial matrix with invertible constant term, the truncated inverse X at order m has degree below m and satisfies A*X = X*A = I modulo x^m, for every algorithm and order. High-order lifting components are the announced slices of the expansion of the inverse.",
 [IN, CF], "every prime modulus, dimension, degree (below or above the order), order from one up, aliasing",
 "the tests use degree equal to order at a few sizes and do not reach tiny orders, thresholds or sparse inputs",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp"],
 [("inv_trunc, plain_inv_trunc, newton_inv_trunc_*", "mat_lzz_pX_extra/src"), ("high_order_lift_inverse_odd", "mat_lzz_pX_extra/src")])
prop("C20", "Polynomial-matrix division returns a true quotient and reduced remainder",
 "Dividing A by a square row-reduced B returns Q and R with A = B*Q + R where each row of the remainder has degree smaller than the corresponding row of the divisor; Q and R are therefore unique.",
 [IN], "every prime modulus, shapes and degrees including dividends smaller than the divisor, non-uniform degrees of the divisor, zero dividends",
 "the tests use uniform-degree random dividends and divisors",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_division.cpp"], [("quo_rem", "mat_lzz_pX_extra/src")])
prop("C21", "Linear system solvers return true solutions",
 "A truncated series solution u of A*u = b has degree below the order and satisfies the equation modulo that power of x, for every algorithm. A rational solver that reports success returns a vector and a non-zero denominator with A*u = den*b exactly.",
 [IN, CF], "every prime modulus, invertible A of any degree pattern, right-hand sides with one or several columns, any order",
 "the system solving test is not in the stable suite; tests use square dense instances with equal degrees",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp"], [("solve_series_low_precision / solve_series_high_precision / solve_series_high_order_lifting", "mat_lzz_pX_extra/src"), ("linsolve_via_series", "mat_lzz_pX_extra/src")])
prop("C22", "Approximant bases are minimal bases in the promised shifted form",
 "For every series matrix F, order (uniform or per column) and shift, the returned square matrix P annihilates F modulo the order, its rows generate all such relations, and it has the form the algorithm promises for the shift (ordered weak Popov, or canonical Popov for the Popov variants, which is then unique). The degree information returned alongside is the shifted row degree of P.",
 [IN, CF], "every prime modulus including tiny ones, shape, order including non-uniform orders, any integer shift, rank-deficient, sparse and valuated series",
 "the approximant tests are outside the stable suite and use random dense (generic) inputs, where pivoting and degree ties never arise",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis.cpp"], [("appbas_iterative, popov_appbas_iterative", "mat_lzz_pX_extra/src"), ("mbasis, mbasis_rescomp, mbasis_resupdate, popov_mbasis", "mat_lzz_pX_extra/src"), ("pmbasis, popov_pmbasis", "mat_lzz_pX_extra/src")])
prop("C23", "Generic approximant routines and matrix Padé approximants are correct",
 "On generic inputs of the shape they are designed for, the specialised approximant routines return a minimal approximant basis with the degrees announced for the generic case. The matrix Padé routines return a denominator with the announced leading structure whose product with the series has the announced low degree modulo the order.",
 [IN, CF], "every large prime modulus, block dimension and order from one up, parity of the order, random (generic) series",
 "tests use a few sizes and only power-of-two-like orders",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp"], [("mbasis_generic_onecolumn, mbasis_generic_2n_n, pmbasis_generic_*", "mat_lzz_pX_extra/src"), ("matrix_pade_generic, matrix_pade_generic_iterative", "mat_lzz_pX_extra/src")])
prop("C24", "Interpolant bases are minimal bases in the promised shifted form",
 "For every list of points and evaluation matrices and every shift, the returned matrix P makes P(x_i)*E_i vanish at every point, its rows generate all such vectors, and it is in the promised form for the shift. Routines working from a polynomial matrix and a geometric sequence agree with that definition at those points.",
 [IN, CF], "every prime modulus with enough points, shape, order from one up, shift, rank-deficient and zero evaluations",
 "the interpolant tests are outside the stable suite and use generic evaluations",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp"], [("intbas_iterative, popov variant", "mat_lzz_pX_extra/src"), ("mbasis (rescomp, resupdate), pmbasis, pmbasis_geometric", "mat_lzz_pX_extra/src")])
prop("C25", "Kernel bases generate the whole kernel in the promised form",
 "For every polynomial matrix and shift, the returned matrix K satisfies K*F = 0, has as many rows as the dimension of the left kernel, generates every kernel vector over the polynomials, and is in the form the algorithm promises for the shift. The degree information returned is the shifted row degree of K.",
 [IN, CF], "every prime modulus large enough, shape (more rows or more columns), rank-deficient matrices, any shift the interface admits",
 "the kernel test is outside the stable suite and uses generic full-rank inputs",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp"], [("kernel_basis_via_approximation, kernel_basis_zls_via_approximation, kernel_basis_zls_via_interpolation", "mat_lzz_pX_extra/src"), ("kernel_basis, kernel_basis_intermediate", "mat_lzz_pX_extra/src")])
prop("C26", "Determinants and reduced forms of polynomial matrices are exact",
 "Each determinant routine that reports success returns the determinant of its input (up to the constant factor its interface allows), and never reports success with a wrong value. Reduced-form computations return a row-reduced matrix generating the same module as the input.",
 [IN, CF], "every prime modulus large enough, dimension from one up, uneven degrees, singular and near-singular matrices",
 "the tests use dense random matrices with uniform degrees; the reduction test is outside the stable suite",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp"],
 [("determinant_via_linsolve, determinant_via_evaluation_*, determinant_generic_knowing_degree", "mat_lzz_pX_extra/src"), ("reduced_form_gjv", "mat_lzz_pX_extra/src")])
prop("C27", "Matrix fraction reconstruction and block sequences are correct",
 "Block sequence generators return exactly the powers and the projected terms (vector or block, times successive powers of the input matrix) that their definitions announce. On sequences with a generic matrix generator, reconstruction by approximation or by interpolation returns a matrix annihilating the sequence with the announced degrees.",
 [IN, CF], "every large prime modulus, block size, order and input matrix",
 "tests use one random family per size",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp"], [("matrix_recon_approximation, matrix_recon_interpolation", "mat_lzz_pX_extra/src"), ("gen_sequence, block Wiedemann helpers", "mat_lzz_pX_extra/src")])
prop("C28", "Recurrence and annihilator computations on sequences are exact",
 "Products of sequences by univariate and bivariate polynomials, sums, first non-zero index and annihilation tests follow their definitions. The generators computed by the Kurakin, modified Kurakin and Berlekamp-Massey style algorithms annihilate every given sequence and generate all annihilators, and the minimal polynomial of a non-degenerate sequence is the announced one.",
 [IN, CF], "every prime modulus, sequence length, modulus polynomial and family of sequences, including zero and already-annihilated ones",
 "the test program of this module aborts on part of its examples at this commit and checks little",
 ["lzz_pX_seq/src/lzz_pX_seq.cpp"], [("mulTrunc, is_cancel, kurakin / berlekamp style algorithms", "lzz_pX_seq/src/lzz_pX_seq.cpp")])
prop("C29", "Printed Sage and Magma expressions denote exactly the printed object",
 "Every scalar, vector, polynomial and matrix printed for Sage or Magma parses back to the same object: same coefficients, same order of entries, same shape for non-empty objects, in the announced variable and field. Zero and empty objects, and polynomials with missing terms, are printed as valid expressions.",
 [IN, CF], "every prime modulus, every object of each printable type, every variable name",
 "the tests print and never read back",
 ["sage_output/src/sage_output.cpp", "magma_output/src/magma_output.cpp"], [("sage_output, sage_assign, sage_init", "sage_output/src/sage_output.cpp"), ("magma_output, magma_assign, magma_init", "magma_output/src/magma_output.cpp")])
prop("C30", "Certificate checkers accept correct answers and reject wrong ones",
 "The routines that check whether a matrix is an approximant, interpolant or kernel basis accept every correct basis of at least the requested form. They reject matrices that do not annihilate the input, do not generate all relations (approximant and interpolant checkers) or are not in the requested form (randomised checkers up to their announced error probability).",
 [IN, CF], "every prime modulus, correct bases of every form and shift, and corrupted ones: a perturbed coefficient, a multiplied row, a wrong form, a wrong shape",
 "the tests only ever call the checkers on correct answers",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp"],
 [("is_approximant_basis", "mat_lzz_pX_extra/src"), ("is_interpolant_basis", "mat_lzz_pX_extra/src"), ("is_kernel_basis", "mat_lzz_pX_extra/src")])
prop("C31", "Calls are memory safe and leave the modulus and unrelated inputs alone",
 "No call within the documented preconditions reads or writes outside its objects, depends on uninitialised memory, overflows signed arithmetic, aborts or fails to terminate. Every call restores the modulus that was current when it was made, and leaves its read-only arguments unchanged.",
 [IN, HI, CF], "every operation covered by the other properties, every generated input, and sequences of different operations in one process",
 "the tests are run without memory checking or bounds checking and never look at the modulus afterwards",
 ["mat_lzz_pX_extra/src", "structured_lzz_p/src", "structured_lzz_pX/src", "lzz_pX_CRT/src", "lzz_pXY/src"],
 [("zz_pPush and zz_pContext around multi-modular code", "mat_lzz_pX_extra/src"), ("buffer sizing in transforms and structured products", "lzz_pX_CRT/src")])
prop("C33", "Random generators respect the requested shape and degrees and use them fully",
 "Generators of random polynomial vectors, matrices (global, per-row, per-column, per-entry degree bounds, or lists of coefficient matrices) and bivariate polynomials return objects of exactly the requested shape with every degree below its bound, whatever the output held before. Coefficients are drawn independently over the whole range below the bounds, and the output is determined by the seed of NTL's generator.",
 [IN, CF, HI], "every prime modulus, shape (empty included), degree bounds (zero included), previous content of the output",
 "the tests use the generators to make inputs and never look at what they return",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp", "lzz_pXY/src/lzz_pXY.cpp"], [("random, random_mat_zz_pX_rdeg, random_mat_zz_pX_cdeg", "mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp"), ("random_zz_pXY", "lzz_pXY/src/lzz_pXY.cpp")])
prop("C34", "Calls breaking a documented size or range condition are refused",
 "Sums, differences and constant products of polynomial matrices or vectors of incompatible dimensions, shifted degree and form queries whose shift has the wrong length, truncated inverses of a non-square matrix or of one with singular constant term, and structured matrices applied to an operand of the wrong size all end in an error instead of an answer. So do operands above the degree an evaluation object, Taylor shift or transform-based multiplier was built for. A refused call leaves its operands and the object unchanged and usable.",
 [IN, CF, HI], "every kind of mismatch (too short, too long, rows, columns, empty operand), every shape and modulus, correct calls after a refused one",
 "no test calls a function with erroneous arguments; errors end the process",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_arith.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp", "mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp", "structured_lzz_p/src", "structured_lzz_pX/src"],
 [("LogicError / Error / std::invalid_argument tests at the entry of each operation", "mat_lzz_pX_extra/src/mat_lzz_pX_arith.cpp"), ("shift length tests", "mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp"), ("operand size tests of mul_right and mul_left", "structured_lzz_p/src")])

FX = "/flint-extras/src"
FN = "FLINT itself is not installed: flint-extras is compiled from /repo against the stand-in harness/fl/flint_shim.* (schoolbook arithmetic), in scalar, AVX2 and AVX-512 builds where the machine can run them"
prop("C35", "FLINT side: polynomial matrix products and row operations are exact",
 "Every product and middle product of polynomial matrices in flint-extras (default, geometric evaluation, Vandermonde, Waksman) returns exactly the product, or the announced slice of it, for every shape, length, modulus in its range and aliasing of output and operands, windows into larger matrices included. Row and column rotations and permutations apply the announced rearrangement, and no operation touches entries outside the window it was given. Matrix polynomials (lists of coefficient matrices) keep the value of the abstract polynomial matrix under any sequence of operations and convert both ways without loss.",
 [IN, CF, HI], "every prime modulus of up to 64 bits, every shape (empty included) and length, windows, aliased outputs, operation sequences on matrix polynomials, every instruction set with its own code path",
 "the tests of this part use square or regular random matrices, never windows or aliased outputs, and are not run by the stable test suite",
 [FX+"/nmod_poly_mat_extra", FX+"/nmod_mat_poly_extra"], [("nmod_poly_mat_multiply, nmod_poly_mat_mul_geometric, _waksman, _vandermonde, middle products", FX+"/nmod_poly_mat_extra"), ("nmod_mat_poly arithmetic and conversions", FX+"/nmod_mat_poly_extra"), ("rotations and permutations of rows and columns", FX+"/nmod_poly_mat_extra")], note=FN)
prop("C36", "FLINT side: degrees, pivots and form tests answer by definition",
 "For row- or column-wise, upper or lower orientation and any shift (none included), degree vectors, degree matrices, leading matrices, pivot indices and echelon pivots of a polynomial matrix are exactly their definition. Tests for reduced, weak Popov, ordered weak Popov, Popov, echelon and Hermite forms answer yes precisely when the definition holds.",
 [IN, CF], "every modulus, shape (zero rows, zero matrices and empty matrices included), shift and orientation",
 "the tests check a few fixed matrices, in some orientations only, and are not run by the stable test suite",
 [FX+"/nmod_poly_mat_extra"], [("nmod_poly_mat_row_degree, pivot profiles", FX+"/nmod_poly_mat_extra"), ("nmod_poly_mat_is_* form tests", FX+"/nmod_poly_mat_extra")], note=FN)
prop("C37", "FLINT side: approximant and kernel bases are minimal, and checkers can tell",
 "M-Basis, PM-Basis and the matrix-polynomial variant return, for any input matrix, order and shift, an ordered weak Popov basis of exactly the module of approximants, together with its shifted degrees. Kernel algorithms return a minimal basis of the whole left or right kernel in the requested orientation, with its pivots and shifted degrees, whatever the rank. The checker for approximant bases accepts exactly such bases; the one for kernels accepts them and rejects matrices of the wrong size, outside the kernel or not in the form asked for.",
 [IN, CF], "every modulus, shape, rank, order and shift, all four orientations, correct and corrupted candidates",
 "the tests rely on the library's own checkers, with random dense inputs of full rank, and are not run by the stable test suite",
 [FX+"/nmod_poly_mat_extra"], [("nmod_poly_mat_mbasis, pmbasis", FX+"/nmod_poly_mat_extra"), ("nmod_poly_mat_kernel, kernel_via_approx, kernel_zls_approx", FX+"/nmod_poly_mat_extra"), ("nmod_poly_mat_is_approximant_basis, nmod_poly_mat_is_kernel", FX+"/nmod_poly_mat_extra/verification.c")], note=FN)
prop("C32", "FLINT side: dot products, matrix products, PLUQ and nullspaces are exact",
 "Every dot-product routine (one, two, three or many at a time, 32-bit and 64-bit, scalar and vectorised) returns the exact sum of products, or its residue, for every length and for entries and moduli up to the documented bounds, whether or not entries are reduced. Matrix products built on them are exact for every shape, window and aliasing; PLUQ returns the rank, factors whose product is the permuted input, and permutations that carry the rank profiles; its compact form expands to L and U, and left nullspace bases are complete and in the announced echelon form. Rotations and permutations apply the announced rearrangement, and random matrices have the requested rank and form.",
 [IN, CF], "every modulus and entry size up to the documented bounds, every length and shape (empty included), strides, windows, aliased outputs, every instruction set with its own code path",
 "overflow shows only for extreme entries at particular lengths; the tests use random entries, few lengths, no windows, and are not run by the stable test suite",
 [FX+"/nmod_vec_extra", FX+"/nmod32_vec", FX+"/nmod_mat_extra"], [("nmod_vec_dot_product_*, nmod_vec_integer_dot_product", FX+"/nmod_vec_extra"), ("_nmod32_vec_dot*, _nmod32_vec_mdot*", FX+"/nmod32_vec"), ("nmod_mat_mul_*, nmod_mat_pluq, nmod_mat_left_nullspace, rotations, random forms", FX+"/nmod_mat_extra")], note=FN)
prop("C38", "FLINT side: normal forms, determinants and series solutions are right",
 "Every elimination routine for polynomial matrices returns a matrix of the announced form (upper row echelon, Hermite, weak Popov, ordered weak Popov) that spans the row space of its input, with the true rank, pivots and rank profiles. When a transformation is asked for, it is unimodular, its product with the input is the output, and the determinant reported for it is its determinant; determinants and tests of unimodularity agree with the definition. Truncated inverses and Dixon solutions satisfy their equation modulo the requested power of x, and report an input that is not invertible at 0.",
 [IN, CF], "every modulus, shape, degree and rank, all orientations and shifts, submatrices and windows, with and without transformation",
 "the tests use random dense full-rank inputs, check only the form and are not run by the stable test suite",
 [FX+"/nmod_poly_mat_extra"], [("nmod_poly_mat_uref_*, nmod_poly_mat_hnf_ur_*", FX+"/nmod_poly_mat_extra"), ("nmod_poly_mat_weak_popov_iter, ordered_weak_popov_iter", FX+"/nmod_poly_mat_extra"), ("nmod_poly_mat_det_iter, is_unimodular, inv_trunc, dixon", FX+"/nmod_poly_mat_extra")], note=FN)
prop("C40", "FLINT side: multimodular reduction and Chinese remaindering are exact",
 "Reducing any integer (negative, or larger than the product of the moduli, included) modulo a list of distinct primes returns each residue, and Chinese remaindering returns the unique integer below the product with the given residues, for any number and size of word-size primes, with the naive and with the tree-based algorithms. Word-size remaindering modulo the fixed primes followed by reduction modulo p is exact for every p and every value below the product, and so is integer matrix multiplication through them. The helpers (logarithm, inverse modulo a power of two, element of given order) return what they document.",
 [IN, CF], "every number of primes up to a thousand, primes of any size up to 64 bits, every value, sign and modulus p, matrix shapes and entry sizes, aliased outputs, scalar and vectorised code paths",
 "the tests use random values and a few prime sizes, far from the limits where limbs overflow, and are not run by the stable test suite",
 [FX+"/fmpz_extra", FX+"/nmod_extra", FX+"/fmpz_mat_extra"], [("fmpz_multimod_naive, fmpz_CRT_naive, fmpz_multimod_CRT", FX+"/fmpz_extra"), ("nmod_multimod_CRT, nmod_find_root, next_power_of_two, inverse_mod_power_of_two", FX+"/nmod_extra"), ("fmpz_mat_mul_multimod", FX+"/fmpz_mat_extra")], note=FN)
prop("C42", "FLINT side: printed text denotes exactly the printed object",
 "Printing a list of integers, a constant matrix, a polynomial or a polynomial matrix for SageMath gives text that, read modulo the modulus, denotes exactly the printed object, for entries up to the largest modulus. Pretty printing of polynomial matrices, degree and leading matrices (any shift and orientation) and matrix polynomials states the right shape and modulus and lists the right values in the right places.",
 [IN], "every modulus up to 64 bits, every shape from empty up, entries of every size, zero polynomials, variable names, shifts and orientations",
 "no test of the repository looks at printed text",
 [FX+"/sagemath_extra", FX+"/nmod_poly_mat_extra/nmod_poly_mat_io.c", FX+"/nmod_mat_poly_extra/nmod_mat_poly_io.c"], [("*_print_sagemath", FX+"/sagemath_extra/sagemath_extras.c"), ("nmod_poly_mat_*_print_pretty", FX+"/nmod_poly_mat_extra/nmod_poly_mat_io.c"), ("nmod_mat_poly_print", FX+"/nmod_mat_poly_extra/nmod_mat_poly_io.c")], note=FN)
prop("C43", "FLINT side: random generators honour their description and use all of it",
 "Random vectors, polynomials, matrices, polynomial matrices, matrix polynomials and Popov forms have the requested length, degrees, rank, form and pivots at every draw. Over many draws every coefficient that the description leaves free takes values in the whole field independently of its neighbours, every column can be a pivot, and matrices of given rank have no entry that is always zero.",
 [IN, HI], "every generator of flint-extras, modulus, shape, length (zero and negative included), rank, pivot profile, shift and orientation",
 "the tests check at most the form of single draws; a generator that is too narrow makes every randomised test weaker without failing any",
 [FX+"/nmod_mat_extra/nmod_mat_rand.c", FX+"/nmod_poly_mat_extra/randomisation.c", FX+"/nmod_poly_extra/nmod_poly_rand.c"], [("nmod_mat_rand*", FX+"/nmod_mat_extra/nmod_mat_rand.c"), ("nmod_poly_mat_rand*, rand_popov", FX+"/nmod_poly_mat_extra/randomisation.c"), ("nmod_poly_rand, _nmod32_vec_rand, nmod_mat_poly_rand", FX+"/nmod_poly_extra/nmod_poly_rand.c")], note=FN)
prop("C44", "FLINT side: the Maple interface converts and computes exactly",
 "Objects passed by Maple (polynomials, matrices of polynomials, integer and rational data, shifts, names of methods) reach the library unchanged, and what comes back to Maple denotes exactly the result: determinants, approximant bases (of a matrix and of a polynomial and its derivatives) with their shifted degrees, ordered weak Popov forms, kernels and nullspaces with their nullity, and terms of linear recurrences with polynomial coefficients. Calls use only indices and types that the Maple objects have, give every member of what they return a value, and leave their arguments alone.",
 [IN, CF], "every modulus below 2^63, every shape, degree, rank, shift, order and method, polynomials with or without leading zeros, recurrences of any order, start and number of terms",
 "the interface is built only where Maple is installed: nothing in the repository compiles or tests it",
 [FX+"/mapml"], [("nmod_mat_poly/nmod_poly_mat <-> Maple conversions", FX+"/mapml/mapml_conversion.c"), ("pm_determinant, pm_matrix_mbasis, pm_matrix_pmbasis, pm_diff_mbasis, pm_weakpopov, pm_row_kernel, pm_kernel, pm_nullspace, pm_coeffs", FX+"/mapml/mapml_matpoly_export.c"), ("*_rt round trips", FX+"/mapml/mapml_dummy_export.c")], note=FN)
prop("C41", "Sessions with different moduli do not disturb one another",
 "Several computations can be under way in one process, each with its own modulus: in parallel threads, interleaved in one thread (the caller switching modulus between calls), or with NTL's thread pool in use. Every call still returns what it returns alone; no state is shared between calls of different sessions, and no two threads working on different objects access the same memory without synchronisation.",
 [IN, SC, HI], "two to six sessions, every operation of the library in them, every modulus, every schedule of threads and every order of interleaved calls",
 "the tests are single-threaded, use one modulus at a time and run each operation on its own",
 ["structured_lzz_p/src", "lzz_pX_CRT/src", "mat_lzz_pX_extra/src"], [("no static or global state in the library; moduli through zz_pContext/zz_pPush only", "mat_lzz_pX_extra/src"), ("caches are members of the objects", "lzz_pX_CRT/src")])
prop("C39", "FLINT side: calls are memory safe and give back what they allocate",
 "No call of the FLINT-based extras within its preconditions reads or writes outside its objects, uses freed memory, overflows signed arithmetic or ends abnormally, in the scalar and the vectorised builds. Every call returns with no allocation of its own left, on the paths that answer no or give up early too, and leaves read-only arguments unchanged.",
 [IN, CF, HI], "every flint-extras operation covered by the other properties and every generated input",
 "the tests are run without memory checking and are not run by the stable test suite",
 [FX], [("init/clear pairs, early returns", FX+"/nmod_poly_mat_extra"), ("buffer sizes", FX)], note=FN)

NOTES = {}
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=p["mech"])
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, "harness/props", p["id"] + ".cpp")) or os.path.exists(os.path.join(HERE, "harness/fl/props", p["id"] + ".cpp")) or p["id"] in ("C39", "C41") or p["id"] == "C31" and os.path.exists(os.path.join(HERE, "harness", "san.ok"))
        if p["claimed"] and have:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"], level="exploration",
              technique="property-based testing: generated inputs (choice sequences, shrinking) against an independent reference implementation and defining identities" if p["id"] not in ("C31", "C39", "C41") else "property-based testing: generated sessions (operations of the other properties with their oracles) run in parallel threads and interleaved, compared with running alone, and under ThreadSanitizer" if p["id"] == "C41" else "property-based testing: the generators of the other flint-extras properties run on an address- and overflow-sanitized build and on a build that counts allocations, with input preservation monitored" if p["id"] == "C39" else "property-based testing: the generators of all other properties run on an address- and overflow-sanitized, bounds-checked build and under memcheck, with modulus and input preservation monitored",
              level_note=p["note"] or "random structured generation; oracle is independent schoolbook arithmetic in harness/ref.h, never NTL or PML code", evidence_file="evidence/%s.json" % p["id"]))
        else:
            na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na, notes="Each check compiles /repo's working tree out of tree (harness/Makefile) and runs harness/props/<ID>.cpp through harness/runner.cpp. See DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
