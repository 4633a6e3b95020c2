M = {
"middle_product overflowed": "C03", "add_LeftShift": "C02", "Taylor shift": "C02", "the point of a one-point": "C04", "geometric evaluation at zero": "C04",
"matrix and left products of triangular": "C08", "circulant_column left": "C08", "Sylvester top_right": "C08", "Cauchy-like": "C10", "Toeplitz vector products": "C10",
"mosaic solve": "C11", "polynomial Sylvester": "C12", "to_dense of polynomial": "C12", "zz_pXY shift_y": "C13", "block-projection": "C13", "conversion to a coefficient": "C14",
"is_col_popov": "C15", "multiply(is_prime=0)": "C16", "row vector times": "C16", "named matrix": "C16", "multiply_evaluate_FFT_matmul3": "C16",
"middle_product of polynomial matrices": "C17", "middle_product_evaluate_FFT_matmul3": "C17", "middle_product_3_primes": "C17",
}
M.update({"left multipliers": "C18", "partial linearization": "C18"})
M.update({"Newton truncated": "C19"})
M.update({"linsolve_via_kernel reported":"C21","linsolve_via_series overwrote":"C21"})
M.update({"approximant_basis read past":"C22"})
M.update({"popov_mbasis_rescomp_generic was":"C23","matrix_pade_generic_iterative aborted":"C23","generic approximant and Pade":"C23"})
M.update({"zls kernel bases":"C25","kernel_basis_generic was":"C25","kernel_basis_zls_via_interpolation aborted":"C25"})
M.update({"reduced_form_gjv crashed":"C26","determinant_generic_knowing_degree":"C26","determinants by evaluation":"C26"})
M.update({"gen_sequence":"C27"})
M.update({"minpoly_nondegenerate":"C28","products of a sequence":"C28","modified_kurakin":"C28","kurakin on modules":"C28"})
M.update({"sage_output":"C29","sage_init":"C29"})
M.update({"is_interpolant_basis":"C30"})
M.update({
"InvTruncMul (Newton) does not index": "C31",
"zz_pX_Multipoint_FFT on one point": "C31",
"mirror does not index": "C31",
})
M.update({"mosaic Hankel/Toeplitz solve no longer": "C11"})
M.update({"bit reversal of a single FFT point": "C31"})
M.update({"nmod_poly_mat pivot profile": "C36", "nmod_poly_mat_is_form tests": "C36", "nmod_poly_mat_is_popov in": "C36", "the tests for polynomial matrix forms free": "C39",
"nmod_mat_poly_is_constant": "C35", "nmod_mat_poly_shift_left": "C35", "nmod_poly_mat_rand fills": "C35", "aliased geometric": "C35", "aliased Vandermonde": "C35", "aliased Waksman": "C35",
"nmod_poly_mat_is_approximant_basis answers no": "C39", "nmod_poly_mat_is_approximant_basis checks": "C37", "nmod_poly_mat_is_kernel uses a residual": "C39"})
M.update({"nmod_poly_mat_is_unimodular_randomized": "C38", "Hermite form by Kannan": "C38", "weak Popov form of a submatrix": "C38", "nmod_poly_mat_uref_matrixgcd_iter counts": "C38", "nmod_poly_mat_dixon frees": "C39",
"_nmod_mat_rotate_columns_leftward": "C32", "nmod_mat_permute_columns": "C32", "_nmod_mat_l_u_from_compactlu_zeroin": "C32", "nmod_mat_l_u_from_compactlu clears": "C32", "nmod_mat_rand fills windows": "C32", "_nmod32_vec_mdot_msolve_native": "C39",
"next_power_of_two": "C40", "inverse_mod_power_of_two": "C40", "CRT with four primes": "C40", "CRT with three primes": "C40"})
M.update({"nmod_poly_mat_mul_vandermonde2 over": "C35"})
M.update({"slongvec_print_sagemath on": "C42", "nmod_mat_print_sagemath prints": "C42", "nmod_mat_poly_print_pretty prints": "C42"})
M.update({"pm_coeffs wrote beyond": "C39", "pm_coeffs evaluated polynomials": "C44", "the Maple interface never gave back": "C39"})
M.update({"nmod_poly_mat_rand_popov read": "C39"})
M.update({"split26 dot products lost": "C32"})
M.update({"vandermonde kept stale": "C16"})
