L = I + "lapack/"
p("F01", "Cholesky: potrf variants, potrs, potri, pbtrf and pttrf are exact",
  "For every Hermitian matrix, uplo, variant and blocking, potrf returns 0 exactly when the matrix is positive definite and then the stored factor satisfies L*L^H = A or U^H*U = A; otherwise it returns the order of the first leading minor that is not positive definite. Solving with the factor (potrs) satisfies A*X = B exactly, potri returns the inverse, and the banded and tridiagonal versions (pbtrf, pttrf) factor their matrix the same way. The triangle not named by uplo and storage around the matrix are neither read nor written.",
  "all entries of Hermitian matrices of bounded order, every uplo, variant, block size and layout in the bound",
  STD_WHY + "The tests only factor diagonally dominant random matrices, so failing minors, their reported index, and block edges are sampled at best.",
  [L + "potrf.hpp", L + "potf2.hpp", L + "potrf2.hpp", L + "potrf_blocked.hpp", L + "potrs.hpp"],
  [("recursive and blocked variants", L + "potrf2.hpp"), ("failure index", L + "potrf_blocked.hpp")],
  ["info, factor, solution"], "orders 0..3/4; exact real arithmetic")
p("F02", "LU: getrf and getri variants satisfy P*A = L*U and A*inv(A) = I",
  "For every m-by-n matrix and every variant (level 0, recursive), getrf returns P, L, U with P*A = L*U, unit lower L whose entries are bounded by 1 in the pivoting norm, valid pivots, and info naming the first exactly zero pivot. getri variants (UILI, UXLI) return the inverse of A whenever info is 0.",
  "all matrix entries, every pivot order, for dimensions within the bound",
  STD_WHY + "Random matrices never produce tied or zero pivots, nor singular leading blocks.",
  [L + "getrf.hpp", L + "getrf_level0.hpp", L + "getrf_recursive.hpp", L + "getri.hpp", L + "getri_uili.hpp", L + "getri_uxli.hpp"],
  [("pivot choice and row swaps", L + "getrf_recursive.hpp"), ("in-place inverse", L + "getri_uxli.hpp")], ["info, pivots, factors, inverse"], "dimensions 0..3; exact real arithmetic")
p("F03", "Triangular inversion, products and triangular-triangular solves are exact",
  "trtri and its variants return the inverse of the triangular matrix, and report the first zero diagonal through info, for every uplo, diag and block size. The in- and out-of-place triangular products and solves (lauum, ul_mult, lu_mult, mult_llh, mult_uhu, mult_hehe, trmm_out, trsm_tri, trmm_blocked_mixed, gemmtr, hemm2) and (conj)transposition return exactly the documented product or solution for every flag combination, including empty matrices. Unreferenced triangles and unit diagonals are not read or written.",
  "all matrix entries, every flag combination, dimensions within the bound",
  STD_WHY + "Recursive kernels have base cases, odd splits and flag combinations that one random size per flag does not settle.",
  [L + "trtri_recursive.hpp", L + "mult_hehe.hpp", L + "mult_llh.hpp", L + "mult_uhu.hpp", L + "trmm_out.hpp", L + "trsm_tri.hpp"],
  [("recursion splits", L + "trsm_tri.hpp"), ("base cases", L + "trmm_out.hpp")], ["output matrices, info"], "dimensions 0..4; exact real arithmetic")
p("F06", "Matrix norms return the exact norm for every shape and structure",
  "lange, lanhe, lansy, lantr, their workspace variants and the infnorm column-major kernels return exactly the max, one, infinity or Frobenius norm of the matrix the flags describe, for every dimension (zero included), uplo, diag and layout. Only the referenced triangle contributes, Hermitian diagonals count as real, and unit diagonals as one.",
  "all matrix entries, every norm and flag, dimensions within the bound",
  STD_WHY + "A norm that omits an element or double counts one is inside the tests' tolerance for random matrices, and the tests use the norms themselves as oracle.",
  [L + "lange.hpp", L + "lanhe.hpp", L + "lansy.hpp", L + "lantr.hpp", L + "lassq.hpp"],
  [("per-norm loops", L + "lantr.hpp"), ("column sums in workspace", L + "lansy.hpp")], ["return value"], "dimensions 0..3; exact real arithmetic")
p("F07", "Auxiliary matrix routines do exactly what they document, and nothing else",
  "lacpy, laset, lascl, rscl, lapy2, lapy3, ladiv, conjugate, hasnan, hasinf, lamrg and lasrt produce exactly the documented values for every access type, band, shape and scale, in every scaling branch. Elements outside the named access type are neither read nor written.",
  "all entries and scalars, every access type and shape within the bound, operands from tiny to huge in the rescaling routines",
  STD_WHY + "The scaling loops run only for extreme operands and non-square access shapes are not tested.",
  [L + "lascl.hpp", L + "laset.hpp", L + "lacpy.hpp", L + "rscl.hpp", L + "lapy3.hpp", L + "ladiv.hpp", I + "base/utils.hpp"],
  [("rescaling loops", L + "lascl.hpp"), ("access types", I + "base/types.hpp")], ["output matrices, return values"], "dimensions 0..4; exact real arithmetic")
p("O01", "Householder reflectors: larfg satisfies its contract in every scaling branch",
  "For every vector and storage direction, larfg returns tau and v with H^H * [alpha; x] = [beta; 0], H unitary, beta real with |beta| equal to the norm of the input, and tau = 0 exactly when H is the identity, with 1 <= re(tau) <= 2 otherwise, also when the vector is so small that it is rescaled. inv_house3 returns the inverse reflector it documents for every 3-by-3 matrix, singular blocks included.",
  "all vectors of bounded length whose entries lie in the stated magnitude classes",
  STD_WHY + "The rescaling branch only runs for vectors with a norm below the safe minimum, which no test uses.",
  [L + "larfg.hpp", L + "inv_house3.hpp"], [("rescaling loop", L + "larfg.hpp")], ["tau, v, beta"],
  "x of length 0..2; exact real arithmetic; magnitude classes around zero, the safe minimum and overflow")
p("O02", "Applying reflectors and block reflectors equals multiplying by their product",
  "larf, larfb and larft (every side, op, direction, storage layout, element type and dimension, zero included) compute exactly the product of the elementary reflectors they represent with C, whatever tau is. The implicit unit entry and the implicit zero triangle of V are neither read nor changed, and the parts of T not documented are not relied upon.",
  "all v, tau and C entries, every flag combination, dimensions within the bound",
  STD_WHY + "The routines are tested only through factorizations with one block size and forward directions.",
  [L + "larf.hpp", L + "larfb.hpp", L + "larft.hpp"], [("implicit triangle of V", L + "larfb.hpp"), ("T recurrence", L + "larft.hpp")], ["C, T, V"],
  "dimensions 0..4, k 0..3; exact arithmetic, polynomial identities in free v and tau")
p("O03", "QR, LQ, QL, RQ factorizations reproduce A for every shape and blocking",
  "geqr2, geqrf, gelq2, gelqf, geql2, geqlf, gerq2, gerqf, gelqt and geqrt-type variants return v, tau and a trapezoidal factor whose product is A exactly, for every m and n (zero included), block size, layout and element type, given reflectors that satisfy the larfg contract. Nothing outside the matrix, tau and workspace is touched, and the exact queried workspace suffices.",
  "all matrix entries and every reflector larfg may return, for dimensions and block sizes within the bound",
  STD_WHY + "The tests do not reach wide/tall edges combined with partial last blocks for each variant.",
  [L + "geqr2.hpp", L + "geqrf.hpp", L + "gelq2.hpp", L + "gelqf.hpp", L + "geql2.hpp", L + "geqlf.hpp", L + "gerq2.hpp", L + "gerqf.hpp", L + "gelqt.hpp"],
  [("block loop edges", L + "geqlf.hpp"), ("reflector generation", L + "larfg.hpp")], ["factors, tau"],
  "m,n 0..4, nb 1..3; larfg replaced by its contract (checked by O01)")
p("O04", "Q is generated and applied exactly as the reflectors define it",
  "For every storage direction and layout, order, number of columns and number of reflectors (zero included), block size and workspace form, gen_householder_q, ungq, ung2r/2l/l2/r2, ungqr/ql/lq/rq, unghr, ungtr and ungbr return exactly the rows or columns of the product of the stored reflectors. householder_q_mul, unmq and every unm* wrapper replace C exactly by op(Q)*C or C*op(Q). Entries of the input that are documented as implicit are not relied on, V, tau and the storage around the operands are unchanged, and the queried workspace suffices.",
  "all v, tau and C entries, every flag combination, dimensions and block sizes within the bound",
  STD_WHY + "Orthogonality residuals are tested for one shape per routine, k = n, and default block sizes larger than the matrix.",
  [L + "ungq.hpp", L + "ungq_level2.hpp", L + "unmq.hpp", L + "unmq_level2.hpp", L + "ungbr.hpp", L + "unghr.hpp", L + "ungtr.hpp", L + "householder_q_mul.hpp"],
  [("block loop edges", L + "ungq.hpp"), ("order of application", L + "unmq.hpp"), ("shift of the reflectors", L + "ungbr.hpp")], ["Q, C"],
  "order 0..4, k 0..3, nb 1..3 and 32; exact arithmetic, polynomial identities in free v and tau")
p("O05", "Bidiagonal, Hessenberg, tridiagonal and generalized reductions preserve A",
  "gebd2/gebrd, gehd2/gehrd (every ilo, ihi, block size and crossover point) and hetd2 return a matrix of the announced form that equals Q^H*A*P (or Q^H*A*Q) for the reflectors they return, in exact arithmetic. gghrd and gghd3 return a Hessenberg-triangular pair equal to Q^H*(A,B)*Z with Q and Z unitary and updated only on request, and hessenberg_rq restores triangular form with the rotations it returns. Nothing outside the operands, the named triangle and the queried workspace is touched.",
  "all matrix entries and every reflector or rotation the generators may return, dimensions and block sizes within the bound",
  STD_WHY + "Tests use sizes where only one block shape occurs, and never ilo/ihi windows together with partial blocks.",
  [L + "gebd2.hpp", L + "gebrd.hpp", L + "labrd.hpp", L + "gehd2.hpp", L + "gehrd.hpp", L + "lahr2.hpp", L + "hetd2.hpp", L + "gghrd.hpp", L + "gghd3.hpp", L + "hessenberg_rq.hpp"],
  [("panel updates", L + "labrd.hpp"), ("block update of the trailing matrix", L + "gehrd.hpp"), ("accumulated rotations", L + "gghd3.hpp")], ["reduced matrices, tau, Q, Z"],
  "dimensions 0..4 (complex 0..3), nb 1..3; larfg and rotg replaced by their contracts (O01, B01)")
p("E01", "Closed-form 2-by-2 eigenvalue, singular value and Sylvester kernels are exact",
  "lae2, laev2, lahqr_eig22, lahqr_schur22, lahqz_eig22, lahqz_schur22, singularvalues22, svd22 and lasy2 return exactly what they document for every 2-by-2 (1-by-1) input: the eigenvalues or singular values in the stated order, an orthogonal rotation that reduces the matrix to the announced form (standardised Schur form, diagonal form), and the solution of the Sylvester equation with its scale. Equal elements, zero off-diagonals and double eigenvalues are included.",
  "all entries, in every branch of the kernels, within the stated magnitude classes",
  STD_WHY + "The kernels are reached only through random matrices, for which ties, zero elements and double eigenvalues never occur.",
  [L + "lae2.hpp", L + "laev2.hpp", L + "lahqr_eig22.hpp", L + "lahqr_schur22.hpp", L + "lahqz_eig22.hpp", L + "lahqz_schur22.hpp", L + "singularvalues22.hpp", L + "svd22.hpp", L + "lasy2.hpp"],
  [("branches for ties and zeros", L + "lahqr_schur22.hpp"), ("pivot tables", L + "lasy2.hpp")], ["return values and rotations"],
  "exact real arithmetic; entries in the stated magnitude classes; paths the solver does not decide within its limit are counted as undecided")
p("E05", "Sequences of plane rotations equal the product of the rotations",
  "rot_sequence and rot_sequence3 (both sides, both directions, every number of sequences and every size, empty ones included) multiply A from the documented side by exactly the product of the given rotations, also where the blocked variant switches between start-up, fused and shut-down phases and column blocks. The rotations and the storage around A are unchanged.",
  "all rotation parameters and matrix entries, every side, direction, size and number of sequences in the bound",
  STD_WHY + "Only one block of columns and a few sizes are tested.",
  [L + "rot_sequence.hpp", L + "rot_sequence3.hpp"], [("start-up and shut-down phases", L + "rot_sequence3.hpp")], ["A"],
  "sizes 0..7, 0..4 sequences, one case with more than 256 columns (sparse symbolic); exact arithmetic, polynomial identities")
p("B06", "Legacy, C and CBLAS interfaces compute what they document",
  "Every routine of the legacy API (BLAS and the LAPACK wrappers), of tlapack.h and of tlapack_cblas.h (s, d, c, z) returns the mathematically defined result for both storage layouts, every increment (negative ones included), every leading dimension, every flag, empty operands and beta = 0 or alpha = 0. Arguments reach the right parameter in the right order with the right conjugation. Storage outside the operands, the unreferenced triangle and the gaps between strided elements are neither read nor written.",
  "all scalars and entries, both layouts, all flags and increments, dimensions within the bound",
  STD_WHY + "The wrappers are almost untested: a test samples one layout, unit increments and tight leading dimensions.",
  ["include/tlapack/legacy_api/blas.hpp", "include/tlapack/legacy_api/blas", "include/tlapack/legacy_api/lapack", "src/tlapack_cwrappers.cpp", "include/tlapack.h.in", "include/tlapack_cblas.h.in", "include/tlapack/LegacyVector.hpp", "include/tlapack/plugins/legacyArray.hpp"],
  [("layout switch for row-major matrices", "include/tlapack/legacy_api/blas/her2.hpp"), ("negative increments", "include/tlapack/legacy_api/base/utils.hpp"), ("C and CBLAS forwarding", "src/tlapack_cwrappers.cpp")], ["output operands and return values"],
  "vectors of length 0..3, increments 1, 2, -1, -2, matrices up to 3-by-3 (wrappers 2-by-2); float and double replaced by the symbolic real")
p("E02", "Reordering a Schur form moves exactly the chosen eigenvalues, unitarily",
  "schur_swap and schur_move return a (quasi-)triangular matrix with the same eigenvalues in the requested order, and Q is multiplied from the right by the unitary W with A*W = W*A'. The result does not depend on whether Q is wanted, Q is not referenced when it is not wanted, and a swap that is refused leaves the matrix as it was.",
  "all triangular matrices (1-by-1 blocks), one-parameter families with 2-by-2 blocks, all positions within the bound",
  STD_WHY + "The tests move one eigenvalue of random matrices and compare norms with a tolerance.",
  [L + "schur_swap.hpp", L + "schur_move.hpp", L + "generalized_schur_swap.hpp", L + "generalized_schur_move.hpp"],
  [("swap of 1-by-1 and 2-by-2 blocks", L + "schur_swap.hpp"), ("position bookkeeping", L + "schur_move.hpp")], ["A, Q, info, positions"],
  "1-by-1 blocks: order up to 4, every matrix, rotg replaced by its contract (B01); 2-by-2 blocks: order up to 6, one-parameter families, lahqr_schur22 replaced by an arbitrary rotation")
p("F05", "Bunch-Kaufman: hetrf reproduces A through its pivots and factors",
  "For every symmetric or Hermitian matrix, triangle and block size (at least 2), hetrf returns pivots describing 1-by-1 and 2-by-2 blocks and factors with P*L*D*L^H*P^H = A (or U), and the elements of D grow at most by the Bunch-Kaufman bound. info is nonzero exactly when a 1-by-1 pivot is zero, and names it. The blocked variant gives the same algebra as the level-2 one, and neither the other triangle, the input contents of ipiv nor the storage around A is relied on.",
  "all symmetric/Hermitian matrices of bounded order, every pivot pattern and block size within the bound",
  STD_WHY + "Tests use random matrices for which singular blocks, ties and zero columns never occur.",
  [L + "hetrf.hpp", L + "hetrf_blocked.hpp", L + "hetf3.hpp"],
  [("pivot choice", L + "hetf3.hpp"), ("delayed updates", L + "hetrf_blocked.hpp")], ["factors, ipiv, info"],
  "order 0..2 fully symbolic, orders 3..5 for each pivot pattern with few symbolic entries; exact arithmetic")
p("F08", "Tikhonov regularised least squares solutions satisfy the normal equations",
  "tkhnv and its variants (tik_qr, tik_bidiag_elden, tik_svd) return, for every A with at least as many rows as columns, right-hand sides b and lambda > 0, the x with (A^H*A + lambda^2*I) x = A^H*b for each right-hand side. All variants agree, and nothing outside the documented operands is touched.",
  "one-parameter families of data (any entry of b, lambda, or an entry of A) within the bound",
  STD_WHY + "The tests check one random system per size.",
  [L + "tkhnv.hpp", L + "tik_qr.hpp", L + "tik_bidiag_elden.hpp", L + "tik_svd.hpp"],
  [("augmented QR", L + "tik_qr.hpp"), ("Elden elimination", L + "tik_bidiag_elden.hpp")], ["x in b"],
  "n <= m <= 4, n <= 3; data fixed integers with one real parameter over an interval; exact algebra with interval branch-and-bound for signs")
p("E03", "Symmetric eigenvalue and SVD iterations preserve the matrix and deliver order",
  "Each deflation, 2-by-2 block and implicit QR/QL sweep of steqr and svd_qr, in either direction and with any shift, keeps Z*T*Z^H (U*B*Vt) what it was, with Z, U and Vt changed by unitary factors only. On return eigenvalues ascend, singular values are nonnegative and descend with their vectors, and d, e do not depend on which vectors are wanted. gesvd hands svd_qr exactly the bidiagonal form of A and its accumulated reflectors, for every shape and with thin or full U and Vt.",
  "one-parameter families of matrices with every zero pattern in the bound (steqr, svd_qr); all entries (gesvd, ordering)",
  STD_WHY + "Backward sweeps, zero-shift sweeps and zeros on the diagonal are taken for special data only.",
  [L + "steqr.hpp", L + "svd_qr.hpp", L + "gesvd.hpp", L + "svd22.hpp", L + "laev2.hpp", L + "ungbr.hpp"],
  [("bulge chasing in two directions", L + "svd_qr.hpp"), ("rotation of Z", L + "steqr.hpp"), ("shapes", L + "gesvd.hpp")], ["d, e, Z, U, Vt, info"],
  "order 1..4, first sweep, one real parameter (iterations); m,n 0..4 (gesvd); exact algebra; convergence is outside")
