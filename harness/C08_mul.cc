// C08: matrix and vector products
#include "vh.h"
#include "vhf.h"
#include "matrix.h"
#include "conv.h"
using namespace vh;
static mpz_t* arr(long n) { mpz_t* a = (mpz_t*)malloc((n ? n : 1) * sizeof(mpz_t)); for (long i = 0; i < n; ++i) mpz_init(a[i]); return a; }
#define put wrz
#define gt rdz
void harness() {
  long op = choose("op", 0, 10);
  long m = choose("m", 1, 3), k = choose("k", 1, 3), n = op == 0 || op == 1 || (op >= 7 && op <= 9) ? choose("n", 1, 3) : 1; ZZ S = power2_ZZ(70), L = -S;
  if (op == 10) {
    mpz_t *a = arr(k), *b = arr(k), *r = arr(k); Vec<ZZ> u = in_vec_ZZ("u", k, L, S), v = in_vec_ZZ("v", k, L, S);
    for (long i = 0; i < k; ++i) { put(a[i], u[i]); put(b[i], v[i]); }
    mul(r, a, k, b, k); for (long i = 0; i < k; ++i) check_eq(gt(r[i]), u[i] + v[i], "sum of vectors (mpz)");
    mul(a, a, k, b, k); for (long i = 0; i < k; ++i) check_eq(gt(a[i]), u[i] + v[i], "sum of vectors in place (mpz)"); reach("sum");
  } else if (op <= 5) {
    Mat<ZZ> A = in_mat_ZZ("A", m, k, L, S), B_ = in_mat_ZZ("B", k, n, L, S); ZZ s = in_ZZ("s", L, S);
    mpz_t *a = arr(m * k), *b = arr(k * n), *r = arr(op == 2 ? m * k : m * n + k); mpz_t sc; mpz_init(sc); put(sc, s);
    for (long i = 0; i < m; ++i) for (long j = 0; j < k; ++j) put(a[i * k + j], A[i][j]);
    for (long i = 0; i < k; ++i) for (long j = 0; j < n; ++j) put(op == 1 ? b[j * k + i] : b[i * n + j], B_[i][j]);
    if (op == 0 || op == 1) {
      if (op == 0) mul(r, a, m, k, b, k, n); else mul_transpose(r, a, m, k, b, k, n);
      for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) { ZZ e(0); for (long t = 0; t < k; ++t) e += A[i][t] * B_[t][j]; check_eq(gt(r[i * n + j]), e, op ? "product with a transpose (mpz)" : "matrix product (mpz)"); }
    } else if (op == 2) { mul(r, sc, a, m, k); for (long i = 0; i < m; ++i) for (long j = 0; j < k; ++j) check_eq(gt(r[i * k + j]), s * A[i][j], "scalar times matrix (mpz)"); }
    else if (op == 3) { mul(r, a, m, k, b, k); for (long i = 0; i < m; ++i) { ZZ e(0); for (long t = 0; t < k; ++t) e += A[i][t] * B_[t][0]; check_eq(gt(r[i]), e, "matrix times vector (mpz)"); } }
    else if (op == 4) { mul(r, sc, b, k); for (long t = 0; t < k; ++t) check_eq(gt(r[t]), s * B_[t][0], "scalar times vector (mpz)"); }
    else { mul(r[0], a, k, b, k); ZZ e(0); for (long t = 0; t < k; ++t) e += A[0][t] * B_[t][0]; check_eq(gt(r[0]), e, "inner product (mpz)"); }
    reach("mpz");
  } else if (op == 6) {
    Mat<ZZ> A = in_mat_ZZ("A", m, k, L, S); Vec<ZZ> v = in_vec_ZZ("v", k, L, S); fmpz_mat_t a; fmpz_mat_init(a, m, k); for (long i = 0; i < m; ++i) for (long j = 0; j < k; ++j) wrf(fmpz_mat_entry(a, i, j), A[i][j]); fmpz *x = _fmpz_vec_init(k), *y = _fmpz_vec_init(m); fmpz_t d; fmpz_init(d); for (long j = 0; j < k; ++j) wrf(x + j, v[j]);
    mul(y, a, x); for (long i = 0; i < m; ++i) { ZZ e(0), t; for (long j = 0; j < k; ++j) e += A[i][j] * v[j]; t = rdf(y + i); check_eq(t, e, "matrix times vector (fmpz)"); }
    mul(d, fmpz_mat_entry(a, 0, 0), x, k); ZZ e(0), t; for (long j = 0; j < k; ++j) e += A[0][j] * v[j]; t = rdf(d); check_eq(t, e, "inner product (fmpz)"); reach("fmpz");
    // and modulo a word-size prime
    ZZ_p::init(ZZ(1000003)); zz_p::init(1000003); Mat<zz_p> C; C.SetDims(m, k); for (long i = 0; i < m; ++i) for (long j = 0; j < k; ++j) conv(C[i][j], A[i][j]);
    nmod_mat_t nm_; nmod_mat_init(nm_, m, k, 1000003); conv(nm_, C); mp_ptr nx = _nmod_vec_init(k), ny = _nmod_vec_init(m); Vec<zz_p> w = in_vec_zz_p("w", k); for (long j = 0; j < k; ++j) nx[j] = rep(w[j]);
    mul(ny, nm_, nx, nmod_vec_dot_params_compat(k, nm_->mod)); for (long i = 0; i < m; ++i) { zz_p e(0); for (long j = 0; j < k; ++j) e += C[i][j] * w[j]; check_eq(conv<zz_p>(ny[i]), e, "matrix times vector (nmod)"); } 
  } else if (op == 7 || op == 8) {
    ZZ_p::init(power_ZZ(5, 9)); zz_p::init(97);
    Mat<ZZ_p> A = in_mat_ZZ_p("A", m, k), B_ = in_mat_ZZ_p("B", n, k), R; R.SetDims(1, 2); Mat<zz_p> a = in_mat_zz_p("a", m, k), b = in_mat_zz_p("b", n, k), r; Mat<ZZ> Z = in_mat_ZZ("Z", m, k, -S, S), Y = in_mat_ZZ("Y", n, k, -S, S), X;
    if (op == 7) { mul_transpose(R, A, B_); mul_transpose(r, a, b); mul_transpose(X, Z, Y); } else { transpose_mul_transpose(R, A, B_); transpose_mul_transpose(r, a, b); transpose_mul_transpose(X, Z, Y); }
    long rr = op == 7 ? m : n, cc = op == 7 ? n : m; check(R.NumRows() == rr && R.NumCols() == cc && r.NumRows() == rr && r.NumCols() == cc && X.NumRows() == rr && X.NumCols() == cc, "shape of a product with a transpose");
    for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) { ZZ_p e(0); zz_p f(0); ZZ g(0); for (long t = 0; t < k; ++t) { e += A[i][t] * B_[j][t]; f += a[i][t] * b[j][t]; g += Z[i][t] * Y[j][t]; }
      check_eq(op == 7 ? R[i][j] : R[j][i], e, "product with a transpose (mod p^N)"); check_eq(op == 7 ? r[i][j] : r[j][i], f, "product with a transpose (mod p)"); check_eq(op == 7 ? X[i][j] : X[j][i], g, "product with a transpose (integers)"); }
    reach("transpose");
  } else {
    nmod_mat_t A, B_, C; unsigned long p = 65537; zz_p::init(p); Mat<zz_p> a = in_mat_zz_p("a", m, k), b = in_mat_zz_p("b", m, k), c; nmod_mat_init(A, m, k, p); nmod_mat_init(B_, m, k, p); nmod_mat_init(C, m, k, p); conv(A, a); conv(B_, b);
    nmod_mat_sub(C, A, B_); conv(c, C); check_eq(c, a - b, "difference of matrices (nmod)"); reach("sub");
  }
}
