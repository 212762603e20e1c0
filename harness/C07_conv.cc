// C07: conversions between the number types lose nothing
#include "vh.h"
#include "vhf.h"
#include "conv.h"
using namespace vh;
void harness() {
  long op = choose("op", 0, 5);
  ZZ B_ = power2_ZZ(tier ? 140 : 72); static const char* old_[] = {"0", "-5", "1180591620717411303424"};
  if (op == 0) {
    ZZ x = in_ZZ("x", -B_, B_), y, z, prev = conv<ZZ>(old_[choose("old", 0, 2)]); mpz_t a; fmpz_t b; mpz_init(a); fmpz_init(b);
    conv(a, x); y = prev; conv(y, a); check_eq(y, x, "integer to mpz and back"); reach("mpz");
    conv(a, prev); conv(a, x); conv(y, a); check_eq(y, x, "overwriting an mpz");
    mpz_clear(a); fmpz_clear(b);
  } else if (op == 1) {
    ZZ x = in_ZZ("x", -B_, B_), y, prev = conv<ZZ>(old_[choose("old", 0, 2)]); fmpz_t b; fmpz_init(b);
    conv(b, prev); conv(b, x); y = prev; conv(y, b); check_eq(y, x, "integer to fmpz and back"); reach("fmpz"); fmpz_clear(b);
  } else if (op == 2 || op == 3) {
    long r = choose("r", 1, 3), c = choose("c", 1, 3); ZZ S = power2_ZZ(20);
    Mat<ZZ> A = in_mat_ZZ("A", r, c, S, 2 * S - 1), C;   // one bit length: sizes and signs are covered by the scalar case
    if (op == 2) {
      mpz_t* a = (mpz_t*)malloc(r * c * sizeof(mpz_t)); for (long i = 0; i < r * c; ++i) mpz_init(a[i]);
      conv(a, A); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) { ZZ t; conv(t, a[i * c + j]); check_eq(t, A[i][j], "matrix to a row-major mpz array"); }
      conv(C, a, r, c); check_eq(C, A, "matrix to mpz array and back"); for (long i = 0; i < r * c; ++i) mpz_clear(a[i]); free(a); reach("mpz-mat");
    } else {
      fmpz_mat_t a; fmpz_mat_init(a, r, c); conv(a, A); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) { ZZ t; conv(t, fmpz_mat_entry(a, i, j)); check_eq(t, A[i][j], "matrix to fmpz matrix"); }
      conv(C, a); check_eq(C, A, "matrix to fmpz matrix and back"); fmpz_mat_clear(a); reach("fmpz-mat");
    }
  } else if (op == 4) {
    ZZ_p::init(power_ZZ(7, 26)); long n = choose("n", 1, 4);
    Vec<ZZ_p> v = in_vec_ZZ_p("v", n), w; for (long i = 0; i < n; ++i) if (i || n > 1) assume(ble(power2_ZZ(70), rep(v[i])) && blt(rep(v[i]), power2_ZZ(71)));
    fmpz* a = _fmpz_vec_init(n); conv(a, v); conv(w, a, n); check_eq(w, v, "vector to fmpz vector and back"); _fmpz_vec_clear(a, n);
    long r = choose("r", 1, 2); Mat<ZZ_p> A = in_mat_ZZ_p("A", r, n), C; for (long i = 0; i < r; ++i) for (long j = 0; j < n; ++j) assume(ble(power2_ZZ(70), rep(A[i][j])) && blt(rep(A[i][j]), power2_ZZ(71))); fmpz_mat_t m; fmpz_mat_init(m, r, n); conv(m, A); conv(C, m); check_eq(C, A, "matrix mod p^N to fmpz matrix and back"); fmpz_mat_clear(m); reach("zp");
  } else {
    zz_p::init(101); long r = choose("r", 1, 3), c = choose("c", 1, 3); Mat<zz_p> A = in_mat_zz_p("A", r, c), C;
    nmod_mat_t m; nmod_mat_init(m, r, c, 101); conv(m, A); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) check_eq(conv<zz_p>(nmod_mat_entry(m, i, j)), A[i][j], "matrix to nmod matrix");
    conv(C, m); check_eq(C, A, "matrix to nmod matrix and back"); nmod_mat_clear(m);
    ZZ_p::init(power_ZZ(3, 20)); Mat<ZZ_p> D = in_mat_ZZ_p("D", r, c), E; nmod_mat_init(m, r, c, to_ulong(power_ZZ(3, 20))); conv(m, D); conv(E, m); check_eq(E, D, "matrix mod p^N to nmod matrix and back"); nmod_mat_clear(m); reach("nmod");
  }
}
