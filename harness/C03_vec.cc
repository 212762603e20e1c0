// C03: arithmetic of exponent vectors
#include "vh.h"
#include "vec_int64.h"
using namespace vh;
void harness() {
  long n = choose("n", 1, tier ? 5 : 4); long M = 1L << 20;
  Vec<int64_t> a = in_vec_i64("a", n, -M, M), b = in_vec_i64("b", n, -M, M);
  int64_t c = in_i64("c", -M, M);
  long op = choose("op", 0, 4);
  if (op == 0) {
    Vec<int64_t> s = a + b, m = a - b, k = c * a, s2, m2, k2; int64_t dot = a * b, e = 0;
    add(s2, a, b); sub(m2, a, b); mul(k2, c, a);
    for (long i = 0; i < n; ++i) {
      check(beq(s[i], a[i] + b[i]) && beq(s2[i], s[i]), "sum"); check(beq(m[i], a[i] - b[i]) && beq(m2[i], m[i]), "difference");
      check(beq(k[i], c * a[i]) && beq(k2[i], k[i]), "scalar multiple"); e = e + a[i] * b[i];
    }
    check(s.length() == n && m.length() == n && k.length() == n, "length");
    check(beq(dot, e), "dot product");
    Vec<int64_t> x = a; add(x, x, b); check(beqv(x, s), "sum in place"); x = b; sub(x, a, x); check(beqv(x, m), "difference in place");
    reach("arith");
  } else if (op == 1) {
    long r = choose("r", 1, 3); Mat<int64_t> A; A.SetDims(r, n);
    for (long i = 0; i < r; ++i) for (long j = 0; j < n; ++j) A[i][j] = in_i64(nm("A", i, j), -M, M);
    Vec<int64_t> y = A * a; check(y.length() == r, "matrix-vector length");
    for (long i = 0; i < r; ++i) { int64_t e = 0; for (long j = 0; j < n; ++j) e = e + A[i][j] * a[j]; check(beq(y[i], e), "matrix-vector product"); }
    Vec<int64_t> z; int64_t arr[8]; for (long j = 0; j < n; ++j) arr[j] = a[j];
    conv(z, arr, n); check(beqv(z, a), "array to vector"); int64_t arr2[8]; conv(arr2, z); for (long j = 0; j < n; ++j) check(beq(arr2[j], a[j]), "vector to array");
    reach("matvec");
  } else if (op == 2) {
    long i = choose("i", 0, n - 1);
    if (decide(blt(0, a[i]))) {
      Vec<int64_t> r = diff(a, i); check(r.length() == n, "length after lowering");
      for (long k = 0; k < n; ++k) check(beq(r[k], k == i ? a[k] - 1 : a[k]), "lowering one exponent"); reach("diff");
    } else { reach("diff-abort"); must_abort("lowering a non-positive exponent", [&] { diff(a, i); }); }
  } else {
    long K = tier ? 6 : 4, e = op == 3 ? 1 : choose("e", 0, K);
    Vec<int64_t> v = in_vec_i64("v", n, 0, K);
    Vec<int64_t> r = op == 3 ? tweak_step(v) : tweak(v, e);
    // removes min(e, degree) units, always from the lowest-numbered variable still present
    check(r.length() == n, "length after stepping");
    int64_t left = e;
    for (long i = 0; i < n; ++i) { int64_t take = left < v[i] ? left : v[i]; check(beq(r[i], v[i] - take), "stepping an exponent vector down"); left = left - take; }
    reach("tweak");
  }
}
