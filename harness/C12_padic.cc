// C12: the same splitting over Z/p^N
#include "vh.h"
#include "solve_system.h"
using namespace vh;
// word-boundary cases for the multi-limb modulus
static ZZ big_(long c, long p, long e) { ZZ m = power_ZZ(p, e) - 1; return c == 0 ? ZZ(0) : c == 1 ? m : c == 2 ? m / 2 : power_ZZ(2, 32) - 1; }
void harness() { wide();
  static const long ps[] = {3, 2, 5, 65537}; static const long Ns[] = {3, 4, 4, 5};
  long ip = choose("p", 0, 3), p = ps[ip], N = choose("N", 1, tier ? Ns[ip] + 2 : Ns[ip]); zz_p::init(p); ZZ_p::init(power_ZZ(p, N));
  long m = choose("m", 1, 3), n = choose("n", 0, 3); 
  if (m * n > 6 || (!tier && m * n > 4)) finish();
  if (m * n > 2 && N > 3 && !tier) finish();
  if (ip == 3 && m * n > 2) finish();
  bool flint = choose("backend", 0, 1);
  // residue matrix by cases, everything above the residue symbolic
  long vals[3] = {0, 1, p - 1}; long nv = p == 2 || m * n > 4 ? 2 : 3, code = 1; for (long i = 0; i < m * n; ++i) code *= nv;
  code = choose("T0", 0, code - 1); Mat<ZZ_p> T, U; T.SetDims(m, n);
  if (m * n > 3 && !tier && code % 3 != 1 && code) finish();
  for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) { ZZ_p t; conv(t, ZZ(vals[code % nv])); code /= nv; T[i][j] = t; if (N > 1) T[i][j] += conv<ZZ_p>(p * (ip == 3 && (m * n > 1 || N > 2) ? big_(choose(nm("tc", i, j), 0, 3), p, N - 1) : in_ZZ(nm("t", i, j), ZZ(0), power_ZZ(p, N - 1) - 1))); }
  if (choose("stale", 0, m * n < 2 ? 1 : 0)) U = in_mat_ZZ_p("old", m, m);
  Vec<int64_t> B_; B_.SetLength(4, 9);
  if (flint) solve_system_padic_flint(B_, U, T, N); else solve_system_padic_NTL(B_, U, T, N);
  long b = B_.length();
  check(b <= m && U.NumRows() == n + b && U.NumCols() == m, "shape of the right inverse");
  for (long i = 0; i < b; ++i) check(B_[i] >= (i ? B_[i - 1] + 1 : 0) && B_[i] < m, "complement indices not increasing or out of range");
  for (long i = 0; i < m; ++i) for (long j = 0; j < m; ++j) { ZZ_p s(0); for (long k = 0; k < n; ++k) s += T[i][k] * U[k][j]; for (long k = 0; k < b; ++k) if (B_[k] == i) s += U[n + k][j]; check_eq(s, ZZ_p(i == j), "(T + J) U is not the identity modulo p^N"); }
  reach(flint ? (ip == 3 && N >= 4 ? "flint-multi" : "flint-word") : "ntl");
}
