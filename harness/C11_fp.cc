// C11: splitting F_p^m into the image of T and a coordinate complement
#include "vh.h"
#include "vhf.h"
#include "conv.h"
#include "solve_system.h"
using namespace vh;
static zz_p minor_(const Mat<zz_p>& T, const std::vector<long>& r, const std::vector<long>& c) {
  if (r.empty()) return zz_p(1); zz_p s(0);
  for (size_t j = 0; j < c.size(); ++j) { std::vector<long> r2(r.begin() + 1, r.end()), c2(c); c2.erase(c2.begin() + j); zz_p t = T[r[0]][c[j]] * minor_(T, r2, c2); if (j % 2) s -= t; else s += t; }
  return s; }
static void subsets(long n, long k, std::vector<std::vector<long> >& out) { for (long m = 0; m < (1L << n); ++m) { std::vector<long> s; for (long i = 0; i < n; ++i) if (m >> i & 1) s.push_back(i); if ((long)s.size() == k) out.push_back(s); } }
static const long ps[] = {2, 3, 5, 7, 101};
void harness() { wide();
  bv();
  long p = ps[choose("p", 0, tier ? 4 : 3)]; zz_p::init(p);
  long m = choose("m", 1, p <= 3 ? 3 : 2), n = choose("n", 0, p == 2 ? (tier ? 4 : 3) : p == 3 ? (m == 3 && !tier ? 2 : 3) : p == 101 ? 2 : m == 2 ? 2 : 3), how = choose("backend", 0, 2);
  if (m == 1 && n > 3) finish();
  Mat<zz_p> T = in_mat_zz_p("T", m, n), U; Vec<int64_t> B_;
  // stale contents of the outputs must not matter
  B_.SetLength(5, 77);
  if (how == 0) { U = in_mat_zz_p("old", 2, 2); solve_system_zz_p_NTL(B_, U, T); }
  else if (how == 1) { solve_system_zz_p(B_, U, T, true); }
  else { nmod_mat_t t, u; nmod_mat_init(t, m, n, p); conv(t, T); solve_system_zz_p_flint(B_, u, t); Mat<zz_p> T2; conv(T2, t); check_eq(T2, T, "input modified"); conv(U, u); nmod_mat_clear(t); nmod_mat_clear(u); }
  long b = B_.length();
  check(b <= m && U.NumRows() == n + b && U.NumCols() == m, "shape of the right inverse");
  for (long i = 0; i < b; ++i) check(B_[i] >= (i ? B_[i - 1] + 1 : 0) && B_[i] < m, "complement indices not increasing or out of range");
  for (long i = 0; i < m; ++i) for (long j = 0; j < m; ++j) { zz_p s(0); for (long k = 0; k < n; ++k) s += T[i][k] * U[k][j]; for (long k = 0; k < b; ++k) if (B_[k] == i) s += U[n + k][j]; check_eq(s, zz_p(i == j), "(T + J) U is not the identity"); }
  // the complement is not larger than the cokernel: T has a non-zero minor of size m - |B|
  std::vector<std::vector<long> > R, C; if (m - b > n) check(false, "complement too small"); subsets(m, m - b, R); subsets(n, m - b, C); B any = b_(false);
  for (auto& r : R) for (auto& c : C) any = any || !beq(minor_(T, r, c), zz_p(0));
  check(any, "complement larger than the cokernel"); reach(b == 0 ? "onto" : b == m ? "zero" : "partial");
}
