// C09: trace and characteristic polynomial of an integer matrix
#include "vh.h"
#include "matrix.h"
using namespace vh;
typedef std::vector<ZZ> P;
static P padd(const P& a, const P& b, long s) { P r(std::max(a.size(), b.size()), ZZ(0)); for (size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (size_t i = 0; i < b.size(); ++i) { if (s > 0) r[i] += b[i]; else r[i] -= b[i]; } return r; }
static P pmul(const P& a, const P& b) { P r(a.size() + b.size() - 1, ZZ(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
static P det(const std::vector<std::vector<P> >& M) { long n = M.size(); if (n == 1) return M[0][0]; P r(1, ZZ(0));
  for (long c = 0; c < n; ++c) { std::vector<std::vector<P> > m; for (long i = 1; i < n; ++i) { std::vector<P> row; for (long j = 0; j < n; ++j) if (j != c) row.push_back(M[i][j]); m.push_back(row); } r = padd(r, pmul(M[0][c], det(m)), c % 2 ? -1 : 1); } return r; }
void harness() {
  long n = choose("n", 1, tier ? 4 : 4); ZZ S = power2_ZZ(64);
  Mat<ZZ> M = in_mat_ZZ("M", n, n, -S, S);
  if (n == 4) for (long i = 2; i < n; ++i) for (long j = 0; j < n; ++j) if (!tier && i != j + 1 && j != 3) M[i][j] = 0;   // quick: sparse 4x4
  ZZ t(0); for (long i = 0; i < n; ++i) t += M[i][i]; check_eq(trace(M), t, "trace");
  std::vector<std::vector<P> > X(n, std::vector<P>(n)); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { X[i][j].push_back(-M[i][j]); if (i == j) X[i][j].push_back(ZZ(1)); }
  P d = det(X); d.resize(n + 1, ZZ(0));
  Vec<ZZ> c = charpoly(M); check(c.length() == n + 1, "number of coefficients");
  for (long i = 0; i <= n; ++i) check_eq(c[i], d[i], "coefficient of det(x - M)"); reach("det");
}
