// C30: Frobenius matrices of the two models
#include "vhd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
using namespace vh;
void harness() { wide();
  static const long which[] = {0, 1, 9, 7, 3, 5, 4, 6, 2}; long ci = choose("f", 0, tier ? 8 : 5); Curve c = curve(which[ci]); if (c.p == 2 && c.d % 2 == 0) finish(); if (c.d % c.p == 0) finish();
  long n = c.n, d = c.d, p = c.p, val, prec = 0; Vec<int64_t> N; N.SetLength(n); long top = n == 1 ? 3 : tier ? 3 : 2;
  std::vector<long> loss(n + 1, 0); std::vector<ZZ> u(n + 1, ZZ(1)); bool any = false;
  for (long m = 1; m <= n; ++m) { long k = choose(nm("N", m), 0, top); N[m - 1] = k; if (!k) continue; any = true; val = 0; for (long i = 1; i <= p * (m + k - 1) - 1; ++i) { long x = i; while (x % p == 0) { x /= p; ++val; } u[m] *= x; } loss[m] = std::max(0L, val - (n - 1)); prec = std::max(prec, loss[m]); }
  if (!any) prec = 0; prec += choose("extra", 1, n == 1 || (tier && p < 5) ? 2 : 1); if (n == 1 && !tier && N[0] + prec - loss[1] > (c.d > 2 ? 3 : 4)) finish(); if (n == 2 && !tier && N[0] + N[1] > 3) finish();
  zz_p::init(p); ZZ_p::init(power_ZZ(p, prec)); RPol f; { std::map<E, long> base; for (auto& x : c.t) base[x.first] = x.second; long k = 0; long s = prec < (n == 1 ? 4 : 3) ? 1 : (prec + 1) / 2; for (auto& e : exps(n + 1, d)) { ZZ v(base.count(e) ? base[e] : 0); bool has = base.count(e); if (prec > 1 && k < (n == 1 && prec < 3 ? 2 : 1)) { v += power_ZZ(p, s) * in_ZZ(nm("g", k), ZZ(0), power_ZZ(p, prec - s) - 1); has = true; } ++k; if (has) { Vec<int64_t> w = toV(e); conv(f[w], v); } } }
  hypersurface X(p, prec, f, false); hypersurface_non_degenerate Y(p, prec, f, false); check_eq(X.dR->coKernels_J_basis.length(), Y.dR->coKernels_J_basis.length(), "same basis size"); long nb = X.dR->coKernels_J_basis.length(); for (long i = 0; i < nb; ++i) for (long k = 0; k <= n; ++k) check_eq(X.dR->coKernels_J_basis[i][k], Y.dR->coKernels_J_basis[i][k], "same basis");
  Mat<ZZ_p> A = X.frob_matrix_J(N), B_ = Y.frob_matrix_ND(N); check(A.NumRows() == nb && A.NumCols() == nb && B_.NumRows() == nb && B_.NumCols() == nb, "shape");
  for (long j = 0; j < nb; ++j) { long m = (edeg(toE(X.dR->coKernels_J_basis[j])) + n + 1) / d; ZZ w = power_ZZ(p, loss[m]) * u[m];
    for (long i = 0; i < nb; ++i) { if (!N[m - 1]) { check_eq(A[i][j], ZZ_p(0), "no terms asked for: zero column"); check_eq(B_[i][j], ZZ_p(0), "no terms asked for: zero column"); } else check_eq(conv<ZZ_p>(w) * A[i][j], conv<ZZ_p>(w) * B_[i][j], "the two models agree"); } }
  reach(n == 1 ? "points" : "curves");
}
