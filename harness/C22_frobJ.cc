// C22: Frobenius of a basis form, Jacobian model.  With B(w) = coordinates of (m-1)! x^w Omega/(x0..xn f^m) and K = (p(m+N-1)-1)!,
// the truncated lift is p^(n-1) sum_j D_j sum_u c_(j,u) B(p(u+e+1))/(p(m+j)-1)!  with D_j = sum_i (-1)^j binom(m+i-1,i) binom(i,j)
#include "vhd.h"
#include "hypersurface.h"
using namespace vh;
static ZZ bin(long a, long b) { ZZ r(1); for (long i = 0; i < b; ++i) { r *= ZZ(a - i); r /= ZZ(i + 1); } return r; }
void harness() { wide();
  static const long which[] = {0, 1, 9, 7, 3, 4, 5, 8, 6}; long ci = choose("f", 0, tier ? 8 : 7); Curve c = curve(which[ci]); long n = c.n, d = c.d, p = c.p, kind = choose("kind", 0, 1), N = choose("terms", 1, n == 3 ? 1 : tier ? (n == 1 ? 4 : 3) : n == 1 && !kind ? 3 : 2);
  // the working precision leaves something after the division
  long m, val = 0; { long top = p * (n + N - 1) - 1; for (long q = p; q <= top; q *= p) val += top / q; } long loss = std::max(0L, val - (n - 1)), prec = loss + choose("extra", 1, n == 1 && (tier || kind) ? 2 : 1);
  zz_p::init(p); ZZ_p::init(power_ZZ(p, prec)); RPol f = lift(c, prec, kind ? 0 : (n == 1 && prec < 4) ? 2 : 1); Pol P = toPol(f);
  hypersurface X(p, prec, f, false); auto& D = *X.dR; long nb = D.coKernels_J_basis.length(), coord = choose("form", 0, n == 3 ? 2 : nb - 1); if (n == 3) coord = coord == 2 ? nb - 1 : coord * 5; E e0 = toE(D.coKernels_J_basis[coord]), one(n + 1, 1); m = (edeg(e0) + n + 1) / d;
  long how = choose("route", 0, 5); if (n == 3 && (kind || how % 3)) finish(); if (how && kind == 0 && n == 2 && how != 3 && !tier) finish();
  val = 0; { long top = p * (m + N - 1) - 1; for (long q = p; q <= top; q *= p) val += top / q; } loss = std::max(0L, val - (n - 1));
  std::vector<Pol> pw(N); pw[0][E(n + 1, 0)] = ZZ_p(1); for (long j = 1; j < N; ++j) pw[j] = pmul(pw[j - 1], P);
  if (kind) { // arbitrary coefficients instead of the powers of f: one unknown per power
    X.compute_fpow(N - 1); for (long j = 0; j < N; ++j) { std::vector<E> all = exps(n + 1, j * d); long k = choose(nm("mon", j), 0, n == 1 || tier ? all.size() - 1 : 1 < (long)all.size() ? 1 : 0); E e = all[n == 1 || tier ? k : k * (all.size() / 2)]; pw[j].clear(); pw[j][e] = conv<ZZ_p>(power_ZZ(p, loss) * in_ZZ(nm("t", j), ZZ(0), power_ZZ(p, prec - loss) - 1)); X.fpow[j].clear(); X.fpow[j][toV(e)] = pw[j][e]; } }
  Vec<ZZ_p> F = how < 3 ? X.frob_J_ZZ(coord, N, how) : X.frob_J_ZZ_p(coord, N, how - 3); check(F.length() == nb, "length");
  std::vector<ZZ_p> want(nb, ZZ_p(0)); ZZ u(1); for (long i = 1; i <= p * (m + N - 1) - 1; ++i) { long x = i; while (x % p == 0) x /= p; u *= x; }
  for (long j = 0; j < N; ++j) { ZZ Dj(0); for (long i = j; i < N; ++i) Dj += (j % 2 ? -1 : 1) * bin(m + i - 1, i) * bin(i, j); for (long i = p * (m + j); i <= p * (m + N - 1) - 1; ++i) Dj *= i;
    for (auto& x : pw[j]) { E w = eadd(eadd(x.first, e0), one); for (auto& t : w) t *= p; Vec<ZZ_p> y = D.monomial_to_basis_J(toV(w)); for (long i = 0; i < nb; ++i) want[i] += conv<ZZ_p>(Dj) * x.second * y[i]; } }
  ZZ left = power_ZZ(p, std::max(0L, val - (n - 1))), right = power_ZZ(p, std::max(0L, n - 1 - val));
  for (long i = 0; i < nb; ++i) check_eq(conv<ZZ_p>(left * u) * F[i], conv<ZZ_p>(right) * want[i], how < 3 ? "integer route" : "p-adic route");
  reach(how < 3 ? "integers" : "p-adic"); if (kind) reach("arbitrary");
}
