// C10: the characteristic polynomial of Frobenius is recovered from truncated coefficients
#include "vh.h"
#include "matrix.h"
using namespace vh;
static const long primes[] = {3, 2, 5, 7, 11, 23, 43, 101};
void harness() { wide();
  static const int deg_[] = {2, 2, 3, 4, 6}, dim_[] = {1, 2, 2, 1, 1};
  long kind = choose("kind", 0, tier ? 4 : 3), deg = deg_[kind], dim = dim_[kind];
  long p = primes[choose("p", 0, deg >= 4 ? (tier ? 3 : 1) : tier ? 7 : 4)];
  long sgn = 1; if (dim == 2) sgn = choose("sign", 0, 1) ? 1 : -1;
  // true polynomial: free upper coefficients, the others by the functional equation
  Vec<ZZ> P; P.SetLength(deg + 1); P[deg] = 1;
  long D = deg * deg; ZZ B_ = power_ZZ(4 * p, (deg + 1) / 2 * dim);
  for (long i = deg - 1; 2 * i >= deg; --i) {
    if (deg >= 4) { long b = to_long(SqrRoot(ZZ(D * p))); if (i < deg - 1) b = deg == 4 ? 6 * p : 12 * p; P[i] = choose(nm("c", i), -b, b); }   // case split
    else { ZZ b = SqrRoot(D * power_ZZ(p, dim)); if (dim == 2) P[i] = choose(nm("c", i), -to_long(b), to_long(b)); else P[i] = in_ZZ(nm("c", i), -b, b); } }
  if (sgn < 0 && deg % 2 == 0) { assume_eq(P[deg / 2], ZZ(0)); P[deg / 2] = 0; }
  for (long i = 0; 2 * i < deg; ++i) P[i] = sgn * P[deg - i] * power_ZZ(p, (deg - 2 * i) * dim / 2);
  // Weil: |power sum of the roots| <= deg p^(dim k/2)
  Vec<ZZ> s; s.SetLength(deg + 1);
  for (long k = 1; k <= deg; ++k) { ZZ t = -k * P[deg - k]; for (long i = 1; i < k; ++i) t -= P[deg - (k - i)] * s[i]; s[k] = t; }
  for (long k = 1; k <= deg; ++k) { ZZ h = SqrRoot(D * power_ZZ(p, dim * k)); assume_le(s[k], h); assume_le(-h, s[k]); }
  // precisions
  Vec<int64_t> prec; prec.SetLength(deg + 1); long how = tier || deg < 4 ? choose("how", 0, 2) : choose("how", 0, 1);
  for (long i = 0; 2 * i <= deg; ++i) {
    long k = i, e = 0; if (k) { while (sqr(k * power_ZZ(p, e)) <= 4 * D * power_ZZ(p, dim * k)) ++e; } else e = p == 2 ? 2 : 1;
    long w = (deg - 2 * i) * dim / 2;
    if (2 * i == deg) { prec[i] = e + (how == 2); continue; }
    if (how == 0) { prec[deg - i] = e; prec[i] = e + w > 2 ? e + w - 2 : 0; }          // the high coefficient is the accurate one
    else if (how == 1) { prec[deg - i] = i ? e - 1 : e; prec[i] = e + w; }              // the low coefficient is the accurate one
    else { prec[deg - i] = e + 1; prec[i] = e + w + 2; }
  }
  // sign of an even-dimensional functional equation: visible in the data?
  bool visible = dim % 2 || prec[0] > deg * dim / 2 + (p == 2);
  Mat<ZZ> M; M.SetDims(deg, deg);
  for (long i = 0; i < deg; ++i) { ZZ noise = power_ZZ(p, prec[i]) * in_ZZ(nm("t", i), ZZ(-1000), ZZ(1000)); M[i][deg - 1] = -(P[i] + noise); if (i) M[i][i - 1] = 1; }
  if (!visible) { B any = b_(false); for (long i = 1; 2 * i <= deg; ++i) { long w = (deg - 2 * i) * dim / 2; ZZ q = power_ZZ(p, std::min((long)prec[i], (long)prec[deg - i] + w)); any = any || (!beq((2 * P[i]) % q, ZZ(0)) && !beq(P[deg - i] % q, ZZ(0))); } assume(any || b_(sgn == 1)); }
  Vec<ZZ> c = charpoly_frob(M, prec, p, dim);
  check(c.length() == deg + 1, "number of coefficients");
  for (long i = 0; i <= deg; ++i) check_eq(c[i], P[i], "characteristic polynomial of Frobenius");
  reach(how == 0 ? "high" : how == 1 ? "low" : "both");
}
