// C28: the default precisions determine the zeta function, for every prime in every branch of the table
#include <algorithm>
#include "vh.h"
#include "tools.h"
using namespace vh;
static int64_t I(long x) { int64_t r = x; return r; }
// minimal integer t >= 1 with t^e K > C
static ZZ threshold(long e, const ZZ& K, const ZZ& C) { ZZ lo(0), hi(1); while (power(hi, e) * K <= C) hi *= 2; while (hi - lo > 1) { ZZ m = (lo + hi) / 2; if (power(m, e) * K > C) hi = m; else lo = m; } return hi; }
static long vfac(long n, long p) { long v = 0; while (n) { n /= p; v += n; } return v; }
static long val(long a, long p) { long v = 0; while (a % p == 0) { a /= p; ++v; } return v; }
// largest exponent of p in a product of cnt distinct positive integers below l
static long distinct(long p, long l, long cnt) { std::vector<long> v; for (long a = 1; a < l; ++a) v.push_back(val(a, p)); std::sort(v.begin(), v.end(), std::greater<long>()); long s = 0; for (long i = 0; i < cnt && i < (long)v.size(); ++i) s += v[i]; return s; }
static std::vector<long> hodge(long n, long d) { std::vector<long> P(1, 1); for (long k = 0; k <= n; ++k) { std::vector<long> Q(P.size() + d - 2, 0); for (size_t i = 0; i < P.size(); ++i) for (long j = 0; j < d - 1; ++j) Q[i + j] += P[i]; P = Q; } std::vector<long> h; for (long i = 0; i < n; ++i) { long e = (i + 1) * d - (n + 1); h.push_back(e >= 0 && e < (long)P.size() ? P[e] : 0); } return h; }
// precision of the k-th coefficient (sum of the k x k minors): column type i is divisible by p^(n-1-i) and known modulo p^a[i]
static long minors(long n, const std::vector<long>& h, const std::vector<long>& a, long k) { long best = -1; for (long e = 0; e < n; ++e) { if (!h[e]) continue; std::vector<long> r; for (long i = 0; i < n; ++i) for (long c = 0; c < h[i] - (i == e); ++c) r.push_back(n - 1 - i); std::sort(r.begin(), r.end()); if (k - 1 > (long)r.size()) continue; long t = std::max(a[e], n - 1 - e); for (long i = 0; i < k - 1; ++i) t += r[i]; if (best < 0 || t < best) best = t; } return best; }
void harness() {
  long n = choose("n", 1, 4), d = choose("d", 2, 10);
  static const long primes[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47}; long band = choose("prime", 0, 14);
  int64_t p = band < 14 ? I(primes[band]) : in_i64("p", 48, 1L << 40); long pc = band < 14 ? primes[band] : 0;
  bool supported = (n == 2 && d >= 3 && d <= 9) || (n == 3 && d >= 4 && d <= 6);
  int64_t prec, nn = n, dd = d; Vec<int64_t> N, cp;
  if (!supported) { if (n == 1 || n == 4 || d == 10 || d == 2) { int64_t D = d; if (n == 4) D = in_i64("degree", 5, 1000); else if (d == 10) D = in_i64("degree", 10, 1000); must_abort("no default precision is known", [&] { default_args(prec, N, cp, p, nn, D); }); } finish(); }
  if (pc && d % pc == 0) finish();
  default_args(prec, N, cp, p, nn, dd); reach("table");
  std::vector<long> h = hodge(n, d); long b = 0; for (long x : h) b += x; long w = n - 1, P = (long)prec;
  check(N.length() == n, "one number of terms per pole order"); check(cp.length() == b + 1, "one precision per coefficient");
  std::vector<long> c(b + 1), t(n); for (long i = 0; i <= b; ++i) c[i] = (long)cp[i]; for (long i = 0; i < n; ++i) t[i] = (long)N[i];
  for (long x : t) check(x >= 0 && x < 1000, "number of terms"); for (long x : c) check(x >= 0, "precision of a coefficient"); check(P >= 1, "working precision");
  // what the columns determine: the series is cut after t[i] terms, and the factorials cost part of the working precision
  std::vector<long> avail(n), cut(n);
  for (long i = 0; i < n; ++i) { long m = i + 1, M = m + t[i] - 1, v;
    if (pc) v = t[i] ? vfac(pc * M - 1, pc) : 0;
    else { check(p > I(m + t[i] + 30), "large prime"); v = t[i] ? M - 1 : 0; if (t[i]) check_eq(valuation_of_factorial(p * I(M) - I(1), p), I(v), "exponent of p in the factorial"); }
    avail[i] = P - std::max(0L, v - (n - 1));
    cut[i] = 1 << 30; for (long j = t[i]; j < t[i] + 25; ++j) cut[i] = std::min(cut[i], n - 1 + j - (pc ? distinct(pc, pc * (m + j), n - 1) : std::min(n - 1, m + j - 1))); }
  // the constant term is fixed by the functional equation when the weight is odd and carries the sign when it is even
  for (long k = 1; k <= (w % 2 ? b - 1 : b); ++k) { check(minors(n, h, avail, k) >= c[b - k], "working precision against the precision claimed for a coefficient"); check(minors(n, h, cut, k) >= c[b - k], "number of terms against the precision claimed for a coefficient"); }
  if (w % 2 == 0) check(c[0] > b * w / 2, "sign of the functional equation");
  // the functional equation moves precision between opposite coefficients; then every power sum, at most b p^(wk/2), is determined modulo k p^prec
  for (long i = 0; 2 * i <= b; ++i) { long s = (b - 2 * i) * w / 2; if (c[i] >= c[b - i] + s) c[b - i] = c[i] - s; else c[i] = c[b - i] + s; }
  for (long k = 1; k <= b; ++k) { long e = 2 * c[b - k] - w * k; ZZ K = ZZ(k) * k, C = ZZ(4) * b * b; if (e <= 0) { check(k * k > 4 * b * b && e == 0, "coefficient determined by its residue"); continue; } check(p >= I(to_long(threshold(e, K, C))), "coefficient determined by its residue"); }
}
