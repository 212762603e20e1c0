// C04: binomial coefficients are exact, or the library stops
#include "vh.h"
#include "tools.h"
using namespace vh;
void harness() {
  if (choose("far", 0, 1)) { // few factors of any size: n choose n-j
    static const long n_[] = {67, 100, 1000, 65537, 2000003, 1L << 31, (1L << 31) + 11, 3037000500L, 4294967296L, 1L << 40, (1L << 61) + 7}; long n = n_[choose("n", 0, 10)], j = choose("j", 0, 6), small = choose("small", 0, 1); if (small && n > 3000) finish();
    ZZ e(1); for (long i = 0; i < j; ++i) e *= n - i; for (long i = 2; i <= j; ++i) e = e / i; long k = small ? j : n - j; check_eq(binomial_ZZ(n, k), e, "binomial_ZZ");
    if (e < power2_ZZ(63)) { check_eq(ZZ(binomial(n, k)), e, "binomial"); reach("far"); } else must_abort("binomial coefficient does not fit in 64 bits", [&] { binomial(n, k); });
    return; }
  long N = tier ? 90 : 70;
  long n = choose("n", 0, N);
  int64_t k = in_i64("k", 0, n);
  // exact value by Pascal's rule
  static ZZ P[128]; for (long i = 0; i <= n; ++i) { P[i] = 1; for (long j = i - 1; j > 0; --j) P[j] += P[j - 1]; }
  long kc = (long)k;
  check_eq(binomial_ZZ(n, kc), P[kc], "binomial_ZZ");
  bool fits = P[kc] <= power2_ZZ(63) - 1;
  if (fits) { check_eq(ZZ(binomial(n, kc)), P[kc], "binomial"); reach("exact"); }
  else { reach("too-big"); must_abort("binomial coefficient does not fit in 64 bits", [&] { binomial(n, kc); }); }
}
