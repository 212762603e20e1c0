// C05: factorials and their valuations
#include "vh.h"
#include "tools.h"
using namespace vh;
static const long primes[] = {2, 3, 5, 7, 11, 13};
void harness() {
  long op = choose("op", 0, 4);
  long p = primes[choose("ip", 0, 5)];
  if (op == 4) { // Legendre far away
    static const long far_[] = {1L << 31, 1L << 40, 4611686018427387904L, 1000000000000000003L}; long b = far_[choose("far", 0, 3)]; int64_t n = b + choose("n", -3, 3); int64_t v = valuation_of_factorial(n, p);
    ZZ N(n), e(0); while (true) { N = N / ZZ(p); e += N; if (N < p) break; }
    check(beq(ZZ(v), e), "valuation of a factorial"); reach("far");
  } else if (op == 0) {
    // Legendre: sum of floor(n/p^i), for every n up to the bound at once
    long B_ = tier ? 1L << 24 : 1L << 9;
    int64_t n = in_i64("n", 0, B_);
    int64_t v = valuation_of_factorial(n, p);
    ZZ e(0), q(p), N(n); while (q <= ZZ(B_)) { N = N / ZZ(p); e += N; q *= p; }   // floor(floor(n/p)/p) = floor(n/p^2)
    check(beq(ZZ(v), e), "valuation of a factorial"); reach("legendre");
  } else {
    static const long far_[] = {119, 240, 335, 2190, 2398, 16800, (1L << 31) - 4, (1L << 33) - 4, 3037000495L};
    long start = op == 1 ? 1 : op == 2 ? choose("s", 1, 8) : far_[choose("s", 0, 8)], n = op == 3 ? start - 1 + choose("n", 0, 10) : choose("n", 0, tier ? 60 : 30);
    ZZ_p::init(power_ZZ(p, 12));
    ZZ_p r; int64_t v = factorial_p_adic(r, n, p, start);
    // oracle: n!/(start-1)! = p^v * r with r prime to p
    ZZ F(1); for (long i = start; i <= n; ++i) F *= i;
    long w = 0; while (divide(F, F, ZZ(p))) ++w;
    check(beq(v, w), "valuation returned with the unit part");
    check_eq(r, conv<ZZ_p>(F), "unit part of a factorial");
    check_eq(factorial<ZZ_p>(n, start), conv<ZZ_p>(F * power_ZZ(p, w)), "factorial in the coefficient ring");
    ZZ x = factorial<ZZ>(n, start); check_eq(x, F * power_ZZ(p, w), "integer factorial"); reach("unit-part");
  }
}
