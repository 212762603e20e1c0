// C02: the order used for every polynomial is a strict total order
#include "vh.h"
#include "vec_int64.h"
using namespace vh;
void harness() {
  long n = choose("n", 1, tier ? 5 : 4); long M = 1L << 40;
  Vec<int64_t> a = in_vec_i64("a", n, -M, M), b = in_vec_i64("b", n, -M, M), c = in_vec_i64("c", n, -M, M);
  vi64less less;
  bool ab = a < b, ba = b < a;
  check(less(a, b) == ab, "comparison object disagrees with operator<");
  check(!(ab && ba), "order not antisymmetric");
  if (!ab && !ba) { check(beqv(a, b), "distinct exponent vectors compare as equivalent"); reach("equal"); }
  else check(!beqv(a, b), "equal exponent vectors are ordered");
  check(!(a < a), "order not irreflexive");
  if (n <= 3) { bool bc = b < c; if (ab && bc) { check(a < c, "order not transitive"); reach("chain"); } }
  // polynomials are homogeneous: multiplication by a common monomial keeps the order
  Vec<int64_t> s = a + c, t = b + c;
  if (ab) check(s < t, "order not compatible with multiplication");
}
