// C01: the list of exponent vectors of a given degree
#include "vh.h"
#include "tools.h"
using namespace vh;
void harness() {
  long n = choose("n", 1, tier ? 5 : 4), d = choose("d", 0, tier ? 7 : 5);
  if (n == 5 && d > 5) finish();
  Vec<Vec<int64_t> > r; r.SetLength(1);
  tuple_list_generator(r, d, n);
  // every exponent vector of degree d occurs
  Vec<int64_t> t = in_vec_i64("t", n, 0, d);
  assume(beq(sumv(t), d));
  B any = b_(false);
  for (long i = 0; i < r.length(); ++i) any = any || beqv(t, r[i]);
  check(any, "some exponent vector of the requested degree is missing from the list");
  for (long i = 0; i < r.length(); ++i) {
    check(r[i].length() == n, "exponent vector of the wrong length");
    int64_t s = 0; for (long k = 0; k < n; ++k) { check(ble(0, r[i][k]), "negative exponent"); s = s + r[i][k]; }
    check(beq(s, d), "exponent vector of the wrong degree");
    if (i) check(blex(r[i - 1], r[i]), "list not strictly increasing");
  }
  reach("listed");
}
