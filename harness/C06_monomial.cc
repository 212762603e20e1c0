// C06: expansion of a monomial along an arithmetic progression of exponents
#include "vh.h"
#include "tools.h"
using namespace vh;
void harness() {
  long n = choose("n", 1, tier ? 4 : 3), K = tier ? 4 : 3;
  Vec<int64_t> u, v; u.SetLength(n);
  long deg = 0; for (long i = 0; i < n; ++i) { long c = choose(nm("u", i), 0, K); u[i] = c; deg += c; }
  if (deg > (tier ? 7 : 5)) finish();
  v = in_vec_i64("v", n, -30, 30);
  auto H = change_of_variables_monomial(u, v);
  Vec<ZZ> x = in_vec_ZZ("x", n + 1, ZZ(-50), ZZ(50));
  ZZ e(1), s(0);
  for (long i = 0; i < n; ++i) for (long k = 0; k < (long)u[i]; ++k) e = e * (x[i] + ZZ(v[i]) * x[n]);
  for (auto it = H.begin(); it != H.end(); ++it) { ZZ m(it->second); check(it->first.length() == n + 1, "length"); int64_t t = 0;
    for (long i = 0; i <= n; ++i) { t = t + it->first[i]; for (long k = 0; k < (long)it->first[i]; ++k) m = m * x[i]; } check(beq(t, deg), "degree"); s = s + m; }
  check_eq(s, e, "expansion of the product of (x_i + v_i x)^u_i"); reach("expanded");
}
