// C21: powers of the defining polynomial
#include "vhd.h"
#include "hypersurface.h"
using namespace vh;
void harness() { wide();
  static const long n_[] = {1, 1, 1, 2, 2, 3}, d_[] = {2, 3, 4, 2, 3, 2}; long k = choose("shape", 0, tier ? 5 : 4), n = n_[k], d = d_[k];
  static const long P_[] = {3, 2, 5}, E_[] = {2, 3, 40}; long m = choose("modulus", 0, 2); zz_p::init(P_[m]); ZZ_p::init(power_ZZ(P_[m], E_[m]));
  std::vector<E> all = exps(n + 1, d); long keep = choose("keep", 0, 2); RPol f; long mx = n == 1 ? 4 : 3; if (n == 2 && d == 3) mx = 2; if (n == 3) mx = 2; if (tier && k != 5) ++mx;
  for (size_t i = 0; i < all.size(); ++i) { if (keep == 1 && i % 2) continue; if (keep == 2 && i && i + 1 < all.size()) continue; f[toV(all[i])] = in_ZZ_p(nm("c", i)); }
  std::shared_ptr<de_Rham_local> D = std::make_shared<de_Rham_local>(); D->p = P_[m]; D->precision = E_[m]; D->n = n; D->d = d; D->verbose = false; D->f = f; hypersurface X; X.dR = D; X.init_after_dR();
  check(X.n == n && X.d == d && X.p == P_[m] && X.precision == E_[m], "parameters");
  // any history of requests
  long a = choose("first", 0, mx), b = choose("second", 0, mx); X.compute_fpow(a); check(X.fpow.length() >= a + 1, "number of powers"); X.compute_fpow(b); long top = std::max(a, b); check(X.fpow.length() >= top + 1, "number of powers");
  Pol P = toPol(f), Q; Q[E(n + 1, 0)] = ZZ_p(1);
  for (long i = 0; i <= top; ++i) { for (auto it = X.fpow[i].begin(); it != X.fpow[i].end(); ++it) { check(it->first.length() == n + 1, "number of variables"); E e = toE(it->first); check(edeg(e) == i * d && epos(e), "degree"); } check_pol(toPol(X.fpow[i]), Q, "power of f"); Q = pmul(Q, P); }
  check_pol(toPol(D->f), P, "f changed"); reach("powers");
}
