// C27: word-size coefficients at the entry point
#include "vhd.h"
#include "wrapper.h"
using namespace vh;
void harness() { wide();
  static const std::vector<std::pair<E, long> > t = {{{3, 0, 0}, 1}, {{0, 3, 0}, 1}, {{0, 0, 3}, -1}, {{1, 1, 1}, 2}, {{0, 2, 1}, 1}};
  long p = choose("p", 0, tier) ? 19 : 17, len = choose("terms", 5, 6); std::vector<std::vector<int64_t> > mon; std::vector<int64_t> co; std::map<Vec<int64_t>, ZZ, vi64less> f;
  for (long i = 0; i < len; ++i) { E e = i < 5 ? t[i].first : E{1, 2, 0}; std::vector<int64_t> v; for (long x : e) v.push_back(x); int64_t c = (i < 5 ? t[i].second : 0) + p * in_i64(nm("t", i), -(1L << 58), 1L << 58); mon.push_back(v); co.push_back(c); ZZ z; conv(z, c); f[toV(e)] = z; }
  ZZX z, z2; Mat<ZZ> F, F2; zeta_function(z, F, mon, co, p); zeta_function(z2, F2, f, p);
  check(deg(z) == deg(z2), "degree"); for (long i = 0; i <= deg(z2); ++i) check_eq(coeff(z, i), coeff(z2, i), "zeta function from word-size coefficients"); check_eq(F, F2, "Frobenius matrix from word-size coefficients");
  long n = 0; auto at = [&](long x, long y, long w) { long r = 0; for (auto& m : t) { long v = m.second; for (long k = 0; k < m.first[0]; ++k) v = v * x % p; for (long k = 0; k < m.first[1]; ++k) v = v * y % p; for (long k = 0; k < m.first[2]; ++k) v = v * w % p; r += v; } return r % p == 0; };
  for (long a = 0; a < p; ++a) for (long b = 0; b < p; ++b) n += at(1, a, b); for (long b = 0; b < p; ++b) n += at(0, 1, b); n += at(0, 0, 1); check_eq(coeff(z, 1), ZZ(n - p - 1), "trace from the number of points"); reach("words");
}
