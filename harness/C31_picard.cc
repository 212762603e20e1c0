// C31: the geometric Picard number counts the roots that are p times a root of unity
#include <set>
#include <flint/fmpz_poly.h>
#include <flint/fmpz_poly_factor.h>
#include "vh.h"
#include "tools.h"
#include "conv.h"
using namespace vh;
typedef std::vector<ZZ> PZ; // constant term first
static PZ mulp(const PZ& a, const PZ& b) { PZ r(a.size() + b.size() - 1, ZZ(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
static PZ divp(PZ a, const PZ& b) { PZ q(a.size() - b.size() + 1, ZZ(0)); for (long i = q.size() - 1; i >= 0; --i) { q[i] = a[i + b.size() - 1]; for (size_t j = 0; j < b.size(); ++j) a[i + j] -= q[i] * b[j]; } return q; }
static PZ cyclo(long k) { PZ r(k + 1, ZZ(0)); r[0] = -1; r[k] = 1; for (long j = 1; j < k; ++j) if (k % j == 0) r = divp(r, cyclo(j)); return r; }
static long totient(long k) { return (long)cyclo(k).size() - 1; }
static PZ scaled(PZ a, long p) { ZZ q(1); for (auto& c : a) { c *= q; q *= p; } return a; } // T -> pT
static std::vector<std::pair<PZ, long> > fac;
static void add(const PZ& f, long e) { if (e) fac.push_back({f, e}); }
void harness() { wide();
  static const long primes[] = {2, 3, 5, 43, 10007, 2147483647}; long p = primes[choose("p", 0, 5)]; long kind = choose("kind", 0, 2), count = 0; fac.clear(); if (kind == 1 && !tier && p != 3 && p != 10007) finish(); if (kind == 2 && !tier && p > 10007) finish();
  long m1 = choose("plus", 0, kind >= 1 ? 1 : 3), m2 = choose("minus", 0, kind == 1 ? 0 : kind == 2 ? 1 : 2); add(PZ{ZZ(-1), ZZ(p)}, m1); add(PZ{ZZ(1), ZZ(p)}, m2); count += m1 + m2;
  if (kind != 2) { // 1 + a T + p^2 T^2, both roots of absolute value p and not real
    long e = choose("multiplicity", 1, kind ? 1 : 3); ZZ a = in_ZZ("a", ZZ(1 - 2 * p), ZZ(2 * p - 1)); if (e > 1 && p > 43 && (!tier || m1 + m2 > 2)) finish(); add(PZ{ZZ(1), a, ZZ(p) * p}, e); B unit = b_(false); for (long k : {0L, p, -p}) unit = unit || beq(a, ZZ(k)); if (decide(unit)) { count += 2 * e; reach("quadratic"); } }
  if (kind == 1) { long k = choose("order", tier ? 3 : 5, tier ? 90 : 66); if (totient(k) > (tier ? 24 : 20) || (!tier && totient(k) == 2)) finish(); long e = choose("again", 1, totient(k) > 8 ? 1 : 2); add(scaled(cyclo(k), p), e); count += totient(k) * e; if (totient(k) == 2) { for (auto& f : fac) if (f.first.size() == 3 && &f != &fac.back()) assume(!beq(f.first[1], fac.back().first[1])); } reach("cyclotomic"); }
  if (kind == 2) { // 1 + a T + b T^2 + a p^2 T^3 + p^4 T^4, irreducible; x = p T gives 1 + (a/p) x + (b/p^2) x^2 + ...
    ZZ P(p), a = in_ZZ("a", ZZ(-4 * p), ZZ(4 * p)), b = in_ZZ("b", ZZ(-2) * P * P, ZZ(6) * P * P); add(PZ{ZZ(1), a, b, a * P * P, P * P * P * P}, 1);
    // real quadratic factors 1 + x T + p^2 T^2: x^2 - a x + b - 2 p^2 = 0 must not have an integer root, nor the others split
    B r = b_(false); for (auto& t : std::vector<std::pair<long, long> >{{1, 1}, {0, 0}, {-1, 1}, {0, -1}}) r = r || (beq(a, ZZ(t.first) * P) && beq(b, ZZ(t.second) * P * P)); if (decide(r)) { count += 4; reach("quartic"); } }
  PZ F(1, ZZ(1)); for (auto& f : fac) for (long i = 0; i < f.second; ++i) F = mulp(F, f.first); if (m1 % 2) for (auto& c : F) c = -c;
  Vec<ZZ> cp; cp.SetLength(F.size()); for (size_t i = 0; i < F.size(); ++i) cp[F.size() - 1 - i] = F[i];
#ifdef SYM_BUILD
  std::vector<std::pair<std::vector<sym::Val>, long> > G; for (auto& f : fac) { std::vector<sym::Val> v; for (auto& c : f.first) v.push_back(c.v); G.push_back({v, f.second}); } symf_set_factors(G, sym::v_long(m1 % 2 ? -1 : 1));
#else
  // the named factors must be the irreducible ones
  { fmpz_poly_t q; fmpz_poly_init(q); fmpz_t t; fmpz_init(t); for (size_t i = 0; i < F.size(); ++i) { conv(t, F[i]); fmpz_poly_set_coeff_fmpz(q, i, t); } fmpz_poly_factor_t w; fmpz_poly_factor_init(w); fmpz_poly_factor_zassenhaus(w, q); std::multiset<std::pair<long, long> > A, B_; for (long i = 0; i < w->num; ++i) A.insert({fmpz_poly_degree(w->p + i), w->exp[i]}); for (auto& f : fac) B_.insert({(long)f.first.size() - 1, f.second}); bool same = A == B_; fmpz_poly_factor_clear(w); fmpz_clear(t); fmpz_poly_clear(q); if (!same) skip(); }
#endif
  check_eq(geometric_picard(cp, p, 2), count + 1, "geometric Picard number");
}
