// C33: the zeta function against the number of points
#include "vhd.h"
#include "vhgf.h"
#include "wrapper.h"
#include "tools.h"
using namespace vh;
typedef std::map<Vec<int64_t>, ZZ, vi64less> F_;
// the characteristic polynomial of Frobenius on the curve, from its points over the first g extensions
static void curve_zeta(const ZZX& z, const Terms& t, long p, long g, const string& m) {
  std::vector<ZZ> a(g + 1), c(2 * g + 1); ZZ q(1); for (long k = 1; k <= g; ++k) { q *= p; a[k] = q + 1 - zeros(t, p, k); }
  c[2 * g] = 1; for (long k = 1; k <= g; ++k) { ZZ s(0); for (long j = 1; j <= k; ++j) s -= a[j] * c[2 * g - (k - j)]; check(s % k == 0, "count of points"); c[2 * g - k] = s / k; }
  for (long i = 1; i <= g; ++i) c[g - i] = power_ZZ(p, i) * c[g + i];
  check_eq(deg(z), 2 * g, m + ": degree"); for (long i = 0; i <= 2 * g; ++i) check_eq(coeff(z, i), c[i], m + ": coefficient from the number of points"); }
static F_ input(const Terms& t, long p, long prec) { F_ f; long k = 0; for (auto& m : t) { ZZ c(m.second); if (k == 1 && prec > 1) { long s = tier ? (prec + 1) / 2 : prec - 1; if (tier && prec < 4) s = 1; c += power_ZZ(p, s) * in_ZZ("g", ZZ(0), power_ZZ(p, prec - s) - 1); } if (k == 0) c += power_ZZ(p, 40) * in_ZZ(nm("h", k), -power2_ZZ(70), power2_ZZ(70)); ++k; f[toV(m.first)] = c; } return f; }
void harness() { wide();
  long kind = choose("kind", 0, 3), p, d = 3; Terms t; bool better = false;
  if (kind == 0) { // y^2 z = x^3 + a x^2 z + b x z^2 + c z^3
    static const long ps[] = {5, 7, 11}; p = ps[choose("p", 0, tier ? 2 : 1)]; long a = choose("a", 0, tier && p == 5 ? p - 1 : 0), b = choose("b", 0, p - 1), c = choose("c", 0, p - 1);
    if ((a * a * b * b - 4 * b * b * b - 4 * a * a * a * c - 27 * c * c + 18 * a * b * c) % p == 0) finish(); better = choose("better", 0, 1); if (!tier && (better || (3 * b + c) % 4)) finish();
    t = {{{0, 2, 1}, -1}, {{3, 0, 0}, 1}}; if (a) t.push_back({{2, 0, 1}, a}); if (b) t.push_back({{1, 0, 2}, b}); if (c) t.push_back({{0, 0, 3}, c});
  } else if (kind == 1) { // diagonal plus xyz
    static const long ps[] = {5, 7, 11, 13}; p = ps[choose("p", 0, tier ? 3 : 1)]; long b = choose("b", 1, 2), c = choose("c", 1, p - 1), m = choose("m", 0, p - 1); if ((m * m * m + 27 * b * c) % p == 0) finish(); if (!tier && (b + 2 * c + m) % 5) finish();
    t = {{{3, 0, 0}, 1}, {{0, 3, 0}, b}, {{0, 0, 3}, c}}; if (m) t.push_back({{1, 1, 1}, m}); better = true;
  } else if (kind == 2) { // genus three
    d = 4; static const Terms Q[] = {
      {{{4, 0, 0}, 1}, {{0, 4, 0}, 1}, {{0, 0, 4}, 1}, {{1, 3, 0}, 1}, {{1, 1, 2}, 1}},
      {{{3, 1, 0}, 1}, {{0, 3, 1}, 1}, {{1, 0, 3}, 1}},
      {{{4, 0, 0}, 1}, {{0, 4, 0}, 2}, {{0, 0, 4}, 1}},
      {{{4, 0, 0}, 1}, {{3, 0, 1}, 1}, {{1, 1, 2}, 1}, {{0, 3, 1}, 1}, {{0, 2, 2}, 1}, {{0, 0, 4}, 1}} };
    static const long ps[] = {3, 5, 7}; p = ps[choose("p", 0, tier ? 2 : 1)]; long q = choose("q", 0, 3); t = Q[q]; if (p == 7 && t.size() == 3) finish(); better = choose("better", 0, 1); if (!tier && (better || p > 3 || q == 0)) finish();
  } else { p = 3; d = 5; t = {{{5, 0, 0}, 1}, {{0, 5, 0}, 1}, {{0, 0, 5}, 1}, {{1, 1, 3}, 1}}; if (!tier) finish(); }
if (better) preset({1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 2, 0, 1, 3, 1, 0, 1, 1});
  Vec<int64_t> N, cp; int64_t prec; default_args(prec, N, cp, p, 2, d); F_ f = input(t, p, prec); ZZX z; Mat<ZZ> F;
  zeta_function(z, F, f, p, false, 1, 0, true, better); long g = (d - 1) * (d - 2) / 2; curve_zeta(z, t, p, g, d == 3 ? "elliptic curve" : "plane curve");
  reach(kind == 0 ? "Weierstrass" : kind == 1 ? "Hesse" : kind == 2 ? "quartics" : "quintics");
}
