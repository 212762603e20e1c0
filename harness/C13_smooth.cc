// C13: smoothness
#include "vh.h"
#include "dr.h"
using namespace vh;
typedef std::map<Vec<int64_t>, zz_p, vi64less> Poly;
static Vec<int64_t> mono(std::initializer_list<long> e) { Vec<int64_t> v; v.SetLength(e.size()); long i = 0; for (long x : e) v[i++] = x; return v; }
static zz_p detf(const std::vector<std::vector<zz_p> >& M) { long n = M.size(); if (n == 0) return zz_p(1); if (n == 1) return M[0][0]; zz_p r(0);
  for (long c = 0; c < n; ++c) { std::vector<std::vector<zz_p> > m; for (long i = 1; i < n; ++i) { std::vector<zz_p> row; for (long j = 0; j < n; ++j) if (j != c) row.push_back(M[i][j]); m.push_back(row); } zz_p t = M[0][c] * detf(m); if (c % 2) r -= t; else r += t; } return r; }
// discriminant of a binary cubic / quadratic / quartic, f = sum a[i] x^i y^(d-i)
static zz_p disc(const std::vector<zz_p>& a) {
  if (a.size() == 3) return a[1] * a[1] - 4 * a[0] * a[2];
  if (a.size() == 4) { zz_p A = a[3], B_ = a[2], C = a[1], D = a[0]; return B_ * B_ * C * C - 4 * A * C * C * C - 4 * B_ * B_ * B_ * D - 27 * A * A * D * D + 18 * A * B_ * C * D; }
  // quartic: 27 disc = 4 I^3 - J^2, I = 12ae - 3bd + c^2, J = 72ace + 9bcd - 27ad^2 - 27eb^2 - 2c^3
  zz_p A = a[4], B_ = a[3], C = a[2], D = a[1], E = a[0];
  return 256*A*A*A*E*E*E - 192*A*A*B_*D*E*E - 128*A*A*C*C*E*E + 144*A*A*C*D*D*E - 27*A*A*D*D*D*D + 144*A*B_*B_*C*E*E - 6*A*B_*B_*D*D*E - 80*A*B_*C*C*D*E + 18*A*B_*C*D*D*D + 16*A*C*C*C*C*E - 4*A*C*C*C*D*D - 27*B_*B_*B_*B_*E*E + 18*B_*B_*B_*C*D*E - 4*B_*B_*B_*D*D*D - 4*B_*B_*C*C*C*E + B_*B_*C*C*D*D; }
void harness() { wide();
  bv();
  long kind = choose("kind", 0, 5); long p, N = choose("N", 1, 2); Poly f; B smooth = b_(true); bool iff = true;
  if (kind <= 2) { // binary forms of degree 2, 3, 4
    static const long ps[3][4] = {{3, 5, 7, 13}, {2, 5, 7, 11}, {3, 5, 7, 11}}; long d = kind + 2; p = ps[kind][choose("p", 0, kind == 0 ? 3 : tier ? 3 : kind == 1 ? 2 : 1)]; zz_p::init(p);
    std::vector<zz_p> a; for (long i = 0; i <= d; ++i) { a.push_back(in_zz_p(nm("a", i))); f[mono({i, d - i})] = a[i]; }
    smooth = !beq(disc(a), zz_p(0)); reach("binary");
  } else if (kind == 3) { // quadrics in 3 and 4 variables
    long n = choose("n", 3, 4); p = choose("p", 0, 1) ? 5 : 3;  zz_p::init(p); std::vector<std::vector<zz_p> > M(n, std::vector<zz_p>(n, zz_p(0)));
    for (long i = 0; i < n; ++i) for (long j = i; j < n; ++j) { if (n == 4 && j > i + 1 && !tier) continue; zz_p c = in_zz_p(nm("q", i, j)); Vec<int64_t> m; m.SetLength(n); for (long k = 0; k < n; ++k) m[k] = (k == i) + (k == j); f[m] = c; M[i][j] += c; M[j][i] += c; }
    smooth = !beq(detf(M), zz_p(0)); reach("quadric");
  } else if (kind == 4) { // cubics a x^3 + b y^3 + c z^3 + m xyz
    p = choose("p", 0, 2); p = p == 0 ? 5 : p == 1 ? 2 : 7; zz_p::init(p); zz_p a = in_zz_p("a"), b = in_zz_p("b"), c = in_zz_p("c"), m = in_zz_p("m");
    f[mono({3, 0, 0})] = a; f[mono({0, 3, 0})] = b; f[mono({0, 0, 3})] = c; f[mono({1, 1, 1})] = m;
    // a = 0: singular at (1,0,0); otherwise at a point iff m^3 = -27 abc
    smooth = !beq(a * b * c, zz_p(0)) && !beq(m * m * m + 27 * a * b * c, zz_p(0)); reach("cubic");
  } else { // Weierstrass cubics y^2 z + a1 xyz + a3 y z^2 = x^3 + a2 x^2 z + a4 x z^2 + a6 z^3
    p = choose("p", 0, 1) ? 5 : 2; zz_p::init(p); zz_p a1 = in_zz_p("a1"), a2 = in_zz_p("a2"), a3 = in_zz_p("a3"), a4 = in_zz_p("a4"), a6 = in_zz_p("a6"), one(1);
    if (!tier && p == 5) { a1 = 0; a3 = 0; }
    f[mono({0, 2, 1})] = one; f[mono({1, 1, 1})] = a1; f[mono({0, 1, 2})] = a3; f[mono({3, 0, 0})] = -one; f[mono({2, 0, 1})] = -a2; f[mono({1, 0, 2})] = -a4; f[mono({0, 0, 3})] = -a6;
    zz_p b2 = a1 * a1 + 4 * a2, b4 = 2 * a4 + a1 * a3, b6 = a3 * a3 + 4 * a6, b8 = a1 * a1 * a6 + 4 * a2 * a6 - a1 * a3 * a4 + a2 * a3 * a3 - a4 * a4;
    smooth = !beq(-b2 * b2 * b8 - 8 * b4 * b4 * b4 - 27 * b6 * b6 + 9 * b2 * b4 * b6, zz_p(0)); reach("weierstrass");
  }
  ZZ_p::init(power_ZZ(p, N));
  bool r = isSmooth(f);
  if (r) check(smooth, "a singular hypersurface is accepted as smooth"); else check(!smooth, "a smooth hypersurface is rejected");
}
