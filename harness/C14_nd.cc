// C14: non-degeneracy
#include "vh.h"
#include "dr_nd.h"
using namespace vh;
typedef std::map<Vec<int64_t>, zz_p, vi64less> Poly;
static Vec<int64_t> mono(std::initializer_list<long> e) { Vec<int64_t> v; v.SetLength(e.size()); long i = 0; for (long x : e) v[i++] = x; return v; }
static B nz(const zz_p& a) { return !beq(a, zz_p(0)); }
static zz_p disc(const std::vector<zz_p>& a) {
  if (a.size() == 2) return zz_p(1); if (a.size() == 3) return a[1] * a[1] - 4 * a[0] * a[2];
  zz_p A = a[3], B_ = a[2], C = a[1], D = a[0]; return B_ * B_ * C * C - 4 * A * C * C * C - 4 * B_ * B_ * B_ * D - 27 * A * A * D * D + 18 * A * B_ * C * D; }
void harness() { wide();
  bv();
  long kind = choose("kind", 0, 3), p = 0, N = choose("N", 1, 2); Poly f; B nd = b_(true);
  if (kind == 0) { // binary forms: square-free and not divisible by a variable
    long d = choose("d", 1, 3); static const long ps[] = {3, 5, 2, 7}; p = ps[choose("p", 0, 3)]; if (d % p == 0) finish(); if (d == 3 && p == 7 && !tier) finish(); zz_p::init(p);
    std::vector<zz_p> a; for (long i = 0; i <= d; ++i) { a.push_back(in_zz_p(nm("a", i))); f[mono({i, d - i})] = a[i]; }
    nd = nz(a[0]) && nz(a[d]) && nz(disc(a)); reach("binary");
  } else if (kind == 1) { // conics
    p = choose("p", 0, 1) ? 5 : 3; zz_p::init(p); zz_p a = in_zz_p("a"), b = in_zz_p("b"), c = in_zz_p("c"), u = in_zz_p("u"), v = in_zz_p("v"), w = in_zz_p("w");
    if (p == 5 && !tier) { w = 0; }
    f[mono({2, 0, 0})] = a; f[mono({0, 2, 0})] = b; f[mono({0, 0, 2})] = c; f[mono({1, 1, 0})] = u; f[mono({1, 0, 1})] = v; f[mono({0, 1, 1})] = w;
    nd = nz(a) && nz(b) && nz(c) && nz(u * u - 4 * a * b) && nz(v * v - 4 * a * c) && nz(w * w - 4 * b * c) && nz(4 * a * b * c + u * v * w - a * w * w - b * v * v - c * u * u); reach("conic");
  } else if (kind == 2) { // a x^3 + b y^3 + c z^3 + m xyz
    p = choose("p", 0, 1) ? 5 : 2; if (tier && choose("big", 0, 1)) p = 7; zz_p::init(p); zz_p a = in_zz_p("a"), b = in_zz_p("b"), c = in_zz_p("c"), m = in_zz_p("m");
    f[mono({3, 0, 0})] = a; f[mono({0, 3, 0})] = b; f[mono({0, 0, 3})] = c; f[mono({1, 1, 1})] = m;
    nd = nz(a * b * c) && nz(m * m * m + 27 * a * b * c); reach("cubic");
  } else { // linear forms: non-degenerate iff no coefficient vanishes
    long n = choose("n", 2, 4); p = choose("p", 0, 1) ? 3 : 2; zz_p::init(p); for (long i = 0; i < n; ++i) { Vec<int64_t> m; m.SetLength(n, 0); for (long k = 0; k < n; ++k) m[k] = k == i; zz_p c = in_zz_p(nm("c", i)); f[m] = c; nd = nd && nz(c); } reach("linear");
  }
  ZZ_p::init(power_ZZ(p, N));
  bool r = isND(f);
  if (r) check(nd, "a degenerate hypersurface is accepted"); else check(!nd, "a non-degenerate hypersurface is rejected");
}
