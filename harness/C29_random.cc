// C29: random changes of coordinates; every draw of the random generator is a symbolic value
#include <algorithm>
#include "vh.h"
#include "matrix.h"
#include "tools.h"
#include "dr_nd.h"
using namespace vh;
typedef std::map<Vec<int64_t>, zz_p, vi64less> Poly;
static zz_p leib(const Mat<zz_p>& a) {
  long n = a.NumRows(); std::vector<long> s(n); for (long i = 0; i < n; ++i) s[i] = i; zz_p r(0);
  do { long sg = 0; for (long i = 0; i < n; ++i) for (long j = 0; j < i; ++j) sg += s[j] > s[i]; zz_p t(1); for (long i = 0; i < n; ++i) t = t * a[i][s[i]]; if (sg % 2) r -= t; else r += t; } while (std::next_permutation(s.begin(), s.end()));
  return r; }
static Vec<int64_t> mono(long a, long b) { Vec<int64_t> v; v.SetLength(2); v[0] = a; v[1] = b; return v; }
static B nz(const zz_p& a) { return !beq(a, zz_p(0)); }
static zz_p at(const Poly& f, long a, long b) { auto it = f.find(mono(a, b)); return it == f.end() ? zz_p(0) : it->second; }
// binary forms of degree 2 and 3: square-free and divisible by no variable
static B nd(const Poly& f, long d) {
  zz_p a0 = at(f, 0, d), a1 = at(f, 1, d - 1); if (d == 2) { zz_p a2 = at(f, 2, 0); return nz(a0) && nz(a2) && nz(a1 * a1 - 4 * a0 * a2); }
  zz_p A = at(f, 3, 0), b = at(f, 2, 1), C = a1, D = a0; return nz(A) && nz(D) && nz(b * b * C * C - 4 * A * C * C * C - 4 * b * b * b * D - 27 * A * A * D * D + 18 * A * b * C * D); }
void harness() { wide();

  static const long ps[] = {2, 3, 5, 7, 2147483647, 1152921504606846883}; long kind = choose("kind", 0, 2);
  if (kind == 0) {
    long n = choose("n", 1, 3), p = ps[choose("p", 0, 5)]; if (n == 3 && (p > 7 || (p > 3 && !tier))) finish();
    if (p <= 7) bv(); if (p > 7 && n > 1 + tier) finish(); zz_p::init(p); draws(n == 3 ? (tier ? 2 * n * n + 1 : n * n + 1) : 2 * n * n + 2);
    Mat<zz_p> M = random_SL_matrix(n); check(M.NumRows() == n && M.NumCols() == n, "shape of the random matrix"); check_eq(leib(M), zz_p(1), "determinant of the random matrix"); reach("matrix");
  } else {
    long d = kind == 1 ? 2 : 3, p = ps[choose("p", 0, tier ? 3 : 2)]; if (d % p == 0 || (p == 5 && d == 3 && !tier)) finish(); bv(); zz_p::init(p); ZZ_p::init(ZZ(p));
    long N = choose("tries", 0, tier || (d == 3 && p == 2) ? 2 : p < 5); draws(tier || N < 2 ? 5 * N + 5 : 5 * N);
    Poly f; if (d == 2) { f[mono(2, 0)] = in_zz_p("a"); f[mono(1, 1)] = in_zz_p("b"); f[mono(0, 2)] = in_zz_p("c"); }
    else { long shape = choose("shape", 0, 2); zz_p a = in_zz_p("a"), b = in_zz_p("b"); if (shape == 0) { f[mono(2, 1)] = a; f[mono(1, 2)] = b; } else if (shape == 1) { f[mono(3, 0)] = a; f[mono(0, 3)] = b; } else { f[mono(3, 0)] = a; f[mono(2, 1)] = b; f[mono(1, 2)] = 1; } }
    Poly g = f; Mat<zz_p> M = find_change_of_variables(f, N);
    for (auto& c : g) check_eq(f[c.first], c.second, "the polynomial given is unchanged"); check(M.NumRows() == 2 && M.NumCols() == 2, "shape of the change of variables");
    B zero = b_(true); for (long i = 0; i < 2; ++i) for (long j = 0; j < 2; ++j) zero = zero && beq(M[i][j], zz_p(0));
    if (decide(zero)) { reach("refused"); check(!nd(f, d), "no change of variables is found although none is needed"); }
    else { check_eq(leib(M), zz_p(1), "determinant of the change of variables"); Poly h = change_of_variables<zz_p>(f, M); check(nd(h, d), "the changed equation is degenerate"); reach("found");
      B id = beq(M[0][0], zz_p(1)) && beq(M[1][1], zz_p(1)) && beq(M[0][1], zz_p(0)) && beq(M[1][0], zz_p(0)); if (!N) check(id, "no draw allowed: only the identity may be returned"); }
  }
}
