// C34: what was asked before does not change an answer, three-dimensional object: the orders in which the tables grow
#include "vhd.h"
#include "dr.h"
using namespace vh;
static void same(const Mat<ZZ_p>& a, const Mat<ZZ_p>& b, const string& m) { check(a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols(), m + " (shape)"); for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) check_eq(a[i][j], b[i][j], m); }
static void ask(de_Rham_local& D, de_Rham_local& R, long op, long k, const string& m) {
  static const long e[3][4] = {{1, 1, 1, 1}, {2, 1, 4, 1}, {1, 5, 3, 3}}; static const long w[4] = {2, 0, 1, 0};
  switch (op) {
    case 0: same(*D.get_final_reduction_matrix_J(k), *R.get_final_reduction_matrix_J(k), m); break;
    case 1: { Vec<int64_t> u; u.SetLength(4); for (long i = 0; i < 4; ++i) u[i] = e[k - 1][i]; Vec<ZZ_p> x = D.monomial_to_basis_J(u), y = R.monomial_to_basis_J(u); check(x.length() == y.length(), m); for (long i = 0; i < x.length(); ++i) check_eq(x[i], y[i], m); break; }
    case 2: { Vec<int64_t> u; u.SetLength(4); for (long i = 0; i < 4; ++i) u[(i + k) % 4] = w[i]; same(*D.get_inclusion_matrix_J(u), *R.get_inclusion_matrix_J(u), m); break; }
    case 3: { auto *x = D.get_solve_J(k * 4 - 4 + (k == 3)), *y = R.get_solve_J(k * 4 - 4 + (k == 3)); check(x->first == y->first, m); same(x->second, y->second, m); break; }
  } }
void harness() { wide(); Curve c = curve(8); long n = 3, mem = choose("save_memory", 0, 1), len = choose("length", 1, 3), N = choose("N", 1, 1 + tier), sum = mem; if (len == 1 && mem) finish(); zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, N)); RPol f = lift(c, N, 1); de_Rham_local F(c.p, N, f, false, mem);
  de_Rham_local A = F; // three requests: growth of the list of final reductions only
  for (long i = 0; i < len; ++i) { long op = len == 3 ? 0 : choose(nm("op", i), 0, 3), k = choose(nm("k", i), 1, n); sum += op + k; if (!tier && len == 2 && i == 1 && sum % 2) finish(); de_Rham_local R = F; ask(A, R, op, k, "answer after other requests"); }
  if (len < 3) for (long op = 0; op < 4; ++op) for (long k = 1; k <= n; ++k) { if (op == 3 && k < n) continue; de_Rham_local R = F, C = A; ask(C, R, op, k, "answer after other requests"); }
  reach("space"); }
