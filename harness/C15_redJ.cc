// C15: the reduction matrices of the Jacobian model satisfy the Griffiths-Dwork relation
#include "vhd.h"
#include "dr.h"
using namespace vh;
void harness() { wide();
  static const long which[] = {0, 1, 3, 4, 2, 7, 10, 5, 6}; Curve c = curve(which[choose("f", 0, tier ? 8 : 6)]);
  long N = choose("N", 1, c.n == 1 ? 3 : 2), n = c.n, d = c.d;
  if (d == 4 && n == 2 && N > 1 && !tier) finish();
  zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, N));
  RPol f = lift(c, N, -1); Pol P = toPol(f); bool mem = choose("save_memory", 0, 1), zfirst = choose("zz_first", 0, 1); if ((mem || zfirst) && n == 2 && !tier && N == 2) finish();
  de_Rham_local D(c.p, N, f, false, mem);
  std::vector<E> V = exps(n + 1, d), Gs = exps(n + 1, d * n - n); E one(n + 1, 1);
  long iv = choose("v", 0, V.size() - 1); E v = V[iv]; Vec<int64_t> vv = toV(v);
  Vec<Mat<ZZ> > Z; if (zfirst) Z = D.compute_reduction_matrix_J_ZZ(vv)->second;
  Vec<Mat<ZZ_p> > M = D.compute_reduction_matrix_J(vv)->second;
  if (!zfirst) Z = D.compute_reduction_matrix_J_ZZ(vv)->second;
  check(M.length() == n + 2 && Z.length() == n + 2, "number of matrices");
  long L = Gs.size(); for (long i = 0; i < n + 2; ++i) { check(M[i].NumRows() == L && M[i].NumCols() == L && Z[i].NumRows() == L && Z[i].NumCols() == L, "shape"); }
  for (long k = 0; k < n + 2; ++k) for (long i = 0; i < L; ++i) for (long j = 0; j < L; ++j) check_eq(conv<ZZ_p>(Z[k][i][j]), M[k][i][j], "matrix over the integers differs");
  auto& list = D.tuple_list[d * n - n];
  for (long col = 0; col < L; ++col) {
    E g = toE(list[col]), w = esub(eadd(g, v), one);
    if (!epos(w)) continue;     // x0..xn does not divide x^(u+v) G for u = 0: outside the space
    std::vector<Pol> F(n + 1); Pol s, r0;
    for (long i = 0; i <= n; ++i) for (long row = 0; row < L; ++row) {
      E e = esub(toE(list[row]), esub(one, unit(n + 1, i)));
      if (epos(e)) acc(F[i], e, M[i + 1][row][col]); else check_eq(M[i + 1][row][col], ZZ_p(0), "numerator outside the reduced space"); }
    for (long i = 0; i <= n; ++i) { Pol t = pmul(F[i], pdiff(P, i)); for (auto& x : t) acc(s, x.first, x.second);
      for (auto& x : F[i]) acc(r0, eadd(x.first, esub(one, unit(n + 1, i))), x.first[i] * x.second); }
    Pol want; want[w] = ZZ_p(1); check_pol(s, want, "numerator is not the combination of partial derivatives");
    Pol got; for (long row = 0; row < L; ++row) acc(got, toE(list[row]), M[0][row][col]); check_pol(got, r0, "derivative of the decomposition");
  }
  // evaluation at u
  E u(n + 1, 0); for (long i = 0; i <= n; ++i) if (v[i] > 0) u[i] = choose("big", 0, 1) ? (1L << 33) + 5 * i + 2 : 2 * i + 1;
  Mat<ZZ_p> R = D.get_reduction_matrix_J(toV(u), vv); Vec<ZZ_p> G = in_vec_ZZ_p("G", L), y = D.reduce_vector_J(toV(u), vv, G), e; Vec<ZZ> yz, Gz; conv(Gz, G); D.reduce_vector_J_ZZ(yz, toV(u), vv, Gz);
  for (long i = 0; i < L; ++i) { ZZ_p s(0); for (long j = 0; j < L; ++j) { ZZ_p m = M[0][i][j]; for (long k = 0; k <= n; ++k) m += u[k] * M[k + 1][i][j]; check_eq(R[i][j], m, "reduction matrix at u"); s += m * G[j]; } check_eq(y[i], s, "reduced vector"); check_eq(conv<ZZ_p>(yz[i]), s, "reduced vector over the integers"); }
  reach(n == 1 ? "binary" : "ternary");
}
