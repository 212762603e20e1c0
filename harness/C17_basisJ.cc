// C17: numerators to the cohomology basis, Jacobian model
#include "vhd.h"
#include "dr.h"
using namespace vh;
static Vec<ZZ_p> apply(const Mat<ZZ_p>& M, de_Rham_local& D, long deg, const Pol& g) { Vec<ZZ_p> r; r.SetLength(M.NumRows(), ZZ_p(0)); auto& list = D.tuple_list[deg]; check(M.NumCols() == list.length(), "columns"); for (long j = 0; j < list.length(); ++j) { ZZ_p c = coef(g, toE(list[j])); for (long i = 0; i < M.NumRows(); ++i) r[i] += c * M[i][j]; } return r; }
void harness() { wide();
  static const long which[] = {0, 1, 3, 4, 2, 7, 5, 6, 8}; Curve c = curve(which[choose("f", 0, 8)]);
  long N = choose("N", 1, c.n == 1 ? 3 : 2), n = c.n, d = c.d;
  if (n == 2 && d == 4 && N > 1) finish(); if (n == 3 && N > 1 && !tier) finish();
  bool lin = n == 2 && N == 2;
  zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, N)); RPol f = lift(c, N, lin && !tier ? 3 : -1); Pol P = toPol(f); bool mem = choose("save_memory", 0, 1);
  long part = choose("part", 0, 2); if (mem && (part != 2 || lin)) finish();
  de_Rham_local D(c.p, N, f, false, mem); long nb = D.coKernels_J_basis.length();
  { long pw = 1; for (long i = 0; i <= n; ++i) pw *= d - 1; check(nb == (pw + ((n + 1) % 2 ? -1 : 1) * (d - 1)) / d || c.n == 0, "dimension of the middle cohomology"); }
  for (long b = 0; b < nb; ++b) { long s = edeg(toE(D.coKernels_J_basis[b])) + n + 1; check(s % d == 0 && s / d >= 1 && s / d <= n, "degree of a basis form"); check(D.coKernels_J_basis_dict.count(D.coKernels_J_basis[b]) && D.coKernels_J_basis_dict[D.coKernels_J_basis[b]] == b, "position of a basis form"); for (long a = 0; a < b; ++a) check(!(D.coKernels_J_basis[a] == D.coKernels_J_basis[b]), "basis form listed twice"); }
  if (part == 0) { // inclusions
    std::vector<E> U = exps(n + 1, n); E u = U[choose("u", 0, U.size() - 1)], one(n + 1, 1); Mat<ZZ_p> M = *D.get_inclusion_matrix_J(toV(u)); auto& G = D.tuple_list[d * n - n]; auto& H = D.tuple_list[d * n - n - 1]; check(M.NumRows() == H.length() && M.NumCols() == G.length(), "shape of the inclusion");
    for (long j = 0; j < G.length(); ++j) for (long i = 0; i < H.length(); ++i) check_eq(M[i][j], ZZ_p(eadd(toE(G[j]), u) == eadd(toE(H[i]), one) ? 1 : 0), "inclusion");
    reach("inclusion");
  } else if (part == 1) { // final reductions
    long first = choose("first", 0, n); if (first) { D.get_final_reduction_matrix_J(first); D.get_final_reduction_matrix_J(n); } long fact = 1;
    for (long k = 1; k <= n; ++k) { if (k > 1) fact *= k - 1; long deg = k * d - n - 1; if (deg < 0) continue; Mat<ZZ_p> F = *D.get_final_reduction_matrix_J(k); check(F.NumRows() == nb && F.NumCols() == D.tuple_list[deg].length(), "shape of the final reduction");
      for (long b = 0; b < nb; ++b) if (edeg(toE(D.coKernels_J_basis[b])) == deg) { Pol g; g[toE(D.coKernels_J_basis[b])] = ZZ_p(1); Vec<ZZ_p> y = apply(F, D, deg, g); for (long i = 0; i < nb; ++i) check_eq(y[i], ZZ_p(i == b ? fact : 0), "basis form"); }
      for (auto& h : exps(n + 1, deg - (d - 1))) for (long i = 0; i <= n; ++i) { Pol hp; hp[h] = ZZ_p(1); Vec<ZZ_p> y = apply(F, D, deg, pmul(hp, pdiff(P, i))); Vec<ZZ_p> z; z.SetLength(nb, ZZ_p(0)); if (k > 1) z = apply(*D.get_final_reduction_matrix_J(k - 1), D, deg - d, pdiff(hp, i)); if (k == 1) { z.SetLength(nb, ZZ_p(0)); } check_eq(y, z, "exact forms"); } }
    reach("final");
  } else { // coordinates of monomials
    auto B = [&](const E& u) { return D.monomial_to_basis_J(toV(u)); };
    long m = choose("m", 1, n == 1 ? 4 : lin ? 2 : 3), kind = choose("kind", 0, n + 1); if (lin && m == 1 && kind) {}
    std::vector<E> U; for (auto& e : exps(n + 1, m * d + (kind <= n) )) if (epos(e, 1)) U.push_back(e);
    long stride = n == 3 ? 61 : (n == 2 && !tier) ? (lin ? 5 : 3) : 1; std::vector<E> W; for (size_t i = 0; i < U.size(); i += stride) W.push_back(U[i]); if (W.empty()) finish();
    E u = W[choose("u", 0, W.size() - 1)]; Vec<ZZ_p> s; s.SetLength(nb, ZZ_p(0)); Vec<ZZ_p> want = s;
    if (kind <= n) { E e = unit(n + 1, kind); for (auto& x : P) if (x.first[kind]) { Vec<ZZ_p> y = B(esub(eadd(u, x.first), e)); for (long i = 0; i < nb; ++i) s[i] += x.first[kind] * x.second * y[i]; } if (u[kind] > 1) { want = B(esub(u, e)); for (long i = 0; i < nb; ++i) want[i] *= u[kind] - 1; } check_eq(s, want, "coordinates of an exact form"); }
    else { for (auto& x : P) { Vec<ZZ_p> y = B(eadd(u, x.first)); for (long i = 0; i < nb; ++i) s[i] += x.second * y[i]; } want = B(u); for (long i = 0; i < nb; ++i) want[i] *= m; check_eq(s, want, "coordinates of f times a form over f"); }
    E one(n + 1, 1); if (m <= n && kind == n + 1) { long fact = 1; for (long i = 1; i < m; ++i) fact *= i; auto it = D.coKernels_J_basis_dict.find(toV(esub(u, one))); if (it != D.coKernels_J_basis_dict.end()) { Vec<ZZ_p> y = B(u); for (long i = 0; i < nb; ++i) check_eq(y[i], ZZ_p(i == it->second ? fact : 0), "coordinates of a basis form"); } }
    reach("monomial");
  }
}
