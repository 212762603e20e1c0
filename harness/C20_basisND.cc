// C20: the non-degenerate spaces to the cohomology basis.  B(w) = coordinates of (m-1)! x^w Omega/(x0..xn f^m)
#include "vhd.h"
#include "dr_nd.h"
using namespace vh;
void harness() { wide();
  static const long which[] = {0, 1, 3, 4, 7, 5, 6, 9}; long ci = choose("f", 0, 7); Curve c = curve(which[ci]); if (c.p == 2 && c.d % 2 == 0) finish();
  long N = choose("N", 1, c.n == 1 ? 3 : 2), n = c.n, d = c.d; if (d == 4 && n == 2 && N > 1 && !tier) finish(); zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, N)); RPol f = lift(c, N, n == 2 ? (tier ? 2 : 1) : N == 3 ? 1 : 2); Pol P = toPol(f); bool mem = choose("save_memory", 0, 1); long part = choose("part", 0, 3); if (mem && part < 2) finish();
  de_Rham_non_degenerate_local D(c.p, N, f, false, mem); long L = D.coKernels_ND_basis.length(), nb = D.coKernels_J_basis.length(); std::vector<E> U; for (auto& e : exps(n + 1, d)) if (epos(e, 1)) U.push_back(e);
  { long w = 1; for (long i = 0; i < n; ++i) w *= d; check(L == w, "dimension"); }
  for (long b = 0; b < L; ++b) { check(edeg(toE(D.coKernels_ND_basis[b])) % d == 0 && edeg(toE(D.coKernels_ND_basis[b])) <= n * d, "degree of a basis element"); check(D.coKernels_ND_basis_dict.count(D.coKernels_ND_basis[b]) && D.coKernels_ND_basis_dict[D.coKernels_ND_basis[b]] == b, "position of a basis element"); }
  auto col = [](const Mat<ZZ_p>& M, long j) { Vec<ZZ_p> v; v.SetLength(M.NumRows()); for (long i = 0; i < M.NumRows(); ++i) v[i] = M[i][j]; return v; };
  if (part == 0) { // inclusion of each graded piece
    E u = U[choose("u", 0, U.size() - 1)], one(n + 1, 1); if (choose("late", 0, 1)) D.get_coKernels_ND_to_basis(toV(u)); long pos = 0;
    for (long l = 0; l < n; ++l) { Mat<ZZ_p> M = *D.get_inclusion_matrix_ND(toV(u), l); auto& H = D.tuple_list[(l + 1) * d - n - 1]; check(M.NumRows() == H.length(), "shape of the inclusion"); long k = 0;
      for (long b = 0; b < L; ++b) { E t = toE(D.coKernels_ND_basis[b]); if (edeg(t) != l * d) continue; check(b == pos + k && k < M.NumCols(), "order of the basis"); for (long i = 0; i < H.length(); ++i) check_eq(M[i][k], ZZ_p(eadd(t, u) == eadd(toE(H[i]), one) ? 1 : 0), "inclusion"); ++k; }
      check(M.NumCols() == k, "shape of the inclusion"); pos += k; }
    reach("inclusion");
  } else if (part == 1) { // map of the reduced space to the basis, against the Jacobian model
    E u = U[choose("u", 0, U.size() - 1)]; bool first = choose("basis_first", 0, 1); if (first) D.get_final_reduction_matrix_J(n);
    Mat<ZZ_p> M = *D.get_coKernels_ND_to_basis(toV(u)); check(M.NumRows() == nb && M.NumCols() == L, "shape");
    for (long b = 0; b < L; ++b) check_eq(col(M, b), D.monomial_to_basis_J(toV(eadd(u, toE(D.coKernels_ND_basis[b])))), "coordinates of a basis element of the reduced space");
    check_eq(*D.get_coKernels_ND_to_basis(toV(u)), M, "asked twice"); reach("basis");
  } else { long m = choose("m", 1, n == 1 ? 4 : (N == 1 || tier) ? 3 : part == 2 ? 2 : 1); std::vector<E> W; for (auto& e : exps(n + 1, m * d)) if (epos(e, 1)) W.push_back(e); long stride = n == 2 ? (m > 1 ? (N > 1 ? 7 : 3) : 1) : 1; if (tier) stride = (stride + 2) / 3; long k = choose("u", 0, (W.size() - 1) / stride); E u = W[k * stride];
    if (part == 2) { check_eq(D.monomial_to_basis_ND(toV(u)), D.monomial_to_basis_J(toV(u)), "the two models"); E one(n + 1, 1); auto it = D.coKernels_J_basis_dict.find(toV(esub(u, one))); if (it != D.coKernels_J_basis_dict.end()) { Vec<ZZ_p> y = D.monomial_to_basis_ND(toV(u)); long fact = 1; for (long i = 1; i < m; ++i) fact *= i; for (long i = 0; i < nb; ++i) check_eq(y[i], ZZ_p(i == it->second ? fact : 0), "coordinates of a basis form"); } reach("monomial"); }
    else { if (m > 3) finish(); long i = choose("i", 0, n); Vec<ZZ_p> s, w = D.monomial_to_basis_ND(toV(u)); s.SetLength(nb, ZZ_p(0)); for (auto& x : P) if (x.first[i]) { Vec<ZZ_p> y = D.monomial_to_basis_ND(toV(eadd(u, x.first))); for (long b = 0; b < nb; ++b) s[b] += x.first[i] * x.second * y[b]; } for (long b = 0; b < nb; ++b) w[b] *= u[i]; check_eq(s, w, "toric relation"); reach("relation"); } }
}
