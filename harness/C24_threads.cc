// C24: any number of threads computes what one thread computes.  The threads of a region run one after another in a chosen order,
// and no two of them may touch the same location in conflict, so that every other interleaving gives the same.
#include "vhd.h"
#include "hypersurface_nd.h"
using namespace vh;
typedef std::map<Vec<int64_t>, Mat<ZZ_p>, vi64less> PM;
static void eq(const PM& a, const PM& b, const string& m) { check(a.size() == b.size(), m); for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y) { check(toE(x->first) == toE(y->first), m); check_eq(x->second, y->second, m); } }
void harness() { wide();
  static const long which[] = {0, 1, 3, 9, 7, 4, 2, 5, 6}; long ci = choose("f", 0, tier ? 8 : 6); Curve c = curve(which[ci]); long n = c.n, d = c.d, p = c.p, N = choose("N", 1, n == 1 ? 3 : 2), part = choose("part", 0, 4), sch = choose("schedule", 0, tier ? 8 : 3); // threads and the order in which they run
  static const long TT[] = {2, 3, 40, 2, 3, 3, 40, 40, 2}, OO[] = {1, 2, 0, 0, 0, 1, 1, 2, 2}; long T = TT[sch], o = OO[sch];
  if (n == 2 && !tier && (N == 2) && (part >= 2 || sch)) finish(); if (!tier && ((ci == 5 && (N > 1 || part < 2)) || (ci == 6 && (N > 1 || part < 2 || sch > 1)))) finish(); if (N == 3 && part >= 2) finish(); if (!tier && N == 3 && sch) finish();
  zz_p::init(p); ZZ_p::init(power_ZZ(p, N)); RPol f = lift(c, N, 1); threads(1); long before = regions();
  if (part < 2) { // reduction matrices, one column per iteration
    std::vector<E> V = exps(n + 1, d); long iv = choose("v", 0, V.size() - 1); if (n == 2 && iv % 3) finish(); Vec<int64_t> v = toV(V[iv]); bool z = choose("zz", 0, 1); if (z && n == 2) finish();
    if (part == 0) { de_Rham_local A(p, N, f, false, z), B(p, N, f, false, z); auto a = A.compute_reduction_matrix_J(v)->second; threads(T, o); if (z) B.compute_reduction_matrix_J_ZZ(v); else B.compute_reduction_matrix_J(v); threads(1); if (z) { auto az = A.compute_reduction_matrix_J_ZZ(v)->second, bz = B.compute_reduction_matrix_J_ZZ(v)->second; check(az.length() == bz.length(), "length"); for (long i = 0; i < az.length(); ++i) check_eq(az[i], bz[i], "integer reduction matrix"); } else { auto b = B.compute_reduction_matrix_J(v)->second; check(a.length() == b.length(), "length"); for (long i = 0; i < a.length(); ++i) check_eq(a[i], b[i], "reduction matrix"); } reach("J"); }
    else { if (p == 2 && d % 2 == 0) finish(); de_Rham_non_degenerate_local A(p, N, f, false, z), B(p, N, f, false, z); PM a = A.compute_reduction_matrix_ND(v)->second; threads(T, o); B.compute_reduction_matrix_ND(v); if (z) B.compute_reduction_matrix_ND_poly_ZZ(v); threads(1); eq(a, B.compute_reduction_matrix_ND(v)->second, "reduction matrix"); if (z) { auto x = A.compute_reduction_matrix_ND_poly_ZZ(v)->second, y = B.compute_reduction_matrix_ND_poly_ZZ(v)->second; check(x.size() == y.size(), "size"); for (auto i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j) { check(toE(i->first) == toE(j->first), "order"); check_eq(i->second, j->second, "integer reduction matrix along a line"); } } reach("ND"); }
  } else { Vec<int64_t> terms; terms.SetLength(n); for (long i = 0; i < n; ++i) terms[i] = choose(nm("terms", i), 0, n == 1 || p == 2 ? 2 : 1);
    if (n == 1 && N > 1 && d > 2 && terms[0] == 2 && !tier) finish(); if (n == 2 && !tier && (terms[0] + terms[1] == 0 || sch > 1)) finish(); if (n == 2 && p == 2 && !tier && terms[0] + terms[1] != 3) finish(); // unequal numbers of terms
    // the working precision covers the factorials
    long val = 0; { long mx = 0; for (long i = 0; i < n; ++i) mx = std::max(mx, (long)terms[i] + i + 1); for (long q = p; q <= p * mx - 1; q *= p) val += (p * mx - 1) / q; } ZZ_p::init(power_ZZ(p, N + std::max(0L, val - (n - 1)))); long prec = N + std::max(0L, val - (n - 1)); f = lift(c, prec, N > 1 && (tier || part == 2 || ci == 4 || (ci != 1 && terms[0] < 2)) ? 1 : 0);
    if (part == 2) { hypersurface A(p, prec, f, false), B(p, prec, f, false); Mat<ZZ_p> a = A.frob_matrix_J(terms); threads(T, o); Mat<ZZ_p> b = B.frob_matrix_J(terms); check_eq(b, a, "Frobenius matrix"); if (choose("again", 0, 1)) { b = B.frob_matrix_J(terms); check_eq(b, a, "Frobenius matrix, second time"); }
      // one column per form, none where no term is asked for
      threads(1); for (long i = 0; i < a.NumCols(); ++i) { long m = (edeg(toE(A.dR->coKernels_J_basis[i])) + n + 1) / d; Vec<ZZ_p> y; y.SetLength(a.NumRows(), ZZ_p(0)); if (terms[m - 1] > 0) y = A.frob_J(i, terms[m - 1]); for (long j = 0; j < a.NumRows(); ++j) check_eq(a[j][i], y[j], "column of the Frobenius matrix"); } reach("frob_J"); }
    else { if (p == 2 && d % 2 == 0) finish(); hypersurface_non_degenerate A(p, prec, f, false), B(p, prec, f, false);
      if (part == 3) { Mat<ZZ_p> a = A.frob_matrix_ND(terms); threads(T, o); Mat<ZZ_p> b = B.frob_matrix_ND(terms); check_eq(b, a, "Frobenius matrix"); threads(1); for (long i = 0; i < a.NumCols(); ++i) { long m = (edeg(toE(A.dR->coKernels_J_basis[i])) + n + 1) / d; Vec<ZZ_p> y; y.SetLength(a.NumRows(), ZZ_p(0)); if (terms[m - 1] > 0) y = A.frob_ND(i, terms[m - 1]); for (long j = 0; j < a.NumRows(); ++j) check_eq(a[j][i], y[j], "column of the Frobenius matrix"); } reach("frob_ND"); }
      else { long i = choose("form", 0, A.dR->coKernels_J_basis.length() - 1), m = (edeg(toE(A.dR->coKernels_J_basis[i])) + n + 1) / d; if (!terms[m - 1]) finish(); Vec<ZZ_p> a = A.frob_ND_flint(i, terms[m - 1]); threads(T, o); Vec<ZZ_p> b = B.frob_ND_flint(i, terms[m - 1]); check_eq(b, a, "Frobenius of a form"); reach("flint"); } }
  }
  if (before >= 0 && T > 1) { if (regions() > before) reach("parallel"); }
}
