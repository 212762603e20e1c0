// comparison of two objects, member by member
#ifndef VHS_H
#define VHS_H
#include "vhd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
namespace vh {
typedef std::map<Vec<int64_t>, zz_p, vi64less> QPol;
template<class T> inline ZZ_p at(const T& m, const Vec<int64_t>& v) { auto it = m.find(v); return it == m.end() ? ZZ_p(0) : it->second; }
inline zz_p atq(const QPol& m, const Vec<int64_t>& v) { auto it = m.find(v); return it == m.end() ? zz_p(0) : it->second; }
inline void dims(const Mat<ZZ_p>& a, const Mat<ZZ_p>& b, const string& m) { // a matrix without entries has no shape in a file
  if (a.NumRows() * a.NumCols() == 0) { check(b.NumRows() * b.NumCols() == 0, m); return; } check_eq(a, b, m); }
inline void tables(const std::map<int64_t, std::pair<Vec<int64_t>, Mat<ZZ_p> > >& a, const std::map<int64_t, std::pair<Vec<int64_t>, Mat<ZZ_p> > >& b, long level, const string& m) { auto x = a.find(level), y = b.find(level); check(x != a.end() && y != b.end(), m + " present"); check(toE(x->second.first) == toE(y->second.first), m + " basis"); dims(x->second.second, y->second.second, m); }
inline void basis(const Vec<Vec<int64_t> >& a, const Vec<Vec<int64_t> >& b, const std::map<Vec<int64_t>, int64_t, vi64less>& da, const std::map<Vec<int64_t>, int64_t, vi64less>& db, const string& m) { check(a.length() == b.length() && da.size() == db.size(), m + " size"); for (long i = 0; i < a.length(); ++i) check(toE(a[i]) == toE(b[i]), m); for (auto x = da.begin(), y = db.begin(); x != da.end(); ++x, ++y) check(toE(x->first) == toE(y->first) && x->second == y->second, m + " lookup"); }
inline void sameJ(de_Rham_local& A, de_Rham_local& B) {
  long n = A.n, d = A.d; check(A.p == B.p && A.precision == B.precision && A.n == B.n && A.d == B.d, "parameters"); check(A.verbose == B.verbose && A.save_memory == B.save_memory, "options"); check(toE(A.Hilbert_J) == toE(B.Hilbert_J), "Hilbert polynomial");
  check(A.tuple_list.length() == B.tuple_list.length() && A.tuple_dict.length() == B.tuple_dict.length(), "monomial lists"); for (long i = 0; i < A.tuple_list.length(); ++i) { check(A.tuple_list[i].length() == B.tuple_list[i].length(), "monomial list"); for (long j = 0; j < A.tuple_list[i].length(); ++j) { check(toE(A.tuple_list[i][j]) == toE(B.tuple_list[i][j]), "monomial list"); check(B.tuple_dict[i].count(A.tuple_list[i][j]) && B.tuple_dict[i][A.tuple_list[i][j]] == j, "monomial lookup"); } }
  for (long j = 0; j < A.tuple_list[d].length(); ++j) { const Vec<int64_t>& v = A.tuple_list[d][j]; check_eq(at(B.f, v), at(A.f, v), "the polynomial"); check_eq(atq(B.fbar, v), atq(A.fbar, v), "the polynomial modulo p"); }
  for (auto& t : B.f) check(t.first.length() == n + 1 && edeg(toE(t.first)) == d, "terms of the polynomial");
  basis(A.coKernels_J_basis, B.coKernels_J_basis, A.coKernels_J_basis_dict, B.coKernels_J_basis_dict, "cohomology basis");
  for (long i = 0; i < n; ++i) tables(A.solve_J, B.solve_J, (i + 1) * d - (n + 1), "relations"); tables(A.solve_J, B.solve_J, (d - 2) * (n + 1) + 1, "relations in the top degree");
}
inline void sameND(de_Rham_non_degenerate_local& A, de_Rham_non_degenerate_local& B) { sameJ(A, B); check(toE(A.Hilbert_ND) == toE(B.Hilbert_ND), "Hilbert polynomial"); basis(A.coKernels_ND_basis, B.coKernels_ND_basis, A.coKernels_ND_basis_dict, B.coKernels_ND_basis_dict, "cokernel basis"); for (long i = 0; i <= A.n; ++i) tables(A.solve_ND, B.solve_ND, i * A.d, "relations"); tables(A.solve_ND, B.solve_ND, (A.d - 1) * (A.n + 1) + 1, "relations in the top degree"); }
}
#endif
