// C18: the reduction matrices of the non-degenerate model.  With T(w) the class of (k-1)! x^w Omega/(x0..xn f^k),
// the toric Griffiths-Dwork relations sum_c c_i f_c T(w+c) = w_i T(w) determine them; for matrices M_v(u) the relations are equivalent to
// sum_c c_i f_c M_c(u) e_t = (u_i+t_i) e_t,  M_v(u) M_w(u+v) = M_w(u) M_v(u+w),  M_v(u) e_t = e_(v+t) for v+t in the basis
#include "vhd.h"
#include "dr_nd.h"
using namespace vh;
typedef std::vector<std::vector<ZZ_p> > MM;
static ZZ_p zp(const ZZ& a) { return conv<ZZ_p>(a); }
static MM at(const std::map<Vec<int64_t>, Mat<ZZ_p>, vi64less>& M, const std::vector<ZZ_p>& u, long L) {
  MM r(L, std::vector<ZZ_p>(L, ZZ_p(0)));
  for (auto it = M.begin(); it != M.end(); ++it) { ZZ_p c(1); for (long i = 0; i < it->first.length(); ++i) for (long k = 0; k < (long)it->first[i]; ++k) c *= u[i]; for (long i = 0; i < L; ++i) for (long j = 0; j < L; ++j) r[i][j] += c * it->second[i][j]; }
  return r; }
static MM mm(const MM& a, const MM& b) { long L = a.size(); MM r(L, std::vector<ZZ_p>(L, ZZ_p(0))); for (long i = 0; i < L; ++i) for (long k = 0; k < L; ++k) if (!surely_zero(a[i][k])) for (long j = 0; j < L; ++j) r[i][j] += a[i][k] * b[k][j]; return r; }
static void eq(const MM& a, const MM& b, const string& m) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) check_eq(a[i][j], b[i][j], m); }
void harness() { wide();
  static const long which[] = {0, 1, 3, 4, 7, 5, 2, 6}; long ci = choose("f", 0, tier ? 7 : 6); Curve c = curve(which[ci]); if (c.p == 2 && c.d % 2 == 0) finish();
  long N = choose("N", 1, c.n == 1 ? (c.d < 4 ? 3 : 2) : 2), n = c.n, d = c.d; zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, N)); RPol f = lift(c, N, n == 2 || N == 3 ? 1 : 2); Pol P = toPol(f); bool mem = choose("save_memory", 0, 1); if (mem && n == 2) finish();
  de_Rham_non_degenerate_local D(c.p, N, f, false, mem); long L = D.coKernels_ND_basis.length(); { long w = 1; for (long i = 0; i < n; ++i) w *= d; check(L == w, "dimension"); }
  std::vector<E> V = exps(n + 1, d); long part = choose("part", 0, 3);
  std::vector<ZZ_p> u; auto syms = [&]() { u.clear(); for (long i = 0; i <= n; ++i) u.push_back(in_ZZ_p(nm("u", i))); };
  auto shift = [&](const E& v) { std::vector<ZZ_p> w(u); for (long i = 0; i <= n; ++i) w[i] += ZZ_p(v[i]); return w; };
  if (part == 0) { // the relations
    long i = choose("i", 0, n); syms(); MM s(L, std::vector<ZZ_p>(L, ZZ_p(0)));
    for (auto& x : P) if (x.first[i]) { MM m = at(D.compute_reduction_matrix_ND(toV(x.first))->second, u, L); for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) s[a][b] += x.first[i] * x.second * m[a][b]; }
    for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) check_eq(s[a][b], a == b ? u[i] + ZZ_p((long)D.coKernels_ND_basis[b][i]) : ZZ_p(0), "toric relation"); reach("relation");
  } else if (part == 1) { // independence of the path
    long a = choose("v", 0, V.size() - 1), step = n == 2 && !tier ? 4 : 1; long b = choose("w", 0, (V.size() - 1) / step) * step; if (b == a || (step == 1 && b > a)) finish(); if (b > a && n == 1) finish();
    if (n == 2) { u.clear(); for (long i = 0; i <= n; ++i) u.push_back(N == 1 || tier ? in_ZZ_p(nm("u", i)) : ZZ_p(3 * i + 2)); if (N > 1 && !tier) u[a % 3] = in_ZZ_p("u"); } else syms();
    MM x = mm(at(D.compute_reduction_matrix_ND(toV(V[a]))->second, u, L), at(D.compute_reduction_matrix_ND(toV(V[b]))->second, shift(V[a]), L)), y = mm(at(D.compute_reduction_matrix_ND(toV(V[b]))->second, u, L), at(D.compute_reduction_matrix_ND(toV(V[a]))->second, shift(V[b]), L)); eq(x, y, "the path matters"); reach("paths");
  } else if (part == 2) { // basis elements, integer copies, expansion along a line
    E v = V[choose("v", 0, V.size() - 1)]; bool zf = choose("zz_first", 0, 1); if (zf && n == 2) finish(); Vec<int64_t> vv = toV(v); std::map<Vec<int64_t>, Mat<ZZ>, vi64less> Z, ZP; if (zf) { ZP = D.compute_reduction_matrix_ND_poly_ZZ(vv)->second; Z = D.compute_reduction_matrix_ND_ZZ(vv)->second; }
    std::map<Vec<int64_t>, Mat<ZZ_p>, vi64less> M = D.compute_reduction_matrix_ND(vv)->second, MP = D.compute_reduction_matrix_ND_poly(vv)->second; if (!zf) { Z = D.compute_reduction_matrix_ND_ZZ(vv)->second; ZP = D.compute_reduction_matrix_ND_poly_ZZ(vv)->second; }
    for (long b = 0; b < L; ++b) { auto it = D.coKernels_ND_basis_dict.find(toV(eadd(v, toE(D.coKernels_ND_basis[b])))); if (it == D.coKernels_ND_basis_dict.end()) continue; for (auto q = M.begin(); q != M.end(); ++q) for (long a = 0; a < L; ++a) check_eq(q->second[a][b], ZZ_p(a == it->second && edeg(toE(q->first)) == 0 ? 1 : 0), "basis element"); check(M.count(toV(E(n + 1, 0))), "constant term"); }
    check(Z.size() == M.size() && ZP.size() == MP.size(), "integer copy"); for (auto q = M.begin(); q != M.end(); ++q) { check(Z.count(q->first), "integer copy"); check_eq(conv<Mat<ZZ_p> >(Z[q->first]), q->second, "integer copy"); } for (auto q = MP.begin(); q != MP.end(); ++q) { check(ZP.count(q->first), "integer copy of the line"); check_eq(conv<Mat<ZZ_p> >(ZP[q->first]), q->second, "integer copy of the line"); }
    if (n == 2 && N > 1 && !tier) { u.clear(); for (long i = 0; i <= n; ++i) u.push_back(ZZ_p(5 * i + 1)); } else syms(); ZZ_p x = in_ZZ_p("x"); std::vector<ZZ_p> w(u), e(u); for (long i = 0; i <= n; ++i) w[i] += x * v[i]; e.push_back(x); eq(at(MP, e, L), at(M, w, L), "expansion along a line"); reach("line");
  } else { // evaluation at u
    E v = V[choose("v", 0, V.size() - 1)], u0(n + 1, 0); long s = 0; for (long i = 0; i < n; ++i) s += u0[i] = choose("big", 0, 1) ? (1L << 33) + 5 * i + 2 : 2 * i + 1; while ((s + u0[n]) % d) ++u0[n]; std::vector<ZZ_p> w; for (long i = 0; i <= n; ++i) w.push_back(ZZ_p(u0[i]));
    Mat<ZZ_p> R = D.get_reduction_matrix_ND(toV(u0), toV(v)); Mat<ZZ> RZ = D.get_reduction_matrix_ND_ZZ(toV(u0), toV(v)); MM m = at(D.compute_reduction_matrix_ND(toV(v))->second, w, L); Vec<ZZ_p> G = in_vec_ZZ_p("G", L), y; Vec<ZZ> Gz, yz; conv(Gz, G); D.reduce_vector_ND(y, toV(u0), toV(v), G); D.reduce_vector_ND_ZZ(yz, toV(u0), toV(v), Gz);
    for (long i = 0; i < L; ++i) { ZZ_p t(0); for (long j = 0; j < L; ++j) { check_eq(R[i][j], m[i][j], "matrix at u"); check_eq(zp(RZ[i][j]), m[i][j], "integer matrix at u"); t += m[i][j] * G[j]; } check_eq(y[i], t, "vector"); check_eq(zp(yz[i]), t, "integer vector"); } reach("eval");
  }
}
