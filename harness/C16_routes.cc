// C16: every reduction route of the Jacobian model computes the same vector
#include "vhd.h"
#include "dr.h"
using namespace vh;
// the reduction u+kv -> u as the product of the steps, from the stored matrices
static Vec<ZZ_p> oracle(const Vec<Mat<ZZ_p> >& M, const Vec<int64_t>& u, const Vec<int64_t>& v, long k, Vec<ZZ_p> G) {
  long L = G.length(), n = u.length() - 1;
  for (long x = k - 1; x >= 0; --x) { Vec<ZZ_p> y; y.SetLength(L);
    for (long i = 0; i < L; ++i) { ZZ_p s(0); for (long j = 0; j < L; ++j) { ZZ_p m = M[0][i][j]; for (long t = 0; t <= n; ++t) m += conv<ZZ_p>(conv<ZZ>(u[t]) + x * conv<ZZ>(v[t])) * M[t + 1][i][j]; s += m * G[j]; } y[i] = s; }
    G = y; }
  return G; }
static void routes(de_Rham_local& D, const Vec<Mat<ZZ_p> >& M, const Vec<int64_t>& u, const Vec<int64_t>& v, long k, const Vec<ZZ_p>& G) {
  long L = G.length(); Vec<ZZ_p> want = oracle(M, u, v, k, G), r; Vec<ZZ> rz, Gz; conv(Gz, G);
  if (choose("used", 0, 1)) { r.SetLength(L + 1); for (long i = 0; i <= L; ++i) r[i] = ZZ_p(1); rz.SetLength(1); rz[0] = 7; }
  D.reduce_vector_J_poly(r, u, v, k, G); check_eq(r, want, "polynomial route");
  D.reduce_vector_J_poly_ZZ(rz, u, v, k, Gz); check_eq(conv<Vec<ZZ_p> >(rz), want, "polynomial route over the integers");
  Vec<ZZ_p> s = G; Vec<ZZ> sz = Gz; Vec<int64_t> w = u; for (long i = 0; i < k; ++i) w = w + v;
  for (long i = 0; i < k; ++i) { w = w - v; s = D.reduce_vector_J(w, v, s); D.reduce_vector_J_ZZ(sz, w, v, sz); }
  check_eq(s, want, "step by step"); check_eq(conv<Vec<ZZ_p> >(sz), want, "step by step over the integers");
  Vec<ZZ_p> t = G; w = u; for (long i = 0; i < k; ++i) w = w + v;
  for (long i = 0; i < k; ++i) { w = w - v; Mat<ZZ_p> R = D.get_reduction_matrix_J(w, v); Mat<ZZ> RZ = D.get_reduction_matrix_J_ZZ(w, v); check_eq(conv<Mat<ZZ_p> >(RZ), R, "matrix over the integers at u"); t = R * t; }
  check_eq(t, want, "through the matrices at u");
}
void harness() { wide();
  long kind = choose("kind", 0, 2);
  if (kind == 0) { // arbitrary matrices, base point and vector
    long N = choose("N", 1, 2), p = choose("p", 0, 1) ? 5 : 3, k = choose("k", 0, tier ? 4 : 3); zz_p::init(p); ZZ_p::init(power_ZZ(p, N == 2 ? 30 : 1));
    RPol f; f[toV({2, 0})] = ZZ_p(1); f[toV({0, 2})] = ZZ_p(1); de_Rham_local D(p, N == 2 ? 30 : 1, f, false, choose("save_memory", 0, 1));
    long iv = choose("v", 0, 2); Vec<int64_t> v = toV({iv, 2 - iv}), u; u.SetLength(2); for (long i = 0; i < 2; ++i) u[i] = iv == 2 * i ? in_i64(nm("u", i), 0, 0) : in_i64(nm("u", i), 0, 1L << 40);
    Vec<Mat<ZZ_p> > M; Vec<Mat<ZZ> > Z; M.SetLength(3); Z.SetLength(3); for (long i = 0; i < 3; ++i) { M[i] = in_mat_ZZ_p(nm("M", i), 2, 2); Z[i] = conv<Mat<ZZ> >(M[i]); }
    D.reduction_matrix_J_dict[v] = M; if (choose("both", 0, 1)) D.reduction_matrix_J_ZZ_dict[v] = Z;
    routes(D, M, u, v, k, in_vec_ZZ_p("G", 2)); reach("matrices");
  } else if (kind == 1) { // long reductions, fixed matrices
    long k = choose("k", 4, tier ? 20 : 9); zz_p::init(7); ZZ_p::init(power_ZZ(7, 3));
    RPol f; f[toV({3, 0})] = ZZ_p(1); f[toV({0, 3})] = ZZ_p(2); f[toV({1, 2})] = ZZ_p(49); de_Rham_local D(7, 3, f, false, choose("save_memory", 0, 1));
    long iv = choose("v", 0, 3); Vec<int64_t> v = toV({iv, 3 - iv}), u = toV({iv ? 13 : 0, iv < 3 ? 346 : 0}); long L = D.tuple_list[2].length();
    Vec<Mat<ZZ_p> > M; M.SetLength(3); for (long i = 0; i < 3; ++i) { M[i].SetDims(L, L); for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) M[i][a][b] = conv<ZZ_p>(ZZ((a * 5 + b * 3 + i * 11 + 1) % 17)); }
    D.reduction_matrix_J_dict[v] = M; routes(D, M, u, v, k, in_vec_ZZ_p("G", L)); reach("long");
  } else { // matrices of an actual hypersurface
    static const long which[] = {0, 1, 3}; long ci = choose("f", 0, 2); Curve c = curve(which[ci]); long N = ci == 2 ? 1 : 2, n = c.n, d = c.d, k = choose("k", 1, ci == 2 ? 2 : 2); zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, N)); RPol f = lift(c, N, ci == 0 ? -1 : 1);
    de_Rham_local D(c.p, N, f, false, choose("save_memory", 0, 1)); std::vector<E> V = exps(n + 1, d); E v = V[choose("v", 0, V.size() - 1)], u(n + 1, 0); for (long i = 0; i <= n; ++i) if (v[i]) u[i] = 3 + 4 * i;
    Vec<ZZ_p> G = in_vec_ZZ_p("G", D.tuple_list[d * n - n].length()); bool zf = choose("zz_first", 0, 1); if (zf) D.compute_reduction_matrix_J_ZZ(toV(v)); Vec<Mat<ZZ_p> > M = D.compute_reduction_matrix_J(toV(v))->second;
    routes(D, M, toV(u), toV(v), k, G); reach("hypersurface");
  }
}
