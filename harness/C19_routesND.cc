// C19: every reduction route of the non-degenerate model computes the same vector
#include "vhd.h"
#include "vhf.h"
#include "dr_nd.h"
using namespace vh;
typedef std::map<Vec<int64_t>, Mat<ZZ_p>, vi64less> PM;
static Vec<ZZ_p> step(const PM& M, const std::vector<ZZ_p>& u, const Vec<ZZ_p>& G) { // M(u) G
  long L = G.length(); Vec<ZZ_p> y; y.SetLength(L, ZZ_p(0));
  for (auto it = M.begin(); it != M.end(); ++it) { ZZ_p c(1); for (long i = 0; i < it->first.length(); ++i) for (long k = 0; k < (long)it->first[i]; ++k) c *= u[i]; for (long i = 0; i < L; ++i) { ZZ_p s(0); for (long j = 0; j < L; ++j) s += it->second[i][j] * G[j]; y[i] += c * s; } }
  return y; }
// flint side: k steps with the matrix polynomial given by poly
static void flint_route(de_Rham_non_degenerate_local& D, const std::vector<Mat<ZZ_p> >& poly, long k, const Vec<ZZ_p>& G, bool alias, const Vec<ZZ_p>& want) {
  long L = G.length(); fmpz_mat_struct* P = (fmpz_mat_struct*)flint_malloc(sizeof(fmpz_mat_struct) * poly.size()); fmpz* g = _fmpz_vec_init(L), *r = alias ? g : _fmpz_vec_init(L); fmpz_t m; fmpz_init(m); wrf(m, ZZ_p::modulus());
  for (size_t i = 0; i < poly.size(); ++i) { fmpz_mat_init(P + i, L, L); for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) wrf(fmpz_mat_entry(P + i, a, b), rep(poly[i][a][b])); } for (long a = 0; a < L; ++a) { wrf(g + a, rep(G[a])); if (!alias) wrf(r + a, ZZ(5)); }
  D.reduce_vector_ND_poly_flint(r, P, k, g, m);
  for (long a = 0; a < L; ++a) { check_eq(conv<ZZ_p>(rdf(r + a)), want[a], "word-size or multi-word route"); if (!alias) check_eq(rdf(g + a), rep(G[a]), "input vector changed"); }
  check_eq(rdf(m), ZZ_p::modulus(), "modulus changed"); for (size_t i = 0; i < poly.size(); ++i) { for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) check_eq(rdf(fmpz_mat_entry(P + i, a, b)), rep(poly[i][a][b]), "polynomial changed"); fmpz_mat_clear(P + i); } flint_free(P); if (!alias) _fmpz_vec_clear(r, L); _fmpz_vec_clear(g, L); fmpz_clear(m); }
static void routes(de_Rham_non_degenerate_local& D, const PM& M, const Vec<int64_t>& u, const Vec<int64_t>& v, long k, const Vec<ZZ_p>& G) {
  long L = G.length(), n = u.length() - 1; Vec<ZZ_p> want = G, y, s = G, t = G; Vec<ZZ> Gz, yz, sz; conv(Gz, G); sz = Gz;
  for (long x = k - 1; x >= 0; --x) { std::vector<ZZ_p> w; for (long i = 0; i <= n; ++i) w.push_back(conv<ZZ_p>(conv<ZZ>(u[i]) + x * conv<ZZ>(v[i]))); want = step(M, w, want); }
  if (choose("used", 0, 1)) { y.SetLength(L + 1, ZZ_p(1)); yz.SetLength(1, ZZ(7)); }
  D.reduce_vector_ND_poly(y, u, v, k, G); check_eq(y, want, "polynomial route"); D.reduce_vector_ND_poly_ZZ(yz, u, v, k, Gz); check_eq(conv<Vec<ZZ_p> >(yz), want, "polynomial route over the integers");
  Vec<int64_t> w = u; for (long i = 0; i < k; ++i) w = w + v; for (long i = 0; i < k; ++i) { w = w - v; Vec<ZZ_p> q; Vec<ZZ> qz; D.reduce_vector_ND(q, w, v, s); s = q; D.reduce_vector_ND_ZZ(qz, w, v, sz); sz = qz; Mat<ZZ_p> R = D.get_reduction_matrix_ND(w, v); check_eq(conv<Mat<ZZ_p> >(D.get_reduction_matrix_ND_ZZ(w, v)), R, "matrix over the integers"); t = R * t; }
  check_eq(s, want, "step by step"); check_eq(conv<Vec<ZZ_p> >(sz), want, "step by step over the integers"); check_eq(t, want, "through the matrices at u");
  fmpz_mat_struct* P = (fmpz_mat_struct*)flint_malloc(sizeof(fmpz_mat_struct) * (n + 2)); for (long i = 0; i < n + 2; ++i) fmpz_mat_init(P + i, L, L);
  D.get_ND_poly_flint(P, u, v); std::vector<Mat<ZZ_p> > poly(n + 2); for (long i = 0; i < n + 2; ++i) { poly[i].SetDims(L, L); check(fmpz_mat_nrows(P + i) == L && fmpz_mat_ncols(P + i) == L, "shape"); for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) { ZZ e = rdf(fmpz_mat_entry(P + i, a, b)); check(ble(ZZ(0), e) && blt(e, ZZ_p::modulus()), "unreduced residue"); poly[i][a][b] = conv<ZZ_p>(e); } fmpz_mat_clear(P + i); } flint_free(P);
  flint_route(D, poly, k, G, true, want); }
static Mat<ZZ_p> pat(const string& nm_, long L, long kind) { Mat<ZZ_p> m; m.SetDims(L, L); for (long i = 0; i < L; ++i) for (long j = 0; j < L; ++j) { bool on = kind == 1 || (kind == 2 && i == 0) || (kind == 3 && j == L - 1) || (kind == 4 && i == 0 && j == L - 1) || (kind == 5 && i == L - 1 && j == 0); m[i][j] = on ? conv<ZZ_p>(in_ZZ(nm(nm_, i, j), ZZ(1), ZZ_p::modulus() - 1)) : ZZ_p(0); } return m; }
void harness() { wide();
  long kind = choose("kind", 0, 2);
  if (kind == 0) { // an arbitrary matrix polynomial: word-size residues, finite differences, multi-word residues
    static const long P_[] = {5, 3, 3, 3, 2, 2}, E_[] = {1, 40, 41, 1, 5, 1}; long mi = choose("modulus", 0, 5), n = choose("n", 1, 4), L = 2; bool small = n == 4 || (n == 3 && !tier); if (small && mi != 3 && (n == 3 || mi != 5)) finish(); zz_p::init(P_[mi]); ZZ_p::init(power_ZZ(P_[mi], E_[mi]));
    long k = choose("k", 0, n + (tier ? 4 : 3)); bool alias = choose("alias", 0, 1); if ((alias && mi) || (n > 1 && !tier && k != n + 3 && k != n + 1 && mi != 1) || (n == 4 && k != n + 1) || (mi == 5 && n == 1) || (mi == 2 && k > 3)) finish();
    std::vector<Mat<ZZ_p> > M; bool fd = k > n + 1 && mi != 2;
    if (fd && mi == 1) { long var = choose("var", 0, 2); for (long i = 0; i <= n + 1; ++i) { Mat<ZZ_p> m; m.SetDims(L, L); for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) if ((i <= n || a == 0) && !(var == 1 && i == 1) && !(var == 2 && a != b)) m[a][b] = conv<ZZ_p>(power_ZZ(2, 61 - 7 * i + 3 * a + b) + 12345 * (i + 1)) * ZZ_p(-1 - 2 * b); M.push_back(m); } }
    else if (fd) { M.push_back(pat("M0", L, choose("p0", 0, 1))); for (long i = 1; i <= n; ++i) { long q = choose(nm("p", i), 0, 5); if (n > 1 && !tier && (q == 2 || q == 3 || (small && q > 1))) finish(); M.push_back(pat(nm("M", i), L, q)); } static const long top[] = {0, 2, 4}; M.push_back(pat("Mt", L, top[choose("pt", 0, 2)])); }
    else { M.push_back(pat("M0", L, 1)); for (long i = 1; i <= n; ++i) M.push_back(pat(nm("M", i), L, k < 3 ? 1 : 2)); M.push_back(pat("Mt", L, 2)); }
    // a residue is a word, the step count is not reduced
    de_Rham_non_degenerate_local D; D.n = n; Vec<ZZ_p> G = in_vec_ZZ_p("G", L), w = G;
    for (long x = k - 1; x >= 0; --x) { Vec<ZZ_p> y; y.SetLength(L, ZZ_p(0)); ZZ_p c(1); for (long i = 0; i <= n + 1; ++i) { for (long a = 0; a < L; ++a) for (long b = 0; b < L; ++b) y[a] += c * M[i][a][b] * w[b]; c *= ZZ_p(x); } w = y; }
    flint_route(D, M, k, G, alias, w); reach("polynomial");
  } else if (kind == 1) { // arbitrary reduction matrices, base point and vector
    long N = choose("N", 0, 1) ? 30 : 1, p = choose("p", 0, 1) ? 5 : 3; if (N == 30 && p == 5) N = 27; zz_p::init(p); ZZ_p::init(power_ZZ(p, N)); RPol f; f[toV({2, 0})] = ZZ_p(1); f[toV({0, 2})] = ZZ_p(1); de_Rham_non_degenerate_local D(p, N, f, false, choose("save_memory", 0, 1));
    long iv = choose("v", 0, 2), k = choose("k", 0, tier ? 3 : 2); bool su = choose("su", 0, 1); if (su && k > 1) finish(); Vec<int64_t> v = toV({iv, 2 - iv}), u; u.SetLength(2); u[0] = su ? 2 * in_i64("a", 0, 1L << 30) + 1 : int64_t(3); u[1] = su ? 2 * in_i64("b", 0, 1L << 30) + 1 : int64_t(7);
    PM M; std::vector<E> es; for (long g = 0; g <= 2; ++g) for (auto& e : exps(2, g)) es.push_back(e); long drop = choose("drop", 0, 2 + tier);
    for (auto& e : es) { if (drop == 1 && edeg(e) == 0) continue; if (drop == 2 && edeg(e) == 1) continue; if (k == 2 && edeg(e) == 2 && e[0] != 1) continue; Mat<ZZ_p> m; m.SetDims(2, 2); for (long i = 0; i < (edeg(e) == 2 ? 1 : 2); ++i) for (long j = 0; j < 2; ++j) m[i][j] = !i && !j && drop < 3 ? ZZ_p(N == 1 ? 1 : 1 + 7 * e[0] * e[0] + 11 * e[1]) : in_ZZ_p("m" + std::to_string(e[0]) + std::to_string(e[1]) + "_" + std::to_string(2 * i + j)); M[toV(e)] = m; }
    { Mat<ZZ_p>& m = M[toV(drop == 1 ? E{1, 0} : E{0, 0})]; m[1][0] = 1; } // never all zero: x^v is not zero
    D.reduction_matrix_ND_dict[v] = M; routes(D, M, u, v, k, in_vec_ZZ_p("G", 2)); reach("matrices");
  } else { // reduction matrices of a hypersurface, more steps
    static const long which[] = {0, 1, 3, 9}; long ci = choose("f", 0, 3); Curve c = curve(which[ci]); long N = choose("N", 1, 2); if (ci == 2 && N > 1 && !tier) finish(); long n = c.n, d = c.d, k = choose("k", 1, ci == 2 ? 4 : 6); if (ci == 2 && (k == 2 || k == 3)) finish(); zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, N)); RPol f = lift(c, N, ci == 2 ? 0 : 1);
    de_Rham_non_degenerate_local D(c.p, N, f, false, choose("save_memory", 0, 1)); std::vector<E> V = exps(n + 1, d); long iv = choose("v", 0, V.size() - 1); if (ci == 2 && iv % 3 && !tier) finish(); E v = V[iv], u(n + 1, 0); long s = 0; for (long i = 0; i < n; ++i) s += u[i] = 3 + 4 * i; while ((s + u[n]) % d || !u[n]) ++u[n];
    // a base point that is a multiple of p, as in the Frobenius computation
    if (choose("pu", 0, 1)) for (auto& x : u) x *= c.p;
    Vec<ZZ_p> G = in_vec_ZZ_p("G", D.coKernels_ND_basis.length()); PM M = D.compute_reduction_matrix_ND(toV(v))->second; routes(D, M, toV(u), toV(v), k, G); reach("hypersurface");
  }
}
