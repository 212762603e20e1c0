// C35: the entry point delivers the precision asked for.  The local computation is replaced by its contract (C22, C23, C28): with t terms
// and working precision P, a column of pole order m is known modulo p^min(cut, P - loss); the rest of the digits is arbitrary.
#include <algorithm>
#include <sstream>
#include "vhd.h"
#include "wrapper.h"
#include "dr.h"
#include "dr_nd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
using namespace vh;
typedef std::map<Vec<int64_t>, ZZ, vi64less> F_;
static long vfac(long n, long p) { long v = 0; while (n) { n /= p; v += n; } return v; }
static long val(long a, long p) { long v = 0; while (a % p == 0) { a /= p; ++v; } return v; }
// largest exponent of p in a product of cnt distinct positive integers below pl
static long distinct(long p, long l, long cnt) { std::vector<long> v; for (long a = 1; a < l; ++a) v.push_back(1 + val(a, p)); std::sort(v.begin(), v.end(), std::greater<long>()); long s = 0; for (long i = 0; i < cnt && i < (long)v.size(); ++i) s += v[i]; return s; }
static std::vector<long> hodge(long n, long d) { std::vector<long> P(1, 1); for (long k = 0; k <= n; ++k) { std::vector<long> Q(P.size() + d - 2, 0); for (size_t i = 0; i < P.size(); ++i) for (long j = 0; j < d - 1; ++j) Q[i + j] += P[i]; P = Q; } std::vector<long> h; for (long i = 0; i < n; ++i) { long e = (i + 1) * d - (n + 1); h.push_back(e >= 0 && e < (long)P.size() ? P[e] : 0); } return h; }
static long known(long p, long n, long i, long t, long P) { long m = i + 1, v = t ? vfac(p * (m + t - 1) - 1, p) : 0, a = P - std::max(0L, v - (n - 1)), c = 1 << 30; for (long j = t; j < t + 25; ++j) c = std::min(c, n - 1 + j - distinct(p, m + j, n - 1)); return std::min(a, c); }
struct Rec { bool ran, nd; long precision; std::vector<long> terms; F_ f; Mat<ZZ> F; long n, d, p, noise, row; bool smooth, isnd, found, asked; };
static Rec* R;
// Frobenius with a known characteristic polynomial, divisible by the powers of p that belong to each column
static std::vector<std::vector<std::pair<long, long> > > exact(long n, const std::vector<long>& h, long p) { long b = 0; for (long x : h) b += x; std::vector<std::vector<std::pair<long, long> > > C(b); long z = b - h[n - 1];
  for (long j = 0; j < h[0]; ++j) { if (n == 2) { C[j].push_back({z + j, p}); C[z + j].push_back({j, -1}); } else { C[j].push_back({z + j, p * p}); C[z + j].push_back({j, 1}); } }
  if (n == 3) for (long j = 0; j < h[1]; ++j) C[h[0] + j].push_back({h[0] + j, p}); return C; }
static Mat<ZZ_p> frobenius(bool nd, const Vec<int64_t>& N) {
  long n = R->n, p = R->p; std::vector<long> h = hodge(n, R->d); long b = 0; for (long x : h) b += x; R->ran = true; R->nd = nd; check(N.length() == n, "one number of terms per pole order"); for (long i = 0; i < n; ++i) R->terms.push_back((long)N[i]);
  auto C = exact(n, h, p); Mat<ZZ_p> F; F.SetDims(b, b); long col = 0; for (long i = 0; i < n; ++i) for (long j = 0; j < h[i]; ++j, ++col) { if (!R->terms[i]) continue; for (auto& e : C[col]) F[e.first][col] = conv<ZZ_p>(ZZ(e.second)); if (j == 0 && i == R->noise) { long k = known(p, n, i, R->terms[i], R->precision); check(k >= 0, "precision of a column"); if (k < R->precision) F[R->row % b][col] += conv<ZZ_p>(power_ZZ(p, k) * in_ZZ("g", ZZ(0), power_ZZ(p, R->precision - k) - 1)); } }
  R->F = conv<Mat<ZZ> >(F); return F; }
static bool my_isSmooth(const std::map<Vec<int64_t>, zz_p, vi64less>&) { return R->smooth; }
static bool my_isND(const std::map<Vec<int64_t>, zz_p, vi64less>&) { return R->isnd; }
static Mat<zz_p> my_change(std::map<Vec<int64_t>, zz_p, vi64less>, int64_t) { R->asked = true; Mat<zz_p> M; M.SetDims(R->n + 1, R->n + 1); if (R->found) for (long i = 0; i <= R->n; ++i) M[i][i < 2 ? 1 - i : i] = zz_p(1); return M; }
static void fill(de_Rham_local& D, int64_t p, int64_t precision, const RPol& f, bool verbose) { long b = 0; for (long x : hodge(R->n, R->d)) b += x; D.p = p; D.precision = precision; D.f = f; D.n = R->n; D.d = R->d; D.verbose = verbose; D.save_memory = true; D.coKernels_J_basis.SetLength(b); R->precision = (long)precision; for (auto& t : f) R->f[t.first] = conv<ZZ>(t.second); }
struct stub_J : hypersurface { stub_J(int64_t p, int64_t precision, RPol f, bool verbose) { dR = std::make_shared<de_Rham_local>(); fill(*dR, p, precision, f, verbose); init_after_dR(); } Mat<ZZ_p> frob_matrix_J(Vec<int64_t> N) { return frobenius(false, N); } };
struct stub_ND : hypersurface_non_degenerate { stub_ND(int64_t p, int64_t precision, RPol f, bool verbose) { dR_ND = std::make_shared<de_Rham_non_degenerate_local>(); dR = dR_ND; fill(*dR, p, precision, f, verbose); init_after_dR(); } Mat<ZZ_p> frob_matrix_J(Vec<int64_t> N) { return frobenius(false, N); } Mat<ZZ_p> frob_matrix_ND(Vec<int64_t> N) { return frobenius(true, N); } };
#define hypersurface stub_J
#define hypersurface_non_degenerate stub_ND
#define isSmooth my_isSmooth
#define isND my_isND
#define find_change_of_variables my_change
#define zeta_function stub_zeta_function
#include "wrapper/zeta_function.cc"
#undef hypersurface
#undef hypersurface_non_degenerate
#undef isSmooth
#undef isND
#undef find_change_of_variables
#undef zeta_function
void harness() { wide();
  static const long n_[] = {2, 2, 3, 2, 2, 3}, d_[] = {3, 4, 4, 5, 6, 5}, p_[] = {3, 5, 7, 11, 13, 17, 19, 23, 31, 43, 101, 65537, 1000003};
  long s = choose("shape", 0, tier ? 5 : 4), n = n_[s], d = d_[s], p = p_[choose("p", 0, 12)], abs_ = choose("abs", 0, tier ? 8 : 5); bool inc = choose("increase", 0, 1); if (d % p == 0) finish(); if (!tier && s > 2 && (p != 17 || abs_ > 2)) finish();
  Rec r; R = &r; r.ran = r.nd = r.asked = false; r.n = n; r.d = d; r.p = p; r.precision = 0; r.smooth = true; r.noise = choose("column", 0, n - 1); r.row = choose("row", 0, tier ? 2 : 1); if (r.row == 2) r.row = n; if (!tier && s > 1 && r.row != (abs_ + p + r.noise) % 2) finish(); if (r.row == 1) r.row = 1000003;
  long mode = choose("model", 0, 4); if (mode && (r.noise || r.row || abs_ > 1 || p > 17 || inc || s > 2)) finish(); r.isnd = mode == 0; r.found = mode == 4; bool better = mode == 2 || mode == 4; if (mode == 1) r.smooth = false;
  int64_t prec0; Vec<int64_t> N0, cp0; default_args(prec0, N0, cp0, p, n, d); long big = 0; bool lift = true; for (long i = 0; i < n; ++i) { long r0 = (long)N0[i] + i + 1 - n, ra = abs_ - (n - 1) + i; if (abs_ && ra < r0) lift = false; big = std::max(big, inc ? std::max(r0, ra) : std::max(0L, ra)); } if (inc || !abs_) lift = true;
  F_ f; f[toV(E(n + 1, 0))]; f.clear(); { E e(n + 1, 0); e[0] = d; f[toV(e)] = ZZ(1); e[0] = 1; e[n] = d - 1; f[toV(e)] = in_ZZ("c", -power2_ZZ(80), power2_ZZ(80)); }
  ZZX z; Mat<ZZ> F; auto go = [&] { stub_zeta_function(z, F, f, p, false, 1, abs_, inc, better); };
  if (mode == 1) { must_abort("singular", go); finish(); }
  if (abs_ && p < 2 * n + big) { must_abort("precision not supported for this prime", go); finish(); }
  reach("asked"); go(); check(r.ran, "a Frobenius matrix was computed"); check(r.nd == (mode == 0 || mode == 4), "model"); check(!r.asked || better, "no change of variables unless asked for");
  std::vector<long> h = hodge(n, d); long b = 0; for (long x : h) b += x; long w = n - 1;
  { ZZ M = power_ZZ(p, r.precision); check(F.NumRows() == b && F.NumCols() == b, "shape"); for (long i = 0; i < b; ++i) for (long j = 0; j < b; ++j) check_eqmod(F[i][j], r.F[i][j], M, "Frobenius matrix"); for (auto& t : r.f) { E e = toE(t.first); if (mode == 4) std::swap(e[0], e[1]); if (!f.count(toV(e))) check_eqmod(t.second, ZZ(0), M, "polynomial"); } for (auto& t : f) { E e = toE(t.first); if (mode == 4) std::swap(e[0], e[1]); auto it = r.f.find(toV(e)); check_eqmod(it == r.f.end() ? ZZ(0) : it->second, t.second, M, "polynomial"); } }
  if (abs_) { auto C = exact(n, h, p); long col = 0; ZZ q = power_ZZ(p, abs_); check(r.precision >= abs_, "working precision"); for (long i = 0; i < n; ++i) { if (h[i]) check(known(p, n, i, r.terms[i], r.precision) >= abs_, "precision of a column of Frobenius"); for (long j = 0; j < h[i]; ++j, ++col) { std::vector<ZZ> want(b, ZZ(0)); for (auto& e : C[col]) want[e.first] = ZZ(e.second); for (long k = 0; k < b; ++k) check_eqmod(F[k][col], want[k], q, "Frobenius modulo the precision asked for"); } } }
  std::vector<ZZ> P(1, ZZ(1)); auto times = [&](std::vector<long> q) { std::vector<ZZ> S(P.size() + q.size() - 1, ZZ(0)); for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < q.size(); ++j) S[i + j] += P[i] * q[j]; P = S; };
  for (long j = 0; j < h[0]; ++j) times({n == 2 ? p : -p * p, 0, 1}); if (n == 3) for (long j = 0; j < h[1]; ++j) times({-p, 1});
  for (long i = 0; i <= b; ++i) { if (lift) check_eq(coeff(z, i), P[i], "characteristic polynomial"); else check_eqmod(coeff(z, i), P[i], power_ZZ(p, abs_), "characteristic polynomial modulo the precision asked for"); } check(deg(z) <= b, "degree");
  reach(lift ? "exact" : "residue"); (void)w;
}
