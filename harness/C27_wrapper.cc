// C27: the entry point zeta_function
#include <sstream>
#include "vhd.h"
#include "wrapper.h"
#include "dr.h"
#include "dr_nd.h"
#include "hypersurface_nd.h"
using namespace vh;
typedef std::map<Vec<int64_t>, ZZ, vi64less> F_;
typedef std::vector<std::pair<E, long> > T_;
static long ev(const T_& t, const E& x, long p) { long r = 0; for (auto& m : t) { long v = ((m.second % p) + p) % p; for (size_t i = 0; i < x.size(); ++i) for (long k = 0; k < m.first[i]; ++k) v = v * x[i] % p; r += v; } return r % p; }
// points of the plane curve over F_p
static long points(const T_& t, long p) { long c = 0; for (long a = 0; a < p; ++a) for (long b = 0; b < p; ++b) c += ev(t, {1, a, b}, p) == 0; for (long b = 0; b < p; ++b) c += ev(t, {0, 1, b}, p) == 0; return c + (ev(t, {0, 0, 1}, p) == 0); }
static void cubic(const ZZX& z, const T_& t, long p, const string& m) { long a = p + 1 - points(t, p); check_eq(deg(z), 2L, m + ": degree"); check_eq(coeff(z, 2), ZZ(1), m + ": leading coefficient"); check_eq(coeff(z, 1), ZZ(-a), m + ": trace from the number of points"); check_eq(coeff(z, 0), ZZ(p), m + ": constant coefficient"); }
// coefficient of z^3 (of the last term): residue + p^s g (or p g for one of a few g) + p^40 h, the other coefficients up to a multiple of p^40
static F_ input(const T_& t, long p, long prec, long g = -1) { F_ f; long k = 0; for (auto& m : t) { ZZ c(m.second); if (m.first == t[2].first && prec > 1) { long s = tier && prec < 4 ? 1 : (prec + 1) / 2; c += g >= 0 ? ZZ(p) * g : power_ZZ(p, s) * in_ZZ("g", ZZ(0), power_ZZ(p, prec - s) - 1); } c += power_ZZ(p, 40) * in_ZZ(nm("h", k), -power2_ZZ(70), power2_ZZ(70)); ++k; f[toV(m.first)] = c; } return f; }
static void call(ZZX& z, Mat<ZZ>& F, const F_& f, long p, long format, int abs_, bool inc, bool better) {
  if (format == 0) { zeta_function(z, F, f, p, false, 1, abs_, inc, better); return; }
  std::vector<std::vector<int64_t> > mon; std::vector<ZZ> co; for (auto it = f.begin(); it != f.end(); ++it) { std::vector<int64_t> v; for (long i = 0; i < it->first.length(); ++i) v.push_back(it->first[i]); mon.insert(mon.size() % 2 ? mon.begin() : mon.end(), v); co.insert(co.size() % 2 ? co.begin() : co.end(), it->second); }
  if (format == 1) { zeta_function(z, F, mon, co, p, false, 1, abs_, inc, better); return; }
  std::stringstream s; s << p << "\n["; for (auto& v : mon) { s << "["; for (size_t i = 0; i < v.size(); ++i) s << (i ? " " : "") << v[i]; s << "] "; } s << "]\n["; for (auto& c : co) s << c << " "; s << "]"; string x = s.str();
  zeta_function(z, F, x.c_str(), false, 1, abs_, inc, better); }
static Mat<ZZ> reference(const F_& f, long p, long prec, const Vec<int64_t>& N, bool nd) {
  zz_pPush a(p); ZZ_pPush b(power_ZZ(p, prec)); RPol g; for (auto it = f.begin(); it != f.end(); ++it) conv(g[it->first], it->second);
  if (nd) { hypersurface_non_degenerate X(p, prec, g, false); return conv<Mat<ZZ> >(X.frob_matrix_ND(N)); } hypersurface X(p, prec, g, false); return conv<Mat<ZZ> >(X.frob_matrix_J(N)); }
void harness() { wide();
  static const T_ ND7 = {{{3, 0, 0}, 1}, {{0, 3, 0}, 1}, {{0, 0, 3}, -1}, {{1, 1, 1}, 2}, {{0, 2, 1}, 1}}, DEG = {{{2, 1, 0}, 1}, {{0, 2, 1}, 1}, {{1, 0, 2}, 1}}, ND5 = {{{3, 0, 0}, 1}, {{0, 3, 0}, 2}, {{0, 0, 3}, 3}, {{1, 1, 1}, 1}, {{2, 1, 0}, 1}};
  static const long ps[] = {7, 17, 5, 11}; long kind = choose("kind", 0, 3), p = ps[choose("p", 0, tier || kind == 3 ? 3 : 1)], format = 0;
  ZZX z; Mat<ZZ> F; Vec<int64_t> N, cp; int64_t prec;
  if (kind == 0) { // formats
    format = choose("format", 0, 2); bool better = choose("better", 0, 1); if (!tier && p == 7 && (format || better)) finish(); const T_& t = p == 5 ? ND5 : ND7; default_args(prec, N, cp, p, 2, 3); F_ f = input(t, p, prec); call(z, F, f, p, format, 0, true, better); cubic(z, t, p, "zeta function"); check_eq(F, reference(f, p, prec, N, true), "Frobenius matrix"); reach("formats");
  } else if (kind == 1) { // degenerate but smooth
    default_args(prec, N, cp, p, 2, 3); F_ f = input(DEG, p, prec); long way = choose("way", 0, 3); if (!tier && p == 7 && way != 0) finish(); if (way) { static const std::vector<long> M[] = {{1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 2, 0, 1, 3, 1, 0, 1, 1}, {1, 2, 3, 0, 1, 4, 0, 0, 2, 2}, {1, 1, 0, 0, 0, 0, 1, 1, 1, 3, 1, 1, 1, 2, 4, 1, 3, 2, 0}}; preset(M[way - 1]); }
    call(z, F, f, p, 0, 0, true, way > 0); cubic(z, DEG, p, "zeta function of a degenerate curve"); if (!way) { check_eq(F, reference(f, p, prec, N, false), "Frobenius matrix, Jacobian model"); reach("Jacobian model"); } else reach("changed model");
  } else if (kind == 2) { // asked precision
    long abs_ = choose("abs", 1, 3); bool inc = choose("increase", 0, 1); if (p == 5) finish(); bool nd = choose("nd", 0, 1); if (!tier && (p == 17 ? abs_ != 2 + nd || inc != nd : abs_ == 3 && nd)) finish(); const T_& t = nd ? ND7 : DEG; F_ f = input(t, p, 2 * abs_, choose("g", 0, tier ? 2 : 1)); call(z, F, f, p, 0, abs_, inc, false);
    N.SetLength(2); N[0] = N[1] = abs_ + 1; Mat<ZZ> R = reference(f, p, 2 * abs_, N, nd); ZZ q = power_ZZ(p, abs_); check(F.NumRows() == 2 && F.NumCols() == 2, "shape"); for (long i = 0; i < 2; ++i) for (long j = 0; j < 2; ++j) check_eqmod(F[i][j], R[i][j], q, "Frobenius matrix to the precision asked for");
    if (inc) cubic(z, t, p, "zeta function"); else { long a = p + 1 - points(t, p); check_eqmod(coeff(z, 2), ZZ(1), q, "leading coefficient"); check_eqmod(coeff(z, 1), ZZ(-a), q, "trace to the precision asked for"); check_eqmod(coeff(z, 0), ZZ(p), q, "constant coefficient to the precision asked for"); } reach(inc ? "increased" : "asked");
  } else { // singular
    bv(); if (p > 7) finish(); zz_p::init(p); zz_p a = in_zz_p("a"), b = in_zz_p("b"), c = in_zz_p("c"), m = in_zz_p("m"); F_ f; long shape = choose("shape", 0, 1);
    if (shape == 0) { f[toV({3, 0, 0})] = conv<ZZ>(a); f[toV({0, 3, 0})] = conv<ZZ>(b); f[toV({0, 0, 3})] = conv<ZZ>(c); f[toV({1, 1, 1})] = conv<ZZ>(m); assume(beq(a * b * c, zz_p(0)) || beq(m * m * m + 27 * a * b * c, zz_p(0))); }
    else { f[toV({0, 2, 1})] = ZZ(-1); f[toV({3, 0, 0})] = ZZ(1); f[toV({2, 0, 1})] = conv<ZZ>(a); f[toV({1, 0, 2})] = conv<ZZ>(b); f[toV({0, 0, 3})] = conv<ZZ>(c); assume(beq(a * a * b * b - 4 * b * b * b - 4 * a * a * a * c - 27 * c * c + 18 * a * b * c, zz_p(0))); }
    reach("singular"); must_abort("singular curve", [&] { zeta_function(z, F, f, p, false, 1); });
  }
}
