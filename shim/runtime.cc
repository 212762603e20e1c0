// Out-of-line parts of the shim.
#include "symntl.h"
#include "symflint.h"
namespace sym { bool wide_sizes = false; }
using namespace sym;
namespace NTL {
ModState g_ZZ_p = {{0}, false}, g_zz_p = {{0}, false};
long NumBits(const ZZ& a) { return symf::nbits(a.v); }
long NumBytes(const ZZ& a) { return symf::nbytes(a.v); }
// errors raised by the library: the real one prints and aborts
void TerminalError(const char* s) { sym::fail(std::string("NTL error: ") + s); sym::end_path(); }
Val sym_inv(Val x, Val m) {
  x = v_redc(x, m);
  if (v_isconst(x)) { bool ok; Val r = v_invmod(x, m, ok); if (!ok) { fail("inverse of a non-unit"); end_path(); } return r; }
  bool small = v_fits_long(m) && v_getlong(m) <= 7 && v_probprime(m);
  if (small) {
    if (decide(sb_eqmod(x, v_long(0), m))) { fail("inverse of a non-unit"); end_path(); }
    Val r = v_long(1); for (long i = 0; i < v_getlong(m) - 2; ++i) r = v_redc(v_mul(r, x), m); return r;
  }
  // unit with a constant residue modulo the prime radical: x = c + p*y, expand the inverse exactly
  static std::map<std::string, Val> memo; std::string key = std::to_string(handle_of(x)) + "|" + v_decstr(m);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  for (long p = 2; p < 1000; ++p) if (v_probprime(v_long(p)) && v_isconst(v_redc(m, v_long(p))) && v_getlong(v_redc(m, v_long(p))) == 0) {
    Val q = m; long e = 0; while (v_getlong(v_mod(q, v_long(p))) == 0 && !(v_fits_long(q) && v_getlong(q) == 1)) { q = v_fdiv(q, v_long(p)); ++e; }
    if (!(v_fits_long(q) && v_getlong(q) == 1)) break;     // not a prime power
    Val c = v_redc(x, v_long(p));
    if (!v_isconst(c)) break;
    if (v_getlong(c) == 0) { fail("inverse of a non-unit"); end_path(); }
    bool ok; Val y = v_invmod(c, v_long(p), ok);
    for (long k = 1; k < e; k *= 2) y = v_redc(v_mul(y, v_sub(v_long(2), v_redc(v_mul(x, y), m))), m);   // Newton
    memo[key] = y; return y;
  }
  Val y = v_fresh("inv", v_long(0), v_sub(m, v_long(1)));
  // y is the inverse whenever one exists; otherwise the library stops with an error
  bool prime = v_probprime(m);
  if (prime) { if (decide(sb_eqmod(x, v_long(0), m))) { fail("inverse of a non-unit"); end_path(); } }
  assume(sb_eqmod(v_mul(x, y), v_long(1), m));
  if (!prime) note_incomplete("symbolic inverse modulo a composite: only units explored");
  memo[key] = y; return y;
}
ZZ PowerMod(const ZZ& a, const ZA& e_, const ZZ& n) {
  Val e = v_isconst(e_.v) ? e_.v : v_concretize_val(e_.v); Val b = v_redc(a.v, n.v);
  if (v_isconst(e) && !v_fits_long(e)) { // big exponent: square and multiply on the binary expansion
    Val r = v_long(1); Val x = e; while (!(v_fits_long(x) && v_getlong(x) == 0)) { if (v_getlong(v_mod(x, v_long(2)))) r = v_redc(v_mul(r, b), n.v); x = v_fdiv(x, v_long(2)); b = v_redc(v_mul(b, b), n.v); } return mkZ(v_mod(r, n.v)); }
  long k = v_getlong(e); if (k < 0) { b = sym_inv(b, n.v); k = -k; }
  Val r = v_long(1); while (k) { if (k & 1) r = v_redc(v_mul(r, b), n.v); k >>= 1; if (k) b = v_redc(v_mul(b, b), n.v); }
  return mkZ(v_mod(r, n.v));
}
long GCD(long a, long b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { long t = a % b; a = b; b = t; } return a; }
long power_long(long a, long e) { if (e < 0) return 0; unsigned long r = 1, b = a; while (e) { if (e & 1) r *= b; e >>= 1; b *= b; } return (long)r; }
long MulMod(long a, long b, long n) { __int128 r = (__int128)a * b % n; return (long)(r < 0 ? r + n : r); }
long AddMod(long a, long b, long n) { __int128 r = ((__int128)a + b) % n; return (long)r; }
long SubMod(long a, long b, long n) { __int128 r = ((__int128)a - b) % n; return (long)(r < 0 ? r + n : r); }
long NegateMod(long a, long n) { return a ? n - a : 0; }
long PowerMod(long a, long e, long n) { return v_getlong(PowerMod(ZZ(a), ZA(ZZ(e)), ZZ(n)).v); }
long InvMod(long a, long n) { return v_getlong(sym_inv(v_long(a), v_long(n))); }
long SqrRoot(long a) { return v_getlong(v_sqrtfloor(v_long(a))); }
long ProbPrime(long n, long) { return v_probprime(v_long(n)); }
long NextPrime(long m, long) { if (m < 2) return 2; while (!v_probprime(v_long(m))) ++m; return m; }
ZZ NextPrime(const ZZ& m, long) { ZZ r = m; if (r < 2) return ZZ(2); while (!v_probprime(r.v)) r += 1; return r; }
void XGCD(ZZ& d, ZZ& s, ZZ& t, const ZZ& a_, const ZZ& b_) {
  ZZ a = mkZ(v_concretize_val(a_.v)), b = mkZ(v_concretize_val(b_.v)), s0(1), s1(0), t0(0), t1(1);
  while (b != 0) { ZZ q = a / b, r = a - q * b; a = b; b = r; ZZ x = s0 - q * s1; s0 = s1; s1 = x; x = t0 - q * t1; t0 = t1; t1 = x; }
  if (a < 0) { a = -a; s0 = -s0; t0 = -t0; }
  d = a; s = s0; t = t0;
}
}
extern "C" __attribute__((weak)) void nmod_mat_sub(nmod_mat_struct* C, const nmod_mat_struct* A, const nmod_mat_struct* B) { for (long i = 0; i < C->r; ++i) _nmod_vec_sub(C->rows[i], A->rows[i], B->rows[i], C->c, C->mod); }

static std::vector<std::pair<std::vector<Val>, long> > g_fac; static Val g_content; static bool g_fac_set = false;
void symf_set_factors(const std::vector<std::pair<std::vector<Val>, long> >& f, Val c) { g_fac = f; g_content = c; g_fac_set = true; }
void fmpz_poly_factor_init(fmpz_poly_factor_struct* f) { memset((void*)f, 0, sizeof *f); f->c.v = v_long(1); }
void fmpz_poly_factor_clear(fmpz_poly_factor_struct* f) { for (long i = 0; i < f->num; ++i) fmpz_poly_clear(f->p + i); free(f->p); free(f->exp); memset((void*)f, 0, sizeof *f); }
void fmpz_poly_factor(fmpz_poly_factor_struct* F, const fmpz_poly_struct* f) {
  if (!g_fac_set) { note_incomplete("factorisation over the integers of a polynomial whose factors are not given"); end_path(); }
  fmpz_poly_t t, u; fmpz_poly_init(t); fmpz_poly_init(u); fmpz_poly_set_coeff_si(t, 0, 1); t->coeffs[0].v = g_content;
  F->c.v = g_content; F->num = g_fac.size(); F->p = (fmpz_poly_struct*)calloc(F->num + 1, sizeof(fmpz_poly_struct)); F->exp = (long*)calloc(F->num + 1, sizeof(long));
  for (long i = 0; i < F->num; ++i) {
    for (size_t k = 0; k < g_fac[i].first.size(); ++k) { fmpz c; c.v = g_fac[i].first[k]; fmpz_poly_set_coeff_fmpz(F->p + i, k, &c); }
    F->exp[i] = g_fac[i].second; for (long e = 0; e < F->exp[i]; ++e) fmpz_poly_mul(t, t, F->p + i);
  }
  SB ok = sb_const(t->length == f->length); if (t->length == f->length) for (long i = 0; i < f->length; ++i) ok = sb_and(ok, sb_eq(t->coeffs[i].v, f->coeffs[i].v));
  check(ok, "the polynomial handed to the factorisation is not the one given");
  fmpz_poly_clear(t);
}
void fmpz_poly_cyclotomic(fmpz_poly_struct* f, unsigned long n) {
  static std::map<unsigned long, std::vector<long> > memo;
  std::function<std::vector<long>(unsigned long)> cyc = [&](unsigned long m) -> std::vector<long> {
    if (m == 0) return {1}; auto it = memo.find(m); if (it != memo.end()) return it->second;
    std::vector<long> a(m + 1, 0); a[m] = 1; a[0] = -1;
    for (unsigned long d = 1; d < m; ++d) if (m % d == 0) { std::vector<long> b = cyc(d), q(a.size() - b.size() + 1); for (long i = (long)q.size() - 1; i >= 0; --i) { q[i] = a[i + b.size() - 1]; for (size_t j = 0; j < b.size(); ++j) a[i + j] -= q[i] * b[j]; } a = q; }
    return memo[m] = a; };
  std::vector<long> c = cyc(n); f->length = 0; for (size_t i = 0; i < c.size(); ++i) fmpz_poly_set_coeff_si(f, i, c[i]);
}
namespace NTL {
long IsWhiteSpace(long a) { return a != EOF && isspace((int)a) ? 1 : 0; }
long SkipWhiteSpace(std::istream& s) { long c = s.peek(); while (IsWhiteSpace(c)) { s.get(); c = s.peek(); } return !IsEOFChar(c); }
long IsEOFChar(long c) { return c == EOF; }
}
namespace NTL { long CharToIntVal(long a) { return a >= 48 && a <= 57 ? a - 48 : a >= 65 && a <= 70 ? a - 55 : a >= 97 && a <= 102 ? a - 87 : -1; } }
