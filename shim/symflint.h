// Symbolic replacement for the parts of GMP and FLINT 3.0.1 that this code base
// uses (plus commonly used neighbours).  Every operation has the documented
// mathematical meaning of the library function it stands for.
#ifndef SYMFLINT_H
#define SYMFLINT_H
#include "symcore.h"
#include <cstdarg>
#define __FLINT_VERSION 3
#define __FLINT_VERSION_MINOR 0
#define __FLINT_VERSION_PATCHLEVEL 1
#define __FLINT_RELEASE 30001
#define FLINT_BITS 64
#define FLINT_ASSERT(x) do {} while (0)
#define GMP_LIMB_BITS 64
typedef SLimb mp_limb_t;
typedef SI64 mp_limb_signed_t;
#define ulong SLimb
#define slong long
typedef mp_limb_t* mp_ptr; typedef const mp_limb_t* mp_srcptr;
typedef long mp_size_t; typedef unsigned long mp_bitcnt_t; typedef unsigned long flint_bitcnt_t;
struct flint_rand_s { int x; }; typedef flint_rand_s flint_rand_t[1];
inline void flint_randinit(flint_rand_t) {} inline void flint_randclear(flint_rand_t) {}
inline void* flint_malloc(size_t n) { void* p = calloc(n ? n : 1, 1); return p; }
inline void* flint_calloc(size_t n, size_t m) { return calloc(n ? n : 1, m ? m : 1); }
inline void* flint_realloc(void* p, size_t n) { return realloc(p, n); }
inline void flint_free(void* p) { free(p); }
inline int flint_printf(const char*, ...) { return 0; }
inline void flint_cleanup() {} inline void flint_set_num_threads(int) {} inline int flint_get_num_threads() { return 1; }
inline void flint_abort() { sym::fail("flint_abort"); sym::end_path(); }
#define FLINT_MAX(a, b) ((a) > (b) ? (a) : (b))
#define FLINT_MIN(a, b) ((a) > (b) ? (b) : (a))
#define FLINT_ABS(a) ((a) > 0 ? (a) : -(a))

namespace symf { using sym::Val; using sym::IntArg;
inline Val L(long x) { return sym::v_long(x); }
inline bool zero(Val v) { return sym::decide(sym::sb_eq(v, L(0))); }
inline int sgn(Val v) { if (zero(v)) return 0; return sym::decide(sym::sb_lt(v, L(0))) ? -1 : 1; }
inline Val vabs(Val v) { return sym::decide(sym::sb_lt(v, L(0))) ? sym::v_neg(v) : v; }
inline int cmp(Val a, Val b) { if (sym::decide(sym::sb_eq(a, b))) return 0; return sym::decide(sym::sb_lt(a, b)) ? -1 : 1; }
inline long nbits(Val v) {   // exact bit length, forking by bisection
  if (sym::v_isconst(v)) return sym::v_numbits(v);
  Val m = vabs(v), L_, H_; long lo = 0, hi = 1;
  if (sym::v_interval(m, L_, H_)) hi = sym::v_numbits(H_); else while (!sym::decide(sym::sb_lt(m, sym::v_pow(L(2), hi)))) { lo = hi + 1; hi *= 2; }
  while (lo < hi) { long mid = (lo + hi) / 2; if (sym::decide(sym::sb_lt(m, sym::v_pow(L(2), mid)))) hi = mid; else lo = mid + 1; }
  return lo;
}
// number of base-256 digits, forking only on that
inline long nbytes(Val v) {
  if (sym::v_isconst(v)) return (sym::v_numbits(v) + 7) / 8;
  Val m = vabs(v), L_, H_; long lo = 0, hi = 1;
  if (sym::wide_sizes && sym::v_interval(m, L_, H_)) return (sym::v_numbits(H_) + 7) / 8;
  if (sym::v_interval(m, L_, H_)) hi = (sym::v_numbits(H_) + 7) / 8; else while (!sym::decide(sym::sb_lt(m, sym::v_pow(L(256), hi)))) { lo = hi + 1; hi *= 2; }
  while (lo < hi) { long mid = (lo + hi) / 2; if (sym::decide(sym::sb_lt(m, sym::v_pow(L(256), mid)))) hi = mid; else lo = mid + 1; }
  return lo;
}
inline Val tdiv(Val a, Val b) { int s = sgn(a) < 0, t = sgn(b) < 0; Val q = sym::v_fdiv(s ? sym::v_neg(a) : a, t ? sym::v_neg(b) : b); return s != t ? sym::v_neg(q) : q; }
inline void divz(Val b) { if (zero(b)) { sym::fail("division by zero"); sym::end_path(); } }
}
// ---------------------------------------------------------------- mpz
struct __mpz_struct { sym::Val v; };
typedef __mpz_struct mpz_t[1]; typedef __mpz_struct* mpz_ptr; typedef const __mpz_struct* mpz_srcptr;
inline void mpz_init(mpz_ptr a) { a->v.t = 0; } inline void mpz_init2(mpz_ptr a, unsigned long) { a->v.t = 0; } inline void mpz_clear(mpz_ptr a) { a->v.t = 0; }
inline void mpz_inits(mpz_ptr a, ...) { va_list ap; va_start(ap, a); while (a) { mpz_init(a); a = va_arg(ap, mpz_ptr); } va_end(ap); }
inline void mpz_clears(mpz_ptr a, ...) { va_list ap; va_start(ap, a); while (a) { mpz_clear(a); a = va_arg(ap, mpz_ptr); } va_end(ap); }
inline void mpz_set(mpz_ptr a, mpz_srcptr b) { a->v = b->v; } inline void mpz_set_ui(mpz_ptr a, sym::IntArg b) { a->v = b.v; } inline void mpz_set_si(mpz_ptr a, sym::IntArg b) { a->v = b.v; }
inline void mpz_init_set(mpz_ptr a, mpz_srcptr b) { a->v = b->v; } inline void mpz_init_set_ui(mpz_ptr a, sym::IntArg b) { a->v = b.v; } inline void mpz_init_set_si(mpz_ptr a, sym::IntArg b) { a->v = b.v; }
inline void mpz_swap(mpz_ptr a, mpz_ptr b) { std::swap(a->v, b->v); }
inline void mpz_add(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_add(a->v, b->v); } inline void mpz_add_ui(mpz_ptr r, mpz_srcptr a, sym::IntArg b) { r->v = sym::v_add(a->v, b.v); }
inline void mpz_sub(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_sub(a->v, b->v); } inline void mpz_sub_ui(mpz_ptr r, mpz_srcptr a, sym::IntArg b) { r->v = sym::v_sub(a->v, b.v); }
inline void mpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_mul(a->v, b->v); } inline void mpz_mul_ui(mpz_ptr r, mpz_srcptr a, sym::IntArg b) { r->v = sym::v_mul(a->v, b.v); } inline void mpz_mul_si(mpz_ptr r, mpz_srcptr a, sym::IntArg b) { r->v = sym::v_mul(a->v, b.v); }
inline void mpz_addmul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_add(r->v, sym::v_mul(a->v, b->v)); } inline void mpz_submul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_sub(r->v, sym::v_mul(a->v, b->v)); }
inline void mpz_neg(mpz_ptr r, mpz_srcptr a) { r->v = sym::v_neg(a->v); } inline void mpz_abs(mpz_ptr r, mpz_srcptr a) { r->v = symf::vabs(a->v); }
inline sym::Sgn mpz_sgn(mpz_srcptr a) { return sym::Sgn(a->v); } inline int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { return symf::cmp(a->v, b->v); } inline int mpz_cmp_ui(mpz_srcptr a, sym::IntArg b) { return symf::cmp(a->v, b.v); } inline int mpz_cmp_si(mpz_srcptr a, sym::IntArg b) { return symf::cmp(a->v, b.v); }
inline void mpz_mod(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { symf::divz(b->v); r->v = sym::v_mod(a->v, symf::vabs(b->v)); }
inline void mpz_fdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_fdiv(a->v, b->v); } inline void mpz_fdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_mod(a->v, b->v); }
inline void mpz_tdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { symf::divz(b->v); r->v = symf::tdiv(a->v, b->v); } inline void mpz_divexact(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_fdiv(a->v, b->v); }
inline void mpz_addmul_ui(mpz_ptr r, mpz_srcptr a, sym::IntArg b) { r->v = sym::v_add(r->v, sym::v_mul(a->v, b.v)); } inline void mpz_submul_ui(mpz_ptr r, mpz_srcptr a, sym::IntArg b) { r->v = sym::v_sub(r->v, sym::v_mul(a->v, b.v)); } inline void mpz_ui_sub(mpz_ptr r, sym::IntArg a, mpz_srcptr b) { r->v = sym::v_sub(a.v, b->v); }
inline SLimb mpz_fdiv_ui(mpz_srcptr a, sym::IntArg m) { return SLimb::raw(sym::v_mod(a->v, m.v)); } inline SLimb mpz_mod_ui(mpz_ptr r, mpz_srcptr a, sym::IntArg m) { r->v = sym::v_mod(a->v, m.v); return SLimb::raw(r->v); } inline SLimb mpz_fdiv_r_ui(mpz_ptr r, mpz_srcptr a, sym::IntArg m) { return mpz_mod_ui(r, a, m); }
inline void mpz_fdiv_qr(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { sym::Val x = sym::v_fdiv(a->v, b->v), y = sym::v_mod(a->v, b->v); q->v = x; r->v = y; } inline SLimb mpz_fdiv_q_ui(mpz_ptr q, mpz_srcptr a, sym::IntArg b) { sym::Val y = sym::v_mod(a->v, b.v); q->v = sym::v_fdiv(a->v, b.v); return SLimb::raw(y); } inline void mpz_divexact_ui(mpz_ptr q, mpz_srcptr a, sym::IntArg b) { q->v = sym::v_fdiv(a->v, b.v); }
inline void mpz_pow_ui(mpz_ptr r, mpz_srcptr a, unsigned long e) { r->v = sym::v_pow(a->v, e); } inline void mpz_ui_pow_ui(mpz_ptr r, unsigned long a, unsigned long e) { r->v = sym::v_pow(sym::v_ulong(a), e); }
inline void mpz_powm_ui(mpz_ptr r, mpz_srcptr a, unsigned long e, mpz_srcptr m) { sym::Val b = sym::v_mod(a->v, m->v), x = sym::v_mod(symf::L(1), m->v); while (e) { if (e & 1) x = sym::v_mod(sym::v_mul(x, b), m->v); e >>= 1; if (e) b = sym::v_mod(sym::v_mul(b, b), m->v); } r->v = x; }
inline int mpz_invert(mpz_ptr r, mpz_srcptr a, mpz_srcptr m) { sym::Val x = sym::v_concretize_val(a->v), y = sym::v_concretize_val(m->v); bool ok; sym::Val z = sym::v_invmod(x, y, ok); if (ok) r->v = z; return ok; }
inline void mpz_fac_ui(mpz_ptr r, unsigned long n) { sym::Val x = symf::L(1); for (unsigned long i = 2; i <= n; ++i) x = sym::v_mul(x, sym::v_ulong(i)); r->v = x; }
inline void mpz_bin_uiui(mpz_ptr r, unsigned long n, unsigned long k) { sym::Val x = symf::L(1); if (k > n) x = symf::L(0); else for (unsigned long i = 1; i <= k; ++i) x = sym::v_fdiv(sym::v_mul(x, sym::v_ulong(n - k + i)), sym::v_ulong(i)); r->v = x; }
inline int mpz_divisible_p(mpz_srcptr a, mpz_srcptr b) { return symf::zero(b->v) ? symf::zero(a->v) : symf::zero(sym::v_mod(a->v, b->v)); } inline int mpz_divisible_ui_p(mpz_srcptr a, sym::IntArg b) { return symf::zero(sym::v_mod(a->v, b.v)); } inline int mpz_odd_p(mpz_srcptr a) { return !symf::zero(sym::v_mod(a->v, symf::L(2))); } inline int mpz_even_p(mpz_srcptr a) { return symf::zero(sym::v_mod(a->v, symf::L(2))); }
inline void mpz_mul_2exp(mpz_ptr r, mpz_srcptr a, unsigned long e) { r->v = sym::v_mul(a->v, sym::v_pow(symf::L(2), e)); } inline void mpz_fdiv_q_2exp(mpz_ptr r, mpz_srcptr a, unsigned long e) { r->v = sym::v_fdiv(a->v, sym::v_pow(symf::L(2), e)); } inline void mpz_fdiv_r_2exp(mpz_ptr r, mpz_srcptr a, unsigned long e) { r->v = sym::v_mod(a->v, sym::v_pow(symf::L(2), e)); } inline void mpz_tdiv_q_2exp(mpz_ptr r, mpz_srcptr a, unsigned long e) { r->v = symf::tdiv(a->v, sym::v_pow(symf::L(2), e)); }
inline void mpz_gcd(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sym::v_gcd(a->v, b->v); }
inline unsigned long mpz_remove(mpz_ptr r, mpz_srcptr a, mpz_srcptr f) { sym::Val x = a->v; unsigned long k = 0; if (!symf::zero(x)) while (symf::zero(sym::v_mod(x, f->v))) { x = sym::v_fdiv(x, f->v); ++k; } r->v = x; return k; }
inline size_t mpz_sizeinbase(mpz_srcptr a, int base) {
  if (base != 2) { sym::Val m = symf::vabs(a->v), t = symf::L(base); size_t k = 1; while (!sym::decide(sym::sb_lt(m, t))) { t = sym::v_mul(t, symf::L(base)); ++k; } return k; }
  if (sym::v_isconst(a->v)) { long b = sym::v_numbits(a->v); return b ? b : 1; }
  if (sym::wide_sizes) { sym::Val L_, H_; if (sym::v_interval(a->v, L_, H_) && sym::v_numbits(H_) > 0 && !sym::decide(sym::sb_lt(a->v, symf::L(0)))) return sym::v_numbits(H_); }
  long b = symf::nbits(a->v); return b ? b : 1;
}
inline unsigned long mpz_get_ui(mpz_srcptr a) { return sym::v_getulong(sym::v_concretize_val(symf::vabs(a->v))); } inline long mpz_get_si(mpz_srcptr a) { return (long)sym::v_getulong(sym::v_concretize_val(a->v)); }
inline size_t mpz_size(mpz_srcptr a) { return (symf::nbits(a->v) + 63) / 64; }
inline void mpz_import(mpz_ptr r, size_t count, int order, size_t size, int endian, size_t nails, const void* p) {
  if (nails || (endian == 1 && size > 1)) { sym::note_incomplete("mpz_import: unsupported layout"); sym::end_path(); }
  if (order == -1) { r->v = sym::bytes_load(p, count * size, false); return; }
  if (size == 1) { r->v = sym::bytes_load(p, count, true); return; }
  sym::Val x = symf::L(0), B = sym::v_pow(symf::L(256), size);
  for (size_t i = 0; i < count; ++i) x = sym::v_add(sym::v_mul(x, B), sym::bytes_load((const char*)p + i * size, size, false));
  r->v = x;
}
inline void* mpz_export(void* p, size_t* countp, int order, size_t size, int endian, size_t nails, mpz_srcptr a) {
  if (nails || (endian == 1 && size > 1)) { sym::note_incomplete("mpz_export: unsupported layout"); sym::end_path(); }
  long nb = symf::nbytes(a->v); size_t cnt = (nb + size - 1) / size; if (countp) *countp = cnt;
  sym::Val m = symf::vabs(a->v); if (!p) p = malloc(cnt * size + 1);
  if (order == -1) { sym::bytes_store(p, cnt * size, m); return p; }
  sym::Val B = sym::v_pow(symf::L(256), size);
  for (size_t i = 0; i < cnt; ++i) { sym::bytes_store((char*)p + (cnt - 1 - i) * size, size, sym::v_mod(m, B)); m = sym::v_fdiv(m, B); }
  return p;
}
// ---------------------------------------------------------------- fmpz
struct fmpz { sym::Val v; };
typedef fmpz fmpz_t[1];
inline void fmpz_init(fmpz* a) { a->v.t = 0; } inline void fmpz_init2(fmpz* a, sym::IntArg) { a->v.t = 0; } inline void fmpz_clear(fmpz* a) { a->v.t = 0; }
inline void fmpz_set(fmpz* a, const fmpz* b) { a->v = b->v; } inline void fmpz_init_set(fmpz* a, const fmpz* b) { a->v = b->v; }
inline void fmpz_set_ui(fmpz* a, sym::IntArg b) { a->v = b.v; } inline void fmpz_set_si(fmpz* a, sym::IntArg b) { a->v = b.v; } inline void fmpz_init_set_ui(fmpz* a, sym::IntArg b) { a->v = b.v; } inline void fmpz_init_set_si(fmpz* a, sym::IntArg b) { a->v = b.v; }
inline void fmpz_zero(fmpz* a) { a->v = symf::L(0); } inline void fmpz_one(fmpz* a) { a->v = symf::L(1); } inline void fmpz_swap(fmpz* a, fmpz* b) { std::swap(a->v, b->v); }
inline SLimb fmpz_get_ui(const fmpz* a) { return SLimb::raw(symf::vabs(a->v)); } inline SI64 fmpz_get_si(const fmpz* a) { return SI64::raw(sym::low64s(a->v)); }
inline void fmpz_add(fmpz* r, const fmpz* a, const fmpz* b) { r->v = sym::v_add(a->v, b->v); } inline void fmpz_add_ui(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_add(a->v, b.v); } inline void fmpz_add_si(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_add(a->v, b.v); }
inline void fmpz_sub(fmpz* r, const fmpz* a, const fmpz* b) { r->v = sym::v_sub(a->v, b->v); } inline void fmpz_sub_ui(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_sub(a->v, b.v); } inline void fmpz_sub_si(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_sub(a->v, b.v); }
inline void fmpz_mul(fmpz* r, const fmpz* a, const fmpz* b) { r->v = sym::v_mul(a->v, b->v); } inline void fmpz_mul_ui(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_mul(a->v, b.v); } inline void fmpz_mul_si(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_mul(a->v, b.v); }
inline void fmpz_addmul(fmpz* r, const fmpz* a, const fmpz* b) { r->v = sym::v_add(r->v, sym::v_mul(a->v, b->v)); } inline void fmpz_addmul_ui(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_add(r->v, sym::v_mul(a->v, b.v)); } inline void fmpz_addmul_si(fmpz* r, const fmpz* a, sym::IntArg b) { fmpz_addmul_ui(r, a, b); }
inline void fmpz_submul(fmpz* r, const fmpz* a, const fmpz* b) { r->v = sym::v_sub(r->v, sym::v_mul(a->v, b->v)); } inline void fmpz_submul_ui(fmpz* r, const fmpz* a, sym::IntArg b) { r->v = sym::v_sub(r->v, sym::v_mul(a->v, b.v)); }
inline void fmpz_neg(fmpz* r, const fmpz* a) { r->v = sym::v_neg(a->v); } inline void fmpz_abs(fmpz* r, const fmpz* a) { r->v = symf::vabs(a->v); }
inline int fmpz_is_zero(const fmpz* a) { return symf::zero(a->v); } inline int fmpz_is_one(const fmpz* a) { return sym::decide(sym::sb_eq(a->v, symf::L(1))); } inline sym::Sgn fmpz_sgn(const fmpz* a) { return sym::Sgn(a->v); }
inline int fmpz_cmp(const fmpz* a, const fmpz* b) { return symf::cmp(a->v, b->v); } inline int fmpz_cmp_ui(const fmpz* a, sym::IntArg b) { return symf::cmp(a->v, b.v); } inline int fmpz_cmp_si(const fmpz* a, sym::IntArg b) { return symf::cmp(a->v, b.v); }
inline int fmpz_equal(const fmpz* a, const fmpz* b) { return sym::decide(sym::sb_eq(a->v, b->v)); } inline int fmpz_equal_ui(const fmpz* a, sym::IntArg b) { return sym::decide(sym::sb_eq(a->v, b.v)); } inline int fmpz_equal_si(const fmpz* a, sym::IntArg b) { return fmpz_equal_ui(a, b); }
inline void fmpz_mod(fmpz* r, const fmpz* a, const fmpz* m) { symf::divz(m->v); r->v = sym::v_mod(a->v, symf::vabs(m->v)); }
inline SLimb fmpz_mod_ui(fmpz* r, const fmpz* a, sym::IntArg m) { r->v = sym::v_mod(a->v, m.v); return SLimb::raw(r->v); } inline SLimb fmpz_fdiv_ui(const fmpz* a, sym::IntArg m) { return SLimb::raw(sym::v_mod(a->v, m.v)); }
inline void fmpz_fdiv_qr(fmpz* q, fmpz* r, const fmpz* a, const fmpz* b) { sym::Val x = sym::v_fdiv(a->v, b->v), y = sym::v_mod(a->v, b->v); q->v = x; r->v = y; } inline void fmpz_fdiv_q(fmpz* q, const fmpz* a, const fmpz* b) { q->v = sym::v_fdiv(a->v, b->v); } inline void fmpz_fdiv_r(fmpz* q, const fmpz* a, const fmpz* b) { q->v = sym::v_mod(a->v, b->v); }
inline void fmpz_divexact_si(fmpz* q, const fmpz* a, sym::IntArg b) { q->v = sym::v_fdiv(a->v, b.v); } inline void fmpz_fdiv_q_2exp(fmpz* q, const fmpz* a, long e) { q->v = sym::v_fdiv(a->v, sym::v_pow(sym::v_long(2), e)); } inline void fmpz_tdiv_q_2exp(fmpz* q, const fmpz* a, long e) { q->v = symf::tdiv(a->v, sym::v_pow(sym::v_long(2), e)); }
inline void fmpz_fdiv_q_ui(fmpz* q, const fmpz* a, sym::IntArg b) { q->v = sym::v_fdiv(a->v, b.v); } inline void fmpz_divexact(fmpz* q, const fmpz* a, const fmpz* b) { q->v = sym::v_fdiv(a->v, b->v); } inline void fmpz_divexact_ui(fmpz* q, const fmpz* a, sym::IntArg b) { q->v = sym::v_fdiv(a->v, b.v); }
inline void fmpz_tdiv_q(fmpz* q, const fmpz* a, const fmpz* b) { symf::divz(b->v); q->v = symf::tdiv(a->v, b->v); } inline int fmpz_divisible(const fmpz* a, const fmpz* b) { return symf::zero(sym::v_mod(a->v, b->v)); } inline int fmpz_divisible_ui(const fmpz* a, sym::IntArg b) { return symf::zero(sym::v_mod(a->v, b.v)); }
inline void fmpz_pow_ui(fmpz* r, const fmpz* a, unsigned long e) { r->v = sym::v_pow(a->v, e); } inline void fmpz_ui_pow_ui(fmpz* r, unsigned long a, unsigned long e) { r->v = sym::v_pow(sym::v_ulong(a), e); } inline void fmpz_mul_2exp(fmpz* r, const fmpz* a, unsigned long e) { r->v = sym::v_mul(a->v, sym::v_pow(symf::L(2), e)); }
inline size_t fmpz_size(const fmpz* a) { if (sym::v_isconst(a->v)) return (sym::v_numbits(a->v) + 63) / 64; sym::Val m = symf::vabs(a->v), t = symf::L(1), B = sym::v_pow(symf::L(2), 64); for (size_t k = 0;; ++k) { if (sym::decide(sym::sb_lt(m, t))) return k; t = sym::v_mul(t, B); } }
inline unsigned long fmpz_bits(const fmpz* a) { return symf::nbits(a->v); } inline int fmpz_abs_fits_ui(const fmpz* a) { return fmpz_size(a) <= 1; }
inline void fmpz_set_mpz(fmpz* a, const mpz_t b) { a->v = b->v; } inline void fmpz_get_mpz(mpz_t a, const fmpz* b) { a->v = b->v; } inline void fmpz_init_set_readonly(fmpz* a, const mpz_t b) { a->v = b->v; } inline void fmpz_clear_readonly(fmpz* a) { a->v.t = 0; }
inline int fmpz_print(const fmpz*) { return 1; }
inline int fmpz_invmod(fmpz* r, const fmpz* a, const fmpz* m) { sym::Val x = sym::v_concretize_val(a->v), y = sym::v_concretize_val(m->v); bool ok; sym::Val z = sym::v_invmod(x, y, ok); if (ok) r->v = z; return ok; }
inline void fmpz_tdiv_qr(fmpz* q, fmpz* r, const fmpz* a, const fmpz* b) { symf::divz(b->v); sym::Val x = symf::tdiv(a->v, b->v), y = sym::v_sub(a->v, sym::v_mul(x, b->v)); q->v = x; r->v = y; } inline void fmpz_powm_ui(fmpz* r, const fmpz* a, unsigned long e, const fmpz* m) { sym::Val b = sym::v_mod(a->v, m->v), x = sym::v_mod(symf::L(1), m->v), n = m->v; while (e) { if (e & 1) x = sym::v_mod(sym::v_mul(x, b), n); e >>= 1; if (e) b = sym::v_mod(sym::v_mul(b, b), n); } r->v = x; }
inline int fmpz_divides(fmpz* q, const fmpz* a, const fmpz* b) { if (symf::zero(b->v) ? !symf::zero(a->v) : !symf::zero(sym::v_mod(a->v, b->v))) { q->v = symf::L(0); return 0; } q->v = symf::zero(b->v) ? symf::L(0) : sym::v_fdiv(a->v, b->v); return 1; } inline int fmpz_divisible_si(const fmpz* a, sym::IntArg b) { return symf::zero(sym::v_mod(a->v, b.v)); }
inline void fmpz_fac_ui(fmpz* r, unsigned long n) { sym::Val x = symf::L(1); for (unsigned long i = 2; i <= n; ++i) x = sym::v_mul(x, sym::v_ulong(i)); r->v = x; } inline void fmpz_bin_uiui(fmpz* r, unsigned long n, unsigned long k) { sym::Val x = symf::L(1); if (k > n) x = symf::L(0); else for (unsigned long i = 1; i <= k; ++i) x = sym::v_fdiv(sym::v_mul(x, sym::v_ulong(n - k + i)), sym::v_ulong(i)); r->v = x; }
inline long fmpz_remove(fmpz* r, const fmpz* a, const fmpz* f) { sym::Val x = a->v, g = f->v; long k = 0; if (!symf::zero(x)) while (symf::zero(sym::v_mod(x, g))) { x = sym::v_fdiv(x, g); ++k; } r->v = x; return k; } inline int fmpz_is_even(const fmpz* a) { return symf::zero(sym::v_mod(a->v, symf::L(2))); } inline int fmpz_is_odd(const fmpz* a) { return !fmpz_is_even(a); } inline void fmpz_fdiv_r_2exp(fmpz* r, const fmpz* a, unsigned long e) { r->v = sym::v_mod(a->v, sym::v_pow(symf::L(2), e)); }
inline void fmpz_gcd(fmpz* r, const fmpz* a, const fmpz* b) { r->v = sym::v_gcd(a->v, b->v); }
#define COEFF_IS_MPZ(x) (fmpz_size(&(x)) > 1)
inline fmpz* _fmpz_vec_init(long n) { return (fmpz*)calloc(n ? n : 1, sizeof(fmpz)); } inline void _fmpz_vec_clear(fmpz* p, long) { free(p); }
inline void _fmpz_vec_set(fmpz* r, const fmpz* a, long n) { for (long i = 0; i < n; ++i) r[i] = a[i]; } inline void _fmpz_vec_zero(fmpz* r, long n) { for (long i = 0; i < n; ++i) r[i].v.t = 0; } inline void _fmpz_vec_swap(fmpz* r, fmpz* a, long n) { for (long i = 0; i < n; ++i) std::swap(r[i], a[i]); }
inline void _fmpz_vec_sum(fmpz* r, const fmpz* a, long n) { sym::Val t = sym::v_long(0); for (long i = 0; i < n; ++i) t = sym::v_add(t, a[i].v); r->v = t; } inline void _fmpz_vec_scalar_divexact_fmpz(fmpz* r, const fmpz* a, long n, const fmpz* c) { sym::Val d = c->v; for (long i = 0; i < n; ++i) r[i].v = sym::v_fdiv(a[i].v, d); }
inline void _fmpz_vec_add(fmpz* r, const fmpz* a, const fmpz* b, long n) { for (long i = 0; i < n; ++i) fmpz_add(r + i, a + i, b + i); } inline void _fmpz_vec_sub(fmpz* r, const fmpz* a, const fmpz* b, long n) { for (long i = 0; i < n; ++i) fmpz_sub(r + i, a + i, b + i); }
inline void _fmpz_vec_neg(fmpz* r, const fmpz* a, long n) { for (long i = 0; i < n; ++i) fmpz_neg(r + i, a + i); }
inline void _fmpz_vec_scalar_mul_fmpz(fmpz* r, const fmpz* a, long n, const fmpz* c_) { fmpz c = *c_; for (long i = 0; i < n; ++i) fmpz_mul(r + i, a + i, &c); } inline void _fmpz_vec_scalar_mul_ui(fmpz* r, const fmpz* a, long n, sym::IntArg c) { for (long i = 0; i < n; ++i) fmpz_mul_ui(r + i, a + i, c); } inline void _fmpz_vec_scalar_mul_si(fmpz* r, const fmpz* a, long n, sym::IntArg c) { _fmpz_vec_scalar_mul_ui(r, a, n, c); }
inline void _fmpz_vec_scalar_addmul_fmpz(fmpz* r, const fmpz* a, long n, const fmpz* c_) { fmpz c = *c_; for (long i = 0; i < n; ++i) fmpz_addmul(r + i, a + i, &c); } inline void _fmpz_vec_scalar_submul_fmpz(fmpz* r, const fmpz* a, long n, const fmpz* c_) { fmpz c = *c_; for (long i = 0; i < n; ++i) fmpz_submul(r + i, a + i, &c); } inline void _fmpz_vec_scalar_addmul_si(fmpz* r, const fmpz* a, long n, sym::IntArg c) { for (long i = 0; i < n; ++i) fmpz_addmul_ui(r + i, a + i, c); } inline void _fmpz_vec_scalar_addmul_ui(fmpz* r, const fmpz* a, long n, sym::IntArg c) { for (long i = 0; i < n; ++i) fmpz_addmul_ui(r + i, a + i, c); }
inline void _fmpz_vec_scalar_mod_fmpz(fmpz* r, const fmpz* a, long n, const fmpz* m_) { fmpz m = *m_; for (long i = 0; i < n; ++i) fmpz_mod(r + i, a + i, &m); }
inline void _fmpz_vec_dot(fmpz* r, const fmpz* a, const fmpz* b, long n) { sym::Val s = symf::L(0); for (long i = 0; i < n; ++i) s = sym::v_add(s, sym::v_mul(a[i].v, b[i].v)); r->v = s; }
inline int _fmpz_vec_is_zero(const fmpz* a, long n) { for (long i = 0; i < n; ++i) if (!fmpz_is_zero(a + i)) return 0; return 1; } inline int _fmpz_vec_equal(const fmpz* a, const fmpz* b, long n) { for (long i = 0; i < n; ++i) if (!fmpz_equal(a + i, b + i)) return 0; return 1; } inline int _fmpz_vec_print(const fmpz*, long) { return 1; }
// ---------------------------------------------------------------- fmpz_mat
struct fmpz_mat_struct { fmpz* entries; long r, c; fmpz** rows; }; typedef fmpz_mat_struct fmpz_mat_t[1];
// checked access: the real entries array is what a memory checker sees in the replay
#define fmpz_mat_entry(mat, i, j) ((mat)->rows[i] + (j))
#define MATCHK(A, i, n) 
inline long fmpz_mat_nrows(const fmpz_mat_struct* A) { return A->r; } inline long fmpz_mat_ncols(const fmpz_mat_struct* A) { return A->c; }
inline void fmpz_mat_init(fmpz_mat_struct* A, long r, long c) { A->entries = _fmpz_vec_init(r * c); A->rows = (fmpz**)calloc(r ? r : 1, sizeof(fmpz*)); for (long i = 0; i < r; ++i) A->rows[i] = A->entries + i * c; A->r = r; A->c = c; }
inline void fmpz_mat_clear(fmpz_mat_struct* A) { free(A->entries); free(A->rows); A->entries = 0; A->rows = 0; }
inline void fmpz_mat_set(fmpz_mat_struct* A, const fmpz_mat_struct* B) { for (long i = 0; i < B->r; ++i) for (long j = 0; j < B->c; ++j) A->rows[i][j] = B->rows[i][j]; }
inline void fmpz_mat_init_set(fmpz_mat_struct* A, const fmpz_mat_struct* B) { fmpz_mat_init(A, B->r, B->c); fmpz_mat_set(A, B); } inline void fmpz_mat_swap(fmpz_mat_struct* A, fmpz_mat_struct* B) { std::swap(*A, *B); }
inline void fmpz_mat_zero(fmpz_mat_struct* A) { for (long i = 0; i < A->r; ++i) for (long j = 0; j < A->c; ++j) fmpz_zero(A->rows[i] + j); } inline void fmpz_mat_one(fmpz_mat_struct* A) { fmpz_mat_zero(A); for (long i = 0; i < A->r && i < A->c; ++i) fmpz_one(A->rows[i] + i); }
inline void symf_dims(bool ok) { if (!ok) { sym::fail("flint matrix: incompatible dimensions"); sym::end_path(); } }
inline void fmpz_mat_add(fmpz_mat_struct* C, const fmpz_mat_struct* A, const fmpz_mat_struct* B) { symf_dims(A->r == B->r && A->c == B->c && C->r == A->r && C->c == A->c); for (long i = 0; i < C->r; ++i) _fmpz_vec_add(C->rows[i], A->rows[i], B->rows[i], C->c); }
inline void fmpz_mat_sub(fmpz_mat_struct* C, const fmpz_mat_struct* A, const fmpz_mat_struct* B) { symf_dims(A->r == B->r && A->c == B->c && C->r == A->r && C->c == A->c); for (long i = 0; i < C->r; ++i) _fmpz_vec_sub(C->rows[i], A->rows[i], B->rows[i], C->c); }
inline void fmpz_mat_mul(fmpz_mat_struct* C, const fmpz_mat_struct* A, const fmpz_mat_struct* B) { symf_dims(A->c == B->r && C->r == A->r && C->c == B->c); fmpz_mat_t T; fmpz_mat_init(T, A->r, B->c); for (long i = 0; i < A->r; ++i) for (long j = 0; j < B->c; ++j) { sym::Val s = symf::L(0); for (long k = 0; k < A->c; ++k) s = sym::v_add(s, sym::v_mul(A->rows[i][k].v, B->rows[k][j].v)); T->rows[i][j].v = s; } fmpz_mat_set(C, T); fmpz_mat_clear(T); }
inline void fmpz_mat_scalar_mul_ui(fmpz_mat_struct* C, const fmpz_mat_struct* A, sym::IntArg c) { for (long i = 0; i < C->r; ++i) _fmpz_vec_scalar_mul_ui(C->rows[i], A->rows[i], C->c, c); } inline void fmpz_mat_scalar_mul_si(fmpz_mat_struct* C, const fmpz_mat_struct* A, sym::IntArg c) { fmpz_mat_scalar_mul_ui(C, A, c); } inline void fmpz_mat_scalar_mul_fmpz(fmpz_mat_struct* C, const fmpz_mat_struct* A, const fmpz* c) { for (long i = 0; i < C->r; ++i) _fmpz_vec_scalar_mul_fmpz(C->rows[i], A->rows[i], C->c, c); }
inline void fmpz_mat_scalar_mod_fmpz(fmpz_mat_struct* C, const fmpz_mat_struct* A, const fmpz* m) { for (long i = 0; i < C->r; ++i) _fmpz_vec_scalar_mod_fmpz(C->rows[i], A->rows[i], C->c, m); } inline void fmpz_mat_neg(fmpz_mat_struct* C, const fmpz_mat_struct* A) { for (long i = 0; i < C->r; ++i) _fmpz_vec_neg(C->rows[i], A->rows[i], C->c); }
inline void fmpz_mat_transpose(fmpz_mat_struct* B, const fmpz_mat_struct* A) { symf_dims(B->r == A->c && B->c == A->r); fmpz_mat_t T; fmpz_mat_init(T, A->c, A->r); for (long i = 0; i < A->r; ++i) for (long j = 0; j < A->c; ++j) T->rows[j][i] = A->rows[i][j]; fmpz_mat_set(B, T); fmpz_mat_clear(T); }
inline int fmpz_mat_equal(const fmpz_mat_struct* A, const fmpz_mat_struct* B) { if (A->r != B->r || A->c != B->c) return 0; for (long i = 0; i < A->r; ++i) if (!_fmpz_vec_equal(A->rows[i], B->rows[i], A->c)) return 0; return 1; } inline int fmpz_mat_is_zero(const fmpz_mat_struct* A) { for (long i = 0; i < A->r; ++i) if (!_fmpz_vec_is_zero(A->rows[i], A->c)) return 0; return 1; } inline int fmpz_mat_print_pretty(const fmpz_mat_struct*) { return 1; }
inline void fmpz_mat_trace(fmpz* t, const fmpz_mat_struct* A) { sym::Val s = symf::L(0); for (long i = 0; i < A->r; ++i) s = sym::v_add(s, A->rows[i][i].v); t->v = s; } inline void fmpz_mat_scalar_addmul_fmpz(fmpz_mat_struct* B, const fmpz_mat_struct* A, const fmpz* c) { for (long i = 0; i < B->r; ++i) for (long j = 0; j < B->c; ++j) B->rows[i][j].v = sym::v_add(B->rows[i][j].v, sym::v_mul(A->rows[i][j].v, c->v)); } inline void fmpz_mat_scalar_addmul_ui(fmpz_mat_struct* B, const fmpz_mat_struct* A, sym::IntArg c) { fmpz t; t.v = c.v; fmpz_mat_scalar_addmul_fmpz(B, A, &t); }
// ---------------------------------------------------------------- nmod
struct nmod_t { unsigned long n, ninv, norm; };
inline void nmod_init(nmod_t* m, sym::IntArg n) { m->n = sym::v_getulong(sym::v_concretize_val(n.v)); m->ninv = 0; m->norm = m->n ? __builtin_clzl(m->n) : 64; }
inline sym::Val symf_n(nmod_t m) { return sym::v_ulong(m.n); }
// FLINT requires reduced operands
inline sym::Val symf_red(const SLimb& a, nmod_t m) { sym::Val lo, hi; sym::Val n = symf_n(m);
  if (sym::v_interval(a.v, lo, hi)) { bool k; sym::SB b = sym::sb_lt(hi, n); if (sym::sb_isconst(b, k) && k) return a.v; }
  sym::check(sym::sb_lt(a.v, n), "modular operand not reduced (library precondition)"); return a.v; }
inline SLimb symf_mod(sym::Val v, nmod_t m) { SLimb r; r.v = sym::v_mod(v, symf_n(m)); return r; }
inline SLimb nmod_add(SLimb a, SLimb b, nmod_t m) { return symf_mod(sym::v_add(symf_red(a, m), symf_red(b, m)), m); } inline SLimb _nmod_add(SLimb a, SLimb b, nmod_t m) { return nmod_add(a, b, m); }
inline SLimb nmod_sub(SLimb a, SLimb b, nmod_t m) { return symf_mod(sym::v_sub(symf_red(a, m), symf_red(b, m)), m); } inline SLimb nmod_neg(SLimb a, nmod_t m) { return symf_mod(sym::v_neg(symf_red(a, m)), m); }
inline SLimb nmod_mul(SLimb a, SLimb b, nmod_t m) { return symf_mod(sym::v_mul(symf_red(a, m), symf_red(b, m)), m); }
inline SLimb nmod_pow_ui(SLimb a, unsigned long e, nmod_t m) { sym::Val b = sym::v_mod(a.v, symf_n(m)), r = sym::v_redc(symf::L(1), symf_n(m)); while (e) { if (e & 1) r = sym::v_redc(sym::v_mul(r, b), symf_n(m)); e >>= 1; if (e) b = sym::v_redc(sym::v_mul(b, b), symf_n(m)); } return symf_mod(r, m); }
namespace NTL { sym::Val sym_inv(sym::Val x, sym::Val m); }
inline SLimb nmod_inv(SLimb a, nmod_t m) { return symf_mod(NTL::sym_inv(a.v, symf_n(m)), m); } inline SLimb nmod_div(SLimb a, SLimb b, nmod_t m) { return symf_mod(sym::v_mul(a.v, NTL::sym_inv(b.v, symf_n(m))), m); }
#define NMOD_RED(r, a, mod) do { (r) = symf_mod(SLimb(a).v, mod); } while (0)
#define NMOD_ADDMUL(r, a, b, mod) do { (r) = nmod_add((r), nmod_mul((a), (b), (mod)), (mod)); } while (0)
inline SLimb nmod_set_ui(SLimb a, nmod_t m) { return symf_mod(a.v, m); } inline SLimb nmod_set_si(SI64 a, nmod_t m) { return symf_mod(a.v, m); }
inline SLimb n_mulmod2(SLimb a, SLimb b, unsigned long n) { nmod_t m; nmod_init(&m, n); return symf_mod(sym::v_mul(a.v, b.v), m); } inline SLimb n_invmod(SLimb a, unsigned long n) { nmod_t m; nmod_init(&m, n); return nmod_inv(a, m); } inline SLimb n_powmod2(SLimb a, long e, unsigned long n) { nmod_t m; nmod_init(&m, n); return nmod_pow_ui(symf_mod(a.v, m), e, m); }
inline SLimb n_addmod(SLimb a, SLimb b, unsigned long n) { nmod_t m; nmod_init(&m, n); return nmod_add(a, b, m); } inline SLimb n_submod(SLimb a, SLimb b, unsigned long n) { nmod_t m; nmod_init(&m, n); return nmod_sub(a, b, m); } inline SLimb n_negmod(SLimb a, unsigned long n) { nmod_t m; nmod_init(&m, n); return nmod_neg(a, m); }
inline SLimb nmod_addmul(SLimb r, SLimb a, SLimb b, nmod_t m) { return nmod_add(r, nmod_mul(a, b, m), m); }
inline SLimb n_mulmod2_preinv(SLimb a, SLimb b, unsigned long n, unsigned long) { return n_mulmod2(a, b, n); } inline SLimb n_mod2_preinv(SLimb a, unsigned long n, unsigned long) { nmod_t m; nmod_init(&m, n); return symf_mod(a.v, m); } inline unsigned long n_preinvert_limb(unsigned long) { return 0; } inline SLimb n_powmod(SLimb a, long e, unsigned long n) { return e < 0 ? n_powmod2(n_invmod(a, n), -e, n) : n_powmod2(a, e, n); } inline SLimb n_powmod2_ui_preinv(SLimb a, unsigned long e, unsigned long n, unsigned long) { return n_powmod2(a, (long)e, n); }
inline unsigned long n_pow(unsigned long a, unsigned long e) { unsigned long r = 1; while (e--) r *= a; return r; } inline unsigned long n_gcd(unsigned long a, unsigned long b) { while (b) { unsigned long t = a % b; a = b; b = t; } return a; }
inline int n_is_prime(unsigned long n) { if (n < 2) return 0; for (unsigned long i = 2; i * i <= n; ++i) if (n % i == 0) return 0; return 1; } inline unsigned long n_nextprime(unsigned long n, int) { do ++n; while (!n_is_prime(n)); return n; }
inline mp_ptr _nmod_vec_init(long n) { return (mp_ptr)calloc(n ? n : 1, sizeof(SLimb)); } inline void _nmod_vec_clear(mp_ptr p) { free(p); }
inline void _nmod_vec_set(mp_ptr r, mp_srcptr a, long n) { for (long i = 0; i < n; ++i) r[i] = a[i]; } inline void _nmod_vec_zero(mp_ptr r, long n) { for (long i = 0; i < n; ++i) r[i] = SLimb(0); } inline void _nmod_vec_swap(mp_ptr r, mp_ptr a, long n) { for (long i = 0; i < n; ++i) std::swap(r[i], a[i]); }
inline void _nmod_vec_reduce(mp_ptr r, mp_srcptr a, long n, nmod_t m) { for (long i = 0; i < n; ++i) r[i] = symf_mod(a[i].v, m); }
inline void _nmod_vec_add(mp_ptr r, mp_srcptr a, mp_srcptr b, long n, nmod_t m) { for (long i = 0; i < n; ++i) r[i] = nmod_add(a[i], b[i], m); } inline void _nmod_vec_sub(mp_ptr r, mp_srcptr a, mp_srcptr b, long n, nmod_t m) { for (long i = 0; i < n; ++i) r[i] = nmod_sub(a[i], b[i], m); } inline void _nmod_vec_neg(mp_ptr r, mp_srcptr a, long n, nmod_t m) { for (long i = 0; i < n; ++i) r[i] = nmod_neg(a[i], m); }
inline void _nmod_vec_scalar_mul_nmod(mp_ptr r, mp_srcptr a, long n, SLimb c, nmod_t m) { for (long i = 0; i < n; ++i) r[i] = nmod_mul(a[i], c, m); } inline void _nmod_vec_scalar_addmul_nmod(mp_ptr r, mp_srcptr a, long n, SLimb c, nmod_t m) { for (long i = 0; i < n; ++i) r[i] = symf_mod(sym::v_add(symf_red(r[i], m), sym::v_mul(symf_red(a[i], m), symf_red(c, m))), m); }
inline int _nmod_vec_equal(mp_srcptr a, mp_srcptr b, long n) { for (long i = 0; i < n; ++i) if (a[i] != b[i]) return 0; return 1; } inline int _nmod_vec_is_zero(mp_srcptr a, long n) { for (long i = 0; i < n; ++i) if (a[i] != 0) return 0; return 1; }
inline int _nmod_vec_dot_bound_limbs(long, nmod_t) { return 3; }
inline SLimb _nmod_vec_dot(mp_srcptr a, mp_srcptr b, long n, nmod_t m, int) { sym::Val s = symf::L(0); for (long i = 0; i < n; ++i) s = sym::v_add(s, sym::v_mul(a[i].v, b[i].v)); return symf_mod(s, m); }
#define NMOD_VEC_DOT(res, i, len, expr1, expr2, mod, nlimbs) do { (res) = SLimb(0); for (i = 0; i < (len); ++i) (res) = nmod_add((res), nmod_mul((expr1), (expr2), (mod)), (mod)); } while (0)
// ---------------------------------------------------------------- nmod_mat
struct nmod_mat_struct { mp_limb_t* entries; long r, c; mp_limb_t** rows; nmod_t mod; }; typedef nmod_mat_struct nmod_mat_t[1];
#define nmod_mat_entry(mat, i, j) ((mat)->rows[(i)][(j)])
inline mp_limb_t* nmod_mat_entry_ptr(const nmod_mat_struct* A, long i, long j) { return A->rows[i] + j; } inline SLimb nmod_mat_get_entry(const nmod_mat_struct* A, long i, long j) { return A->rows[i][j]; } inline void nmod_mat_set_entry(nmod_mat_struct* A, long i, long j, SLimb x) { A->rows[i][j] = x; }
inline long nmod_mat_nrows(const nmod_mat_struct* A) { return A->r; } inline long nmod_mat_ncols(const nmod_mat_struct* A) { return A->c; }
inline void nmod_mat_init(nmod_mat_struct* A, long r, long c, sym::IntArg n) { A->entries = _nmod_vec_init(r * c); A->rows = (mp_limb_t**)calloc(r ? r : 1, sizeof(mp_limb_t*)); for (long i = 0; i < r; ++i) A->rows[i] = A->entries + i * c; A->r = r; A->c = c; nmod_init(&A->mod, n); }
inline void nmod_mat_clear(nmod_mat_struct* A) { free(A->entries); free(A->rows); A->entries = 0; A->rows = 0; }
inline void nmod_mat_set(nmod_mat_struct* A, const nmod_mat_struct* B) { for (long i = 0; i < B->r; ++i) for (long j = 0; j < B->c; ++j) A->rows[i][j] = B->rows[i][j]; }
inline void nmod_mat_init_set(nmod_mat_struct* A, const nmod_mat_struct* B) { nmod_mat_init(A, B->r, B->c, B->mod.n); nmod_mat_set(A, B); } inline void nmod_mat_swap(nmod_mat_struct* A, nmod_mat_struct* B) { std::swap(*A, *B); }
inline void nmod_mat_zero(nmod_mat_struct* A) { for (long i = 0; i < A->r; ++i) for (long j = 0; j < A->c; ++j) A->rows[i][j] = SLimb(0); } inline void nmod_mat_one(nmod_mat_struct* A) { nmod_mat_zero(A); for (long i = 0; i < A->r && i < A->c; ++i) A->rows[i][i] = SLimb(A->mod.n != 1); }
inline void nmod_mat_add(nmod_mat_struct* C, const nmod_mat_struct* A, const nmod_mat_struct* B) { symf_dims(A->r == B->r && A->c == B->c); for (long i = 0; i < C->r; ++i) _nmod_vec_add(C->rows[i], A->rows[i], B->rows[i], C->c, C->mod); }
extern "C" void nmod_mat_sub(nmod_mat_struct* C, const nmod_mat_struct* A, const nmod_mat_struct* B);   // redefined by the code base
inline void nmod_mat_neg(nmod_mat_struct* C, const nmod_mat_struct* A) { for (long i = 0; i < C->r; ++i) _nmod_vec_neg(C->rows[i], A->rows[i], C->c, C->mod); }
inline void nmod_mat_mul(nmod_mat_struct* C, const nmod_mat_struct* A, const nmod_mat_struct* B) { symf_dims(A->c == B->r && C->r == A->r && C->c == B->c); nmod_mat_t T; nmod_mat_init(T, A->r, B->c, C->mod.n); for (long i = 0; i < A->r; ++i) for (long j = 0; j < B->c; ++j) { sym::Val s = symf::L(0); for (long k = 0; k < A->c; ++k) s = sym::v_redc(sym::v_add(s, sym::v_mul(symf_red(A->rows[i][k], A->mod), symf_red(B->rows[k][j], A->mod))), symf_n(A->mod)); T->rows[i][j] = symf_mod(s, C->mod); } nmod_mat_set(C, T); nmod_mat_clear(T); }
inline void nmod_mat_transpose(nmod_mat_struct* B, const nmod_mat_struct* A) { symf_dims(B->r == A->c && B->c == A->r); nmod_mat_t T; nmod_mat_init(T, A->c, A->r, A->mod.n); for (long i = 0; i < A->r; ++i) for (long j = 0; j < A->c; ++j) T->rows[j][i] = A->rows[i][j]; nmod_mat_set(B, T); nmod_mat_clear(T); }
inline int nmod_mat_equal(const nmod_mat_struct* A, const nmod_mat_struct* B) { if (A->r != B->r || A->c != B->c) return 0; for (long i = 0; i < A->r; ++i) if (!_nmod_vec_equal(A->rows[i], B->rows[i], A->c)) return 0; return 1; } inline int nmod_mat_is_zero(const nmod_mat_struct* A) { for (long i = 0; i < A->r; ++i) if (!_nmod_vec_is_zero(A->rows[i], A->c)) return 0; return 1; }
inline void nmod_mat_scalar_mul(nmod_mat_struct* B, const nmod_mat_struct* A, SLimb c) { symf_dims(B->r == A->r && B->c == A->c); for (long i = 0; i < A->r; ++i) _nmod_vec_scalar_mul_nmod(B->rows[i], A->rows[i], A->c, c, A->mod); }
inline void nmod_mat_scalar_addmul_ui(nmod_mat_struct* D, const nmod_mat_struct* X, const nmod_mat_struct* Y, SLimb c) { symf_dims(D->r == X->r && D->c == X->c && D->r == Y->r && D->c == Y->c); for (long i = 0; i < D->r; ++i) for (long j = 0; j < D->c; ++j) D->rows[i][j] = symf_mod(sym::v_add(symf_red(X->rows[i][j], D->mod), sym::v_mul(symf_red(Y->rows[i][j], D->mod), symf_red(c, D->mod))), D->mod); }
inline int nmod_mat_print_pretty(const nmod_mat_struct*) { return 1; }
inline int symf_pivot(nmod_mat_struct* A, long* P, long row, long col) { if (A->rows[row][col] != 0) return 1; for (long j = row + 1; j < A->r; ++j) if (A->rows[j][col] != 0) { std::swap(A->rows[j], A->rows[row]); if (P) std::swap(P[j], P[row]); return -1; } return 0; }
inline long nmod_mat_lu(long* P, nmod_mat_struct* A, int rank_check) {
  long m = A->r, n = A->c, rank = 0, row = 0, col = 0; nmod_t mod = A->mod;
  for (long i = 0; i < m; ++i) P[i] = i;
  while (row < m && col < n) {
    if (symf_pivot(A, P, row, col) == 0) { if (rank_check) return 0; ++col; continue; }
    ++rank; SLimb d = nmod_inv(A->rows[row][col], mod);
    for (long i = row + 1; i < m; ++i) {
      SLimb e = nmod_mul(A->rows[i][col], d, mod);
      for (long j = col + 1; j < n; ++j) A->rows[i][j] = symf_mod(sym::v_sub(A->rows[i][j].v, sym::v_mul(e.v, A->rows[row][j].v)), mod);
      A->rows[i][col] = SLimb(0); A->rows[i][rank - 1] = e;
    }
    ++row; ++col;
  }
  return rank;
}
inline long nmod_mat_lu_classical(long* P, nmod_mat_struct* A, int rc) { return nmod_mat_lu(P, A, rc); } inline long nmod_mat_lu_recursive(long* P, nmod_mat_struct* A, int rc) { return nmod_mat_lu(P, A, rc); }
inline void nmod_mat_pow(nmod_mat_struct* B, const nmod_mat_struct* A, unsigned long e) { nmod_mat_t T; nmod_mat_init_set(T, A); nmod_mat_one(T); for (unsigned long i = 0; i < e; ++i) nmod_mat_mul(T, T, A); nmod_mat_set(B, T); nmod_mat_clear(T); }
inline void fmpz_mat_pow(fmpz_mat_struct* B, const fmpz_mat_struct* A, unsigned long e) { fmpz_mat_t T; fmpz_mat_init_set(T, A); fmpz_mat_one(T); for (unsigned long i = 0; i < e; ++i) fmpz_mat_mul(T, T, A); fmpz_mat_set(B, T); fmpz_mat_clear(T); }
inline long nmod_mat_rank(const nmod_mat_struct* A) { nmod_mat_t T; nmod_mat_init_set(T, A); std::vector<long> P(A->r + 1); long r = nmod_mat_lu(P.data(), T, 0); nmod_mat_clear(T); return r; }
inline int nmod_mat_inv(nmod_mat_struct* B, const nmod_mat_struct* A) {
  long n = A->r; symf_dims(A->c == n && B->r == n && B->c == n); nmod_mat_t M; nmod_mat_init(M, n, 2 * n, A->mod.n); nmod_t mod = A->mod;
  for (long i = 0; i < n; ++i) { for (long j = 0; j < n; ++j) M->rows[i][j] = A->rows[i][j]; M->rows[i][n + i] = SLimb(mod.n != 1); }
  for (long k = 0; k < n; ++k) {
    if (!symf_pivot(M, nullptr, k, k)) { nmod_mat_clear(M); return 0; }
    SLimb d = nmod_inv(M->rows[k][k], mod); for (long j = k; j < 2 * n; ++j) M->rows[k][j] = nmod_mul(M->rows[k][j], d, mod);
    for (long i = 0; i < n; ++i) if (i != k) { SLimb t = M->rows[i][k]; for (long j = k; j < 2 * n; ++j) M->rows[i][j] = symf_mod(sym::v_sub(M->rows[i][j].v, sym::v_mul(t.v, M->rows[k][j].v)), mod); }
  }
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) B->rows[i][j] = M->rows[i][n + j];
  nmod_mat_clear(M); return 1;
}
inline long nmod_mat_rref(nmod_mat_struct* A) {
  long rank = 0; nmod_t mod = A->mod;
  for (long col = 0; col < A->c && rank < A->r; ++col) {
    if (!symf_pivot(A, nullptr, rank, col)) continue;
    SLimb d = nmod_inv(A->rows[rank][col], mod); for (long j = col; j < A->c; ++j) A->rows[rank][j] = nmod_mul(A->rows[rank][j], d, mod);
    for (long i = 0; i < A->r; ++i) if (i != rank) { SLimb t = A->rows[i][col]; for (long j = col; j < A->c; ++j) A->rows[i][j] = symf_mod(sym::v_sub(A->rows[i][j].v, sym::v_mul(t.v, A->rows[rank][j].v)), mod); }
    ++rank;
  }
  return rank;
}
// ---------------------------------------------------------------- fmpz_poly (dense), factorisation by the real library
struct fmpz_poly_struct { fmpz* coeffs; long alloc, length; }; typedef fmpz_poly_struct fmpz_poly_t[1];
inline void fmpz_poly_init(fmpz_poly_struct* f) { f->coeffs = nullptr; f->alloc = f->length = 0; } inline void fmpz_poly_init2(fmpz_poly_struct* f, long) { fmpz_poly_init(f); } inline void fmpz_poly_clear(fmpz_poly_struct* f) { free(f->coeffs); fmpz_poly_init(f); }
inline void fmpz_poly_fit_length(fmpz_poly_struct* f, long n) { if (n > f->alloc) { f->coeffs = (fmpz*)realloc(f->coeffs, n * sizeof(fmpz)); for (long i = f->alloc; i < n; ++i) f->coeffs[i].v.t = 0; f->alloc = n; } }
inline void symf_norm(fmpz_poly_struct* f) { while (f->length && fmpz_is_zero(f->coeffs + f->length - 1)) --f->length; }
inline long fmpz_poly_degree(const fmpz_poly_struct* f) { return f->length - 1; } inline long fmpz_poly_length(const fmpz_poly_struct* f) { return f->length; } inline fmpz* fmpz_poly_get_coeff_ptr(fmpz_poly_struct* f, long i) { return i < f->length ? f->coeffs + i : nullptr; }
inline void fmpz_poly_set_coeff_fmpz(fmpz_poly_struct* f, long i, const fmpz* x) { fmpz c = *x; if (i >= f->length) { fmpz_poly_fit_length(f, i + 1); for (long k = f->length; k <= i; ++k) f->coeffs[k].v.t = 0; f->length = i + 1; } f->coeffs[i] = c; symf_norm(f); }
inline void fmpz_poly_set_coeff_si(fmpz_poly_struct* f, long i, sym::IntArg x) { fmpz c; c.v = x.v; fmpz_poly_set_coeff_fmpz(f, i, &c); } inline void fmpz_poly_set_coeff_ui(fmpz_poly_struct* f, long i, sym::IntArg x) { fmpz_poly_set_coeff_si(f, i, x); }
inline void fmpz_poly_get_coeff_fmpz(fmpz* x, const fmpz_poly_struct* f, long i) { if (i < f->length && i >= 0) *x = f->coeffs[i]; else x->v.t = 0; }
inline void fmpz_poly_set(fmpz_poly_struct* f, const fmpz_poly_struct* g) { if (f == g) return; fmpz_poly_fit_length(f, g->length); for (long i = 0; i < g->length; ++i) f->coeffs[i] = g->coeffs[i]; f->length = g->length; }
inline int fmpz_poly_equal(const fmpz_poly_struct* f, const fmpz_poly_struct* g) { if (f->length != g->length) return 0; return _fmpz_vec_equal(f->coeffs, g->coeffs, f->length); }
inline void fmpz_poly_zero(fmpz_poly_struct* f) { f->length = 0; } inline void fmpz_poly_one(fmpz_poly_struct* f) { f->length = 0; fmpz_poly_set_coeff_si(f, 0, 1); }
inline void fmpz_poly_mul(fmpz_poly_struct* h, const fmpz_poly_struct* f, const fmpz_poly_struct* g) { fmpz_poly_t t; fmpz_poly_init(t); if (f->length && g->length) { long n = f->length + g->length - 1; fmpz_poly_fit_length(t, n); t->length = n; for (long i = 0; i < f->length; ++i) for (long j = 0; j < g->length; ++j) fmpz_addmul(t->coeffs + i + j, f->coeffs + i, g->coeffs + j); symf_norm(t); } std::swap(*h, *t); fmpz_poly_clear(t); }
struct fmpz_poly_factor_struct { fmpz c; fmpz_poly_struct* p; long* exp; long num; long alloc; }; typedef fmpz_poly_factor_struct fmpz_poly_factor_t[1];
void fmpz_poly_factor_init(fmpz_poly_factor_struct*); void fmpz_poly_factor_clear(fmpz_poly_factor_struct*); void fmpz_poly_factor(fmpz_poly_factor_struct*, const fmpz_poly_struct*); inline void fmpz_poly_factor_zassenhaus(fmpz_poly_factor_struct* a, const fmpz_poly_struct* f) { fmpz_poly_factor(a, f); }
void fmpz_poly_cyclotomic(fmpz_poly_struct*, unsigned long);
// contract of the factorisation routine: the harness names the irreducible factors, the shim checks the product
void symf_set_factors(const std::vector<std::pair<std::vector<sym::Val>, long> >& f, sym::Val content);
struct fmpz_poly_mat_struct { fmpz_poly_struct* entries; long r, c; fmpz_poly_struct** rows; }; typedef fmpz_poly_mat_struct fmpz_poly_mat_t[1];
inline void fmpz_poly_mat_init(fmpz_poly_mat_struct* A, long r, long c) { A->entries = (fmpz_poly_struct*)calloc(r * c + 1, sizeof(fmpz_poly_struct)); A->rows = (fmpz_poly_struct**)calloc(r + 1, sizeof(void*)); for (long i = 0; i < r; ++i) A->rows[i] = A->entries + i * c; A->r = r; A->c = c; }
inline void fmpz_poly_mat_clear(fmpz_poly_mat_struct* A) { for (long i = 0; i < A->r * A->c; ++i) fmpz_poly_clear(A->entries + i); free(A->entries); free(A->rows); }
inline fmpz_poly_struct* fmpz_poly_mat_entry(const fmpz_poly_mat_struct* A, long i, long j) { return A->rows[i] + j; }
#endif
