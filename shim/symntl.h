// Symbolic replacement for the NTL scalar types; Vec/Mat templates are NTL's own.
#ifndef SYMNTL_H
#define SYMNTL_H
#include "symcore.h"
#define NTL_RANGE_CHECK
#undef int64_t
namespace NTL {
inline void conv(long& x, const SI64& a) { x = (long)a; }
inline void conv(int& x, const SI64& a) { x = (int)(long)a; }
inline void conv(unsigned long& x, const SI64& a) { x = (unsigned long)(long)a; }
inline void conv(long& x, const SLimb& a) { x = (long)(unsigned long)a; }
inline void conv(unsigned long& x, const SLimb& a) { x = (unsigned long)a; }
inline void conv(SI64& x, const SI64& a) { x = a; }
inline void conv(SI64& x, const SLimb& a) { x = SI64(a); }
inline void conv(SLimb& x, const SI64& a) { x = SLimb(a); }
inline void conv(SLimb& x, const SLimb& a) { x = a; }
template<class T> inline typename std::enable_if<sym::is_int<T>::value>::type conv(SI64& x, T a) { x = SI64(a); }
template<class T> inline typename std::enable_if<sym::is_int<T>::value>::type conv(SLimb& x, T a) { x = SLimb(a); }
inline void conv(int& x, const SLimb& a) { x = (int)(unsigned long)a; }
inline void conv(unsigned int& x, const SI64& a) { x = (unsigned)(long)a; }
inline void conv(unsigned int& x, const SLimb& a) { x = (unsigned)(unsigned long)a; }
inline void conv(double& x, const SI64& a) { x = (double)(long)a; }
}
#include "/usr/include/NTL/tools.h"
#include "/usr/include/NTL/vector.h"
#include "/usr/include/NTL/matrix.h"
#include "/usr/include/NTL/pair.h"
#ifdef SYM_INT
#define int64_t SI64
#endif
namespace NTL {
typedef sym::IntArg SI_;
using sym::Val;

// ---------------------------------------------------------------- conversions among machine words
inline long to_long(const SI64& a) { return (long)a; }
inline SI64 min(const SI64& a, const SI64& b) { return a < b ? a : b; }
inline SI64 max(const SI64& a, const SI64& b) { return a < b ? b : a; }
template<class T> inline typename std::enable_if<sym::is_int<T>::value, SI64>::type min(const SI64& a, T b) { return min(a, SI64(b)); }
template<class T> inline typename std::enable_if<sym::is_int<T>::value, SI64>::type max(const SI64& a, T b) { return max(a, SI64(b)); }
template<class T> inline typename std::enable_if<sym::is_int<T>::value, SI64>::type min(T a, const SI64& b) { return min(SI64(a), b); }
template<class T> inline typename std::enable_if<sym::is_int<T>::value, SI64>::type max(T a, const SI64& b) { return max(SI64(a), b); }
inline void clear(SI64& x) { x = 0; }
inline void set(SI64& x) { x = 1; }

// ---------------------------------------------------------------- ZZ
class ZZ {
public:
  Val v;
  ZZ() { v.t = 0; }
  template<class T, class = typename std::enable_if<sym::is_int<T>::value || std::is_same<T, SI64>::value || std::is_same<T, SLimb>::value>::type> explicit ZZ(const T& a) { v = SI_(a).v; }
  ZZ(INIT_SIZE_TYPE, long) { v.t = 0; }
  template<class T, class = typename std::enable_if<sym::is_int<T>::value || std::is_same<T, SI64>::value || std::is_same<T, SLimb>::value>::type> ZZ(INIT_VAL_TYPE, const T& a) { v = SI_(a).v; }
  ZZ(INIT_VAL_TYPE, const char* s) { v = sym::v_dec(s); }
  ZZ(const ZZ& a) { v = a.v; }
  ZZ& operator=(const ZZ& a) { v = a.v; return *this; }
  ZZ& operator=(SI_ a) { v = a.v; return *this; }
  void kill() { v.t = 0; } void SetSize(long) {} long size() const;
  void swap(ZZ& o) { Val t = v; v = o.v; o.v = t; }
  static const ZZ& zero() { static ZZ z; return z; }
  static ZZ raw(Val a) { ZZ r; r.v = a; return r; }
};
inline ZZ mkZ(Val v) { return ZZ::raw(v); }
struct ZA { Val v; ZA(const ZZ& a) : v(a.v) {} ZA(const SI_& a) : v(a.v) {}
  template<class T, class = typename std::enable_if<sym::is_int<T>::value || std::is_same<T, SI64>::value || std::is_same<T, SLimb>::value>::type> ZA(const T& a) : v(SI_(a).v) {} };
template<class T> struct isZ : std::is_same<T, ZZ> {};
template<class T> struct isI : std::integral_constant<bool, sym::is_int<T>::value || std::is_same<T, SI64>::value || std::is_same<T, SLimb>::value> {};
template<class A, class B> struct zz_ok : std::integral_constant<bool, (isZ<A>::value && (isZ<B>::value || isI<B>::value)) || (isZ<B>::value && isI<A>::value)> {};
#define ZOP(op, E) template<class A, class B> inline typename std::enable_if<zz_ok<A, B>::value, ZZ>::type operator op(const A& a_, const B& b_) { ZA a(a_), b(b_); return mkZ(E); }
ZOP(+, sym::v_add(a.v, b.v)) ZOP(-, sym::v_sub(a.v, b.v)) ZOP(*, sym::v_mul(a.v, b.v))
#define ZCMP(op, E) template<class A, class B> inline typename std::enable_if<zz_ok<A, B>::value, bool>::type operator op(const A& a_, const B& b_) { ZA a(a_), b(b_); return sym::decide(E); }
ZCMP(==, sym::sb_eq(a.v, b.v)) ZCMP(!=, sym::sb_not(sym::sb_eq(a.v, b.v))) ZCMP(<, sym::sb_lt(a.v, b.v)) ZCMP(<=, sym::sb_le(a.v, b.v)) ZCMP(>, sym::sb_lt(b.v, a.v)) ZCMP(>=, sym::sb_le(b.v, a.v))
inline ZZ operator/(const ZZ& a, const ZA& b) { return mkZ(sym::v_fdiv(a.v, b.v)); }
inline ZZ operator%(const ZZ& a, const ZZ& b) { return mkZ(sym::v_mod(a.v, b.v)); }
template<class T> inline typename std::enable_if<isI<T>::value, SI64>::type operator%(const ZZ& a, const T& b) { return SI64::raw(sym::v_mod(a.v, SI_(b).v)); }
inline ZZ operator-(const ZZ& a) { return mkZ(sym::v_neg(a.v)); }
inline ZZ& operator+=(ZZ& a, const ZA& b) { a.v = sym::v_add(a.v, b.v); return a; }
inline ZZ& operator-=(ZZ& a, const ZA& b) { a.v = sym::v_sub(a.v, b.v); return a; }
inline ZZ& operator*=(ZZ& a, const ZA& b) { a.v = sym::v_mul(a.v, b.v); return a; }
inline ZZ& operator/=(ZZ& a, const ZA& b) { a.v = sym::v_fdiv(a.v, b.v); return a; }
inline ZZ& operator%=(ZZ& a, const ZA& b) { a.v = sym::v_mod(a.v, b.v); return a; }
inline ZZ& operator++(ZZ& a) { a.v = sym::v_add(a.v, sym::v_long(1)); return a; }
inline ZZ& operator--(ZZ& a) { a.v = sym::v_sub(a.v, sym::v_long(1)); return a; }
inline void operator++(ZZ& a, int) { ++a; }
inline void operator--(ZZ& a, int) { --a; }
inline void add(ZZ& x, const ZA& a, const ZA& b) { x.v = sym::v_add(a.v, b.v); }
inline void sub(ZZ& x, const ZA& a, const ZA& b) { x.v = sym::v_sub(a.v, b.v); }
inline void SubPos(ZZ& x, const ZZ& a, const ZZ& b) { x.v = sym::v_sub(a.v, b.v); }
inline void mul(ZZ& x, const ZA& a, const ZA& b) { x.v = sym::v_mul(a.v, b.v); }
inline void sqr(ZZ& x, const ZZ& a) { x.v = sym::v_mul(a.v, a.v); }
inline ZZ sqr(const ZZ& a) { return a * a; }
inline void MulAddTo(ZZ& x, const ZZ& a, const ZA& b) { x.v = sym::v_add(x.v, sym::v_mul(a.v, b.v)); }
inline void MulSubFrom(ZZ& x, const ZZ& a, const ZA& b) { x.v = sym::v_sub(x.v, sym::v_mul(a.v, b.v)); }
inline void negate(ZZ& x, const ZZ& a) { x.v = sym::v_neg(a.v); }
inline ZZ abs(const ZZ& a) { return sym::decide(sym::sb_lt(a.v, sym::v_long(0))) ? -a : a; }
inline void abs(ZZ& x, const ZZ& a) { x = abs(a); }
inline void clear(ZZ& x) { x.v.t = 0; }
inline void set(ZZ& x) { x.v = sym::v_long(1); }
inline void swap(ZZ& a, ZZ& b) { a.swap(b); }
inline long IsZero(const ZZ& a) { return sym::decide(sym::sb_eq(a.v, sym::v_long(0))); }
inline long IsOne(const ZZ& a) { return sym::decide(sym::sb_eq(a.v, sym::v_long(1))); }
inline sym::Sgn sign(const ZZ& a) { return sym::Sgn(a.v); }
inline long compare(const ZZ& a, const ZA& b) { if (sym::decide(sym::sb_eq(a.v, b.v))) return 0; return sym::decide(sym::sb_lt(a.v, b.v)) ? -1 : 1; }
inline long IsOdd(const ZZ& a) { return !sym::decide(sym::sb_eqmod(a.v, sym::v_long(0), sym::v_long(2))); }
long NumBits(const ZZ& a); long NumBytes(const ZZ& a);
inline long ZZ::size() const { return (NumBits(*this) + 63) / 64; }
inline void div(ZZ& q, const ZZ& a, const ZA& b) { q.v = sym::v_fdiv(a.v, b.v); }
inline void rem(ZZ& r, const ZZ& a, const ZZ& b) { r.v = sym::v_mod(a.v, b.v); }
template<class T> inline typename std::enable_if<isI<T>::value, SI64>::type rem(const ZZ& a, const T& b) { return SI64::raw(sym::v_mod(a.v, SI_(b).v)); }
inline void DivRem(ZZ& q, ZZ& r, const ZZ& a, const ZZ& b) { Val x = sym::v_fdiv(a.v, b.v), y = sym::v_mod(a.v, b.v); q.v = x; r.v = y; }
template<class T> inline typename std::enable_if<isI<T>::value, SI64>::type DivRem(ZZ& q, const ZZ& a, const T& b) { Val y = sym::v_mod(a.v, SI_(b).v); q.v = sym::v_fdiv(a.v, SI_(b).v); return SI64::raw(y); }
inline long divide(ZZ& q, const ZZ& a, const ZA& b) {
  if (sym::decide(sym::sb_eq(b.v, sym::v_long(0)))) { if (IsZero(a)) { clear(q); return 1; } return 0; }
  Val r = sym::v_mod(a.v, b.v); if (sym::decide(sym::sb_eq(r, sym::v_long(0)))) { q.v = sym::v_fdiv(a.v, b.v); return 1; } return 0; }
inline long divide(const ZZ& a, const ZA& b) { ZZ q; return divide(q, a, b); }
inline ZZ GCD(const ZZ& a, const ZZ& b) { return mkZ(sym::v_gcd(a.v, b.v)); }
inline void GCD(ZZ& d, const ZZ& a, const ZZ& b) { d = GCD(a, b); }
long GCD(long a, long b);
inline void power(ZZ& x, const ZA& a, long e) { if (e < 0) { x.v = sym::v_fdiv(sym::v_long(1), sym::v_pow(a.v, -e)); } else x.v = sym::v_pow(a.v, e); }
inline ZZ power(const ZZ& a, long e) { ZZ x; power(x, a, e); return x; }
inline ZZ power_ZZ(const SI_& a, long e) { ZZ x; power(x, ZA(a), e); return x; }
inline ZZ power2_ZZ(long e) { return power_ZZ(2, e); }
inline void power2(ZZ& x, long e) { x = power_ZZ(2, e); }
long power_long(long a, long e);
inline SI64 power_long(const SI64& a, const SI64& e_) { long e = (long)e_; if (e < 0) return SI64(0); return SI64::raw(sym::low64s(sym::v_pow(a.v, e))); }
template<class T> inline typename std::enable_if<sym::is_int<T>::value, SI64>::type power_long(const SI64& a, T e) { return power_long(a, SI64(e)); }
template<class T> inline typename std::enable_if<sym::is_int<T>::value, SI64>::type power_long(T a, const SI64& e) { return power_long(SI64(a), e); }
inline void LeftShift(ZZ& x, const ZZ& a, long n) { if (n >= 0) x.v = sym::v_mul(a.v, sym::v_pow(sym::v_long(2), n)); else { bool ng = sign(a) < 0; Val m = sym::v_fdiv(abs(a).v, sym::v_pow(sym::v_long(2), -n)); x.v = ng ? sym::v_neg(m) : m; } }
inline void RightShift(ZZ& x, const ZZ& a, long n) { LeftShift(x, a, -n); }
inline ZZ LeftShift(const ZZ& a, long n) { ZZ x; LeftShift(x, a, n); return x; }
inline ZZ RightShift(const ZZ& a, long n) { ZZ x; LeftShift(x, a, -n); return x; }
inline ZZ operator<<(const ZZ& a, long n) { return LeftShift(a, n); }
inline ZZ operator>>(const ZZ& a, long n) { return RightShift(a, n); }
inline ZZ& operator<<=(ZZ& a, long n) { LeftShift(a, a, n); return a; }
inline ZZ& operator>>=(ZZ& a, long n) { RightShift(a, a, n); return a; }
inline long bit(const ZZ& a, long k) { ZZ t; RightShift(t, abs(a), k); return IsOdd(t); }
inline void trunc(ZZ& x, const ZZ& a, long k) { x.v = sym::v_mod(abs(a).v, sym::v_pow(sym::v_long(2), k)); }
inline ZZ trunc_ZZ(const ZZ& a, long k) { ZZ x; trunc(x, a, k); return x; }
inline ZZ MulMod(const ZZ& a, const ZA& b, const ZZ& n) { return mkZ(sym::v_mod(sym::v_mul(a.v, b.v), n.v)); }
inline void MulMod(ZZ& x, const ZZ& a, const ZA& b, const ZZ& n) { x = MulMod(a, b, n); }
inline ZZ AddMod(const ZZ& a, const ZZ& b, const ZZ& n) { return mkZ(sym::v_mod(sym::v_add(a.v, b.v), n.v)); }
inline void AddMod(ZZ& x, const ZZ& a, const ZZ& b, const ZZ& n) { x = AddMod(a, b, n); }
inline ZZ SubMod(const ZZ& a, const ZZ& b, const ZZ& n) { return mkZ(sym::v_mod(sym::v_sub(a.v, b.v), n.v)); }
inline void SubMod(ZZ& x, const ZZ& a, const ZZ& b, const ZZ& n) { x = SubMod(a, b, n); }
inline ZZ NegateMod(const ZZ& a, const ZZ& n) { return mkZ(sym::v_mod(sym::v_neg(a.v), n.v)); }
inline ZZ SqrMod(const ZZ& a, const ZZ& n) { return MulMod(a, a, n); }
Val sym_inv(Val x, Val m);   // inverse modulo concrete m; forks on unit / non-unit
inline ZZ InvMod(const ZZ& a, const ZZ& n) { return mkZ(sym::v_mod(sym_inv(a.v, n.v), n.v)); }
inline void InvMod(ZZ& x, const ZZ& a, const ZZ& n) { x = InvMod(a, n); }
ZZ PowerMod(const ZZ& a, const ZA& e, const ZZ& n);
inline void PowerMod(ZZ& x, const ZZ& a, const ZA& e, const ZZ& n) { x = PowerMod(a, e, n); }
long MulMod(long a, long b, long n); long AddMod(long a, long b, long n); long SubMod(long a, long b, long n);
long NegateMod(long a, long n); long PowerMod(long a, long e, long n); long InvMod(long a, long n);
inline ZZ SqrRoot(const ZZ& a) { return mkZ(sym::v_sqrtfloor(a.v)); }
inline void SqrRoot(ZZ& x, const ZZ& a) { x = SqrRoot(a); }
long SqrRoot(long a);
long ProbPrime(long n, long t = 10);
inline long ProbPrime(const ZZ& n, long = 10) { return sym::v_probprime(n.v); }
long NextPrime(long m, long t = 10);
ZZ NextPrime(const ZZ& m, long t = 10);
inline void NextPrime(ZZ& n, const ZZ& m, long = 10) { n = NextPrime(m); }
void XGCD(ZZ& d, ZZ& s, ZZ& t, const ZZ& a, const ZZ& b);
inline void SetSeed(const ZZ&) {}
inline ZZ RandomBnd(const ZZ& n) { return mkZ(sym::v_fresh("rnd", sym::v_long(0), sym::v_sub(n.v, sym::v_long(1)))); }
inline void RandomBnd(ZZ& x, const ZZ& n) { x = RandomBnd(n); }
template<class T> inline typename std::enable_if<isI<T>::value, SI64>::type RandomBnd(const T& n) { long k = (long)SI64(n); if (k <= 1) return SI64(0); return SI64::raw(sym::v_fresh("rnd", sym::v_long(0), sym::v_long(k - 1))); }
inline ZZ RandomBits_ZZ(long l) { return RandomBnd(power2_ZZ(l)); }
inline void conv(ZZ& x, const ZZ& a) { x = a; }
template<class T> inline typename std::enable_if<isI<T>::value>::type conv(ZZ& x, const T& a) { x.v = SI_(a).v; }
inline void conv(ZZ& x, const char* s) { x.v = sym::v_dec(s); }
inline void conv(ZZ& x, double a) { x.v = sym::v_long((long)std::floor(a)); }
inline void conv(long& x, const ZZ& a) { x = (long)sym::v_getulong(sym::v_concretize_val(a.v)); }
inline void conv(int& x, const ZZ& a) { x = (int)sym::v_getulong(sym::v_concretize_val(a.v)); }
inline void conv(unsigned long& x, const ZZ& a) { x = sym::v_getulong(sym::v_concretize_val(a.v)); }
inline void conv(unsigned int& x, const ZZ& a) { x = (unsigned)sym::v_getulong(sym::v_concretize_val(a.v)); }
inline void conv(SI64& x, const ZZ& a) { x.v = sym::low64s(a.v); }
inline void conv(SLimb& x, const ZZ& a) { x.v = sym::low64u(a.v); }
inline void conv(double& x, const ZZ& a) { x = sym::v_double(sym::v_concretize_val(a.v)); }
template<class T> inline typename std::enable_if<isI<T>::value, ZZ>::type to_ZZ(const T& a) { return ZZ(a); }
inline const ZZ& to_ZZ(const ZZ& a) { return a; }
inline ZZ to_ZZ(const char* s) { return mkZ(sym::v_dec(s)); }
inline SI64 to_long(const ZZ& a) { SI64 x; conv(x, a); return x; }
inline int to_int(const ZZ& a) { int x; conv(x, a); return x; }
inline SLimb to_ulong(const ZZ& a) { SLimb x; conv(x, a); return x; }
inline unsigned to_uint(const ZZ& a) { unsigned x; conv(x, a); return x; }
inline double to_double(const ZZ& a) { double x; conv(x, a); return x; }
inline double log(const ZZ& a) { return std::log(to_double(a)); }
inline void BytesFromZZ(unsigned char* p, const ZZ& a, long n) { sym::bytes_store(p, n, abs(a).v); }
inline void ZZFromBytes(ZZ& x, const unsigned char* p, long n) { x.v = sym::bytes_load(p, n, false); }
inline ZZ ZZFromBytes(const unsigned char* p, long n) { ZZ x; ZZFromBytes(x, p, n); return x; }
inline std::ostream& operator<<(std::ostream& s, const ZZ& a) { return sym::put(s, a.v); }
inline std::istream& operator>>(std::istream& s, ZZ& a) { Val v; if (sym::get(s, v)) a.v = v; return s; }

// ---------------------------------------------------------------- modular scalars
class ZZ_pContext; 
struct ModState { Val m; bool set; };
extern ModState g_ZZ_p, g_zz_p;
class ZZ_p {
public:
  Val v;
  typedef ZZ rep_type; typedef ZZ_pContext context_type;
  ZZ_p() { v.t = 0; }
  template<class T, class = typename std::enable_if<isI<T>::value>::type> explicit ZZ_p(const T& a) { v = red(SI_(a).v); }
  ZZ_p(INIT_VAL_TYPE, const ZA& a) { v = red(a.v); }
  ZZ_p(INIT_ALLOC_TYPE) { v.t = 0; } ZZ_p(INIT_NO_ALLOC_TYPE) { v.t = 0; }
  ZZ_p(const ZZ_p& a) { v = a.v; }
  ZZ_p& operator=(const ZZ_p& a) { v = a.v; return *this; }
  ZZ_p& operator=(SI_ a) { v = red(a.v); return *this; }
  static Val M() { if (!g_ZZ_p.set) { sym::fail("ZZ_p modulus not set"); sym::end_path(); } return g_ZZ_p.m; }
  static Val red(Val x) { return sym::v_redc(x, M()); }
  static void init(const ZZ& p) { g_ZZ_p.m = sym::v_isconst(p.v) ? p.v : sym::v_concretize_val(p.v); g_ZZ_p.set = true; }
  static ZZ modulus() { return mkZ(M()); }
  static long ModulusSize() { return modulus().size(); }
  static const ZZ_p& zero() { static ZZ_p z; return z; }
  static ZZ_p raw(Val a) { ZZ_p r; r.v = a; return r; }
  void swap(ZZ_p& o) { Val t = v; v = o.v; o.v = t; }
  ZZ LoopHole() const { return mkZ(sym::v_mod(v, M())); }
  void allocate() {}
};
class zz_p {
public:
  Val v;
  typedef long rep_type;
  zz_p() { v.t = 0; }
  template<class T, class = typename std::enable_if<isI<T>::value>::type> explicit zz_p(const T& a) { v = red(SI_(a).v); }
  zz_p(INIT_VAL_TYPE, const ZA& a) { v = red(a.v); }
  zz_p(const zz_p& a) { v = a.v; }
  zz_p& operator=(const zz_p& a) { v = a.v; return *this; }
  zz_p& operator=(SI_ a) { v = red(a.v); return *this; }
  static Val M() { if (!g_zz_p.set) { sym::fail("zz_p modulus not set"); sym::end_path(); } return g_zz_p.m; }
  static Val red(Val x) { return sym::v_redc(x, M()); }
  template<class T> static void init(const T& p, long = 0) { g_zz_p.m = sym::v_long((long)SI64(p)); g_zz_p.set = true; }
  static void FFTInit(long) {} 
  static long modulus() { return sym::v_getlong(M()); }
  static zz_p zero() { return zz_p(); }
  static zz_p raw(Val a) { zz_p r; r.v = a; return r; }
};
inline ZZ rep(const ZZ_p& a) { return mkZ(sym::v_mod(a.v, ZZ_p::M())); }
inline SI64 rep(const zz_p& a) { return SI64::raw(sym::v_mod(a.v, zz_p::M())); }
class ZZ_pContext { ModState s; public: ZZ_pContext() { s.set = false; s.m.t = 0; } explicit ZZ_pContext(const ZZ& p) { s.m = p.v; s.set = true; } void save() { s = g_ZZ_p; } void restore() const { g_ZZ_p = s; } };
class ZZ_pBak { ModState s; bool must; public: ZZ_pBak() : must(false) {} ~ZZ_pBak() { if (must) g_ZZ_p = s; } void save() { s = g_ZZ_p; must = true; } void restore() { g_ZZ_p = s; must = false; } };
class ZZ_pPush { ModState s; public: ZZ_pPush() : s(g_ZZ_p) {} explicit ZZ_pPush(const ZZ& p) : s(g_ZZ_p) { ZZ_p::init(p); } explicit ZZ_pPush(const ZZ_pContext& c) : s(g_ZZ_p) { c.restore(); } ~ZZ_pPush() { g_ZZ_p = s; } private: ZZ_pPush(const ZZ_pPush&); void operator=(const ZZ_pPush&); };
class zz_pContext { ModState s; public: zz_pContext() { s.set = false; s.m.t = 0; } template<class T, class = typename std::enable_if<isI<T>::value>::type> explicit zz_pContext(const T& p, long = 0) { s.m = sym::v_long((long)SI64(p)); s.set = true; } void save() { s = g_zz_p; } void restore() const { g_zz_p = s; } };
class zz_pBak { ModState s; bool must; public: zz_pBak() : must(false) {} ~zz_pBak() { if (must) g_zz_p = s; } void save() { s = g_zz_p; must = true; } void restore() { g_zz_p = s; must = false; } };
class zz_pPush { ModState s; public: zz_pPush() : s(g_zz_p) {} template<class T, class = typename std::enable_if<isI<T>::value>::type> explicit zz_pPush(const T& p, long = 0) : s(g_zz_p) { zz_p::init(p); } explicit zz_pPush(const zz_pContext& c) : s(g_zz_p) { c.restore(); } ~zz_pPush() { g_zz_p = s; } private: zz_pPush(const zz_pPush&); void operator=(const zz_pPush&); };

#define MODTYPE(T) \
template<class A, class B> struct ok_##T : std::integral_constant<bool, (std::is_same<A, T>::value && (std::is_same<B, T>::value || isI<B>::value)) || (std::is_same<B, T>::value && isI<A>::value)> {}; \
struct A_##T { Val v; A_##T(const T& a) : v(a.v) {} template<class X, class = typename std::enable_if<isI<X>::value>::type> A_##T(const X& a) : v(SI_(a).v) {} }; \
template<class A, class B> inline typename std::enable_if<ok_##T<A, B>::value, T>::type operator+(const A& a_, const B& b_) { A_##T a(a_), b(b_); return T::raw(T::red(sym::v_add(a.v, b.v))); } \
template<class A, class B> inline typename std::enable_if<ok_##T<A, B>::value, T>::type operator-(const A& a_, const B& b_) { A_##T a(a_), b(b_); return T::raw(T::red(sym::v_sub(a.v, b.v))); } \
template<class A, class B> inline typename std::enable_if<ok_##T<A, B>::value, T>::type operator*(const A& a_, const B& b_) { A_##T a(a_), b(b_); return T::raw(T::red(sym::v_mul(a.v, b.v))); } \
template<class A, class B> inline typename std::enable_if<ok_##T<A, B>::value, T>::type operator/(const A& a_, const B& b_) { A_##T a(a_), b(b_); return T::raw(T::red(sym::v_mul(a.v, sym_inv(b.v, T::M())))); } \
template<class A, class B> inline typename std::enable_if<ok_##T<A, B>::value, bool>::type operator==(const A& a_, const B& b_) { A_##T a(a_), b(b_); return sym::decide(sym::sb_eqmod(a.v, b.v, T::M())); } \
template<class A, class B> inline typename std::enable_if<ok_##T<A, B>::value, bool>::type operator!=(const A& a_, const B& b_) { A_##T a(a_), b(b_); return !sym::decide(sym::sb_eqmod(a.v, b.v, T::M())); } \
inline T operator-(const T& a) { return T::raw(T::red(sym::v_neg(a.v))); } \
inline T& operator+=(T& a, const A_##T& b) { a.v = T::red(sym::v_add(a.v, b.v)); return a; } \
inline T& operator-=(T& a, const A_##T& b) { a.v = T::red(sym::v_sub(a.v, b.v)); return a; } \
inline T& operator*=(T& a, const A_##T& b) { a.v = T::red(sym::v_mul(a.v, b.v)); return a; } \
inline T& operator/=(T& a, const A_##T& b) { a.v = T::red(sym::v_mul(a.v, sym_inv(b.v, T::M()))); return a; } \
inline T& operator++(T& a) { return a += 1; } inline T& operator--(T& a) { return a -= 1; } \
inline void operator++(T& a, int) { a += 1; } inline void operator--(T& a, int) { a -= 1; } \
inline void add(T& x, const A_##T& a, const A_##T& b) { x.v = T::red(sym::v_add(a.v, b.v)); } \
inline void sub(T& x, const A_##T& a, const A_##T& b) { x.v = T::red(sym::v_sub(a.v, b.v)); } \
inline void mul(T& x, const A_##T& a, const A_##T& b) { x.v = T::red(sym::v_mul(a.v, b.v)); } \
inline void div(T& x, const A_##T& a, const A_##T& b) { x.v = T::red(sym::v_mul(a.v, sym_inv(b.v, T::M()))); } \
inline void sqr(T& x, const T& a) { x = a * a; } inline T sqr(const T& a) { return a * a; } \
inline void negate(T& x, const T& a) { x = -a; } \
inline void inv(T& x, const T& a) { x.v = T::red(sym_inv(a.v, T::M())); } inline T inv(const T& a) { T x; inv(x, a); return x; } \
inline void power(T& x, const T& a, long e) { T b = a; if (e < 0) { b = inv(a); e = -e; } T r; r = 1; while (e) { if (e & 1) r *= b; e >>= 1; if (e) b *= b; } x = r; } \
inline T power(const T& a, long e) { T x; power(x, a, e); return x; } \
inline void power(T& x, const T& a, const ZZ& e) { power(x, a, (long)conv<long>(e)); } inline T power(const T& a, const ZZ& e) { T x; power(x, a, e); return x; } \
inline void clear(T& x) { x.v.t = 0; } inline void set(T& x) { x = 1; } \
inline void swap(T& a, T& b) { Val t = a.v; a.v = b.v; b.v = t; } \
inline long IsZero(const T& a) { return sym::decide(sym::sb_eqmod(a.v, sym::v_long(0), T::M())); } \
inline long IsOne(const T& a) { return sym::decide(sym::sb_eqmod(a.v, sym::v_long(1), T::M())); } \
inline void conv(T& x, const T& a) { x = a; } \
template<class I> inline typename std::enable_if<isI<I>::value>::type conv(T& x, const I& a) { x.v = T::red(SI_(a).v); } \
inline void conv(T& x, const ZZ& a) { x.v = T::red(a.v); } \
inline void conv(ZZ& x, const T& a) { x.v = sym::v_mod(a.v, T::M()); } \
template<class I> inline typename std::enable_if<isI<I>::value, T>::type to_##T(const I& a) { T x; conv(x, a); return x; } \
inline T to_##T(const ZZ& a) { T x; conv(x, a); return x; } \
inline void random(T& x) { x.v = sym::v_fresh("rnd", sym::v_long(0), sym::v_sub(T::M(), sym::v_long(1))); } \
inline T random_##T() { T x; random(x); return x; } \
inline std::ostream& operator<<(std::ostream& s, const T& a) { return sym::put(s, sym::v_mod(a.v, T::M())); } \
inline std::istream& operator>>(std::istream& s, T& a) { Val v; if (sym::get(s, v)) a.v = T::red(v); return s; }
MODTYPE(ZZ_p)
MODTYPE(zz_p)
inline ZZ to_ZZ(const ZZ_p& a) { return rep(a); }
inline void conv(long& x, const zz_p& a) { x = (long)rep(a); }
inline void conv(SI64& x, const zz_p& a) { x = rep(a); }
inline void conv(SLimb& x, const zz_p& a) { x = SLimb(rep(a)); }
inline void conv(long& x, const ZZ_p& a) { conv(x, rep(a)); }
inline void conv(SI64& x, const ZZ_p& a) { conv(x, rep(a)); }
inline void conv(SLimb& x, const ZZ_p& a) { conv(x, rep(a)); }
inline void conv(ZZ_p& x, const zz_p& a) { x.v = ZZ_p::red(rep(a).v); }
inline void conv(zz_p& x, const ZZ_p& a) { x.v = zz_p::red(rep(a).v); }

// ---------------------------------------------------------------- vectors and matrices
#define VECMAT(T) \
typedef Vec<T> vec_##T; typedef Mat<T> mat_##T; typedef Vec<Vec<T> > vec_vec_##T; typedef Vec<Mat<T> > vec_mat_##T; \
inline void clear(Vec<T>& x) { for (long i = 0; i < x.length(); ++i) clear(x[i]); } \
inline long IsZero(const Vec<T>& a) { for (long i = 0; i < a.length(); ++i) if (!IsZero(a[i])) return 0; return 1; } \
inline void VCHK_(const Vec<T>& a, const Vec<T>& b) { if (a.length() != b.length()) TerminalError("vector: dimension mismatch"); } \
inline void add(Vec<T>& x, const Vec<T>& a, const Vec<T>& b) { VCHK_(a, b); Vec<T> r; r.SetLength(a.length()); for (long i = 0; i < a.length(); ++i) add(r[i], a[i], b[i]); x = r; } \
inline void sub(Vec<T>& x, const Vec<T>& a, const Vec<T>& b) { VCHK_(a, b); Vec<T> r; r.SetLength(a.length()); for (long i = 0; i < a.length(); ++i) sub(r[i], a[i], b[i]); x = r; } \
inline void negate(Vec<T>& x, const Vec<T>& a) { Vec<T> r; r.SetLength(a.length()); for (long i = 0; i < a.length(); ++i) negate(r[i], a[i]); x = r; } \
inline void mul(Vec<T>& x, const Vec<T>& a, const T& b) { T c = b; Vec<T> r; r.SetLength(a.length()); for (long i = 0; i < a.length(); ++i) mul(r[i], a[i], c); x = r; } \
inline void mul(Vec<T>& x, const T& b, const Vec<T>& a) { mul(x, a, b); } \
template<class I> inline typename std::enable_if<isI<I>::value>::type mul(Vec<T>& x, const Vec<T>& a, const I& b) { T c; c = SI_(b); mul(x, a, c); } \
template<class I> inline typename std::enable_if<isI<I>::value>::type mul(Vec<T>& x, const I& b, const Vec<T>& a) { mul(x, a, b); } \
inline void InnerProduct(T& x, const Vec<T>& a, const Vec<T>& b) { long n = a.length() < b.length() ? a.length() : b.length(); T r, t; for (long i = 0; i < n; ++i) { mul(t, a[i], b[i]); add(r, r, t); } x = r; } \
inline Vec<T> operator+(const Vec<T>& a, const Vec<T>& b) { Vec<T> x; add(x, a, b); return x; } \
inline Vec<T> operator-(const Vec<T>& a, const Vec<T>& b) { Vec<T> x; sub(x, a, b); return x; } \
inline Vec<T> operator-(const Vec<T>& a) { Vec<T> x; negate(x, a); return x; } \
inline T operator*(const Vec<T>& a, const Vec<T>& b) { T x; InnerProduct(x, a, b); return x; } \
inline Vec<T> operator*(const Vec<T>& a, const T& b) { Vec<T> x; mul(x, a, b); return x; } \
inline Vec<T> operator*(const T& b, const Vec<T>& a) { Vec<T> x; mul(x, a, b); return x; } \
template<class I> inline typename std::enable_if<isI<I>::value, Vec<T> >::type operator*(const Vec<T>& a, const I& b) { Vec<T> x; mul(x, a, b); return x; } \
template<class I> inline typename std::enable_if<isI<I>::value, Vec<T> >::type operator*(const I& b, const Vec<T>& a) { Vec<T> x; mul(x, a, b); return x; } \
inline Vec<T>& operator+=(Vec<T>& a, const Vec<T>& b) { add(a, a, b); return a; } \
inline Vec<T>& operator-=(Vec<T>& a, const Vec<T>& b) { sub(a, a, b); return a; } \
inline Vec<T>& operator*=(Vec<T>& a, const T& b) { mul(a, a, b); return a; } \
template<class I> inline typename std::enable_if<isI<I>::value, Vec<T>&>::type operator*=(Vec<T>& a, const I& b) { mul(a, a, b); return a; } \
inline void VectorCopy(Vec<T>& x, const Vec<T>& a, long n) { Vec<T> r; r.SetLength(n); for (long i = 0; i < n && i < a.length(); ++i) r[i] = a[i]; x = r; } \
inline Vec<T> VectorCopy(const Vec<T>& a, long n) { Vec<T> x; VectorCopy(x, a, n); return x; } \
inline void MCHK_(const Mat<T>& a, const Mat<T>& b) { if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) TerminalError("matrix: dimension mismatch"); } \
inline void clear(Mat<T>& x) { for (long i = 0; i < x.NumRows(); ++i) for (long j = 0; j < x.NumCols(); ++j) clear(x[i][j]); } \
inline void ident(Mat<T>& x, long n) { x.SetDims(n, n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (i == j) set(x[i][j]); else clear(x[i][j]); } \
inline Mat<T> ident_mat_##T(long n) { Mat<T> x; ident(x, n); return x; } \
inline long IsZero(const Mat<T>& a) { for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) if (!IsZero(a[i][j])) return 0; return 1; } \
inline long IsDiag(const Mat<T>& a, long n, const T& d) { if (a.NumRows() != n || a.NumCols() != n) return 0; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (i == j ? !IsZero(a[i][j] - d) : !IsZero(a[i][j])) return 0; return 1; } \
inline long IsIdent(const Mat<T>& a, long n) { if (a.NumRows() != n || a.NumCols() != n) return 0; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (i == j ? !IsOne(a[i][j]) : !IsZero(a[i][j])) return 0; return 1; } \
inline void add(Mat<T>& x, const Mat<T>& a, const Mat<T>& b) { MCHK_(a, b); Mat<T> r; r.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) add(r[i][j], a[i][j], b[i][j]); x = r; } \
inline void sub(Mat<T>& x, const Mat<T>& a, const Mat<T>& b) { MCHK_(a, b); Mat<T> r; r.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) sub(r[i][j], a[i][j], b[i][j]); x = r; } \
inline void negate(Mat<T>& x, const Mat<T>& a) { Mat<T> r; r.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) negate(r[i][j], a[i][j]); x = r; } \
inline void mul(Mat<T>& x, const Mat<T>& a, const Mat<T>& b) { if (a.NumCols() != b.NumRows()) TerminalError("matrix mul: dimension mismatch"); Mat<T> r; r.SetDims(a.NumRows(), b.NumCols()); T t; for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < b.NumCols(); ++j) { T acc; for (long k = 0; k < a.NumCols(); ++k) { mul(t, a[i][k], b[k][j]); add(acc, acc, t); } r[i][j] = acc; } x = r; } \
inline void mul(Vec<T>& x, const Mat<T>& a, const Vec<T>& b) { if (a.NumCols() != b.length()) TerminalError("matrix mul: dimension mismatch"); Vec<T> r; r.SetLength(a.NumRows()); T t; for (long i = 0; i < a.NumRows(); ++i) { T acc; for (long k = 0; k < a.NumCols(); ++k) { mul(t, a[i][k], b[k]); add(acc, acc, t); } r[i] = acc; } x = r; } \
inline void mul(Vec<T>& x, const Vec<T>& b, const Mat<T>& a) { if (a.NumRows() != b.length()) TerminalError("matrix mul: dimension mismatch"); Vec<T> r; r.SetLength(a.NumCols()); T t; for (long i = 0; i < a.NumCols(); ++i) { T acc; for (long k = 0; k < a.NumRows(); ++k) { mul(t, a[k][i], b[k]); add(acc, acc, t); } r[i] = acc; } x = r; } \
inline void mul(Mat<T>& x, const Mat<T>& a, const T& b_) { T b = b_; Mat<T> r; r.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) mul(r[i][j], a[i][j], b); x = r; } \
inline void mul(Mat<T>& x, const T& b, const Mat<T>& a) { mul(x, a, b); } \
template<class I> inline typename std::enable_if<isI<I>::value>::type mul(Mat<T>& x, const Mat<T>& a, const I& b) { T c; c = SI_(b); mul(x, a, c); } \
template<class I> inline typename std::enable_if<isI<I>::value>::type mul(Mat<T>& x, const I& b, const Mat<T>& a) { mul(x, a, b); } \
inline void sqr(Mat<T>& x, const Mat<T>& a) { mul(x, a, a); } inline Mat<T> sqr(const Mat<T>& a) { Mat<T> x; mul(x, a, a); return x; } \
inline void transpose(Mat<T>& x, const Mat<T>& a) { Mat<T> r; r.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) r[j][i] = a[i][j]; x = r; } \
inline Mat<T> transpose(const Mat<T>& a) { Mat<T> x; transpose(x, a); return x; } \
inline Mat<T> operator+(const Mat<T>& a, const Mat<T>& b) { Mat<T> x; add(x, a, b); return x; } \
inline Mat<T> operator-(const Mat<T>& a, const Mat<T>& b) { Mat<T> x; sub(x, a, b); return x; } \
inline Mat<T> operator-(const Mat<T>& a) { Mat<T> x; negate(x, a); return x; } \
inline Mat<T> operator*(const Mat<T>& a, const Mat<T>& b) { Mat<T> x; mul(x, a, b); return x; } \
inline Vec<T> operator*(const Mat<T>& a, const Vec<T>& b) { Vec<T> x; mul(x, a, b); return x; } \
inline Vec<T> operator*(const Vec<T>& a, const Mat<T>& b) { Vec<T> x; mul(x, a, b); return x; } \
inline Mat<T> operator*(const Mat<T>& a, const T& b) { Mat<T> x; mul(x, a, b); return x; } \
inline Mat<T> operator*(const T& b, const Mat<T>& a) { Mat<T> x; mul(x, a, b); return x; } \
template<class I> inline typename std::enable_if<isI<I>::value, Mat<T> >::type operator*(const Mat<T>& a, const I& b) { Mat<T> x; mul(x, a, b); return x; } \
template<class I> inline typename std::enable_if<isI<I>::value, Mat<T> >::type operator*(const I& b, const Mat<T>& a) { Mat<T> x; mul(x, a, b); return x; } \
inline Mat<T>& operator+=(Mat<T>& a, const Mat<T>& b) { add(a, a, b); return a; } \
inline Mat<T>& operator-=(Mat<T>& a, const Mat<T>& b) { sub(a, a, b); return a; } \
inline Mat<T>& operator*=(Mat<T>& a, const Mat<T>& b) { mul(a, a, b); return a; } \
inline Mat<T>& operator*=(Mat<T>& a, const T& b) { mul(a, a, b); return a; } \
template<class I> inline typename std::enable_if<isI<I>::value, Mat<T>&>::type operator*=(Mat<T>& a, const I& b) { mul(a, a, b); return a; } \
inline void power(Mat<T>& x, const Mat<T>& a, long e) { Mat<T> r; ident(r, a.NumRows()); for (long i = 0; i < e; ++i) mul(r, r, a); x = r; } \
inline Mat<T> power(const Mat<T>& a, long e) { Mat<T> x; power(x, a, e); return x; } \
inline void diag(Mat<T>& x, long n, const T& d) { T c = d; x.SetDims(n, n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (i == j) x[i][j] = c; else clear(x[i][j]); } \
inline void determinant(T& d, const Mat<T>& a); \
inline T determinant(const Mat<T>& a) { T d; determinant(d, a); return d; }
VECMAT(ZZ)
VECMAT(ZZ_p)
VECMAT(zz_p)
// determinant: cofactor expansion (sizes here are small), no branching
template<class T> T det_(const Mat<T>& a, std::vector<long>& cols, long row) {
  T r; long n = a.NumRows();
  if (row == n) { set(r); return r; }
  for (size_t c = 0, s = 0; c < cols.size(); ++c) {
    if (cols[c] < 0) continue;
    long j = cols[c]; cols[c] = -1;
    T t = a[row][j] * det_(a, cols, row + 1);
    cols[c] = j;
    if (s++ & 1) r -= t; else r += t;
  }
  return r;
}
template<class T> T detT(const Mat<T>& a) { if (a.NumRows() != a.NumCols()) TerminalError("determinant: nonsquare matrix"); std::vector<long> c; for (long i = 0; i < a.NumCols(); ++i) c.push_back(i); return det_(a, c, 0); }
inline void determinant(ZZ& d, const Mat<ZZ>& a) { d = detT(a); }
inline void determinant(ZZ& d, const Mat<ZZ>& a, long) { d = detT(a); }
inline ZZ determinant(const Mat<ZZ>& a, long) { return detT(a); }
inline void determinant(ZZ_p& d, const Mat<ZZ_p>& a) { d = detT(a); }
inline void determinant(zz_p& d, const Mat<zz_p>& a) { d = detT(a); }
// row echelon form over a field (prime modulus); returns the rank
template<class T> long gaussT(Mat<T>& M, long w) {
  long n = M.NumRows(), l = 0;
  for (long k = 0; k < w && l < n; ++k) {
    long pos = -1;
    for (long i = l; i < n; ++i) if (!IsZero(M[i][k])) { pos = i; break; }
    if (pos < 0) continue;
    if (pos != l) swap(M[pos], M[l]);
    T pi = inv(M[l][k]); 
    for (long i = l + 1; i < n; ++i) {
      T t = M[i][k] * pi;
      for (long j = k + 1; j < M.NumCols(); ++j) M[i][j] -= t * M[l][j];
      clear(M[i][k]);
    }
    ++l;
  }
  return l;
}
template<class T> bool invT(Mat<T>& X, const Mat<T>& A) {   // false when singular
  long n = A.NumRows(); if (n != A.NumCols()) TerminalError("inv: nonsquare matrix");
  Mat<T> M; M.SetDims(n, 2 * n);
  for (long i = 0; i < n; ++i) { for (long j = 0; j < n; ++j) M[i][j] = A[i][j]; set(M[i][n + i]); }
  for (long k = 0; k < n; ++k) {
    long pos = -1;
    for (long i = k; i < n; ++i) if (!IsZero(M[i][k])) { pos = i; break; }
    if (pos < 0) return false;
    if (pos != k) swap(M[pos], M[k]);
    T pi = inv(M[k][k]);
    for (long j = k; j < 2 * n; ++j) M[k][j] *= pi;
    for (long i = 0; i < n; ++i) if (i != k) { T t = M[i][k]; for (long j = k; j < 2 * n; ++j) M[i][j] -= t * M[k][j]; }
  }
  X.SetDims(n, n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) X[i][j] = M[i][n + j];
  return true;
}
#define FIELDMAT(T) \
inline long gauss(Mat<T>& M) { return gaussT(M, M.NumCols()); } inline long gauss(Mat<T>& M, long w) { return gaussT(M, w); } \
inline void inv(Mat<T>& X, const Mat<T>& A) { Mat<T> R; if (!invT(R, A)) TerminalError("inv: non-invertible matrix"); X = R; } \
inline Mat<T> inv(const Mat<T>& A) { Mat<T> X; inv(X, A); return X; } \
inline void inv(T& d, Mat<T>& X, const Mat<T>& A) { d = detT(A); Mat<T> R; if (invT(R, A)) X = R; } \
inline void solve(T& d, Vec<T>& x, const Mat<T>& A, const Vec<T>& b) { Mat<T> R; d = detT(A); if (invT(R, A)) x = b * R; } \
inline void random(Vec<T>& x, long n) { x.SetLength(n); for (long i = 0; i < n; ++i) random(x[i]); } \
inline void random(Mat<T>& x, long n, long m) { x.SetDims(n, m); for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) random(x[i][j]); } \
inline Vec<T> random_vec_##T(long n) { Vec<T> x; random(x, n); return x; } \
inline Mat<T> random_mat_##T(long n, long m) { Mat<T> x; random(x, n, m); return x; }
FIELDMAT(ZZ_p)
FIELDMAT(zz_p)
#define TOVM(T, S) \
inline Vec<T> to_vec_##T(const Vec<S>& a) { Vec<T> x; conv(x, a); return x; } inline Mat<T> to_mat_##T(const Mat<S>& a) { Mat<T> x; conv(x, a); return x; }
TOVM(ZZ, ZZ_p) TOVM(ZZ, zz_p) TOVM(ZZ_p, ZZ) TOVM(zz_p, ZZ)

// ---------------------------------------------------------------- ZZX
class ZZX { public: Vec<ZZ> rep; ZZX() {} ZZX(INIT_SIZE_TYPE, long) {} explicit ZZX(const ZZ& a) { *this = a; } explicit ZZX(long a) { *this = a; }
  ZZX& operator=(const ZZ& a) { rep.SetLength(1); rep[0] = a; normalize(); return *this; } ZZX& operator=(long a) { return *this = ZZ(a); }
  void normalize() { long n = rep.length(); while (n > 0 && NTL::IsZero(rep[n - 1])) --n; rep.SetLength(n); } void kill() { rep.kill(); } void SetMaxLength(long) {}
  void SetLength(long n) { rep.SetLength(n); } ZZ& operator[](long i) { return rep[i]; } const ZZ& operator[](long i) const { return rep[i]; } };
inline long deg(const ZZX& a) { return a.rep.length() - 1; }
inline ZZ coeff(const ZZX& a, long i) { return i < 0 || i > deg(a) ? ZZ() : a.rep[i]; }
inline void GetCoeff(ZZ& x, const ZZX& a, long i) { x = coeff(a, i); }
inline ZZ LeadCoeff(const ZZX& a) { return coeff(a, deg(a)); } inline ZZ ConstTerm(const ZZX& a) { return coeff(a, 0); }
inline void SetCoeff(ZZX& x, long i, const ZZ& a) { long m = deg(x); if (i > m) { x.rep.SetLength(i + 1); for (long j = m + 1; j < i; ++j) clear(x.rep[j]); } x.rep[i] = a; x.normalize(); }
inline void SetCoeff(ZZX& x, long i, long a) { SetCoeff(x, i, ZZ(a)); } inline void SetCoeff(ZZX& x, long i) { SetCoeff(x, i, 1); }
inline void SetX(ZZX& x) { x.rep.kill(); SetCoeff(x, 1); } inline void clear(ZZX& x) { x.rep.SetLength(0); } inline void set(ZZX& x) { x = 1; }
inline long IsZero(const ZZX& a) { return a.rep.length() == 0; } inline long IsOne(const ZZX& a) { return a.rep.length() == 1 && IsOne(a.rep[0]); }
inline void mul(ZZX& x, const ZZX& a, const ZZX& b) { ZZX r; if (!IsZero(a) && !IsZero(b)) { r.rep.SetLength(deg(a) + deg(b) + 1); for (long i = 0; i <= deg(a); ++i) for (long j = 0; j <= deg(b); ++j) r.rep[i + j] += a.rep[i] * b.rep[j]; } r.normalize(); x = r; }
inline void add(ZZX& x, const ZZX& a, const ZZX& b) { ZZX r; long n = a.rep.length() > b.rep.length() ? a.rep.length() : b.rep.length(); r.rep.SetLength(n); for (long i = 0; i < n; ++i) r.rep[i] = coeff(a, i) + coeff(b, i); r.normalize(); x = r; }
inline void sub(ZZX& x, const ZZX& a, const ZZX& b) { ZZX r; long n = a.rep.length() > b.rep.length() ? a.rep.length() : b.rep.length(); r.rep.SetLength(n); for (long i = 0; i < n; ++i) r.rep[i] = coeff(a, i) - coeff(b, i); r.normalize(); x = r; }
inline void mul(ZZX& x, const ZZX& a, const ZZ& b) { ZZX r = a; for (long i = 0; i < r.rep.length(); ++i) r.rep[i] *= b; r.normalize(); x = r; }
inline ZZX operator*(const ZZX& a, const ZZX& b) { ZZX x; mul(x, a, b); return x; } inline ZZX operator+(const ZZX& a, const ZZX& b) { ZZX x; add(x, a, b); return x; } inline ZZX operator-(const ZZX& a, const ZZX& b) { ZZX x; sub(x, a, b); return x; }
inline ZZX operator*(const ZZX& a, const ZZ& b) { ZZX x; mul(x, a, b); return x; } inline ZZX operator*(const ZZX& a, long b) { return a * ZZ(b); }
inline ZZX& operator-=(ZZX& a, const ZZX& b) { sub(a, a, b); return a; } inline ZZX& operator*=(ZZX& a, const ZZ& b) { mul(a, a, b); return a; } inline ZZX& operator*=(ZZX& a, long b) { mul(a, a, ZZ(b)); return a; }
inline ZZX operator*(const ZZ& b, const ZZX& a) { return a * b; } inline ZZX operator*(long b, const ZZX& a) { return a * ZZ(b); } inline ZZX operator-(const ZZX& a) { ZZX z, x; sub(x, z, a); return x; }
inline void LeftShift(ZZX& x, const ZZX& a, long n) { ZZX r; for (long i = 0; i <= deg(a); ++i) if (i + n >= 0) SetCoeff(r, i + n, a.rep[i]); x = r; } inline ZZX operator<<(const ZZX& a, long n) { ZZX x; LeftShift(x, a, n); return x; } inline ZZX operator>>(const ZZX& a, long n) { ZZX x; LeftShift(x, a, -n); return x; }
inline void trunc(ZZX& x, const ZZX& a, long n) { ZZX r; for (long i = 0; i <= deg(a) && i < n; ++i) SetCoeff(r, i, a.rep[i]); x = r; } inline ZZX trunc(const ZZX& a, long n) { ZZX x; trunc(x, a, n); return x; }
inline void reverse(ZZX& x, const ZZX& a, long hi) { ZZX r; for (long i = 0; i <= hi; ++i) SetCoeff(r, hi - i, coeff(a, i)); x = r; } inline void reverse(ZZX& x, const ZZX& a) { reverse(x, a, deg(a)); } inline ZZX reverse(const ZZX& a) { ZZX x; reverse(x, a); return x; } inline ZZX reverse(const ZZX& a, long hi) { ZZX x; reverse(x, a, hi); return x; }
inline ZZX& operator*=(ZZX& a, const ZZX& b) { mul(a, a, b); return a; } inline ZZX& operator+=(ZZX& a, const ZZX& b) { add(a, a, b); return a; }
inline void power(ZZX& x, const ZZX& a, long e) { ZZX r; r = 1; for (long i = 0; i < e; ++i) mul(r, r, a); x = r; } inline ZZX power(const ZZX& a, long e) { ZZX x; power(x, a, e); return x; }
inline bool operator==(const ZZX& a, const ZZX& b) { return a.rep == b.rep; } inline bool operator!=(const ZZX& a, const ZZX& b) { return !(a == b); }
inline void conv(ZZX& x, const Vec<ZZ>& a) { x.rep = a; x.normalize(); } inline void conv(Vec<ZZ>& x, const ZZX& a) { x = a.rep; } inline void conv(ZZX& x, const ZZ& a) { x = a; } inline void conv(ZZX& x, long a) { x = a; } inline void conv(ZZX& x, const ZZX& a) { x = a; }
inline ZZX to_ZZX(const Vec<ZZ>& a) { ZZX x; conv(x, a); return x; } inline ZZX to_ZZX(const ZZ& a) { ZZX x; x = a; return x; } inline const Vec<ZZ>& VectorCopy(const ZZX& a) { return a.rep; }
inline void diff(ZZX& x, const ZZX& a) { ZZX r; long n = deg(a); if (n > 0) { r.rep.SetLength(n); for (long i = 0; i < n; ++i) r.rep[i] = a.rep[i + 1] * (i + 1); r.normalize(); } x = r; }
inline std::ostream& operator<<(std::ostream& s, const ZZX& a) { return s << a.rep; } inline std::istream& operator>>(std::istream& s, ZZX& a) { s >> a.rep; a.normalize(); return s; }
}
#endif
