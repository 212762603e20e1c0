// Scalars of the symbolic build: symbolic signed / unsigned machine words.
#ifndef SYMCORE_H
#define SYMCORE_H
// every standard header the code (or a refactoring of it) may want, before int64_t is redefined
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iomanip>
#include <ios>
#include <iosfwd>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <ostream>
#include <queue>
#include <random>
#include <ratio>
#include <regex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <vector>
#include <assert.h>
#include <math.h>
#include <stdint.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <pthread.h>
#include "../engine/engine.h"

// files are read at open and written at close, so that a case split in between does not share a position
namespace std {
class VIfstream : public std::istringstream { bool op = false; public: VIfstream() {} explicit VIfstream(const char* n, std::ios_base::openmode = std::ios_base::in) { open(n); } explicit VIfstream(const std::string& n, std::ios_base::openmode = std::ios_base::in) { open(n.c_str()); }
  void open(const char* n, std::ios_base::openmode = std::ios_base::in) { clear(); std::ifstream f(n); op = f.is_open(); if (!op) { setstate(std::ios_base::failbit); return; } std::stringstream b; b << f.rdbuf(); str(b.str()); } void open(const std::string& n, std::ios_base::openmode m = std::ios_base::in) { open(n.c_str(), m); } bool is_open() const { return op; } void close() { op = false; } };
class VOfstream : public std::ostringstream { bool op = false; std::string nm_; std::ios_base::openmode mode_; public: VOfstream() {} explicit VOfstream(const char* n, std::ios_base::openmode m = std::ios_base::out) { open(n, m); } explicit VOfstream(const std::string& n, std::ios_base::openmode m = std::ios_base::out) { open(n.c_str(), m); } ~VOfstream() { close(); }
  void open(const char* n, std::ios_base::openmode m = std::ios_base::out) { clear(); str(""); nm_ = n; mode_ = m | std::ios_base::out; std::ofstream f(n, mode_); op = f.is_open(); if (!op) setstate(std::ios_base::failbit); mode_ = (m & std::ios_base::app) ? mode_ : std::ios_base::out | std::ios_base::trunc; } void open(const std::string& n, std::ios_base::openmode m = std::ios_base::out) { open(n.c_str(), m); } bool is_open() const { return op; } void close() { if (!op) return; op = false; std::ofstream f(nm_.c_str(), mode_); f << str(); } };
}
#define ifstream VIfstream
#define ofstream VOfstream
namespace sym {
template<class T> struct is_int : std::integral_constant<bool, std::is_integral<T>::value || std::is_enum<T>::value> {};
template<class T, bool S = std::is_signed<T>::value || std::is_enum<T>::value> struct mkval { static Val f(T x) { return v_long((long)x); } };
template<class T> struct mkval<T, false> { static Val f(T x) { return v_ulong((unsigned long)x); } };
inline Val low64s(Val v) {   // wrap to signed 64 bit
  if (v_isconst(v)) { if (v_fits_long(v)) return v; return v_long((long)v_getulong(v)); }
  static Val two63 = v_dec("9223372036854775808"), two64 = v_dec("18446744073709551616");
  Val lo, hi;
  if (v_interval(v, lo, hi) && v_fits_long(lo) && v_fits_long(hi)) return v;
  return v_sub(v_mod(v_add(v, two63), two64), two63);
}
inline Val low64u(Val v) {
  static Val two64 = v_dec("18446744073709551616"); return v_mod(v, two64);
}
}

struct SI64;
struct SLimb {           // 64-bit unsigned
  sym::Val v;
  SLimb() = default;
  template<class T, class = typename std::enable_if<sym::is_int<T>::value>::type> SLimb(T x) { v = sym::v_ulong((unsigned long)x); }
  SLimb(const SI64& x);
  SLimb(double x) { v = sym::v_ulong((unsigned long)x); }
  static SLimb raw(sym::Val x) { SLimb r; r.v = sym::low64u(x); return r; }
  operator unsigned long() const { return sym::v_getulong(sym::v_concretize_val(v)); }
  explicit operator int() const { return (int)sym::v_getulong(sym::v_concretize_val(v)); }
  explicit operator double() const { return (double)(unsigned long)*this; }
  explicit operator bool() const { return !sym::decide(sym::sb_eq(v, sym::v_long(0))); }
  bool operator!() const { return sym::decide(sym::sb_eq(v, sym::v_long(0))); }
};
// 64-bit signed; used for int64_t in SYM_INT builds and as the type of rep(zz_p) and friends
struct SI64 {
  sym::Val v;
  SI64() = default;
  template<class T, class = typename std::enable_if<sym::is_int<T>::value>::type> SI64(T x) { v = sym::low64s(sym::mkval<T>::f(x)); }
  SI64(const SLimb& x) { v = sym::low64s(x.v); }
  SI64(double x) { v = sym::v_long((long)x); }
  static SI64 raw(sym::Val x) { SI64 r; r.v = x; return r; }
  // result of a signed operation: overflow is undefined behaviour
  static SI64 arith(sym::Val x) {
    using namespace sym;
    if (v_isconst(x)) { if (!v_fits_long(x)) { fail("signed 64-bit overflow"); } SI64 r; r.v = x; return r; }
    Val lo, hi;
    if (!(v_interval(x, lo, hi) && v_fits_long(lo) && v_fits_long(hi)))
      check(sb_and(sb_le(v_long(LONG_MIN), x), sb_le(x, v_long(LONG_MAX))), "signed 64-bit overflow");
    SI64 r; r.v = x; return r;
  }
  operator long() const { return sym::v_concretize(v); }
  explicit operator int() const { return (int)sym::v_concretize(v); }
  explicit operator unsigned() const { return (unsigned)sym::v_concretize(v); }
  explicit operator double() const { return (double)sym::v_concretize(v); }
  explicit operator bool() const { return !sym::decide(sym::sb_eq(v, sym::v_long(0))); }
  bool operator!() const { return sym::decide(sym::sb_eq(v, sym::v_long(0))); }
  SI64 operator-() const { return arith(sym::v_neg(v)); }
  SI64 operator+() const { return *this; }
  SI64& operator++() { return *this = arith(sym::v_add(v, sym::v_long(1))); }
  SI64& operator--() { return *this = arith(sym::v_sub(v, sym::v_long(1))); }
  SI64 operator++(int) { SI64 r = *this; ++*this; return r; }
  SI64 operator--(int) { SI64 r = *this; --*this; return r; }
};
inline SLimb::SLimb(const SI64& x) { v = sym::low64u(x.v); }

namespace sym {
inline SI64 tdiv(SI64 a, SI64 b) {
  if (decide(sb_eq(b.v, v_long(0)))) { fail("integer division by zero"); end_path(); }
  bool na = decide(sb_lt(a.v, v_long(0))), nb = decide(sb_lt(b.v, v_long(0)));
  Val q = v_fdiv(na ? v_neg(a.v) : a.v, nb ? v_neg(b.v) : b.v);
  return SI64::arith(na != nb ? v_neg(q) : q);
}
inline SI64 tmod(SI64 a, SI64 b) {
  if (decide(sb_eq(b.v, v_long(0)))) { fail("integer division by zero"); end_path(); }
  bool na = decide(sb_lt(a.v, v_long(0))), nb = decide(sb_lt(b.v, v_long(0)));
  Val r = v_mod(na ? v_neg(a.v) : a.v, nb ? v_neg(b.v) : b.v);
  return SI64::raw(na ? v_neg(r) : r);
}
inline SLimb udiv(SLimb a, SLimb b) { if (decide(sb_eq(b.v, v_long(0)))) { fail("integer division by zero"); end_path(); } return SLimb::raw(v_fdiv(a.v, b.v)); }
inline SLimb umod(SLimb a, SLimb b) { if (decide(sb_eq(b.v, v_long(0)))) { fail("integer division by zero"); end_path(); } return SLimb::raw(v_mod(a.v, b.v)); }
// usual arithmetic conversions: unsigned 64-bit wins
template<class A, class B> struct uac { static const bool ok = false; };
template<class T> struct kind { static const int k = is_int<T>::value ? ((sizeof(T) == 8 && std::is_unsigned<T>::value) ? 3 : 1) : 0; };
template<> struct kind<SI64> { static const int k = 2; };
template<> struct kind<SLimb> { static const int k = 4; };
// at least one symbolic operand
template<class A, class B> struct mixed { static const int a = kind<A>::k, b = kind<B>::k;
  static const bool ok = a && b && (a == 2 || a == 4 || b == 2 || b == 4);
  static const bool uns = a >= 3 || b >= 3; 
  typedef typename std::conditional<uns, SLimb, SI64>::type T; };
}
#define SYM_BINOP(op, SE, UE) \
template<class A, class B> inline typename std::enable_if<sym::mixed<A, B>::ok && !sym::mixed<A, B>::uns, SI64>::type operator op(const A& a_, const B& b_) { SI64 a(a_), b(b_); return SE; } \
template<class A, class B> inline typename std::enable_if<sym::mixed<A, B>::ok && sym::mixed<A, B>::uns, SLimb>::type operator op(const A& a_, const B& b_) { SLimb a(a_), b(b_); return UE; }
SYM_BINOP(+, SI64::arith(sym::v_add(a.v, b.v)), SLimb::raw(sym::v_add(a.v, b.v)))
SYM_BINOP(-, SI64::arith(sym::v_sub(a.v, b.v)), SLimb::raw(sym::v_sub(a.v, b.v)))
SYM_BINOP(*, SI64::arith(sym::v_mul(a.v, b.v)), SLimb::raw(sym::v_mul(a.v, b.v)))
SYM_BINOP(/, sym::tdiv(a, b), sym::udiv(a, b))
SYM_BINOP(%, sym::tmod(a, b), sym::umod(a, b))
SYM_BINOP(&, SI64((long)a & (long)b), SLimb((unsigned long)a & (unsigned long)b))
SYM_BINOP(|, SI64((long)a | (long)b), SLimb((unsigned long)a | (unsigned long)b))
SYM_BINOP(^, SI64((long)a ^ (long)b), SLimb((unsigned long)a ^ (unsigned long)b))
template<class B> inline SI64 operator<<(const SI64& a, const B& b) { return SI64::arith(sym::v_mul(a.v, sym::v_long(1L << (long)b))); }
template<class B> inline SI64 operator>>(const SI64& a, const B& b) { return SI64::raw(sym::v_fdiv(a.v, sym::v_long(1L << (long)b))); }
template<class B> inline SLimb operator<<(const SLimb& a, const B& b) { return SLimb::raw(sym::v_mul(a.v, sym::v_ulong(1UL << (unsigned long)b))); }
template<class B> inline SLimb operator>>(const SLimb& a, const B& b) { return SLimb::raw(sym::v_fdiv(a.v, sym::v_ulong(1UL << (unsigned long)b))); }
inline long operator<<(int a, const SI64& b) { return a << (long)b; } inline long operator<<(long a, const SI64& b) { return a << (long)b; } inline long operator>>(int a, const SI64& b) { return a >> (long)b; } inline long operator>>(long a, const SI64& b) { return a >> (long)b; } inline unsigned long operator<<(unsigned long a, const SI64& b) { return a << (long)b; }
#define SYM_CMP(op, E) \
template<class A, class B> inline typename std::enable_if<sym::mixed<A, B>::ok, bool>::type operator op(const A& a_, const B& b_) { typename sym::mixed<A, B>::T a(a_), b(b_); return sym::decide(E); }
SYM_CMP(==, sym::sb_eq(a.v, b.v))
SYM_CMP(!=, sym::sb_not(sym::sb_eq(a.v, b.v)))
SYM_CMP(<, sym::sb_lt(a.v, b.v))
SYM_CMP(<=, sym::sb_le(a.v, b.v))
SYM_CMP(>, sym::sb_lt(b.v, a.v))
SYM_CMP(>=, sym::sb_le(b.v, a.v))
#define SYM_CAS(op) \
template<class B> inline typename std::enable_if<sym::kind<B>::k != 0, SI64&>::type operator op##=(SI64& a, const B& b) { return a = SI64(a op b); } \
template<class B> inline typename std::enable_if<sym::kind<B>::k != 0, SLimb&>::type operator op##=(SLimb& a, const B& b) { return a = SLimb(a op b); }
SYM_CAS(+) SYM_CAS(-) SYM_CAS(*) SYM_CAS(/) SYM_CAS(%) SYM_CAS(&) SYM_CAS(|) SYM_CAS(^) SYM_CAS(<<) SYM_CAS(>>)
inline SLimb& operator++(SLimb& a) { return a = a + 1; }
inline SLimb& operator--(SLimb& a) { return a = a - 1; }
namespace std {
inline SI64 abs(const SI64& a) { return a < 0 ? -a : a; }
inline SI64 max(const SI64& a, long b) { return a < b ? SI64(b) : a; } inline SI64 max(long a, const SI64& b) { return b > a ? b : SI64(a); } inline SI64 min(const SI64& a, long b) { return a > b ? SI64(b) : a; } inline SI64 min(long a, const SI64& b) { return b < a ? b : SI64(a); }
inline void swap(SI64& a, SI64& b) { SI64 t = a; a = b; b = t; }
inline void swap(SLimb& a, SLimb& b) { SLimb t = a; a = b; b = t; }
template<> struct numeric_limits<SI64> : numeric_limits<long> {};
template<> struct numeric_limits<SLimb> : numeric_limits<unsigned long> {};
}
#define SYM_MATH(f) inline double f(const SI64& a) { return ::f((double)(long)a); } inline double f(const SLimb& a) { return ::f((double)(unsigned long)a); }
SYM_MATH(log) SYM_MATH(log2) SYM_MATH(log10) SYM_MATH(sqrt) SYM_MATH(exp) SYM_MATH(floor) SYM_MATH(ceil) SYM_MATH(fabs) SYM_MATH(round) SYM_MATH(trunc) SYM_MATH(cbrt)
template<class A, class B> inline typename std::enable_if<std::is_same<A, SI64>::value || std::is_same<B, SI64>::value, double>::type pow(const A& a, const B& b) { return ::pow((double)a, (double)b); }
namespace std { using ::log; using ::log2; using ::log10; using ::sqrt; using ::exp; using ::floor; using ::ceil; using ::fabs; using ::round; using ::trunc; using ::cbrt; using ::pow; }
namespace sym {
// stream forms: decimal when concrete, @handle when symbolic
inline std::ostream& put(std::ostream& s, Val v) { if (v_isconst(v)) return s << v_decstr(v); return s << "@" << handle_of(v); }
inline bool get(std::istream& s, Val& v) {
  std::istream::sentry se(s); if (!se) return false;
  int c = s.peek();
  if (c == '@') { s.get(); std::string d; while (std::isdigit(s.peek())) d.push_back((char)s.get()); v = from_handle(atol(d.c_str())); return true; }
  std::string d;
  if (c == '-') { d.push_back((char)s.get()); while (s.peek() == ' ') s.get(); if (s.peek() == '@') { s.get(); std::string e; while (std::isdigit(s.peek())) e.push_back((char)s.get()); v = v_neg(from_handle(atol(e.c_str()))); return true; } }
  else if (c == '+') s.get();
  bool any = false;
  while (s.peek() != EOF && std::isdigit(s.peek())) { d.push_back((char)s.get()); any = true; }
  if (!any) { s.setstate(std::ios::failbit); return false; }
  if (s.peek() == EOF) s.clear(s.rdstate() & ~std::ios::failbit);
  v = v_dec(d); return true;
}
}
inline std::ostream& operator<<(std::ostream& s, const SI64& a) { return sym::put(s, a.v); }
inline std::ostream& operator<<(std::ostream& s, const SLimb& a) { return sym::put(s, a.v); }
inline std::istream& operator>>(std::istream& s, SI64& a) { sym::Val v; if (sym::get(s, v)) a.v = v; return s; }
inline std::istream& operator>>(std::istream& s, SLimb& a) { sym::Val v; if (sym::get(s, v)) a.v = v; return s; }

namespace sym {
struct IntArg {   // any machine integer, symbolic or not
  Val v;
  template<class T, class = typename std::enable_if<is_int<T>::value>::type> IntArg(T x) { v = mkval<T>::f(x); }
  IntArg(const SI64& x) { v = x.v; }
  IntArg(const SLimb& x) { v = x.v; }
};
}
namespace sym {
struct Sgn {     // sign of a value; only what is asked is decided
  Val v; Sgn(Val x) { v = x; }
  bool lt() const { return decide(sb_lt(v, v_long(0))); } bool gt() const { return decide(sb_lt(v_long(0), v)); } bool zr() const { return decide(sb_eq(v, v_long(0))); }
  operator long() const { return zr() ? 0 : lt() ? -1 : 1; } operator SI64() const { return SI64((long)*this); }
  template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type operator==(T k) const { return k == (T)-1 ? lt() : k == 0 ? zr() : k == 1 ? gt() : false; }
  template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type operator!=(T k) const { return !(*this == k); }
  template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type operator<(T k) const { return k == 0 ? lt() : k == 1 ? !gt() : k > 0; }
  template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type operator>=(T k) const { return !(*this < k); }
  template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type operator>(T k) const { return k == 0 ? gt() : k == 1 ? false : k < 0 ? (k == (T)-1 ? !lt() : true) : false; }
  template<class T> typename std::enable_if<std::is_integral<T>::value, bool>::type operator<=(T k) const { return !(*this > k); }
  bool operator==(const Sgn& o) const { return (long)*this == (long)o; } bool operator!=(const Sgn& o) const { return (long)*this != (long)o; }
};
extern bool wide_sizes;   // sizes of buffers for values with a known range: the largest one (exact sizes when false)
}
#ifdef SYM_INT
namespace std { using ::SI64; }
#define int64_t SI64
#endif
#endif
