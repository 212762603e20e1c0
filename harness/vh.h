// Harness interface.  One source, two builds: symbolic (SYM_BUILD: shim headers
// and engine) and concrete (the real NTL/FLINT/GMP, used to replay).
#ifndef VH_H
#define VH_H
#include <NTL/ZZ.h>
#include <NTL/ZZ_p.h>
#include <NTL/lzz_p.h>
#include <NTL/mat_ZZ.h>
#include <NTL/mat_ZZ_p.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/ZZX.h>
#include <string>
#include <map>
#include <vector>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <functional>
#include <omp.h>
using namespace NTL;
void harness();
extern "C" void vomp_order(int) __attribute__((weak));
extern "C" long vomp_regions() __attribute__((weak));
namespace vh {
using std::string;
extern int tier;                 // 0 quick, 1 thorough
// number of threads of every parallel region, and the order in which they are run where that is under our control
inline void threads(int n, int order = 0) { omp_set_num_threads(n); if (vomp_order) vomp_order(order); }
inline long regions() { return vomp_regions ? vomp_regions() : -1; }
inline string nm(const char* a) { return a; }
inline string nm(const string& a, long i) { return a + "_" + std::to_string(i); }
inline string nm(const string& a, long i, long j) { return a + "_" + std::to_string(i) + "_" + std::to_string(j); }
inline string nm(const string& a, long i, long j, long k) { return nm(nm(a, i, j), k); }
#ifdef SYM_BUILD
inline ZZ in_ZZ(const string& n, const ZZ& lo, const ZZ& hi) { return ZZ::raw(sym::v_sym(n, lo.v, hi.v)); }
inline ZZ_p in_ZZ_p(const string& n) { return ZZ_p::raw(sym::v_sym(n, sym::v_long(0), sym::v_sub(ZZ_p::M(), sym::v_long(1)))); }
inline zz_p in_zz_p(const string& n) { return zz_p::raw(sym::v_sym(n, sym::v_long(0), sym::v_sub(zz_p::M(), sym::v_long(1)))); }
inline SI64 in_i64(const string& n, long lo, long hi) { return SI64::raw(sym::v_sym(n, sym::v_long(lo), sym::v_long(hi))); }
inline long choose(const string& n, long lo, long hi) { return sym::choose(n, lo, hi); }
inline bool truth(bool b) { return b; }
inline void check(bool b, const string& m) { sym::check(sym::sb_const(b), m); }
inline void check_eqv(sym::Val a, sym::Val b, const string& m) { sym::SB e = sym::sb_eq(a, b); bool k; if (sym::sb_isconst(e, k) && k) sym::nf_obligation(a, b, sym::v_long(0)); sym::check(e, m); }
inline void check_eqm(sym::Val a, sym::Val b, sym::Val M, const string& m) { sym::SB e = sym::sb_eqmod(a, b, M); bool k; if (sym::sb_isconst(e, k) && k) sym::nf_obligation(a, b, M); sym::check(e, m); }
inline void check_eq(const ZZ& a, const ZZ& b, const string& m) { check_eqv(a.v, b.v, m); }
inline void check_eq(const ZZ_p& a, const ZZ_p& b, const string& m) { check_eqm(a.v, b.v, ZZ_p::M(), m); }
inline void check_eq(const zz_p& a, const zz_p& b, const string& m) { check_eqm(a.v, b.v, zz_p::M(), m); }
template<class A, class B> inline typename std::enable_if<isI<A>::value && isI<B>::value>::type check_eq(const A& a, const B& b, const string& m) { check_eqv(SI_(a).v, SI_(b).v, m); }
inline void check_eqmod(const ZZ& a, const ZZ& b, const ZZ& M, const string& m) { check_eqm(a.v, b.v, M.v, m); }
inline void check_le(const ZZ& a, const ZZ& b, const string& m) { sym::check(sym::sb_le(a.v, b.v), m); }
inline void assume(bool b) { if (!b) sym::assume(sym::sb_const(false)); }
inline void assume_le(const ZZ& a, const ZZ& b) { sym::assume(sym::sb_le(a.v, b.v)); }
inline void assume_eq(const ZZ& a, const ZZ& b) { sym::assume(sym::sb_eq(a.v, b.v)); }
inline void assume_nonzero(const zz_p& a) { sym::assume(sym::sb_not(sym::sb_eqmod(a.v, sym::v_long(0), zz_p::M()))); }
inline void assume_eqmod(const zz_p& a, const zz_p& b) { sym::assume(sym::sb_eqmod(a.v, b.v, zz_p::M())); }
inline void reach(const string& t) { sym::mark(t); }
inline void preset(const std::vector<long>& v) { sym::fresh_preset = v; } // the draws, repeated in turn
inline void draws(int k) { sym::fresh_limit = k; } // at most k draws of the random generator on a path
inline void bv() { sym::set_mode_bv(true); }
inline void wide() { sym::wide_sizes = true; }
struct B { sym::SB s; };
inline B mkB(sym::SB s) { B r; r.s = s; return r; }
inline B b_(bool x) { return mkB(sym::sb_const(x)); }
template<class X, class Y> inline typename std::enable_if<isI<X>::value && isI<Y>::value, B>::type beq(const X& a, const Y& b) { return mkB(sym::sb_eq(SI_(a).v, SI_(b).v)); }
template<class X, class Y> inline typename std::enable_if<isI<X>::value && isI<Y>::value, B>::type ble(const X& a, const Y& b) { return mkB(sym::sb_le(SI_(a).v, SI_(b).v)); }
template<class X, class Y> inline typename std::enable_if<isI<X>::value && isI<Y>::value, B>::type blt(const X& a, const Y& b) { return mkB(sym::sb_lt(SI_(a).v, SI_(b).v)); }
inline B beq(const ZZ& a, const ZZ& b) { return mkB(sym::sb_eq(a.v, b.v)); }
inline B ble(const ZZ& a, const ZZ& b) { return mkB(sym::sb_le(a.v, b.v)); }
inline B blt(const ZZ& a, const ZZ& b) { return mkB(sym::sb_lt(a.v, b.v)); }
inline B beq(const ZZ_p& a, const ZZ_p& b) { return mkB(sym::sb_eqmod(a.v, b.v, ZZ_p::M())); }
inline B beq(const zz_p& a, const zz_p& b) { return mkB(sym::sb_eqmod(a.v, b.v, zz_p::M())); }
inline B operator!(B a) { return mkB(sym::sb_not(a.s)); }
inline B operator&&(B a, B b) { return mkB(sym::sb_and(a.s, b.s)); }
inline B operator||(B a, B b) { return mkB(sym::sb_or(a.s, b.s)); }
inline void check(B b, const string& m) { sym::check(b.s, m); }
inline void assume(B b) { sym::assume(b.s); }
inline bool decide(B b) { return sym::decide(b.s); }
// f must end by an orderly stop (failed assertion / library error)
inline void must_abort(const string& m, const std::function<void()>& f) { sym::set_expect_abort(2); f(); sym::set_expect_abort(0); sym::fail("no error reported: " + m); sym::end_path(); }
// f may end by an orderly stop; if it returns, execution continues
inline void may_abort(const std::function<void()>& f) { sym::set_expect_abort(1); f(); sym::set_expect_abort(0); }
inline void finish() { sym::end_path(); }
inline bool surely_zero(const ZZ_p& a) { return sym::v_isconst(a.v) && sym::v_isconst(sym::v_mod(a.v, ZZ_p::M())) && sym::v_str(sym::v_mod(a.v, ZZ_p::M())) == "0"; }
#else
string get(const string& n, bool& have);
inline ZZ in_ZZ(const string& n, const ZZ& lo, const ZZ& hi) { bool h; string s = get(n, h); ZZ x = lo > 0 ? lo : hi < 0 ? hi : ZZ(0); if (h) conv(x, s.c_str()); return x; }
inline ZZ_p in_ZZ_p(const string& n) { ZZ_p x; conv(x, in_ZZ(n, ZZ(0), ZZ_p::modulus() - 1)); return x; }
inline zz_p in_zz_p(const string& n) { zz_p x; conv(x, in_ZZ(n, ZZ(0), ZZ(zz_p::modulus() - 1))); return x; }
inline int64_t in_i64(const string& n, long lo, long hi) { return to_long(in_ZZ(n, ZZ(lo), ZZ(hi))); }
inline long choose(const string& n, long lo, long hi) { bool h; string s = get(n, h); return h ? atol(s.c_str()) : lo; }
void bad(const string& m);
inline void check(bool b, const string& m) { if (!b) bad(m); }
template<class A, class B> inline void check_eq_(const A& a, const B& b, const string& m) { if (!(a == b)) { std::cout << "left: " << a << "\nright: " << b << "\n"; bad(m); } }
inline void check_eq(const ZZ& a, const ZZ& b, const string& m) { check_eq_(a, b, m); }
inline void check_eq(const ZZ_p& a, const ZZ_p& b, const string& m) { check_eq_(a, b, m); }
inline void check_eq(const zz_p& a, const zz_p& b, const string& m) { check_eq_(a, b, m); }
inline void check_eq(long a, long b, const string& m) { check_eq_(a, b, m); }
inline void check_eqmod(const ZZ& a, const ZZ& b, const ZZ& M, const string& m) { check_eq_((a - b) % M, ZZ(0), m); }
inline void check_le(const ZZ& a, const ZZ& b, const string& m) { if (!(a <= b)) bad(m); }
void skip();
inline void assume(bool b) { if (!b) skip(); }
inline void assume_le(const ZZ& a, const ZZ& b) { assume(a <= b); }
inline void assume_eq(const ZZ& a, const ZZ& b) { assume(a == b); }
inline void assume_nonzero(const zz_p& a) { assume(!IsZero(a)); }
inline void assume_eqmod(const zz_p& a, const zz_p& b) { assume(a == b); }
inline void reach(const string&) {}
void preset(const std::vector<long>& v);
inline void draws(int) {}
inline void bv() {}
inline void wide() {}
struct B { bool x; };
inline B b_(bool x) { B r; r.x = x; return r; }
template<class X, class Y> inline B beq(const X& a, const Y& b) { return b_(a == b); }
template<class X, class Y> inline B ble(const X& a, const Y& b) { return b_(a <= b); }
template<class X, class Y> inline B blt(const X& a, const Y& b) { return b_(a < b); }
inline B operator!(B a) { return b_(!a.x); }
inline B operator&&(B a, B b) { return b_(a.x && b.x); }
inline B operator||(B a, B b) { return b_(a.x || b.x); }
inline void check(B b, const string& m) { check(b.x, m); }
inline void assume(B b) { assume(b.x); }
inline bool decide(B b) { return b.x; }
void must_abort(const string& m, const std::function<void()>& f);
void may_abort(const std::function<void()>& f);
void finish();
inline bool surely_zero(const ZZ_p& a) { return IsZero(a); }
#endif
template<class T> inline void check_eq(const Vec<T>& a, const Vec<T>& b, const string& m) { check(a.length() == b.length(), m + " (length)"); for (long i = 0; i < a.length(); ++i) check_eq(a[i], b[i], m); }
template<class T> inline void check_eq(const Mat<T>& a, const Mat<T>& b, const string& m) { check(a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols(), m + " (shape)"); for (long i = 0; i < a.NumRows(); ++i) for (long j = 0; j < a.NumCols(); ++j) check_eq(a[i][j], b[i][j], m); }
inline Vec<int64_t> in_vec_i64(const string& n, long len, long lo, long hi) { Vec<int64_t> v; v.SetLength(len); for (long i = 0; i < len; ++i) v[i] = in_i64(nm(n, i), lo, hi); return v; }
template<class T> inline B beqv(const Vec<T>& a, const Vec<T>& b) { B r = b_(a.length() == b.length()); if (a.length() == b.length()) for (long i = 0; i < a.length(); ++i) r = r && beq(a[i], b[i]); return r; }
// lexicographic order, most significant entry first
inline B blex(const Vec<int64_t>& a, const Vec<int64_t>& b) { B r = b_(false), e = b_(true); for (long i = 0; i < a.length(); ++i) { r = r || (e && blt(a[i], b[i])); e = e && beq(a[i], b[i]); } return r; }
inline int64_t sumv(const Vec<int64_t>& a) { int64_t s = 0; for (long i = 0; i < a.length(); ++i) s = s + a[i]; return s; }
inline Vec<ZZ_p> in_vec_ZZ_p(const string& n, long len) { Vec<ZZ_p> v; v.SetLength(len); for (long i = 0; i < len; ++i) v[i] = in_ZZ_p(nm(n, i)); return v; }
inline Vec<zz_p> in_vec_zz_p(const string& n, long len) { Vec<zz_p> v; v.SetLength(len); for (long i = 0; i < len; ++i) v[i] = in_zz_p(nm(n, i)); return v; }
inline Vec<ZZ> in_vec_ZZ(const string& n, long len, const ZZ& lo, const ZZ& hi) { Vec<ZZ> v; v.SetLength(len); for (long i = 0; i < len; ++i) v[i] = in_ZZ(nm(n, i), lo, hi); return v; }
inline Mat<ZZ_p> in_mat_ZZ_p(const string& n, long r, long c) { Mat<ZZ_p> v; v.SetDims(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) v[i][j] = in_ZZ_p(nm(n, i, j)); return v; }
inline Mat<zz_p> in_mat_zz_p(const string& n, long r, long c) { Mat<zz_p> v; v.SetDims(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) v[i][j] = in_zz_p(nm(n, i, j)); return v; }
inline Mat<ZZ> in_mat_ZZ(const string& n, long r, long c, const ZZ& lo, const ZZ& hi) { Mat<ZZ> v; v.SetDims(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) v[i][j] = in_ZZ(nm(n, i, j), lo, hi); return v; }
}
#endif
