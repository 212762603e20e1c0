// C26: a polynomial written to a stream reads back as the same polynomial
#include <sstream>
#include <string>
#include "vh.h"
#include "tools.h"
using namespace vh;
template<class R> struct In;
template<> struct In<ZZ> { static ZZ get(long i) { return in_ZZ(nm("c", i), -power2_ZZ(200), power2_ZZ(200)); } };
template<> struct In<ZZ_p> { static ZZ_p get(long i) { return in_ZZ_p(nm("c", i)); } };
template<> struct In<zz_p> { static zz_p get(long i) { return in_zz_p(nm("c", i)); } };
template<> struct In<int64_t> { static int64_t get(long i) { return in_i64(nm("c", i), -(1L << 62), 1L << 62); } };
template<class R> struct P_ { typedef std::map<Vec<int64_t>, R, vi64less> T; };
template<class R> static void same(const typename P_<R>::T& a, const typename P_<R>::T& b, const string& m) { check(a.size() == b.size(), m + ": number of terms"); for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y) { check(x->first.length() == y->first.length(), m + ": number of variables"); for (long i = 0; i < x->first.length(); ++i) check_eq(x->first[i], y->first[i], m + ": exponent"); check_eq(x->second, y->second, m + ": coefficient"); } }
static char next(std::istream& s) { s >> std::ws; return (char)s.get(); }
// { (e, ..., e): c, ... }
template<class R> static typename P_<R>::T parse(std::istream& s, long nv) { typename P_<R>::T r; check(next(s) == '{', "printed dictionary starts with a brace"); s >> std::ws; if (s.peek() == '}') { s.get(); return r; } for (;;) { check(next(s) == '(', "printed exponents start with a parenthesis"); Vec<int64_t> v; v.SetLength(nv); for (long i = 0; i < nv; ++i) { s >> v[i]; check(next(s) == (i + 1 < nv ? ',' : ')'), "printed exponents are separated by commas"); } check(next(s) == ':', "printed exponents are followed by a colon"); R c; s >> c; check(!s.fail(), "printed coefficient"); check(r.find(v) == r.end(), "printed term repeated"); r[v] = c; char e = next(s); if (e == '}') return r; check(e == ',', "printed terms are separated by commas"); } }
template<class R> static void go(long terms, long nv, long old) {
  typename P_<R>::T f, g; for (long i = 0; i < terms; ++i) { Vec<int64_t> v = in_vec_i64(nm("e", i), nv, 0, 1 << 20); for (auto& t : f) { B ne = b_(false); for (long k = 0; k < nv; ++k) ne = ne || !beq(t.first[k], v[k]); assume(ne); } f[v] = In<R>::get(i); }
  check((long)f.size() == terms, "distinct terms stay distinct");
  // the target already holds a polynomial
  for (long i = 0; i < old; ++i) { Vec<int64_t> v; v.SetLength(nv); for (long k = 0; k < nv; ++k) v[k] = (i + 1) * (k + 1); g[v] = In<R>::get(10 + i); }
  long form = choose("form", 0, 2); std::stringstream s;
  if (form == 0) { s << f; s >> g; check(!s.fail(), "stream state"); same<R>(f, g, "written and read back"); string rest; s >> rest; check(rest.empty(), "nothing is left in the stream"); }
  else if (form == 1) { s << f << f; typename P_<R>::T h; s >> h; s >> g; same<R>(f, h, "first of two"); same<R>(f, g, "second of two"); }
  else { s <<= f; g = parse<R>(s, nv); same<R>(f, g, "printed as a dictionary"); string rest; s >> rest; check(rest.empty(), "nothing follows the dictionary"); }
  reach(terms ? "terms" : "zero");
}
void harness() {
  long type = choose("type", 0, 3), terms = choose("terms", 0, tier ? 4 : 3), nv = choose("variables", 1, tier ? 4 : 3), old = choose("old", 0, 1);
  if (terms == 3 && nv == 3 && type != 1 && !tier) finish(); if (terms == 4 && (nv > 2 || type != 1)) finish();
  zz_p::init(10007); ZZ_p::init(power_ZZ(10007, 4));
  if (type == 0) go<ZZ>(terms, nv, old); else if (type == 1) go<ZZ_p>(terms, nv, old); else if (type == 2) go<zz_p>(terms, nv, old); else if (terms < 4) go<int64_t>(terms, nv, old);
  // monomials without a coefficient each are refused
  if (terms == 2) { std::stringstream s; Vec<Vec<int64_t>> m; m.SetLength(2); for (long i = 0; i < 2; ++i) { m[i].SetLength(nv); for (long k = 0; k < nv; ++k) m[i][k] = i; } Vec<ZZ> c; c.SetLength(choose("coefficients", 0, 3)); for (long i = 0; i < c.length(); ++i) c[i] = in_ZZ(nm("x", i), ZZ(-5), ZZ(5)); if (c.length() == 2) finish(); s << m << "\n" << c; reach("mismatch"); must_abort("monomials and coefficients differ in number", [&] { P_<ZZ>::T g; s >> g; }); }
}
