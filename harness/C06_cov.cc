// C06: linear changes of variables act as substitution
#include "vh.h"
#include "tools.h"
using namespace vh;
template<class T> struct mk; 
template<> struct mk<zz_p> { static zz_p f(const string& n) { return in_zz_p(n); } };
template<> struct mk<ZZ_p> { static ZZ_p f(const string& n) { return in_ZZ_p(n); } };
template<> struct mk<ZZ> { static ZZ f(const string& n) { return in_ZZ(n, ZZ(-1000), ZZ(1000)); } };
template<class T> static T pw(const T& a, long e) { T r; r = 1; while (e-- > 0) r = r * a; return r; }
template<class T> static T ev(const std::map<Vec<int64_t>, T, vi64less>& f, const Vec<T>& x) {
  T r; clear(r); for (auto it = f.begin(); it != f.end(); ++it) { T m = it->second; for (long i = 0; i < x.length(); ++i) m = m * pw(x[i], it->first[i]); r = r + m; } return r; }
template<class T> void go() {
  long n = choose("n", 1, 3), d = choose("d", 1, n == 3 ? (tier ? 4 : 3) : n == 2 ? 4 : 5);
  long sparse = choose("sparse", 0, 1);
  std::map<Vec<int64_t>, T, vi64less> f; Vec<Vec<int64_t> > mons; tuple_list_generator(mons, d, n);
  for (long i = 0; i < mons.length(); ++i) if (!sparse || i % 3 == 1 || i == 0) f[mons[i]] = mk<T>::f(nm("f", i));
  Mat<T> M; M.SetDims(n, n); Vec<T> x, y; x.SetLength(n); y.SetLength(n);
  for (long i = 0; i < n; ++i) { x[i] = mk<T>::f(nm("x", i)); for (long j = 0; j < n; ++j) M[i][j] = mk<T>::f(nm("M", i, j)); }
  for (long i = 0; i < n; ++i) { clear(y[i]); for (long j = 0; j < n; ++j) y[i] = y[i] + M[i][j] * x[j]; }
  auto g = change_of_variables<T>(f, M);
  for (auto it = g.begin(); it != g.end(); ++it) { long s = 0; check(it->first.length() == n, "monomial length"); for (long i = 0; i < n; ++i) { check(it->first[i] >= 0, "negative exponent"); s += it->first[i]; } check(s == d, "substitution changes the degree"); }
  check_eq(ev(g, x), ev(f, y), "change of variables is not the substitution"); reach("subst");
}
void harness() {
  long t = choose("type", 0, 2);
  if (t == 0) { zz_p::init(7); go<zz_p>(); } else if (t == 1) { ZZ_p::init(power_ZZ(5, 6)); go<ZZ_p>(); } else go<ZZ>();
}
