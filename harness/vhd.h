// polynomials with concrete residue and symbolic lift; polynomial arithmetic for oracles
#ifndef VHD_H
#define VHD_H
#include "vh.h"
#include "tools.h"
#include "vec_int64.h"
namespace vh {
typedef std::vector<long> E;
typedef std::map<E, ZZ_p> Pol;                       // independent of the repository's order
typedef std::map<Vec<int64_t>, ZZ_p, vi64less> RPol; // the repository's type
inline E toE(const Vec<int64_t>& v) { E e(v.length()); for (long i = 0; i < v.length(); ++i) e[i] = (long)v[i]; return e; }
inline Vec<int64_t> toV(const E& e) { Vec<int64_t> v; v.SetLength(e.size()); for (size_t i = 0; i < e.size(); ++i) v[i] = e[i]; return v; }
inline E eadd(const E& a, const E& b) { E r(a); for (size_t i = 0; i < a.size(); ++i) r[i] += b[i]; return r; }
inline E esub(const E& a, const E& b) { E r(a); for (size_t i = 0; i < a.size(); ++i) r[i] -= b[i]; return r; }
inline long edeg(const E& a) { long s = 0; for (long x : a) s += x; return s; }
inline bool epos(const E& a, long m = 0) { for (long x : a) if (x < m) return false; return true; }
inline E unit(long n, long i) { E e(n, 0); e[i] = 1; return e; }
inline void allexp(long n, long d, std::vector<E>& out, E pre = E()) { if ((long)pre.size() == n - 1) { pre.push_back(d); out.push_back(pre); return; } for (long i = 0; i <= d; ++i) { E q(pre); q.push_back(i); allexp(n, d - i, out, q); } }
inline std::vector<E> exps(long n, long d) { std::vector<E> r; if (d >= 0) allexp(n, d, r); return r; }
inline void acc(Pol& p, const E& e, const ZZ_p& c) { auto it = p.find(e); if (it == p.end()) p[e] = c; else it->second += c; }
inline Pol pmul(const Pol& a, const Pol& b) { Pol r; for (auto& x : a) for (auto& y : b) acc(r, eadd(x.first, y.first), x.second * y.second); return r; }
inline Pol pdiff(const Pol& a, long i) { Pol r; for (auto& x : a) if (x.first[i] > 0) { E e(x.first); long k = e[i]--; acc(r, e, k * x.second); } return r; }
inline ZZ_p coef(const Pol& p, const E& e) { auto it = p.find(e); return it == p.end() ? ZZ_p(0) : it->second; }
inline Pol toPol(const RPol& f) { Pol r; for (auto it = f.begin(); it != f.end(); ++it) acc(r, toE(it->first), it->second); return r; }
inline void check_pol(const Pol& a, const Pol& b, const string& m) { for (auto& x : a) check_eq(x.second, coef(b, x.first), m); for (auto& x : b) if (!a.count(x.first)) check_eq(x.second, ZZ_p(0), m); }
struct Curve { long n, d, p; std::vector<std::pair<E, long> > t; };
// lift of the chosen residue polynomial: every coefficient of degree d gets p times a free multiple
inline RPol lift(const Curve& c, long N, long free_, bool zeros = false) { // zeros: the free ones are taken among the coefficients divisible by p, if there are any
  RPol f; std::map<E, long> base; for (auto& x : c.t) base[x.first] = x.second;
  std::vector<E> all = exps(c.n + 1, c.d); long k = 0; bool some = false; for (auto& e : all) some = some || !base.count(e) || base[e] % c.p == 0; zeros = zeros && some;
  for (auto& e : all) { ZZ_p v; conv(v, ZZ(base.count(e) ? base[e] : 0)); bool has = base.count(e); bool skip = zeros && has && base[e] % c.p; if (N > 1 && !skip && (free_ < 0 || k < free_) ) { v += conv<ZZ_p>(c.p * in_ZZ(nm("g", k), ZZ(0), power_ZZ(c.p, N - 1) - 1)); has = true; } if (!skip) ++k; if (has) f[toV(e)] = v; }
  return f; }
// smooth and non-degenerate over F_p
inline Curve curve(long i) {
  switch (i) {
    case 0: return {1, 2, 3, {{{2, 0}, 1}, {{1, 1}, 1}, {{0, 2}, 2}}};
    case 1: return {1, 3, 5, {{{3, 0}, 2}, {{2, 1}, 1}, {{0, 3}, 1}, {{1, 2}, 3}}};
    case 2: return {1, 4, 3, {{{4, 0}, 1}, {{1, 3}, 2}, {{0, 4}, 1}, {{2, 2}, 0}}};
    case 3: return {2, 3, 5, {{{3, 0, 0}, 1}, {{0, 3, 0}, 2}, {{0, 0, 3}, 3}, {{1, 1, 1}, 1}, {{2, 1, 0}, 1}}};
    case 4: return {2, 3, 2, {{{3, 0, 0}, 1}, {{0, 3, 0}, 1}, {{0, 0, 3}, 1}, {{1, 1, 1}, 0}}};
    case 5: return {2, 3, 7, {{{3, 0, 0}, 1}, {{0, 3, 0}, 1}, {{0, 0, 3}, 6}, {{1, 1, 1}, 2}, {{0, 2, 1}, 1}}};
    case 6: return {2, 4, 3, {{{4, 0, 0}, 1}, {{0, 4, 0}, 1}, {{0, 0, 4}, 1}, {{1, 3, 0}, 1}, {{1, 1, 2}, 1}}};
    case 7: return {1, 3, 2, {{{3, 0}, 1}, {{2, 1}, 1}, {{0, 3}, 1}}};
    case 8: return {3, 4, 3, {{{4, 0, 0, 0}, 1}, {{0, 4, 0, 0}, 1}, {{0, 0, 4, 0}, 1}, {{0, 0, 0, 4}, 1}}};
    case 10: return {2, 4, 5, {{{4, 0, 0}, 1}, {{0, 4, 0}, 2}, {{0, 0, 4}, 1}, {{3, 0, 1}, 1}, {{1, 2, 1}, 1}}};
    default: return {1, 2, 7, {{{2, 0}, 1}, {{1, 1}, 2}, {{0, 2}, 3}}};
  }
}
}
#endif
