// C32: objects built from any description of the polynomial
#include "vhs.h"
using namespace vh;
typedef de_Rham_local L; typedef de_Rham_non_degenerate_local LN;
static Pol times(const Pol& a, const E& e) { Pol r; for (auto& x : a) r[eadd(x.first, e)] = x.second; return r; }
// every monomial of the level = sum of multiples of the generators + part supported on the complement
static void splitting(L& D, const std::vector<Pol>& gens, long gd, long level, const std::pair<Vec<int64_t>, Mat<ZZ_p> >& S, long dim, const string& m) {
  auto& rows = D.tuple_list[level]; long R = rows.length(), nc = level >= gd ? D.tuple_list[level - gd].length() : 0;
  check(S.first.length() == dim, m + ": size of the complement"); for (long i = 0; i < dim; ++i) check(S.first[i] >= (i ? S.first[i - 1] + 1 : 0) && S.first[i] < R, m + ": complement");
  check(S.second.NumRows() == (long)gens.size() * nc + dim && S.second.NumCols() == R, m + ": shape");
  for (long c = 0; c < R; ++c) { Pol s;
    for (size_t g = 0; g < gens.size(); ++g) for (long k = 0; k < nc; ++k) { ZZ_p u = S.second[g * nc + k][c]; if (surely_zero(u)) continue; for (auto& x : times(gens[g], toE(D.tuple_list[level - gd][k]))) acc(s, x.first, u * x.second); }
    for (long k = 0; k < dim; ++k) acc(s, toE(rows[S.first[k]]), S.second[gens.size() * nc + k][c]);
    for (long r = 0; r < R; ++r) check_eq(coef(s, toE(rows[r])), ZZ_p(r == c), m + ": every polynomial is split"); for (auto& x : s) check(edeg(x.first) == level, m); } }
// polynomials of degree k in n + 1 variables with all exponents at most e
static long hilb(long n, long e, long k) { if (n < 0) return k == 0; long s = 0; for (long i = 0; i <= e && i <= k; ++i) s += hilb(n - 1, e, k - i); return s; }
static void bas(L& D, const Vec<Vec<int64_t> >& list, const std::map<Vec<int64_t>, int64_t, vi64less>& dict, const std::vector<E>& want, const string& m) {
  check(list.length() == (long)want.size() && dict.size() == want.size(), m + ": size"); for (size_t i = 0; i < want.size(); ++i) { check(toE(list[i]) == want[i], m); auto it = dict.find(list[i]); check(it != dict.end() && it->second == (long)i, m + ": position"); } }
static void whole(L& D, long p, long N, long n, long d, const Pol& P, bool verbose, bool mem) {
  check(D.p == p && D.precision == N && D.n == n && D.d == d, "parameters"); check(D.verbose == verbose && D.save_memory == mem, "options");
  long top = (d - 2) * (n + 1) + 1; check(D.Hilbert_J.length() == top, "length of the Hilbert polynomial"); for (long k = 0; k < D.Hilbert_J.length(); ++k) check(D.Hilbert_J[k] == hilb(n, d - 2, k), "Hilbert polynomial");
  check(D.tuple_list.length() == (n + 1) * d + 1 && D.tuple_dict.length() == D.tuple_list.length(), "monomial lists");
  for (long k = 0; k < D.tuple_list.length(); ++k) { auto& l = D.tuple_list[k]; auto& m = D.tuple_dict[k]; check(l.length() == (long)exps(n + 1, k).size() && (long)m.size() == l.length(), "number of monomials"); for (long j = 0; j < l.length(); ++j) { E e = toE(l[j]); check((long)e.size() == n + 1 && edeg(e) == k && epos(e), "monomial"); auto it = m.find(l[j]); check(it != m.end() && it->second == j, "lookup of a monomial"); } }
  check_pol(toPol(D.f), P, "the polynomial"); for (auto& t : D.f) check(t.first.length() == n + 1 && edeg(toE(t.first)) == d, "terms of the polynomial");
  for (auto& e : exps(n + 1, d)) { zz_p b; conv(b, rep(coef(P, e))); check_eq(atq(D.fbar, toV(e)), b, "the polynomial modulo p"); }
  std::vector<Pol> G; for (long i = 0; i <= n; ++i) G.push_back(pdiff(P, i));
  std::vector<E> B;
  for (long k = 1; k <= n; ++k) { long l = k * d - n - 1; if (l < 0) continue; auto* S = D.get_solve_J(l); splitting(D, G, d - 1, l, *S, hilb(n, d - 2, l), "relations"); for (long i = 0; i < S->first.length(); ++i) B.push_back(toE(D.tuple_list[l][S->first[i]])); }
  bas(D, D.coKernels_J_basis, D.coKernels_J_basis_dict, B, "cohomology basis");
  splitting(D, G, d - 1, top, *D.get_solve_J(top), 0, "relations in the top degree"); }
static void wholeND(LN& D, long n, long d, const Pol& P) {
  long top = (d - 1) * (n + 1) + 1; check(D.Hilbert_ND.length() == top, "length of the second Hilbert polynomial"); for (long k = 0; k < D.Hilbert_ND.length(); ++k) check(D.Hilbert_ND[k] == hilb(n, d - 1, k), "second Hilbert polynomial");
  std::vector<Pol> G; for (long i = 0; i <= n; ++i) G.push_back(times(pdiff(P, i), unit(n + 1, i)));
  std::vector<E> B;
  for (long k = 0; k <= n; ++k) { long l = k * d; auto* S = D.get_solve_ND(l); splitting(D, G, d, l, *S, hilb(n, d - 1, l), "toric relations"); for (long i = 0; i < S->first.length(); ++i) B.push_back(toE(D.tuple_list[l][S->first[i]])); }
  bas(D, D.coKernels_ND_basis, D.coKernels_ND_basis_dict, B, "toric basis");
  splitting(D, G, d, top, *D.get_solve_ND(top), 0, "toric relations in the top degree"); }
static void global_(hypersurface& X, long p, long N, long n, long d, bool vb) {
  check(X.p == p && X.precision == N && X.n == n && X.d == d && X.verbose == vb, "parameters of the hypersurface");
  check(X.fpow.length() == 1 && X.fpow[0].size() == 1, "powers"); auto& t = *X.fpow[0].begin(); check(toE(t.first) == E(n + 1, 0), "zeroth power"); check_eq(t.second, ZZ_p(1), "zeroth power"); }
#define BUILD(X, ...) (way == 0 ? new X(p, N, f, __VA_ARGS__) : way == 1 ? new X(p, N, n, d, fv, __VA_ARGS__) : way == 2 ? new X(p, N, g, __VA_ARGS__) : way == 3 ? new X(p, N, n, d, gv, __VA_ARGS__) : new X(p, N, n, d, __VA_ARGS__))
void harness() { wide();
  static const long which[] = {0, 1, 9, 7, 3, 5, 2, 6, 4};
  long way = choose("way", 0, 4), cls = choose("class", 0, 3); bool nd = cls & 1, local = cls < 2, vb = choose("verbose", 0, 1), mem = local ? choose("save_memory", 0, 1) : true;
  long n, d, p, N; RPol f; Pol P; Vec<ZZ_p> fv; QPol g; Vec<zz_p> gv;
  if (way < 4) {
    Curve c = curve(which[choose("f", 0, tier ? 8 : 5)]); n = c.n; d = c.d; p = c.p; N = choose("N", 1, n == 1 ? 3 : 2); if (nd && d % p == 0) finish(); if (nd && p == 2 && d % 2 == 0) finish();
    if (n == 2 && (vb != (way % 2 == 1) || mem == (N == 2))) finish();
    zz_p::init(p); ZZ_p::init(power_ZZ(p, N)); bool naive = way > 1; f = lift(c, N, naive ? 0 : n == 1 ? (N > 2 ? 1 : 2) : tier ? 2 : 1);
    P = toPol(f); Vec<Vec<int64_t> > order; tuple_list_generator(order, d, n + 1); fv.SetLength(order.length()); gv.SetLength(order.length());
    for (long i = 0; i < order.length(); ++i) { fv[i] = coef(P, toE(order[i])); conv(gv[i], rep(fv[i])); }
    for (auto& t : f) { zz_p b; conv(b, rep(t.second)); g[t.first] = b; }
  } else {
    static const long ps[] = {3, 2, 5, 7}; n = 1; d = choose("d", 2, 3); p = ps[choose("p", 0, tier ? 3 : 2)]; N = choose("N", 1, 2); if (d % p == 0) finish(); if (p > 3 && (d == 3 || vb || mem) && !tier) finish();
    if (nd && p == 2) finish(); bv(); draws((d + 1) * (tier ? 2 : 1)); zz_p::init(p); ZZ_p::init(power_ZZ(p, N)); }
  auto pol = [&](L& D) { return way < 4 ? P : toPol(D.f); };
  if (cls == 0) { L* D = BUILD(L, vb, mem); whole(*D, p, N, n, d, pol(*D), vb, mem); delete D; }
  else if (cls == 1) { LN* D = BUILD(LN, vb, mem); Pol Q = pol(*D); whole(*D, p, N, n, d, Q, vb, mem); wholeND(*D, n, d, Q); delete D; }
  else if (cls == 2) { hypersurface* X = BUILD(hypersurface, vb); global_(*X, p, N, n, d, vb); whole(*X->dR, p, N, n, d, pol(*X->dR), vb, X->dR->save_memory); delete X; }
  else { hypersurface_non_degenerate* X = BUILD(hypersurface_non_degenerate, vb); global_(*X, p, N, n, d, vb); check(X->dR == X->dR_ND, "one local object"); Pol Q = pol(*X->dR_ND); whole(*X->dR_ND, p, N, n, d, Q, vb, X->dR_ND->save_memory); wholeND(*X->dR_ND, n, d, Q); delete X; }
  reach(way == 4 ? "random" : nd ? "ND" : "J");
}
