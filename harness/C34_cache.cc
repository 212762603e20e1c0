// C34: what was asked before does not change an answer
#include "vhs.h"
using namespace vh;
typedef de_Rham_non_degenerate_local LN;
struct Ans { std::vector<long> shape; std::map<std::string, ZZ_p> v; };
static std::string key(const Vec<int64_t>& e) { std::string s; for (long i = 0; i < e.length(); ++i) s += std::to_string((long)e[i]) + ","; return s; }
template<class M> static void put(Ans& a, const std::string& k, const M& m) { a.shape.push_back(m.NumRows()); a.shape.push_back(m.NumCols()); for (long i = 0; i < m.NumRows(); ++i) for (long j = 0; j < m.NumCols(); ++j) a.v[k + ":" + std::to_string(i) + ":" + std::to_string(j)] = conv<ZZ_p>(m[i][j]); }
template<class V> static void putv(Ans& a, const V& m) { a.shape.push_back(m.length()); for (long i = 0; i < m.length(); ++i) a.v[std::to_string(i)] = conv<ZZ_p>(m[i]); }
template<class T> static void puts(Ans& a, const T& m) { for (auto& x : m) put(a, key(x.first), x.second); a.shape.clear(); } // zero matrices may be left out
template<class T> static void putl(Ans& a, const T& m) { for (long i = 0; i < m.length(); ++i) put(a, std::to_string(i), m[i]); }
static void same(const Ans& a, const Ans& b, const string& m) { check(a.shape == b.shape, m + " (shape)"); for (auto& x : a.v) { auto y = b.v.find(x.first); check_eq(y == b.v.end() ? ZZ_p(0) : y->second, x.second, m); } for (auto& y : b.v) if (!a.v.count(y.first)) check_eq(y.second, ZZ_p(0), m); }
static const long NJ = 11, NALL = 28;
static Vec<ZZ_p> GJ, GN; static std::vector<E> V, UN, W;
static Ans ask(LN& D, long op, long arg) {
  Ans a; long n = D.n, d = D.d; E ve = V[arg ? V.size() - 2 : 1], ue(n + 1, 0); for (long i = 0; i <= n; ++i) if (ve[i]) ue[i] = 2 + 3 * i; Vec<int64_t> v = toV(ve), u = toV(ue); Vec<ZZ> z;
  E ne(n + 1, 0); { long s = 0; for (long i = 0; i <= n; ++i) { ne[i] = ve[i]; s += ne[i]; } } Vec<int64_t> w = toV(ne); // multiples of the degree
  switch (op) {
    case 0: putl(a, D.compute_reduction_matrix_J(v)->second); break;
    case 1: putl(a, D.compute_reduction_matrix_J_ZZ(v)->second); break;
    case 2: put(a, "", D.get_reduction_matrix_J(u, v)); break;
    case 3: put(a, "", D.get_reduction_matrix_J_ZZ(u, v)); break;
    case 4: { Vec<ZZ_p> r; D.reduce_vector_J_poly(r, u, v, 2, GJ); putv(a, r); break; }
    case 5: { D.reduce_vector_J_poly_ZZ(z, u, v, 2, conv<Vec<ZZ> >(GJ)); putv(a, z); break; }
    case 6: put(a, "", *D.get_final_reduction_matrix_J(arg ? 1 : n)); break;
    case 7: put(a, "", *D.get_inclusion_matrix_J(D.tuple_list[n][arg ? D.tuple_list[n].length() - 1 : 0])); break;
    case 8: putv(a, D.monomial_to_basis_J(toV(W[arg ? W.size() - 1 : 0]))); break;
    case 9: { auto* S = D.get_solve_J((d - 2) * (n + 1) + 1 + arg); putv(a, S->first); put(a, "s", S->second); break; }
    case 10: D.compute_everything_J(); break;
    case 11: puts(a, D.compute_reduction_matrix_ND(v)->second); break;
    case 12: puts(a, D.compute_reduction_matrix_ND_ZZ(v)->second); break;
    case 13: puts(a, D.compute_reduction_matrix_ND_poly(v)->second); break;
    case 14: puts(a, D.compute_reduction_matrix_ND_poly_ZZ(v)->second); break;
    case 15: put(a, "", D.get_reduction_matrix_ND(w, v)); break;
    case 16: put(a, "", D.get_reduction_matrix_ND_ZZ(w, v)); break;
    case 17: { Vec<ZZ_p> r; D.reduce_vector_ND(r, w, v, GN); putv(a, r); break; }
    case 18: { D.reduce_vector_ND_ZZ(z, w, v, conv<Vec<ZZ> >(GN)); putv(a, z); break; }
    case 19: { Vec<ZZ_p> r; D.reduce_vector_ND_poly(r, w, v, 2, GN); putv(a, r); break; }
    case 20: { D.reduce_vector_ND_poly_ZZ(z, w, v, 2, conv<Vec<ZZ> >(GN)); putv(a, z); break; }
    case 21: put(a, "", *D.get_inclusion_matrix_ND(toV(UN[arg ? UN.size() - 1 : 0]), arg ? n - 1 : 0)); break;
    case 22: put(a, "", *D.get_coKernels_ND_to_basis(toV(UN[arg ? UN.size() - 1 : 0]))); break;
    case 23: putv(a, D.monomial_to_basis_ND(toV(W[arg ? W.size() - 1 : 0]))); break;
    case 24: { auto* S = D.get_solve_ND((d - 1) * (n + 1) + 1 - arg); putv(a, S->first); put(a, "s", S->second); break; }
    case 25: D.compute_everything_ND(arg, !arg); break;
    case 26: put(a, "", *D.get_final_reduction_matrix_J(n)); put(a, "i", *D.get_inclusion_matrix_ND(toV(UN[0]), 0)); break;
    case 27: D.compute_everything_ND(!arg, arg); D.compute_everything_J(); break;
  }
  return a; }
void harness() { wide();
  static const long which[] = {0, 1, 7, 3, 4}; long ci = choose("f", 0, 4); Curve c = curve(which[ci]); long n = c.n, d = c.d, p = c.p, N = choose("N", 1, n == 1 ? 2 : 1); if (!tier && ci && ci != 3 && N == 2) finish(); bool mem = choose("save_memory", 0, 1);
  zz_p::init(p); ZZ_p::init(power_ZZ(p, N)); RPol f = lift(c, N, 1); LN F(p, N, f, false, mem);
  V = exps(n + 1, d); for (auto& e : exps(n + 1, d)) if (epos(e, 1)) UN.push_back(e); for (auto& e : exps(n + 1, 2 * d)) if (epos(e, 1)) W.push_back(e);
  GJ = in_vec_ZZ_p("G", F.tuple_list[d * n - n].length()); GN = in_vec_ZZ_p("H", F.coKernels_ND_basis.length());
  long len = n == 1 || tier ? 2 : 1; LN A = F; std::vector<long> did; long later = choose("save_memory_later", 0, 1); if (later) { if (n > 1) finish(); A.save_memory = !mem; }
  for (long i = 0; i < len; ++i) { long op = choose(nm("op", i), 0, NALL - 1), arg = op == 26 ? 0 : choose(nm("arg", i), 0, 1); if (i && arg != (op + did[0]) % 2) finish(); if (i && !tier && (did[0] + 3 * op + 4 * mem + 8 * later + 2 * ci) % 14) finish(); did.push_back(op); Ans x = ask(A, op, arg); LN B = F; same(ask(B, op, arg), x, "answer after other requests"); }
  for (long op = 0; op < NALL - 1; ++op) { if (op == 10 || op == 25) continue; long arg = (op + did[0]) % 2; LN B = F, C = A; Ans x = ask(B, op, arg), y = ask(C, op, arg); same(x, y, "answer after other requests"); same(x, ask(C, op, arg), "the same question again"); }
  check_pol(toPol(A.f), toPol(F.f), "the polynomial"); reach(n == 1 ? "line" : "plane");
}
