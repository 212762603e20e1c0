// C34: Frobenius after any earlier requests to the same hypersurface
#include "vhs.h"
using namespace vh;
typedef hypersurface_non_degenerate X_;
typedef std::vector<Vec<ZZ_p> > Ans;
static Ans rows(const Mat<ZZ_p>& M) { Ans a; for (long i = 0; i < M.NumRows(); ++i) a.push_back(M[i]); return a; }
static Ans ask(X_& X, long op, long arg) {
  auto& D = *X.dR_ND; long nb = D.coKernels_J_basis.length(), c = arg & 1 ? nb - 1 : 0, N = arg & 2 ? 2 : 1; Vec<int64_t> NN; NN.SetLength(X.n); for (long i = 0; i < X.n; ++i) NN[i] = N;
  switch (op) {
    case 0: case 1: case 2: return Ans(1, X.frob_J_ZZ(c, N, op));
    case 3: case 4: return Ans(1, X.frob_J_ZZ_p(c, N, op - 3));
    case 5: case 6: case 7: return Ans(1, X.frob_ND_ZZ(c, N, op - 5));
    case 8: case 9: return Ans(1, X.frob_ND_ZZ_p(c, N, op - 8));
    case 10: return Ans(1, X.frob_ND_flint(c, N));
    case 11: return rows(X.frob_matrix_J(NN));
    case 12: return rows(X.frob_matrix_ND(NN));
    case 13: X.compute_fpow(N + c); return Ans();
    case 14: D.compute_everything_ND(arg & 1, arg & 2); return Ans();
    default: D.monomial_to_basis_ND(toV(E(X.n + 1, X.d))); return Ans(); } }
void harness() { wide();
  static const long which[] = {0, 1, 9}; long ci = choose("f", 0, 2); Curve c = curve(which[ci]); long n = c.n, d = c.d, p = c.p;
  long val = 0; { long top = p * (n + 1) - 1; for (long q = p; q <= top; q *= p) val += top / q; } long prec = std::max(0L, val - (n - 1)) + 1;
  zz_p::init(p); ZZ_p::init(power_ZZ(p, prec)); RPol f = lift(c, prec, 1); auto fresh = [&] { return std::make_shared<X_>(p, prec, f, false); };
  auto A = fresh(); A->dR->save_memory = choose("save_memory", 0, 1); std::vector<std::pair<long, long> > q;
  for (long i = 0; i < 2; ++i) { long op = choose(nm("op", i), 0, 15), arg = choose(nm("arg", i), 0, 3); if (op < 11 && op != 4 && op != 7 && (arg & 1) && ci != 1) finish(); if (op == 15 && arg) finish(); if (i && !tier && (q[0].first + 3 * op + arg + 2 * q[0].second + ci) % (ci ? 24 : 6)) finish(); q.push_back({op, arg}); }
  q.push_back(q[0]);
  for (auto& o : q) { Ans x = ask(*A, o.first, o.second), y = ask(*fresh(), o.first, o.second); check(x.size() == y.size(), "size"); for (size_t i = 0; i < x.size(); ++i) check_eq(x[i], y[i], "Frobenius after other requests"); }
  check_pol(toPol(A->dR->f), toPol(f), "the polynomial"); reach("frob");
}
