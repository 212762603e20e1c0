// C25: what is saved to a file is what is loaded from it
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include "vhs.h"
using namespace vh;
static string back_;
static std::vector<string> made;
// a fresh directory of this process for every file saved
static void enter() { char b[4096]; if (back_.empty()) { if (!getcwd(b, sizeof b)) check(false, "cwd"); back_ = b; } string dir = back_ + "/d" + std::to_string((long)getpid()) + "_" + std::to_string(made.size()); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) check(false, "scratch directory"); made.push_back(dir); }
static std::vector<string> entries() { std::vector<string> r; DIR* d = opendir("."); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(d); return r; }
static void only(const string& f) { std::vector<string> e = entries(); check(e.size() == 1 && e[0] == f, "saving leaves the file and nothing else"); }
static void leave() { if (!chdir(back_.c_str())) for (auto& d : made) { DIR* q = opendir(d.c_str()); if (!q) continue; while (dirent* e = readdir(q)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(q); rmdir(d.c_str()); } }
// the loaded object goes on to compute the same
static void lateJ(de_Rham_local& A, de_Rham_local& B) { std::vector<E> V = exps(A.n + 1, A.d); E e = V[choose("v", 0, A.n == 1 ? (long)V.size() - 1 : 2)]; Vec<int64_t> v = toV(e); auto x = A.compute_reduction_matrix_J(v)->second, y = B.compute_reduction_matrix_J(v)->second; check(x.length() == y.length(), "reduction matrix"); for (long i = 0; i < x.length(); ++i) check_eq(x[i], y[i], "reduction matrix computed later"); for (long k = 1; k <= A.n; ++k) check_eq(*A.get_final_reduction_matrix_J(k), *B.get_final_reduction_matrix_J(k), "final reduction computed later"); }
static void lateND(de_Rham_non_degenerate_local& A, de_Rham_non_degenerate_local& B) { std::vector<E> V = exps(A.n + 1, A.d); E e = V[choose("v", 0, A.n == 1 ? (long)V.size() - 1 : 2)]; Vec<int64_t> v = toV(e); auto x = A.compute_reduction_matrix_ND(v)->second, y = B.compute_reduction_matrix_ND(v)->second; Mat<ZZ_p> zero; for (auto& t : x) if (y.count(t.first)) check_eq(y[t.first], t.second, "reduction matrix computed later"); else check(IsZero(t.second), "reduction matrix computed later"); for (auto& t : y) if (!x.count(t.first)) check(IsZero(t.second), "reduction matrix computed later"); }
void harness() { wide();
  static const long which[] = {0, 1, 9, 3, 5, 7, 6}; long ci = choose("f", 0, tier ? 6 : 3); Curve c = curve(which[ci]); long n = c.n, d = c.d, p = c.p, N = choose("N", 1, n == 1 ? 3 : 2), what = choose("class", 0, 3); bool nd = what & 1;
  if (nd && p == 2 && d % 2 == 0) finish();
  static const long L[] = {1, 4, 7, 8, 9, 12, 40, 200}; long li = choose("name", 0, 7); if (n == 2 && !tier && li != 2 && li != 5) finish(); string name(L[li], 'x');
  bool mem = choose("save_memory", 0, 1), over = n == 1 && choose("overwrite", 0, 1); if (n == 2 && mem != (N == 2)) finish(); if (what >= 2 && (mem == false)) finish(); if (!tier && N == 3 && (li != 3 || over)) finish();
  bool vb = n == 1 && li == 2 && !over && choose("verbose", 0, 1); zz_p::init(p); ZZ_p::init(power_ZZ(p, N)); RPol f = lift(c, N, n == 1 ? (tier ? 2 : 1) : 1, n == 2 || mem);
  auto start = [&] { enter(); if (over) { std::ofstream o(name.c_str()); for (int i = 0; i < 3000; ++i) o << "[[9 9 9]]\n"; } };
  if (what == 0) { de_Rham_local A(p, N, f, vb, mem); if (choose("used", 0, 1)) A.get_final_reduction_matrix_J(n); start(); check(A.save(name.c_str()), "saving succeeds"); only(name); de_Rham_local B(name.c_str()); sameJ(A, B); lateJ(A, B); reach("J"); }
  else if (what == 1) { de_Rham_non_degenerate_local A(p, N, f, vb, mem); start(); check(A.save(name.c_str()), "saving succeeds"); only(name); de_Rham_non_degenerate_local B(name.c_str()); sameND(A, B); lateND(A, B);
    // a second generation
    if (!over) { enter(); check(B.save((name + "2").c_str()), "saving succeeds"); de_Rham_non_degenerate_local C((name + "2").c_str()); sameND(A, C); reach("again"); } reach("ND"); }
  else if (what == 2) { hypersurface A(p, N, f, vb); enter(); check(A.save(name.c_str()), "saving succeeds"); hypersurface B(name.c_str()); sameJ(*A.dR, *B.dR); check(A.p == B.p && A.precision == B.precision && A.n == B.n && A.d == B.d && A.verbose == B.verbose, "parameters"); check(A.fpow.length() == B.fpow.length() && B.fpow.length() == 1 && B.fpow[0].size() == 1, "powers"); reach("hypersurface"); }
  else { hypersurface_non_degenerate A(p, N, f, vb); enter(); check(A.save(name.c_str()), "saving succeeds"); hypersurface_non_degenerate B(name.c_str()); sameND(*A.dR_ND, *B.dR_ND); check(B.dR == B.dR_ND, "one local object"); check(A.p == B.p && A.precision == B.precision && A.n == B.n && A.d == B.d && A.verbose == B.verbose, "parameters"); reach("hypersurface_nd"); }
  // a place that cannot be written
  if (li == 1) { string bad_ = "no/" + name; if (nd) { de_Rham_non_degenerate_local A(p, N, f, vb, mem); check(!A.save(bad_.c_str()), "saving to a missing directory is reported"); } else { de_Rham_local A(p, N, f, vb, mem); check(!A.save(bad_.c_str()), "saving to a missing directory is reported"); } reach("unwritable"); }
  leave();
}
