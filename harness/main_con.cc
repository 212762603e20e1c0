// Concrete driver: exit 0 held, 10 assertion of the property failed, 11 input outside the assumptions.
// Orderly stops (abort), memory errors (sanitizers) and signals keep their own status.
#include "vh.h"
#include <unistd.h>
#include <sys/wait.h>
#include <csignal>
namespace NTL { static unsigned long xs = 88172645463325252UL; static long cnt = 0; static std::vector<long> fixed_;
long RandomBnd(long n) { if (n <= 1) return 0; if (!fixed_.empty()) return fixed_[cnt++ % fixed_.size()] % n; bool h; std::string s = vh::get("rnd" + std::to_string(cnt++), h); if (h) return atol(s.c_str()) % n; xs ^= xs << 13; xs ^= xs >> 7; xs ^= xs << 17; return (long)(xs % (unsigned long)n); } }
namespace vh { void preset(const std::vector<long>& v) { NTL::fixed_ = v; } int tier = 0; static std::map<string, string> in;
string get(const string& n, bool& h) { auto it = in.find(n); h = it != in.end(); return h ? it->second : string(); }
void bad(const string& m) { std::cout << "PROPERTY-FAILED: " << m << std::endl; std::cout.flush(); fflush(stdout); _exit(10); }
void skip() { std::cout << "input outside the assumptions" << std::endl; _exit(11); }
void finish() { std::cout.flush(); fflush(stdout); _exit(0); }
static int sub(const std::function<void()>& f) { fflush(stdout); std::cout.flush(); pid_t p = fork(); if (!p) { freopen("/dev/null", "w", stderr); f(); _exit(0); } int st; waitpid(p, &st, 0); return st; }
void must_abort(const string& m, const std::function<void()>& f) { int st = sub(f);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) bad("no error reported: " + m);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) finish();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) finish();
  bad("stopped by a memory error instead of a diagnosed error: " + m); }
void may_abort(const std::function<void()>& f) { int st = sub(f);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { f(); return; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) finish();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) finish();
  f(); }
}
using std::string;
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a == "--tier" && i + 1 < argc) vh::tier = !strcmp(argv[++i], "thorough");
    else { FILE* f = fopen(argv[i], "r"); if (!f) return 3; char buf[1 << 16]; while (fgets(buf, sizeof buf, f)) { if (buf[0] == '#') continue; char n[4096], v[60000]; if (sscanf(buf, "%4095s %59999s", n, v) == 2) vh::in[n] = v; } fclose(f); }
  }
  harness(); vh::finish();
}
#ifdef VERIF_RACE
static NTL::ZZ_pContext* c0_ = nullptr; static NTL::zz_pContext* c1_ = nullptr;
void vomp_thread(int begin, int tid) { if (!tid) return; if (begin) { c0_ = new NTL::ZZ_pContext; c0_->save(); c1_ = new NTL::zz_pContext; c1_->save(); NTL::ZZ_pContext a; a.restore(); NTL::zz_pContext b; b.restore(); } else { c0_->restore(); c1_->restore(); delete c0_; delete c1_; } }
void vomp_report(const std::string& m) { if (m[0] != '!') vh::bad(m); }
#endif
