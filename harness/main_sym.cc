#include "vh.h"
namespace vh { int tier = 0; }
int main(int argc, char** argv) { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--tier")) vh::tier = !strcmp(argv[i + 1], "thorough"); return sym::run(argc, argv, harness); }
// one simulated thread: the modulus of a new thread is not set until it is restored
static NTL::ModState own_[2];
void vomp_thread(int begin, int tid) { static bool once = false; extern void vomp_setup(); if (!once) { once = true; vomp_setup(); } if (!tid) return; if (begin) { own_[0] = NTL::g_ZZ_p; own_[1] = NTL::g_zz_p; NTL::g_ZZ_p.set = NTL::g_zz_p.set = false; } else { NTL::g_ZZ_p = own_[0]; NTL::g_zz_p = own_[1]; } }
extern "C" void vomp_ignore(void*, size_t);
void vomp_setup() { vomp_ignore(&NTL::g_ZZ_p, sizeof NTL::g_ZZ_p); vomp_ignore(&NTL::g_zz_p, sizeof NTL::g_zz_p); }
void vomp_report(const std::string& m) { if (m[0] == '!') sym::note_incomplete(m.substr(1)); else { sym::fail(m); sym::end_path(); } }
