// Symbolic engine interface (no dependency on gmp/NTL/FLINT so that the shim
// headers can replace those).  See DESIGN.md.
#ifndef SYM_ENGINE_H
#define SYM_ENGINE_H
#include <string>
#include <vector>
#include <cstddef>
namespace sym {

// Mathematical integer: concrete or polynomial over atoms.  Plain-old-data;
// the all-zero bit pattern is the integer 0.
struct Val { long t; };
struct SB { int id; };  // symbolic boolean (0 = false, 1 = true)

Val v_long(long x);
Val v_ulong(unsigned long x);
Val v_dec(const std::string& s);
Val v_add(Val a, Val b);
Val v_sub(Val a, Val b);
Val v_mul(Val a, Val b);
Val v_neg(Val a);
Val v_pow(Val a, unsigned long e);
Val v_redc(Val a, Val m);        // ring representative modulo concrete m (not canonical)
Val v_mod(Val a, Val m);         // a - m*floor(a/m), in [0,m) for m>0
Val v_fdiv(Val a, Val m);        // floor(a/m)
bool v_isconst(Val a);
bool v_fits_long(Val a);         // concrete and fits
long v_getlong(Val a);           // concrete only
unsigned long v_getulong(Val a); // concrete only, mod 2^64
std::string v_str(Val a);        // printable
std::string v_decstr(Val a);     // concrete only
double v_double(Val a);          // concrete only
Val v_gcd(Val a, Val b);         // concrete only (forks otherwise)
Val v_invmod(Val a, Val m, bool& ok);   // concrete
Val v_sqrtfloor(Val a);          // concrete
long v_numbits(Val a);           // concrete
bool v_probprime(Val a);         // concrete
long v_concretize(Val a);        // forks over all feasible values
Val v_concretize_val(Val a);
Val v_ite(SB c, Val a, Val b);
bool v_identical(Val a, Val b);
bool v_interval(Val a, Val& lo, Val& hi); // finite bounds known?

// fresh symbols
Val v_sym(const std::string& name, Val lo, Val hi);   // lo<=x<=hi
Val v_fresh(const char* prefix, Val lo, Val hi);      // deterministic per-path counter

SB sb_const(bool b);
SB sb_le(Val a, Val b);
SB sb_lt(Val a, Val b);
SB sb_eq(Val a, Val b);
SB sb_eqmod(Val a, Val b, Val m);   // m concrete
SB sb_not(SB a);
SB sb_and(SB a, SB b);
SB sb_or(SB a, SB b);
bool sb_isconst(SB a, bool& v);

bool decide(SB b);                    // fork on both feasible sides
void assume(SB b);
void check(SB b, const std::string& msg);  // proof obligation
void fail(const std::string& msg);         // reaching this point is a violation; ends path
void fail_hard(const std::string& msg);    // same, also where an orderly stop is expected (memory errors)
long choose(const std::string& name, long lo, long hi); // one path per value
void nf_obligation(Val a, Val b, Val m);   // equality closed by normal form: confirm with the solver
[[noreturn]] void end_path();
extern int fresh_limit; extern std::vector<long> fresh_preset;
void mark(const std::string& tag);         // reachability witness
void note_incomplete(const std::string& why); // a bound/limit was hit
void set_expect_abort(int mode);           // 0: abort is a violation; 1: abort ends path silently; 2: abort required
int  get_expect_abort();
void set_mode_bv(bool on);                 // small-field bit-vector encoding
bool mode_bv();
void set_query_timeout(unsigned ms);

// handles for stream I/O
long handle_of(Val a);
Val from_handle(long h);

// byte shadow for BytesFromZZ & co
void bytes_store(const void* p, size_t n, Val v);         // little-endian bytes of v mod 256^n, v>=0
Val bytes_load(const void* p, size_t n, bool bigendian);  // inverse

int run(int argc, char** argv, void (*harness)());
}
#endif
