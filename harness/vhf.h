// direct reading and writing of gmp / flint numbers (no repository code involved)
#ifndef VHF_H
#define VHF_H
#include "vh.h"
#include <gmp.h>
#include <flint/fmpz.h>
#include <flint/fmpz_mat.h>
#include <flint/fmpz_vec.h>
#include <flint/nmod_vec.h>
#include <flint/nmod_mat.h>
namespace vh {
#ifdef SYM_BUILD
inline ZZ rdz(const __mpz_struct* a) { return ZZ::raw(a->v); }
inline void wrz(__mpz_struct* a, const ZZ& x) { a->v = x.v; }
inline ZZ rdf(const fmpz* a) { return ZZ::raw(a->v); }
inline void wrf(fmpz* a, const ZZ& x) { a->v = x.v; }
inline ZZ rdn(const SLimb& a) { return ZZ::raw(a.v); }
inline SLimb mkn(const ZZ& a) { SLimb r; r.v = a.v; return r; }
#else
inline ZZ rdz(const __mpz_struct* a) { char* s = mpz_get_str(nullptr, 10, a); ZZ x = conv<ZZ>(s); free(s); return x; }
inline void wrz(__mpz_struct* a, const ZZ& x) { std::stringstream s; s << x; mpz_set_str(a, s.str().c_str(), 10); }
inline ZZ rdf(const fmpz* a) { char* s = fmpz_get_str(nullptr, 10, a); ZZ x = conv<ZZ>(s); free(s); return x; }
inline void wrf(fmpz* a, const ZZ& x) { std::stringstream s; s << x; fmpz_set_str(a, s.str().c_str(), 10); }
inline ZZ rdn(unsigned long a) { return to_ZZ(a); }
inline unsigned long mkn(const ZZ& a) { return to_ulong(a); }
#endif
}
#endif
