#include <execinfo.h>
// Symbolic execution engine: polynomial terms over integer atoms, path
// exploration by fork(), z3 for every branch and proof obligation.
#include "engine.h"
#include <gmpxx.h>
#include <z3++.h>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <climits>
#include <ctime>
#include <random>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <sstream>

namespace sym {
using std::string; using std::vector; using std::pair; using std::map;
typedef mpz_class Z;

// ------------------------------------------------------------ shared state
struct Shared {
  std::atomic<long> paths, queries, sat, unsat, unknown, obligations, discharged,
      obl_nf, undecided, cands, incomplete, branches, tokens, forks, aborted_paths, witness, nfchk;
  std::atomic<long> solver_us;
  std::atomic<int> nmarks, nfun, ninc, witfiles;
  char marks[512][96];
  std::atomic<long> markcount[512];
  char inc[32][160];
  void* fun[8192];
  std::atomic<int> candmsgs;
  char candmsg[64][200];
  std::atomic<int> candmsgcount[64];
  std::atomic<int> lock;
};
static Shared* S = nullptr;
static string outdir = ".";
static double deadline = 0;
static long max_paths = 2000000;
static int max_procs = 8;
static bool debug = false;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void lk() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } }
static void ulk() { S->lock = 0; }

// ------------------------------------------------------------ atoms, monomials
enum AKind { ASYM, AMOD, ADIV, AITE };
struct Poly;
struct Atom { AKind k; string name; bool haslo, hashi; Z lo, hi; Val a, b; int sb; };
static vector<Atom> atoms;
typedef vector<pair<int,int>> Mono;   // (atom, exp) sorted
static vector<Mono> monos;
static map<Mono,int> monoid;
static vector<char> mono_hasmod, mono_maxexp_small;
static std::unordered_map<unsigned long,int> mulcache;

static int mono_get(const Mono& m) {
  auto it = monoid.find(m);
  if (it != monoid.end()) return it->second;
  int id = monos.size(); monos.push_back(m); monoid[m] = id;
  char h = 0; for (auto& p : m) if (atoms[p.first].k == AMOD) h = 1;
  mono_hasmod.push_back(h);
  return id;
}
static int mono_mul(int a, int b) {
  if (a == 0) return b;
  if (b == 0) return a;
  if (a > b) std::swap(a, b);
  unsigned long key = ((unsigned long)a << 32) | (unsigned)b;
  auto it = mulcache.find(key);
  if (it != mulcache.end()) return it->second;
  const Mono &x = monos[a], &y = monos[b]; Mono r; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; }
  }
  int id = mono_get(r);
  mulcache[key] = id;
  return id;
}
struct Poly {
  vector<pair<int,Z>> t;   // sorted by monomial id, nonzero coefficients
  int iv = 0;              // 0 unknown, 1 finite, 2 infinite
  Z lo, hi;
};
static inline bool is_small(Val v) { return !(v.t & 1); }
static inline long sval(Val v) { return v.t >> 1; }
static inline Poly* P(Val v) { return (Poly*)(v.t & ~1L); }
static inline Val mk_small(long x) { Val v; v.t = (long)((unsigned long)x << 1); return v; }
static const long SMAX = LONG_MAX >> 1, SMIN = LONG_MIN >> 1;
static Val mk(Poly* p) {
  if (p->t.empty()) { delete p; return mk_small(0); }
  if (p->t.size() == 1 && p->t[0].first == 0 && p->t[0].second.fits_slong_p()) {
    long x = p->t[0].second.get_si();
    if (x <= SMAX && x >= SMIN) { delete p; return mk_small(x); }
  }
  Val v; v.t = (long)p | 1; return v;
}
static Val mkz(const Z& z) {
  if (z.fits_slong_p()) { long x = z.get_si(); if (x <= SMAX && x >= SMIN) return mk_small(x); }
  Poly* p = new Poly; p->t.push_back({0, z}); return mk(p);
}
static inline bool isc(Val v) { return is_small(v) || (P(v)->t.size() == 1 && P(v)->t[0].first == 0); }
static Z zval(Val v) { return is_small(v) ? Z(sval(v)) : P(v)->t[0].second; }
static const vector<pair<int,Z>>& terms(Val v, vector<pair<int,Z>>& buf) {
  if (!is_small(v)) return P(v)->t;
  buf.clear(); if (sval(v)) buf.push_back({0, Z(sval(v))});
  return buf;
}
static void init_core() { if (monos.empty()) mono_get(Mono()); }

Val v_long(long x) { if (x <= SMAX && x >= SMIN) return mk_small(x); return mkz(Z(x)); }
Val v_ulong(unsigned long x) { if (x <= (unsigned long)SMAX) return mk_small((long)x); return mkz(Z(x)); }
Val v_dec(const string& s) { return mkz(Z(s)); }

Val v_add(Val a, Val b) {
  if (is_small(a) && is_small(b)) return v_long(sval(a) + sval(b));
  if (is_small(a) && sval(a) == 0) return b;
  if (is_small(b) && sval(b) == 0) return a;
  vector<pair<int,Z>> b1, b2; auto &x = terms(a, b1); auto &y = terms(b, b2);
  Poly* r = new Poly; r->t.reserve(x.size() + y.size()); size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r->t.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r->t.push_back(y[j++]);
    else { Z c = x[i].second + y[j].second; if (c != 0) r->t.push_back({x[i].first, c}); ++i; ++j; }
  }
  return mk(r);
}
static Val v_scale(Val a, const Z& c) {
  if (c == 0) return mk_small(0);
  if (isc(a)) return mkz(zval(a) * c);
  Poly* r = new Poly; r->t = P(a)->t; for (auto& t : r->t) t.second *= c; return mk(r);
}
Val v_neg(Val a) { if (is_small(a)) return v_long(-sval(a)); return v_scale(a, Z(-1)); }
Val v_sub(Val a, Val b) {
  if (is_small(a) && is_small(b)) return v_long(sval(a) - sval(b));
  return v_add(a, v_neg(b));
}
Val v_mul(Val a, Val b) {
  if (is_small(a) && is_small(b)) {
    long r; if (!__builtin_mul_overflow(sval(a), sval(b), &r)) return v_long(r);
    return mkz(Z(sval(a)) * Z(sval(b)));
  }
  if (isc(a)) return v_scale(b, zval(a));
  if (isc(b)) return v_scale(a, zval(b));
  auto &x = P(a)->t; auto &y = P(b)->t;
  std::unordered_map<int,Z> acc; acc.reserve(x.size() * y.size());
  for (auto& s : x) for (auto& t : y) acc[mono_mul(s.first, t.first)] += s.second * t.second;
  Poly* r = new Poly;
  for (auto& kv : acc) if (kv.second != 0) r->t.push_back({kv.first, kv.second});
  std::sort(r->t.begin(), r->t.end(), [](const pair<int,Z>& p, const pair<int,Z>& q) { return p.first < q.first; });
  return mk(r);
}
Val v_pow(Val a, unsigned long e) {
  Val r = mk_small(1);
  if (isc(a)) { Z z; Z b = zval(a); mpz_pow_ui(z.get_mpz_t(), b.get_mpz_t(), e); return mkz(z); }
  while (e) { if (e & 1) r = v_mul(r, a); e >>= 1; if (e) a = v_mul(a, a); }
  return r;
}
bool v_isconst(Val a) { return isc(a); }
bool v_fits_long(Val a) { return isc(a) && zval(a).fits_slong_p(); }
long v_getlong(Val a) { return is_small(a) ? sval(a) : (long)mpz_get_si(P(a)->t[0].second.get_mpz_t()); }
unsigned long v_getulong(Val a) {
  if (is_small(a)) return (unsigned long)sval(a);
  Z m = zval(a); Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), m.get_mpz_t(), 64); return mpz_get_ui(r.get_mpz_t());
}
string v_decstr(Val a) { return zval(a).get_str(); }
double v_double(Val a) { return zval(a).get_d(); }
static string key(Val a) {
  if (is_small(a)) return std::to_string(sval(a));
  std::ostringstream o; for (auto& t : P(a)->t) o << t.first << ':' << t.second << ','; return o.str();
}
string v_str(Val a) {
  if (isc(a)) return zval(a).get_str();
  std::ostringstream o; int n = 0;
  for (auto& t : P(a)->t) {
    if (n++) o << " + ";
    if (n > 12) { o << "..."; break; }
    o << t.second;
    for (auto& p : monos[t.first]) { o << "*" << atoms[p.first].name; if (p.second > 1) o << "^" << p.second; }
  }
  return o.str();
}
bool v_identical(Val a, Val b) {
  if (a.t == b.t) return true;
  if (is_small(a) || is_small(b)) return false;
  return P(a)->t == P(b)->t;
}
// intervals
static bool interval(Val a, Z& lo, Z& hi) {
  if (is_small(a)) { lo = hi = sval(a); return true; }
  Poly* p = P(a);
  if (p->iv == 2) return false;
  if (p->iv == 0) {
    Z L = 0, H = 0; bool fin = true;
    for (auto& t : p->t) {
      Z l = 1, h = 1;
      for (auto& f : monos[t.first]) {
        Atom& A = atoms[f.first];
        if (!A.haslo || !A.hashi) { fin = false; break; }
        Z pl, ph; mpz_pow_ui(pl.get_mpz_t(), A.lo.get_mpz_t(), f.second); mpz_pow_ui(ph.get_mpz_t(), A.hi.get_mpz_t(), f.second);
        Z al = std::min(pl, ph), ah = std::max(pl, ph);
        if (f.second % 2 == 0 && A.lo < 0 && A.hi > 0) al = 0;
        Z c[4] = {l * al, l * ah, h * al, h * ah};
        l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
      }
      if (!fin) break;
      Z x = l * t.second, y = h * t.second;
      L += std::min(x, y); H += std::max(x, y);
    }
    if (!fin) { p->iv = 2; return false; }
    p->iv = 1; p->lo = L; p->hi = H;
  }
  lo = p->lo; hi = p->hi; return true;
}
// half-bounded: lower bound of a when every atom with coefficient is nonneg-bounded etc.
static bool lower(Val a, Z& lo) {
  Z hi; if (interval(a, lo, hi)) return true;
  if (is_small(a)) return false;
  Z L = 0;
  for (auto& t : P(a)->t) {
    if (t.first == 0) { L += t.second; continue; }
    if (t.second < 0) {
      Poly q; q.t.push_back(t); Z l, h; Val v; v.t = (long)&q | 1; if (!interval(v, l, h)) return false; L += l; continue;
    }
    Z l = 1; for (auto& f : monos[t.first]) { Atom& A = atoms[f.first];
      if (!A.haslo || A.lo < 0) return false;
      Z pl; mpz_pow_ui(pl.get_mpz_t(), A.lo.get_mpz_t(), f.second); l *= pl; }
    L += l * t.second;
  }
  lo = L; return true;
}
bool v_interval(Val a, Val& lo, Val& hi) { Z l, h; if (!interval(a, l, h)) return false; lo = mkz(l); hi = mkz(h); return true; }

static map<string,int> atomkey;
static Val atom_val(int id) {
  Poly* p = new Poly; p->t.push_back({mono_get(Mono{{id, 1}}), Z(1)}); return mk(p);
}
static int new_atom(const Atom& a) { atoms.push_back(a); return atoms.size() - 1; }

static map<string,bool> primecache;
static bool smallprime(const Z& m) {
  if (m > 97 || m < 2) return false;
  long x = m.get_si(); for (long i = 2; i * i <= x; ++i) if (x % i == 0) return false;
  return true;
}
Val v_redc(Val a, Val m) {
  if (isc(a) && is_small(a) && is_small(m)) { long M = sval(m), r = sval(a) % M; if (r < 0) r += M; return mk_small(r); }
  Z M = zval(m); if (M < 0) M = -M;
  if (isc(a)) { Z r; Z z = zval(a); mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), M.get_mpz_t()); return mkz(r); }
  // unwrap mod atoms whose modulus is a multiple of M
  for (int guard = 0; guard < 50; ++guard) {
    bool any = false;
    if (isc(a)) break;
    for (auto& t : P(a)->t) if (mono_hasmod[t.first]) {
      for (auto& f : monos[t.first]) { Atom& A = atoms[f.first];
        if (A.k == AMOD && isc(A.b) && zval(A.b) % M == 0) { any = true; break; } }
      if (any) break; }
    if (!any) break;
    Val r = mk_small(0);
    Poly* rest = new Poly;
    for (auto& t : P(a)->t) {
      bool hit = false;
      if (mono_hasmod[t.first]) for (auto& f : monos[t.first]) { Atom& A = atoms[f.first];
        if (A.k == AMOD && isc(A.b) && zval(A.b) % M == 0) hit = true; }
      if (!hit) { rest->t.push_back(t); continue; }
      Val c = mkz(t.second); Mono keep;
      Mono mm = monos[t.first];
      for (auto& f : mm) {
        Val aa = atoms[f.first].a, bb = atoms[f.first].b;
        if (atoms[f.first].k == AMOD && isc(bb) && zval(bb) % M == 0) {
          for (int e = 0; e < f.second; ++e) c = v_redc(v_mul(c, aa), m);
        } else keep.push_back(f);
      }
      if (!keep.empty()) { Poly* q = new Poly; q->t.push_back({mono_get(keep), Z(1)}); c = v_mul(c, mk(q)); }
      r = v_add(r, c);
    }
    a = v_add(r, mk(rest));
  }
  if (isc(a)) { Z r; Z z = zval(a); mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), M.get_mpz_t()); return mkz(r); }
  bool fermat = false; long pm = 0;
  if (smallprime(M)) { pm = M.get_si();
    for (auto& t : P(a)->t) { for (auto& f : monos[t.first]) if (f.second >= pm) { fermat = true; break; } if (fermat) break; } }
  if (!fermat) {
    bool need = false;
    for (auto& t : P(a)->t) if (t.second < 0 || t.second >= M) { need = true; break; }
    if (!need) return a;
    Poly* r = new Poly;
    for (auto& t : P(a)->t) { Z c; mpz_fdiv_r(c.get_mpz_t(), t.second.get_mpz_t(), M.get_mpz_t()); if (c != 0) r->t.push_back({t.first, c}); }
    return mk(r);
  }
  map<int,Z> acc;
  for (auto& t : P(a)->t) {
    Mono mm = monos[t.first]; for (auto& f : mm) if (f.second >= pm) f.second = (f.second - 1) % (pm - 1) + 1;
    acc[mono_get(mm)] += t.second;
  }
  Poly* r = new Poly;
  for (auto& kv : acc) { Z c; mpz_fdiv_r(c.get_mpz_t(), kv.second.get_mpz_t(), M.get_mpz_t()); if (c != 0) r->t.push_back({kv.first, c}); }
  return mk(r);
}
static bool sb_forced(SB b);  // decides, used for sign of symbolic divisors
Val v_mod(Val a, Val m) {
  if (isc(m)) {
    Z M = zval(m);
    if (M == 0) { fail("division by zero"); end_path(); }
    if (M < 0) return v_neg(v_mod(v_neg(a), v_neg(m)));
    if (isc(a)) { Z r; Z z = zval(a); mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), M.get_mpz_t()); return mkz(r); }
    Z lo, hi;
    if (interval(a, lo, hi) && lo >= 0 && hi < M) return a;
    Val r = v_redc(a, m);
    if (isc(r)) return r;
    if (interval(r, lo, hi) && lo >= 0 && hi < M) return r;
    string k = "M" + key(r) + "|" + M.get_str();
    auto it = atomkey.find(k);
    int id;
    if (it != atomkey.end()) id = it->second;
    else {
      Atom A; A.k = AMOD; A.name = "mod" + std::to_string(atoms.size()); A.haslo = A.hashi = true; A.lo = 0; A.hi = M - 1; A.a = r; A.b = m; A.sb = 0;
      id = new_atom(A); atomkey[k] = id;
    }
    return atom_val(id);
  }
  if (decide(sb_eq(m, mk_small(0)))) { fail("division by zero"); end_path(); }
  if (decide(sb_lt(m, mk_small(0)))) return v_neg(v_mod(v_neg(a), v_neg(m)));
  if (v_identical(a, m) || (isc(a) && zval(a) == 0)) return mk_small(0);
  string k = "m" + key(a) + "|" + key(m);
  auto it = atomkey.find(k); int id;
  if (it != atomkey.end()) id = it->second;
  else {
    Atom A; A.k = AMOD; A.name = "mod" + std::to_string(atoms.size()); A.haslo = true; A.lo = 0; A.hashi = false;
    Z l, h; if (interval(m, l, h)) { A.hashi = true; A.hi = h - 1; }
    A.a = a; A.b = m; A.sb = 0; id = new_atom(A); atomkey[k] = id;
  }
  return atom_val(id);
}
Val v_fdiv(Val a, Val m) {
  if (isc(m)) {
    Z M = zval(m);
    if (M == 0) { fail("division by zero"); end_path(); }
    if (M < 0) return v_fdiv(v_neg(a), v_neg(m));
    if (M == 1) return a;
    if (isc(a)) { Z r; Z z = zval(a); mpz_fdiv_q(r.get_mpz_t(), z.get_mpz_t(), M.get_mpz_t()); return mkz(r); }
    // exact after removing the remainder?
    Val r = v_mod(a, m); Val d = v_sub(a, r);
    if (isc(d)) { Z q; Z z = zval(d); mpz_fdiv_q(q.get_mpz_t(), z.get_mpz_t(), M.get_mpz_t()); return mkz(q); }
    bool ex = true; for (auto& t : P(d)->t) if (t.second % M != 0) { ex = false; break; }
    if (ex) { Poly* q = new Poly; q->t = P(d)->t; for (auto& t : q->t) t.second /= M; return mk(q); }
    Poly *q = new Poly, *s = new Poly;
    for (auto& t : P(a)->t) { Z c, e; mpz_fdiv_qr(c.get_mpz_t(), e.get_mpz_t(), t.second.get_mpz_t(), M.get_mpz_t());
      if (c != 0) q->t.push_back({t.first, c}); if (e != 0) s->t.push_back({t.first, e}); }
    Val Q = mk(q), R = mk(s); Z lo, hi;
    bool fin = interval(R, lo, hi);
    if (fin && lo >= 0 && hi < M) return Q;
    string k = "D" + key(R) + "|" + M.get_str();
    auto it = atomkey.find(k); int id;
    if (it != atomkey.end()) id = it->second;
    else { Atom A; A.k = ADIV; A.name = "div" + std::to_string(atoms.size()); A.haslo = A.hashi = fin; 
      if (fin) { mpz_fdiv_q(A.lo.get_mpz_t(), lo.get_mpz_t(), M.get_mpz_t()); mpz_fdiv_q(A.hi.get_mpz_t(), hi.get_mpz_t(), M.get_mpz_t()); }
      else if (lower(R, lo)) { A.haslo = true; mpz_fdiv_q(A.lo.get_mpz_t(), lo.get_mpz_t(), M.get_mpz_t()); }
      A.a = R; A.b = m; A.sb = 0; id = new_atom(A); atomkey[k] = id; }
    return v_add(Q, atom_val(id));
  }
  if (isc(a) && zval(a) == 0) return a;
  if (v_identical(a, m)) return mk_small(1);
  // single-term divisor dividing every term
  if (P(m)->t.size() == 1 && !isc(a)) {
    auto& mt = P(m)->t[0]; bool ok = true; Poly* q = new Poly;
    for (auto& t : P(a)->t) {
      if (t.second % mt.second != 0) { ok = false; break; }
      Mono x = monos[t.first]; 
      for (auto& f : monos[mt.first]) { bool hit = false; for (auto& g : x) if (g.first == f.first && g.second >= f.second) { g.second -= f.second; hit = true; } if (!hit) ok = false; }
      if (!ok) break;
      Mono y; for (auto& g : x) if (g.second) y.push_back(g);
      q->t.push_back({mono_get(y), t.second / mt.second});
    }
    if (ok) { std::sort(q->t.begin(), q->t.end(), [](const pair<int,Z>& p, const pair<int,Z>& r) { return p.first < r.first; }); 
      if (decide(sb_eq(m, mk_small(0)))) { fail("division by zero"); end_path(); }
      return mk(q); }
  }
  if (decide(sb_eq(m, mk_small(0)))) { fail("division by zero"); end_path(); }
  if (decide(sb_lt(m, mk_small(0)))) return v_fdiv(v_neg(a), v_neg(m));
  string k = "d" + key(a) + "|" + key(m);
  auto it = atomkey.find(k); int id;
  if (it != atomkey.end()) id = it->second;
  else { Atom A; A.k = ADIV; A.name = "div" + std::to_string(atoms.size()); A.haslo = A.hashi = false;
    Z l, h; if (interval(a, l, h)) { A.haslo = A.hashi = true; A.lo = l < 0 ? l : Z(0); A.hi = h > 0 ? h : Z(0); if (l<0) A.lo = l; }
    else if (lower(a, l) && l >= 0) { A.haslo = true; A.lo = 0; }
    A.a = a; A.b = m; A.sb = 0; id = new_atom(A); atomkey[k] = id; }
  return atom_val(id);
}
Val v_gcd(Val a, Val b) {
  if (!isc(a)) a = v_concretize_val(a);
  if (!isc(b)) b = v_concretize_val(b);
  Z r, x = zval(a), y = zval(b); mpz_gcd(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return mkz(r);
}
Val v_invmod(Val a, Val m, bool& ok) {
  Z r, x = zval(a), y = zval(m); ok = mpz_invert(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()) != 0; return mkz(r);
}
Val v_sqrtfloor(Val a) { if (!isc(a)) a = v_concretize_val(a); Z r, x = zval(a); mpz_sqrt(r.get_mpz_t(), x.get_mpz_t()); return mkz(r); }
long v_numbits(Val a) { Z x = zval(a); return x == 0 ? 0 : (long)mpz_sizeinbase(x.get_mpz_t(), 2); }
bool v_probprime(Val a) { if (!isc(a)) a = v_concretize_val(a); Z x = zval(a); return mpz_probab_prime_p(x.get_mpz_t(), 20) != 0; }

// ------------------------------------------------------------ booleans
enum BKind { BFALSE, BTRUE, BEQ, BGE, BEQM, BNOT, BAND, BOR };
struct BNode { BKind k; Val v; Val m; int a, b; };
static vector<BNode> bs;
static std::unordered_map<string,int> bkey;
static void binit() { if (bs.empty()) { bs.push_back({BFALSE, {0}, {0}, 0, 0}); bs.push_back({BTRUE, {0}, {0}, 0, 0}); } }
static SB bget(const string& k, const BNode& n) {
  binit();
  auto it = bkey.find(k); if (it != bkey.end()) return SB{it->second};
  bs.push_back(n); bkey[k] = bs.size() - 1; return SB{(int)bs.size() - 1};
}
SB sb_const(bool b) { binit(); return SB{b ? 1 : 0}; }
bool sb_isconst(SB a, bool& v) { if (a.id == 0) { v = false; return true; } if (a.id == 1) { v = true; return true; } return false; }
SB sb_not(SB a) {
  binit();
  if (a.id < 2) return SB{1 - a.id};
  if (bs[a.id].k == BNOT) return SB{bs[a.id].a};
  return bget("!" + std::to_string(a.id), {BNOT, {0}, {0}, a.id, 0});
}
SB sb_and(SB a, SB b) {
  binit();
  if (a.id == 0 || b.id == 0) return SB{0};
  if (a.id == 1) return b;
  if (b.id == 1) return a;
  if (a.id == b.id) return a;
  if (a.id > b.id) std::swap(a, b);
  return bget("&" + std::to_string(a.id) + "," + std::to_string(b.id), {BAND, {0}, {0}, a.id, b.id});
}
SB sb_or(SB a, SB b) { return sb_not(sb_and(sb_not(a), sb_not(b))); }
static SB sb_ge0(Val d) {
  if (isc(d)) return sb_const(zval(d) >= 0);
  Z lo, hi;
  if (interval(d, lo, hi)) { if (lo >= 0) return sb_const(true); if (hi < 0) return sb_const(false); }
  else { if (lower(d, lo) && lo >= 0) return sb_const(true); if (lower(v_neg(d), lo) && lo > 0) return sb_const(false); }
  return bget("G" + key(d), {BGE, d, {0}, 0, 0});
}
SB sb_le(Val a, Val b) { if (is_small(a) && is_small(b)) return sb_const(sval(a) <= sval(b)); return sb_ge0(v_sub(b, a)); }
SB sb_lt(Val a, Val b) { if (is_small(a) && is_small(b)) return sb_const(sval(a) < sval(b)); return sb_not(sb_le(b, a)); }
SB sb_eq(Val a, Val b) {
  if (is_small(a) && is_small(b)) return sb_const(sval(a) == sval(b));
  Val d = v_sub(a, b);
  if (isc(d)) return sb_const(zval(d) == 0);
  Z lo, hi;
  if (interval(d, lo, hi)) { if (lo > 0 || hi < 0) return sb_const(false); }
  else { if (lower(d, lo) && lo > 0) return sb_const(false); if (lower(v_neg(d), lo) && lo > 0) return sb_const(false); }
  // content / sign normalisation
  Z g = 0; for (auto& t : P(d)->t) if (t.first) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_mpz_t()); }
  for (auto& t : P(d)->t) if (!t.first && t.second % g != 0) return sb_const(false);
  if (P(d)->t.back().second < 0) g = -g;
  if (g != 1) { Poly* q = new Poly; q->t = P(d)->t; for (auto& t : q->t) t.second /= g; d = mk(q); }
  return bget("E" + key(d), {BEQ, d, {0}, 0, 0});
}
SB sb_eqmod(Val a, Val b, Val m) {
  Val d = v_redc(v_sub(a, b), m);
  if (isc(d)) return sb_const(zval(d) == 0);
  Z M = zval(m);
  { // a common factor of the non-constant coefficients and the modulus
    Z g = M, k0 = 0; for (auto& t : P(d)->t) if (monos[t.first].empty()) k0 = t.second; else g = gcd(g, t.second);
    if (g > 1) { if (k0 % g != 0) return sb_const(false); Poly* q = new Poly; for (auto& t : P(d)->t) q->t.push_back({t.first, t.second / g}); return sb_eqmod(mk(q), mk_small(0), mkz(M / g)); } }
  if (smallprime(M)) { Z inv, c = P(d)->t.back().second; mpz_invert(inv.get_mpz_t(), c.get_mpz_t(), M.get_mpz_t()); d = v_redc(v_scale(d, inv), m); }
  return bget("Q" + key(d) + "|" + M.get_str(), {BEQM, d, m, 0, 0});
}
Val v_ite(SB c, Val a, Val b) {
  bool k; if (sb_isconst(c, k)) return k ? a : b;
  if (v_identical(a, b)) return a;
  string kk = "I" + std::to_string(c.id) + "|" + key(a) + "|" + key(b);
  auto it = atomkey.find(kk); int id;
  if (it != atomkey.end()) id = it->second;
  else { Atom A; A.k = AITE; A.name = "ite" + std::to_string(atoms.size()); A.a = a; A.b = b; A.sb = c.id;
    Z l1, h1, l2, h2; A.haslo = A.hashi = interval(a, l1, h1) && interval(b, l2, h2);
    if (A.haslo) { A.lo = std::min(l1, l2); A.hi = std::max(h1, h2); }
    id = new_atom(A); atomkey[kk] = id; }
  return atom_val(id);
}

// ------------------------------------------------------------ evaluation under a model
typedef std::unordered_map<int,Z> Model;   // atom id -> value (ASYM)
static Model cur;                          // satisfies the path condition
static Z eval(Val a, const Model& m, std::unordered_map<int,Z>& memo);
static bool evalb(int id, const Model& m, std::unordered_map<int,Z>& memo);
static Z evala(int id, const Model& m, std::unordered_map<int,Z>& memo) {
  auto it = memo.find(id); if (it != memo.end()) return it->second;
  Z r; 
  switch (atoms[id].k) {
    case ASYM: { auto i = m.find(id); if (i != m.end()) r = i->second; else r = atoms[id].haslo ? atoms[id].lo : atoms[id].hashi ? std::min(Z(0), atoms[id].hi) : Z(0); break; }
    case AMOD: { Z x = eval(atoms[id].a, m, memo), y = eval(atoms[id].b, m, memo); if (y == 0) r = 0; else mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); break; }
    case ADIV: { Z x = eval(atoms[id].a, m, memo), y = eval(atoms[id].b, m, memo); if (y == 0) r = 0; else mpz_fdiv_q(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); break; }
    case AITE: r = evalb(atoms[id].sb, m, memo) ? eval(atoms[id].a, m, memo) : eval(atoms[id].b, m, memo); break;
  }
  memo[id] = r; return r;
}
static Z eval(Val a, const Model& m, std::unordered_map<int,Z>& memo) {
  if (is_small(a)) return Z(sval(a));
  Z r = 0;
  for (auto& t : P(a)->t) { Z c = t.second; for (auto& f : monos[t.first]) { Z x = evala(f.first, m, memo), y; mpz_pow_ui(y.get_mpz_t(), x.get_mpz_t(), f.second); c *= y; } r += c; }
  return r;
}
static bool evalb(int id, const Model& m, std::unordered_map<int,Z>& memo) {
  const BNode& b = bs[id];
  switch (b.k) {
    case BFALSE: return false; case BTRUE: return true;
    case BEQ: return eval(b.v, m, memo) == 0;
    case BGE: return eval(b.v, m, memo) >= 0;
    case BEQM: { Z x = eval(b.v, m, memo), y = zval(b.m); return mpz_divisible_p(x.get_mpz_t(), y.get_mpz_t()); }
    case BNOT: return !evalb(b.a, m, memo);
    case BAND: return evalb(b.a, m, memo) && evalb(b.b, m, memo);
    case BOR: return evalb(b.a, m, memo) || evalb(b.b, m, memo);
  }
  return false;
}
static bool evalb(int id, const Model& m) { std::unordered_map<int,Z> memo; return evalb(id, m, memo); }

// ------------------------------------------------------------ z3 translation
static bool bvmode = false;
void set_mode_bv(bool on) { bvmode = on; }
bool mode_bv() { return bvmode; }
static unsigned rlimit_base = 3000000;
void set_query_timeout(unsigned k) { rlimit_base = k; }
static z3::context* C = nullptr;
struct Unsupported {};
static z3::context& ctx() { if (!C) { C = new z3::context; } return *C; }
static std::unordered_map<int,z3::expr>* zat = nullptr;      // atom -> Int expr
static std::unordered_map<int,z3::expr>* zbv = nullptr;      // atom -> BV64 expr
static std::unordered_map<int,z3::expr>* zb = nullptr;
static vector<z3::expr>* side = nullptr;                      // definitional / range constraints
static z3::expr zint(const Z& z) { return ctx().int_val(z.get_str().c_str()); }
static z3::expr tb(int id);
static z3::expr ti(Val a);
static z3::expr tia(int id) {
  if (!zat) zat = new std::unordered_map<int,z3::expr>;
  auto it = zat->find(id); if (it != zat->end()) return it->second;
  z3::expr e(ctx());
  switch (atoms[id].k) {
    case ASYM: { e = ctx().int_const(("s" + std::to_string(id)).c_str());
      if (atoms[id].haslo) side->push_back(e >= zint(atoms[id].lo));
      if (atoms[id].hashi) side->push_back(e <= zint(atoms[id].hi)); break; }
    case AMOD: case ADIV: {
      // introduce q, r with a = b*q + r, 0 <= r < b
      z3::expr a = ti(atoms[id].a), b = ti(atoms[id].b);
      z3::expr q = ctx().int_const(("q" + std::to_string(id)).c_str()), r = ctx().int_const(("r" + std::to_string(id)).c_str());
      side->push_back(a == b * q + r); side->push_back(r >= 0); side->push_back(r < b);
      e = atoms[id].k == AMOD ? r : q; break; }
    case AITE: { z3::expr a = ti(atoms[id].a), b = ti(atoms[id].b); e = z3::ite(tb(atoms[id].sb), a, b); break; }
  }
  zat->emplace(id, e); return e;
}
static z3::expr ti(Val a) {
  if (is_small(a)) return zint(Z(sval(a)));
  z3::expr_vector ev(ctx());
  for (auto& t : P(a)->t) {
    z3::expr_vector fs(ctx());
    if (t.second != 1 || t.first == 0) fs.push_back(zint(t.second));
    for (auto& f : monos[t.first]) { z3::expr x = tia(f.first); for (int i = 0; i < f.second; ++i) fs.push_back(x); }
    if (fs.size() == 1) ev.push_back(fs[0]);
    else { z3::expr p = fs[0]; for (unsigned i = 1; i < fs.size(); ++i) p = p * fs[i]; ev.push_back(p); }
  }
  return ev.size() == 1 ? ev[0] : z3::sum(ev);
}
// --- bit-vector mode: atoms are nonnegative and small
static const unsigned W = 24;
static z3::expr bvnum(const Z& z) { return ctx().bv_val(z.get_str().c_str(), W); }
static z3::expr bvmodp(Val a, const Z& M); static z3::expr rmodp(Val a, const Z& M); static unsigned rw(const Z& M); static z3::expr rnum(const Z& z, unsigned w);
static z3::expr bvexact(Val a);
static z3::expr bva(int id) {
  if (!zbv) zbv = new std::unordered_map<int,z3::expr>;
  auto it = zbv->find(id); if (it != zbv->end()) return it->second;
  z3::expr e(ctx());
  Z lim = Z(1) << (W / 2 - 1);
  switch (atoms[id].k) {
    case ASYM: { if (!atoms[id].haslo || !atoms[id].hashi || atoms[id].lo < 0 || atoms[id].hi >= lim) throw Unsupported();
      long h = atoms[id].hi.get_si(); unsigned w = 1; while ((1L << w) <= h) ++w;
      z3::expr s = ctx().bv_const(("s" + std::to_string(id)).c_str(), w);
      e = z3::zext(s, W - w);
      if (h != (1L << w) - 1) side->push_back(z3::ule(e, bvnum(atoms[id].hi)));
      if (atoms[id].lo > 0) side->push_back(z3::uge(e, bvnum(atoms[id].lo))); break; }
    case AMOD: { if (!isc(atoms[id].b)) throw Unsupported(); e = bvmodp(atoms[id].a, zval(atoms[id].b)); break; }
    case ADIV: { if (!isc(atoms[id].b) || zval(atoms[id].b) >= lim) throw Unsupported();
      Z lo, hi; if (!interval(atoms[id].a, lo, hi) || lo < 0 || hi >= (Z(1) << (W - 1))) throw Unsupported();
      e = z3::udiv(bvexact(atoms[id].a), bvnum(zval(atoms[id].b))); break; }
    case AITE: e = z3::ite(tb(atoms[id].sb), bvexact(atoms[id].a), bvexact(atoms[id].b)); break;
  }
  // name the term so that later uses share it
  zbv->emplace(id, e); return e;
}
static map<pair<int,string>,z3::expr>* monomodc = nullptr;
// residues modulo M live in rw(M) bits, always in [0, M)
static unsigned rw(const Z& M) { unsigned w = 1; while ((Z(1) << w) < M) ++w; return w; }
static z3::expr rnum(const Z& z, unsigned w) { return ctx().bv_val(z.get_str().c_str(), w); }
static z3::expr radd(const z3::expr& x, const z3::expr& y, const Z& M) {
  unsigned w = rw(M); if (M == (Z(1) << w)) return x + y;
  z3::expr s = z3::zext(x, 1) + z3::zext(y, 1), m = rnum(M, w + 1);
  return z3::ite(z3::uge(s, m), s - m, s).extract(w - 1, 0);
}
static z3::expr rcmul(const Z& c, const z3::expr& x, const Z& M) {
  unsigned w = rw(M); if (c == 1) return x;
  if (M <= 16) { z3::expr r = rnum(Z(0), w); for (long i = 1; i < M.get_si(); ++i) { Z v = c * i; mpz_fdiv_r(v.get_mpz_t(), v.get_mpz_t(), M.get_mpz_t()); r = z3::ite(x == rnum(Z(i), w), rnum(v, w), r); } return r; }
  return z3::urem(z3::zext(x, w) * rnum(c, 2 * w), rnum(M, 2 * w)).extract(w - 1, 0);
}
static z3::expr rmul(const z3::expr& x, const z3::expr& y, const Z& M) {
  unsigned w = rw(M);
  if (M <= 8) { z3::expr r = rnum(Z(0), w); for (long i = 1; i < M.get_si(); ++i) r = z3::ite(y == rnum(Z(i), w), rcmul(Z(i), x, M), r); return r; }
  return z3::urem(z3::zext(x, w) * z3::zext(y, w), rnum(M, 2 * w)).extract(w - 1, 0);
}
static z3::expr rmodp(Val a, const Z& M);
static z3::expr monomod(int mono, const Z& M) {
  if (!monomodc) monomodc = new map<pair<int,string>,z3::expr>;
  auto kk = std::make_pair(mono, M.get_str());
  auto it = monomodc->find(kk); if (it != monomodc->end()) return it->second;
  z3::expr r(ctx()); unsigned w = rw(M);
  const Mono m = monos[mono];
  if (m.size() == 1 && m[0].second == 1) {
    Atom& A = atoms[m[0].first];
    if (A.k == AMOD && isc(A.b) && zval(A.b) == M) r = rmodp(A.a, M);
    else { r = bva(m[0].first); if (!A.hashi || A.hi >= M) r = z3::urem(r, bvnum(M)); r = r.extract(w - 1, 0); }
  } else {
    Mono rest = m; int last = rest.back().first; if (--rest.back().second == 0) rest.pop_back();
    z3::expr x = monomod(mono_get(rest), M), y = monomod(mono_get(Mono{{last, 1}}), M);
    r = rmul(x, y, M);
  }
  monomodc->emplace(kk, r); return r;
}
// nested Horner form: p = x * q + r for the most frequent variable x
static z3::expr rhorner(vector<pair<Mono,Z>> t, const Z& M) {
  unsigned w = rw(M);
  if (t.size() <= 2) { z3::expr s = rnum(Z(0), w); bool first = true;
    for (auto& k : t) { z3::expr x = k.first.empty() ? rnum(k.second, w) : rcmul(k.second, monomod(mono_get(k.first), M), M); s = first ? x : radd(s, x, M); first = false; } return s; }
  map<int,int> cnt; for (auto& k : t) for (auto& f : k.first) ++cnt[f.first];
  int best = -1, bc = 0; for (auto& k : cnt) if (k.second > bc) { bc = k.second; best = k.first; }
  if (bc <= 1) { z3::expr s = rnum(Z(0), w); bool first = true; for (auto& k : t) { z3::expr x = k.first.empty() ? rnum(k.second, w) : rcmul(k.second, monomod(mono_get(k.first), M), M); s = first ? x : radd(s, x, M); first = false; } return s; }
  vector<pair<Mono,Z>> q, r;
  for (auto& k : t) { bool h = false; Mono m = k.first; for (size_t i = 0; i < m.size(); ++i) if (m[i].first == best) { h = true; if (--m[i].second == 0) m.erase(m.begin() + i); break; } (h ? q : r).push_back({m, k.second}); }
  z3::expr x = rmul(rhorner(q, M), monomod(mono_get(Mono{{best, 1}}), M), M);
  return r.empty() ? x : radd(x, rhorner(r, M), M);
}
static z3::expr rmodp(Val a, const Z& M) {
  unsigned w = rw(M);
  if (M * M >= (Z(1) << (W - 2))) throw Unsupported();
  if (isc(a)) { Z r; Z z = zval(a); mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), M.get_mpz_t()); return rnum(r, w); }
  vector<pair<Mono,Z>> t;
  for (auto& k : P(a)->t) { Z c; mpz_fdiv_r(c.get_mpz_t(), k.second.get_mpz_t(), M.get_mpz_t()); if (c != 0) t.push_back({monos[k.first], c}); }
  if (t.empty()) return rnum(Z(0), w);
  return rhorner(t, M);
}
static z3::expr bvmodp(Val a, const Z& M) { return z3::zext(rmodp(a, M), W - rw(M)); }
static z3::expr bvexact(Val a) {  // two's complement, exact
  Z lo, hi; Z lim = Z(1) << (W - 2);
  if (!interval(a, lo, hi) || lo <= -lim || hi >= lim) throw Unsupported();
  if (isc(a)) { Z z = zval(a); if (z < 0) z += Z(1) << W; return bvnum(z); }
  z3::expr s = bvnum(Z(0));
  for (auto& t : P(a)->t) {
    Z c = t.second; if (c < 0) c += Z(1) << W; mpz_fdiv_r_2exp(c.get_mpz_t(), c.get_mpz_t(), W);
    z3::expr x = bvnum(c); for (auto& f : monos[t.first]) for (int i = 0; i < f.second; ++i) x = x * bva(f.first);
    s = s + x;
  }
  return s;
}
static z3::expr tb(int id) {
  if (!zb) zb = new std::unordered_map<int,z3::expr>;
  auto it = zb->find(id); if (it != zb->end()) return it->second;
  z3::expr e(ctx());
  BNode b = bs[id];
  switch (b.k) {
    case BFALSE: e = ctx().bool_val(false); break;
    case BTRUE: e = ctx().bool_val(true); break;
    case BEQ: e = bvmode ? bvexact(b.v) == bvnum(Z(0)) : ti(b.v) == 0; break;
    case BGE: e = bvmode ? bvexact(b.v) >= bvnum(Z(0)) : ti(b.v) >= 0; break;
    case BEQM: {
      if (bvmode) e = rmodp(b.v, zval(b.m)) == rnum(Z(0), rw(zval(b.m)));
      else { Val r = v_mod(b.v, b.m); e = ti(r) == 0; }
      break; }
    case BNOT: e = !tb(b.a); break;
    case BAND: e = tb(b.a) && tb(b.b); break;
    case BOR: e = tb(b.a) || tb(b.b); break;
  }
  zb->emplace(id, e); return e;
}
// ------------------------------------------------------------ solver
static vector<int> pc; static std::set<int> pcset;
static z3::solver* slv = nullptr; static size_t pc_asserted = 0, side_asserted = 0;
static z3::solver& solver() {
  if (!side) side = new vector<z3::expr>;
  if (!slv) {
    if (bvmode) { z3::tactic t = z3::tactic(ctx(), "simplify") & z3::tactic(ctx(), "solve-eqs") & z3::tactic(ctx(), "bit-blast") & z3::tactic(ctx(), "sat");
      slv = new z3::solver(t.mk_solver()); }
    else slv = new z3::solver(ctx());
    z3::params p(ctx()); p.set("rlimit", bvmode ? 20 * rlimit_base : rlimit_base); p.set("timeout", 30000u); slv->set(p);
  }
  return *slv;
}
static std::mt19937_64 rng(12345);
static Z rnd_in(const Atom& A) {
  Z lo, hi;
  if (A.haslo && A.hashi) { lo = A.lo; hi = A.hi; }
  else if (A.haslo) { lo = A.lo; hi = A.lo + (Z(1) << (rng() % 40)); }
  else if (A.hashi) { hi = A.hi; lo = A.hi - (Z(1) << (rng() % 40)); }
  else { Z b = Z(1) << (rng() % 40); lo = -b; hi = b; }
  Z w = hi - lo + 1, r = 0; 
  int mode = rng() % 8;
  if (mode == 0) return lo;
  if (mode == 1) return hi;
  for (int i = 0; i < 6; ++i) { r <<= 64; r += Z((unsigned long)rng()); }
  mpz_fdiv_r(r.get_mpz_t(), r.get_mpz_t(), w.get_mpz_t());
  return lo + r;
}
static bool sat_model(const Model& m, int extra) {
  std::unordered_map<int,Z> memo;
  if (!evalb(extra, m, memo)) return false;
  for (int id : pc) if (!evalb(id, m, memo)) return false;
  return true;
}
static vector<int> symlist;
static map<string,int> symnames;
static bool random_witness(int b, Model& out, int tries) {
  for (int i = 0; i < tries; ++i) {
    Model m = cur;
    // perturb either everything or a few symbols
    if (i % 2) { for (int s : symlist) m[s] = rnd_in(atoms[s]); }
    else { int k = 1 + rng() % 4; for (int j = 0; j < k && !symlist.empty(); ++j) { int s = symlist[rng() % symlist.size()]; m[s] = rnd_in(atoms[s]); } }
    if (sat_model(m, b)) { out = m; return true; }
  }
  return false;
}
enum R { SAT, UNSAT, UNK };
// bit-vector encoding of the same question, for small bounded symbols where integer arithmetic gave up
static R bv_retry(int b, Model& out) {
  if (bvmode) return UNK;
  auto* o_zb = zb; auto* o_zbv = zbv; auto* o_side = side; auto* o_mm = monomodc; R res = UNK;
  zb = new std::unordered_map<int,z3::expr>; zbv = new std::unordered_map<int,z3::expr>; side = new vector<z3::expr>; monomodc = new map<pair<int,string>,z3::expr>; bvmode = true;
  try {
    z3::tactic t = z3::tactic(ctx(), "simplify") & z3::tactic(ctx(), "solve-eqs") & z3::tactic(ctx(), "bit-blast") & z3::tactic(ctx(), "sat"); z3::solver s = t.mk_solver();
    z3::params p(ctx()); p.set("rlimit", 20 * rlimit_base); p.set("timeout", 30000u); s.set(p);
    vector<z3::expr> es; for (int id : pc) es.push_back(tb(id)); es.push_back(tb(b)); for (auto& e : *side) s.add(e); for (auto& e : es) s.add(e);
    z3::check_result r = s.check();
    if (r == z3::unsat) res = UNSAT;
    else if (r == z3::sat) { z3::model zm = s.get_model(); Model m;
      for (int id : symlist) { auto it = zbv->find(id); if (it == zbv->end()) continue; m[id] = Z(Z3_get_numeral_string(ctx(), zm.eval(it->second, true))); }
      for (auto& kv : cur) if (!m.count(kv.first)) m[kv.first] = kv.second;
      if (sat_model(m, b)) { out = m; res = SAT; } }
  } catch (Unsupported&) {} catch (z3::exception&) {}
  zb = o_zb; zbv = o_zbv; side = o_side; monomodc = o_mm; bvmode = false;
  return res;
}
static R query(int b, Model& out) {
  if (b == 0) return UNSAT;
  S->queries++;
  double t0 = now();
  R res = UNK;
  try {
    z3::solver& s = solver();
    vector<z3::expr> nw;
    for (; pc_asserted < pc.size(); ++pc_asserted) { z3::expr e = tb(pc[pc_asserted]); nw.push_back(e); }
    z3::expr g = tb(b);
    for (; side_asserted < side->size(); ++side_asserted) s.add((*side)[side_asserted]);
    for (auto& e : nw) s.add(e);
    s.push(); s.add(g);
    z3::check_result r = s.check();
    if (r == z3::sat) {
      z3::model zm = s.get_model();
      Model m;
      for (int id : symlist) {
        z3::expr v(ctx());
        auto& tab = bvmode ? zbv : zat;
        if (!tab) continue;
        auto it = tab->find(id); if (it == tab->end()) continue;
        v = zm.eval(it->second, true);
        string str = bvmode ? v.get_decimal_string(0) : string(Z3_get_numeral_string(ctx(), v));
        if (bvmode) str = Z3_get_numeral_string(ctx(), v);
        m[id] = Z(str);
      }
      s.pop();
      for (auto& kv : cur) if (!m.count(kv.first)) m[kv.first] = kv.second;
      if (sat_model(m, b)) { out = m; res = SAT; }
      else res = UNK;   // translation mismatch: never trust it
    } else { s.pop(); res = r == z3::unsat ? UNSAT : UNK; }
  } catch (Unsupported&) { res = UNK; }
  catch (z3::exception& e) { if (debug) fprintf(stderr, "z3: %s\n", e.msg()); res = UNK; }
  S->solver_us += (long)((now() - t0) * 1e6);
  if (res == UNK) res = bv_retry(b, out);
  if (res == UNK && random_witness(b, out, 400)) { S->witness++; res = SAT; }
  if (res == SAT) S->sat++; else if (res == UNSAT) S->unsat++; else S->unknown++;
  if (debug) fprintf(stderr, "[%d] query %d -> %d (%.3fs)\n", (int)getpid(), b, res, now() - t0);
  if (debug && now() - t0 > 3) { string o; for (int id : symlist) o += atoms[id].name + "=" + cur[id].get_str() + " "; fprintf(stderr, "slow: %s\n", o.c_str()); void* fr[24]; int n = backtrace(fr, 24); backtrace_symbols_fd(fr, n, 2); }
  return res;
}
// ------------------------------------------------------------ process tree
static vector<pid_t> kids;
static bool own_token = false;
static int expect_abort = 0;
void set_expect_abort(int m) { expect_abort = m; }
int get_expect_abort() { return expect_abort; }
static std::set<int> chosen;   // case splits: fixed on a path
static void put_cand(const Model& m, const string& msg) {
  long n = S->cands++;
  string fn = outdir + "/cand." + std::to_string(n) + ".in";
  FILE* f = fopen(fn.c_str(), "w");
  if (!f) return;
  fprintf(f, "# %s\n", msg.c_str());
  std::unordered_map<int,Z> memo;
  for (int id : symlist) { Z v = evala(id, m, memo); fprintf(f, "%s %s\n", atoms[id].name.c_str(), v.get_str().c_str()); }
  fclose(f);
}
// a counterexample, and a few more of the same path spread over the inputs: when what failed is a precondition of a library, only some of them go wrong there
static void write_cand(const Model& m, const string& msg, int bid = 1) {
  lk();
  int slot = -1;
  for (int i = 0; i < S->candmsgs; ++i) if (!strncmp(S->candmsg[i], msg.c_str(), 199)) slot = i;
  if (slot < 0 && S->candmsgs < 64) { slot = S->candmsgs; strncpy(S->candmsg[slot], msg.c_str(), 199); S->candmsgs = slot + 1; }
  int cnt = slot >= 0 ? S->candmsgcount[slot]++ : 1000;
  ulk();
  if (cnt >= 3) return;
  put_cand(m, msg);
  int more = 0; Model m2;
  for (int t = 0; t < 40 && more < 2; ++t) { m2 = m; for (int s : symlist) if (!chosen.count(s) && (t % 2 == 0 || rng() % 2)) m2[s] = rnd_in(atoms[s]); if (t > 20) { m2 = m; for (int k = 0; k < 3 && !symlist.empty(); ++k) { int s = symlist[rng() % symlist.size()]; m2[s] = rnd_in(atoms[s]); } } if (sat_model(m2, bid)) { put_cand(m2, msg); ++more; } }
}
static int wit_max = 10;
static void write_wit() {
  if (symlist.empty() || S->witfiles >= wit_max) return;
  int n = S->witfiles++; if (n >= wit_max) return;
  Model m = cur, m2; 
  for (int t = 0; t < 30; ++t) { m2 = cur; for (int s : symlist) if (!chosen.count(s)) m2[s] = rnd_in(atoms[s]); if (sat_model(m2, 1)) { m = m2; break; } 
     m2 = m; for (int k = 0; k < 3; ++k) { int s = symlist[rng() % symlist.size()]; m2[s] = rnd_in(atoms[s]); } if (sat_model(m2, 1)) m = m2; }
  string fn = outdir + "/wit." + std::to_string(n) + ".in"; FILE* f = fopen(fn.c_str(), "w"); if (!f) return;
  std::unordered_map<int,Z> memo;
  for (int id : symlist) { Z v = evala(id, m, memo); fprintf(f, "%s %s\n", atoms[id].name.c_str(), v.get_str().c_str()); }
  fclose(f);
}
static bool path_failed = false;
static void wait_kids() {
  for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} 
    if (WIFSIGNALED(st)) { note_incomplete("path process killed by signal " + std::to_string(WTERMSIG(st))); } }
  kids.clear();
}
void end_path() {
  fflush(stdout); fflush(stderr);
  std::cout.flush(); std::cerr.flush();
  S->paths++;
  if (!path_failed && (rng() % 4 == 0 || S->paths < 4)) write_wit();
  if (own_token) { S->tokens--; own_token = false; }
  wait_kids();
  _exit(0);
}
void note_incomplete(const string& w) {
  if (!S) return;
  S->incomplete++;
  lk(); bool have = false; for (int i = 0; i < S->ninc; ++i) if (!strncmp(S->inc[i], w.c_str(), 159)) have = true;
  if (!have && S->ninc < 32) { strncpy(S->inc[S->ninc], w.c_str(), 159); S->ninc++; }
  ulk();
}
void mark(const string& t) {
  if (!S) return;
  lk(); int i; for (i = 0; i < S->nmarks; ++i) if (!strncmp(S->marks[i], t.c_str(), 95)) break;
  if (i == S->nmarks && i < 512) { strncpy(S->marks[i], t.c_str(), 95); S->nmarks++; }
  ulk();
  if (i < 512) S->markcount[i]++;
}
static void add_pc(SB b) { if (b.id > 1 && pcset.insert(b.id).second) pc.push_back(b.id); }
static void check_limits() {
  if (now() > deadline) { note_incomplete("time budget reached"); end_path(); }
  if (S->paths > max_paths) { note_incomplete("path budget reached"); end_path(); }
}
bool decide(SB b) {
  bool k; if (sb_isconst(b, k)) return k;
  if (pcset.count(b.id)) return true;
  SB nb = sb_not(b);
  if (pcset.count(nb.id)) return false;
  check_limits();
  S->branches++;
  bool side_cur = evalb(b.id, cur);     // one side is witnessed by the current model
  SB other = side_cur ? nb : b;
  Model m2;
  R r = UNK; bool have = false;
  if (symlist.size() && random_witness(other.id, m2, 12)) { r = SAT; have = true; S->witness++; }
  else r = query(other.id, m2), have = (r == SAT);
  if (r == UNSAT) { add_pc(side_cur ? b : nb); return side_cur; }
  if (r == UNK) {
    // cannot decide the feasibility of the other side: it is left unexplored and reported
    note_incomplete("solver could not decide a branch");
    add_pc(side_cur ? b : nb); return side_cur;
  }
  (void)have;
  // both feasible: fork; child takes the other side
  S->forks++;
  bool tok = false; 
  if (S->tokens.fetch_add(1) < max_procs - 1) tok = true; else S->tokens--;
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
  pid_t p = fork();
  if (p < 0) { if (tok) S->tokens--; note_incomplete("fork failed"); add_pc(side_cur ? b : nb); return side_cur; }
  if (p == 0) {
    kids.clear(); own_token = tok; cur = m2; add_pc(other); rng.seed(getpid());
    return !side_cur;
  }
  if (tok) kids.push_back(p);
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) note_incomplete("path process killed by signal " + std::to_string(WTERMSIG(st))); check_limits(); }
  add_pc(side_cur ? b : nb);
  return side_cur;
}
void assume(SB b) {
  bool k; if (sb_isconst(b, k)) { if (!k) { if (own_token) { S->tokens--; own_token = false; } wait_kids(); _exit(0); } return; }
  if (pcset.count(b.id)) return;
  if (evalb(b.id, cur)) { add_pc(b); return; }
  Model m; R r = UNK;
  if (random_witness(b.id, m, 12)) { r = SAT; S->witness++; }
  else r = query(b.id, m);
  if (r == SAT) { cur = m; add_pc(b); return; }
  if (r == UNK) note_incomplete("solver could not decide an assumption");
  if (own_token) { S->tokens--; own_token = false; } wait_kids(); _exit(0);
}
static string showv(Val v) { vector<pair<int,Z>> buf; string o; for (auto& t : terms(v, buf)) { o += (o.empty() ? "" : " + ") + t.second.get_str(); for (auto& f : monos[t.first]) o += "*" + (atoms[f.first].name.size() ? atoms[f.first].name : "@" + std::to_string(f.first)) + (f.second > 1 ? "^" + std::to_string(f.second) : ""); } return o.substr(0, 1500); }
static string showb(int id) { const BNode& n = bs[id]; if (n.k == BNOT) return "not " + showb(n.a); if (n.k == BAND || n.k == BOR) return "(" + showb(n.a) + (n.k == BAND ? " and " : " or ") + showb(n.b) + ")"; if (n.k == BEQM) return showv(n.v) + " = 0 mod " + showv(n.m); if (n.k == BEQ) return showv(n.v) + " = 0"; if (n.k == BGE) return showv(n.v) + " >= 0"; return "const"; }
void check(SB b, const string& msg) {
  check_limits();
  S->obligations++;
  bool k;
  if (sb_isconst(b, k)) { if (k) { S->discharged++; S->obl_nf++; return; } write_cand(cur, msg); note_incomplete("counterexample: path ended"); end_path(); }
  if (pcset.count(b.id)) { S->discharged++; return; }
  SB nb = sb_not(b);
  Model m;
  if (evalb(nb.id, cur)) { write_cand(cur, msg, nb.id); }
  else {
    R r = UNK;
    if (random_witness(nb.id, m, 12)) { S->witness++; r = SAT; } else r = query(nb.id, m);
    if (r == UNSAT) { S->discharged++; add_pc(b); return; }
    if (r == SAT) write_cand(m, msg, nb.id);
    else { if (debug) { string o = "undecided: " + showb(b.id) + "\n"; for (size_t i = 0; i < atoms.size() && i < 200; ++i) if (atoms[i].k == AMOD) o += "   " + atoms[i].name + " := " + showv(atoms[i].a) + " mod " + showv(atoms[i].b) + "\n"; for (int id : pc) o += "   given " + showb(id) + "\n"; fprintf(stderr, "%s", o.c_str()); } S->undecided++; note_incomplete("undecided obligation: " + msg); add_pc(b); return; }
  }
  assume(b);
}
void fail_hard(const string& msg) { expect_abort = 0; fail(msg); end_path(); }
static int nf_left = 12;
void nf_obligation(Val a, Val b, Val m) {
  if (isc(a) && isc(b)) return;
  if (nf_left <= 0 || (S->nfchk.load() > 2000 && (nf_left < 12 || getpid() % 8))) return;
  if ((is_small(a) ? 1 : P(a)->t.size()) + (is_small(b) ? 1 : P(b)->t.size()) > 120) return;
  --nf_left; S->nfchk++; double t0 = now(); S->queries++;
  try {
    z3::context& c = ctx(); if (!side) side = new vector<z3::expr>;
    bool bm = bvmode; bvmode = false;
    z3::solver s(c); z3::params p(c); p.set("rlimit", 400000u); p.set("timeout", 5000u); s.set(p);
    z3::expr d = ti(a) - ti(b); 
    if (!(is_small(m) && sval(m) == 0)) { z3::expr q = c.int_const("nfq"); s.add(q >= 0); s.add(d != zint(zval(m)) * q && d != zint(zval(m)) * -q && d != 0); s.add(z3::mod(d, zint(zval(m))) != 0); }
    else s.add(d != 0);
    for (auto& e : *side) s.add(e); // what the quotients and remainders in it mean
    z3::check_result r = s.check();
    bvmode = bm;
    if (r == z3::unsat) S->unsat++; else if (r == z3::unknown) S->unknown++;
    else { S->sat++; note_incomplete("normal form and solver disagree"); }
  } catch (...) { S->unknown++; }
  S->solver_us += (long)((now() - t0) * 1e6);
}
long choose(const string& name, long lo, long hi) {
  v_sym(name, v_long(lo), v_long(hi)); int id = symnames[name]; Val a = atom_val(id); chosen.insert(id);
  for (long i = hi; i > lo; --i) {
    check_limits();
    bool tok = false;
    if (S->tokens.fetch_add(1) < max_procs - 1) tok = true; else S->tokens--;
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    S->forks++;
    pid_t p = fork();
    if (p < 0) { if (tok) S->tokens--; note_incomplete("fork failed"); continue; }
    if (p == 0) { kids.clear(); own_token = tok; cur[id] = i; add_pc(sb_eq(a, v_long(i))); rng.seed(getpid()); return i; }
    if (tok) kids.push_back(p);
    else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) note_incomplete("path process killed by signal " + std::to_string(WTERMSIG(st))); }
  }
  cur[id] = lo; add_pc(sb_eq(a, v_long(lo)));
  return lo;
}
void fail(const string& msg) {
  if (expect_abort) { S->aborted_paths++; S->discharged++; S->obligations++; end_path(); }
  S->obligations++;
  path_failed = true;
  write_cand(cur, msg);
  end_path();
}
Val v_concretize_val(Val a) {
  for (int guard = 0; ; ++guard) {
    if (isc(a)) return a;
    if (guard > 5000) { note_incomplete("value concretisation limit"); end_path(); }
    std::unordered_map<int,Z> memo; Z v = eval(a, cur, memo);
    Val c = mkz(v);
    if (decide(sb_eq(a, c))) return c;
  }
}
long v_concretize(Val a) { if (is_small(a)) return sval(a); return v_getlong(v_concretize_val(a)); }

static void set_bounds(Atom& A, Val lo, Val hi) { A.haslo = A.hashi = true; A.lo = zval(lo); A.hi = zval(hi); }
Val v_sym(const string& name, Val lo, Val hi) {
  init_core(); 
  auto it = symnames.find(name); if (it != symnames.end()) return atom_val(it->second);
  Atom A; A.k = ASYM; A.name = name; set_bounds(A, lo, hi); A.a = A.b = Val{0}; A.sb = 0;
  if (A.lo == A.hi) { /* still a symbol so that replays list it */ }
  int id = new_atom(A); symnames[name] = id; symlist.push_back(id);
  cur[id] = A.lo > 0 ? A.lo : A.hi < 0 ? A.hi : Z(0);
  return atom_val(id);
}
static map<string,int> freshc;
int fresh_limit = 1 << 30;  // number of draws of one kind on a path; a path that needs more ends (a stated bound)
vector<long> fresh_preset;   // draws fixed by the harness, repeated in turn
Val v_fresh(const char* p, Val lo, Val hi) { int k = freshc[p]++; if (!fresh_preset.empty()) return v_long(fresh_preset[k % fresh_preset.size()]); if (k >= fresh_limit) { mark("draw limit"); end_path(); } return v_sym(string(p) + std::to_string(k), lo, hi); }

static vector<Val> handles; static map<string,long> hmap;
long handle_of(Val a) { string k = key(a); auto it = hmap.find(k); if (it != hmap.end()) return it->second; handles.push_back(a); hmap[k] = handles.size() - 1; return handles.size() - 1; }
Val from_handle(long h) { if (h < 0 || h >= (long)handles.size()) { fail("stream: bad symbolic handle"); end_path(); } return handles[h]; }

struct Blob { size_t n; Val v; };
static map<const unsigned char*, Blob> blobs;
void bytes_store(const void* pp, size_t n, Val v) {
  unsigned char* p = (unsigned char*)pp;
  // drop overlapping shadows
  for (auto it = blobs.begin(); it != blobs.end();) { if (it->first < p + n && p < it->first + it->second.n) it = blobs.erase(it); else ++it; }
  Z two; mpz_ui_pow_ui(two.get_mpz_t(), 2, 8 * n);
  Val r = mk_small(0);
  if (n) { SB fit = sb_lt(v, mkz(two)); bool k; r = (sb_isconst(fit, k) ? k : pcset.count(fit.id)) ? v : v_mod(v, mkz(two)); }
  if (isc(r)) { Z z = zval(r); memset(p, 0, n); size_t cnt; if (n) mpz_export(p, &cnt, -1, 1, 1, 0, z.get_mpz_t()); return; }
  memset(p, 0xA5, n);
  blobs[p] = Blob{n, r};
}
static Val byte_at(const unsigned char* p) {
  auto it = blobs.upper_bound(p);
  if (it != blobs.begin()) { --it; if (p < it->first + it->second.n) {
    size_t off = p - it->first; Z s; mpz_ui_pow_ui(s.get_mpz_t(), 2, 8 * off);
    return v_mod(v_fdiv(it->second.v, mkz(s)), mk_small(256)); } }
  return mk_small(*p);
}
Val bytes_load(const void* pp, size_t n, bool big) {
  const unsigned char* p = (const unsigned char*)pp;
  if (n == 0) return mk_small(0);
  auto it = blobs.find(p);
  if (!big && it != blobs.end() && it->second.n >= n) {
    if (it->second.n == n) return it->second.v;
    Z two; mpz_ui_pow_ui(two.get_mpz_t(), 2, 8 * n); return v_mod(it->second.v, mkz(two));
  }
  Val r = mk_small(0);
  for (size_t i = 0; i < n; ++i) { const unsigned char* q = big ? p + i : p + (n - 1 - i); r = v_add(v_mul(r, mk_small(256)), byte_at(q)); }
  return r;
}
// ------------------------------------------------------------ function coverage
extern "C" {
void __cyg_profile_func_enter(void* f, void*) __attribute__((no_instrument_function));
void __cyg_profile_func_exit(void*, void*) __attribute__((no_instrument_function));
static std::set<void*>* seen = nullptr;
void __cyg_profile_func_enter(void* f, void*) {
  if (!S) return;
  if (!seen) seen = new std::set<void*>;
  if (!seen->insert(f).second) return;
  lk(); int n = S->nfun; bool have = false; for (int i = 0; i < n; ++i) if (S->fun[i] == f) { have = true; break; }
  if (!have && n < 8192) { S->fun[n] = f; S->nfun = n + 1; } ulk();
}
void __cyg_profile_func_exit(void*, void*) {}
void __assert_fail(const char* a, const char* file, unsigned line, const char* fn) noexcept {
  (void)fn;
  const char* b = strrchr(file, '/');
  fail(string("assertion failed: ") + a + " @ " + (b ? b + 1 : file) + ":" + std::to_string(line));
  _exit(0);
}
void abort() noexcept { fail("abort() called"); _exit(0); }
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
}
static void onsig(int s) {
  static volatile int depth = 0;
  if (depth++) _exit(0);
  fail_hard("signal " + std::to_string(s));
  _exit(0);
}
static void ondeath() { expect_abort = 0; path_failed = true; fprintf(stderr, "sanitizer death callback\n"); S->obligations++; write_cand(cur, "memory or undefined-behaviour error reported by the sanitizer"); S->paths++; if (own_token) { S->tokens--; own_token = false; } wait_kids(); _exit(0); }
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) { if (*s == '"' || *s == '\\') fputc('\\', f); if (*s == '\n') { fputs("\\n", f); continue; } fputc(*s, f); } fputc('"', f); }

int run(int argc, char** argv, void (*harness)()) {
  double budget = 240; 
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a == "--out") outdir = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--procs") max_procs = atoi(argv[++i]);
    else if (a == "--debug") debug = true;
    else if (a == "--rlimit") rlimit_base = atol(argv[++i]);
  }
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  init_core(); binit();
  double t0 = now(); deadline = t0 + budget;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
    S->tokens = 0;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
    try { harness(); }
    catch (std::exception& e) { fail(string("uncaught exception: ") + e.what()); }
    catch (...) { fail("uncaught exception"); }
    if (expect_abort == 2) { expect_abort = 0; fail("the run was required to stop with an error and did not"); }
    end_path();
  }
  int st = 0; bool killed = false; setpgid(p, p);
  while (waitpid(p, &st, WNOHANG) != p) {
    usleep(20000);
    if (!killed && now() > deadline + 20) { killed = true; note_incomplete("time budget reached (running paths stopped)"); kill(-p, SIGKILL); }
  }
  kill(-p, SIGKILL);
  if (!killed && WIFSIGNALED(st)) note_incomplete("root path killed by signal " + std::to_string(WTERMSIG(st)));
  string fn = outdir + "/summary.json";
  FILE* f = fopen(fn.c_str(), "w");
  if (!f) return 3;
  fprintf(f, "{\"paths\":%ld,\"forks\":%ld,\"branches\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"witness_sat\":%ld,\"obligations\":%ld,\"discharged\":%ld,\"discharged_by_normal_form\":%ld,\"undecided\":%ld,\"candidates\":%ld,\"incomplete\":%ld,\"aborted_paths\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\n",
    S->paths.load(), S->forks.load(), S->branches.load(), S->queries.load(), S->sat.load(), S->unsat.load(), S->unknown.load(), S->witness.load(), S->obligations.load(), S->discharged.load(), S->obl_nf.load(), S->undecided.load(), S->cands.load(), S->incomplete.load(), S->aborted_paths.load(), S->solver_us.load() / 1e6, now() - t0);
  fprintf(f, "\"marks\":{"); for (int i = 0; i < S->nmarks; ++i) { if (i) fputc(',', f); jstr(f, S->marks[i]); fprintf(f, ":%ld", S->markcount[i].load()); }
  fprintf(f, "},\n\"incomplete_reasons\":["); for (int i = 0; i < S->ninc; ++i) { if (i) fputc(',', f); jstr(f, S->inc[i]); }
  fprintf(f, "],\n\"messages\":["); for (int i = 0; i < S->candmsgs; ++i) { if (i) fputc(',', f); jstr(f, S->candmsg[i]); }
  fprintf(f, "],\n\"functions\":["); for (int i = 0; i < S->nfun; ++i) { if (i) fputc(',', f); fprintf(f, "\"%p\"", S->fun[i]); }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}
}
