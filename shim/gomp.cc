// OpenMP run-time used for checking.  The threads of a parallel region are run one after another, in a chosen order,
// each with its own thread-local modulus; nested regions have one thread.  With access recording (objects compiled with
// -fsanitize=thread, calls answered here) two accesses of different threads to the same location, one of them a write,
// without a common critical section, are reported: without such a pair every schedule computes what this one computes.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <string>
#include <algorithm>
#include <unordered_map>
#include <malloc.h>
extern void vomp_report(const std::string&);
extern void vomp_thread(int begin, int tid);   // thread-local state of the libraries
static int T = 1, order_ = 0, tid = 0, depth = 0, nthr = 1, who_ = 0;
static unsigned locks = 0; static bool recording = false, region = false; static uintptr_t stack_top;
struct Loop { bool set; long next, end, inc, chunk; bool up; };
static std::vector<Loop> loops; static long region_regions = 0;
struct Acc { uint8_t mask, write; int t; unsigned l; void* pc; };
static std::unordered_map<uintptr_t, std::vector<Acc> >* shadow = nullptr; static bool busy = false, raced = false;
static std::vector<std::pair<uintptr_t, uintptr_t> > ignored;
extern "C" {
void vomp_ignore(void* p, size_t n) { ignored.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void vomp_order(int o) { order_ = o; }
long vomp_regions() { return region_regions; }
void omp_set_num_threads(int n) { T = n < 1 ? 1 : n; }
int omp_get_max_threads() { return T; }
int omp_get_num_threads() { return nthr; }
int omp_get_thread_num() { return tid; }
int omp_get_num_procs() { return T; }
int omp_in_parallel() { return region && nthr > 1; }
int omp_get_thread_limit() { return T; }
int omp_get_level() { return depth; } int omp_get_active_level() { return depth ? 1 : 0; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; } void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { return 0; } double omp_get_wtick() { return 1; }
struct vlock { unsigned b; };
static unsigned bit(const void* p) { static std::vector<const void*> known; for (size_t i = 0; i < known.size(); ++i) if (known[i] == p) return 1u << (i % 30 + 1); known.push_back(p); return 1u << ((known.size() - 1) % 30 + 1); }
void omp_init_lock(void* l) { memset(l, 0, 4); } void omp_destroy_lock(void*) {} void omp_set_lock(void* l) { locks |= bit(l); } void omp_unset_lock(void* l) { locks &= ~bit(l); } int omp_test_lock(void* l) { locks |= bit(l); return 1; }
void GOMP_critical_start() { locks |= 1; } void GOMP_critical_end() { locks &= ~1u; }
void GOMP_critical_name_start(void** p) { locks |= bit(p); } void GOMP_critical_name_end(void** p) { locks &= ~bit(p); }
void GOMP_atomic_start() { locks |= 1u << 31; } void GOMP_atomic_end() { locks &= ~(1u << 31); }
void GOMP_barrier() { if (nthr > 1) vomp_report("!barrier inside a parallel region: threads are not interleaved there"); }
bool GOMP_single_start() { return tid == 0; }
void GOMP_ordered_start() {} void GOMP_ordered_end() {} void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int) { if (cpy) { std::vector<char> buf(sz + al); char* p = (char*)(((uintptr_t)buf.data() + al - 1) / al * al); cpy(p, data); fn(p); } else fn(data); }
static std::vector<long> pos_;
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  int st = tid, sn = nthr; bool nested = region; std::vector<Loop> sl; sl.swap(loops); std::vector<long> sp; sp.swap(pos_); Loop own = {false, 0, 0, 1, 1, true}; if (!sl.empty() && sl.back().set && sl.back().chunk < 0) { own = sl.back(); own.chunk = -own.chunk; sl.pop_back(); }
  int k = n ? (int)n : T; if (nested) k = 1; ++depth;
  std::vector<int> who(k); for (int i = 0; i < k; ++i) who[i] = order_ == 1 ? k - 1 - i : order_ == 2 ? (i + k / 2) % k : i;
  if (!nested) { region = true; ++region_regions; stack_top = (uintptr_t)__builtin_frame_address(0); if (shadow) shadow->clear(); recording = k > 1; }
  for (int i = 0; i < k; ++i) { if (!nested) { who_ = tid = who[i]; nthr = k; vomp_thread(1, tid); locks = 0; } else { tid = 0; nthr = 1; } loops.clear(); if (own.set) loops.push_back(own); pos_.clear(); fn(data); if (!nested) vomp_thread(0, tid); }
  if (!nested) { region = false; recording = false; locks = 0; }
  tid = st; nthr = sn; --depth; loops.swap(sl); pos_.swap(sp);
}
// dynamic schedules: thread t gets the chunks t, t+k, ...
static bool take(long* a, long* b) { if (loops.empty() || !loops.back().set) return false; Loop& L = loops.back(); for (;;) { if (L.inc > 0 ? L.next >= L.end : L.next <= L.end) return false; long s = L.next, e = s + L.inc * L.chunk; if (L.inc > 0 ? e > L.end : e < L.end) e = L.end; L.next = e; if (pos_.empty()) pos_.push_back(0); long c = pos_[0]++; if (c % nthr == tid) { *a = s; *b = e; return true; } } }
static bool begin(long s, long e, long i, long c, long* a, long* b) { Loop L = {true, s, e, i, c < 1 ? 1 : c, true}; loops.clear(); loops.push_back(L); pos_.clear(); return take(a, b); }
#define KIND(X) \
 void GOMP_parallel_loop_##X(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { Loop L = {true, s, e, i, -(c < 1 ? 1 : c), true}; loops.push_back(L); GOMP_parallel(fn, d, n, f); } \
 bool GOMP_loop_##X##_start(long s, long e, long i, long c, long* a, long* b) { return begin(s, e, i, c, a, b); } \
 bool GOMP_loop_##X##_next(long* a, long* b) { return take(a, b); } \
 bool GOMP_loop_ull_##X##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return begin(s, e, i, c, (long*)a, (long*)b); } \
 bool GOMP_loop_ull_##X##_next(unsigned long long* a, unsigned long long* b) { return take((long*)a, (long*)b); }
KIND(dynamic) KIND(nonmonotonic_dynamic) KIND(guided) KIND(nonmonotonic_guided) KIND(static) KIND(ordered_static) KIND(ordered_dynamic)
#define KINDR(X) void GOMP_parallel_loop_##X(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { Loop L = {true, s, e, i, -1, true}; loops.push_back(L); GOMP_parallel(fn, d, n, f); } \
 bool GOMP_loop_##X##_start(long s, long e, long i, long* a, long* b) { return begin(s, e, i, 1, a, b); } bool GOMP_loop_##X##_next(long* a, long* b) { return take(a, b); }
KINDR(runtime) KINDR(nonmonotonic_runtime) KINDR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { if (nthr > 1) GOMP_barrier(); } void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { loops.clear(); Loop L = {true, 1, (long)n + 1, 1, 1, true}; loops.push_back(L); pos_.clear(); long a, b; return take(&a, &b) ? a : 0; }
unsigned GOMP_sections_next() { long a, b; return take(&a, &b) ? a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned f) { Loop L = {true, 1, (long)c + 1, 1, -1, true}; loops.push_back(L); GOMP_parallel(fn, d, n, f); }
void GOMP_sections_end() { if (nthr > 1) GOMP_barrier(); } void GOMP_sections_end_nowait() {}
#ifdef VERIF_RACE
void __libc_free(void*); void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
// nothing is recycled inside a region: distinct objects keep distinct addresses
void free(void* p) { if (!region) __libc_free(p); }
void* realloc(void* p, size_t n) { if (!region || !p) return __libc_realloc(p, n); void* q = __libc_malloc(n); if (q) { size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); } return q; }
static int quiet = 0;
int __cxa_guard_acquire(long long* g) { if (*(char*)g) return 0; ++quiet; return 1; } void __cxa_guard_release(long long* g) { *(char*)g = 1; --quiet; } void __cxa_guard_abort(long long*) { --quiet; }
static void access(void* p_, size_t n, bool w, void* pc = __builtin_return_address(0)) {
  if (!recording || busy || quiet || raced) return; uintptr_t p = (uintptr_t)p_; if (p < stack_top && p + (64ul << 20) > stack_top) return;
  for (auto& r : ignored) if (p >= r.first && p < r.second) return;
  busy = true; if (!shadow) shadow = new std::unordered_map<uintptr_t, std::vector<Acc> >;
  for (uintptr_t g = p & ~7ul; g < p + n && !raced; g += 8) { uint8_t m = 0; for (int i = 0; i < 8; ++i) if (g + i >= p && g + i < p + n) m |= 1 << i;
    auto& v = (*shadow)[g]; bool have = false; int readers = 0;
    for (auto& a : v) { if (a.t != who_ && (a.mask & m) && (w || a.write) && !(a.l & locks)) { raced = true; if (getenv("VOMP_DEBUG")) fprintf(stderr, "race at %lx: pc %p (thread %d, write %d) and %p (thread %d, write %d)\n", (unsigned long)g, a.pc, a.t, a.write, pc, who_, w); break; } if (a.t == who_ && a.write == w && a.l == locks) { a.mask |= m; have = true; } if (!a.write && a.l == locks && (a.mask & m) == m) ++readers; }
    if (!raced && !have && (w || readers < 2)) v.push_back({m, (uint8_t)w, who_, locks, pc}); }
  busy = false;
  if (raced) { bool was = recording; recording = false; vomp_report(std::string("two threads ") + (w ? "write" : "read and write") + " the same location without synchronisation"); recording = was; raced = false; }
}
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); } void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); } void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define A(N) void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } void __tsan_volatile_read##N(void* p) { access(p, N, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true); } void __tsan_read##N##_pc(void* p, void*) { access(p, N, false); } void __tsan_write##N##_pc(void* p, void*) { access(p, N, true); }
A(1) A(2) A(4) A(8) A(16)
#define AT(B, U) U __tsan_atomic##B##_load(const volatile U* p, int) { return *p; } void __tsan_atomic##B##_store(volatile U* p, U v, int) { *p = v; } U __tsan_atomic##B##_exchange(volatile U* p, U v, int) { U o = *p; *p = v; return o; } \
 U __tsan_atomic##B##_fetch_add(volatile U* p, U v, int) { U o = *p; *p = o + v; return o; } U __tsan_atomic##B##_fetch_sub(volatile U* p, U v, int) { U o = *p; *p = o - v; return o; } U __tsan_atomic##B##_fetch_and(volatile U* p, U v, int) { U o = *p; *p = o & v; return o; } U __tsan_atomic##B##_fetch_or(volatile U* p, U v, int) { U o = *p; *p = o | v; return o; } U __tsan_atomic##B##_fetch_xor(volatile U* p, U v, int) { U o = *p; *p = o ^ v; return o; } U __tsan_atomic##B##_fetch_nand(volatile U* p, U v, int) { U o = *p; *p = ~(o & v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile U* p, U* e, U v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##B##_compare_exchange_weak(volatile U* p, U* e, U v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } U __tsan_atomic##B##_compare_exchange_val(volatile U* p, U e, U v, int, int) { U o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#endif
}
