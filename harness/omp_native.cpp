// Native counterpart of the OpenMP model: runs the code as compiled by clang (-fopenmp, -fsanitize=thread) on its own runtime. The threads of
// a team are coroutines executed one after the other up to the next barrier; the accesses reported by the instrumentation are recorded per
// thread, barrier interval and held locks, and conflicting ones are reported.
#include <ucontext.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <map>
#include <set>
#include <malloc.h>
extern "C" void vf_check_b(const char *id, bool c);
typedef void (*micro)(int *, int *, ...);
namespace {
struct Acc { uintptr_t a; size_t n; int tid; char w, at; std::set<void *> locks; };
struct Th { ucontext_t c; int tid, state, singles, loops; std::set<void *> locks; long lo, hi, st; std::vector<std::vector<long> > cur; };
struct Run { std::vector<Th *> t; ucontext_t main; int me; std::vector<Acc> log; std::set<int> singles; micro fn; int argc; void **argv; };
Run *R = 0; int nthreads = 1, rot = 0, rev = 0, want = 0, races = 0, quiet = 0; std::vector<std::vector<long> > seqcur;
struct Q { Q() { quiet++; } ~Q() { quiet--; } };
void acc(const void *p, size_t n, char w, char at) { if (!R || R->me < 0 || quiet || !n) return; Q q; Acc a; a.a = (uintptr_t)p; a.n = n; a.tid = R->me; a.w = w; a.at = at; a.locks = R->t[R->me]->locks; R->log.push_back(a); }
void call(micro f, int g, int n, void **v) { int b = 0; switch (n) {
  case 0: f(&g, &b); break; case 1: f(&g, &b, v[0]); break; case 2: f(&g, &b, v[0], v[1]); break; case 3: f(&g, &b, v[0], v[1], v[2]); break; case 4: f(&g, &b, v[0], v[1], v[2], v[3]); break; case 5: f(&g, &b, v[0], v[1], v[2], v[3], v[4]); break;
  case 6: f(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5]); break; case 7: f(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5], v[6]); break; case 8: f(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); break;
  case 9: f(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); break; case 10: f(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]); break; case 11: f(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]); break;
  case 12: f(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]); break; default: fprintf(stderr, "too many shared variables\n"); abort(); } }
void tramp() { int k = R->me; call(R->fn, k, R->argc, R->argv); R->t[k]->state = 2; swapcontext(&R->t[k]->c, &R->main); }
void judge() { Q q; std::map<uintptr_t, std::vector<size_t> > pages; bool bad = false;
  // every byte: the accesses to it
  std::map<uintptr_t, std::vector<int> > by; for (size_t i = 0; i < R->log.size(); i++) for (uintptr_t b = R->log[i].a / 8; b <= (R->log[i].a + R->log[i].n - 1) / 8; b++) { std::vector<int> &v = by[b]; bool dup = false; for (int j : v) { Acc &x = R->log[j], &y = R->log[i]; if (x.a == y.a && x.n == y.n && x.tid == y.tid && x.w == y.w && x.at == y.at && x.locks == y.locks) { dup = true; break; } } if (!dup) v.push_back(i); }
  for (auto &e : by) for (size_t i = 0; i < e.second.size() && !bad; i++) for (size_t j = i + 1; j < e.second.size(); j++) { Acc &x = R->log[e.second[i]], &y = R->log[e.second[j]]; if (x.tid == y.tid || !(x.w || y.w) || (x.at && y.at) || x.a + x.n <= y.a || y.a + y.n <= x.a) continue; bool common = false; for (void *l : x.locks) if (y.locks.count(l)) common = true; if (!common) { bad = true; break; } }
  if (bad) races++; R->log.clear(); }
int team() { return R ? (int)R->t.size() : 1; }
int rank() { return R ? (R->me + rot) % team() : 0; }
template <class I> void sinit(int sched, int *pl, I *plo, I *pup, long *, I inc, I chunk, I *pst) { Q q; int t = rank(), T = team(); I lo = *plo, up = *pup; long n = inc > 0 ? ((long)up - (long)lo) / (long)inc + 1 : ((long)lo - (long)up) / -(long)inc + 1; if (n < 0) n = 0; sched &= 0xffff; bool last = false;
  if (sched == 33 || sched == 45 || sched == 93 || sched == 161) { if ((long)chunk < 1) chunk = 1; I span = chunk * inc; *pst = span * T; *plo = lo + span * t; *pup = *plo + span - inc; last = n > 0 && ((n - 1) / (long)chunk) % T == t; }
  else { long k = n / T, r = n % T, b = t * k + (t < r ? t : r), e = b + k + (t < r); if (e > b) { *plo = lo + b * inc; *pup = lo + (e - 1) * inc; last = e == n; } else { *plo = up + inc; *pup = up; } *pst = n ? up - lo + inc : inc; }
  if (pl) *pl = last; }
template <class I> void dinit(I lo, I up, I st, I chunk) { Q q; long c = (long)chunk < 1 ? 1 : (long)chunk, n = (long)st > 0 ? ((long)up - (long)lo) / (long)st + 1 : ((long)lo - (long)up) / -(long)st + 1; std::vector<std::vector<long> > v; int m = 0; for (long i = 0; i < n; i += c, m++) if (m % team() == rank()) { long j = i + c < n ? i + c : n; std::vector<long> x; x.push_back((long)lo + i * (long)st); x.push_back((long)lo + (j - 1) * (long)st); x.push_back((long)st); x.push_back(j == n); v.push_back(x); } if (R) R->t[R->me]->cur = v; else seqcur = v; }
template <class I, class S> int dnext(int *pl, I *lo, I *up, S *st) { Q q; std::vector<std::vector<long> > &v = R ? R->t[R->me]->cur : seqcur; if (v.empty()) return 0; *lo = v[0][0]; *up = v[0][1]; *st = v[0][2]; if (pl) *pl = v[0][3]; v.erase(v.begin()); return 1; }
}
extern "C" {
int vf_omp_quiet() { return quiet; }
void vf_threads(int n, int order) { nthreads = n; rot = order & 1; rev = order & 2; }
int __kmpc_global_thread_num(void *) { return R ? R->me : 0; } int omp_get_thread_num() { return R ? R->me : 0; } int omp_get_num_threads() { return team(); } int omp_get_max_threads() { return nthreads; } int omp_get_num_procs() { return nthreads; } int omp_in_parallel() { return R != 0; } int omp_get_level() { return R != 0; }
void omp_set_num_threads(int n) { nthreads = n > 0 ? n : 1; } void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } double omp_get_wtime() { return 0; } double omp_get_wtick() { return 1; }
void __kmpc_push_num_threads(void *, int, int n) { want = n; } void __kmpc_push_proc_bind(void *, int, int) {}
void __kmpc_fork_call(void *, int n, micro f, ...) { void *v[16]; va_list ap; va_start(ap, f); for (int i = 0; i < n && i < 16; i++) v[i] = va_arg(ap, void *); va_end(ap); int T = want ? want : nthreads; want = 0; if (R || T <= 1) { call(f, R ? R->me : 0, n, v); return; }
  { Q q; R = new Run; R->fn = f; R->argc = n; R->argv = v; R->me = -1; for (int t = 0; t < T; t++) { Th *h = new Th; h->tid = t; h->state = 0; h->singles = h->loops = 0; getcontext(&h->c); h->c.uc_stack.ss_sp = malloc(1 << 21); h->c.uc_stack.ss_size = 1 << 21; h->c.uc_link = 0; makecontext(&h->c, tramp, 0); R->t.push_back(h); } }
  for (bool more = true; more;) { more = false; for (int k = 0; k < T; k++) { int t = rev ? T - 1 - k : k; Th *h = R->t[t]; if (h->state == 2) continue; R->me = t; swapcontext(&R->main, &h->c); R->me = -1; if (h->state != 2) more = true; } judge(); }
  R = 0; vf_check_b("data-race", races == 0); }
void __kmpc_serialized_parallel(void *, int) {} void __kmpc_end_serialized_parallel(void *, int) {} void __kmpc_flush(void *) {} void __kmpc_begin(void *, int) {} void __kmpc_end(void *) {}
void __kmpc_barrier(void *, int) { if (R) { Th *h = R->t[R->me]; swapcontext(&h->c, &R->main); } } int __kmpc_cancel_barrier(void *, int) { __kmpc_barrier(0, 0); return 0; }
void __kmpc_for_static_init_4(void *, int, int s, int *l, int *a, int *b, int *st, int i, int c) { sinit<int>(s, l, a, b, 0, i, c, st); } void __kmpc_for_static_init_4u(void *, int, int s, int *l, unsigned *a, unsigned *b, int *st, int i, int c) { unsigned x; sinit<unsigned>(s, l, a, b, 0, i, c, &x); *st = x; }
void __kmpc_for_static_init_8(void *, int, int s, int *l, long *a, long *b, long *st, long i, long c) { sinit<long>(s, l, a, b, 0, i, c, st); } void __kmpc_for_static_init_8u(void *, int, int s, int *l, unsigned long *a, unsigned long *b, long *st, long i, long c) { sinit<long>(s, l, (long *)a, (long *)b, 0, i, c, st); }
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_dispatch_init_4(void *, int, int, int a, int b, int s, int c) { dinit<int>(a, b, s, c); } void __kmpc_dispatch_init_4u(void *, int, int, unsigned a, unsigned b, int s, int c) { dinit<long>(a, b, s, c); } void __kmpc_dispatch_init_8(void *, int, int, long a, long b, long s, long c) { dinit<long>(a, b, s, c); } void __kmpc_dispatch_init_8u(void *, int, int, unsigned long a, unsigned long b, long s, long c) { dinit<long>(a, b, s, c); }
int __kmpc_dispatch_next_4(void *, int, int *l, int *a, int *b, int *s) { return dnext(l, a, b, s); } int __kmpc_dispatch_next_4u(void *, int, int *l, unsigned *a, unsigned *b, int *s) { return dnext(l, a, b, s); } int __kmpc_dispatch_next_8(void *, int, int *l, long *a, long *b, long *s) { return dnext(l, a, b, s); } int __kmpc_dispatch_next_8u(void *, int, int *l, unsigned long *a, unsigned long *b, long *s) { return dnext(l, a, b, s); }
void __kmpc_dispatch_fini_4(void *, int) {} void __kmpc_dispatch_fini_4u(void *, int) {} void __kmpc_dispatch_fini_8(void *, int) {} void __kmpc_dispatch_fini_8u(void *, int) {} void __kmpc_dispatch_deinit(void *, int) {}
int __kmpc_single(void *, int) { if (!R) return 1; Q q; int k = R->t[R->me]->singles++; return R->singles.insert(k).second; } void __kmpc_end_single(void *, int) {}
int __kmpc_master(void *, int) { return !R || R->me == 0; } void __kmpc_end_master(void *, int) {} int __kmpc_masked(void *, int, int f) { return (R ? R->me : 0) == f; } void __kmpc_end_masked(void *, int) {}
static void lk(void *p) { if (R && R->me >= 0) { Q q; R->t[R->me]->locks.insert(p); } } static void ul(void *p) { if (R && R->me >= 0) { Q q; R->t[R->me]->locks.erase(p); } }
void __kmpc_critical(void *, int, void *l) { lk(l); } void __kmpc_critical_with_hint(void *, int, void *l, unsigned) { lk(l); } void __kmpc_end_critical(void *, int, void *l) { ul(l); }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void *, void *l) { lk(l); return 1; } int __kmpc_reduce(void *, int, int, size_t, void *, void *, void *l) { lk(l); return 1; } void __kmpc_end_reduce_nowait(void *, int, void *l) { ul(l); } void __kmpc_end_reduce(void *, int, void *l) { ul(l); __kmpc_barrier(0, 0); }
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {} void omp_set_lock(void *l) { lk(l); } void omp_unset_lock(void *l) { ul(l); } int omp_test_lock(void *l) { lk(l); return 1; }
int __wrap_pthread_mutex_lock(void *l) { lk(l); return 0; } int __wrap_pthread_mutex_trylock(void *l) { lk(l); return 0; } int __wrap_pthread_mutex_unlock(void *l) { ul(l); return 0; }
// ---- what the instrumentation calls
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, 0, 0); } void __tsan_write##n(void *p) { acc(p, n, 1, 0); } void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, 0); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, 0); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, 0, 0); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1, 0); } void __tsan_read_write##n(void *p) { acc(p, n, 1, 0); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { acc(p, 8, *p != v, 0); } void __tsan_vptr_read(void **p) { acc(p, 8, 0, 0); } void __tsan_read_range(void *p, size_t n) { acc(p, n, 0, 0); } void __tsan_write_range(void *p, size_t n) { acc(p, n, 1, 0); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(s, n, 0, 0); acc(d, n, 1, 0); return memcpy(d, s, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { acc(s, n, 0, 0); acc(d, n, 1, 0); return memmove(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { acc(d, n, 1, 0); return memset(d, c, n); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { acc((void *)p, sizeof(T), 0, 1); return *p; } void __tsan_atomic##b##_store(volatile T *p, T v, int) { acc((void *)p, sizeof(T), 1, 1); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { acc((void *)p, sizeof(T), 1, 1); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { acc((void *)p, sizeof(T), 1, 1); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { acc((void *)p, sizeof(T), 1, 1); T o = *p; *p = o - v; return o; } T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { acc((void *)p, sizeof(T), 1, 1); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { acc((void *)p, sizeof(T), 1, 1); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { acc((void *)p, sizeof(T), 1, 1); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { acc((void *)p, sizeof(T), 1, 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { acc((void *)p, sizeof(T), 1, 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { acc((void *)p, sizeof(T), 1, 1); T o = *p; if (o == e) *p = v; return o; }
AT(8, int8_t) AT(16, int16_t) AT(32, int32_t) AT(64, int64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// memory released within a region is not handed out again: its address would stand for two objects
void __real_free(void *); void __wrap_free(void *p) { if (!R || quiet) __real_free(p); }
}
void operator delete(void *p) noexcept { if (R && R->me >= 0 && !quiet) { acc(p, malloc_usable_size(p), 1, 0); return; } __real_free(p); } void operator delete[](void *p) noexcept { operator delete(p); } void operator delete(void *p, size_t) noexcept { operator delete(p); } void operator delete[](void *p, size_t) noexcept { operator delete(p); }
