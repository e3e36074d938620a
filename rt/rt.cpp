// Models of pthread / libstdc++ blocking primitives, written on top of the engine primitives.
// The same code runs symbolically in the engine and natively during replay (vpx_ prefix).
#define VP_RUNTIME
#include "rt.h"
#include <cerrno>
#include <ctime>
#include <new>
extern "C" {
static inline uint32_t* w32(void* p) { return (uint32_t*)p; }
// Fast mode: an unlock needs no scheduling point of its own. It commutes to the left with every operation of
// another thread that does not observe "locked"; blocking locks do not, and try-locks are allowed to fail in any
// state (which covers the runs where the unlock would have come later). A wait is then two points: registering
// and, after it was signalled, taking the mutex (taking one's own signal commutes with everything else).
static int rt_fast; void vp_fast_locks(int on) { rt_fast = on; }
static inline void rt_enter_unlock(void* m) { if (rt_fast) __vp_enter_free(m); else __vp_enter(m); }
// ---- mutex: word 0 = owner + 1
static int rt_trymax, rt_tryfail[16]; void vp_max_trylock(int n) { rt_trymax = n; } // fairness: at most n failed attempts per thread (-1: none)
static void rt_tryfailed(void) { if (rt_trymax) { rt_tryfail[vp_self()]++; vp_assume(rt_tryfail[vp_self()] <= rt_trymax); } }
static int rt_tryspur(void) { return rt_fast && rt_trymax >= 0 && (!rt_trymax || rt_tryfail[vp_self()] < rt_trymax) && vp_nondet("trylock_fails", 1); }
// std::recursive_mutex: word 4 = kind, word 1 = additional locks of the owner
// A recursive mutex (kind 1): one byte per thread says whether that thread holds it - only its own thread reads or writes it.
static inline uint8_t* rt_mine(void* m) { return (uint8_t*)m + 20 + vp_self(); }
static inline bool rt_rec(void* m) { return w32(m)[4] == 1; }
static inline bool rt_again(void* m) { return rt_rec(m) && *rt_mine(m); }
static inline int rt_got(void* m, int r) { if (r == 0 && rt_rec(m)) *rt_mine(m) = 1; return r; }
int vpx_pthread_mutex_lock(void* m) { if (rt_again(m)) { w32(m)[1]++; return 0; } __vp_enter_if(m, w32(m), ~0u, 0); *w32(m) = vp_self() + 1; __vp_acq(m); __vp_leave(); return rt_got(m, 0); }
int vpx_pthread_mutex_trylock(void* m) { if (rt_again(m)) { w32(m)[1]++; return 0; } int sp = rt_tryspur(); __vp_enter(m); int r = EBUSY; if (!sp && *w32(m) == 0) { *w32(m) = vp_self() + 1; __vp_acq(m); r = 0; } else rt_tryfailed(); __vp_leave(); return rt_got(m, r); }
int vpx_pthread_mutex_unlock(void* m) { if (rt_again(m)) { if (w32(m)[1]) { w32(m)[1]--; return 0; } *rt_mine(m) = 0; } rt_enter_unlock(m); vp_check(*w32(m) == (uint32_t)vp_self() + 1, "std::mutex unlocked by a thread that does not own it"); __vp_rel(m); *w32(m) = 0; __vp_leave(); return 0; }
int vpx_pthread_mutex_destroy(void* m) { return 0; }
// ---- rwlock: bit 31 = writer, low bits = readers
int vpx_pthread_rwlock_rdlock(void* m) { __vp_enter_if(m, w32(m), 0x80000000u, 0); *w32(m) += 1; __vp_acq(m); __vp_leave(); return 0; }
int vpx_pthread_rwlock_tryrdlock(void* m) { int sp = rt_tryspur(); __vp_enter(m); int r = EBUSY; if (!sp && !(*w32(m) & 0x80000000u)) { *w32(m) += 1; __vp_acq(m); r = 0; } else rt_tryfailed(); __vp_leave(); return r; }
int vpx_pthread_rwlock_wrlock(void* m) { __vp_enter_if(m, w32(m), ~0u, 0); *w32(m) = 0x80000000u; __vp_acq(m); __vp_acq((char*)m + 1); __vp_leave(); return 0; }
int vpx_pthread_rwlock_trywrlock(void* m) { int sp = rt_tryspur(); __vp_enter(m); int r = EBUSY; if (!sp && *w32(m) == 0) { *w32(m) = 0x80000000u; __vp_acq(m); __vp_acq((char*)m + 1); r = 0; } else rt_tryfailed(); __vp_leave(); return r; }
int vpx_pthread_rwlock_unlock(void* m) { rt_enter_unlock(m); uint32_t v = *w32(m); vp_check(v != 0, "rwlock unlocked while not locked"); if (v & 0x80000000u) { __vp_rel(m); *w32(m) = 0; } else { __vp_rel((char*)m + 1); *w32(m) = v - 1; } __vp_leave(); return 0; }
int vpx_pthread_rwlock_destroy(void*) { return 0; } int vpx_pthread_rwlock_init(void* m, const void*) { *w32(m) = 0; return 0; }
// ---- clock: virtual nanoseconds; advances when a timed wait times out or the harness says so
static int64_t rt_now = 1000000000;
int64_t rt_clock_get(void) { __vp_enter(&rt_now); int64_t r = rt_now; __vp_leave(); return r; }
static inline void rt_clock_raw(int64_t t) { if (t > rt_now) rt_now = t; } // inside an atomic section; to be followed by:
static inline void rt_clock_touch() { __vp_enter_free(&rt_now); __vp_leave(); }
void rt_clock_to(int64_t t) { __vp_enter(&rt_now); rt_clock_raw(t); __vp_leave(); }
void rt_clock_advance(int64_t d) { __vp_enter(&rt_now); rt_now += d; __vp_leave(); }
int64_t vpx__ZNSt6chrono3_V212steady_clock3nowEv(void) { return rt_clock_get(); }
int64_t vpx__ZNSt6chrono3_V212system_clock3nowEv(void) { return rt_clock_get(); }
// a timed lock: scheduled while the mutex is free it succeeds, otherwise it times out
static int rt_lock_until(void* m, const timespec* ts) { if (rt_again(m)) { w32(m)[1]++; return 0; } __vp_enter(m); int r = ETIMEDOUT; if (*w32(m) == 0) { *w32(m) = vp_self() + 1; __vp_acq(m); r = 0; } else { rt_tryfailed(); rt_clock_raw((int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec); } __vp_leave(); if (r) rt_clock_touch(); return rt_got(m, r); }
int vpx_pthread_mutex_timedlock(void* m, const timespec* ts) { return rt_lock_until(m, ts); }
int vpx_pthread_mutex_clocklock(void* m, int, const timespec* ts) { return rt_lock_until(m, ts); }
// sleeping: the clock moves on
int vpx_clock_nanosleep(int, int flags, const timespec* ts, timespec*) { int64_t d = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; if (flags & 1) rt_clock_to(d); else rt_clock_advance(d); return 0; }
int vpx_nanosleep(const timespec* ts, timespec* r) { return vpx_clock_nanosleep(0, 0, ts, r); }
int vpx_usleep(unsigned us) { rt_clock_advance((int64_t)us * 1000); return 0; }
// a timed rwlock, likewise
static int rt_rw_until(void* m, const timespec* ts, int wr) { __vp_enter(m); int r = ETIMEDOUT; if (!(*w32(m) & (wr ? ~0u : 0x80000000u))) { if (wr) { *w32(m) = 0x80000000u; __vp_acq((char*)m + 1); } else *w32(m) += 1; __vp_acq(m); r = 0; } else { rt_tryfailed(); rt_clock_raw((int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec); } __vp_leave(); if (r) rt_clock_touch(); return r; }
int vpx_pthread_rwlock_timedrdlock(void* m, const timespec* ts) { return rt_rw_until(m, ts, 0); } int vpx_pthread_rwlock_clockrdlock(void* m, int, const timespec* ts) { return rt_rw_until(m, ts, 0); }
int vpx_pthread_rwlock_timedwrlock(void* m, const timespec* ts) { return rt_rw_until(m, ts, 1); } int vpx_pthread_rwlock_clockwrlock(void* m, int, const timespec* ts) { return rt_rw_until(m, ts, 1); }
// spin locks
int vpx_pthread_spin_init(void* m, int) { *w32(m) = 0; return 0; } int vpx_pthread_spin_destroy(void*) { return 0; }
int vpx_pthread_spin_lock(void* m) { __vp_enter_if(m, w32(m), ~0u, 0); *w32(m) = vp_self() + 1; __vp_acq(m); __vp_leave(); return 0; } int vpx_pthread_spin_trylock(void* m) { int sp = rt_tryspur(); __vp_enter(m); int r = EBUSY; if (!sp && *w32(m) == 0) { *w32(m) = vp_self() + 1; __vp_acq(m); r = 0; } else rt_tryfailed(); __vp_leave(); return r; }
int vpx_pthread_spin_unlock(void* m) { rt_enter_unlock(m); vp_check(*w32(m) == (uint32_t)vp_self() + 1, "spin lock unlocked by a thread that does not own it"); __vp_rel(m); *w32(m) = 0; __vp_leave(); return 0; }
// ---- condition variable: word 0 = waiting threads, word 1 = signalled threads (bit masks)
static void rt_cv_register(void* cv) { __vp_enter(cv); w32(cv)[0] |= 1u << vp_self(); __vp_leave(); }
static void rt_cv_take(void* cv) { uint32_t b = 1u << vp_self(); w32(cv)[0] &= ~b; w32(cv)[1] &= ~b; }
static int rt_cv_spurious(void* cv) { if (!__vp_cv_budget()) return 0; if (!(vp_nondet("cvspurious", 1))) return 0; __vp_enter(cv); rt_cv_take(cv); __vp_leave(); return 1; }
static void rt_cv_wait(void* cv, void* m) {
	rt_cv_register(cv);
	vpx_pthread_mutex_unlock(m);
	if (rt_fast && !rt_cv_spurious(cv)) { __vp_enter_if2(cv, w32(cv) + 1, 1u << vp_self(), w32(m)); rt_cv_take(cv); *w32(m) = vp_self() + 1; __vp_acq(m); __vp_leave(); return; }
	if (!rt_fast && !rt_cv_spurious(cv)) { __vp_enter_if(cv, w32(cv) + 1, 1u << vp_self(), 1); rt_cv_take(cv); __vp_leave(); }
	vpx_pthread_mutex_lock(m);
}
static int rt_tmax, rt_timeouts[16]; void vp_max_timeouts(int n) { rt_tmax = n; }
static int rt_cv_timedwait(void* cv, void* m, int64_t deadline) {
	if (rt_tmax == -3) { // it times out only when nothing else can run
		rt_cv_register(cv); vpx_pthread_mutex_unlock(m);
		__vp_enter_soft2z(cv, w32(cv) + 1, 1u << vp_self(), w32(m)); int r = (w32(cv)[1] >> vp_self()) & 1 ? 0 : ETIMEDOUT; rt_cv_take(cv); *w32(m) = vp_self() + 1; __vp_acq(m); if (r) rt_clock_raw(deadline); __vp_leave(); if (r) rt_clock_touch();
		return r; }
	if (rt_tmax == -2) { rt_cv_wait(cv, m); return 0; } // no timeout ever happens
	rt_cv_register(cv);
	vpx_pthread_mutex_unlock(m);
	int r = 0;
	if (rt_fast) { // decide first: woken by a signal, or timed out before any signal
		if (rt_tmax < 0 || (rt_tmax && rt_timeouts[vp_self()] >= rt_tmax) || !vp_nondet("cvtimeout", 1)) { __vp_enter_soft2(cv, w32(cv) + 1, 1u << vp_self(), w32(m)); rt_cv_take(cv); *w32(m) = vp_self() + 1; __vp_acq(m); __vp_leave(); return 0; }
		__vp_enter_soft(cv); int sig = (w32(cv)[1] >> vp_self()) & 1; vp_assume(!sig && rt_tmax >= 0); rt_cv_take(cv); rt_clock_raw(deadline); __vp_leave(); rt_clock_touch(); r = ETIMEDOUT;
	} else {
	__vp_enter_soft(cv); // may be scheduled at any time: either it was signalled, or the wait times out
	uint32_t b = 1u << vp_self(); if (!(w32(cv)[1] & b)) { r = ETIMEDOUT; rt_clock_raw(deadline); }
	rt_cv_take(cv); __vp_leave(); if (r) rt_clock_touch();
	}
	if (r) { vp_assume(rt_tmax >= 0); if (rt_tmax) { rt_timeouts[vp_self()]++; vp_assume(rt_timeouts[vp_self()] <= rt_tmax); } }
	vpx_pthread_mutex_lock(m);
	return r;
}
int vpx_pthread_cond_wait(void* cv, void* m) { rt_cv_wait(cv, m); return 0; }
int vpx_pthread_cond_clockwait(void* cv, void* m, int, const timespec* ts) { return rt_cv_timedwait(cv, m, (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec); }
int vpx_pthread_cond_timedwait(void* cv, void* m, const timespec* ts) { return rt_cv_timedwait(cv, m, (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec); }
void vpx_pthread_cond_signal(void* cv) {
	__vp_enter(cv); uint32_t w = w32(cv)[0];
	if (w) { uint32_t pick = w & (0u - w); uint32_t rest = w & ~pick; if (rest && vp_nondet("notify_one", 1)) { pick = rest & (0u - rest); rest &= ~pick; if (rest && vp_nondet("notify_one", 1)) pick = rest & (0u - rest); } w32(cv)[0] &= ~pick; w32(cv)[1] |= pick; }
	__vp_leave();
}
void vpx_pthread_cond_broadcast(void* cv) { __vp_enter(cv); w32(cv)[1] |= w32(cv)[0]; w32(cv)[0] = 0; __vp_leave(); }
void vpx__ZNSt18condition_variableC1Ev(void* cv) { uint64_t* p = (uint64_t*)cv; p[0] = p[1] = p[2] = p[3] = p[4] = p[5] = 0; }
void vpx__ZNSt18condition_variableD1Ev(void* cv) { __vp_enter(cv); __vp_leave(); }
void vpx__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, void** lk) { rt_cv_wait(cv, lk[0]); }
void vpx__ZNSt18condition_variable10notify_oneEv(void* cv) { vpx_pthread_cond_signal(cv); }
void vpx__ZNSt18condition_variable10notify_allEv(void* cv) { vpx_pthread_cond_broadcast(cv); }
// ---- threads
void rt_tls_exit(void); // thread_local destructors
struct rt_state_vt { void (*d1)(void*); void (*d0)(void*); void (*run)(void*); };
static void rt_thread_main(void* p) { rt_state_vt* vt = *(rt_state_vt**)p; vt->run(p); vt->d0(p); rt_tls_exit(); }
void vpx__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(uint64_t* self, void** state, void*) {
	void* st = *state; *state = nullptr; *self = 1; int t = vp_spawn(rt_thread_main, st); *self = t + 1;
}
void vpx__ZNSt6thread4joinEv(uint64_t* self) { vp_check(*self != 0, "join of a thread that is not joinable"); vp_join((int)*self - 1); *self = 0; }
void vpx__ZNSt6thread6detachEv(uint64_t* self) { *self = 0; }
uint64_t vpx_pthread_self(void) { return vp_self() + 1; }
unsigned vpx__ZNSt6thread20hardware_concurrencyEv(void) { return 2; }
int vpx_pthread_setname_np(uint64_t, const char*) { return 0; }
void vpx__ZNSt6thread6_StateD2Ev(void*) {}
void vpx__ZNSt6thread6_StateD1Ev(void*) {}
// the hash of a thread id seeds the thread pool's choice of a worker: any of three seeds, which reach every residue of up to three workers
static int rt_hashes = 3; void vp_thread_hashes(int n) { rt_hashes = n; }
size_t vpx__ZSt11_Hash_bytesPKvmm(const void*, size_t, size_t) { uint64_t h = vp_range("thread_hash", 1, rt_hashes); if (h == 1) return 1; if (h == 2) return 2; return 3; }
// ---- futex (std::atomic wait/notify, std::binary_semaphore inside libstdc++'s stop_token)
long vpx_syscall(long nr, uint32_t* addr, int op, uint32_t val, void* ts, void*, int) {
	op &= 127;
	if (op == 0 || op == 9) { // FUTEX_WAIT: returns once the word no longer holds val
		uint32_t cur; __vp_enter(addr); cur = *addr; __vp_leave();
		if (cur != val) return 0;
		__vp_enter_if(addr, addr, ~0u, val == 0 ? 1 : 0); __vp_leave(); // used for 0/1-valued words only
		return 0;
	}
	return 0; // FUTEX_WAKE: waiters watch the word itself
}
}
// guarded static initialisation
extern "C" int vpx___cxa_guard_acquire(uint8_t* g) { __vp_enter_if(g, (uint32_t*)g, 0x100, 0); int r = 0; if (g[0] == 0) { g[1] = 1; r = 1; } else __vp_acq(g); __vp_leave(); return r; }
extern "C" void vpx___cxa_guard_release(uint8_t* g) { __vp_enter(g); g[0] = 1; g[1] = 0; __vp_rel(g); __vp_leave(); }
extern "C" void vpx___cxa_guard_abort(uint8_t* g) { __vp_enter(g); g[1] = 0; __vp_leave(); }
// ---- anonymous memory mappings (fiber stacks)
extern "C" {
static struct { char* p; size_t n; } rt_map[16]; static int rt_mapFail; static void* (*rt_hmap)(size_t); static int (*rt_hprot)(void*, size_t, int); static int (*rt_hunmap)(void*, size_t);
void vp_mmap_fail(int n) { rt_mapFail = n; }
void vp_mmap_hook(void* (*m)(size_t), int (*p)(void*, size_t, int), int (*u)(void*, size_t)) { rt_hmap = m; rt_hprot = p; rt_hunmap = u; }
int vp_maps(void) { int n = 0; vp_atomic(1); for (auto& m : rt_map) n += m.p != nullptr; vp_atomic(0); return n; }
void* vpx_mmap(void*, size_t n, int, int, int, long) {
	if (rt_hmap) return rt_hmap(n);
	vp_atomic(1); int may = rt_mapFail; vp_atomic(0);
	if (may > 0 && vp_nondet("mmap_fails", 1)) { vp_atomic(1); rt_mapFail--; vp_atomic(0); errno = ENOMEM; return (void*)-1; }
	char* p = (char*)::operator new(n, std::align_val_t(4096)); vp_atomic(1); int i = 0; while (i < 16 && rt_map[i].p) i++; vp_check(i < 16, "[harness] too many mappings"); rt_map[i].p = p; rt_map[i].n = n; vp_atomic(0); return p;
}
int vpx_munmap(void* p, size_t n) {
	if (rt_hunmap) return rt_hunmap(p, n);
	vp_atomic(1); int i = 0; while (i < 16 && rt_map[i].p != p) i++; vp_check(i < 16 && p, "munmap of something that is mapped"); vp_check(rt_map[i].n == n, "munmap of the whole mapping"); rt_map[i].p = nullptr; vp_atomic(0); ::operator delete(p, std::align_val_t(4096)); return 0;
}
int vpx_mprotect(void* p, size_t n, int prot) {
	if (rt_hprot) return rt_hprot(p, n, prot);
	vp_atomic(1); int ok = 0; for (auto& m : rt_map) ok |= m.p && (char*)p >= m.p && (char*)p + n <= m.p + m.n; vp_atomic(0); vp_check(ok, "mprotect inside a mapping"); return 0;
}
}

// ---- fiber_swap_stack
extern "C" {
static vp_cpu* rt_cpu; void vp_cpu_mode(vp_cpu* c) { rt_cpu = c; } vp_cpu* rt_cpu_get() { vp_atomic(1); auto* c = rt_cpu; vp_atomic(0); return c; }
void vp_asm__ZN7asyncpp6detail16fiber_swap_stackEPPvS1_(vp_cpu*); void vp_swap_model(vp_cpu*, void**, void*, void (*)(vp_cpu*));
void vpx__ZN7asyncpp6detail16fiber_swap_stackEPPvS1_(void** out, void* to) { vp_swap_model(rt_cpu_get(), out, to, vp_asm__ZN7asyncpp6detail16fiber_swap_stackEPPvS1_); }
}

// ---- std::call_once, std::future
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
extern "C" {
void vpx___once_proxy(void) { std::__once_call(); }
int vpx_pthread_once(uint32_t* o, void (*f)()) { // 0 new, 1 in progress, 2 done
	__vp_enter_if(o, o, 1, 0); int run = 0; if (*o == 0) { *o = 1; run = 1; } else __vp_acq(o); __vp_leave();
	if (run) { try { f(); } catch (...) { __vp_enter(o); *o = 0; __vp_leave(); throw; } __vp_enter(o); *o = 2; __vp_rel(o); __vp_leave(); }
	return 0; }
bool vpx__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, uint32_t* a, uint32_t val, bool timed, long, long) {
	vp_check((val & 0x7fffffff) == 0 && !timed, "[model] futures are waited for without timeout"); __vp_enter_if(a, a, 0x7fffffff, 1); __vp_leave(); return true; }
void vpx__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(uint32_t*) {} // waiters watch the word itself
}
