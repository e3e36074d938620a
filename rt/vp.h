// Harness API. Each function is a primitive of the symbolic engine; /verif/rt/native.cpp gives
// the same functions a native meaning so a solver-found trace can be replayed on the compiled code.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vp_nondet(const char* name, unsigned bits);        // arbitrary value of that many bits
void vp_assume(int cond);                                   // restrict the explored space
void vp_check(int cond, const char* what);                  // the property
void vp_reach(const char* tag);                             // vacuity witness: must be reachable
void vp_observe(const char* tag, uint64_t value);           // compared between engine and native run
int vp_spawn(void (*fn)(void*), void* arg);                 // start a thread
void vp_join(int tid);                                      // wait for a thread
void vp_point(void);                                        // an extra scheduling point
void vp_leak_begin(void);                                   // heap blocks allocated from here on ...
void vp_leak_check(void);                                   // ... must all be freed by here
void vp_expect_terminate(int on);                           // std::terminate is (not) the right outcome
void vp_spurious(int n);                                    // allow n spurious weak-CAS failures per thread
void vp_atomic(int on);                                     // no other thread runs in between (harness bookkeeping)
void vp_cv_spurious(int n);                                 // allow n spurious condition-variable wakeups
int vp_self(void);
void vp_max_timeouts(int n);                                // only schedules with at most n timed-out waits per thread (-1: none; -2: none, and a timed wait that nobody wakes counts as stuck; -3: a wait times out only when nothing else can run, and waits that keep doing so are reported)
void vp_thread_hashes(int n);                               // how many different hashes a thread id may have (default 3)
void vp_fast_locks(int on);                                 // fewer scheduling points around locks; same behaviours (try-locks may then fail spuriously, within vp_max_trylock)
void vp_max_trylock(int n);                                 // only schedules with at most n failed mutex try-locks per thread (fairness)
// the cpu state that assembly is translated to (layout known to the engine)
enum { VP_RAX, VP_RCX, VP_RDX, VP_RBX, VP_RSP, VP_RBP, VP_RSI, VP_RDI, VP_R8, VP_R15 = 15 };
struct vp_cpu { uint64_t r[16]; uint64_t rip; uint32_t mxcsr; uint16_t x87cw; uint16_t pad; unsigned char fs[128]; };
void vp_cpu_mode(struct vp_cpu* c);                         // non-null: fiber_swap_stack() executes its assembly on c (return address, stack and other registers as given there) and returns
void vp_fp_use(struct vp_cpu* c);                           // non-null: run with c's floating point control words; null: with the own ones again
uint64_t vp_landing(int i);                                 // code addresses that a switch may return to (0..7)
void vp_mmap_fail(int n);                                   // up to n mmap calls may fail
int vp_maps(void);                                          // number of live mappings
void vp_mmap_hook(void* (*map)(size_t), int (*prot)(void*, size_t, int), int (*unmap)(void*, size_t)); // replaces the model of mmap, mprotect and munmap
}
static inline uint64_t vp_range(const char* n, uint64_t lo, uint64_t hi) {
	unsigned bits = 1; while (bits < 64 && (hi >> bits)) bits++;
	uint64_t v = vp_nondet(n, bits); vp_assume(v >= lo && v <= hi); return v;
}
static inline bool vp_bool(const char* n) { return vp_nondet(n, 1) != 0; }
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define CHECK(c, what) vp_check(!!(c), what " [" #c "] " __FILE__ ":" VP_STR(__LINE__))

// Bookkeeping that must not itself order threads: counters written by several threads
// without synchronisation are kept in vp_cell, whose accesses are not subject to race checks
// and are not scheduling points.
template<typename T> struct vp_cell {
	T v{};
	T get() const { vp_atomic(1); T r = v; vp_atomic(0); return r; }
	void set(T x) { vp_atomic(1); v = x; vp_atomic(0); }
	T inc(T d = 1) { vp_atomic(1); T r = (v += d); vp_atomic(0); return r; }
};
#ifndef VP_RUNTIME
// A harness's main() runs with the leak check deferred to its end, when every object it made is gone: what an object still
// owns while it is alive is no leak. Objects shared by threads are made with vp_own(), which destroys them there, too.
static struct { void* p; void (*end)(void*); } vp_owned[8]; static int vp_nowned, vp_leak_wanted;
#ifdef __cplusplus
template<class U, class... As> U& vp_own(As&&... as) { U* p = new U{static_cast<As&&>(as)...}; vp_owned[vp_nowned].p = p; vp_owned[vp_nowned++].end = [](void* q) { delete static_cast<U*>(q); }; return *p; }
#endif
int vp_body();
int main() { vp_body(); while (vp_nowned) { vp_nowned--; vp_owned[vp_nowned].end(vp_owned[vp_nowned].p); } if (vp_leak_wanted) vp_leak_check(); return 0; }
#define main vp_body
#define vp_leak_check() (vp_leak_wanted = 1)
#endif
