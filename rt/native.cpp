// Replay: runs the compiled code under the schedule and inputs that the solver produced.
// Only one thread runs at a time; the baton moves exactly where the trace says. Built without
// sanitizer instrumentation and synchronising by raw futex calls only, so that TSan does not see
// an ordering that the code under test does not create itself.
#define VP_RUNTIME
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <string>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#ifndef VP_TSAN
#define VP_TSAN 0
#endif
extern "C" {
int vp_harness_main();
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
}
namespace {
struct Ent { int t; long op; };
struct In { std::string name; uint64_t v; };
std::vector<Ent>* tr; size_t ptr_ = 0;
std::vector<In>* in_[16]; size_t inp[16];
std::vector<std::pair<int, long>>* spur;
std::vector<std::string>* obs; size_t obsp = 0;
long park[16]; long ops[16]; bool fin[16]; pthread_t th[16]; int nth = 1;
volatile int turn = 0; thread_local int me = 0; thread_local bool live = false; bool expectTerm = false; int cvBudget = 0, cvUsed[16]; int spurBudget = 0;
bool freeRun = false, trackLeak = false; const volatile void* blocks[1 << 16]; int nblocks = 0;
[[noreturn]] void end(int rc, const char* m, const char* x = "") { char b[1200]; int n = snprintf(b, sizeof b, "%s %s\n", m, x); if (write(1, b, n)) {} _exit(rc); }
void waitTurn() { while (__atomic_load_n(&turn, __ATOMIC_RELAXED) != me) { int v = turn; if (v != me) syscall(SYS_futex, &turn, FUTEX_WAIT, v, nullptr, nullptr, 0); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void give(int t) { __atomic_thread_fence(__ATOMIC_SEQ_CST); __atomic_store_n(&turn, t, __ATOMIC_RELAXED); syscall(SYS_futex, &turn, FUTEX_WAKE, 64, nullptr, nullptr, 0); }
[[noreturn]] void forever() { while (true) { int v = turn; if (v == me) end(13, "VP-DIVERGED", "baton given to a parked thread"); syscall(SYS_futex, &turn, FUTEX_WAIT, v, nullptr, nullptr, 0); } }
void pass() { // hand the baton to the thread of the next trace entry
	if (ptr_ >= tr->size()) end(16, "VP-END", "schedule exhausted with every thread parked (no thread can continue)");
	give((*tr)[ptr_].t);
}
bool dbg = false;
void opAt() {
	long i = ops[me]++; if (dbg) fprintf(stderr, "op t%d %ld at %p (next: t%d %ld)\n", me, i, __builtin_return_address(0), tr && ptr_ < tr->size() ? (*tr)[ptr_].t : -1, tr && ptr_ < tr->size() ? (*tr)[ptr_].op : -1);
	if (freeRun || !tr) return;
	size_t q = ptr_; while (q < tr->size() && (*tr)[q].t != me) q++;
	if (q < tr->size()) {
		if (i < (*tr)[q].op) return;
		if (i > (*tr)[q].op) end(13, "VP-DIVERGED", "operation count passed the scheduled one");
		if (q != ptr_) { pass(); waitTurn(); if (ptr_ >= tr->size() || (*tr)[ptr_].t != me || (*tr)[ptr_].op != i) end(13, "VP-DIVERGED", "wrong turn"); }
		ptr_++; return;
	}
	if (park[me] == i) { if (ptr_ >= tr->size()) end(16, "VP-END", "schedule exhausted with every thread parked (no thread can continue)"); pass(); forever(); }
}
void mh(const volatile void* p, size_t) { if (live && trackLeak && nblocks < (1 << 16)) blocks[nblocks++] = p; }
void fh(const volatile void* p) { if (!p || !live) return; for (int i = nblocks - 1; i >= 0; i--) if (blocks[i] == p) { blocks[i] = blocks[--nblocks]; return; } }
struct Start { void (*fn)(void*); void* arg; int id; } starts[16];
void* run(void* p) {
	Start s = *(Start*)p; me = s.id; waitTurn(); live = true;
	if (ptr_ >= tr->size() || (*tr)[ptr_].t != me || (*tr)[ptr_].op != 0) end(13, "VP-DIVERGED", "thread start");
	ptr_++; ops[me] = 1;
	s.fn(s.arg); fin[me] = true; live = false;
	if (freeRun) return nullptr;
	if (ptr_ >= tr->size()) { bool all = true; for (int i = 0; i < nth; i++) if (!fin[i]) all = false; end(all ? 0 : 14, all ? "VP-COMPLETED" : "VP-NOREPRO", "thread ended after the schedule"); }
	give((*tr)[ptr_].t); return nullptr;
}
void onTerm() { if (expectTerm) end(0, "VP-COMPLETED", "terminated as expected"); end(11, "VP-TERMINATE", "std::terminate called"); }
void onAlarm(int) { end(15, "VP-TIMEOUT"); }
}
extern "C" {
uint64_t vp_nondet(const char* name, unsigned) {
	if (inp[me] >= in_[me]->size()) end(13, "VP-DIVERGED", "input beyond the trace");
	In& i = (*in_[me])[inp[me]++]; if (i.name != name) end(13, "VP-DIVERGED", "input name"); return i.v; }
void vp_assume(int c) { if (!c) end(13, "VP-DIVERGED", "assumption false"); }
void vp_check(int c, const char* w) { if (!c) end(10, "VP-CHECK-FAILED", w); }
void vp_reach(const char*) {}
void vp_observe(const char* tag, uint64_t v) { bool l = trackLeak; trackLeak = false; std::string s = std::string(tag) + " " + std::to_string(v); if (obsp < obs->size()) { if ((*obs)[obsp] != s) end(12, "VP-OBS-MISMATCH", ((*obs)[obsp] + " / native " + s).c_str()); obsp++; } trackLeak = l; }
int vp_spawn(void (*fn)(void*), void* arg) { opAt(); int id = nth++; starts[id] = Start{fn, arg, id}; ops[id] = 0; bool l = trackLeak; trackLeak = false; pthread_create(&th[id], nullptr, run, &starts[id]); trackLeak = l; return id; }
void vp_join(int t) { opAt(); if (!fin[t]) end(13, "VP-DIVERGED", "join of a running thread"); pthread_join(th[t], nullptr); }
void vp_point(void) { opAt(); }
void vp_leak_begin(void) { nblocks = 0; trackLeak = true; }
void vp_leak_check(void) { trackLeak = false; if (nblocks) end(17, "VP-LEAK", "heap blocks were never freed"); }
void vp_expect_terminate(int on) { expectTerm = on; }
void vp_spurious(int n) { spurBudget = n; }
void vp_cv_spurious(int n) { cvBudget = n; }
void vp_atomic(int) {}
int vp_self(void) { return me; }
void __vp_enter(void*) { opAt(); }
void __vp_enter_if(void*, uint32_t* p, uint32_t mask, int nz) { opAt(); if (((*p & mask) != 0) != (nz != 0)) end(13, "VP-DIVERGED", "blocked where the trace continues"); }
void __vp_enter_free(void*) {}
void __vp_enter_if2(void*, uint32_t* p, uint32_t mask, uint32_t* q) { opAt(); if ((*p & mask) == 0 || *q != 0) end(13, "VP-DIVERGED", "blocked where the trace continues"); }
void __vp_enter_soft(void*) { opAt(); }
void __vp_enter_soft2(void* a, uint32_t* p, uint32_t mask, uint32_t* q) { __vp_enter_if2(a, p, mask, q); }
void __vp_enter_soft2z(void*, uint32_t*, uint32_t, uint32_t* q) { opAt(); if (*q != 0) end(13, "VP-DIVERGED", "blocked where the trace continues"); }
void __vp_leave(void) {}
void __vp_acq(void* a) { if (__tsan_acquire) __tsan_acquire(a); }
void __vp_rel(void* a) { if (__tsan_release) __tsan_release(a); }
int __vp_cv_budget(void) { int left = cvBudget - cvUsed[me]; if (left > 0) cvUsed[me]++; return left > 0; }
int __vp_defined(const char*) { return 0; }
void __vp_n_op(void) { opAt(); }
bool __vp_n_spur(void) { for (auto& p : *spur) if (p.first == me && p.second == ops[me] - 1) return true; return false; }
}
int main(int argc, char** argv) {
	__libc_single_threaded = 0; dbg = getenv("VP_DBG") != nullptr;
	tr = new std::vector<Ent>; spur = new std::vector<std::pair<int, long>>; obs = new std::vector<std::string>; for (int i = 0; i < 16; i++) { in_[i] = new std::vector<In>; park[i] = -1; }
	FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr; if (!f) { fprintf(stderr, "trace?\n"); return 2; }
	char line[4096];
	while (fgets(line, sizeof line, f)) {
		size_t n = strlen(line); if (n && line[n - 1] == '\n') line[n - 1] = 0;
		int t; long op; char nm[256]; unsigned long long v;
		if (line[0] == 'S' && sscanf(line + 2, "%d %ld", &t, &op) == 2) tr->push_back({t, op});
		else if (line[0] == 'K' && sscanf(line + 2, "%d %ld", &t, &op) == 2) park[t] = op;
		else if (line[0] == 'I' && sscanf(line + 2, "%d %255s %llu", &t, nm, &v) == 3) { if (!strcmp(nm, "!spurious")) spur->push_back({t, (long)v}); else in_[t]->push_back({nm, v}); }
		else if (line[0] == 'O') obs->push_back(line + 2);
	}
	fclose(f);
	if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
	std::set_terminate(onTerm); signal(SIGALRM, onAlarm); alarm(30); signal(SIGABRT, [](int) { end(18, "VP-ABORT"); });
	live = true; vp_harness_main(); fin[0] = true;
	if (ptr_ < tr->size()) { give((*tr)[ptr_].t); pthread_exit(nullptr); }
	if (obsp != obs->size()) end(12, "VP-OBS-MISMATCH", "fewer observations than predicted");
	end(0, "VP-COMPLETED");
}

// ---- fiber_swap_stack on a given cpu state (C28): loads the registers, runs the real code, and stores them where it lands
extern "C" {
vp_cpu* vp_ncpu; void* vp_nhost; void* vp_nreal; uint64_t vp_nland, vp_nrax, vp_nfs[3]; void vp_native_tramp(void); extern char vp_native_land[];
void vp_fp_use(vp_cpu* c) { static uint32_t m; static uint16_t w; if (c) { asm volatile("stmxcsr %0" : "=m"(m)); asm volatile("fnstcw %0" : "=m"(w)); asm volatile("ldmxcsr %0" ::"m"(c->mxcsr)); asm volatile("fldcw %0" ::"m"(c->x87cw)); } else { asm volatile("ldmxcsr %0" ::"m"(m)); asm volatile("fldcw %0" ::"m"(w)); } }
uint64_t vp_landing(int i) { return (uint64_t)vp_native_land + i * 32; }
void vp_swap_model(vp_cpu* c, void** out, void* to, void (*real)(vp_cpu*)) {
	if (!c) { ((void (*)(void**, void*))(void*)real)(out, to); return; }
	c->r[VP_RDI] = (uint64_t)out; c->r[VP_RSI] = (uint64_t)to; vp_ncpu = c; vp_nreal = (void*)real; vp_native_tramp(); c->rip = vp_landing((int)vp_nland);
}
}
asm(R"(
	.text
	.globl vp_native_tramp
vp_native_tramp:
	pushq %rbx
	pushq %rbp
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, vp_nhost(%rip)
	movq %fs:0x18, %rax
	movq %rax, vp_nfs(%rip)
	movq %fs:0x20, %rax
	movq %rax, vp_nfs+8(%rip)
	movq %fs:0x28, %rax
	movq %rax, vp_nfs+16(%rip)
	movq vp_ncpu(%rip), %rax
	movq 184(%rax), %rcx
	movq %rcx, %fs:0x28
	ldmxcsr 136(%rax)
	fldcw 140(%rax)
	movq 8(%rax), %rcx
	movq 16(%rax), %rdx
	movq 24(%rax), %rbx
	movq 32(%rax), %rsp
	movq 40(%rax), %rbp
	movq 48(%rax), %rsi
	movq 56(%rax), %rdi
	movq 64(%rax), %r8
	movq 72(%rax), %r9
	movq 80(%rax), %r10
	movq 88(%rax), %r11
	movq 96(%rax), %r12
	movq 104(%rax), %r13
	movq 112(%rax), %r14
	movq 120(%rax), %r15
	movq (%rax), %rax
	jmp *vp_nreal(%rip)
	.p2align 5
	.globl vp_native_land
vp_native_land:
	.irp i,0,1,2,3,4,5,6,7
	movq $\i, vp_nland(%rip)
	jmp 1f
	.p2align 5
	.endr
1:	movq %rax, vp_nrax(%rip)
	movq vp_ncpu(%rip), %rax
	movq %rcx, 8(%rax)
	movq %rdx, 16(%rax)
	movq %rbx, 24(%rax)
	movq %rsp, 32(%rax)
	movq %rbp, 40(%rax)
	movq %rsi, 48(%rax)
	movq %rdi, 56(%rax)
	movq %r8, 64(%rax)
	movq %r9, 72(%rax)
	movq %r10, 80(%rax)
	movq %r11, 88(%rax)
	movq %r12, 96(%rax)
	movq %r13, 104(%rax)
	movq %r14, 112(%rax)
	movq %r15, 120(%rax)
	movq vp_nrax(%rip), %rcx
	movq %rcx, (%rax)
	stmxcsr 136(%rax)
	fnstcw 140(%rax)
	movq %fs:0x28, %rcx
	movq %rcx, 184(%rax)
	movq vp_nfs(%rip), %rcx
	movq %rcx, %fs:0x18
	movq vp_nfs+8(%rip), %rcx
	movq %rcx, %fs:0x20
	movq vp_nfs+16(%rip), %rcx
	movq %rcx, %fs:0x28
	movq vp_nhost(%rip), %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbp
	popq %rbx
	cld
	ret
)");
