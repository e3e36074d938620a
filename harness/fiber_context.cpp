// Stacks and contexts of fibers (C28): the assembly of fiber_swap_stack on symbolic registers, and the stack allocation.
//@ C28 switches quick -DSCN=1 -DF=2 -DOPS=8
//@ C28 switches_three quick -DSCN=1 -DF=3 -DOPS=8
//@ C28 switches_more thorough -DSCN=1 -DF=4 -DOPS=8
//@ C28 switches_guard quick -DSCN=1 -DF=2 -DOPS=6 -DSAVE_TLS_STACK_PROTECTOR
//@ C28 unaligned quick -DSCN=1 -DF=1 -DOPS=4 -DUNALIGNED
//@ C28 stack_sizes quick -DSCN=2
//@ C28 stack_failure quick -DSCN=3
//@ C28 ucontext quick -DSCN=4 -DASYNCPP_FIBER_USE_UCONTEXT=1
#define ASYNCPP_HAS_VALGRIND 0
#include "common.h"
#include <asyncpp/fiber.h>
#if SCN == 2
#include <sys/mman.h>
#endif
using namespace asyncpp::detail;
#if SCN == 1
// Context 0 is a thread's own stack, the others are fibers. Whoever runs has arbitrary registers and floating point
// control words and switches to some other context; whoever is switched to finds the state that it left with.
static const int callee[] = {VP_RBX, VP_RBP, 12, 13, 14, 15};
struct ctx { fiber_context c; stack_context st; uint64_t reg[6], rip, rsp, arg, top, low, canary; uint32_t mxcsr; uint16_t cw; bool started; uint64_t mark[4]; };
vp_cpu cpu; ctx X[F + 1]; alignas(16) unsigned char own[4096]; int cur;
uint64_t& fs28() { return *(uint64_t*)(cpu.fs + 0x28); }
void randomise(const char* n) { // what the running code may have done to its registers
	for (int i = 0; i < 16; i++) if (i != VP_RSP) cpu.r[i] = vp_nondet(n, 64); 
	cpu.mxcsr = vp_nondet("mxcsr", 32) & 0xffbf; cpu.x87cw = (vp_nondet("x87cw", 16) & 0x0f3f) | 0x40; }
void leave(ctx& x, int land) { x.rip = vp_landing(land); x.rsp = cpu.r[VP_RSP]; for (int i = 0; i < 6; i++) x.reg[i] = cpu.r[callee[i]]; x.mxcsr = cpu.mxcsr; x.cw = cpu.x87cw; x.canary = fs28(); 
	for (int i = 0; i < 4; i++) ((uint64_t*)x.rsp)[i] = x.mark[i] = vp_nondet("local", 64); // the caller's own frame
	cpu.r[VP_RSP] -= 8; *(uint64_t*)cpu.r[VP_RSP] = x.rip; } // call
void enter(ctx& x) {
	CHECK(cpu.rip == x.rip, "continues where it was"); 
	if (!x.started) { x.started = true; CHECK(cpu.r[VP_RDI] == x.arg, "the entry function gets its parameter"); CHECK(cpu.r[VP_RSP] % 16 == 8, "the stack is aligned as at a function entry"); CHECK(cpu.r[VP_RSP] >= x.low && cpu.r[VP_RSP] + 8 <= x.top, "the stack pointer is inside the stack"); CHECK(x.top - cpu.r[VP_RSP] <= 256, "nearly all of the stack is usable"); CHECK(cpu.mxcsr == x.mxcsr && cpu.x87cw == x.cw, "a fiber starts with its creator's floating point control words"); 
		cpu.r[VP_RSP] -= 8 + 16 * (cur + 2); return; }
	CHECK(cpu.r[VP_RSP] == x.rsp, "the stack pointer is restored"); for (int i = 0; i < 6; i++) CHECK(cpu.r[callee[i]] == x.reg[i], "callee-saved registers are restored"); 
	CHECK((cpu.mxcsr & 0xffc0) == (x.mxcsr & 0xffc0) && cpu.x87cw == x.cw, "the floating point control words are restored"); for (int i = 0; i < 4; i++) CHECK(((uint64_t*)x.rsp)[i] == x.mark[i], "its stack is untouched");
#ifdef SAVE_TLS_STACK_PROTECTOR
	CHECK(fs28() == x.canary, "the stack guard is restored");
#endif
}
int main() { vp_leak_begin(); X[0].low = (uint64_t)own; X[0].top = (uint64_t)own + sizeof own; X[0].started = true; cpu.r[VP_RSP] = X[0].top - 64;
	vp_cpu_mode(&cpu); fs28() = vp_nondet("guard", 64); randomise("reg");
	for (int i = 1; i <= F; i++) { CHECK(fiber_allocate_stack(X[i].st, 4096 * i), "allocation"); 
#ifdef UNALIGNED // the top of the stack need not be aligned
		int k = vp_range("cut", 0, 15), j; for (j = 0; j < 15; j++) if (j == k) break; X[i].st.stack = (char*)X[i].st.stack - j; X[i].st.stack_size -= j;
#endif
		X[i].top = (uint64_t)X[i].st.stack; X[i].low = X[i].top - X[i].st.stack_size; X[i].arg = vp_nondet("arg", 64); X[i].rip = vp_landing(i); vp_fp_use(&cpu); bool ok = fiber_makecontext(&X[i].c, X[i].st, (void (*)(void*))vp_landing(i), (void*)X[i].arg); vp_fp_use(nullptr); CHECK(ok, "makecontext"); X[i].mxcsr = cpu.mxcsr; X[i].cw = cpu.x87cw; 
		CHECK((uint64_t)X[i].c.current_sp >= X[i].low && (uint64_t)X[i].c.current_sp < X[i].top, "the initial frame is inside the stack"); }
	for (int k = 0; k < OPS; k++) { vp_point(); int to = vp_range("to", 0, F - 1); if (to >= cur) to++; int t; for (t = 0; t < F; t++) if (t == to) break; randomise("reg"); if (k < 2 && vp_bool("deeper")) cpu.r[VP_RSP] -= 48; else if (k == 3) cpu.r[VP_RSP] += 16; 
#ifdef SAVE_TLS_STACK_PROTECTOR
		if (vp_bool("newguard")) fs28() = vp_nondet("guard", 64);
#endif
		leave(X[cur], cur == 0 ? 0 : 5 + cur % 3); X[cur].started = true; fiber_swapcontext(&X[cur].c, &X[t].c); cur = t; enter(X[cur]); }
	vp_cpu_mode(nullptr); for (int i = 1; i <= F; i++) { fiber_destroy_context(&X[i].c); CHECK(fiber_deallocate_stack(X[i].st), "released"); } CHECK(vp_maps() == 0, "the stacks are released"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
// every size: nothing is mapped really, the calls are recorded
uint64_t base, len, pg; extern "C" long vpx_sysconf(int) { return pg; } int maps, unmaps; bool fails; struct { uint64_t a, n; int p; } pr[8]; int np;
void* hmap(size_t n) { maps++; len = n; CHECK(n > 0, "mapping something"); if (fails) return MAP_FAILED; vp_assume(base + n > base && base + n <= 0x7fffffffffff); return (void*)base; }
int hprot(void* p, size_t n, int prot) { CHECK(np < 8, "[harness] enough entries"); pr[np].a = (uint64_t)p; pr[np].n = n; pr[np].p = prot; np++; CHECK(((uint64_t)p & (pg - 1)) == 0, "page aligned"); return 0; }
int hunmap(void* p, size_t n) { unmaps++; CHECK((uint64_t)p == base && n == len, "exactly the mapping is released"); return 0; }
int main() { uint64_t size = vp_nondet("size", 64); switch (vp_range("pages", 0, 2)) { case 0: pg = 4096; break; case 1: pg = 16384; break; default: pg = 65536; } base = vp_nondet("base", 47) & ~(pg - 1); vp_assume(base >= pg); fails = vp_bool("fails"); vp_mmap_hook(hmap, hprot, hunmap);
	stack_context c{}; bool ok = fiber_allocate_stack(c, size);
	if (!ok) { CHECK(fails || size > UINT64_MAX - 4 * pg, "only a failing allocation or an impossible size fails"); CHECK(maps == 0 || fails || unmaps, "nothing stays mapped"); vp_reach(fails ? "failed" : "rejected"); return 0; }
	CHECK(maps == 1 && unmaps == 0 && !fails, "one mapping"); uint64_t top = (uint64_t)c.stack, low = top - c.stack_size; CHECK(c.stack_size >= size && c.stack_size > 0, "at least the requested size"); CHECK(c.stack_size - size <= pg, "at most one page more"); CHECK(top % 16 == 0, "aligned"); CHECK(low > base && low < top && top < base + len, "inside the mapping");
	bool lo = false, hi = false; for (int i = 0; i < np; i++) { CHECK(pr[i].a >= base && pr[i].n <= len && pr[i].a - base <= len - pr[i].n, "only the own mapping is protected"); bool overlaps = pr[i].n > 0 && pr[i].a < top && pr[i].a + pr[i].n > low; if (overlaps) CHECK(pr[i].p == (PROT_READ | PROT_WRITE), "the stack is usable"); else if (pr[i].p == PROT_NONE) { lo |= pr[i].n >= pg && pr[i].a + pr[i].n == low; hi |= pr[i].n >= pg && pr[i].a == top; } }
	CHECK(lo, "a guard page below the stack"); CHECK(hi, "a guard page above the stack"); vp_reach("ok");
	CHECK(fiber_deallocate_stack(c) && unmaps == 1, "released"); vp_reach("end"); return 0; }
#elif SCN == 3
int main() { vp_mmap_fail(3); stack_context c[3] = {}; bool ok[3]; int n = 0; uint64_t sz[3] = {0, 1, 20000}; for (int i = 0; i < 3; i++) { ok[i] = fiber_allocate_stack(c[i], sz[i]); n += ok[i]; CHECK(vp_maps() == n, "a failing allocation leaves no mapping"); if (ok[i]) { auto* t = (unsigned char*)c[i].stack; t[-1] = 1; t[-(long)c[i].stack_size] = 2; CHECK(c[i].stack_size >= sz[i] && c[i].stack_size > 0, "usable"); } }
	for (int i = 0; i < 3; i++) CHECK(fiber_deallocate_stack(c[i]), "release"); CHECK(vp_maps() == 0, "all released"); vp_reach("end"); return 0; }
#elif SCN == 4
// the ucontext variant passes function and parameter through makecontext as 32-bit pieces
void (*mfn)(); uint32_t marg[4]; int mk, gc, swaps; ucontext_t *so, *si; fiber_context fc, mc; stack_context st;
extern "C" int vpx_getcontext(ucontext_t* u) { gc++; CHECK(u == &fc.context && !mk, "initialises the context first"); memset(u, 0x5a, sizeof *u); return 0; }
extern "C" void vpx_makecontext(ucontext_t* u, void (*f)(), int n, uint32_t a, uint32_t b, uint32_t c, uint32_t d) { mk++; CHECK(u == &fc.context && n == 4, "arguments"); mfn = f; marg[0] = a; marg[1] = b; marg[2] = c; marg[3] = d; }
extern "C" int vpx_swapcontext(ucontext_t* o, const ucontext_t* i) { swaps++; so = o; si = (ucontext_t*)i; return 0; }
int ran; uint64_t arg; void entry(void* a) { ran++; CHECK((uint64_t)a == arg, "the entry function gets its parameter"); }
int main() { arg = vp_nondet("arg", 64); CHECK(fiber_allocate_stack(st, 10000), "allocation"); CHECK(fiber_makecontext(&fc, st, entry, (void*)arg), "makecontext"); CHECK(mk == 1 && gc == 1, "once"); CHECK((uint64_t)fc.context.uc_stack.ss_sp == (uint64_t)st.stack - st.stack_size && fc.context.uc_stack.ss_size == st.stack_size, "the context uses the whole stack"); CHECK(fc.context.uc_link == nullptr, "no successor");
	((void (*)(uint32_t, uint32_t, uint32_t, uint32_t))mfn)(marg[0], marg[1], marg[2], marg[3]); CHECK(ran == 1, "runs the entry function"); fiber_swapcontext(&mc, &fc); CHECK(swaps == 1 && so == &mc.context && si == &fc.context, "switches"); fiber_swapcontext(&fc, &mc); CHECK(swaps == 2 && so == &fc.context && si == &mc.context, "and back"); CHECK(fiber_destroy_context(&fc) && fiber_deallocate_stack(st), "released"); CHECK(vp_maps() == 0, "nothing stays mapped"); vp_reach("end"); return 0; }
#endif
