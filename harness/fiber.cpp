// Fibers: awaiting and being awaited (C29).
//@ C29 awaits quick -DSCN=1 -DN=2 -DDROP=0
//@ C29 awaits_deep quick -DSCN=1 -DN=3 -DDROP=0
//@ C29 dropped quick -DSCN=1 -DN=2 -DDROP=1
//@ C29 dropped_deep quick -DSCN=1 -DN=3 -DDROP=1
//@ C29 other_thread quick -DSCN=2 -DN=1
//@ C29 other_thread_twice quick -DSCN=2 -DN=2
//@ C29 history quick -DSCN=3 -DF=2 -DOPS=6
//@ C29 history_deep thorough -DSCN=3 -DF=3 -DOPS=7
//@ C29 other_thread_destroys quick -DSCN=6
//@ C29 uc_awaits quick -DSCN=1 -DN=2 -DDROP=0 -DASYNCPP_FIBER_USE_UCONTEXT=1
//@ C29 uc_dropped quick -DSCN=1 -DN=2 -DDROP=1 -DASYNCPP_FIBER_USE_UCONTEXT=1
//@ C29 uc_history quick -DSCN=3 -DF=2 -DOPS=5 -DASYNCPP_FIBER_USE_UCONTEXT=1
//@ C29 uc_nested quick -DSCN=4 -DASYNCPP_FIBER_USE_UCONTEXT=1
//@ C29 uc_other_thread quick -DSCN=2 -DN=2 -DASYNCPP_FIBER_USE_UCONTEXT=1
//@ C29 nested quick -DSCN=4
//@ C29 misc quick -DSCN=5
#define ASYNCPP_HAS_VALGRIND 0
#include "common.h"
#include <atomic>
#include <asyncpp/fiber.h>
using namespace asyncpp;
typedef std::coroutine_handle<> H;
// a coroutine whose frame the harness owns
struct dco { struct promise_type { dco get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vp_check(0, "an exception escaped from a harness coroutine"); } }; std::coroutine_handle<promise_type> h; };
struct probe { static int live; int x = 77; probe() { live++; } ~probe() { CHECK(x == 77, "locals keep their value"); x = 0; live--; } }; int probe::live = 0;
struct box { H h; bool has = false; int set = 0; void put(H x) { CHECK(!has, "one suspension at a time"); h = x; has = true; set++; } H take() { has = false; return h; } };
#if SCN == 1
box g; int ready, resumed, helper; uint32_t in[N]; int kinds[N];
dco help() { for (;;) { co_await std::suspend_always{}; helper++; } } dco hlp;
template<int KIND> struct aw {
	uint32_t v; 
	bool await_ready() { ready++; return KIND == 0; }
	auto await_suspend(H h) { CHECK(!h.done(), "suspended, not finished"); CHECK(h, "a handle");
		if constexpr (KIND == 1) { g.put(h); return; }
		else if constexpr (KIND == 2) { g.put(h); return true; }
		else if constexpr (KIND == 3) return false;
		else if constexpr (KIND == 4) { g.put(h); return H(hlp.h); }
		else if constexpr (KIND == 5) { throw (int)v; return; }
		else if constexpr (KIND == 6) { g.put(h); return; }
		else if constexpr (KIND == 7) { h.resume(); return; }
		else if constexpr (KIND == 8) return h;
		else if constexpr (KIND == 9) { h.resume(); return true; } }
	uint32_t await_resume() { resumed++; if (KIND == 6) throw (int)v; return v; }
};
template<int KIND> void step(int i) { probe p; int r0 = ready, s0 = resumed, h0 = helper; bool threw = false; uint32_t x = 0; in[i] = vp_nondet("value", 32);
	try { probe q; if (i == 0) { aw<KIND> a{in[i]}; x = fib_await a; } else x = fib_await aw<KIND>{in[i]}; } catch (int e) { threw = true; x = (uint32_t)e; }
	CHECK(threw == (KIND == 5 || KIND == 6), "exceptions of the awaitable arrive in the fiber"); CHECK(x == in[i], "the awaited value arrives"); CHECK(ready == r0 + 1, "await_ready() once"); CHECK(resumed == s0 + (KIND != 5), "await_resume() once"); CHECK(helper == h0 + (KIND == 4), "a returned handle is resumed"); }
uint32_t body() { probe p; uint32_t sum = 0; for (int i = 0; i < N; i++) { int k = kinds[i] = vp_range("kind", 0, 9); switch (k) { case 0: step<0>(i); break; case 1: step<1>(i); break; case 2: step<2>(i); break; case 3: step<3>(i); break; case 4: step<4>(i); break; case 5: step<5>(i); break; case 6: step<6>(i); break; case 7: step<7>(i); break; case 8: step<8>(i); break; case 9: step<9>(i); break; } sum += in[i]; } return sum; }
int consumed; uint32_t result;
dco consumer() { probe p; fiber<uint32_t> f(body, 65536); if (vp_bool("by_value")) result = co_await f; else result = co_await std::move(f); consumed++; }
int main() { hlp = help(); vp_leak_begin(); auto c = consumer(); int n = 0; bool drop = false;
	while (g.has) { CHECK(n++ < N, "one suspension per await"); CHECK(!consumed && !c.h.done(), "the awaiting coroutine waits"); vp_point(); if (DROP && vp_bool("drop")) { drop = true; break; } g.take().resume(); }
	if (!drop) { CHECK(consumed == 1 && c.h.done(), "the awaiting coroutine is resumed once, when the fiber ended"); uint32_t sum = 0; for (auto v : in) sum += v; CHECK(result == sum, "with its result"); }
	CHECK(detail::g_current_fiber == nullptr, "no fiber is current outside"); int r0 = resumed; c.h.destroy(); CHECK(consumed == !drop, "a coroutine destroyed together with the fiber it awaits is not resumed"); CHECK(resumed == r0, "a dropped fiber's await does not complete");
	CHECK(probe::live == 0, "all locals are destroyed"); CHECK(vp_maps() == 0, "the stack is released"); vp_reach(drop ? "dropped" : "end"); vp_leak_check(); hlp.h.destroy(); return 0; }
#elif SCN == 2
// the awaitable hands the fiber to another thread, which resumes it (while its old thread leaves resume())
struct shared { std::atomic<void*> p{nullptr}; }; shared sh[N]; int steps; vp_cell<int> consumed; bool expect_dead; uint32_t val;
struct aw { int i; bool await_ready() { return false; } void await_suspend(H h) { sh[i].p.store(h.address(), std::memory_order_release); } int await_resume() { return i; } };
uint32_t body() { probe p; for (int i = 0; i < N; i++) { CHECK(detail::g_current_fiber != nullptr, "a fiber is current"); int r = fib_await aw{i}; CHECK(r == i && steps == i, "in order"); steps++; } CHECK(detail::g_current_fiber != nullptr, "a fiber is current"); return val; }
co consumer() { fiber<uint32_t> f(body, 65536); uint32_t r = co_await f; CHECK(r == val && steps == N, "the result"); consumed.inc(); }
void starter(void*) { consumer(); CHECK(detail::g_current_fiber == nullptr, "no fiber is current outside"); }
void resumer(void* p) { int i = (int)(intptr_t)p; void* a = sh[i].p.load(std::memory_order_acquire); if (!a) return; sh[i].p.store(nullptr, std::memory_order_relaxed); H::from_address(a).resume(); CHECK(detail::g_current_fiber == nullptr, "no fiber is current outside"); }
int main() { val = vp_nondet("v", 32); vp_leak_begin(); int t[N + 1]; t[0] = vp_spawn(starter, 0); for (int i = 0; i < N; i++) t[i + 1] = vp_spawn(resumer, (void*)(intptr_t)i); for (int i = 0; i <= N; i++) vp_join(t[i]); for (int i = 0; i < N; i++) if (void* a = sh[i].p.load()) { sh[i].p = nullptr; H::from_address(a).resume(); }
	CHECK(consumed.get() == 1, "the awaiting coroutine is resumed exactly once"); CHECK(vp_maps() == 0, "the stack is released"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
// the awaitable hands the fiber to another thread, which destroys or resumes it (while its old thread leaves resume())
std::atomic<void*> sh; fiber<uint32_t>* f; bool drop; int ended, cont;
struct aw { bool await_ready() { return false; } void await_suspend(H h) { sh.store(h.address(), std::memory_order_release); } void await_resume() { } };
uint32_t body() { probe p; fib_await aw{}; CHECK(!drop, "a dropped fiber does not continue"); ended++; return 5; }
struct wco { struct promise_type { wco get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} }; std::coroutine_handle<promise_type> h; };
wco waiter() { cont++; co_return; } wco* w;
void starter(void*) { auto a = f->await(); CHECK(!a.await_ready(), "not finished"); a.await_suspend(w->h).resume(); CHECK(detail::g_current_fiber == nullptr, "no fiber is current outside"); }
void other(void*) { void* a = sh.load(std::memory_order_acquire); if (!a) return; sh.store(nullptr, std::memory_order_relaxed); if (drop) { delete f; f = nullptr; } else { H::from_address(a).resume(); CHECK(ended == 1 && cont == 1, "continues and ends"); } vp_reach(drop ? "dropped" : "resumed"); }
int main() { drop = vp_bool("drop"); vp_leak_begin(); auto ww = waiter(); w = &ww; f = new fiber<uint32_t>(body, 65536); int t1 = vp_spawn(starter, 0), t2 = vp_spawn(other, 0); vp_join(t1); vp_join(t2); if (void* a = sh.load()) { drop = false; H::from_address(a).resume(); }
	CHECK(cont == !drop && ended == !drop, "resumed once, unless it was dropped"); CHECK(ww.h.done() == !drop, "only then"); delete f; CHECK(cont == !drop, "not resumed by the destruction"); ww.h.destroy(); CHECK(probe::live == 0 && vp_maps() == 0, "everything is released"); vp_leak_check(); return 0; }
#elif SCN == 3
// F fibers resumed in every order; each keeps its own locals and current-fiber marker
fiber<uint32_t>* fp[F]; box g[F]; int pos[F], ended, consumed; uint32_t v[F];
struct aw { int f; bool await_ready() { return false; } void await_suspend(H h) { g[f].put(h); } void await_resume() {} };
template<int I> uint32_t body() { probe p; auto* me = detail::g_current_fiber; uint32_t acc = v[I]; for (int i = 0; i < 2; i++) { pos[I]++; fib_await aw{I}; CHECK(detail::g_current_fiber == me, "the running fiber is current"); acc += I + 1; } ended++; return acc; }
dco consumer(int i) { fiber<uint32_t> f = i == 0 ? fiber<uint32_t>(body<0>, 65536) : i == 1 ? fiber<uint32_t>(body<1>, 65536) : fiber<uint32_t>(body<2>, 65536); fp[i] = &f; uint32_t r = co_await f; CHECK(r == v[i] + 2 * (i + 1), "the result"); consumed++; }
int main() { for (auto& x : v) x = vp_nondet("v", 32); vp_leak_begin(); dco c[F]; bool on[F] = {}; int st[F] = {};
	for (int i = 0; i < OPS; i++) { vp_point(); int k = 0; int w = vp_range("which", 0, F - 1); for (k = 0; k < F; k++) if (k == w) break; 
		if (!on[k] && st[k] == 0) { c[k] = consumer(k); on[k] = true; st[k] = 1; CHECK(g[k].has && pos[k] == 1, "runs up to its first await"); }
		else if (on[k] && vp_bool("destroy")) { bool done = st[k] == 3; CHECK(c[k].h.done() == done, "finished when the fiber is"); c[k].h.destroy(); on[k] = false; g[k].has = false; }
		else if (on[k] && st[k] < 3 && !vp_bool("second")) { g[k].take().resume(); st[k]++; CHECK(pos[k] == (st[k] < 3 ? st[k] : 2), "continues where it was"); CHECK(c[k].h.done() == (st[k] == 3), "its awaiting coroutine continues when it ended"); }
		else if (on[k] && st[k] < 3 && fp[k]) { bool threw = false; try { auto a = fp[k]->await(); CHECK(!a.await_ready(), "not finished"); (void)a.await_suspend(std::noop_coroutine()); } catch (std::logic_error&) { threw = true; } CHECK(threw, "a second concurrent await is rejected"); }
		CHECK(detail::g_current_fiber == nullptr, "no fiber is current outside"); int live = 0, e = 0; for (int j = 0; j < F; j++) { live += on[j] && st[j] < 3; e += st[j] == 3; } CHECK(probe::live == live, "locals live as long as their fiber"); CHECK(ended == e && consumed == e, "each ends once"); }
	for (int k = 0; k < F; k++) if (on[k]) c[k].h.destroy(); CHECK(probe::live == 0 && vp_maps() == 0, "everything is released"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
// a fiber awaits another fiber, a coroutine awaits the outer one; the inner one suspends
box g; int consumed, inner, outer; uint32_t v; bool own, susp;
struct aw { bool await_ready() { return !susp; } void await_suspend(H h) { g.put(h); } uint32_t await_resume() { return v; } };
uint32_t in() { probe p; auto* me = detail::g_current_fiber; uint32_t r = fib_await aw{}; CHECK(detail::g_current_fiber == me, "the running fiber is current"); inner++; return r + 1; }
uint32_t out() { probe p; auto* me = detail::g_current_fiber; fiber<uint32_t> f(in, 65536); uint32_t r = fib_await f.await(); CHECK(detail::g_current_fiber == me, "the running fiber is current"); CHECK(inner == 1 && r == v + 1, "the inner result"); r += fib_await f.await(); outer++; return r; }
dco consumer() { fiber<uint32_t> f(out, 65536); uint32_t r = co_await f; CHECK(r == 2 * (v + 1), "the outer result"); consumed++; }
int main() { v = vp_nondet("v", 32); susp = vp_bool("suspend"); vp_leak_begin(); auto c = consumer(); CHECK(g.has == susp, "suspended in the inner await"); CHECK(detail::g_current_fiber == nullptr, "no fiber is current outside"); bool drop = false; if (susp) { drop = vp_bool("drop"); if (!drop) g.take().resume(); }
	CHECK(consumed == !drop && c.h.done() == !drop && inner == !drop && outer == !drop, "everybody is resumed once"); c.h.destroy(); CHECK(consumed == !drop && inner == !drop && outer == !drop, "nothing of a dropped fiber runs on"); CHECK(probe::live == 0 && vp_maps() == 0, "everything is released"); CHECK(detail::g_current_fiber == nullptr, "no fiber is current outside"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
int runs, alive; struct fn { bool own = true; fn() { alive++; } fn(fn&& o) noexcept : own(std::exchange(o.own, false)) {} ~fn() { if (own) alive--; } void operator()() { runs++; } };
dco await(fiber<void>& f, int& done) { co_await f; done++; }
int main() { vp_leak_begin(); { vp_mmap_fail(1); bool ok[2]; int done = 0; fiber<void> f[2];
	for (int i = 0; i < 2; i++) try { f[i] = fiber<void>(fn{}, i ? 1 : 40000); ok[i] = true; } catch (std::bad_alloc&) { ok[i] = false; }
	CHECK(ok[0] || ok[1], "only failing allocations fail"); CHECK(alive == ok[0] + ok[1], "a fiber that could not be created leaves nothing behind"); CHECK(vp_maps() == ok[0] + ok[1], "nor a stack"); CHECK(runs == 0, "a fiber runs when it is awaited");
	int k = ok[0] ? 0 : 1; bool start = vp_bool("start"); if (start) { auto c = await(f[k], done); CHECK(runs == 1 && done == 1, "ran once"); c.h.destroy(); c = await(f[k], done); CHECK(runs == 1 && done == 2, "awaiting a finished fiber does not suspend"); c.h.destroy(); }
	if (vp_bool("move")) { fiber<void> m(std::move(f[k])); CHECK(alive == ok[0] + ok[1], "moving keeps it"); bool threw = false; try { (void)f[k].await(); } catch (std::logic_error&) { threw = true; } CHECK(threw, "a moved-from fiber is empty"); f[1 - k] = std::move(m); CHECK(alive == 1, "assignment releases the old one"); }
	} CHECK(alive == 0 && vp_maps() == 0, "everything is released"); vp_reach("end"); vp_leak_check(); return 0; }
#endif
