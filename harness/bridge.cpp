// From coroutines to threads: as_promise, join_future, async_main, defer, launch (C37).
//@ C37 future quick -DSCN=1
//@ C37 future_thread quick -DSCN=2 -DWAIT=0
//@ C37 future_thread_deep thorough -DSCN=2 -DWAIT=1
//@ C37 joined quick -DSCN=3 -DN=2
//@ C37 joined_three quick -DSCN=3 -DN=3 -- --preempt 2
//@ C37 joined_deep thorough -DSCN=3 -DN=3 -- --preempt 3
//@ C37 main quick -DSCN=4 -DOTHER=0
//@ C37 main_thread quick -DSCN=4 -DOTHER=1
//@ C37 deferred quick -DSCN=5 -DD=2 -DN=3
//@ C37 deferred_deep thorough -DSCN=5 -DD=3 -DN=4
//@ C37 launched quick -DSCN=6
#include "common.h"
#include <atomic>
#include <sched.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <asyncpp/defer.h>
#include <asyncpp/dispatcher.h>
#if SCN == 4
#define main vp_async_main
#include <asyncpp/async_main.h>
#undef main
#define main vp_body
#endif
using namespace asyncpp;
typedef std::coroutine_handle<> H;
struct probe { static std::atomic<int> live; int x = 5; probe() { live++; } probe(const probe& o) { CHECK(o.x == 5, "intact"); live++; } ~probe() { CHECK(x == 5, "destroyed once"); x = 0; live--; } }; std::atomic<int> probe::live;
#if SCN == 1
struct aw { int kind; H* out; uint32_t v; probe p{}; bool await_ready() const { return kind == 0; } void await_suspend(H h) const { if (kind == 1) { h.resume(); return; } if (kind == 4) throw (int)v; *out = h; } uint32_t await_resume() const { if (kind == 3) throw (int)v; return v; } };
struct vaw : aw { void await_resume() const { if (kind == 3) throw (int)v; } };
struct raw : aw { uint32_t& await_resume() const { if (kind == 3) throw (int)v; return *rv; } uint32_t* rv; };
int main() { uint32_t v = vp_nondet("v", 32); int kind = 0; int kk = vp_range("kind", 0, 4); for (kind = 0; kind < 4; kind++) if (kind == kk) break; int form = vp_range("form", 0, 2); vp_leak_begin();
	{ H h; std::future<uint32_t> f; std::future<void> fv; std::future<uint32_t&> fr; bool now = kind != 2 && kind != 3; std::future_status st; 
	if (form == 0) { fv = as_promise(vaw{kind, &h, v}); st = fv.wait_for(std::chrono::seconds(0)); } else if (form == 1) { f = as_promise(aw{kind, &h, v}); st = f.wait_for(std::chrono::seconds(0)); } else { raw r{{kind, &h, v}, &v}; fr = as_promise(r); st = fr.wait_for(std::chrono::seconds(0)); }
	CHECK((st == std::future_status::ready) == now, "ready once the awaitable finished");
	if (!now) { CHECK(probe::live == 1, "the awaitable is kept alive"); h.resume(); }
	uint32_t got = 0; bool threw = false; try { if (form == 0) { fv.get(); got = v; } else if (form == 1) got = f.get(); else { uint32_t& r = fr.get(); CHECK(&r == &v, "the referred object"); got = r; } } catch (int e) { threw = true; got = e; }
	CHECK(threw == (kind >= 3) && got == v, "the result"); CHECK(probe::live == 0, "the awaitable is destroyed"); vp_reach(threw ? "threw" : "value"); } vp_leak_check(); return 0; }
#elif SCN == 2
// the coroutine finishes on another thread, before, while or after this thread waits
std::atomic<void*> slot; int side; bool thr; uint32_t v;
struct aw { probe p{}; bool await_ready() const { return false; } void await_suspend(H h) const { slot.store(h.address(), std::memory_order_release); } uint32_t await_resume() const { if (thr) throw (int)v; return v; } };
struct vaw { probe p{}; bool await_ready() const { return false; } void await_suspend(H h) const { slot.store(h.address(), std::memory_order_release); } void await_resume() const { if (thr) throw (int)v; } };
void resumer(void*) { void* a; while (!(a = slot.load(std::memory_order_acquire))) sched_yield(); side = 7; H::from_address(a).resume(); }
int main() { v = vp_nondet("v", 32); thr = vp_bool("throw"); bool isvoid = vp_bool("void"); vp_leak_begin(); int t = vp_spawn(resumer, 0); uint32_t r = v; bool threw = false; 
	try { if (isvoid) { auto f = as_promise(vaw{}); if (WAIT) f.wait(); f.get(); } else { auto f = as_promise(aw{}); if (WAIT) f.wait(); r = f.get(); } } catch (int e) { threw = true; r = e; }
	CHECK(threw == thr && r == v, "the result arrives"); CHECK(side == 7, "after everything that happened before"); vp_join(t); CHECK(probe::live == 0, "the awaitable is destroyed"); vp_reach(threw ? "threw" : "value"); vp_leak_check(); return 0; }
#elif SCN == 3
// join_future is ready exactly when all tasks are done; the scope may die once it is
std::atomic<void*> slot[N]; int side[N]; 
struct aw { int i; bool await_ready() const { return false; } void await_suspend(H h) const { slot[i].store(h.address(), std::memory_order_release); } void await_resume() const {} };
void resumer(void* p) { int i = (int)(intptr_t)p; void* a; while (!(a = slot[i].load(std::memory_order_acquire))) sched_yield(); side[i] = 7; H::from_address(a).resume(); }
int main() { vp_leak_begin(); { auto* sc = new async_launch_scope; int t[N]; for (int i = 0; i < N; i++) t[i] = vp_spawn(resumer, (void*)(intptr_t)i); for (int i = 0; i < N; i++) sc->launch(aw{i}); auto f = sc->join_future(); f.get(); for (int i = 0; i < N; i++) CHECK(side[i] == 7, "all tasks are done"); CHECK(sc->all_done() && sc->inflight_coroutines() == 0, "none is left"); delete sc; for (int i = 0; i < N; i++) vp_join(t[i]); vp_reach("end"); } vp_leak_check(); return 0; }
#elif SCN == 4
// main() runs async_main to its end, wherever that is, and returns or throws what it did
int kind; uint32_t v; std::atomic<void*> slot; int runs, side; dispatcher* seen; const char* args[2] = {"a", "b"};
struct aw { bool await_ready() const { return false; } void await_suspend(H h) const { if (kind & 2) slot.store(h.address(), std::memory_order_release); else seen->push([h]() { h.resume(); }); } void await_resume() const {} };
task<int> async_main(int argc, const char** argv) { runs++; probe p; CHECK(argc == 2 && argv == args, "the arguments"); seen = dispatcher::current(); CHECK(seen != nullptr, "on a dispatcher"); if (kind & 4) co_await aw{}; side = 7; if (kind & 1) throw (int)v; co_return (int)v; }
void resumer(void*) { void* a; while (!(a = slot.load(std::memory_order_acquire))) sched_yield(); H::from_address(a).resume(); }
int main() { v = vp_nondet("v", 32); if (OTHER) { kind = 6; if (vp_bool("throw")) kind = 7; } else { int k = vp_range("kind", 0, 3); for (kind = 0; kind < 3; kind++) if (kind == k) break; if (kind & 2) kind ^= 6; } vp_leak_begin(); int t = OTHER ? vp_spawn(resumer, 0) : 0; uint32_t r = 0; bool threw = false; try { r = vp_async_main(2, args); } catch (int e) { r = e; threw = true; }
	CHECK(threw == (kind & 1) && r == v, "returns or throws the outcome"); CHECK(runs == 1 && side == 7, "ran once, to its end"); if (OTHER) vp_join(t); CHECK(probe::live == 0, "nothing left"); CHECK(dispatcher::current() == nullptr, "no dispatcher afterwards"); vp_reach(threw ? "threw" : "value"); vp_leak_check(); return 0; }
#elif SCN == 5
// defer resumes exactly once, on its target
struct disp : dispatcher { std::function<void()> q[2]; int n = 0, pushes = 0; bool bad = false; void push(std::function<void()> f) override { if (bad) throw 3; CHECK(n < 2, "[harness] room"); q[n++] = std::move(f); pushes++; } void run() { auto f = std::move(q[0]); q[0] = std::move(q[1]); q[1] = nullptr; n--; f(); } }; disp d[D]; int on = -1, steps, thrown;
co run() { probe p; for (int i = 0; i < N; i++) { int w = vp_range("where", 0, D), k; for (k = 0; k < D; k++) if (k == w) break; bool fail = k < D && vp_bool("refuse"); int was = on; bool threw = false; if (k < D) d[k].bad = fail; 
	try { if (k == D) co_await defer(static_cast<dispatcher*>(nullptr)); else if (vp_bool("reference")) co_await defer(d[k]); else co_await defer<dispatcher>(&d[k]); } catch (int e) { threw = true; CHECK(e == 3, "the refusal"); } if (k < D) d[k].bad = false;
	CHECK(threw == fail, "a refusing dispatcher's exception arrives"); CHECK(on == (fail || k == D ? was : k), "continues on the target"); steps++; thrown += threw; } }
int main() { vp_leak_begin(); run(); int guard = 0; for (;;) { vp_point(); int tot = 0, k; for (auto& x : d) tot += x.n; CHECK(tot <= 1, "scheduled once"); if (!tot) break; CHECK(guard++ < N, "[harness] bounded"); for (k = 0; k < D; k++) if (d[k].n) break; int s0 = steps; on = k; d[k].run(); on = -1; CHECK(steps > s0, "resumed"); }
	CHECK(steps == N && probe::live == 0, "ran to its end"); for (auto& x : d) for (auto& q : x.q) q = nullptr; vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
// launch starts its awaitable at once, keeps it alive and ends it once
struct box { H h{}; int ready = 0, susp = 0, res = 0; } b; int kind;
struct aw { probe p{}; bool await_ready() const { b.ready++; return kind == 0; } bool await_suspend(H h) const { b.susp++; if (kind == 1) return false; if (kind == 3) { h.resume(); return true; } b.h = h; return true; } void await_resume() const { b.res++; CHECK(p.x == 5, "kept alive"); } };
int main() { int k = vp_range("kind", 0, 3); for (kind = 0; kind < 3; kind++) if (kind == k) break; bool lvalue = vp_bool("lvalue"), inscope = vp_bool("scope"); vp_leak_begin(); { async_launch_scope sc; aw a; 
	if (inscope) { if (lvalue) sc.launch(a); else sc.launch(aw{}); } else if (lvalue) launch(a); else launch(aw{});
	CHECK(b.ready == 1 && b.susp == (kind != 0), "started at once"); if (kind == 2) { CHECK(b.res == 0 && probe::live == 2, "kept alive"); CHECK(sc.inflight_coroutines() == inscope && sc.all_done() == !inscope, "counted while it runs"); b.h.resume(); } CHECK(b.res == 1 && probe::live == 1, "ended once"); CHECK(sc.all_done(), "done"); } CHECK(probe::live == 0, "released"); vp_reach("end"); vp_leak_check(); return 0; }
#endif
