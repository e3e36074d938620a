// Detached coroutines (C25) and launch scopes (C26).
//@ C25 policy quick -DSCN=1
//@ C25 owners quick -DSCN=2 -DOPS=4
//@ C25 owners_deep thorough -DSCN=2 -DOPS=6
//@ C25 end_vs_release quick -DSCN=3 -DEAGER=0 -DCOPIES=1
//@ C25 end_vs_release_eager quick -DSCN=3 -DEAGER=1 -DCOPIES=1
//@ C25 end_vs_two_releases quick -DSCN=3 -DEAGER=1 -DCOPIES=2
//@ C25 start_vs_start quick -DSCN=4
//@ C25 start_vs_release quick -DSCN=5
//@ C25 launched quick -DSCN=6
//@ C26 join_vs_end quick -DSCN=10 -DNT=1
//@ C26 join_vs_two_ends quick -DSCN=10 -DNT=2
//@ C26 join_vs_three_ends quick -DSCN=10 -DNT=3
//@ C26 launch_vs_end_join quick -DSCN=11
//@ C26 history quick -DSCN=12 -DOPS=5
//@ C26 history_deep quick -DSCN=12 -DOPS=7
//@ C26 nested quick -DSCN=13
//@ C26 duplicate_join quick -DSCN=14
//@ C26 invoke quick -DSCN=15
//@ C26 rejoin quick -DSCN=16
//@ C26 invoke_copy quick -DSCN=17
//@ C26 two_joins quick -DSCN=18 -DEND=0
//@ C26 two_joins_vs_end quick -DSCN=18 -DEND=1
//@ C26 launches_vs_join quick -DSCN=19
//@ C26 launches_vs_join_deep quick -DSCN=19 -DDEEP
#include "common.h"
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <memory>
#include <optional>
using namespace asyncpp;
struct gate { std::coroutine_handle<> h{}; bool open = false; bool await_ready() const noexcept { return open; } void await_suspend(std::coroutine_handle<> x) noexcept { h = x; } void await_resume() const noexcept {} void go() { if (h) std::exchange(h, {}).resume(); } };
// the same for resumption by another thread while the coroutine may not have arrived yet
struct tgate { std::atomic<void*> s{nullptr}; bool await_ready() const noexcept { return false; } bool await_suspend(std::coroutine_handle<> x) noexcept { void* e = nullptr; return s.compare_exchange_strong(e, x.address()); } void await_resume() const noexcept {} void go() { void* p = s.exchange(this); if (p) std::coroutine_handle<>::from_address(p).resume(); } };
struct tracked { static inline int live = 0; int v; explicit tracked(int x) : v(x) { live++; } tracked(const tracked& o) : v(o.v) { live++; } tracked(tracked&& o) noexcept : v(o.v) { live++; } ~tracked() { live--; } };
#if SCN == 1
int handled, after; int got; gate g;
template<typename R> R body(int pol, bool park, bool thr, tracked) { tracked l(1); switch (pol) { case 1: co_await exception_policy::ignore; break; case 2: co_await exception_policy::handle([]() { handled++; try { throw; } catch (int x) { got = x; } }); break; case 3: co_await exception_policy::ignore; co_await exception_policy::handle([]() { handled++; got = 7; }); break; case 4: co_await exception_policy::terminate; break; } if (park) co_await g; if (thr) throw 7; after++; }
int main() { int pol = vp_range("policy", 0, 4); bool park = vp_bool("park"), thr = vp_bool("throw"), eager = vp_bool("eager"); vp_leak_begin(); { bool term = thr && (pol == 0 || pol == 4); if (term) vp_expect_terminate(1); { if (eager) { auto t = body<eager_fire_and_forget_task<>>(pol, park, thr, tracked(2)); g.go(); } else { auto t = body<fire_and_forget_task<>>(pol, park, thr, tracked(2)); CHECK(after == 0 && !g.h, "a lazy one does not run before start"); t.start(); g.go(); } } CHECK(!term, "an unhandled exception terminates"); CHECK(after == !thr, "runs to the end or to the throw"); CHECK(handled == (thr && pol >= 2), "the handler runs once"); if (thr && pol >= 2) CHECK(got == 7, "inside the catch block"); CHECK(tracked::live == 0, "nothing is left"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
int ran[OPS + 1], ended[OPS + 1]; gate gs[OPS + 1]; fire_and_forget_task<> mk(int id, tracked) { ran[id]++; co_await gs[id]; ended[id]++; }
int main() { vp_leak_begin(); { typedef fire_and_forget_task<> F; { F s[2]{F(std::coroutine_handle<F::promise_type>{}), F(std::coroutine_handle<F::promise_type>{})}; int m[2] = {-1, -1}; bool st[OPS + 1] = {}, en[OPS + 1] = {}; for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_range("which", 0, 1); switch (vp_range("op", 0, 5)) {
	case 0: { F n = mk(i, tracked(i)); F o(std::move(s[k])); s[k] = std::move(n); m[k] = i; break; } case 1: s[k] = s[1 - k]; m[k] = m[1 - k]; break; case 2: { F x(s[k]); F y(std::move(s[k])); m[k] = -1; y = x; break; } case 3: s[k] = std::move(s[1 - k]); std::swap(m[0], m[1]); break; case 4: s[k].start(); if (m[k] >= 0) { st[m[k]] = true; m[k] = -1; } break; case 5: { int t = vp_range("gate", 0, OPS - 1); if (st[t] && !en[t]) { gs[t].go(); en[t] = true; } break; } }
	vp_point(); for (int j = 0; j < OPS; j++) CHECK(ran[j] == st[j] && ended[j] == en[j], "started once, however many owners"); } for (int j = 0; j < OPS; j++) if (st[j] && !en[j]) gs[j].go(); } CHECK(tracked::live == 0, "all destroyed"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// a coroutine ends on another thread while its owners go away
tgate g; int d; struct local { int* p; local() : p(new int(1)) {} ~local() { delete p; } };
#if EAGER
eager_fire_and_forget_task<>
#else
fire_and_forget_task<>
#endif
body() { local l; co_await g; d++; }
void other(void*) { g.go(); }
#if COPIES > 1
std::optional<eager_fire_and_forget_task<>> second; void rel(void*) { second.reset(); }
#endif
int main() { vp_leak_begin(); { int t, u = 0; { auto x = body(); auto y = x;
#if EAGER == 0
	x.start();
#endif
	t = vp_spawn(other, 0);
#if COPIES > 1
	second.emplace(y); u = vp_spawn(rel, 0);
#endif
	} if (u) vp_join(u); vp_join(t); CHECK(d == 1, "ran to the end"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
// two owners start the same coroutine at the same time
vp_cell<int> ran; fire_and_forget_task<>* px; fire_and_forget_task<> body() { ran.inc(); co_return; }
void other(void*) { px->start(); }
int main() { vp_leak_begin(); { { auto x = body(); auto y = x; px = &y; int t = vp_spawn(other, 0); x.start(); vp_join(t); } CHECK(ran.get() == 1, "started once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
vp_cell<int> ran; std::optional<fire_and_forget_task<>> y; fire_and_forget_task<> body(tracked) { tracked l(1); ran.inc(); co_return; }
void other(void*) { y.reset(); }
int main() { vp_leak_begin(); { { auto x = body(tracked(2)); y.emplace(x); int t = vp_spawn(other, 0); x.start(); vp_join(t); } CHECK(ran.get() == 1 && tracked::live == 0, "ran once, destroyed once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
gate g; int st, en; task<> body(tracked t, bool park) { tracked l(1); st++; if (park) co_await g; en++; }
struct aw { std::unique_ptr<int> p; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { g.h = h; } void await_resume() { CHECK(*p == 5, "the awaitable is kept alive"); en++; } };
int main() { bool park = vp_bool("park"), thr = vp_bool("throw"); vp_leak_begin(); { launch(body(tracked(1), park)); CHECK(st == 1 && en == !park, "runs at once up to its first suspension"); g.go(); CHECK(en == 1 && tracked::live == 0, "finished and released"); launch(aw{std::make_unique<int>(5)}); CHECK(en == 1, "suspended"); g.go(); CHECK(en == 2, "resumed"); if (thr) { vp_expect_terminate(1); launch([]() -> task<> { throw 1; co_return; }()); CHECK(0, "an exception terminates"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
tgate g[NT]; vp_cell<int> ended; task<> body(int i) { co_await g[i]; ended.inc(); } vp_cell<int> joined; vp_cell<bool> fin; int order;
void end(void* p) { g[(intptr_t)p].go(); }
int main() { vp_leak_begin(); { tgate jg; static tgate* pj; pj = &jg; auto scope = std::make_unique<async_launch_scope>(); for (int i = 0; i < NT; i++) scope->launch(body(i)); CHECK(scope->inflight_coroutines() == NT && !scope->all_done(), "counted"); int t[NT]; for (int i = 0; i < NT; i++) t[i] = vp_spawn(end, (void*)(intptr_t)i);
	auto body = [&]() -> co { co_await scope->join(); CHECK(ended.get() == NT, "only after every task has ended"); joined.inc(); CHECK(scope->all_done(), "none is left"); scope.reset(); fin.set(true); }; body();
	for (int i = 0; i < NT; i++) vp_join(t[i]); CHECK(joined.get() == 1, "the joiner continues exactly once"); CHECK(fin.get() && !scope, "and may destroy the scope"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
// while somebody is joining, another task is launched from a running one
tgate g, g2; async_launch_scope* sc; vp_cell<int> ended; vp_cell<int> joined; task<> inner() { co_await g2; ended.inc(); } task<> outer() { co_await g; sc->launch(inner()); ended.inc(); }
void a(void*) { g.go(); } void b(void*) { g2.go(); }
int main() { vp_leak_begin(); { auto scope = std::make_unique<async_launch_scope>(); sc = scope.get(); scope->launch(outer()); int t = vp_spawn(a, 0), u = vp_spawn(b, 0); auto body = [&]() -> co { co_await scope->join(); CHECK(ended.get() == 2, "tasks launched by tasks count"); joined.inc(); scope.reset(); }; body(); vp_join(t); vp_join(u); CHECK(joined.get() == 1, "the joiner continues exactly once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 12
// histories: launch, end, join, on one thread
gate g[OPS]; int st, en; task<> body(int i) { st++; co_await g[i]; en++; }
int main() { vp_leak_begin(); { async_launch_scope s; bool up[OPS] = {}; int n = 0, live = 0, joins = 0, want = 0; bool waiting = false; std::optional<int> dummy; auto jb = [&]() -> co { co_await s.join(); joins++; };
	for (int i = 0; i < OPS; i++) { vp_point(); switch (vp_range("op", 0, 3)) { case 0: s.launch(body(n)); up[n++] = true; live++; break; case 1: { int k = vp_range("k", 0, OPS - 1); if (up[k]) { up[k] = false; live--; g[k].go(); if (!live && waiting) { want++; waiting = false; } } break; } case 2: if (!waiting) { jb(); if (live) waiting = true; else want++; } break; case 3: { auto r = [](int* e) -> task<> { ++*e; co_return; }; int e = 0; s.launch(r(&e)); CHECK(e == 1, "runs at once"); break; } }
	vp_point(); CHECK(s.inflight_coroutines() == (size_t)live && s.all_done() == !live, "count of running tasks"); CHECK(joins == want, "a join completes exactly when no task is running"); CHECK(st == n && en == n - live, "tasks run"); }
	for (int k = 0; k < OPS; k++) if (up[k]) { g[k].go(); live--; if (!live && waiting) { want++; waiting = false; } } CHECK(joins == want && s.all_done(), "all joined"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 13
gate g[3]; int en; async_launch_scope* sc; bool pk[3]; task<> body(int i) { if (i < 2) sc->launch(body(i + 1)); if (pk[i]) co_await g[i]; en++; }
int main() { for (auto& p : pk) p = vp_bool("park"); vp_leak_begin(); { async_launch_scope s; sc = &s; s.launch(body(0)); int j = 0; auto jb = [&]() -> co { co_await s.join(); j++; }; jb(); int left = pk[0] + pk[1] + pk[2]; CHECK(j == !left, "waits for all"); for (int k = 0; k < 3; k++) { CHECK(s.inflight_coroutines() == (size_t)left, "count"); int x = vp_range("order", 0, 2); for (int q = 0; q < 3; q++) { int y = (x + q) % 3; if (g[y].h) { g[y].go(); left--; break; } } CHECK(j == !left, "waits for all"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 14
gate g; task<> body() { co_await g; }
int main() { vp_leak_begin(); { async_launch_scope s; s.launch(body()); int j = 0, ex = 0; auto a = [&]() -> co { co_await s.join(); j++; }; auto b = [&]() -> co { try { co_await s.join(); CHECK(0, "not both"); } catch (std::logic_error&) { ex++; } }; a(); b(); CHECK(j == 0 && ex == 1, "a second join is refused"); g.go(); CHECK(j == 1, "the first completes"); a(); CHECK(j == 2, "and again"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 15
gate g; int v, n; struct fn { std::unique_ptr<int> p; tracked t; task<> operator()(int a, std::unique_ptr<int> b) { int* q = p.get(); bool pk = a & 1; if (pk) co_await g; CHECK(q == p.get() && *p == v && *b == a, "the callable and its arguments live as long as the task"); n++; } };
int main() { v = vp_nondet("v", 32); int a = vp_nondet("a", 8); bool tup = vp_bool("tuple"); vp_leak_begin(); { async_launch_scope s; if (tup) s.invoke_tuple(fn{std::make_unique<int>(v), tracked(1)}, std::make_tuple(a, std::make_unique<int>(a))); else s.invoke(fn{std::make_unique<int>(v), tracked(1)}, a, std::make_unique<int>(a)); CHECK(n == !(a & 1) && s.inflight_coroutines() == (size_t)(a & 1), "runs until it suspends"); g.go(); CHECK(n == 1 && s.all_done() && tracked::live == 0, "completes, the callable is destroyed"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 16
// a scope is joined twice, tasks ending concurrently each time
tgate g[2]; vp_cell<int> joined; task<> body(int i) { co_await g[i]; }
void end(void* p) { g[(intptr_t)p].go(); }
int main() { vp_leak_begin(); { async_launch_scope s; for (int i = 0; i < 2; i++) { s.launch(body(i)); int t = vp_spawn(end, (void*)(intptr_t)i); auto jb = [&]() -> co { co_await s.join(); joined.inc(); CHECK(s.all_done(), "none running"); }; jb(); vp_join(t); CHECK(joined.get() == i + 1, "each join completes once"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 17
// callables passed as lvalues are copied into the task: the caller's are gone, or changed, before the task continues
gate g; int v, n, w;
int main() { v = vp_nondet("v", 32); bool tup = vp_bool("tuple"), cst = vp_bool("const"); vp_leak_begin(); { async_launch_scope s; { tracked t(v); auto l = [t, q = std::make_shared<int>(v)](int a) -> task<> { co_await g; CHECK(t.v == v && *q == v && a == 3, "the captures live as long as the task"); n++; }; if (cst) { const auto& c = l; if (tup) s.invoke_tuple(c, std::make_tuple(3)); else s.invoke(c, 3); } else if (tup) s.invoke_tuple(l, std::make_tuple(3)); else s.invoke(l, 3); w = tracked::live; } CHECK(n == 0 && s.inflight_coroutines() == 1, "suspended"); g.go(); CHECK(n == 1 && s.all_done() && tracked::live == 0, "completes, the copy is destroyed"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 18
// two threads join at the same time: one waits, the other one is refused, neither is forgotten
tgate g; async_launch_scope* sc; vp_cell<int> joined, refused, ended; task<> body() { co_await g; ended.inc(); }
co joiner() { try { co_await sc->join(); CHECK(ended.get() == 1, "only after every task has ended"); joined.inc(); } catch (std::logic_error&) { refused.inc(); } }
void jm(void*) { joiner(); } void em(void*) { g.go(); }
int main() { vp_leak_begin(); { async_launch_scope s; sc = &s; s.launch(body()); int t = vp_spawn(jm, 0), u = END ? vp_spawn(em, 0) : -1; joiner(); vp_join(t); if (END) vp_join(u); else { CHECK(joined.get() == 0 && refused.get() == 1, "one of them is refused"); g.go(); CHECK(joined.get() == 1, "the other one continues"); }
	CHECK(joined.get() + refused.get() == 2 && refused.get() <= 1, "every join completes or is refused"); CHECK(s.all_done(), "none is left"); int j = 0; auto again = [&]() -> co { co_await s.join(); j++; }; again(); CHECK(j == 1, "the scope can be joined again"); if (refused.get()) vp_reach("refused"); if (END && joined.get() == 2) vp_reach("both"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 19
// tasks are launched from two threads while an earlier one ends; the join sees all of those launched before it
tgate g[3]; async_launch_scope* sc; vp_cell<int> ended, launched; task<> body(int i) { co_await g[i]; ended.inc(); }
void lm(void*) { sc->launch(body(1)); } void em(void* p) { g[(intptr_t)p].go(); }
int main() { vp_leak_begin(); { async_launch_scope s; sc = &s; vp_cell<int> joined; s.launch(body(0)); int t = vp_spawn(lm, 0), u = vp_spawn(em, (void*)0); s.launch(body(2)); vp_join(t);
#ifdef DEEP
	int w = vp_spawn(em, (void*)1), x = vp_spawn(em, (void*)2);
#endif
	auto jb = [&]() -> co { co_await s.join(); CHECK(ended.get() == 3, "only after every task has ended"); joined.inc(); }; jb();
#ifdef DEEP
	vp_join(w); vp_join(x);
#else
	CHECK(!joined.get(), "still waiting"); g[1].go(); CHECK(!joined.get(), "still waiting"); g[2].go();
#endif
	vp_join(u); CHECK(joined.get() == 1, "the joiner continues exactly once"); CHECK(s.inflight_coroutines() == 0 && s.all_done(), "none is left"); } vp_reach("end"); vp_leak_check(); return 0; }
#endif
