// Dispatchers: current dispatcher (C31), the simple dispatcher (C32), the thread pool (C30).
//@ C32 one_producer quick -DSCN=1 -DP=1 -DN=2
//@ C32 two_producers quick -DSCN=1 -DP=2 -DN=1
//@ C32 two_producers_deep thorough -DSCN=1 -DP=2 -DN=2
//@ C32 stop_vs_run quick -DSCN=2
//@ C32 history quick -DSCN=3 -DOPS=4
//@ C32 history_deep thorough -DSCN=3 -DOPS=6
//@ C31 nested quick -DSCN=10
//@ C31 threads quick -DSCN=11
//@ C31 pool quick -DSCN=20 -DW=1 -DN=2 -DTO=1 -DTRY=0 -DFAST=1 -DCURRENT
//@ C31 pool_shutdown quick -DSCN=21 -DW=1 -DTO_SIZE=0 -DN=1 -DTO=-3 -DTRY=-1 -DFAST=1 -DCURRENT -- --preempt 3
//@ C31 pool_shrink quick -DSCN=21 -DW=2 -DTO_SIZE=1 -DN=1 -DTO=-3 -DTRY=-1 -DFAST=1 -DCURRENT -- --preempt 2
//@ C31 pool_subtasks quick -DSCN=22 -DW=1 -DTO_SIZE=1 -DTO=-3 -DTRY=-1 -DFAST=1 -DCURRENT -- --preempt 3
//@ C31 two_pools quick -DSCN=23 -DTO=-3 -DTRY=-1 -DFAST=1 -DCURRENT -- --preempt 2
//@ C30 tasks quick -DSCN=20 -DW=1 -DN=2 -DTO=1 -DTRY=0 -DFAST=1
//@ C30 tasks_two_workers quick -DSCN=20 -DW=2 -DN=1 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 2
//@ C30 tasks_two_workers_two quick -DSCN=20 -DW=2 -DN=2 -DTO=-3 -DTRY=1 -DFAST=1 -- --preempt 1
//@ C30 tasks_two_workers_deep thorough -DSCN=20 -DW=2 -DN=2 -DTO=-3 -DTRY=1 -DFAST=1 -- --preempt 2 --mem 9000
//@ C30 shrink quick -DSCN=21 -DW=2 -DTO_SIZE=1 -DN=1 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 2
//@ C30 shrink_grow quick -DSCN=21 -DW=1 -DTO_SIZE=2 -DN=1 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 1
//@ C30 shutdown quick -DSCN=21 -DW=1 -DTO_SIZE=0 -DN=1 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 3
//@ C30 shrink_grow_deep thorough -DSCN=21 -DW=1 -DTO_SIZE=2 -DN=1 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 3 --mem 9000
//@ C30 shrink_deep thorough -DSCN=21 -DW=2 -DTO_SIZE=1 -DN=1 -DTO=-3 -DTRY=1 -DFAST=1 -- --preempt 2 --mem 9000
//@ C30 subtasks quick -DSCN=22 -DW=1 -DTO_SIZE=1 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 3
//@ C30 subtasks_shrink quick -DSCN=22 -DW=2 -DTO_SIZE=1 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 2
//@ C30 subtasks_shrink_deep thorough -DSCN=22 -DW=2 -DTO_SIZE=1 -DTO=-3 -DTRY=1 -DFAST=1 -- --preempt 2
//@ C30 two_pools quick -DSCN=23 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 2
//@ C30 sizes quick -DSCN=24 -DOPS=2 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 1
//@ C30 two_resizes quick -DSCN=25 -DW=1 -DSIZE1=2 -DSIZE2=0 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 2
//@ C30 two_resizes_grow quick -DSCN=25 -DW=0 -DSIZE1=1 -DSIZE2=2 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 2
//@ C30 two_resizes_shrink quick -DSCN=25 -DW=2 -DSIZE1=1 -DSIZE2=0 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 2
//@ C30 two_resizes_deep thorough -DSCN=25 -DW=1 -DSIZE1=2 -DSIZE2=0 -DTO=-3 -DTRY=-1 -DFAST=1 -- --preempt 3 --mem 9000
//@ C30 sizes_deep thorough -DSCN=24 -DOPS=3 -DTO=-3 -DTRY=1 -DFAST=1 -- --preempt 1 --mem 9000
#include "common.h"
#include <asyncpp/dispatcher.h>
#include <asyncpp/simple_dispatcher.h>
#if SCN >= 20
#include <asyncpp/thread_pool.h>
#endif
#include <memory>
#ifdef CURRENT // only what is said about the current dispatcher (C31), the rest is checked by C30
#include <string_view>
#undef CHECK
#define CHECK(c, what) do { if constexpr (std::string_view(what).find("current dispatcher") != std::string_view::npos) vp_check(!!(c), what " [" #c "] " __FILE__ ":" VP_STR(__LINE__)); } while (0)
#endif
using namespace asyncpp;
struct cur : dispatcher { static dispatcher* set(dispatcher* d) { return current(d); } static dispatcher* get() { return dispatcher::current(); } };
#if SCN == 1
// P producers push N callbacks each while another thread runs the dispatcher; the last callback stops it
simple_dispatcher* d; int ran, lastOf[P], payload[P][N]; int runner = -1;
void pm(void* p) { int t = (int)(intptr_t)p; for (int i = 0; i < N; i++) { payload[t][i] = 7 + i; d->push([t, i]() { CHECK(vp_self() == runner, "callbacks run on the thread inside run()"); CHECK(cur::get() == d, "current dispatcher"); CHECK(payload[t][i] == 7 + i, "everything before the push is visible"); CHECK(lastOf[t]++ == i, "in the order pushed, once"); if (++ran == P * N) d->stop(); }); } }
void rm(void*) { runner = vp_self(); d->run(); CHECK(ran == P * N, "all callbacks ran"); CHECK(cur::get() == nullptr, "current dispatcher is restored"); }
int main() { simple_dispatcher dd; d = &dd; vp_leak_begin(); int t[P + 1]; t[P] = vp_spawn(rm, 0); for (int i = 0; i < P; i++) t[i] = vp_spawn(pm, (void*)(intptr_t)i); for (int i = 0; i <= P; i++) vp_join(t[i]); vp_reach("end"); return 0; }
#elif SCN == 2
// stop() by another thread while one thread runs and one pushes: run() always returns and no callback runs twice
simple_dispatcher* d; int ran; vp_cell<int> stopped, pushed;
void pm(void*) { d->push([]() { ran++; CHECK(ran == 1, "runs once"); }); pushed.set(1); }
void sm(void*) { d->stop(); stopped.set(1); }
void rm(void*) { d->run(); }
int main() { simple_dispatcher dd; d = &dd; bool pre = vp_bool("pushed_before"), push = vp_bool("push"); vp_assume(!(pre && push)); if (pre) pm(0); vp_leak_begin(); int a = vp_spawn(rm, 0), b = vp_spawn(sm, 0), c = push ? vp_spawn(pm, 0) : 0; vp_join(a); vp_join(b); if (push) vp_join(c); vp_point();
	int before = ran; d->run(); CHECK(ran == before, "run() on a stopped dispatcher returns at once"); if (ran) vp_reach("ran"); else vp_reach("did not run"); vp_reach("end"); return 0; }
#elif SCN == 3
// any sequence of pushes, where callbacks push more, stop, throw or do nothing, then run() (again after an exception)
struct tracked { static inline int live = 0; int v; explicit tracked(int x) : v(x) { live++; } tracked(const tracked& o) : v(o.v) { live++; } ~tracked() { live--; } };
int order[2 * OPS + 2], n, expect[2 * OPS + 2], en;
int main() { vp_leak_begin(); { simple_dispatcher d; int kind[OPS], sub[OPS]; simple_dispatcher outer; bool hasouter = vp_bool("outer"); if (hasouter) cur::set(&outer); dispatcher* old = cur::get();
	for (int i = 0; i < OPS; i++) { kind[i] = vp_range("kind", 0, 4); if (kind[i] == 4) { d.push({}); continue; } tracked t(i); int k = kind[i]; d.push([t, k, &d]() { order[n++] = t.v; CHECK(cur::get() == &d, "current dispatcher"); if (k == 1) d.push([t]() { order[n++] = 100 + t.v; }); if (k == 2) d.stop(); if (k == 3) throw t.v; }); }
	d.push([&d]() { order[n++] = 50; d.push([&d]() { order[n++] = 51; d.stop(); }); });
	vp_point(); int pos = 0; bool done = false; int extra[OPS], xe = 0; // model
	while (!done) { int thrown = -1, want = -1; en = 0; n = 0; vp_point();
		for (; pos < OPS && !done && want < 0; pos++) { if (kind[pos] == 4) continue; expect[en++] = pos; if (kind[pos] == 1) extra[xe++] = pos; if (kind[pos] == 2) done = true; if (kind[pos] == 3) want = pos; }
		if (!done && want < 0) { expect[en++] = 50; for (int k = 0; k < xe; k++) expect[en++] = 100 + extra[k]; expect[en++] = 51; done = true; }
		try { d.run(); } catch (int x) { thrown = x; }
		CHECK(thrown == want, "exceptions reach the caller of run()"); CHECK(cur::get() == old, "the previous dispatcher is restored"); CHECK(n == en, "exactly the callbacks up to the stop ran"); for (int k = 0; k < n && k < en; k++) CHECK(order[k] == expect[k], "in the order pushed"); }
	n = 0; d.run(); CHECK(n == 0, "stays stopped"); cur::set(nullptr); } CHECK(tracked::live == 0, "callbacks are destroyed"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
// run() inside a callback of another dispatcher, to any depth up to 3, with any of the levels failing
int depth, seen; simple_dispatcher* ds[3];
void level(int i, int boom) { ds[i]->push([i, boom]() { CHECK(cur::get() == ds[i], "inside a callback current() is its dispatcher"); if (i + 1 < depth) { level(i + 1, boom); bool t = false; try { ds[i + 1]->run(); } catch (int) { t = true; } CHECK(cur::get() == ds[i], "restored after the inner run()"); CHECK(t == (boom == i + 1), "exception"); } seen++; ds[i]->stop(); if (boom == i) throw i; }); }
int main() { vp_leak_begin(); { simple_dispatcher a, b, c; bool same = vp_bool("same"); ds[0] = &a; ds[1] = &b; ds[2] = &c; depth = vp_range("depth", 1, 3); int boom = vp_range("boom", 0, 3); simple_dispatcher o; if (same) cur::set(&o); CHECK(cur::get() == (same ? &o : nullptr), "set"); level(0, boom); bool t = false; try { a.run(); } catch (int) { t = true; } CHECK(t == (boom == 0), "exception"); CHECK(seen == depth, "all levels ran"); CHECK(cur::get() == (same ? &o : nullptr), "restored"); cur::set(nullptr); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
// each thread has its own current dispatcher
simple_dispatcher *d1, *d2; int done; 
void m(void* p) { CHECK(cur::get() == nullptr, "a new thread has none"); simple_dispatcher* d = (simple_dispatcher*)p; d->push([d]() { CHECK(cur::get() == d, "its own"); d->stop(); }); d->run(); CHECK(cur::get() == nullptr, "none again"); }
int main() { simple_dispatcher a, b, c; cur::set(&c); int x = vp_spawn(m, &a), y = vp_spawn(m, &b); CHECK(cur::get() == &c, "unaffected by other threads"); vp_join(x); vp_join(y); CHECK(cur::get() == &c, "unaffected by other threads"); cur::set(nullptr); vp_reach("end"); return 0; }
#else
static void cfg(int hashes) { vp_fast_locks(FAST); vp_max_timeouts(TO); vp_max_trylock(TRY); vp_thread_hashes(hashes); vp_leak_begin(); }
#if SCN == 20
vp_cell<int> ran[N + 1]; int payload[N];
int main() { cfg(W); { thread_pool p(W); CHECK(p.size() == W, "size"); for (int i = 0; i < N; i++) { payload[i] = 5; p.push([i, &p]() { CHECK(cur::get() == &p, "current dispatcher"); CHECK(vp_self() != 0, "on a worker"); CHECK(payload[i] == 5, "everything before the push is visible"); ran[i].inc(); }); } p.push({}); } for (int i = 0; i < N; i++) CHECK(ran[i].get() == 1, "every callback runs exactly once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 21
// another thread pushes while the pool is resized
thread_pool* p; vp_cell<int> ran[N]; int accepted[N];
void pm(void*) { for (int i = 0; i < N; i++) { try { p->push([i]() { CHECK(cur::get() == p, "current dispatcher"); ran[i].inc(); }); accepted[i] = 1; } catch (const std::runtime_error&) { CHECK(TO_SIZE == 0, "push is refused only by an empty pool"); } } }
int main() { cfg(2); { thread_pool pp(W); p = &pp; int t = vp_spawn(pm, 0); pp.resize(TO_SIZE); CHECK(pp.size() == TO_SIZE, "size after resize"); vp_join(t); } for (int i = 0; i < N; i++) CHECK(ran[i].get() == accepted[i], "an accepted callback runs exactly once, a refused one never"); if (accepted[0]) vp_reach("accepted"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 22
// a callback pushes another one from its worker while the pool is resized, then shut down (which may refuse it)
thread_pool* p; vp_cell<int> ran, sub, acc, closing;
int main() { cfg(2); { thread_pool pp(W); p = &pp; pp.push([]() { ran.inc(); try { p->thread_pool::push([]() { CHECK(cur::get() == p, "current dispatcher"); sub.inc(); }); acc.inc(); } catch (const std::runtime_error&) { CHECK(closing.get(), "refused only by a pool that shuts down"); } }); if (TO_SIZE != W) pp.resize(TO_SIZE); closing.set(1); } CHECK(ran.get() == 1, "the callback runs exactly once"); CHECK(sub.get() == acc.get(), "the callback it pushed runs exactly once if it was accepted"); if (sub.get()) vp_reach("accepted"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 23
// callbacks of one pool push into another pool
vp_cell<int> ran;
int main() { cfg(1); { thread_pool b(1); { thread_pool o(1); o.push([&]() { CHECK(cur::get() == &o, "current dispatcher"); b.push([&b]() { CHECK(cur::get() == &b, "the current dispatcher is the pool it was pushed to"); ran.inc(); }); }); } } CHECK(ran.get() == 1, "every callback runs exactly once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 24
// any sequence of sizes, one push after each
vp_cell<int> ran[OPS];
int main() { cfg(1); { bool acc[OPS]; size_t sz = vp_range("initial", 0, 2); if (sz == 0) sz = 0; else if (sz == 1) sz = 1; else sz = 2; { thread_pool p(sz); CHECK(p.size() == sz, "size"); for (int i = 0; i < OPS; i++) { size_t n = vp_range("size", 0, 2); if (n == 0) n = 0; else if (n == 1) n = 1; else n = 2; p.resize(n); CHECK(p.size() == n, "size"); bool thr = false; try { p.push([i]() { ran[i].inc(); }); } catch (const std::runtime_error&) { thr = true; } CHECK(thr == (n == 0), "an empty pool refuses callbacks"); acc[i] = !thr; } } for (int i = 0; i < OPS; i++) CHECK(ran[i].get() == acc[i], "accepted callbacks run exactly once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 25
// two threads resize the pool at the same time; it ends up with one of the two sizes and works
thread_pool* p; vp_cell<int> ran;
void rm(void*) { p->resize(SIZE1); }
int main() { cfg(1); bool thr = false; { thread_pool pp(W); p = &pp; int t = vp_spawn(rm, 0); pp.resize(SIZE2); vp_join(t); size_t n = pp.size(); CHECK(n == SIZE1 || n == SIZE2, "one of the two sizes"); try { pp.push([]() { CHECK(cur::get() == p, "current dispatcher"); ran.inc(); }); } catch (const std::runtime_error&) { thr = true; } CHECK(thr == (n == 0), "an empty pool refuses callbacks, another one accepts them"); }
	CHECK(ran.get() == !thr, "an accepted callback runs exactly once"); vp_reach("end"); vp_leak_check(); return 0; }
#endif
#endif
