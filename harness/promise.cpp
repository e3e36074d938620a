// promise: settles at most once, everybody sees the winning result exactly once (C13); combinators (C14).
//@ C13 one_settler quick -DSCN=1 -DS=1 -DW=2
//@ C13 two_settlers quick -DSCN=1 -DS=2 -DW=1
//@ C13 two_settlers_two_waiters thorough -DSCN=1 -DS=2 -DW=2
//@ C13 three_settlers thorough -DSCN=1 -DS=3 -DW=1
//@ C13 one_settler_void quick -DSCN=2
//@ C13 history quick -DSCN=3 -DOPS=4
//@ C13 history_deep thorough -DSCN=3 -DOPS=5
//@ C13 lifetime quick -DSCN=4
//@ C13 timed_get quick -DSCN=5
//@ C13 throwing_callback quick -DSCN=6
//@ C13 dropped_pending quick -DSCN=7
//@ C13 reentrant quick -DSCN=8
//@ C13 queries_vs_settle quick -DSCN=9
//@ C13 history_void quick -DSCN=13 -DOPS=3
//@ C13 get_spurious quick -DSCN=14
//@ C13 timed_get_time quick -DSCN=16
//@ C13 timed_get_prompt quick -DSCN=15
//@ C14 first_concurrent quick -DSCN=10 -DKIND=0
//@ C14 first_successful_concurrent quick -DSCN=10 -DKIND=1
//@ C14 all_concurrent quick -DSCN=10 -DKIND=2
//@ C14 first_concurrent_with_settled_third thorough -DSCN=10 -DKIND=0 -DTHIRD=1
//@ C14 first_successful_concurrent_with_settled_third thorough -DSCN=10 -DKIND=1 -DTHIRD=1
//@ C14 all_concurrent_with_settled_third thorough -DSCN=10 -DKIND=2 -DTHIRD=1
//@ C14 first_any_order quick -DSCN=11 -DKIND=0
//@ C14 first_successful_any_order quick -DSCN=11 -DKIND=1
//@ C14 all_any_order quick -DSCN=11 -DKIND=2
//@ C14 settle_while_combining quick -DSCN=12
#include "common.h"
#include <asyncpp/promise.h>
using namespace asyncpp;
struct val { int id; uint32_t v; };
struct err { int id; uint32_t v; };
static val seen(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (const err& x) { return {x.id, x.v}; } catch (...) { CHECK(false, "the exception that was passed in"); } return {}; }
typedef promise<val> P;
struct outcome { int kind, id; uint32_t v; }; // 1 value, 2 error
#ifndef THIRD
#define THIRD 0
#endif
#if SCN == 1
P* pr; uint32_t v[S]; bool rej[S]; vp_cell<int> won[S]; vp_cell<int> cnt[W], kind[W], id[W]; vp_cell<uint32_t> gv[W]; int how[W];
void saw(int w, int k, val x) { cnt[w].inc(); kind[w].set(k); id[w].set(x.id); gv[w].set(x.v); }
void settle(void* a) { int i = (int)(intptr_t)a; P p = *pr; bool ok; if (rej[i]) ok = p.try_reject(std::make_exception_ptr(err{i, v[i]})); else ok = p.try_fulfill(val{i, v[i]}); won[i].set(ok ? 1 : 0); CHECK(!p.is_pending(), "settled afterwards"); }
co waiter(int w) { try { val& x = co_await *pr; saw(w, 1, x); } catch (const err& e) { saw(w, 2, {e.id, e.v}); } }
void wait(void* a) { int w = (int)(intptr_t)a; switch (how[w]) {
	case 0: waiter(w); break;
	case 1: try { saw(w, 1, pr->get()); } catch (const err& e) { saw(w, 2, {e.id, e.v}); } break;
	case 2: pr->then([w](const val& x) { saw(w, 1, x); }, [w](const std::exception_ptr& e) { saw(w, 2, seen(e)); }); break;
	case 3: pr->on_settle([w]() { auto r = pr->try_get(std::nothrow); if (r.first) saw(w, 1, *r.first); else saw(w, 2, seen(r.second)); }); break; } }
int main() { for (int i = 0; i < S; i++) { v[i] = vp_nondet("v", 32); rej[i] = vp_bool("reject"); } for (auto& h : how) h = vp_range("how", 0, 3); vp_leak_begin(); { P p; pr = &p; int t[S + W], n = 0; for (int i = 0; i < S; i++) t[n++] = vp_spawn(settle, (void*)(intptr_t)i); for (int w = 0; w < W; w++) t[n++] = vp_spawn(wait, (void*)(intptr_t)w); for (int i = 0; i < n; i++) vp_join(t[i]);
	int winner = -1; for (int i = 0; i < S; i++) if (won[i].get()) { CHECK(winner < 0, "only one attempt to settle succeeds"); winner = i; } CHECK(winner >= 0, "one attempt succeeds");
	CHECK(p.is_fulfilled() == !rej[winner] && p.is_rejected() == rej[winner] && !p.is_pending(), "final state");
	for (int w = 0; w < W; w++) { CHECK(cnt[w].get() == 1, "every observer is notified exactly once"); CHECK(kind[w].get() == (rej[winner] ? 2 : 1) && id[w].get() == winner && gv[w].get() == v[winner], "everybody sees the winning result"); } }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
promise<void>* pr; bool rej; uint32_t v; int how; vp_cell<int> cnt, kind;
void saw(int k) { cnt.inc(); kind.set(k); }
void settle(void*) { if (rej) CHECK(pr->try_reject<err>(1, v), "first"); else CHECK(pr->try_fulfill(), "first"); CHECK(!pr->try_fulfill() && !pr->try_reject<err>(2, v), "only once"); }
co waiter() { try { co_await *pr; saw(1); } catch (const err& e) { CHECK(e.v == v && e.id == 1, "the error"); saw(2); } }
void wait(void*) { switch (how) { case 0: waiter(); break; case 1: try { pr->get(); saw(1); } catch (const err& e) { CHECK(e.v == v && e.id == 1, "the error"); saw(2); } break;
	case 2: pr->then([]() { saw(1); }, [](const std::exception_ptr& e) { CHECK(seen(e).v == v, "the error"); saw(2); }); break; case 3: pr->on_settle([]() { auto r = pr->try_get(std::nothrow); CHECK(r.first, "settled"); saw(r.second ? 2 : 1); }); break; } }
int main() { rej = vp_bool("reject"); v = vp_nondet("v", 32); how = vp_range("how", 0, 3); vp_leak_begin(); { promise<void> p; pr = &p; int a = vp_spawn(settle, 0), b = vp_spawn(wait, 0); vp_join(a); vp_join(b); CHECK(cnt.get() == 1 && kind.get() == (rej ? 2 : 1), "notified exactly once"); CHECK(p.is_fulfilled() == !rej && p.is_rejected() == rej, "state"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
P* pr; uint32_t v[OPS]; int cnt[OPS]; outcome got[OPS]; int order[OPS * 2], no;
co waiter(P p, int i) { order[0]++; try { val& x = co_await p; cnt[i]++; got[i] = {1, x.id, x.v}; } catch (const err& e) { cnt[i]++; got[i] = {2, e.id, e.v}; } }
int main() { for (auto& x : v) x = vp_nondet("v", 32); vp_leak_begin(); { P p, q(p); P other; other = p; bool settled = false, isrej = false; int win = -1; bool reg[OPS] = {};
	for (int i = 0; i < OPS; i++) { vp_point(); int op = vp_range("op", 0, 6); P& t = vp_bool("copy") ? q : p;
		switch (op) {
		case 0: { bool ok = t.try_fulfill(val{i, v[i]}); CHECK(ok == !settled, "succeeds exactly if pending"); if (ok) { settled = true; win = i; } break; }
		case 1: { bool ok = t.try_reject<err>(i, v[i]); CHECK(ok == !settled, "succeeds exactly if pending"); if (ok) { settled = isrej = true; win = i; } break; }
		case 2: { bool thrown = false, r = vp_bool("reject"); try { if (r) t.reject<err>(i, v[i]); else t.fulfill(val{i, v[i]}); } catch (const std::logic_error&) { thrown = true; } CHECK(thrown == settled, "throws exactly if it is settled already"); if (!settled) { settled = true; isrej = r; win = i; } break; }
		case 3: reg[i] = true; waiter(t, i); break;
		case 4: reg[i] = true; t.then([i](const val& x) { cnt[i]++; got[i] = {1, x.id, x.v}; }, [i](const std::exception_ptr& e) { cnt[i]++; val x = seen(e); got[i] = {2, x.id, x.v}; }); break;
		case 5: reg[i] = true; t.on_settle([i, c = P(t)]() { auto r = c.try_get(std::nothrow); cnt[i]++; if (r.first) got[i] = {1, r.first->id, r.first->v}; else { val x = seen(r.second); got[i] = {2, x.id, x.v}; } }); break;
		case 6: { bool thrown = false; val* r = nullptr; try { r = t.try_get(); } catch (const err& e) { thrown = true; CHECK(e.id == win && e.v == v[win], "the error"); } CHECK(thrown == (settled && isrej) && !!r == (settled && !isrej), "try_get reports the state"); if (r) CHECK(r->id == win && r->v == v[win], "the value"); break; } }
		vp_point(); CHECK(p.is_pending() == !settled && q.is_pending() == !settled && other.is_fulfilled() == (settled && !isrej) && q.is_rejected() == (settled && isrej), "all copies agree");
		for (int k = 0; k <= i; k++) { CHECK(cnt[k] == (reg[k] && settled ? 1 : 0), "each observer is called once, and not before the promise is settled"); if (cnt[k]) CHECK(got[k].kind == (isrej ? 2 : 1) && got[k].id == win && got[k].v == v[win], "observers see the result"); } }
	if (!settled) { CHECK(p.try_fulfill(val{0, v[0]}), "still pending"); for (int k = 0; k < OPS; k++) CHECK(cnt[k] == reg[k], "observers are called"); }
	P f = P::make_fulfilled(val{7, v[0]}), r = P::make_rejected<err>(8, v[0]); CHECK(f.get().v == v[0] && f.is_fulfilled(), "made fulfilled"); try { (void)r.get(); CHECK(false, "throws"); } catch (const err& e) { CHECK(e.id == 8, "made rejected"); } }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
// every party holds its own copy and drops it at its own time
P* src; uint32_t v; bool rej; int how; vp_cell<int> cnt;
struct cap { int* alive; cap(int* a) : alive(a) {} };
co waiter(P p) { try { val& x = co_await p; CHECK(x.v == v, "value"); } catch (const err& e) { CHECK(e.v == v, "error"); } cnt.inc(); }
void settle(void* a) { P* p = (P*)a; if (rej) p->try_reject<err>(0, v); else p->try_fulfill(val{0, v}); delete p; }
void wait(void* a) { P* p = (P*)a; switch (how) { case 0: waiter(*p); break; case 1: try { CHECK(p->get().v == v, "value"); } catch (const err& e) { CHECK(e.v == v, "error"); } cnt.inc(); break; case 2: p->then([](const val& x) { CHECK(x.v == v, "value"); cnt.inc(); }, [](const std::exception_ptr& e) { CHECK(seen(e).v == v, "error"); cnt.inc(); }); break; case 3: p->on_settle([c = P(*p)] { CHECK(!c.is_pending(), "settled"); cnt.inc(); }); break; } delete p; }
int main() { v = vp_nondet("v", 32); rej = vp_bool("reject"); how = vp_range("how", 0, 3); vp_leak_begin(); P* p = new P; P* p2 = new P(*p); int a = vp_spawn(settle, p), b = vp_spawn(wait, p2); vp_join(a); vp_join(b); CHECK(cnt.get() == 1, "notified once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
P* pr; uint32_t v; bool rej; vp_cell<int> done;
void settle(void*) { if (rej) pr->try_reject<err>(0, v); else pr->try_fulfill(val{0, v}); done.set(1); }
int main() { v = vp_nondet("v", 32); rej = vp_bool("reject"); vp_cv_spurious(1); vp_leak_begin(); { P p; pr = &p; int t = vp_spawn(settle, 0); bool before = done.get(), thrown = false; val* r = nullptr; try { r = p.get(std::chrono::milliseconds(vp_range("ms", 0, 50))); } catch (const err& e) { CHECK(rej && e.v == v, "the error"); thrown = true; } if (before) CHECK(r || thrown, "a result that is already there is returned"); if (r) { CHECK(!rej && r->v == v, "the value"); vp_reach("value"); } else if (!thrown) vp_reach("timeout");
	vp_join(t); try { CHECK(p.get(std::chrono::milliseconds(0))->v == v, "now it is there"); } catch (const err& e) { CHECK(rej, "rejected"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
int main() { int v = vp_nondet("v", 32), k = vp_range("k", 0, 2); promise<int> p; int after = 0; if (k == 0) p.on_settle([] { throw 1; }); else if (k == 1) p.then([](const int&) { throw 1; }, {}); else p.then({}, [](const std::exception_ptr&) { throw 1; }); p.on_settle([&] { after++; });
	vp_expect_terminate(1); if (k == 2) p.try_reject<err>(1, 2); else p.try_fulfill(v); CHECK(false, "a callback that throws terminates the program"); return 0; }
#elif SCN == 7
// nobody is called, and nothing leaks, if the last copy goes away while pending
struct token { static inline int alive; token() { alive++; } token(const token&) { alive++; } token(token&&) noexcept { alive++; } ~token() { alive--; } };
int main() { int calls = 0; vp_leak_begin(); { P p; P q = p; int n = vp_range("n", 0, 2); for (int i = 0; i < n; i++) { if (vp_bool("settle_cb")) p.on_settle([&calls, t = token()] { calls++; }); else q.then([&calls, t = token()](const val&) { calls++; }, [&calls, t = token()](const std::exception_ptr&) { calls++; }); } if (vp_bool("assign")) p = P(); if (vp_bool("self")) { P& r = q; q = r; } CHECK(q.is_pending(), "pending"); } CHECK(calls == 0, "not called"); CHECK(token::alive == 0, "callbacks are destroyed"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 8
// callbacks may use the promise they are called for, may be empty, and are released with what they hold once it is settled
int calls[4], inner[4]; uint32_t v; bool rej;
void use(P p, int i) { calls[i]++; CHECK(!p.is_pending() && p.is_fulfilled() == !rej && p.is_rejected() == rej, "settled when the callback runs"); CHECK(!p.try_fulfill(val{9, 0}) && !p.try_reject<err>(9, 0u), "settled only once"); p.on_settle([i] { inner[i]++; }); CHECK(inner[i] == 1, "called at once"); p.then([i](const val& x) { CHECK(!rej && x.v == v, "the value"); inner[i]++; }, [i](const std::exception_ptr& e) { CHECK(rej && seen(e).v == v, "the error"); inner[i]++; }); CHECK(inner[i] == 2, "called at once"); auto r = p.try_get(std::nothrow); CHECK(!!r.first == !rej && !!r.second == rej, "the result is there"); }
void reg(P p, int i, int how) { switch (how) {
	case 0: p.on_settle([p, i] { use(p, i); }); break; case 1: p.then([p, i](const val&) { CHECK(!rej, "only if fulfilled"); use(p, i); }, [p, i](const std::exception_ptr&) { CHECK(rej, "only if rejected"); use(p, i); }); break;
	case 2: p.then([p, i](const val&) { CHECK(!rej, "only if fulfilled"); use(p, i); }, {}); break; case 3: p.then({}, [p, i](const std::exception_ptr&) { CHECK(rej, "only if rejected"); use(p, i); }); break; case 4: p.on_settle({}); p.then({}, {}); break; } }
static int want(int how) { return how <= 1 ? 1 : how == 2 ? !rej : how == 3 ? rej : 0; }
int main() { v = vp_nondet("v", 32); rej = vp_bool("reject"); int how[3]; vp_leak_begin(); { P p; for (int i = 0; i < 2; i++) { how[i] = vp_range("how", 0, 4); reg(p, i, how[i]); CHECK(calls[i] == 0, "pending"); vp_point(); } if (rej) p.reject<err>(0, v); else p.fulfill(val{0, v}); for (int i = 0; i < 2; i++) CHECK(calls[i] == want(how[i]) && inner[i] == 2 * want(how[i]), "called once"); how[2] = vp_range("how", 0, 4); reg(p, 2, how[2]); for (int i = 0; i < 3; i++) CHECK(calls[i] == want(how[i]), "called once, later ones at once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 9
// asking for the state while another thread settles
P* pr; uint32_t v, data; bool rej; int how;
void settle(void*) { data = v; if (rej) pr->reject<err>(0, v); else pr->fulfill(val{0, v}); }
void ask(void*) { bool done = false; switch (how) { case 0: done = !pr->is_pending(); break; case 1: done = pr->is_fulfilled(); CHECK(!done || !rej, "fulfilled only by a value"); break; case 2: done = pr->is_rejected(); CHECK(!done || rej, "rejected only by an error"); break;
	case 3: { auto r = pr->try_get(std::nothrow); done = r.first || r.second; CHECK(!r.first || (!rej && r.first->v == v), "the value"); CHECK(!r.second || (rej && seen(r.second).v == v), "the error"); break; } case 4: try { val* r = pr->try_get(); if (r) { done = true; CHECK(!rej && r->v == v, "the value"); } } catch (const err& e) { done = true; CHECK(rej && e.v == v, "the error"); } break; }
	if (done) { CHECK(data == v, "what happened before settling is visible"); CHECK(!pr->is_pending() && pr->is_rejected() == rej && pr->is_fulfilled() == !rej, "it stays settled"); vp_reach("settled"); } else vp_reach("pending"); }
int main() { v = vp_nondet("v", 32); rej = vp_bool("reject"); how = vp_range("how", 0, 4); vp_leak_begin(); { P p; pr = &p; int x = vp_spawn(settle, 0), y = vp_spawn(ask, 0); vp_join(x); vp_join(y); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 13
// the specialization without a value
int cnt[OPS]; bool ok[OPS];
co waiter(promise<void> p, int i, uint32_t& e) { try { co_await p; cnt[i]++; ok[i] = true; } catch (const err& x) { cnt[i]++; e = x.v; } }
int main() { uint32_t v = vp_nondet("v", 32), e[OPS]; for (auto& x : e) x = v; vp_leak_begin(); { promise<void> p, q(p), o; o = p; bool settled = false, rej = false, reg[OPS] = {};
	for (int i = 0; i < OPS; i++) { vp_point(); promise<void>& t = vp_bool("copy") ? q : p; switch (vp_range("op", 0, 7)) {
	case 0: { bool r = t.try_fulfill(); CHECK(r == !settled, "succeeds exactly if pending"); settled = true; break; }
	case 1: { bool r = t.try_reject<err>(i, v); CHECK(r == !settled, "succeeds exactly if pending"); if (r) rej = true; settled = true; break; }
	case 2: { bool thrown = false, r = vp_bool("reject"); try { if (r) t.reject(std::make_exception_ptr(err{i, v})); else t.fulfill(); } catch (const std::logic_error&) { thrown = true; } CHECK(thrown == settled, "throws exactly if it is settled already"); if (!settled) rej = r; settled = true; break; }
	case 3: reg[i] = true; waiter(t, i, e[i]); break;
	case 4: { reg[i] = true; bool a = vp_bool("then"), b = vp_bool("catch"); std::function<void()> x; std::function<void(const std::exception_ptr&)> y; if (a) x = [i] { cnt[i]++; ok[i] = true; }; if (b) y = [i, &e](const std::exception_ptr& z) { cnt[i]++; e[i] = seen(z).v; }; t.then(x, y); if (!a) t.then([i] { cnt[i]++; ok[i] = true; }, {}); if (!b) t.then({}, [i, &e](const std::exception_ptr& z) { cnt[i]++; e[i] = seen(z).v; }); break; }
	case 5: reg[i] = true; t.on_settle([i, c = promise<void>(t)] { cnt[i]++; ok[i] = c.is_fulfilled(); CHECK(c.is_rejected() == !ok[i], "settled"); }); break;
	case 6: { bool thrown = false, r = false; try { r = t.try_get(); } catch (const err& x) { thrown = true; CHECK(x.v == v, "the error"); } CHECK(thrown == rej && r == (settled && !rej), "try_get reports the state"); auto n = t.try_get(std::nothrow); CHECK(n.first == settled && !!n.second == rej, "without exceptions as well"); break; }
	case 7: { bool thrown = false, r = false; try { r = t.get(std::chrono::milliseconds(0)); } catch (const err& x) { thrown = true; CHECK(x.v == v, "the error"); } CHECK(thrown == rej && r == (settled && !rej), "get with a timeout reports the state"); if (settled && !rej) t.get(); break; } }
	vp_point(); CHECK(p.is_pending() == !settled && q.is_fulfilled() == (settled && !rej) && o.is_rejected() == rej, "all copies agree"); for (int k = 0; k <= i; k++) CHECK(cnt[k] == (reg[k] && settled) && ok[k] == (reg[k] && settled && !rej) && e[k] == v, "each observer is called once, with the result"); }
	if (!settled) p.fulfill(); CHECK(promise<void>::make_fulfilled().is_fulfilled(), "made fulfilled"); CHECK(promise<void>::make_rejected<err>(1, v).is_rejected() && promise<void>::make_rejected(std::make_exception_ptr(err{1, v})).is_rejected(), "made rejected"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 16
// a get() with a timeout of any size gives up only after it
P* pr; promise<void>* pv; bool isvoid;
void settle(void*) { if (isvoid) pv->fulfill(); else pr->fulfill(val{0, 5}); }
int main() { using clk = std::chrono::steady_clock; uint64_t d = vp_nondet("d", 63); int unit = vp_range("unit", 0, 2); isvoid = vp_bool("void"); vp_max_timeouts(1); vp_cv_spurious(1); vp_leak_begin(); { P p; pr = &p; promise<void> w; pv = &w; int t = vp_spawn(settle, 0); auto start = clk::now(); std::chrono::nanoseconds left = clk::time_point::max() - start;
	auto wait = [&](auto x) { if (isvoid) return w.get(x); return p.get(x) != nullptr; };
	// coarser units: the largest count of them, or two
	bool got; uint64_t want, max = (uint64_t)left.count(); if (unit == 0) { got = wait(std::chrono::nanoseconds(d)); want = d > max ? max : d; } else if (unit == 1) { got = vp_bool("largest") ? (want = max, wait(std::chrono::milliseconds::max())) : (want = 2000000, wait(std::chrono::milliseconds(2))); } else { got = vp_bool("largest") ? (want = max, wait(std::chrono::hours::max())) : (want = 7200000000000, wait(std::chrono::hours(2))); }
	if (!got) { CHECK((uint64_t)(clk::now() - start).count() >= want, "gives up only after the timeout"); vp_reach("timeout"); } else vp_reach("value"); vp_join(t); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 15
// a get() with a timeout that is far away is released by the result, not by the timeout
P* pr; promise<void>* pv; uint32_t v; bool rej, isvoid;
void settle(void*) { if (isvoid) { if (rej) pv->reject<err>(0, v); else pv->fulfill(); } else if (rej) pr->reject<err>(0, v); else pr->fulfill(val{0, v}); }
int main() { v = vp_nondet("v", 32); rej = vp_bool("reject"); isvoid = vp_bool("void"); vp_max_timeouts(-2); vp_leak_begin(); { P p; pr = &p; promise<void> w; pv = &w; int t = vp_spawn(settle, 0); bool thrown = false, got = false; try { if (isvoid) got = w.get(std::chrono::hours(1)); else { val* r = p.get(std::chrono::hours(1)); got = r && r->v == v; } } catch (const err& e) { thrown = true; CHECK(e.v == v, "the error"); } CHECK(thrown == rej && got == !rej, "the result releases the waiting get()"); vp_join(t); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 14
P* pr; uint32_t v; bool rej;
void settle(void*) { if (rej) pr->reject<err>(0, v); else pr->fulfill(val{0, v}); }
int main() { v = vp_nondet("v", 32); rej = vp_bool("reject"); vp_cv_spurious(2); vp_leak_begin(); { P p; pr = &p; int t = vp_spawn(settle, 0); bool thrown = false; try { CHECK(p.get().v == v, "the value"); } catch (const err& e) { thrown = true; CHECK(e.v == v, "the error"); } CHECK(thrown == rej && !p.is_pending(), "get() waits for the result"); vp_join(t); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
P* pr[3]; uint32_t v[3]; bool rej[3]; vp_cell<int> left; vp_cell<int> settled_, calls; promise<void>* res; 
void settle(void* a) { int i = (int)(intptr_t)a; if (rej[i]) pr[i]->reject<err>(i, v[i]); else pr[i]->fulfill(val{i, v[i]}); }
constexpr int N = 2 + THIRD;
int main() { for (int i = 0; i < 3; i++) { v[i] = vp_nondet("v", 32); rej[i] = vp_bool("reject"); } vp_leak_begin(); { P a, b, c; pr[0] = &a; pr[1] = &b; pr[2] = &c; bool pre = vp_bool("pre"); if (THIRD && pre) settle((void*)2);
#if KIND == 0
	P r = THIRD ? promise_first<val>(a, b, c) : promise_first<val>(a, b);
#elif KIND == 1
	P r = THIRD ? promise_first_successful<val>(a, b, c) : promise_first_successful<val>(a, b);
#else
	promise<void> r = THIRD ? promise_all(a, b, c) : promise_all(a, b);
#endif
	r.on_settle([] { calls.inc(); }); bool early = KIND == 2 ? false : THIRD && pre && (KIND == 0 || !rej[2]); CHECK(r.is_pending() == !early, "settled early exactly if decided");
	int x = vp_spawn(settle, (void*)0), y = vp_spawn(settle, (void*)1); vp_join(x); vp_join(y); 
	if (THIRD && !pre) { if (KIND == 2) CHECK(r.is_pending(), "one is missing"); if (KIND == 1 && rej[0] && rej[1]) CHECK(r.is_pending(), "not decided yet"); settle((void*)2); }
	CHECK(!r.is_pending() && calls.get() == 1, "settled, once");
#if KIND == 2
	CHECK(r.is_fulfilled(), "fulfilled once all are finished");
#else
	bool anyok = false; for (int i = 0; i < N; i++) if (!rej[i]) anyok = true;
	auto g = r.try_get(std::nothrow); val s = g.first ? *g.first : seen(g.second); CHECK(s.id >= 0 && s.id < N && s.v == v[s.id] && !!g.first == !rej[s.id], "the result of one of them"); if (KIND == 1) CHECK(!!g.first == anyok, "fulfilled if any of them was"); if (early) CHECK(s.id == 2, "the first one");
#endif
	} vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
// three promises settled in any order, some before the combination
P* pr[3]; uint32_t v[3]; bool rej[3]; int calls;
void settle(int i) { if (rej[i]) pr[i]->reject<err>(i, v[i]); else pr[i]->fulfill(val{i, v[i]}); }
int main() { for (int i = 0; i < 3; i++) { v[i] = vp_nondet("v", 32); rej[i] = vp_bool("reject"); } vp_leak_begin(); { P p[3]; for (int i = 0; i < 3; i++) pr[i] = &p[i]; int ord[3]; ord[0] = vp_range("first", 0, 2); ord[1] = vp_range("second", 0, 2); vp_assume(ord[0] != ord[1]); ord[2] = 3 - ord[0] - ord[1]; vp_point();
	int before = vp_range("before", 0, 3); int first = -1, firstok = -1, last = -1;
	for (int k = 0; k < before; k++) settle(ord[k]);
	// promises settled beforehand count in argument order
	bool pre[3] = {}; for (int k = 0; k < before; k++) pre[ord[k]] = true; for (int i = 0; i < 3; i++) if (pre[i]) { if (first < 0) first = i; if (firstok < 0 && !rej[i]) firstok = i; last = i; }
#if KIND == 0
	P r = promise_first<val>(p[0], p[1], p[2]);
#elif KIND == 1
	P r = promise_first_successful<val>(p[0], p[1], p[2]);
#else
	promise<void> r = promise_all(p[0], p[1], p[2]);
#endif
	r.on_settle([] { calls++; });
	for (int k = before;; k++) { bool done = KIND == 0 ? first >= 0 : KIND == 1 ? firstok >= 0 || k == 3 : k == 3; CHECK(r.is_pending() == !done && calls == done, "settles at the right moment");
#if KIND != 2
		if (done) { int w = KIND == 0 ? first : firstok >= 0 ? firstok : last; auto g = r.try_get(std::nothrow); val s = g.first ? *g.first : seen(g.second); CHECK(!!g.first == !rej[w] && s.id == w && s.v == v[w], "with the right result"); }
#else
		if (done) CHECK(r.is_fulfilled(), "fulfilled");
#endif
		if (k == 3) break; settle(ord[k]); if (first < 0) first = ord[k]; if (firstok < 0 && !rej[ord[k]]) firstok = ord[k]; last = ord[k]; vp_point(); }
	promise<void> none = promise_all(); CHECK(none.is_fulfilled(), "nothing to wait for");
	} vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 12
P* pr[2]; uint32_t v[2]; bool rej[2];
void settle(void*) { for (int i = 0; i < 2; i++) if (rej[i]) pr[i]->reject<err>(i, v[i]); else pr[i]->fulfill(val{i, v[i]}); }
int main() { for (int i = 0; i < 2; i++) { v[i] = vp_nondet("v", 32); rej[i] = vp_bool("reject"); } int kind = vp_range("kind", 0, 2); vp_leak_begin(); { P a, b; pr[0] = &a; pr[1] = &b; int t = vp_spawn(settle, 0);
	if (kind == 2) { auto r = promise_all(a, b); vp_join(t); CHECK(r.is_fulfilled(), "fulfilled"); } else { P r = kind == 0 ? promise_first<val>(a, b) : promise_first_successful<val>(a, b); vp_join(t); auto g = r.try_get(std::nothrow); CHECK(g.first || g.second, "settled"); val s = g.first ? *g.first : seen(g.second); CHECK(s.v == v[s.id] && !!g.first == !rej[s.id], "the result of one of them"); if (kind == 1) CHECK(!!g.first == (!rej[0] || !rej[1]), "fulfilled if any of them was"); }
	} vp_reach("end"); vp_leak_check(); return 0; }
#endif
