// The timer: scheduling (C33) and cancellation (C34). Time is virtual: it advances when a timed wait times out.
//@ C33 schedule quick -DSCN=1 -DN=2 -DTO=2 -- --preempt 3
//@ C33 schedule_three quick -DSCN=1 -DN=3 -DTO=3 -- --preempt 1
//@ C33 schedule_deep thorough -DSCN=1 -DN=3 -DTO=3 -- --preempt 2 --mem 9000
//@ C33 push_order quick -DSCN=2 -DN=3 -DTO=1
//@ C33 other_thread quick -DSCN=3 -DTO=2 -- --preempt 2
//@ C33 other_thread_deep thorough -DSCN=3 -DTO=2 -- --preempt 2 --mem 9000
//@ C33 from_callbacks quick -DSCN=4 -DTO=2 -- --preempt 4
//@ C33 wait quick -DSCN=5 -DTO=1
//@ C33 durations quick -DSCN=6 -DTO=2 -- --preempt 3
//@ C33 prompt quick -DSCN=7 -DN=2 -DTO=-2 -- --preempt 3
//@ C33 prompt_deep thorough -DSCN=7 -DN=3 -DTO=-2 -- --preempt 3 --mem 9000
//@ C33 rearm quick -DSCN=8 -DTO=2 -- --preempt 2
//@ C33 rearm_deep thorough -DSCN=8 -DTO=3 -- --preempt 3 --mem 9000
//@ C33 far quick -DSCN=9 -DTO=1 -- --preempt 1
//@ C33 far_deep thorough -DSCN=9 -DTO=2 -- --preempt 3
//@ C34 stop_prompt quick -DSCN=17 -DTO=-2 -- --preempt 3
//@ C34 stop quick -DSCN=10 -DN=1 -DTO=1 -- --preempt 3
//@ C34 stop_two quick -DSCN=10 -DN=2 -DTO=1 -- --preempt 2
//@ C34 stop_two_deep thorough -DSCN=10 -DN=2 -DTO=2 -- --preempt 3 --mem 9000
//@ C34 stop_vs_schedule quick -DSCN=11 -DTO=1 -- --preempt 3
//@ C34 stop_vs_schedule_deep thorough -DSCN=11 -DTO=2 -- --preempt 4 --mem 9000
//@ C34 stop_vs_destroy quick -DSCN=12 -DTO=1 -- --preempt 3
//@ C34 stopped_before quick -DSCN=13 -DTO=1
//@ C34 wait_stop quick -DSCN=14 -DTO=1 -- --preempt 3
//@ C34 stop_from_callback quick -DSCN=15 -DTO=1 -- --preempt 3
//@ C34 two_stops quick -DSCN=16 -DTO=1 -- --preempt 2
//@ C34 two_stops_deep thorough -DSCN=16 -DTO=1 -- --preempt 2 --mem 9000
#include "common.h"
#include <asyncpp/timer.h>
#include <memory>
using namespace asyncpp;
using clk = std::chrono::steady_clock; using ns = std::chrono::nanoseconds;
struct cur : dispatcher { static dispatcher* get() { return dispatcher::current(); } };
static void cfg() { vp_fast_locks(1); vp_max_timeouts(TO); vp_leak_begin(); }
static int64_t now() { return clk::now().time_since_epoch().count(); }
// what a scheduled callback records
struct rec { vp_cell<int> fired, res, tid, seq; };
vp_cell<int> seqno;
static std::function<void(bool)> cb(rec* r, clk::time_point due) { return [r, due](bool ok) { CHECK(r->fired.inc() == 1, "a callback is invoked once"); r->res.set(ok); r->tid.set(vp_self()); r->seq.set(seqno.inc()); if (ok) CHECK(clk::now() >= due, "not before its time"); }; }
#if SCN == 1
// N callbacks with deadlines in the past or the near future; the timer is destroyed at any time
rec r[N];
int main() { cfg(); { clk::time_point due[N]; int d[N]; { timer t; auto base = clk::now(); for (int i = 0; i < N; i++) { d[i] = vp_range("delay", 0, 2); due[i] = base + ns(d[i] * 1000); t.schedule(cb(&r[i], due[i]), due[i]); } } int64_t end = now();
	for (int i = 0; i < N; i++) { CHECK(r[i].fired.get() == 1, "every callback is invoked exactly once"); CHECK(r[i].tid.get() == 1, "on the timer thread"); if (end < due[i].time_since_epoch().count()) CHECK(!r[i].res.get(), "not reached: false"); }
	if (r[0].res.get()) vp_reach("true"); else vp_reach("false"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
// pushed callbacks run in order on the timer thread, all of them, once
rec r[N];
int main() { cfg(); { int payload[N]; { timer t; for (int i = 0; i < N; i++) { payload[i] = 3 + i; t.push([i, p = payload]() { CHECK(r[i].fired.inc() == 1, "runs once"); CHECK(p[i] == 3 + i, "everything before the push is visible"); CHECK(vp_self() == 1, "on the timer thread"); r[i].seq.set(seqno.inc()); }); } t.push({}); } for (int i = 0; i < N; i++) { CHECK(r[i].fired.get() == 1, "every callback runs exactly once"); CHECK(r[i].seq.get() == i + 1, "in the order pushed"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// another thread schedules and pushes as well
rec r[3]; timer* t;
void pm(void*) { auto due = clk::now() + ns(1000 * vp_range("delay", 0, 1)); t->schedule(cb(&r[0], due), due); t->push([]() { CHECK(r[1].fired.inc() == 1, "once"); }); }
int main() { cfg(); { timer tt; t = &tt; int a = vp_spawn(pm, 0); auto due = clk::now() + ns(1000); tt.schedule(cb(&r[2], due), due); vp_join(a); } for (int i = 0; i < 3; i++) CHECK(r[i].fired.get() == 1, "every callback is invoked exactly once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
// callbacks schedule and push further callbacks; equal deadlines fire in scheduling order
rec r[4];
int main() { cfg(); { vp_cell<int> refused, closing; { timer t; auto due = clk::now() + ns(1000); t.schedule([&, due](bool ok) { r[0].fired.inc(); r[0].res.set(ok); r[0].seq.set(seqno.inc()); try { t.push([&]() { r[2].fired.inc(); }); t.schedule(cb(&r[3], due), due); } catch (const std::logic_error&) { CHECK(closing.get(), "refused only while shutting down"); refused.set(1); } }, due); t.schedule(cb(&r[1], due), due); closing.set(1); }
	CHECK(r[0].fired.get() == 1 && r[1].fired.get() == 1, "every callback is invoked exactly once"); if (r[0].res.get() == r[1].res.get()) CHECK(r[0].seq.get() < r[1].seq.get(), "equal deadlines: in scheduling order");
	if (!refused.get()) { CHECK(r[2].fired.get() == 1 && r[3].fired.get() == 1, "callbacks added by a callback are invoked exactly once"); vp_reach("accepted"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
// co_await timer.wait(): resumed exactly once, with true only after the deadline
vp_cell<int> resumed, res; int64_t due;
co body(timer* t, int d) { auto tp = clk::now() + ns(d); due = tp.time_since_epoch().count(); bool ok = co_await t->wait(tp); CHECK(resumed.inc() == 1, "resumed once"); res.set(ok); if (ok) CHECK(now() >= due, "not before the deadline"); }
int main() { cfg(); { int d = vp_bool("later") ? 1000 : 0; { timer t; body(&t, d); } CHECK(resumed.get() == 1, "resumed exactly once"); if (now() < due) CHECK(!res.get(), "false: not reached"); if (d == 0) CHECK(res.get(), "already reached"); if (d && res.get()) vp_reach("true"); if (!res.get()) vp_reach("false"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
// every overload: time points, durations, with and without a token, as callback and as coroutine wait; cancelled in between
rec r; vp_cell<int> resumed; stop_source* ss; int kind;
co body(timer* t, clk::time_point due) { bool ok = true; switch (kind) { case 6: ok = co_await t->wait(due); break; case 7: ok = co_await t->wait(due - clk::now()); break; case 8: ok = co_await t->wait(std::chrono::time_point_cast<std::chrono::microseconds>(due)); break; case 9: ok = co_await t->wait(due, ss->get_token()); break; case 10: ok = co_await t->wait(due - clk::now(), ss->get_token()); break; case 11: ok = co_await t->wait(std::chrono::time_point_cast<std::chrono::microseconds>(due), ss->get_token()); break; } cb(&r, due)(ok); resumed.inc(); }
int main() { cfg(); { stop_source s; ss = &s; kind = vp_range("kind", 0, 11); bool stop = vp_bool("stop"); { timer t; auto due = clk::time_point(ns((now() / 1000 + 1) * 1000)); auto us = std::chrono::time_point_cast<std::chrono::microseconds>(due); auto c = cb(&r, due);
	switch (kind) { case 0: t.schedule(c, due); break; case 1: t.schedule(c, due - clk::now()); break; case 2: t.schedule(c, us); break; case 3: t.schedule(c, due, s.get_token()); break; case 4: t.schedule(c, due - clk::now(), s.get_token()); break; case 5: t.schedule(c, us, s.get_token()); break; default: body(&t, due); }
	if (stop) s.request_stop(); } CHECK(r.fired.get() == 1, "invoked or resumed exactly once"); CHECK(resumed.get() == (kind >= 6), "coroutine resumed"); CHECK(r.tid.get() == 1 || (kind >= 6 && r.tid.get() == 0 && r.res.get()), "on the timer thread, or at once when already due"); if (r.res.get()) vp_reach("true"); else vp_reach("false"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 7
// no timed wait ever times out: what is pushed, what is due already and a destruction are acted on all the same
#include <condition_variable>
std::mutex mx; std::condition_variable cv; int done; rec r[N];
static void finish() { std::lock_guard l(mx); done++; cv.notify_all(); }
int main() { cfg(); { int k[N]; { timer t; int waits = 0; for (int i = 0; i < N; i++) { k[i] = vp_range("kind", 0, 3); auto now = clk::now();
	if (k[i] == 0) t.push([i]() { CHECK(r[i].fired.inc() == 1, "once"); finish(); }); else if (k[i] == 1) t.schedule([i](bool ok) { CHECK(r[i].fired.inc() == 1, "once"); CHECK(ok, "due"); finish(); }, now); else if (k[i] == 2) t.schedule([i](bool ok) { CHECK(r[i].fired.inc() == 1, "once"); CHECK(!ok, "its time is never reached"); }, now + ns(1000)); else t.schedule([i](bool ok) { CHECK(r[i].fired.inc() == 1, "once"); CHECK(!ok, "its time is never reached"); }, now + std::chrono::hours(1), stop_token{});
	if (k[i] < 2) waits++; if (vp_bool("wait")) { std::unique_lock l(mx); cv.wait(l, [&] { return done == waits; }); } } } for (int i = 0; i < N; i++) CHECK(r[i].fired.get() == 1, "every callback is invoked exactly once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 8
// a callback that is scheduled while the timer sleeps until a later deadline is not kept waiting for that one
rec r[2]; vp_cell<int64_t> at[2];
int main() { cfg(); { clk::time_point due[2]; int64_t ret[2]; { timer t; auto base = clk::now(); bool tok = vp_bool("token"); due[0] = base + std::chrono::milliseconds(20); due[1] = base + ns(1000 * vp_range("delay", 0, 1)); stop_source s; auto mk = [&](int i) { return [i, c = cb(&r[i], due[i])](bool ok) { at[i].set(now()); c(ok); }; };
	t.schedule(mk(0), due[0]); ret[0] = now(); if (tok) t.schedule(mk(1), due[1], s.get_token()); else t.schedule(mk(1), due[1]); ret[1] = now(); if (vp_bool("push")) t.push([] {}); }
	for (int i = 0; i < 2; i++) { CHECK(r[i].fired.get() == 1, "every callback is invoked exactly once"); int64_t d = due[i].time_since_epoch().count(); if (r[i].res.get()) CHECK(at[i].get() <= (d > ret[i] ? d : ret[i]), "invoked when it is due, not later"); } if (r[1].res.get() && !r[0].res.get()) vp_reach("near_only"); if (r[0].res.get()) vp_reach("both"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 9
// any duration, up to the largest there is, as callback and as coroutine wait, with and without a token
rec r; stop_source* ss; int kind; uint64_t d; clk::time_point due;
co body(timer* t) { bool ok = true; switch (kind) { case 2: ok = co_await t->wait(ns(d)); break; case 3: ok = co_await t->wait(ns(d), ss->get_token()); break; case 4: ok = co_await t->wait(std::chrono::hours::max()); break; case 5: ok = co_await t->wait(std::chrono::seconds(d), ss->get_token()); break; case 6: ok = co_await t->wait(clk::time_point::max()); break; } cb(&r, due)(ok); }
int main() { cfg(); { stop_source s; ss = &s; kind = vp_range("kind", 0, 7); d = vp_nondet("d", 63); vp_assume(d >= 1000); { timer t; auto base = clk::now(); due = kind >= 4 || d > (uint64_t)(INT64_MAX - base.time_since_epoch().count()) ? clk::time_point::max() : base + ns(d); if (kind == 5) { vp_assume(d > INT64_MAX / 1000000000); }
	switch (kind) { case 0: t.schedule(cb(&r, due), ns(d)); break; case 1: t.schedule(cb(&r, due), ns(d), s.get_token()); break; case 7: t.schedule(cb(&r, due), clk::time_point::max()); break; default: body(&t); } } CHECK(r.fired.get() == 1, "invoked or resumed exactly once"); if (r.res.get()) vp_reach("true"); else vp_reach("false"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
// a stop is requested while the callbacks may be due, and the timer is destroyed afterwards
rec r[N]; stop_source* ss;
void sm(void*) { ss->request_stop(); }
int main() { cfg(); { stop_source s; ss = &s; { timer t; auto base = clk::now(); for (int i = 0; i < N; i++) { auto due = base + ns(1000 * vp_range("delay", 0, 1)); t.schedule(cb(&r[i], due), due, s.get_token()); } int a = vp_spawn(sm, 0); vp_join(a); } for (int i = 0; i < N; i++) { CHECK(r[i].fired.get() == 1, "every callback is invoked exactly once"); CHECK(r[i].tid.get() == 1, "on the timer thread"); } if (r[0].res.get()) vp_reach("fired"); else vp_reach("cancelled"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
// the stop is requested while schedule() runs
rec r; stop_source* ss;
void sm(void*) { ss->request_stop(); }
int main() { cfg(); { stop_source s; ss = &s; { timer t; auto due = clk::now() + ns(1000 * vp_range("delay", 0, 1)); auto tok = s.get_token(); int a = vp_spawn(sm, 0); t.schedule(cb(&r, due), due, tok); vp_join(a); } CHECK(r.fired.get() == 1, "the callback is invoked exactly once"); CHECK(r.tid.get() == 1, "on the timer thread"); if (r.res.get()) vp_reach("fired"); else vp_reach("cancelled"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 12
// the stop is requested while the timer is destroyed
rec r; stop_source* ss;
void sm(void*) { ss->request_stop(); }
int main() { cfg(); { stop_source s; ss = &s; int a; { timer t; auto due = clk::now() + ns(1000); t.schedule(cb(&r, due), due, s.get_token()); a = vp_spawn(sm, 0); } CHECK(r.fired.get() == 1, "the callback is invoked exactly once, before the timer is gone"); CHECK(r.tid.get() == 1, "on the timer thread"); if (TO < 0) CHECK(!r.res.get(), "with false"); vp_join(a); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 13
// the token was stopped before, or can never be stopped
rec r;
int main() { cfg(); { stop_source s; bool stopped = vp_bool("stopped"), never = vp_bool("never"), empty = vp_bool("empty_callback"); if (stopped) s.request_stop(); { timer t; auto due = clk::now() + ns(1000 * vp_range("delay", 0, 1)); t.schedule(empty ? std::function<void(bool)>{} : cb(&r, due), due, never ? stop_token{} : s.get_token()); } CHECK(r.fired.get() == !empty, "the callback is invoked exactly once"); if (stopped && !never) { if (!empty) CHECK(!r.res.get(), "stopped before: false"); vp_reach("stopped"); } if (r.res.get()) vp_reach("fired"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 14
// co_await timer.wait(deadline, token)
vp_cell<int> resumed, res; int64_t due; stop_source* ss;
void sm(void*) { ss->request_stop(); }
co body(timer* t, int d, stop_token tok) { auto tp = clk::now() + ns(d); due = tp.time_since_epoch().count(); bool ok = co_await t->wait(tp, std::move(tok)); CHECK(resumed.inc() == 1, "resumed once"); res.set(ok); if (ok) CHECK(now() >= due, "not before the deadline"); }
int main() { cfg(); { stop_source s; ss = &s; int d = vp_bool("later") ? 1000 : 0; int a; { timer t; a = vp_spawn(sm, 0); body(&t, d, s.get_token()); vp_join(a); } CHECK(resumed.get() == 1, "resumed exactly once"); if (d == 0) CHECK(res.get(), "already reached"); if (d && res.get()) vp_reach("true"); if (!res.get()) vp_reach("false"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 15
// one callback requests the stop of another one
rec r[2]; stop_source* ss;
int main() { cfg(); { stop_source s; ss = &s; { timer t; auto due = clk::now() + ns(1000); int later = vp_bool("later"); t.schedule([](bool) { r[0].fired.inc(); ss->request_stop(); }, due, vp_bool("own_token") ? s.get_token() : stop_token{}); auto due2 = due + ns(later); t.schedule(cb(&r[1], due2), due2, s.get_token()); } CHECK(r[0].fired.get() == 1 && r[1].fired.get() == 1, "every callback is invoked exactly once"); CHECK(!r[1].res.get(), "cancelled before its turn"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 16
// two independent stops, two callbacks
rec r[2]; stop_source* ss[2];
void sm(void* p) { ss[(intptr_t)p]->request_stop(); }
int main() { cfg(); { stop_source s0, s1; ss[0] = &s0; ss[1] = &s1; { timer t; auto due = clk::now() + ns(1000); t.schedule(cb(&r[0], due), due, s0.get_token()); t.schedule(cb(&r[1], due), due, s1.get_token()); int a = vp_spawn(sm, (void*)0), b = vp_spawn(sm, (void*)1); vp_join(a); vp_join(b); } CHECK(r[0].fired.get() == 1 && r[1].fired.get() == 1, "every callback is invoked exactly once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 17
// no timed wait ever times out: a cancelled callback is invoked at once, not when its time comes or the timer polls
#include <condition_variable>
std::mutex mx; std::condition_variable cv; int done; rec r[2]; stop_source* ss;
co body(timer* t, clk::time_point due) { bool ok = co_await t->wait(due, ss->get_token()); CHECK(r[1].fired.inc() == 1, "resumed once"); CHECK(!ok, "cancelled"); std::lock_guard l(mx); done++; cv.notify_all(); }
int main() { cfg(); { stop_source s; ss = &s; { timer t; auto due = clk::now() + ns(1000); bool before = vp_bool("stopped_before"), wait = vp_bool("coroutine"); if (before) s.request_stop();
	t.schedule([](bool ok) { CHECK(r[0].fired.inc() == 1, "once"); CHECK(!ok, "cancelled"); std::lock_guard l(mx); done++; cv.notify_all(); }, due, s.get_token()); if (wait) body(&t, due + ns(1000)); if (!before) s.request_stop(); std::unique_lock l(mx); cv.wait(l, [&] { return done == 1 + wait; }); } CHECK(r[0].fired.get() == 1, "every callback is invoked exactly once"); } vp_reach("end"); vp_leak_check(); return 0; }
#endif
