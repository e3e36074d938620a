// The four coroutine events: no wake-up is lost, nobody is resumed twice, what was written before set() is visible
// after the wait, reset semantics, set()'s return value, routing to dispatchers.
//@ C01 one_waiter_one_setter quick -DKIND=0 -DSCN=1 -DSETTERS=1
//@ C01 one_waiter_two_setters quick -DKIND=0 -DSCN=1 -DSETTERS=2
//@ C01 one_waiter_three_setters thorough -DKIND=0 -DSCN=1 -DSETTERS=3
//@ C01 polling quick -DKIND=0 -DSCN=9
//@ C01 history quick -DKIND=0 -DSCN=2 -DOPS=5
//@ C01 history_deep thorough -DKIND=0 -DSCN=2 -DOPS=8
//@ C01 concurrent_reset quick -DKIND=0 -DSCN=3 -DSETTERS=1
//@ C01 concurrent_reset_two_setters thorough -DKIND=0 -DSCN=3 -DSETTERS=2
//@ C01 ping_pong quick -DKIND=0 -DSCN=4 -DROUNDS=2
//@ C02 one_waiter_one_setter quick -DKIND=1 -DSCN=1 -DSETTERS=1
//@ C02 one_waiter_two_setters quick -DKIND=1 -DSCN=1 -DSETTERS=2
//@ C02 one_waiter_three_setters thorough -DKIND=1 -DSCN=1 -DSETTERS=3
//@ C02 polling quick -DKIND=1 -DSCN=9
//@ C02 history quick -DKIND=1 -DSCN=2 -DOPS=5
//@ C02 history_deep thorough -DKIND=1 -DSCN=2 -DOPS=8
//@ C02 concurrent_reset quick -DKIND=1 -DSCN=3 -DSETTERS=1
//@ C02 concurrent_reset_two_setters thorough -DKIND=1 -DSCN=3 -DSETTERS=2
//@ C02 waits_in_a_loop quick -DKIND=1 -DSCN=5 -DROUNDS=2 -DSETTERS=1
//@ C02 waits_in_a_loop_two_setters thorough -DKIND=1 -DSCN=5 -DROUNDS=2 -DSETTERS=2
//@ C02 ping_pong quick -DKIND=1 -DSCN=4 -DROUNDS=2
//@ C03 one_waiter_one_setter quick -DKIND=2 -DSCN=1 -DSETTERS=1
//@ C03 one_waiter_two_setters quick -DKIND=2 -DSCN=1 -DSETTERS=2
//@ C03 two_waiters quick -DKIND=2 -DSCN=6 -DWAITERS=2 -DSETTERS=1
//@ C03 two_waiters_two_setters quick -DKIND=2 -DSCN=6 -DWAITERS=2 -DSETTERS=2
//@ C03 three_waiters thorough -DKIND=2 -DSCN=6 -DWAITERS=3 -DSETTERS=1
//@ C03 polling quick -DKIND=2 -DSCN=9
//@ C03 history quick -DKIND=2 -DSCN=2 -DOPS=5
//@ C03 history_deep thorough -DKIND=2 -DSCN=2 -DOPS=7
//@ C03 concurrent_reset quick -DKIND=2 -DSCN=3 -DSETTERS=1
//@ C03 concurrent_reset_two_setters thorough -DKIND=2 -DSCN=3 -DSETTERS=2
//@ C04 one_waiter_one_setter quick -DKIND=3 -DSCN=1 -DSETTERS=1
//@ C04 one_waiter_two_setters quick -DKIND=3 -DSCN=1 -DSETTERS=2
//@ C04 two_waiters quick -DKIND=3 -DSCN=7 -DWAITERS=2 -DSETTERS=1
//@ C04 two_waiters_two_setters quick -DKIND=3 -DSCN=7 -DWAITERS=2 -DSETTERS=2
//@ C04 three_waiters quick -DKIND=3 -DSCN=7 -DWAITERS=3 -DSETTERS=1
//@ C04 initially_set quick -DKIND=3 -DSCN=7 -DWAITERS=2 -DSETTERS=1 -DINIT=true
//@ C04 initially_set_three_waiters thorough -DKIND=3 -DSCN=7 -DWAITERS=3 -DSETTERS=1 -DINIT=true
//@ C04 polling quick -DKIND=3 -DSCN=9
//@ C04 history quick -DKIND=3 -DSCN=2 -DOPS=5
//@ C04 history_deep thorough -DKIND=3 -DSCN=2 -DOPS=7
//@ C04 concurrent_reset quick -DKIND=3 -DSCN=3 -DSETTERS=1
//@ C04 concurrent_reset_two_setters thorough -DKIND=3 -DSCN=3 -DSETTERS=2
//@ C05 single quick -DKIND=0 -DSCN=8
//@ C05 single_auto quick -DKIND=1 -DSCN=8
//@ C05 rounds_single quick -DKIND=0 -DSCN=11 -DROUNDS=2
//@ C05 rounds_single_auto quick -DKIND=1 -DSCN=11 -DROUNDS=2
//@ C05 rounds_multi quick -DKIND=2 -DSCN=11 -DROUNDS=1 -DWAITERS=3
//@ C05 rounds_multi_auto quick -DKIND=3 -DSCN=11 -DROUNDS=1 -DWAITERS=3
//@ C05 rounds_multi_two quick -DKIND=2 -DSCN=11 -DROUNDS=2 -DWAITERS=2
//@ C05 rounds_multi_auto_two quick -DKIND=3 -DSCN=11 -DROUNDS=2 -DWAITERS=2
//@ C05 multi quick -DKIND=2 -DSCN=8
//@ C05 multi_auto quick -DKIND=3 -DSCN=8
#include "common.h"
#include <asyncpp/dispatcher.h>
#include <asyncpp/event.h>
using namespace asyncpp;
#ifndef INIT
#define INIT false
#endif
#ifndef WAITERS
#define WAITERS 1
#endif
#ifndef SETTERS
#define SETTERS 1
#endif
#if KIND == 0
using event_t = single_consumer_event;
#elif KIND == 1
using event_t = single_consumer_auto_reset_event;
#elif KIND == 2
using event_t = multi_consumer_event;
#else
using event_t = multi_consumer_auto_reset_event;
#endif
constexpr bool automatic = KIND == 1 || KIND == 3, multi = KIND >= 2;

#if SCN == 1 || SCN == 6
// WAITERS waiters, SETTERS setters, all concurrent
event_t& ev = vp_own<event_t>(INIT);
vp_cell<int> resumed[WAITERS], by[WAITERS], woke[8];
uint32_t secret[SETTERS + 1], value[SETTERS + 1];
co waiter(int i) { co_await ev; resumed[i].inc(); by[i].set(vp_self());
	if (SETTERS == 1) CHECK(secret[0] == value[0], "what was written before set() is visible after the wait"); }
void wait_main(void* p) { waiter((int)(intptr_t)p); }
void set_main(void* p) { int i = (int)(intptr_t)p; secret[i] = value[i]; bool r = ev.set(); woke[vp_self()].set(r ? 2 : 1); }
int main() {
	for (int i = 0; i < SETTERS; i++) value[i] = vp_nondet("value", 32);
	vp_spurious(1);
	vp_leak_begin();
	int t[8], n = 0;
	for (int i = 0; i < WAITERS; i++) t[n++] = vp_spawn(wait_main, (void*)(intptr_t)i);
	for (int i = 0; i < SETTERS; i++) t[n++] = vp_spawn(set_main, (void*)(intptr_t)i);
	for (int i = 0; i < n; i++) vp_join(t[i]);
	for (int i = 0; i < WAITERS; i++) {
		CHECK(resumed[i].get() == 1, "every waiter is resumed exactly once");
		vp_observe("by", by[i].get());
	}
	for (int s = 0; s < SETTERS; s++) { // set() reports whether it resumed somebody
		int tid = t[WAITERS + s]; bool did = false; for (int i = 0; i < WAITERS; i++) if (by[i].get() == tid) did = true;
		CHECK((woke[tid].get() == 2) == did, "set() returns true exactly if it resumed a waiting coroutine");
	}
	CHECK(!ev.is_awaited(), "nobody is left waiting");
	if (!automatic) CHECK(ev.is_set(), "a manual reset event stays set");
	vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 2
// every sequence of OPS operations, against a counting model
event_t* ev; vp_cell<int> done;
co waiter() { co_await *ev; done.inc(); }
int main() {
	bool set = vp_bool("initial"); event_t e{set}; ev = &e; int waiting = 0, expect = 0;
	vp_leak_begin();
	for (int i = 0; i < OPS; i++) {
		vp_point();
		switch (vp_range("op", 0, 2)) {
		case 0: { bool r = e.set(); CHECK(r == (waiting > 0), "set() returns true exactly if somebody was waiting"); set = automatic ? (set || waiting == 0) : true; expect += waiting; waiting = 0; break; }
		case 1: e.reset(); set = false; break;
		case 2: if (multi || waiting == 0) { waiter(); if (set) { expect++; if (automatic) set = false; } else waiting++; } break;
		}
		CHECK(done.get() == expect, "exactly the released waiters have been resumed");
		CHECK(e.is_set() == set, "is_set");
		CHECK(e.is_awaited() == (waiting > 0), "is_awaited");
	}
	if (waiting) { e.set(); expect += waiting; }
	CHECK(done.get() == expect, "the last set() resumes everybody");
	vp_observe("done", done.get()); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 3
// set, wait and reset run concurrently; afterwards either the waiter ran or one more set() resumes it
event_t& ev = vp_own<event_t>(INIT); vp_cell<int> resumed;
co waiter() { co_await ev; resumed.inc(); }
void wait_main(void*) { waiter(); }
void set_main(void*) { ev.set(); }
void reset_main(void*) { ev.reset(); }
int main() {
	vp_leak_begin(); vp_spurious(1);
	int t[8], n = 0; t[n++] = vp_spawn(wait_main, 0); for (int i = 0; i < SETTERS; i++) t[n++] = vp_spawn(set_main, 0); t[n++] = vp_spawn(reset_main, 0);
	for (int i = 0; i < n; i++) vp_join(t[i]);
	int r = resumed.get();
	CHECK(r <= 1, "not resumed twice");
	CHECK(ev.is_awaited() == (r == 0), "a waiter that was not resumed is still registered");
	CHECK(!(ev.is_set() && r == 0), "nobody keeps waiting on an event that is set");
	if (r == 0) { bool w = ev.set(); CHECK(w && resumed.get() == 1, "the next set() resumes the waiter"); }
	CHECK(resumed.get() == 1, "resumed exactly once"); vp_observe("r", r); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 9
// is_set() seen as true is as good as a wait: what was written before set() can be read
event_t& ev = vp_own<event_t>(); uint32_t secret, value; vp_cell<int> seen;
void set_main(void*) { secret = value; ev.set(); }
void poll_main(void*) { if (ev.is_set()) { CHECK(secret == value, "what was written before set() is visible to whoever sees the event set"); seen.set(1); } }
int main() {
	value = vp_nondet("value", 32);
	int x = vp_spawn(set_main, 0), y = vp_spawn(poll_main, 0); vp_join(x); vp_join(y);
	CHECK(ev.is_set() && !ev.is_awaited(), "nobody waited: it stays set"); vp_observe("seen", seen.get()); vp_reach("end"); return 0;
}
#elif SCN == 4
// two coroutines on two threads hand a value back and forth
event_t &a = vp_own<event_t>(), &b = vp_own<event_t>(); uint32_t cell, v[ROUNDS]; vp_cell<int> rounds;
co first() { for (int i = 0; i < ROUNDS; i++) { co_await a; if (!automatic) a.reset(); CHECK(cell == v[i], "value handed over"); cell = ~v[i]; rounds.inc(); b.set(); } }
co second() { for (int i = 0; i < ROUNDS; i++) { cell = v[i]; a.set(); co_await b; if (!automatic) b.reset(); CHECK(cell == (uint32_t)~v[i], "value handed back"); } rounds.inc(); }
void m1(void*) { first(); }
void m2(void*) { second(); }
int main() { for (auto& x : v) x = vp_nondet("v", 32); vp_leak_begin(); int x = vp_spawn(m1, 0), y = vp_spawn(m2, 0); vp_join(x); vp_join(y); CHECK(rounds.get() == ROUNDS + 1, "all rounds took place"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
// auto reset: one coroutine waits ROUNDS times; every wait consumes at most one set()
event_t& ev = vp_own<event_t>(); vp_cell<int> rounds; uint32_t data = 0;
co waiter() { for (int i = 0; i < ROUNDS; i++) { co_await ev; rounds.inc(); CHECK(SETTERS > 1 || data >= 1, "written before set"); } }
void wait_main(void*) { waiter(); }
void set_main(void*) { for (int i = 0; i < ROUNDS; i++) { if (SETTERS == 1 && i == 0) data = 1; ev.set(); } }
int main() {
	vp_leak_begin(); int t[4], n = 0; t[n++] = vp_spawn(wait_main, 0); for (int i = 0; i < SETTERS; i++) t[n++] = vp_spawn(set_main, 0); for (int i = 0; i < n; i++) vp_join(t[i]);
	int r = rounds.get(); CHECK(r >= 1, "at least one wait was released");
	CHECK(ev.is_awaited() == (r < ROUNDS), "still waiting exactly if rounds are left"); CHECK(!(ev.is_set() && r < ROUNDS), "set and waited on at once");
	for (int i = r; i < ROUNDS; i++) { ev.set(); CHECK(rounds.get() == i + 1, "one set() releases one wait"); }
	vp_observe("r", r); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 7
// auto reset, several consumers: a set() releases everybody who waits, or else exactly one later waiter
event_t& ev = vp_own<event_t>(INIT); vp_cell<int> resumed[WAITERS], by[WAITERS], woke[8]; uint32_t data = 0;
co waiter(int i) { co_await ev; resumed[i].inc(); by[i].set(vp_self()); if (!INIT && SETTERS == 1) CHECK(data == 7, "written before set() is visible after the wait"); }
void wait_main(void* p) { waiter((int)(intptr_t)p); }
void set_main(void*) { if (SETTERS == 1) data = 7; bool r = ev.set(); woke[vp_self()].set(r ? 2 : 1); }
int main() {
	vp_leak_begin(); vp_spurious(1);
	int t[8], n = 0; for (int i = 0; i < WAITERS; i++) t[n++] = vp_spawn(wait_main, (void*)(intptr_t)i); for (int i = 0; i < SETTERS; i++) t[n++] = vp_spawn(set_main, 0);
	for (int i = 0; i < n; i++) vp_join(t[i]);
	int left = 0, self = 0; for (int i = 0; i < WAITERS; i++) { CHECK(resumed[i].get() <= 1, "not resumed twice"); if (!resumed[i].get()) left++; else if (by[i].get() == t[i]) self++; }
	int quiet = INIT ? 1 : 0, loud = 0;
	for (int s = 0; s < SETTERS; s++) { int tid = t[WAITERS + s]; bool did = false; for (int i = 0; i < WAITERS; i++) if (by[i].get() == tid) did = true; CHECK((woke[tid].get() == 2) == did, "set() returns true exactly if it resumed a waiting coroutine"); if (did) loud++; else quiet++; }
	CHECK(self <= quiet, "a set() that resumed nobody releases at most one later waiter");
	CHECK(ev.is_awaited() == (left > 0), "who was not resumed is still registered");
	CHECK(!(left > 0 && ev.is_set()), "nobody waits on an event that is set");
	CHECK(left == 0 || self + loud > 0, "a set() is not lost");
	if (left) { bool w = ev.set(); CHECK(w, "the next set() finds the waiters"); }
	for (int i = 0; i < WAITERS; i++) CHECK(resumed[i].get() == 1, "everybody is resumed exactly once in the end");
	vp_observe("left", left); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 8
// where a waiter resumes: on the dispatcher given to wait() (or the current one for plain co_await), else on the one given to set(), else inside set()
struct disp : dispatcher { int pushed = 0; std::function<void()> fn; void push(std::function<void()> f) override { CHECK(!fn, "one callback at a time"); pushed++; fn = std::move(f); } void run(bool cur) { auto f = std::move(fn); fn = nullptr; auto old = dispatcher::current(this); f(); dispatcher::current(old); } static void make_current(dispatcher* d) { dispatcher::current(d); } };
event_t* ev; int done = 0;
co w_plain() { co_await *ev; done++; }
co w_disp(dispatcher* d) { co_await ev->wait(d); done++; }
int main() {
	disp cur, dw, ds; event_t e{}; ev = &e; vp_leak_begin();
	bool plain = vp_bool("plain_await"), hasCur = vp_bool("current"), hasWait = vp_bool("wait_dispatcher"), hasSet = vp_bool("set_dispatcher");
	if (hasCur) disp::make_current(&cur);
	if (plain) w_plain(); else w_disp(hasWait ? &dw : nullptr);
	CHECK(done == 0, "suspended"); CHECK(e.is_awaited(), "registered");
	disp::make_current(nullptr);
	CHECK(e.set(hasSet ? &ds : nullptr), "set() found the waiter");
	disp* want = plain ? (hasCur ? &cur : nullptr) : (hasWait ? &dw : nullptr); if (!want && hasSet) want = &ds;
	for (disp* d : {&cur, &dw, &ds}) CHECK(d->pushed == (d == want ? 1 : 0), "pushed to exactly the right dispatcher");
	CHECK(done == (want ? 0 : 1), "resumed inside set() only without any dispatcher");
	if (want) { want->run(true); }
	CHECK(done == 1, "resumed exactly once"); 
	bool again = vp_bool("again"); // an event that is already set does not suspend, whatever the dispatcher
	if (again) { e.set(&ds); int before = ds.pushed + dw.pushed + cur.pushed; if (hasCur) disp::make_current(&cur); if (plain) w_plain(); else w_disp(hasWait ? &dw : nullptr); disp::make_current(nullptr); CHECK(done == 2 && before == ds.pushed + dw.pushed + cur.pushed, "a set event continues at once on the same thread"); }
	vp_observe("done", done); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 11
// several waiters with dispatchers of their own (or none), over two rounds with different fallback dispatchers (single consumer events: one waiter a round)
struct disp : dispatcher { int pushed = 0, n = 0; std::function<void()> fn[4]; void push(std::function<void()> f) override { CHECK(n < 4, "room"); pushed++; fn[n++] = std::move(f); } void run() { auto old = dispatcher::current(this); for (int i = 0; i < n; i++) { auto f = std::move(fn[i]); fn[i] = nullptr; f(); } n = 0; dispatcher::current(old); } static void make_current(dispatcher* d) { dispatcher::current(d); } };
event_t* ev; disp* where[WAITERS]; int done[WAITERS];
co w_plain(int i) { co_await *ev; where[i] = static_cast<disp*>(dispatcher::current()); done[i]++; }
co w_disp(int i, dispatcher* d) { co_await ev->wait(d); where[i] = static_cast<disp*>(dispatcher::current()); done[i]++; }
int main() {
	disp d0, d1, d2; event_t e{}; ev = &e; vp_leak_begin();
	disp* const all[] = {nullptr, &d0, &d1, &d2};
	for (int r = 0; r < ROUNDS; r++) {
		disp* want[WAITERS]; int total[4] = {0, d0.pushed, d1.pushed, d2.pushed};
		int fallback = vp_bool("fallback") ? 2 + r : 0; // 0, or another dispatcher in every round
		for (int i = 0; i < WAITERS; i++) {
			done[i] = 0; where[i] = nullptr;
			int own = vp_bool("first") ? 1 : vp_bool("second") ? 2 : 0; bool plain = vp_bool("plain_await");
			if (plain) { disp::make_current(all[own]); w_plain(i); disp::make_current(nullptr); } else w_disp(i, all[own]);
			CHECK(done[i] == 0, "suspended");
			auto w = own ? own : fallback; want[i] = all[w]; total[w]++;
		}
		CHECK(e.set(all[fallback]), "set() found the waiters");
		for (int k = 1; k < 4; k++) CHECK(all[k]->pushed == total[k], "every waiter is pushed to the dispatcher it asked for");
		for (int i = 0; i < WAITERS; i++) CHECK(done[i] == (want[i] ? 0 : 1), "resumed inside set() exactly if no dispatcher was named");
		for (int k = 1; k < 4; k++) all[k]->run();
		for (int i = 0; i < WAITERS; i++) { CHECK(done[i] == 1, "resumed exactly once"); CHECK(where[i] == want[i], "resumed by the dispatcher it asked for"); }
		e.reset(); vp_point();
	}
	vp_reach("end"); vp_leak_check(); return 0;
}
#endif
