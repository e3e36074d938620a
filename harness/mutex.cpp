// The coroutine mutex (C06), its lock objects (C07) and the latch (C08).
//@ C06 two_threads quick -DSCN=1 -DTHREADS=2 -DROUNDS=1
//@ C06 two_threads_two_rounds quick -DSCN=1 -DTHREADS=2 -DROUNDS=2
//@ C06 three_threads quick -DSCN=1 -DTHREADS=3 -DROUNDS=1
//@ C06 three_threads_two_rounds thorough -DSCN=1 -DTHREADS=3 -DROUNDS=2
//@ C06 four_threads thorough -DSCN=1 -DTHREADS=4 -DROUNDS=1
//@ C06 with_try_lock quick -DSCN=1 -DTHREADS=2 -DROUNDS=1 -DTRY=1
//@ C06 with_try_lock_two_rounds thorough -DSCN=1 -DTHREADS=2 -DROUNDS=2 -DTRY=1
//@ C06 scoped quick -DSCN=1 -DTHREADS=2 -DROUNDS=1 -DSCOPED=1
//@ C06 scoped_three_threads thorough -DSCN=1 -DTHREADS=3 -DROUNDS=1 -DSCOPED=1
//@ C06 handed_over quick -DSCN=2 -DTHREADS=2
//@ C06 handed_over_three thorough -DSCN=2 -DTHREADS=3
//@ C06 history quick -DSCN=3 -DOPS=6
//@ C06 history_deep thorough -DSCN=3 -DOPS=9
//@ C07 history quick -DSCN=4 -DOPS=4
//@ C07 history_deep thorough -DSCN=4 -DOPS=6
//@ C07 lock_through_object quick -DSCN=5
//@ C07 two_threads quick -DSCN=6 -DTHREADS=2
//@ C07 three_threads thorough -DSCN=6 -DTHREADS=3
//@ C08 one_waiter_two_decrements quick -DSCN=7 -DWAITERS=1 -DDECS=2
//@ C08 two_waiters_two_decrements quick -DSCN=7 -DWAITERS=2 -DDECS=2
//@ C08 one_waiter_three_decrements quick -DSCN=7 -DWAITERS=1 -DDECS=3 -DAMOUNT=255
//@ C08 two_waiters_three_decrements thorough -DSCN=7 -DWAITERS=2 -DDECS=3
//@ C08 three_waiters thorough -DSCN=7 -DWAITERS=3 -DDECS=2
//@ C08 history quick -DSCN=8 -DOPS=4 -DBITS=8
//@ C08 history_wide quick -DSCN=8 -DOPS=2 -DBITS=64
//@ C08 history_deep thorough -DSCN=8 -DOPS=6 -DBITS=8
#include "common.h"
#include <asyncpp/dispatcher.h>
#include <asyncpp/latch.h>
#include <asyncpp/mutex.h>
#include <utility>
#include <new>
using namespace asyncpp;
#ifndef TRY
#define TRY 0
#endif
#ifndef SCOPED
#define SCOPED 0
#endif
#if SCN == 1
// THREADS coroutines on as many threads, ROUNDS critical sections each; plain data inside is race checked
mutex& m = vp_own<mutex>(); uint32_t data, add[8], expect; vp_cell<int> inside, sections;
static void section(int i) { CHECK(inside.inc() == 1, "mutual exclusion"); CHECK(m.is_locked(), "is_locked while held"); data += add[i]; inside.inc(-1); sections.inc(); }
co worker(int i) { for (int r = 0; r < ROUNDS; r++) {
	if (SCOPED) { auto l = co_await m.lock_scoped(); section(i); }
	else { co_await m.lock(); section(i); m.unlock(); } } }
void run(void* p) { worker((int)(intptr_t)p); }
void tryer(void*) { if (m.try_lock()) { section(THREADS); expect += add[THREADS]; m.unlock(); vp_reach("try_lock succeeded"); } else vp_reach("try_lock failed"); }
int main() {
	for (int i = 0; i <= THREADS; i++) { add[i] = vp_nondet("add", 32); if (i < THREADS) expect += ROUNDS * add[i]; }
	vp_leak_begin(); vp_spurious(1); int t[8], n = 0; for (int i = 0; i < THREADS; i++) t[n++] = vp_spawn(run, (void*)(intptr_t)i); if (TRY) t[n++] = vp_spawn(tryer, 0);
	for (int i = 0; i < n; i++) vp_join(t[i]);
	CHECK(sections.get() >= THREADS * ROUNDS, "every lock() was granted"); CHECK(data == expect, "every section's effect is there, once");
	CHECK(!m.is_locked() && m.try_lock(), "free at the end"); m.unlock(); vp_observe("sections", sections.get()); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 2
// a mutex constructed locked: coroutines queue up while it is held and get it one after another once it is released on another thread
mutex& m = vp_own<mutex>(mutex::construct_locked); uint32_t data, value; vp_cell<int> inside, sections; int first = -1;
co worker(int i) { co_await m.lock(); CHECK(inside.inc() == 1, "mutual exclusion"); CHECK(data == value + (uint32_t)sections.get(), "sees what earlier holders wrote"); data++; sections.inc(); inside.inc(-1); m.unlock(); }
void run(void* p) { worker((int)(intptr_t)p); }
void release(void*) { CHECK(inside.inc() == 1, "held since construction"); data = value; inside.inc(-1); m.unlock(); }
int main() { value = vp_nondet("value", 32); vp_leak_begin(); vp_spurious(1); inside.set(0); int t[8], n = 0; CHECK(m.is_locked() && !m.try_lock(), "constructed locked"); for (int i = 0; i < THREADS; i++) t[n++] = vp_spawn(run, (void*)(intptr_t)i); t[n++] = vp_spawn(release, 0);
	for (int i = 0; i < n; i++) vp_join(t[i]); CHECK(sections.get() == THREADS, "every lock() was granted"); CHECK(!m.is_locked(), "free at the end"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// every sequence of OPS operations on one thread: ownership passes to the waiting coroutines in the order they came
mutex* m; int granted[16], ngranted, nasked;
co worker(int id) { co_await m->lock(); granted[ngranted++] = id; }
int main() {
	mutex mm{}; m = &mm; vp_leak_begin(); bool held = false;
	for (int i = 0; i < OPS; i++) {
		vp_point();
		switch (vp_range("op", 0, 2)) {
		case 0: { bool r = mm.try_lock(); CHECK(r == !held, "try_lock succeeds exactly on a free mutex"); held = true; break; }
		case 1: worker(nasked++); if (!held) { held = true; CHECK(ngranted == nasked, "a free mutex is taken at once"); } else CHECK(ngranted < nasked, "waits while it is held"); break;
		case 2: if (held) { int before = ngranted; bool waiting = ngranted < nasked; mm.unlock(); CHECK(ngranted == before + waiting, "unlock() passes ownership to exactly one waiter"); held = waiting; } break;
		}
		CHECK(mm.is_locked() == held, "is_locked");
		for (int k = 0; k < ngranted; k++) CHECK(granted[k] == k, "granted in the order of the requests");
	}
	while (held) { int before = ngranted; mm.unlock(); held = ngranted > before; }
	CHECK(ngranted == nasked, "everybody got the mutex"); CHECK(!mm.is_locked(), "free"); vp_observe("n", ngranted); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 4
// every sequence of OPS operations on two lock objects over two mutexes: a mutex is held exactly while some object says so, and released exactly once
int main() {
	mutex a{}, b{}; mutex* mx[2] = {&a, &b}; alignas(mutex_lock) unsigned char buf[2][sizeof(mutex_lock)]; bool alive[2] = {false, false}, own[2] = {}; int of[2] = {-1, -1};
	auto L = [&](int i) -> mutex_lock& { return *(mutex_lock*)buf[i]; };
	vp_leak_begin();
	auto free_mutex = [&](int k) { for (int i = 0; i < 2; i++) if (alive[i] && own[i] && of[i] == k) return false; return true; };
	for (int s = 0; s < OPS; s++) {
		vp_point(); int i = vp_nondet("object", 1), j = 1 - i, k = vp_nondet("mutex", 1);
		switch (vp_range("op", 0, 6)) {
		case 0: if (!alive[i]) { new (buf[i]) mutex_lock(*mx[k]); alive[i] = true; own[i] = false; of[i] = k; } break;
		case 1: if (!alive[i] && mx[k]->try_lock()) { new (buf[i]) mutex_lock(*mx[k], std::adopt_lock); alive[i] = true; own[i] = true; of[i] = k; } break;
		case 2: if (alive[i] && !own[i] && of[i] >= 0) { bool r = L(i).try_lock(); CHECK(r == free_mutex(of[i]), "try_lock succeeds exactly on a free mutex"); own[i] = r; } break;
		case 3: if (alive[i] && own[i]) { L(i).unlock(); own[i] = false; } break;
		case 4: if (alive[i] && alive[j]) { L(i) = std::move(L(j)); own[i] = own[j]; of[i] = of[j]; own[j] = false; of[j] = -1; } break;
		case 5: if (!alive[i] && alive[j]) { new (buf[i]) mutex_lock(std::move(L(j))); alive[i] = true; own[i] = own[j]; of[i] = of[j]; own[j] = false; of[j] = -1; } break;
		case 6: if (alive[i]) { L(i).~mutex_lock(); alive[i] = own[i] = false; of[i] = -1; } break;
		}
		for (int x = 0; x < 2; x++) { if (alive[x]) { CHECK(L(x).is_locked() == own[x], "is_locked of the object"); if (of[x] >= 0) CHECK(&L(x).mutex() == mx[of[x]], "names its mutex"); } CHECK(mx[x]->is_locked() == !free_mutex(x), "a mutex is held exactly while an object owns it"); }
	}
	for (int x = 0; x < 2; x++) if (alive[x]) L(x).~mutex_lock();
	CHECK(!a.is_locked() && !b.is_locked(), "all released by destruction"); vp_reach("end"); vp_leak_check(); return 0;
}
#elif SCN == 5
// awaiting lock() on an object: whether or not it already owns the mutex, whether or not it must wait
mutex* m; int stage;
co user(bool already, bool unlock_early) { mutex_lock l(*m); if (already) { bool r = l.try_lock(); CHECK(r, "free"); } co_await l.lock(); stage = 1; CHECK(l.is_locked() && m->is_locked(), "owned after lock()"); if (unlock_early) { l.unlock(); CHECK(!l.is_locked(), "given back"); stage = 2; co_await l.lock(); CHECK(l.is_locked(), "owned again"); } stage = 3; }
int main() { mutex mm{}; m = &mm; vp_leak_begin(); bool already = vp_bool("already"), early = vp_bool("early"), busy = vp_bool("busy");
	if (busy && !already) { bool r = mm.try_lock(); CHECK(r, "free"); } user(already, early);
	if (busy && !already) { CHECK(stage == 0, "waits for the holder"); mm.unlock(); }
	CHECK(stage == 3, "ran to the end"); CHECK(!mm.is_locked(), "released on destruction"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
// lock objects moved across scopes by concurrent coroutines
mutex& m = vp_own<mutex>(); uint32_t data, add[4]; vp_cell<int> inside;
co worker(int i) { mutex_lock outer(m); { auto l = co_await m.lock_scoped(); CHECK(inside.inc() == 1, "mutual exclusion"); outer = std::move(l); CHECK(!l.is_locked() && outer.is_locked(), "ownership moved"); } data += add[i]; inside.inc(-1); mutex_lock last(std::move(outer)); CHECK(last.is_locked(), "ownership moved"); last.unlock(); }
void run(void* p) { worker((int)(intptr_t)p); }
int main() { uint32_t sum = 0; for (int i = 0; i < THREADS; i++) { add[i] = vp_nondet("add", 32); sum += add[i]; } vp_leak_begin(); int t[4]; for (int i = 0; i < THREADS; i++) t[i] = vp_spawn(run, (void*)(intptr_t)i); for (int i = 0; i < THREADS; i++) vp_join(t[i]); CHECK(data == sum, "all sections ran"); CHECK(!m.is_locked(), "free at the end"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 7
#ifndef AMOUNT
#define AMOUNT (1ull << 40)
#endif
// DECS decrements by arbitrary amounts that add up to the initial value, concurrent with WAITERS waiters
size_t amount[DECS], total; latch* l; vp_cell<int> resumed[WAITERS]; uint32_t written[DECS], value;
co waiter(int i) { co_await l->wait(); resumed[i].inc(); for (int d = 0; d < DECS; d++) CHECK(written[d] == value, "what was written before any decrement is visible after the wait"); CHECK(l->is_ready(), "ready"); }
void wait_main(void* p) { waiter((int)(intptr_t)p); }
void dec_main(void* p) { int i = (int)(intptr_t)p; written[i] = value; l->decrement(amount[i]); }
int main() { value = vp_nondet("value", 32); for (auto& a : amount) { a = vp_range("amount", 1, AMOUNT); total += a; } l = &vp_own<latch>(total); CHECK(!l->is_ready(), "not ready at first");
	vp_leak_begin(); vp_spurious(1); int t[8], n = 0; for (int i = 0; i < WAITERS; i++) t[n++] = vp_spawn(wait_main, (void*)(intptr_t)i); for (int i = 0; i < DECS; i++) t[n++] = vp_spawn(dec_main, (void*)(intptr_t)i); for (int i = 0; i < n; i++) vp_join(t[i]);
	CHECK(l->is_ready(), "ready at zero"); for (auto& r : resumed) CHECK(r.get() == 1, "every waiter resumed exactly once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 8
// every sequence of OPS operations: waiters run exactly from the decrement that reaches zero on
latch* l; int done;
co waiter(bool plain) { if (plain) co_await *l; else co_await l->wait(); done++; }
int main() { size_t left = vp_nondet("initial", BITS); latch ll(left); l = &ll; vp_leak_begin(); int asked = 0;
	for (int i = 0; i < OPS; i++) { vp_point(); CHECK(ll.is_ready() == (left == 0), "ready exactly at zero");
		if (vp_bool("wait")) { waiter(vp_bool("plain")); asked++; } else if (left > 0) { size_t n = vp_nondet("n", BITS); vp_assume(n <= left); vp_assume(n > 0); ll.decrement(n); left -= n; }
		CHECK(done == (left == 0 ? asked : 0), "waiters are held until zero and all released at zero"); }
	if (left) ll.decrement(left); CHECK(ll.is_ready() && done == asked, "all released"); vp_reach("end"); vp_leak_check(); return 0; }
#endif
