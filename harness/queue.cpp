// The coroutine queue: FIFO exactly-once delivery without lost wake-ups (C11), capacity, clear, move (C12).
//@ C11 one_pusher_one_popper quick -DSCN=1 -DP=1 -DC=1 -DN=1
//@ C11 two_values quick -DSCN=1 -DP=1 -DC=1 -DN=2
//@ C11 two_pushers quick -DSCN=1 -DP=2 -DC=1 -DN=1
//@ C11 two_poppers quick -DSCN=1 -DP=1 -DC=2 -DN=2
//@ C11 two_and_two thorough -DSCN=1 -DP=2 -DC=2 -DN=1
//@ C11 three_values thorough -DSCN=1 -DP=1 -DC=1 -DN=3
//@ C11 try_pop_vs_push quick -DSCN=2 -DTRYPOP=1
//@ C11 try_push_vs_pop quick -DSCN=2 -DTRYPOP=0
//@ C11 history quick -DSCN=3 -DOPS=4 -DBASIC=1
//@ C11 history_deep thorough -DSCN=3 -DOPS=6 -DBASIC=1
//@ C11 loops quick -DSCN=10 -DOPS=4
//@ C11 any_two quick -DSCN=9 -DTHREADS=2
//@ C11 any_three quick -DSCN=9 -DTHREADS=3
//@ C12 history quick -DSCN=3 -DOPS=4 -DBASIC=0
//@ C12 history_deep thorough -DSCN=3 -DOPS=5 -DBASIC=0
//@ C12 move_vs_use quick -DSCN=11
//@ C12 move_many quick -DSCN=12
//@ C12 clear_vs_push quick -DSCN=4 -DPOPS=0
//@ C12 clear_vs_push_and_pop quick -DSCN=4 -DPOPS=1
//@ C12 move_assign quick -DSCN=5
//@ C12 move_construct quick -DSCN=6
//@ C12 throwing_element quick -DSCN=7
//@ C11 dispatchers quick -DSCN=8
#include "common.h"
#include <asyncpp/dispatcher.h>
#include <asyncpp/queue.h>
using namespace asyncpp;
struct msg { int id; uint32_t v; msg(int i, uint32_t x) : id(i), v(x) {} msg(msg&& o) noexcept : id(o.id), v(o.v) { o.id = -1; } msg& operator=(msg&& o) noexcept { id = o.id; v = o.v; o.id = -1; return *this; } };
typedef queue<msg> Q;
#if SCN == 1
// P pushers of N values, C poppers that together take as many; capacity 0, 1 or more than needed
Q* q; uint32_t val[P * N]; vp_cell<int> got[P * N], pushed, popped;
co pusher(int p) { for (int i = 0; i < N; i++) { bool ok = co_await q->push(msg(p * N + i, val[p * N + i])); CHECK(ok, "push() succeeds"); pushed.inc(); } }
co popper(int n) { int last = -1; for (int i = 0; i < n; i++) { auto r = co_await q->pop(); CHECK(r.has_value(), "pop() delivers"); CHECK(r->id >= 0 && r->id < P * N, "a value that was pushed"); CHECK(r->v == val[r->id], "intact"); if (P == 1) { CHECK(r->id > last, "in order"); last = r->id; } got[r->id].inc(); popped.inc(); } }
void pm(void* p) { pusher((int)(intptr_t)p); }
void cm(void* p) { popper((int)(intptr_t)p); }
int main() { for (auto& v : val) v = vp_nondet("v", 32); Q qq(vp_range("capacity", 0, 2)); q = &qq; vp_leak_begin(); int t[8], n = 0, left = P * N; for (int i = 0; i < P; i++) t[n++] = vp_spawn(pm, (void*)(intptr_t)i); for (int i = 0; i < C; i++) { int k = (P * N + C - 1) / C; if (k > left) k = left; left -= k; t[n++] = vp_spawn(cm, (void*)(intptr_t)k); }
	for (int i = 0; i < n; i++) vp_join(t[i]); for (auto& g : got) CHECK(g.get() == 1, "every value is popped exactly once"); CHECK(pushed.get() == P * N && popped.get() == P * N, "everybody was resumed"); CHECK(qq.empty() && qq.size() == 0, "empty"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
Q* q; uint32_t val; vp_cell<int> res, tried;
co waiting() { if (TRYPOP) { bool ok = co_await q->push(msg(0, val)); res.inc(ok ? 2 : 1); } else { auto r = co_await q->pop(); if (r) CHECK(r->v == val && r->id == 0, "intact"); res.inc(r ? 2 : 1); } }
void a(void*) { waiting(); }
void b(void*) { if (TRYPOP) { auto r = q->try_pop(); if (r) CHECK(r->v == val && r->id == 0, "intact"); tried.set(r ? 2 : 1); } else tried.set(q->try_push(msg(0, val)) ? 2 : 1); }
int main() { val = vp_nondet("v", 32); Q qq(vp_range("capacity", 0, 1)); q = &qq; vp_leak_begin(); int x = vp_spawn(a, 0), y = vp_spawn(b, 0); vp_join(x); vp_join(y);
	if (TRYPOP) { if (tried.get() == 1) { auto r = qq.try_pop(); CHECK(r && r->v == val, "still there"); } CHECK(res.get() == 2, "push() succeeded, once"); }
	else { if (tried.get() == 1) CHECK(qq.try_push(msg(0, val)), "a waiting pop() takes the value"); CHECK(res.get() == 2, "pop() succeeded, once"); }
	CHECK(qq.empty(), "empty"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// every sequence of OPS operations against a model
Q* q; uint32_t val[OPS]; int pdone[OPS], pgot[OPS], sdone[OPS];
co popper(int i) { auto r = co_await q->pop(); pdone[i] = r ? 2 : 1; if (r) { pgot[i] = r->id; CHECK(r->id >= 0 && r->v == val[r->id], "intact"); } }
co pusher(int i) { bool ok = co_await q->push(msg(i, val[i])); sdone[i] = ok ? 2 : 1; }
int main() { for (auto& v : val) v = vp_nondet("v", 32); for (auto& g : pgot) g = -1; size_t cap = vp_range("capacity", 0, 2); { Q qq(cap); q = &qq; vp_leak_begin();
	int items[OPS], ih = 0, it = 0, pops[OPS], ph = 0, pt = 0, epd[OPS] = {}, epg[OPS], esd[OPS] = {}; for (auto& g : epg) g = -1; // items: stored first, then those of waiting pushers
	for (int i = 0; i < OPS; i++) { vp_point(); int op = vp_range("op", 0, BASIC ? 3 : 5);
		auto put = [&](bool wait) -> bool { if (ph < pt) { epd[pops[ph]] = 2; epg[pops[ph++]] = i; return true; } if ((size_t)(it - ih) < cap) { items[it++] = i; return true; } if (wait) items[it++] = i; return false; };
		auto take = [&]() -> int { if (ih == it) return -1; int r = items[ih++]; if (cap == 0) esd[r] = 2; else if (it - ih >= (int)cap) esd[items[ih + cap - 1]] = 2; return r; };
		switch (op) {
		case 0: { int r = take(); if (r >= 0) { epd[i] = 2; epg[i] = r; } else pops[pt++] = i; popper(i); break; }
		case 1: { if (put(true)) esd[i] = 2; pusher(i); break; }
		case 2: { int r = take(); auto x = qq.try_pop(); CHECK(x.has_value() == (r >= 0), "try_pop succeeds exactly if something is available"); if (x) CHECK(x->id == r && x->v == val[r], "the oldest value"); break; }
		case 3: { bool e = put(false); bool ok = vp_bool("emplace") ? qq.try_emplace(i, val[i]) : qq.try_push(msg(i, val[i])); CHECK(ok == e, "try_push succeeds exactly if there is room or a waiting pop()"); break; }
		case 4: { int n = it - ih; for (int k = cap; k < n; k++) esd[items[ih + k]] = 1; ih = it; qq.clear(); break; }
		case 5: { Q q2(std::move(qq)); CHECK(q2.size() == (size_t)(it - ih), "contents move along"); CHECK(qq.size() == 0 && qq.empty(), "moved from queue is empty"); qq = std::move(q2); break; }
		}
		CHECK(qq.size() == (size_t)(it - ih) && qq.empty() == (it == ih), "size and emptiness");
		for (int k = 0; k <= i; k++) { CHECK(pdone[k] == epd[k], "pops complete exactly when they should"); CHECK(pgot[k] == epg[k], "first in, first out"); CHECK(sdone[k] == esd[k], "pushes complete exactly when there is room"); } }
	while (ph < pt) { bool ok = qq.try_push(msg(0, val[0])); CHECK(ok, "a waiting pop() is served"); ph++; }
	qq.clear(); CHECK(qq.size() == 0, "clear() empties"); }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
Q* q; uint32_t val[2]; vp_cell<int> pd[2], got[2], popd;
co pusher(int i) { bool ok = co_await q->push(msg(i, val[i])); pd[i].inc(ok ? 2 : 1); }
co popper() { auto r = co_await q->pop(); CHECK(r.has_value(), "pop() is not failed by clear()"); CHECK(r->id >= 0 && r->v == val[r->id], "intact"); got[r->id].inc(); popd.inc(); }
void pm(void* p) { pusher((int)(intptr_t)p); }
void cm(void*) { q->clear(); }
void qm(void*) { popper(); }
int main() { for (auto& v : val) v = vp_nondet("v", 32); Q qq(1); q = &qq; vp_leak_begin(); int t[4], n = 0; t[n++] = vp_spawn(pm, (void*)0); t[n++] = vp_spawn(pm, (void*)1); t[n++] = vp_spawn(cm, 0); if (POPS) t[n++] = vp_spawn(qm, 0); for (int i = 0; i < n; i++) vp_join(t[i]);
	while (auto r = qq.try_pop()) { CHECK(r->v == val[r->id], "intact"); got[r->id].inc(); }
	for (int i = 0; i < 2; i++) { CHECK(pd[i].get() != 0 && pd[i].get() <= 2, "every push() is resumed exactly once"); CHECK(got[i].get() <= 1, "no value comes out twice"); CHECK(!(pd[i].get() == 1 && got[i].get()), "a failed push() has no effect"); }
	if (POPS && !popd.get()) { CHECK(qq.try_push(msg(0, val[0])), "pop() still waits"); CHECK(popd.get() == 1, "served"); } CHECK(qq.empty(), "empty"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
// move assignment fails the waiters of the overwritten queue and takes over those of the other one
Q *qa, *qb; uint32_t val[3]; int ad, bd, agot = -1, bgot = -1;
co pop_(Q* q, int* d, int* g) { auto r = co_await q->pop(); *d = r ? 2 : 1; if (r) *g = r->id; }
co push_(Q* q, int* d, int i) { bool ok = co_await q->push(msg(i, val[i])); *d = ok ? 2 : 1; }
int main() { for (auto& v : val) v = vp_nondet("v", 32); int capa = vp_range("capacity_a", 1, 3), capb = vp_range("capacity_b", 1, 2); Q a(capa), b(capb); vp_leak_begin(); bool ap = vp_bool("a_pops"), bp = vp_bool("b_pops");
	if (ap) pop_(&a, &ad, &agot); else { for (int i = 0; i < capa; i++) CHECK(a.try_push(msg(2, val[2])), "room"); push_(&a, &ad, 0); } CHECK(ad == 0, "waits");
	if (bp) pop_(&b, &bd, &bgot); else { for (int i = 0; i < capb; i++) CHECK(b.try_push(msg(2, val[2])), "room"); push_(&b, &bd, 1); } CHECK(bd == 0, "waits");
	a = std::move(b); CHECK(ad == 1, "the old waiter is resumed empty-handed"); CHECK(bd == 0, "the other one keeps waiting");
	if (bp) { CHECK(a.try_push(msg(1, val[1])), "served through the new queue"); CHECK(bd == 2 && bgot == 1, "gets the value"); } else { CHECK(a.size() == (size_t)capb + 1, "contents moved"); for (int i = 0; i < capb; i++) { auto r = a.try_pop(); CHECK(r && r->id == 2 && r->v == val[2], "first"); CHECK(bd == 2, "there is room now"); } auto r = a.try_pop(); CHECK(r && r->id == 1 && r->v == val[1], "last"); }
	CHECK(a.empty() && a.size() == 0, "nothing left"); for (int i = 0; i < capb; i++) CHECK(a.try_push(msg(0, val[0])), "the capacity moved along"); CHECK(!a.try_push(msg(0, val[0])), "the capacity moved along"); a.clear();
	CHECK(a.empty() && b.empty() && b.size() == 0, "nothing left"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
Q* qa; uint32_t val[3]; int bd, bgot = -1;
co pop_(Q* q) { auto r = co_await q->pop(); bd = r ? 2 : 1; if (r) bgot = r->id; }
co push_(Q* q, int i) { bool ok = co_await q->push(msg(i, val[i])); bd = ok ? 2 : 1; }
int main() { for (auto& v : val) v = vp_nondet("v", 32); vp_leak_begin(); { Q b(1); bool bp = vp_bool("b_pops"); if (bp) pop_(&b); else { CHECK(b.try_push(msg(2, val[2])), "room"); push_(&b, 1); } CHECK(bd == 0, "waits");
	{ Q a(std::move(b)); CHECK(bd == 0, "keeps waiting"); CHECK(b.empty() && b.size() == 0, "moved from");
	if (bp) { CHECK(a.try_emplace(1, val[1]), "served through the new queue"); CHECK(bd == 2 && bgot == 1, "gets the value"); } else { auto r = a.try_pop(); CHECK(r && r->id == 2 && r->v == val[2], "first"); CHECK(bd == 2, "there is room now"); CHECK(!a.try_push(msg(0, val[0])), "the capacity moved along"); r = a.try_pop(); CHECK(r && r->id == 1 && r->v == val[1], "second"); }
	} } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 7
// an element whose construction fails leaves the queue as it was
struct boom { int v; boom(int x, bool b) : v(x) { if (b) throw 1; } boom(boom&& o) noexcept : v(o.v) {} };
queue<boom>* q; int got; int gotv; co pop_() { auto r = co_await q->pop(); got++; if (r) gotv = r->v; }
int main() { queue<boom> qq(2); q = &qq; bool waiting = vp_bool("waiting"), first = vp_bool("first"); int v = vp_nondet("v", 16); vp_leak_begin(); if (waiting) pop_(); if (first && !waiting) CHECK(qq.try_emplace(v + 1, false), "room");
	bool thrown = false; try { (void)qq.try_emplace(v, true); } catch (int) { thrown = true; } CHECK(thrown, "the exception reaches the caller"); CHECK(got == 0, "nobody is resumed"); CHECK(qq.size() == (size_t)(first && !waiting), "nothing was added");
	CHECK(qq.try_emplace(v, false), "the queue still works"); if (waiting) CHECK(got == 1 && gotv == v, "and its waiters are still there"); else { if (first) (void)qq.try_pop(); auto r = qq.try_pop(); CHECK(r && r->v == v, "value"); } vp_reach("end"); return 0; }
#elif SCN == 8
struct disp : dispatcher { int pushed = 0; std::function<void()> fn; void push(std::function<void()> f) override { CHECK(!fn, "one callback at a time"); pushed++; fn = std::move(f); } void run() { auto f = std::move(fn); fn = nullptr; f(); } static void make_current(dispatcher* d) { dispatcher::current(d); } };
Q* q; int done; uint32_t val;
co popper(bool on, dispatcher* d) { auto a = q->pop(); if (on) a.resume_on(d); auto r = co_await a; CHECK(r && r->v == val, "intact"); done++; }
co pusher(bool on, dispatcher* d) { auto a = q->push(msg(0, val)); if (on) a.resume_on(d); co_await a; done++; }
int main() { val = vp_nondet("v", 32); disp cur, own, def; bool hasdef = vp_bool("default"), ispop = vp_bool("pop"), hascur = vp_bool("current"), on = vp_bool("resume_on"), null = vp_bool("null"); Q qq(1, hasdef ? &def : nullptr); q = &qq; vp_leak_begin();
	if (!ispop) CHECK(qq.try_push(msg(1, val)), "room"); if (hascur) disp::make_current(&cur); dispatcher* want = on ? (null ? nullptr : (dispatcher*)&own) : hascur ? &cur : nullptr; if (!want && hasdef) want = &def;
	if (ispop) popper(on, null ? nullptr : &own); else pusher(on, null ? nullptr : &own); CHECK(done == 0, "waits"); disp::make_current(nullptr);
	if (ispop) CHECK(qq.try_push(msg(0, val)), "served"); else CHECK(qq.try_pop().has_value(), "served");
	for (disp* d : {&cur, &own, &def}) CHECK(d->pushed == (d == want ? 1 : 0), "pushed to exactly the right dispatcher"); if (want) { CHECK(done == 0, "not inline"); ((disp*)want)->run(); } CHECK(done == 1, "resumed exactly once"); qq.clear(); vp_reach("end"); return 0; }
#elif SCN == 9
// a prepared queue (elements, waiting pushes or waiting pops), then every thread performs any one operation
constexpr int M = THREADS + 3; Q* q; uint32_t val[M]; vp_cell<int> sres[M], pres[M], got[M]; int ops[THREADS]; // results: 0 pending, 1 failed, 2 success
void take(std::optional<msg>& r) { CHECK(r->id >= 0 && r->id < M && r->v == val[r->id], "intact"); got[r->id].inc(); }
co popper(int i) { auto r = co_await q->pop(); CHECK(pres[i].inc(r ? 2 : 1) <= 2, "resumed once"); if (r) take(r); }
co pusher(int i) { bool ok = co_await q->push(msg(i, val[i])); CHECK(sres[i].inc(ok ? 2 : 1) <= 2, "resumed once"); }
void m(void* p) { int t = (int)(intptr_t)p, i = t + 3; switch (ops[t]) {
	case 0: popper(i); break; case 1: pusher(i); break;
	case 2: { auto r = q->try_pop(); if (r) take(r); pres[i].set(r ? 2 : 1); break; }
	case 3: sres[i].set(q->try_push(msg(i, val[i])) ? 2 : 1); break;
	case 4: sres[i].set(q->try_emplace(i, val[i]) ? 2 : 1); break; } }
int main() { for (auto& v : val) v = vp_nondet("v", 32); int cap = vp_range("capacity", 0, 2), pre = (int)vp_range("prepared", 0, 5) - 2; vp_assume(pre <= cap + 1); for (auto& o : ops) o = vp_range("op", 0, 4); Q qq(cap); q = &qq; vp_leak_begin();
	for (int i = 0; i < -pre; i++) popper(i); for (int i = 0; i < pre; i++) pusher(i);
	int t[THREADS]; for (int i = 0; i < THREADS; i++) t[i] = vp_spawn(m, (void*)(intptr_t)i); for (int i = 0; i < THREADS; i++) vp_join(t[i]); vp_point();
	int waitpop = 0, waitpush = 0, stored = 0; for (int i = 0; i < M; i++) { int o = i < 3 ? (i < -pre ? 0 : i < pre ? 1 : 9) : ops[i < 3 ? 0 : i - 3]; if (o == 0 && !pres[i].get()) waitpop++; if (o == 1 && !sres[i].get()) waitpush++; if (sres[i].get() == 2 && !got[i].get()) stored++; if (o == 1) CHECK(sres[i].get() != 1, "push() only fails if the queue is cleared"); if (o == 0) CHECK(pres[i].get() != 1, "pop() always delivers"); CHECK(got[i].get() <= 1 && !(sres[i].get() == 1 && got[i].get()), "no value is popped twice or after its push failed"); }
	CHECK(waitpop == 0 || (stored == 0 && waitpush == 0), "a pop() only waits while the queue is empty"); CHECK(waitpush == 0 || stored == cap, "a push() only waits while the queue is full"); CHECK(qq.size() == (size_t)(stored + waitpush), "size");
	for (int i = 0; i < stored + waitpush; i++) { auto r = qq.try_pop(); CHECK(r.has_value(), "nothing is lost"); take(r); } while (waitpop--) CHECK(qq.try_push(msg(0, val[0])), "served");
	for (int i = 3; i < M; i++) CHECK(got[i].get() == (sres[i].get() == 2 ? 1 : 0), "every value that was pushed is popped exactly once"); CHECK(qq.empty(), "empty"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
// whoever is resumed uses the queue again at once, from inside the call that resumed it
Q* q; uint32_t val[24]; int next, got, popended, pushended, failed; bool react;
void take(const msg& m) { CHECK(m.id == got && m.v == val[got], "every value once, in order"); got++; }
bool ending;
co popper(int n) { for (int i = 0; i < n; i++) { auto r = co_await q->pop(); if (ending) { CHECK(!r, "empty-handed"); co_return; } CHECK(r.has_value(), "pop() delivers"); take(*r); if (react) { size_t s = q->size(); CHECK(q->empty() == (s == 0), "consistent"); if (auto x = q->try_pop()) take(*x); } } popended++; }
co pusher(int n) { for (int i = 0; i < n; i++) { int id = next++; bool ok = co_await q->push(msg(id, val[id])); if (!ok) { failed++; break; } if (react) { int k = next++; if (!q->try_push(msg(k, val[k]))) next--; } } pushended++; }
int main() { for (auto& v : val) v = vp_nondet("v", 32); react = vp_bool("react"); bool loop_pops = vp_bool("loop_pops"); int cap = vp_bool("none") ? 0 : vp_bool("one") ? 1 : 2; vp_leak_begin(); { Q qq(cap); q = &qq; int pops = 0, pushes = 0; if (loop_pops) { popper(40); pops++; } else { pusher(6); pushes++; }
	for (int i = 0; i < OPS; i++) { vp_point(); switch (vp_range("op", 0, 3)) {
		case 0: if (loop_pops) { int id = next++; bool ok = vp_bool("emplace") ? qq.try_emplace(id, val[id]) : qq.try_push(msg(id, val[id])); CHECK(ok, "the waiting pop() takes it"); } else { size_t had = qq.size(); auto r = qq.try_pop(); CHECK(r.has_value() == (had > 0), "succeeds exactly if something is there"); /* the resumed pusher may have gone on */ if (r) take(*r); } break;
		case 1: if (loop_pops) { pusher(2); pushes++; } else { if (qq.size() >= 1) { popper(1); pops++; CHECK(popended == pops, "not waiting"); } } break;
		case 2: if (!loop_pops && qq.size() >= 2 && !react) { popper(2); pops++; CHECK(popended == pops, "not waiting"); } break;
		case 3: if (loop_pops) { qq.clear(); CHECK(popended == 0, "clear() does not disturb a waiting pop()"); } break; }
		if (loop_pops) { CHECK(qq.empty() && got == next && pushended == pushes, "taken at once"); } else { CHECK((int)qq.size() <= cap + 1 && got + (int)qq.size() == next, "nothing is lost"); CHECK(pushended == 1 || (int)qq.size() == cap + 1, "a push() waits only while the queue is full"); } }
	if (!loop_pops) { while (auto r = qq.try_pop()) take(*r); CHECK(pushended == 1 && got == next, "everything comes out"); } else { ending = true; Q fresh(1); qq = std::move(fresh); } }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
// moving a queue while another thread uses it
Q *qa, *qb; uint32_t val[6]; int how, op; vp_cell<int> got[6], ok[6];
void take(const msg& m) { CHECK(m.id >= 0 && m.id < 6 && m.v == val[m.id], "intact"); CHECK(got[m.id].inc() == 1, "once"); }
void use(void*) { Q& q = *qa; switch (op) { case 0: ok[2].set(q.try_push(msg(2, val[2]))); break; case 1: if (auto r = q.try_pop()) take(*r); break; case 2: { size_t n = q.size(); CHECK(n <= 3, "a size it had"); break; } case 3: (void)q.empty(); break; case 4: ok[2].set(q.try_emplace(2, val[2])); break; case 5: if (how == 1) { Q c(std::move(q)); while (auto r = c.try_pop()) take(*r); } else *qb = std::move(q); break; } }
void mv(void*) { if (how == 0) { Q c(std::move(*qa)); while (auto r = c.try_pop()) take(*r); } else if (how == 1) { *qb = std::move(*qa); } else *qa = std::move(*qb); }
int main() { for (auto& v : val) v = vp_nondet("v", 32); how = vp_bool("construct") ? 0 : vp_bool("assign_to") ? 1 : 2; op = vp_range("op", 0, 5); vp_max_trylock(2); vp_leak_begin(); { Q a(3), b(3); qa = &a; qb = &b; bool two = vp_bool("two"); CHECK(a.try_push(msg(0, val[0])), "room"); ok[0].set(1); if (two) { CHECK(a.try_push(msg(1, val[1])), "room"); ok[1].set(1); } if (how == 2) { CHECK(b.try_push(msg(3, val[3])), "room"); ok[3].set(1); }
	int x = vp_spawn(use, 0), y = vp_spawn(mv, 0); vp_join(x); vp_join(y); for (Q* q : {&a, &b}) while (auto r = q->try_pop()) take(*r);
	for (int i = 0; i < 6; i++) { CHECK(got[i].get() <= ok[i].get(), "only what was pushed comes out"); if (how != 2 && !(how == 1 && op == 5)) CHECK(got[i].get() == ok[i].get(), "nothing is lost"); } if (how == 2) CHECK(got[3].get() == 1 || op == 5, "the assigned elements are there"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 12
// move assignment: every waiter of the overwritten queue is resumed empty-handed where it asked to be; defaults and waiters move along, nothing of them stays behind
struct disp : dispatcher { int n = 0; std::function<void()> fn[4]; void push(std::function<void()> f) override { CHECK(n < 4, "room"); fn[n++] = std::move(f); } void run() { for (int i = 0; i < n; i++) { auto f = std::move(fn[i]); fn[i] = nullptr; f(); } n = 0; } };
uint32_t val[6]; int done[6], id[6];
co pop_(Q& q, int i, dispatcher* d) { auto r = co_await q.pop().resume_on(d); done[i] = r ? 2 : 1; if (r) { id[i] = r->id; CHECK(r->v == val[r->id], "intact"); } }
co push_(Q& q, int i, dispatcher* d) { bool ok = co_await q.push(msg(i, val[i])).resume_on(d); done[i] = ok ? 2 : 1; }
int main() { for (auto& v : val) v = vp_nondet("v", 32); disp own, da, db; bool defa = vp_bool("default_a"), defb = vp_bool("default_b"), ap = vp_bool("a_pops"), bp = vp_bool("b_pops"), on = vp_bool("own"), construct = vp_bool("construct"); { Q b(1, defb ? &db : nullptr); vp_leak_begin();
	if (!bp) CHECK(b.try_push(msg(4, val[4])), "room"); for (int i = 0; i < 2; i++) { if (bp) pop_(b, 2 + i, nullptr); else push_(b, 2 + i, nullptr); CHECK(done[2 + i] == 0, "waits"); }
	auto rest = [&](Q& a) { CHECK(done[2] == 0 && done[3] == 0 && db.n == 0, "the others keep waiting"); CHECK(b.empty() && b.size() == 0, "moved from"); bool stored = b.try_push(msg(5, val[5])); CHECK(stored, "the old queue can be used again"); CHECK(done[2] == 0 && done[3] == 0 && b.size() == 1, "its waiters moved away"); CHECK(b.try_pop().has_value() && b.empty(), "and it works"); CHECK(done[2] == 0 && done[3] == 0, "its waiters moved away");
		for (int i = 0; i < 2; i++) { if (bp) CHECK(a.try_push(msg(i, val[i])), "served"); else CHECK(a.try_pop().has_value(), "room"); if (defb) { CHECK(done[2 + i] == 0 && db.n == 1, "on the default dispatcher"); db.run(); } CHECK(done[2 + i] == 2, "served in order"); if (bp) CHECK(id[2 + i] == i, "with the value"); }
		a.clear(); done[4] = 0; pop_(a, 4, nullptr); CHECK(done[4] == 0, "waits"); CHECK(a.try_push(msg(0, val[0])), "served"); CHECK(da.n == 0 && db.n == (defb ? 1 : 0), "the default dispatcher moved along"); db.run(); CHECK(done[4] == 2, "served"); };
	if (construct) { Q a(std::move(b)); rest(a); } else { Q a(1, defa ? &da : nullptr); if (!ap) CHECK(a.try_push(msg(4, val[4])), "room"); for (int i = 0; i < 2; i++) { dispatcher* d = on && i == 0 ? &own : nullptr; if (ap) pop_(a, i, d); else push_(a, i, d); CHECK(done[i] == 0, "waits"); }
		a = std::move(b); CHECK(own.n == (on ? 1 : 0) && da.n == (defa ? on ? 1 : 2 : 0), "pushed to the dispatcher asked for, else to the default one"); CHECK(done[0] == (on || defa ? 0 : 1) && done[1] == (defa ? 0 : 1), "resumed at once without a dispatcher"); own.run(); da.run(); CHECK(done[0] == 1 && done[1] == 1, "resumed empty-handed"); rest(a); } }
	vp_reach("end"); vp_leak_check(); return 0; }
#endif
