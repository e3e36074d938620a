// Channels: values are handed over exactly once and in order (C09), closing releases everybody (C10).
//@ C09 one_writer_one_reader quick -DSCN=1 -DW=1 -DR=1 -DN=1
//@ C09 one_writer_one_reader_two_values quick -DSCN=1 -DW=1 -DR=1 -DN=2
//@ C09 two_writers_one_reader quick -DSCN=1 -DW=2 -DR=1 -DN=1
//@ C09 one_writer_two_readers quick -DSCN=1 -DW=1 -DR=2 -DN=1
//@ C09 two_writers_two_readers thorough -DSCN=1 -DW=2 -DR=2 -DN=1
//@ C09 three_values thorough -DSCN=1 -DW=1 -DR=1 -DN=3
//@ C09 try_read_vs_write quick -DSCN=2 -DTRYREAD=1
//@ C09 try_write_vs_read quick -DSCN=2 -DTRYREAD=0
//@ C09 history quick -DSCN=3 -DOPS=4
//@ C09 history_deep thorough -DSCN=3 -DOPS=6
//@ C09 loops quick -DSCN=8 -DOPS=5
//@ C09 dispatchers quick -DSCN=5
//@ C09 any_two quick -DSCN=7 -DTHREADS=2 -DCLOSING=0
//@ C09 any_three quick -DSCN=7 -DTHREADS=3 -DCLOSING=0
//@ C10 any_two quick -DSCN=7 -DTHREADS=2 -DCLOSING=1
//@ C10 any_three quick -DSCN=7 -DTHREADS=3 -DCLOSING=1
//@ C10 close_vs_reader quick -DSCN=4 -DW=0 -DR=1
//@ C10 close_vs_writer quick -DSCN=4 -DW=1 -DR=0
//@ C10 close_vs_both quick -DSCN=4 -DW=1 -DR=1
//@ C10 close_vs_two_writers_one_reader thorough -DSCN=4 -DW=2 -DR=1
//@ C10 close_vs_one_writer_two_readers thorough -DSCN=4 -DW=1 -DR=2
//@ C10 two_closes quick -DSCN=4 -DW=1 -DR=1 -DCLOSES=2
//@ C10 loops quick -DSCN=8 -DOPS=5
//@ C10 close_vs_try quick -DSCN=6
//@ C10 history quick -DSCN=3 -DOPS=4
//@ C10 history_deep thorough -DSCN=3 -DOPS=6
#include "common.h"
#include <asyncpp/channel.h>
#include <asyncpp/dispatcher.h>
using namespace asyncpp;
#ifndef CLOSES
#define CLOSES 1
#endif
struct msg { // move only; a moved-from message carries nothing
	int id; uint32_t v; msg(int i, uint32_t x) : id(i), v(x) {} msg(msg&& o) noexcept : id(o.id), v(o.v) { o.id = -1; } msg& operator=(msg&& o) noexcept { id = o.id; v = o.v; o.id = -1; return *this; } };
typedef channel<msg> chan;
#if SCN == 1
// W writers of N values each, R readers that together read exactly as many
chan& c = vp_own<chan>(); uint32_t val[W * N]; vp_cell<int> got[W * N], wrote, nread; constexpr int PER = W * N / R + (W * N % R ? 1 : 0);
co writer(int w) { for (int i = 0; i < N; i++) { bool ok = co_await c.write(msg(w * N + i, val[w * N + i])); CHECK(ok, "write() returns true for a received value"); wrote.inc(); } }
co reader(int n) { int last = -1; for (int i = 0; i < n; i++) { auto r = co_await c.read(); CHECK(r.has_value(), "an open channel delivers"); CHECK(r->id >= 0 && r->id < W * N, "a value that was written"); CHECK(r->v == val[r->id], "arrives intact"); if (W == 1) { CHECK(r->id > last, "in the order written"); last = r->id; } got[r->id].inc(); nread.inc(); } }
void wm(void* p) { writer((int)(intptr_t)p); }
void rm(void* p) { reader((int)(intptr_t)p); }
int main() { for (auto& v : val) v = vp_nondet("v", 32); vp_leak_begin(); int t[8], n = 0, left = W * N; for (int i = 0; i < W; i++) t[n++] = vp_spawn(wm, (void*)(intptr_t)i); for (int i = 0; i < R; i++) { int k = left < PER ? left : PER; left -= k; t[n++] = vp_spawn(rm, (void*)(intptr_t)k); }
	for (int i = 0; i < n; i++) vp_join(t[i]); 
	CHECK(nread.get() == W * N || R > 1, "all read");
	if (R > W * N) c.close(); else { for (auto& g : got) CHECK(g.get() == 1, "every value received exactly once"); CHECK(wrote.get() == W * N, "every writer resumed"); }
	vp_observe("n", nread.get()); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
chan& c = vp_own<chan>(); uint32_t val; vp_cell<int> result, done; // the trying side may or may not find the other one
co waiting() { if (TRYREAD) { bool ok = co_await c.write(msg(0, val)); result.set(ok ? 2 : 1); } else { auto r = co_await c.read(); if (r) CHECK(r->v == val && r->id == 0, "arrives intact"); result.set(r ? 2 : 1); } done.inc(); }
vp_cell<int> tried;
void a(void*) { waiting(); }
void b(void*) { if (TRYREAD) { auto r = c.try_read(); if (r) CHECK(r->id == 0 && r->v == val, "arrives intact"); tried.set(r ? 2 : 1); } else tried.set(c.try_write(msg(0, val)) ? 2 : 1); }
int main() { val = vp_nondet("v", 32); vp_leak_begin(); int x = vp_spawn(a, 0), y = vp_spawn(b, 0); vp_join(x); vp_join(y);
	CHECK((tried.get() == 2) == (done.get() == 1), "the attempt succeeds exactly if the waiting side was served"); if (done.get()) { CHECK(result.get() == 2, "the waiting side sees success"); vp_reach("met"); } else { c.close(); CHECK(done.get() == 1 && result.get() == 1, "closing releases it empty-handed"); vp_reach("missed"); }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// every sequence of OPS operations against a model of two waiting lists
chan* c; uint32_t val[OPS]; int rdone[OPS], rgot[OPS], wdone[OPS]; // 0 pending, 1 failed/closed, 2 success
co reader(int i) { auto r = co_await c->read(); rdone[i] = r ? 2 : 1; if (r) { rgot[i] = r->id; CHECK(r->id >= 0 && r->v == val[r->id], "arrives intact"); } }
co writer(int i) { bool ok = co_await c->write(msg(i, val[i])); wdone[i] = ok ? 2 : 1; }
int main() { for (auto& v : val) v = vp_nondet("v", 32); for (auto& g : rgot) g = -1; { chan ch; c = &ch; vp_leak_begin(); bool closed = false; int rq[OPS], rh = 0, rt_ = 0, wq[OPS], wh = 0, wt = 0, ers[OPS] = {}, erg[OPS], ews[OPS] = {}; for (auto& g : erg) g = -1;
	for (int i = 0; i < OPS; i++) { vp_point();
		switch (vp_range("op", 0, 4)) {
		case 0: if (closed) ers[i] = 1; else if (wh < wt) { ers[i] = 2; erg[i] = wq[wh]; ews[wq[wh++]] = 2; } else rq[rt_++] = i; reader(i); break;
		case 1: if (closed) ews[i] = 1; else if (rh < rt_) { ers[rq[rh]] = 2; erg[rq[rh++]] = i; ews[i] = 2; } else wq[wt++] = i; writer(i); break;
		case 2: { auto r = ch.try_read(); bool want = !closed && wh < wt; CHECK(r.has_value() == want, "try_read succeeds exactly if a writer waits"); if (r) { CHECK(r->id == wq[wh] && r->v == val[wq[wh]], "the oldest waiting writer's value"); ews[wq[wh++]] = 2; } break; }
		case 3: { bool want = !closed && rh < rt_; bool ok = ch.try_write(msg(i, val[i])); CHECK(ok == want, "try_write succeeds exactly if a reader waits"); if (ok) { ers[rq[rh]] = 2; erg[rq[rh++]] = i; } break; }
		case 4: ch.close(); if (!closed) { closed = true; while (rh < rt_) ers[rq[rh++]] = 1; while (wh < wt) ews[wq[wh++]] = 1; } break;
		}
		CHECK(ch.is_closed() == closed, "is_closed");
		for (int k = 0; k <= i; k++) { CHECK(rdone[k] == ers[k], "reads complete exactly when they should"); CHECK(rgot[k] == erg[k], "readers are served in order, with the values in the order written"); CHECK(wdone[k] == ews[k], "write() reports whether the value was received"); } }
	ch.close(); }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
// close() concurrent with readers and writers: everybody resumes, and every value is either received by one reader with write() true or by nobody with write() false
chan& c = vp_own<chan>(); uint32_t val[W + 1]; vp_cell<int> rdone[R + 1], rgot[R + 1], wdone[W + 1];
co writer(int w) { bool ok = co_await c.write(msg(w, val[w])); CHECK(wdone[w].inc(ok ? 2 : 1) <= 2, "resumed once"); }
co reader(int i) { auto r = co_await c.read(); CHECK(rdone[i].inc(r ? 2 : 1) <= 2, "resumed once"); if (r) { CHECK(r->id >= 0 && r->id < W && r->v == val[r->id], "arrives intact"); rgot[i].set(r->id + 1); } }
void wm(void* p) { writer((int)(intptr_t)p); }
void rm(void* p) { reader((int)(intptr_t)p); }
void cm(void*) { c.close(); CHECK(c.is_closed(), "closed after close()"); }
int main() { for (auto& v : val) v = vp_nondet("v", 32); vp_leak_begin(); int t[8], n = 0; for (int i = 0; i < W; i++) t[n++] = vp_spawn(wm, (void*)(intptr_t)i); for (int i = 0; i < R; i++) t[n++] = vp_spawn(rm, (void*)(intptr_t)i); for (int i = 0; i < CLOSES; i++) t[n++] = vp_spawn(cm, 0);
	for (int i = 0; i < n; i++) vp_join(t[i]);
	for (int i = 0; i < R; i++) CHECK(rdone[i].get() != 0, "every reader is resumed once the channel is closed");
	for (int i = 0; i < W; i++) { CHECK(wdone[i].get() != 0, "every writer is resumed once the channel is closed"); int k = 0; for (int j = 0; j < R; j++) if (rgot[j].get() == i + 1) k++; CHECK(k <= 1 && (wdone[i].get() == 2) == (k == 1), "write() returns true exactly if a reader received the value"); }
	CHECK(!c.try_read() && !c.try_write(msg(9, 0)), "nothing succeeds on a closed channel"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
// where the waiting side resumes
struct disp : dispatcher { int pushed = 0; std::function<void()> fn; void push(std::function<void()> f) override { CHECK(!fn, "one callback at a time"); pushed++; fn = std::move(f); } void run() { auto f = std::move(fn); fn = nullptr; f(); } static void make_current(dispatcher* d) { dispatcher::current(d); } };
chan* c; int done; uint32_t val;
co reader(int mode, dispatcher* d) { if (mode == 2) { auto r = co_await c->read().resume_on(d); CHECK(!r || r->v == val, "intact"); } else { auto r = co_await c->read(); CHECK(!r || r->v == val, "intact"); } done++; }
co writer(int mode, dispatcher* d) { if (mode == 2) co_await c->write(msg(0, val)).resume_on(d); else co_await c->write(msg(0, val)); done++; }
int main() { chan ch; c = &ch; val = vp_nondet("v", 32); disp cur, own, other; vp_leak_begin(); bool isread = vp_bool("read"), hascur = vp_bool("current"), on = vp_bool("resume_on"), null = vp_bool("null"), othercur = vp_bool("other"); int how = vp_range("how", 0, 2);
	if (hascur) disp::make_current(&cur); dispatcher* want = on ? (null ? nullptr : (dispatcher*)&own) : hascur ? &cur : nullptr;
	if (isread) reader(on ? 2 : 0, null ? nullptr : &own); else writer(on ? 2 : 0, null ? nullptr : &own); CHECK(done == 0, "waits");
	disp::make_current(othercur ? &other : nullptr);
	if (how == 0) ch.close(); else if (how == 1) { if (isread) CHECK(ch.try_write(msg(0, val)), "served"); else CHECK(ch.try_read().has_value(), "served"); } else { if (isread) writer(0, nullptr); else reader(0, nullptr); }
	for (disp* d : {&cur, &own, &other}) CHECK(d->pushed == (d == want ? 1 : 0), "pushed to exactly the right dispatcher");
	if (want) { CHECK(done == (how == 2 ? 1 : 0), "not resumed inline"); ((disp*)want)->run(); }
	CHECK(done == (how == 2 ? 2 : 1), "resumed exactly once"); disp::make_current(nullptr); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
// close() against the non-suspending operations while a reader or a writer waits
chan& c = vp_own<chan>(); uint32_t val; vp_cell<int> res, tried; bool isread;
co waiter() { if (isread) { auto r = co_await c.read(); res.inc(r ? 2 : 1); } else { bool ok = co_await c.write(msg(0, val)); res.inc(ok ? 2 : 1); } }
void a(void*) { if (isread) tried.set(c.try_write(msg(0, val)) ? 2 : 1); else { auto r = c.try_read(); tried.set(r ? 2 : 1); if (r) CHECK(r->v == val, "arrives intact"); } }
void b(void*) { c.close(); }
int main() { val = vp_nondet("v", 32); isread = vp_bool("read"); vp_leak_begin(); waiter(); int x = vp_spawn(a, 0), y = vp_spawn(b, 0); vp_join(x); vp_join(y); CHECK(res.get() == tried.get(), "the waiting side and the attempt agree, and the waiting side resumed exactly once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 7
// up to two readers or writers wait, then every thread performs any one operation
constexpr int M = THREADS + 2; chan c; uint32_t val[M]; vp_cell<int> wres[M], rres[M], got[M]; int ops[THREADS]; // results: 0 pending, 1 failed, 2 success
co reader(int i) { auto r = co_await c.read(); CHECK(rres[i].inc(r ? 2 : 1) <= 2, "resumed once"); if (r) { CHECK(r->id >= 0 && r->id < M && r->v == val[r->id], "arrives intact"); got[r->id].inc(); } }
co writer(int i) { bool ok = co_await c.write(msg(i, val[i])); CHECK(wres[i].inc(ok ? 2 : 1) <= 2, "resumed once"); }
void m(void* p) { int t = (int)(intptr_t)p, i = t + 2; switch (ops[t]) {
	case 0: reader(i); break; case 1: writer(i); break;
	case 2: { auto r = c.try_read(); if (r) { CHECK(r->id >= 0 && r->id < M && r->v == val[r->id], "arrives intact"); got[r->id].inc(); } rres[i].set(r ? 2 : 1); break; }
	case 3: wres[i].set(c.try_write(msg(i, val[i])) ? 2 : 1); break;
	case 4: c.close(); CHECK(c.is_closed(), "closed after close()"); break; } }
int main() { for (auto& v : val) v = vp_nondet("v", 32); int pre = vp_range("waiting", 0, 2); bool rd = vp_bool("readers_wait"), cl = false; int nr = 0, nw = 0; for (auto& o : ops) { o = vp_range("op", 0, CLOSING ? 4 : 3); if (o == 4) cl = true; } if (CLOSING) vp_assume(cl); vp_leak_begin();
	for (int i = 0; i < pre; i++) if (rd) reader(i); else writer(i);
	int t[THREADS]; for (int i = 0; i < THREADS; i++) t[i] = vp_spawn(m, (void*)(intptr_t)i); for (int i = 0; i < THREADS; i++) vp_join(t[i]); vp_point();
	for (int i = 0; i < M; i++) { bool isr = i < 2 ? (rd && i < pre) : (ops[i < 2 ? 0 : i - 2] == 0), isw = i < 2 ? (!rd && i < pre) : (ops[i < 2 ? 0 : i - 2] == 1); if (isr && !rres[i].get()) nr++; if (isw && !wres[i].get()) nw++; }
	CHECK(nr == 0 || nw == 0, "no reader and writer wait for each other"); if (cl) CHECK(nr == 0 && nw == 0, "nobody waits on a closed channel");
	c.close(); int nread = 0, nwrote = 0; for (int i = 0; i < M; i++) { CHECK(got[i].get() == (wres[i].get() == 2 ? 1 : 0), "a value is received exactly once if its write succeeded and never if it failed"); if (rres[i].get() == 2) nread++; if (wres[i].get() == 2) nwrote++; }
	CHECK(nread == nwrote, "as many reads as writes"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 8
// whoever is resumed uses the channel again at once, from inside the call that resumed it
chan* c; uint32_t val[16]; int next, got, failed, ended; bool react;
co reader(int n) { for (int i = 0; i < n; i++) { auto r = co_await c->read(); if (!r) { CHECK(c->is_closed(), "nothing is read only from a closed channel"); failed++; auto again = co_await c->read(); CHECK(!again && !c->try_read(), "and it stays like that"); break; } CHECK(r->id == got && r->v == val[got], "every value once, in the order written"); got++; if (react) { CHECK(!c->try_write(msg(-2, 0)), "nobody else is waiting"); CHECK(c->is_closed() == false, "still open"); } } ended++; }
co writer(int n) { for (int i = 0; i < n; i++) { int id = next++; bool ok = co_await c->write(msg(id, val[id])); if (!ok) { CHECK(c->is_closed(), "refused only by a closed channel"); next = id; failed++; bool again = co_await c->write(msg(-2, 0)); CHECK(!again && !c->try_write(msg(-2, 0)), "and it stays like that"); break; } } ended++; }
int main() { for (auto& v : val) v = vp_nondet("v", 32); react = vp_bool("react"); bool loop_reads = vp_bool("loop_reads"); { chan ch; c = &ch; vp_leak_begin(); bool closed = false; int started = 1, n = 0; if (loop_reads) reader(100); else writer(5);
	for (int i = 0; i < OPS; i++) { vp_point(); switch (vp_range("op", 0, 2)) {
		case 0: if (loop_reads) { int id = next++; bool ok = ch.try_write(msg(id, val[id])); CHECK(ok == !closed, "the waiting reader takes it"); if (!ok) next--; else n++; } else { auto r = ch.try_read(); bool want = !closed && got < 5; CHECK(r.has_value() == want, "the waiting writer offers it"); if (r) { CHECK(r->id == got && r->v == val[got], "in order"); got++; n++; } } break;
		case 1: { int k = vp_bool("two") ? 2 : 1; started++; if (loop_reads) { writer(k); if (!closed) n += k; } else { reader(k); if (!closed) n = n + k > 5 ? 5 : n + k; } break; }
		case 2: ch.close(); closed = true; break; }
		CHECK(got == n, "received at once whatever both sides are ready for"); }
	ch.close(); CHECK(ended == started, "closing ends every loop"); CHECK(got == n, "nothing is received from a closed channel"); }
	vp_reach("end"); vp_leak_check(); return 0; }
#endif
