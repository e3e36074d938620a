// Signals (C35) and the signal manager (C36).
//@ C35 history quick -DSCN=1 -DOPS=4 -DNEST=2 -DMOVE=0
//@ C35 history_move quick -DSCN=1 -DOPS=4 -DNEST=1 -DMOVE=1
//@ C35 history_deep thorough -DSCN=1 -DOPS=5 -DNEST=2 -DMOVE=0 -- --mem 9000
//@ C35 nested quick -DSCN=1 -DOPS=1 -DPRE=3 -DNEST=3 -DMOVE=0
//@ C35 nested_deep thorough -DSCN=1 -DOPS=1 -DPRE=3 -DNEST=4 -DMOVE=0 -- --mem 9000
//@ C35 two_threads quick -DSCN=2 -DTH=2 -DPRE=2 -- --preempt 4
//@ C35 three_threads quick -DSCN=2 -DTH=3 -DPRE=2 -- --preempt 2
//@ C35 three_threads_deep thorough -DSCN=2 -DTH=3 -DPRE=3 -- --preempt 3 --mem 9000
//@ C35 functors quick -DSCN=3
//@ C36 history quick -DSCN=4 -DOPS=4 -DNEST=1 -DMOVE=0
//@ C36 history_move quick -DSCN=4 -DOPS=3 -DNEST=1 -DMOVE=1
//@ C36 history_deep thorough -DSCN=4 -DOPS=4 -DNEST=2 -DMOVE=0 -- --mem 9000
//@ C36 two_threads quick -DSCN=5 -DTH=2 -- --preempt 4
//@ C36 three_threads quick -DSCN=5 -DTH=3 -- --preempt 3
//@ C36 three_threads_deep thorough -DSCN=5 -DTH=3 -- --preempt 5 --mem 9000
//@ C35 move_vs_use quick -DSCN=6 -DMAN=0
//@ C35 assign_over quick -DSCN=7 -DMAN=0
//@ C36 move_vs_use quick -DSCN=6 -DMAN=1
//@ C36 assign_over quick -DSCN=7 -DMAN=1
#include "common.h"
#include <asyncpp/signal.h>
#include <optional>
using namespace asyncpp;
#ifndef PRE
#define PRE 0
#endif
#if SCN == 1
// every history of OPS operations, the callbacks performing NEST further ones
constexpr int K = OPS + NEST + PRE + 1;
typedef signal<void(uint32_t)> S;
struct frame { int snap[K]; int n = 0, pos = 0, cnt = 0; uint32_t v; };
S* sig; frame fr[NEST + 2]; int depth; int list[K], ln; bool on[K], have[K]; int made, budget = NEST; signal_handle h[K];
void op(int o); 
void called(int id, uint32_t v) {
	frame& f = fr[depth - 1]; while (f.pos < f.n && !on[f.snap[f.pos]]) f.pos++;
	CHECK(f.pos < f.n, "no callback is invoked that was not connected when the invocation began, or not any more"); CHECK(f.snap[f.pos] == id, "callbacks are invoked in list order, each once"); CHECK(v == f.v, "with the argument"); f.pos++; f.cnt++;
	while (budget > 0) { int o = vp_range("nested", 0, 6); if (o >= 6) break; budget--; op(o); vp_point(); }
}
struct fn { int id; void operator()(uint32_t v) { called(id, v); } };
int pick() { if (!made) vp_assume(0); return vp_range("which", 0, made - 1); }
void op(int o) {
	switch (o) {
	case 0: { int id = made++; h[id] = sig->append(fn{id}); have[id] = on[id] = true; list[ln++] = id; CHECK(h[id].valid() && sig->owns_handle(h[id]), "a connected callback has a valid handle"); break; }
	case 1: { int id = made++; h[id] = sig->prepend(fn{id}); have[id] = on[id] = true; for (int i = ln++; i > 0; i--) list[i] = list[i - 1]; list[0] = id; CHECK(h[id].valid() && sig->owns_handle(h[id]), "a connected callback has a valid handle"); break; }
	case 2: { int k = pick(); bool r = sig->remove(h[k]); if (!have[k]) CHECK(!r, "an empty handle is nobody's"); else if (on[k]) CHECK(r, "a connected callback can be removed"); if (have[k]) on[k] = false; CHECK(!h[k].valid() && !sig->owns_handle(h[k]), "a removed callback's handle is not valid"); break; }
	case 3: { int k = pick(); if (have[k]) on[k] = false; have[k] = false; if (k & 1) { scoped_signal_handle s(std::move(h[k])); h[k] = signal_handle{}; } else h[k].disconnect(); CHECK(!h[k].valid() && !h[k], "a disconnected handle is not valid"); break; }
	case 4: { if (depth > NEST) vp_assume(0); frame& f = fr[depth++]; f = frame{}; for (int i = 0; i < ln; i++) if (on[list[i]]) f.snap[f.n++] = list[i]; f.v = vp_nondet("arg", 32); size_t r = (*sig)(f.v); CHECK(r == (size_t)f.cnt, "the number of callbacks invoked is returned"); while (f.pos < f.n) CHECK(!on[f.snap[f.pos++]], "every callback that stays connected is invoked"); depth--; break; }
	case 5: { int k = pick(); h[k] = signal_handle{}; have[k] = false; break; } // dropping the handle does not disconnect
	case 6: { S n(std::move(*sig)); CHECK(sig->empty() && (*sig)(1) == 0, "a moved-from signal is empty"); sig->append(fn{0}); *sig = std::move(n); CHECK(n.empty(), "a moved-from signal is empty"); break; }
	}
}
int main() { vp_leak_begin(); { S s; sig = &s; for (int i = 0; i < PRE; i++) op(0);
	for (int i = 0; i < OPS; i++) { vp_point(); if (PRE) op(4); else op(vp_range("op", 0, MOVE ? 6 : 5)); size_t n = 0; for (int k = 0; k < made; k++) { n += on[k]; if (have[k]) CHECK(h[k].valid() == on[k] && sig->owns_handle(h[k]) == on[k], "handles stay valid exactly while connected"); } CHECK(s.size() == n && s.empty() == !n, "size"); }
	budget = 0; op(4); } for (int i = 0; i < K; i++) h[i] = signal_handle{}; vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
// PRE callbacks and TH threads, each performing one operation
typedef signal<void(int)> S; constexpr int K = PRE + TH;
S* sig; signal_handle h[K]; vp_cell<int> calls[TH + 1][K], last[TH + 1], gone[K], off[K], there[K];
void body(int id, int inv) { if (id < PRE) CHECK(last[inv].get() < id + 1, "in order"); last[inv].set(id + 1); calls[inv][id].inc(); }
struct fn { int id; void operator()(int inv) { body(id, inv); } };
void invoke(int inv) {
	int was[K], in[K]; for (int i = 0; i < K; i++) { was[i] = gone[i].get(); in[i] = there[i].get(); }
	size_t r = (*sig)(inv); size_t n = 0;
	for (int i = 0; i < K; i++) { int c = calls[inv][i].get(); n += c; if (was[i]) CHECK(c == 0, "not invoked after it was removed"); if (in[i] && !off[i].get()) CHECK(c == 1, "every connected callback is invoked once"); }
	CHECK(r == n, "the number of callbacks invoked is returned");
}
void thr(void* p) { int t = (int)(intptr_t)p; switch (TH == 3 && t == 0 ? 4 : TH == 3 ? vp_range("op", 0, 3) : vp_range("op", 0, 5)) {
	case 0: { int k = PRE + t; h[k] = sig->append(fn{k}); there[k].set(1); break; }
	case 1: { off[0].set(1); sig->remove(h[0]); gone[0].set(1); break; }
	case 2: { off[1].set(1); sig->remove(h[1]); gone[1].set(1); break; }
	case 3: { off[0].set(1); { signal_handle x = h[0]; x.disconnect(); } gone[0].set(1); break; }
	case 4: invoke(t); break;
	case 5: { CHECK(sig->size() <= K, "size"); (void)sig->owns_handle(h[1]); break; } } }
int main() { vp_fast_locks(1); vp_max_trylock(-1); vp_leak_begin(); { S s; sig = &s; for (int i = 0; i < PRE; i++) { h[i] = s.append(fn{i}); there[i].set(1); } int t[TH]; for (int i = 0; i < TH; i++) t[i] = vp_spawn(thr, (void*)(intptr_t)i); for (int i = 0; i < TH; i++) vp_join(t[i]);
	last[TH].set(-1); int seen = 0; for (int i = 0; i < K; i++) seen += there[i].get() && !gone[i].get(); CHECK(s.size() == (size_t)seen, "size counts the connected callbacks");
	// callbacks appended concurrently are in either order: only count them
	for (int i = PRE; i < K; i++) if (h[i]) CHECK(s.owns_handle(h[i]), "connected");
	} for (auto& x : h) x = signal_handle{}; vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// kinds of callables, and callables whose destructor uses the signal
typedef signal<void(int&, const int&)> S; S* sig; int dead;
struct owner { signal_handle* other; bool armed = true; owner(signal_handle* o) : other(o) {} owner(owner&& o) noexcept : other(o.other), armed(o.armed) { o.armed = false; } ~owner() { if (armed) { dead++; sig->remove(*other); *other = signal_handle{}; (void)sig->size(); } } void operator()(int& x, const int& y) { x += y; } };
void plain(int& x, const int& y) { x += 10 * y; }
int main() { vp_leak_begin(); { S s; sig = &s; auto lam = [n = 0](int& x, const int& y) mutable { n++; x += 100 * n * y; };
	auto a = s.append(lam), b = s.append(plain), c = s.prepend(lam); auto d = s += &plain; int x = 0, y = vp_range("y", 0, 1000); CHECK(s(x, y) == 4, "four callbacks"); CHECK(x == 220 * y, "all called, with the very argument"); CHECK(s(x, y) == 4 && x == 640 * y, "callables keep their state; lvalues are copied");
	auto e = s.append(owner(&a)); signal_handle e2 = e; bool viaRemove = vp_bool("remove"); if (viaRemove) { s.remove(e); } else e.disconnect(); if (vp_bool("drop_first")) { e = e2 = signal_handle{}; } x = 0; size_t want = 3 + (dead == 0); size_t r = s(x, y); CHECK(r == 3 || r == 4, "removed ones are not called"); e = e2 = signal_handle{}; CHECK(dead == 1, "a removed callable is destroyed once nobody refers to it"); CHECK(s.size() == 3 && !s.owns_handle(a), "its destructor may use the signal");
	} vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
// the manager: every history on two events, the callbacks performing NEST further operations
constexpr int K = OPS + NEST + 1; typedef signal_manager<int, void(int, uint32_t)> M;
struct frame { int snap[K]; int n = 0, pos = 0, cnt = 0, e; uint32_t v; };
M* mgr; frame fr[NEST + 2]; int depth; int list[2][K], ln[2]; bool on[K], slot[2]; int ev[K], made, budget = NEST; signal_handle h[K];
void op(int o); int event() { if (vp_bool("event")) return 7; return 5; }
void called(int id, int e, uint32_t v) {
	frame& f = fr[depth - 1]; while (f.pos < f.n && !on[f.snap[f.pos]]) f.pos++;
	CHECK(f.pos < f.n, "no callback is invoked that was not connected when the invocation began, or not any more"); CHECK(f.snap[f.pos] == id, "callbacks of this event are invoked in list order, each once"); CHECK(v == f.v && e == f.e, "with the arguments"); f.pos++; f.cnt++;
	while (budget > 0) { int o = vp_range("nested", 0, 6); if (o >= 6) break; budget--; op(o); vp_point(); }
}
struct fn { int id; void operator()(int e, uint32_t v) { called(id, e, v); } };
int pick() { if (!made) vp_assume(0); return vp_range("which", 0, made - 1); }
void op(int o) {
	switch (o) {
	case 0: { int e = event(), x = e == 7, id = made++; h[id] = mgr->append(e, fn{id}); on[id] = true; ev[id] = e; list[x][ln[x]++] = id; slot[x] = true; break; }
	case 1: { int e = event(), x = e == 7, id = made++; h[id] = mgr->prepend(e, fn{id}); on[id] = true; ev[id] = e; for (int i = ln[x]++; i > 0; i--) list[x][i] = list[x][i - 1]; list[x][0] = id; slot[x] = true; break; }
	case 2: { int k = pick(); bool r = mgr->remove(ev[k], h[k]); if (on[k]) CHECK(r, "a connected callback can be removed"); on[k] = false; break; }
	case 3: { int k = pick(); { scoped_signal_handle c = h[k]; } on[k] = false; break; }
	case 4: { if (depth > NEST) vp_assume(0); int e = event(), x = e == 7; frame& f = fr[depth++]; f = frame{}; for (int i = 0; i < ln[x]; i++) if (on[list[x][i]]) f.snap[f.n++] = list[x][i]; f.v = vp_nondet("arg", 32); f.e = e; size_t r = x ? mgr->invoke(e, e, f.v) : (*mgr)(e, e, f.v); CHECK(r == (size_t)f.cnt, "the number of callbacks invoked is returned"); while (f.pos < f.n) CHECK(!on[f.snap[f.pos++]], "every callback that stays connected is invoked"); depth--; break; }
	case 5: { size_t want = 0; for (int x = 0; x < 2; x++) if (slot[x]) { bool used = false; for (int i = 0; i < ln[x]; i++) used |= on[list[x][i]]; for (int d = 0; d < depth; d++) used |= (fr[d].e == 7) == x; if (!used) { want++; slot[x] = false; } } CHECK(mgr->shrink_to_fit() == want, "exactly the events without callbacks are dropped"); break; }
#if MOVE
	case 6: { M n(std::move(*mgr)); CHECK((*mgr)(5, 5, 0) == 0 && (*mgr)(7, 7, 0) == 0 && mgr->shrink_to_fit() == 0, "a moved-from manager is empty"); *mgr = std::move(n); CHECK(n.shrink_to_fit() == 0, "a moved-from manager is empty"); break; }
#endif
	}
}
int main() { vp_leak_begin(); { M m; mgr = &m;
	for (int i = 0; i < OPS; i++) { vp_point(); op(vp_range("op", 0, MOVE ? 6 : 5)); for (int k = 0; k < made; k++) { CHECK(h[k].valid() == on[k] && m.owns_handle(ev[k], h[k]) == on[k], "handles belong to their event while connected"); CHECK(!m.owns_handle(12 - ev[k], h[k]), "and to no other"); } }
	budget = 0; op(4); } for (int i = 0; i < K; i++) h[i] = signal_handle{}; vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
// one callback of one event and TH threads, each performing one operation
typedef signal_manager<int, void(int)> M; constexpr int K = 1 + TH;
M* mgr; signal_handle h[K]; int ev[K]; vp_cell<int> calls[TH + 1][K], gone[K], off[K], there[K];
struct fn { int id; void operator()(int inv) { calls[inv][id].inc(); } };
void invoke(int inv, int e) {
	int was[K], in[K]; for (int i = 0; i < K; i++) { was[i] = gone[i].get(); in[i] = there[i].get(); }
	size_t r = mgr->invoke(e, inv), n = 0;
	for (int i = 0; i < K; i++) { int c = calls[inv][i].get(); n += c; CHECK(c <= 1, "at most once"); if (was[i] || (in[i] && ev[i] != e)) CHECK(c == 0, "not invoked after it was removed, nor for another event"); if (in[i] && !off[i].get() && ev[i] == e) CHECK(c == 1, "every connected callback of the event is invoked"); }
	CHECK(r == n, "the number of callbacks invoked is returned");
}
void thr(void* p) { int t = (int)(intptr_t)p, k = 1 + t; int o; if (TH < 3) o = vp_range("op", 0, 4); else if (t == 0) { o = vp_bool("op") ? 4 : 0; } else if (t == 1) o = 3; else o = vp_range("op", 1, 2);
	switch (o) {
	case 0: ev[k] = 5; h[k] = mgr->append(5, fn{k}); there[k].set(1); break;
	case 1: ev[k] = 7; h[k] = mgr->append(7, fn{k}); there[k].set(1); break;
	case 2: off[0].set(1); mgr->remove(5, h[0]); gone[0].set(1); break;
	case 3: mgr->shrink_to_fit(); break;
	case 4: if (vp_bool("event")) invoke(t, 5); else invoke(t, 7); break; } }
int main() { vp_fast_locks(1); vp_max_trylock(-1); vp_leak_begin(); { M m; mgr = &m; h[0] = m.append(5, fn{0}); ev[0] = 5; there[0].set(1); int t[TH]; for (int i = 0; i < TH; i++) t[i] = vp_spawn(thr, (void*)(intptr_t)i); for (int i = 0; i < TH; i++) vp_join(t[i]);
	size_t n[2] = {}; for (int i = 0; i < K; i++) if (there[i].get() && !gone[i].get()) { CHECK(m.owns_handle(ev[i], h[i]), "still connected"); n[ev[i] == 7]++; } CHECK(m(5, TH) == n[0] && m(7, TH) == n[1], "exactly the connected callbacks are invoked"); for (int i = 0; i < K; i++) CHECK(calls[TH][i].get() == (there[i].get() && !gone[i].get()), "each once");
	} for (auto& x : h) x = signal_handle{}; vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
// one thread moves a signal (manager) into a new one or over another one while another thread uses one of the two
#if MAN
typedef signal_manager<int, void(int)> S;
#define EV 5,
#define NOW(s) (s)(5, TH)
#else
typedef signal<void(int)> S;
#define EV
#define NOW(s) (s)(TH)
#endif
constexpr int TH = 2, K = 4; S *src, *dst; std::optional<S> made; signal_handle h[K]; bool assign; int where = -1; vp_cell<int> calls[TH + 1][K];
struct fn { int id; void operator()(int inv) { calls[inv][id].inc(); } };
void mover(void*) { if (assign) *dst = std::move(*src); else made.emplace(std::move(*src)); }
void user(void*) { S* s = src; where = 0; if (assign) if (vp_bool("target")) { s = dst; where = 1; }
	switch (vp_range("op", 0, 3)) {
	case 0: h[3] = s->append(EV fn{3}); break;
	case 1: h[3] = s->prepend(EV fn{3}); break;
	case 2: { size_t r = (*s)(EV 1); int n = 0; for (int i = 0; i < 3; i++) { n += calls[1][i].get(); CHECK(calls[1][i].get() <= 1, "at most once"); } CHECK(r == (size_t)n, "the number of callbacks invoked is returned"); CHECK(calls[1][0].get() == calls[1][1].get(), "callbacks that move together are invoked together or not at all"); if (where == 0) CHECK(calls[1][2].get() == 0, "the target's callbacks are not the source's"); else CHECK(calls[1][2].get() + calls[1][0].get() == 1, "the target has its old callbacks or the moved ones"); break; }
	case 3: { bool o = s->owns_handle(EV h[where == 1 ? 2 : 1]); (void)o; vp_reach("owns"); break; } } }
int main() { vp_fast_locks(1); vp_max_trylock(2); vp_leak_begin(); { S a, b; src = &a; dst = &b; assign = vp_bool("assign"); h[0] = a.append(EV fn{0}); h[1] = a.append(EV fn{1}); h[2] = b.append(EV fn{2});
	int t1 = vp_spawn(mover, nullptr), t2 = vp_spawn(user, nullptr); vp_join(t1); vp_join(t2);
	S& d = assign ? b : *made; bool ina = a.owns_handle(EV h[3]), ind = d.owns_handle(EV h[3]); if (h[3].valid()) CHECK(ina + ind <= 1, "in one place"); if (h[3].valid() && where == 0) CHECK(ina + ind == 1, "a callback connected to the source concurrently is in the source or has been moved");
	CHECK(d.owns_handle(EV h[0]) && d.owns_handle(EV h[1]) && !a.owns_handle(EV h[0]) && (assign ? !b.owns_handle(EV h[2]) : b.owns_handle(EV h[2])), "the callbacks have been moved");
	size_t n = NOW(a); CHECK(n == ina && calls[TH][3].get() == ina, "the source has only what was connected after the move"); size_t m = NOW(d); CHECK(m == (size_t)(2 + ind), "the target has all of the source's callbacks"); CHECK(calls[TH][0].get() == 1 && calls[TH][1].get() == 1 && calls[TH][3].get() == ina + ind && calls[TH][2].get() == 0, "a connected callback is invoked by every later invocation");
	made.reset(); } for (auto& x : h) x = signal_handle{}; vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 7
// moving over callbacks (whose destructors use the object), over nothing, from nothing, and onto itself
#if MAN
typedef signal_manager<int, void(int)> S;
#define EV 5,
#else
typedef signal<void(int)> S;
#define EV
#endif
S *src, *dst; int dead[4], got[4]; signal_handle h[4];
struct fn { int id; bool armed = true; fn(int i) : id(i) {} fn(fn&& o) noexcept : id(o.id), armed(o.armed) { o.armed = false; } ~fn() { if (!armed) return; dead[id]++; if (dst) { (void)dst->owns_handle(EV h[0]); size_t r = (*dst)(EV 1); got[3] = (int)r; } } void operator()(int v) { got[id] += v; } };
int main() { vp_leak_begin(); { S a, b; src = &a; dst = &b; int na = vp_range("source", 0, 2), nb = vp_range("target", 0, 2); bool keep = vp_bool("keep_handles"); signal_handle t[2];
	for (int i = 0; i < 2; i++) if (i < na) h[i] = a.append(EV fn(i)); for (int i = 0; i < 2; i++) if (i < nb) { auto x = b.append(EV fn(2)); if (keep) t[i] = x; }
	switch (vp_range("what", 0, 2)) {
	case 0: b = std::move(a); for (auto& x : t) { if (x.valid()) CHECK(!b.owns_handle(EV x), "the target's callbacks are no longer connected"); x = signal_handle{}; } CHECK(dead[2] == nb && !dead[0] && !dead[1], "the target's callbacks are destroyed when nobody refers to them"); { int w0 = got[0], w1 = got[1]; CHECK(b(EV 10) == (size_t)na && a(EV 10) == 0, "the callbacks are moved"); CHECK(got[0] - w0 == (na > 0 ? 10 : 0) && got[1] - w1 == (na > 1 ? 10 : 0), "each is invoked"); } break;
#if MAN
	case 1: { S& c = a; a = std::move(c); CHECK(a(EV 10) == (size_t)na && b(EV 10) == (size_t)nb && !dead[0] && !dead[1] && !dead[2], "a manager can be assigned to itself"); break; }
#endif
	case 2: { dst = nullptr; S n(std::move(a)); CHECK(n(EV 10) == (size_t)na && a(EV 10) == 0 && got[0] == (na > 0 ? 10 : 0) && got[1] == (na > 1 ? 10 : 0) && !dead[0] && !dead[1], "construction moves the callbacks"); auto late = a.append(EV fn(3)); CHECK(a(EV 10) == 1 && n(EV 10) == (size_t)na && b(EV 10) == (size_t)nb, "a moved-from object can be used again"); dst = &b; break; }
	default: break; }
	for (auto& x : t) x = signal_handle{}; dst = nullptr; } for (auto& x : h) x = signal_handle{}; vp_reach("end"); vp_leak_check(); return 0; }
#endif
