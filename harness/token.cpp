// The stop_token implementation that asyncpp brings along: histories (C19), concurrency (C20).
//@ C19 history quick -DSCN=1 -DOPS=4
//@ C19 history_deep thorough -DSCN=1 -DOPS=5
//@ C19 callbacks quick -DSCN=2 -DOPS=4
//@ C19 three_callbacks quick -DSCN=2 -DOPS=5 -DNCB=3
//@ C19 callbacks_deep thorough -DSCN=2 -DOPS=6
//@ C19 self_removal quick -DSCN=3
//@ C20 two_requesters_registration quick -DSCN=4 -DNREQ=2 -DNREG=1
//@ C20 requester_two_registrations thorough -DSCN=4 -DNREQ=1 -DNREG=2
//@ C20 two_requesters_two_registrations thorough -DSCN=4 -DNREQ=2 -DNREG=2
//@ C20 removal_vs_request quick -DSCN=5
//@ C20 removal_of_two quick -DSCN=6
//@ C20 removal_from_callback quick -DSCN=7
//@ C20 published_source quick -DSCN=10 -DHOW=0
//@ C20 published_token quick -DSCN=10 -DHOW=1
//@ C20 published_callback quick -DSCN=10 -DHOW=2
//@ C20 registrations quick -DSCN=11 -DBOTH=0
//@ C20 registrations_both thorough -DSCN=11 -DBOTH=1
//@ C20 last_source quick -DSCN=8
//@ C20 release_from_both quick -DSCN=9
#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
#include "common.h"
#include <asyncpp/stop_token.h>
#include <memory>
#include <optional>
using namespace asyncpp;
// a callback on the heap: its memory is gone as soon as it is destroyed
template<typename F> struct boxed { std::unique_ptr<stop_callback<F>> p; template<typename... A> void emplace(A&&... a) { p.reset(); p = std::make_unique<stop_callback<F>>(std::forward<A>(a)...); } void reset() { p.reset(); } explicit operator bool() const { return (bool)p; } bool has_value() const { return (bool)p; } };
struct bump { int* p; void operator()() const noexcept { ++*p; } };
#if SCN == 1
int main() { vp_leak_begin(); { stop_source s[2]{stop_source(nostopstate), stop_source(nostopstate)}; stop_token t[2]; int ss[2] = {-1, -1}, tt[2] = {-1, -1}, n = 0; bool req[OPS + 1] = {};
	for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_range("which", 0, 1); switch (vp_range("op", 0, 11)) {
	case 0: s[k] = stop_source(); ss[k] = n++; break;
	case 1: s[k] = s[1 - k]; ss[k] = ss[1 - k]; break;
	case 2: s[k] = std::move(s[1 - k]); ss[k] = ss[1 - k]; ss[1 - k] = -1; break;
	case 3: s[k] = stop_source(nostopstate); ss[k] = -1; break;
	case 4: t[k] = s[k].get_token(); tt[k] = ss[k]; break;
	case 5: t[k] = s[1 - k].get_token(); tt[k] = ss[1 - k]; break;
	case 6: t[k] = t[1 - k]; tt[k] = tt[1 - k]; break;
	case 7: t[k] = std::move(t[1 - k]); tt[k] = tt[1 - k]; tt[1 - k] = -1; break;
	case 8: { bool r = s[k].request_stop(); CHECK(r == (ss[k] >= 0 && !req[ss[k]]), "only the first request makes a difference"); if (ss[k] >= 0) req[ss[k]] = true; break; }
	case 9: if (vp_bool("adl")) { using std::swap; swap(s[0], s[1]); swap(t[0], t[1]); std::swap(tt[0], tt[1]); } else s[0].swap(s[1]); std::swap(ss[0], ss[1]); break;
	case 10: { auto& self = s[k]; self = self; auto& ts = t[k]; ts = ts; ts = std::move(ts); break; }
	case 11: { stop_source c(s[k]); stop_source d(std::move(c)); CHECK(d == s[k] && !c.stop_possible(), "copies share the state, moving leaves nothing"); stop_token u(t[k]), w(std::move(u)); CHECK(w == t[k] && !u.stop_possible(), "tokens as well"); break; } }
	vp_point();
	for (int j = 0; j < 2; j++) { CHECK(s[j].stop_possible() == (ss[j] >= 0), "a source with a state can request"); CHECK(s[j].stop_requested() == (ss[j] >= 0 && req[ss[j]]), "every source of a state sees the request"); bool any = tt[j] >= 0 && (req[tt[j]] || ss[0] == tt[j] || ss[1] == tt[j]);
		CHECK(t[j].stop_possible() == any, "stop is possible exactly while a source exists or it was requested"); CHECK(t[j].stop_requested() == (tt[j] >= 0 && req[tt[j]]), "every token sees the request"); }
	CHECK((s[0] == s[1]) == (ss[0] == ss[1]) && (t[0] == t[1]) == (tt[0] == tt[1]), "equality means the same state"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
#ifndef NCB
#define NCB 2
#endif
int main() { vp_leak_begin(); { stop_source s; int runs[NCB] = {}; bool src = true, req = false; auto t = s.get_token(); { boxed<bump> c[NCB]; int want[NCB] = {}; bool armed[NCB] = {};
	for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_bool("first") ? 0 : NCB > 2 && vp_bool("third") ? 2 : 1; switch (vp_range("op", 0, 3)) {
	case 0: c[k].reset(); armed[k] = false; if (vp_bool("rvalue")) c[k].emplace(stop_token(t), bump{&runs[k]}); else c[k].emplace(t, bump{&runs[k]}); if (req) want[k]++; else armed[k] = src; break;
	case 1: c[k].reset(); armed[k] = false; break;
	case 2: { bool r = s.request_stop(); CHECK(r == (src && !req), "first request"); if (src) { for (int j = 0; j < NCB; j++) { if (armed[j] && !req) want[j]++; armed[j] = false; } req = true; } break; }
	case 3: s = stop_source(nostopstate); src = false; break; }
	vp_point(); for (int j = 0; j < NCB; j++) CHECK(runs[j] == want[j], "each callback registered when the stop is requested runs once, at once if it already was"); } } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
boxed<void (*)()> a, b, c; int na, nb, nc; bool keep;
int main() { int which = vp_range("which", 0, 4); static int w; w = which; vp_leak_begin(); { std::optional<stop_source> s; s.emplace(); static std::optional<stop_source>* ps; ps = &s; auto t = s->get_token(); int first = vp_range("first", 0, 1);
	auto fa = +[]() { na++; switch (w) { case 0: a.reset(); break; case 1: b.reset(); break; case 2: a.reset(); b.reset(); break; case 3: c.reset(); break; case 4: c.reset(); a.reset(); break; } };
	auto fb = +[]() { nb++; }; auto fc = +[]() { nc++; }; if (first) { a.emplace(t, fa); b.emplace(t, fb); c.emplace(t, fc); } else { c.emplace(t, fc); b.emplace(t, fb); a.emplace(t, fa); } CHECK(s->request_stop(), "requested");
	CHECK(na == 1, "ran once"); CHECK(nb <= 1 && nc <= 1, "at most once"); if (which == 0) CHECK(nb == 1 && nc == 1, "the others run"); if (which == 1) CHECK(nc == 1 && (b.has_value() == false), "the third runs"); if (which > 2) CHECK(nb == 1, "the others run");
	bool removedFirst = (which == 1 || which == 2) ? true : false; (void)removedFirst; a.reset(); b.reset(); c.reset(); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
stop_source* s; uint32_t data; uint32_t v; vp_cell<int> wins, runs[NREG]; int done[NREG];
void req(void*) { if (s->request_stop()) wins.inc(); CHECK(s->stop_requested(), "requested afterwards"); }
void reg(void* p) { int k = (int)(intptr_t)p; stop_token t = s->get_token(); { stop_callback cb(t, [k]() noexcept { runs[k].inc(); done[k] = 1; }); if (NREG == 1) CHECK(t.stop_possible(), "possible"); } int r = runs[k].get(); CHECK(r <= 1, "at most once"); if (NREG == 1) { vp_point(); CHECK(runs[k].get() == r, "never called after it was destroyed"); } CHECK(done[k] == r, "and not still running"); if (r) CHECK(t.stop_requested(), "only called after a request"); }
int main() { v = vp_nondet("v", 32); vp_leak_begin(); { stop_source ss; s = &ss; int t[4], n = 0; for (int i = 0; i < NREQ; i++) t[n++] = vp_spawn(req, 0); for (int i = 0; i < NREG; i++) t[n++] = vp_spawn(reg, (void*)(intptr_t)i); for (int i = 0; i < n; i++) vp_join(t[i]); CHECK(wins.get() == 1, "exactly one request wins"); CHECK(ss.stop_requested() && ss.get_token().stop_requested(), "requested"); for (int i = 0; i < NREG; i++) CHECK(runs[i].get() == done[i], "nothing happens later"); int late = 0; stop_callback cb(ss.get_token(), [&]() noexcept { late++; }); CHECK(late == 1, "late registration runs at once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
stop_source* s; int runs; uint32_t v; int* obj;
void req(void*) { *obj += 1; CHECK(s->request_stop(), "first"); }
int main() { v = vp_nondet("v", 32); vp_leak_begin(); { stop_source ss; s = &ss; int data = v; obj = &data; int t; { int local = 5; stop_callback cb(ss.get_token(), [&]() noexcept { local++; runs++; if (local == 6) CHECK((uint32_t)data == v + 1, "what happened before the request is visible"); }); t = vp_spawn(req, 0); vp_point(); } int r = runs; CHECK(r <= 1, "at most once"); vp_join(t); CHECK(runs == r, "never called after it was destroyed"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
stop_source* s; int ra, rb; boxed<bump> a, b; int nother;
void req(void*) { s->request_stop(); } void other(void*) { b.reset(); nother = rb; }
int main() { vp_leak_begin(); { stop_source ss; s = &ss; bool o = vp_bool("order"); if (o) { a.emplace(ss.get_token(), bump{&ra}); b.emplace(ss.get_token(), bump{&rb}); } else { b.emplace(ss.get_token(), bump{&rb}); a.emplace(ss.get_token(), bump{&ra}); } int t = vp_spawn(req, 0), u = vp_spawn(other, 0); a.reset(); int na = ra; vp_join(t); vp_join(u); CHECK(ra == na && rb == nother && ra <= 1 && rb <= 1, "not called after destruction"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 7
boxed<void (*)()> a, b; stop_source* s; int na, nb; bool self;
void req(void*) { s->request_stop(); }
int main() { self = vp_bool("self"); bool o = vp_bool("order"); vp_leak_begin(); { stop_source ss; s = &ss; auto fa = +[]() { na++; if (self) a.reset(); else { a.reset(); } }; auto fb = +[]() { nb++; }; if (o) { a.emplace(ss.get_token(), fa); b.emplace(ss.get_token(), fb); } else { b.emplace(ss.get_token(), fb); a.emplace(ss.get_token(), fa); } int t = vp_spawn(req, 0); b.reset(); int n = nb; { int late = 0; stop_callback cb(ss.get_token(), [&]() noexcept { late++; }); } vp_join(t); CHECK(na == 1 && nb == n && n <= 1, "a removes itself while the other is removed elsewhere"); CHECK(!a, "gone"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 8
std::optional<stop_source> s; int runs;
void kill(void*) { s.reset(); }
int main() { vp_leak_begin(); { s.emplace(); stop_token t = s->get_token(); int x = vp_spawn(kill, 0); { stop_callback cb(t, []() noexcept { runs++; }); bool p = t.stop_possible(); vp_point(); if (!p) CHECK(!t.stop_possible(), "never possible again"); } vp_join(x); CHECK(!t.stop_possible() && !t.stop_requested() && runs == 0, "without sources no stop is possible"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 9
// the state is released by whoever is last: sources, tokens and callbacks on three threads
std::optional<stop_source> s; std::optional<stop_token> t; int runs;
void f(void*) { s->request_stop(); s.reset(); } void g(void*) { t.reset(); }
int main() { vp_leak_begin(); { s.emplace(); t.emplace(s->get_token()); boxed<bump> c; c.emplace(*t, bump{&runs}); int x = vp_spawn(f, 0), y = vp_spawn(g, 0); c.reset(); int n = runs; vp_join(x); vp_join(y); CHECK(runs == n && n <= 1, "at most once, not after destruction"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
// what happened before the request is visible to everybody that sees the request: by asking, by being called, or by being called at once
stop_source* s; uint32_t data, v; vp_cell<int> seen, called;
void req(void*) { data = v; CHECK(s->request_stop(), "first"); }
#if HOW == 0
void see(void*) { if (s->stop_requested()) { CHECK(data == v, "visible to whoever sees the request"); seen.set(1); } }
#elif HOW == 1
void see(void*) { stop_token t = s->get_token(); if (t.stop_requested()) { CHECK(data == v, "visible to whoever sees the request"); seen.set(1); } }
#else
void see(void*) { { stop_callback cb(s->get_token(), []() noexcept { CHECK(data == v, "visible to the callback"); called.inc(); }); } CHECK(called.get() <= 1, "at most once"); if (called.get()) { CHECK(data == v, "and after it"); seen.set(1); } }
#endif
int main() { v = vp_nondet("v", 32); vp_spurious(1); vp_leak_begin(); { stop_source ss; s = &ss; int x = vp_spawn(req, 0), y = vp_spawn(see, 0); vp_join(x); vp_join(y); vp_observe("seen", seen.get()); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
// two threads register and destroy callbacks of one state at the same time; what is left is called once
stop_source* s; boxed<bump> keep[2]; int runs[2], temp[2];
void reg(void* p) { int i = (int)(intptr_t)p; { boxed<bump> mine; if (i == 0 || BOTH) mine.emplace(s->get_token(), bump{&temp[i]}); keep[i].emplace(s->get_token(), bump{&runs[i]}); mine.reset(); } }
int main() { vp_spurious(1); vp_leak_begin(); { stop_source ss; s = &ss; int x = vp_spawn(reg, (void*)0), y = vp_spawn(reg, (void*)1); vp_join(x); vp_join(y); bool gone = vp_bool("gone"); if (gone) keep[vp_bool("which")].reset(); CHECK(ss.request_stop(), "first"); for (int i = 0; i < 2; i++) CHECK(runs[i] == (keep[i] ? 1 : 0) && temp[i] == 0, "exactly what is still registered is called"); keep[0].reset(); keep[1].reset(); } vp_reach("end"); vp_leak_check(); return 0; }
#endif
