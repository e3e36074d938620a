// Coroutine types: task (C22), generator (C23), async_generator (C24), coroutine frame allocation (C27).
//@ C22 values quick -DSCN=1
//@ C22 pair quick -DSCN=2 -DDEPTH=1
//@ C22 tree quick -DSCN=2 -DDEPTH=2 -DONE
//@ C22 tree_deep thorough -DSCN=2 -DDEPTH=3 -DONE
//@ C22 handles quick -DSCN=3 -DOPS=5
//@ C22 handles_deep thorough -DSCN=3 -DOPS=7
//@ C22 abandoned quick -DSCN=4
//@ C22 other_thread quick -DSCN=5
//@ C22 order quick -DSCN=6
//@ C23 script quick -DSCN=10 -DN=3
//@ C23 script_deep thorough -DSCN=10 -DN=6
//@ C23 references quick -DSCN=11
//@ C23 map quick -DSCN=12
//@ C23 handles quick -DSCN=13 -DOPS=4
//@ C23 handles_deep thorough -DSCN=13 -DOPS=6
//@ C23 nested quick -DSCN=14
//@ C24 script quick -DSCN=20 -DN=3
//@ C24 script_deep thorough -DSCN=20 -DN=4
//@ C24 references quick -DSCN=21
//@ C24 handles quick -DSCN=22 -DOPS=4
//@ C24 handles_deep thorough -DSCN=22 -DOPS=6
//@ C24 other_thread quick -DSCN=23
//@ C24 several_consumers quick -DSCN=24
//@ C27 stateless quick -DSCN=30
//@ C27 stateful quick -DSCN=31
//@ C27 failing quick -DSCN=32
//@ C27 pack quick -DSCN=33
#include "common.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <memory>
#include <optional>
#include <string>
using namespace asyncpp;
// a place a coroutine can be parked at and resumed from by the harness
struct gate { std::coroutine_handle<> h{}; bool open = false; bool await_ready() const noexcept { return open; } void await_suspend(std::coroutine_handle<> x) noexcept { h = x; } void await_resume() const noexcept {} void go() { if (h) std::exchange(h, {}).resume(); } };
struct tracked { static inline int live = 0; int v; explicit tracked(int x) : v(x) { live++; } tracked(const tracked& o) : v(o.v) { live++; } tracked(tracked&& o) noexcept : v(o.v) { live++; o.v = -1; } tracked& operator=(const tracked&) = delete; ~tracked() { live--; } };
struct err { int v; };
#if SCN == 1
struct moveonly { std::unique_ptr<uint32_t> p; explicit moveonly(uint32_t v) : p(new uint32_t(v)) {} };
struct conv { uint32_t v; operator uint32_t() const { return v + 1; } };
bool sus; gate g; uint32_t v;
task<uint32_t> ti() { if (sus) co_await g; co_return v; }
task<uint64_t> tw() { if (sus) co_await g; uint32_t x = v; co_return x; }
task<uint32_t> tc() { if (sus) co_await g; co_return conv{v}; }
task<moveonly> tm() { if (sus) co_await g; co_return moveonly(v); }
task<moveonly> tm2() { if (sus) co_await g; moveonly m(v); co_return m; }
task<tracked> tt() { if (sus) co_await g; tracked t((int)(v & 255)); co_return t; }
task<> tv() { if (sus) co_await g; co_return; }
task<std::string> ts() { if (sus) co_await g; co_return "x"; }
task<uint32_t> te() { if (sus) co_await g; throw err{(int)v}; co_return 1; }
task<> tve() { if (sus) co_await g; throw err{(int)v}; }
// the body ends with an exception although it already returned a value, or because the value can not be made
struct late { ~late() noexcept(false) { throw err{(int)v}; } };
struct noconv { operator tracked() const { throw err{(int)v}; } };
task<uint32_t> tl() { late l; if (sus) co_await g; co_return 1; }
task<> tvl() { late l; if (sus) co_await g; co_return; }
task<tracked> ttl() { late l; if (sus) co_await g; co_return tracked(3); }
task<tracked> ttn() { if (sus) co_await g; co_return noconv{}; }
int main() { sus = vp_bool("suspend"); v = vp_nondet("v", 32); int k = vp_range("kind", 0, 13); bool done = false; vp_leak_begin(); {
	auto c = [&]() -> co { switch (k) { case 0: { uint32_t r = co_await ti(); CHECK(r == v, "value"); break; } case 1: { uint64_t r = co_await tw(); CHECK(r == v, "widened value"); break; } case 2: { uint32_t r = co_await tc(); CHECK(r == v + 1, "converted value"); break; } case 3: { moveonly m = co_await tm(); CHECK(*m.p == v, "move only value"); break; } case 4: { auto t = tm2(); moveonly m = co_await t; CHECK(*m.p == v, "move only value"); break; }
		case 5: { { auto x = co_await tt(); CHECK(x.v == (int)(v & 255), "value"); } CHECK(tracked::live == 0, "nothing left"); break; } case 6: co_await tv(); break; case 7: { auto s = co_await ts(); CHECK(s.size() == 1 && s[0] == 'x', "string"); break; } case 8: { bool got = false; try { (void)co_await te(); CHECK(0, "no value"); } catch (err e) { CHECK(e.v == (int)v, "the exception"); got = true; } CHECK(got, "exception"); break; } case 9: { bool got = false; try { co_await tve(); CHECK(0, "no value"); } catch (err& e) { CHECK(e.v == (int)v, "the exception"); got = true; } CHECK(got, "exception"); break; }
		default: { bool got = false; try { if (k == 10) (void)co_await tl(); else if (k == 11) co_await tvl(); else if (k == 12) (void)co_await ttl(); else (void)co_await ttn(); CHECK(0, "no value"); } catch (err& e) { CHECK(e.v == (int)v, "the exception that ended the body"); got = true; } CHECK(got, "exception"); CHECK(tracked::live == 0, "the value is gone"); break; } } done = true; };
	c(); CHECK(done == !sus, "a task that does not suspend completes at once"); if (sus) { CHECK(g.h, "parked"); g.go(); CHECK(done, "resuming the task continues the awaiter"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
// a tree of tasks; at each node the inputs decide: park, throw, catch, combine
gate gates[1 << (DEPTH + 1)]; bool park[1 << (DEPTH + 1)], thr[1 << (DEPTH + 1)], cat[1 << (DEPTH + 1)]; uint32_t val[1 << (DEPTH + 1)]; int started[1 << (DEPTH + 1)], ended[1 << (DEPTH + 1)];
static int expect(int n, int d, uint32_t& r) { // returns thrown node or 0
	if (d == 0) { if (thr[n]) return n; r = val[n]; return 0; } uint32_t a = 0, b = 0; int t = expect(2 * n, d - 1, a); if (!t) t = expect(2 * n + 1, d - 1, b); if (t) { if (!cat[n]) return t; a = val[n] ^ t; b = 0; } if (thr[n]) return n; r = a + 3 * b + val[n]; return 0; }
struct fin { int n; ~fin() { ended[n]++; } };
task<uint32_t> node(int n, int d) { fin f{n}; started[n]++; tracked t(n); if (park[n]) co_await gates[n]; uint32_t a = 0, b = 0; if (d == 0) { if (thr[n]) throw err{n}; co_return val[n]; }
	bool caught = false; try { auto x = node(2 * n, d - 1); auto y = node(2 * n + 1, d - 1); CHECK(!started[2 * n] && !started[2 * n + 1], "tasks start when awaited"); a = co_await x; CHECK(ended[2 * n] == 1, "its locals are gone when the awaiter continues"); b = co_await std::move(y); } catch (err& e) { if (!cat[n]) throw; a = val[n] ^ e.v; b = 0; }
	if (thr[n]) throw err{n}; co_return a + 3 * b + val[n]; }
int main() { constexpr int M = 1 << (DEPTH + 1); for (int i = 1; i < M; i++) val[i] = vp_nondet("val", 32);
#ifdef ONE
	int pk = vp_range("park", 0, M - 1), th = vp_range("throw", 0, M - 1), ca = vp_range("catch", 0, M - 1); if (pk) park[pk] = true; if (th) thr[th] = true; if (ca) cat[ca] = true;
#else
	for (int i = 1; i < M; i++) { park[i] = vp_bool("park"); thr[i] = vp_bool("throw"); cat[i] = vp_bool("catch"); }
#endif
	 vp_leak_begin(); { uint32_t want = 0; int wt = expect(1, DEPTH, want), got = -1; uint32_t r = 0;
	auto body1 = [&]() -> co { try { r = co_await node(1, DEPTH); got = 0; } catch (err& e) { got = e.v; } }; body1();
	for (int k = 0; k < (1 << (DEPTH + 1)) && got < 0; k++) { vp_point(); int m = 0; for (int i = 1; i < (1 << (DEPTH + 1)); i++) if (gates[i].h) { CHECK(!m, "one at a time"); m = i; } CHECK(m, "either finished or parked"); gates[m].go(); }
	CHECK(got == wt, "the same exception or none"); if (!got) CHECK(r == want, "the same value"); for (int i = 1; i < (1 << (DEPTH + 1)); i++) CHECK(started[i] == ended[i] && started[i] <= 1, "run once and cleaned up"); CHECK(tracked::live == 0, "no local is left"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// owners of tasks: move, assign, await, drop
int ran[OPS + 1]; task<int> mk(int id, tracked t) { ran[id]++; co_return t.v; }
int main() { vp_leak_begin(); { task<int> s[2]{task<int>(nullptr), task<int>(nullptr)}; int m[2] = {-1, -1}; bool used[OPS + 1] = {}; int made = 0; for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_range("which", 0, 1); switch (vp_range("op", 0, 5)) {
	case 0: s[k] = mk(i, tracked(i)); m[k] = i; break; case 1: s[k] = std::move(s[1 - k]); { int t = m[k]; m[k] = m[1 - k]; m[1 - k] = t; } if (m[1 - k] >= 0 && false) s[1 - k] = task<int>(nullptr); break; case 2: { task<int> x(std::move(s[k])); CHECK(!s[k] == true, "moved from"); CHECK((bool)x == (m[k] >= 0), "moved to"); m[k] = -1; break; } case 3: s[k] = task<int>(nullptr); m[k] = -1; break;
	case 4: if (m[k] >= 0 && !used[m[k]]) { bool d = false; int id = m[k]; auto body2 = [&]() -> co { int r = co_await s[k]; CHECK(r == id, "its value"); d = true; }; body2(); CHECK(d, "completes"); used[id] = true; } break; case 5: { auto& self = s[k]; self = std::move(self); break; } }
	vp_point(); if (m[0] < 0 && s[0] || m[1] < 0 && s[1]) { /* a swap-like move assignment may leave the old task in the source: it is still a valid owner */ CHECK(0, "owner of nothing"); } CHECK((bool)s[0] == (m[0] >= 0) && (bool)s[1] == (m[1] >= 0), "who owns a task"); for (int j = 0; j <= OPS; j++) CHECK(ran[j] == (used[j] ? 1 : 0), "runs only when awaited"); } s[0] = task<int>(nullptr); s[1] = task<int>(nullptr); } CHECK(tracked::live == 0, "parameters destroyed"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
// destroying a chain of tasks while it is parked destroys every frame from the outside in
gate g; int order[3], n; struct rec { int i; explicit rec(int x) : i(x) {} rec(const rec&) = delete; ~rec() { order[n++] = i; } };
task<int> inner(tracked t) { rec r(1); co_await g; co_return t.v; } task<int> outer(tracked t) { rec r(2); int x = co_await inner(tracked(3)); co_return x + t.v; }
int main() { vp_leak_begin(); { bool run = vp_bool("start"); std::optional<task<int>> t; t.emplace(outer(tracked(4))); bool resume = vp_bool("resume"); int got = 0; struct w { struct promise_type { w get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { CHECK(0, "no exception"); } }; std::coroutine_handle<promise_type> h; };
	std::optional<w> d; if (run) d = [](task<int>& t, int& got) -> w { got = co_await t; }(*t, got); if (run && resume) { g.go(); CHECK(got == 7, "result"); } else CHECK(got == 0, "not finished"); if (d) d->h.destroy(); t.reset(); CHECK(tracked::live == 0, "everything is destroyed"); CHECK(n == (run ? 2 : 0), "locals of started tasks are destroyed once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
gate g; uint32_t v, out; int data; task<uint32_t> inner() { co_await g; co_return v + data; } task<uint32_t> outer() { auto t = inner(); uint32_t r = co_await t; co_return r * 2; }
void other(void*) { data = 5; g.go(); }
int main() { v = vp_nondet("v", 32); vp_leak_begin(); { bool done = false; auto body3 = [&]() -> co { out = co_await outer(); done = true; }; body3(); CHECK(!done, "parked"); int t = vp_spawn(other, 0); vp_join(t); CHECK(done && out == (v + 5) * 2, "continued on the other thread"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
// no task starts before it is awaited, awaiting runs it before anything else
int tr[8], n; task<> b(int k) { tr[n++] = k; co_return; } task<> a(int k) { tr[n++] = k; co_await b(k + 1); tr[n++] = k + 2; }
int main() { vp_leak_begin(); { bool swap = vp_bool("swap"); auto body4 = [&]() -> co { auto x = a(10), y = a(20); tr[n++] = 1; co_await (swap ? y : x); tr[n++] = 2; co_await (swap ? x : y); }; body4(); int f = swap ? 20 : 10, s = 30 - f; int want[] = {1, f, f + 1, f + 2, 2, s, s + 1, s + 2}; CHECK(n == 8, "all ran"); for (int i = 0; i < 8; i++) CHECK(tr[i] == want[i], "in order"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
uint32_t v[N]; int stop, thr, how[N]; int produced;
generator<uint32_t> gen(tracked t) { tracked l(1); for (int i = 0; i < stop; i++) { if (thr == i) throw err{i}; produced++; if (how[i]) { uint32_t x = v[i]; co_yield x; CHECK(x == v[i] + 1, "the consumer works on the yielded object"); } else co_yield uint32_t(v[i]); } if (thr == stop) throw err{stop}; }
int main() { stop = vp_range("len", 0, N); thr = vp_range("throw", 0, N + 1); int brk = vp_range("break", 0, N); for (int i = 0; i < N; i++) { v[i] = vp_nondet("v", 32); how[i] = vp_bool("lvalue"); } vp_leak_begin(); { int k = 0, got = -1; { auto g = gen(tracked(2)); CHECK(produced == 0, "nothing runs before it is iterated"); try { for (auto& x : g) { vp_point(); CHECK(x == v[k], "the values in order"); CHECK(produced == k + 1, "one at a time"); x++; if (++k == brk) break; } } catch (err& e) { got = e.v; } 
	int full = thr <= stop ? thr : stop; bool broke = brk > 0 && brk <= full; CHECK(k == (broke ? brk : full), "as many values as produced"); CHECK(got == (!broke && thr <= stop ? thr : -1), "the exception comes out after the values before it"); } CHECK(tracked::live == 0, "locals and parameters destroyed"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
uint32_t arr[3]; generator<uint32_t&> gr() { for (auto& x : arr) co_yield x; } generator<const uint32_t> gc() { for (auto& x : arr) co_yield x; } generator<const uint32_t&> gcr() { co_yield 7; for (const auto& x : arr) co_yield x; } struct pt { uint32_t x; }; generator<pt> gp() { pt p{arr[0]}; co_yield p; co_yield pt{arr[1]}; }
generator<std::unique_ptr<uint32_t>&&> gm() { auto p = std::make_unique<uint32_t>(arr[0]); co_yield std::move(p); CHECK(!p, "moved out"); co_yield std::make_unique<uint32_t>(arr[1]); }
int main() { uint32_t v = vp_nondet("v", 32); vp_leak_begin(); { for (int i = 0; i < 3; i++) arr[i] = v + i; for (auto& x : gr()) x += 10; for (int i = 0; i < 3; i++) CHECK(arr[i] == v + i + 10, "references to the producer's objects"); int k = 0; for (auto& x : gc()) { CHECK(&x == &arr[k] && x == v + k + 10, "constant elements"); k++; } k = 0; for (auto& x : gcr()) { CHECK(x == (k ? v + k - 1 + 10 : 7), "temporaries live until the next step"); k++; } CHECK(k == 4, "all"); auto g = gp(); auto it = g.begin(); CHECK(it != g.end() && it->x == v + 10, "member access"); it++; CHECK(!(it == g.end()) && (*it).x == v + 11, "post increment advances"); ++it; CHECK(it == g.end() && g.end() == it && !(g.end() != it), "end"); k = 0; for (auto&& p : gm()) { std::unique_ptr<uint32_t> q(std::move(p)); CHECK(*q == arr[k], "moved out"); k++; } CHECK(k == 2, "all"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 12
uint32_t v; int n, thr; generator<uint32_t> src() { for (int i = 0; i < n; i++) co_yield v + i; } 
int main() { v = vp_nondet("v", 32); n = vp_range("n", 0, 3); thr = vp_range("throw", 0, 3); vp_leak_begin(); { int k = 0, calls = 0; bool ex = false; auto m = fmap([&calls](uint32_t& x) -> uint64_t { if (calls == thr) throw 5; calls++; return (uint64_t)x * 2; }, src()); CHECK(calls == 0, "lazy"); try { for (auto& x : m) { vp_point(); CHECK(x == (uint64_t)(uint32_t)(v + k) * 2, "mapped in order"); k++; CHECK(calls == k, "one at a time"); } } catch (int e) { ex = e == 5; } CHECK(k == (thr < n ? thr : n), "as many as the source"); CHECK(ex == (thr < n), "exceptions of the function come out"); 
	int c = 0; for (auto& y : fmap([](const char& c) { return c + 1; }, []() -> generator<char> { co_yield 'a'; co_yield 'b'; }())) { CHECK(y == 'b' + c, "types"); c++; } CHECK(c == 2, "all"); uint32_t arr[2] = {1, 2}; for (auto& z : fmap([](uint32_t& x) -> uint32_t& { return x; }, [](uint32_t* a) -> generator<uint32_t&> { co_yield a[0]; co_yield a[1]; }(arr))) z += 5; CHECK(arr[0] == 6 && arr[1] == 7, "references pass through"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 13
generator<int> mk(int id, tracked) { tracked l(id); for (int i = 0;; i++) co_yield id * 10 + i; }
int main() { vp_leak_begin(); { generator<int> s[2]; std::optional<generator<int>::iterator> it[2]; int m[2] = {-1, -1}, pos[2] = {-1, -1}; for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_range("which", 0, 1); switch (vp_range("op", 0, 4)) {
	case 0: s[k] = mk(i, tracked(0)); m[k] = i; pos[k] = -1; it[k].reset(); break; case 1: s[k] = std::move(s[1 - k]); std::swap(m[0], m[1]); std::swap(pos[0], pos[1]); std::swap(it[0], it[1]); break; case 2: { generator<int> x(std::move(s[k])); it[k].reset(); m[k] = -1; pos[k] = -1; break; }
	case 3: if (m[k] >= 0 && pos[k] < 0) { it[k] = s[k].begin(); pos[k] = 0; } else if (m[k] < 0) CHECK(s[k].begin() == s[k].end(), "an empty generator has no elements"); break; case 4: if (pos[k] >= 0) { ++*it[k]; pos[k]++; } break; }
	vp_point(); for (int j = 0; j < 2; j++) if (pos[j] >= 0) CHECK(*it[j] != s[j].end() && **it[j] == m[j] * 10 + pos[j], "each continues where it was"); } } CHECK(tracked::live == 0, "all destroyed"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 14
// recursive generators and early destruction at any depth
generator<int> tree(int d, int base, int thr) { tracked t(d); if (base == thr) throw err{base}; if (d > 0) for (int x : tree(d - 1, base * 2, thr)) co_yield x; co_yield base; if (d > 0) for (int x : tree(d - 1, base * 2 + 1, thr)) co_yield x; }
static int walk(int d, int base, int thr, int* o, int n, bool& st) { if (st) return n; if (base == thr) { st = true; return n; } if (d) n = walk(d - 1, base * 2, thr, o, n, st); if (st) return n; o[n++] = base; if (d) n = walk(d - 1, base * 2 + 1, thr, o, n, st); return n; }
int main() { int thr = vp_range("throw", 0, 8), brk = vp_range("break", 0, 7); vp_leak_begin(); { int want[8]; bool st = false; int wn = walk(2, 1, thr, want, 0, st), k = 0, got = 0; try { for (int x : tree(2, 1, thr)) { vp_point(); CHECK(k < wn && x == want[k], "in order"); if (++k == brk) break; } } catch (err& e) { got = e.v; } bool broke = brk && brk <= wn; CHECK(k == (broke ? brk : wn), "all"); CHECK(got == (!broke && st ? thr : 0), "exceptions pass every level"); CHECK(tracked::live == 0, "every level cleaned up"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 20
uint32_t v[N]; int len, thr, parkp[N + 1], how[N]; int produced; gate g;
async_generator<uint32_t> gen(tracked t) { tracked l(1); for (int i = 0; i < len; i++) { if (parkp[i]) co_await g; if (thr == i) throw err{i}; produced++; if (how[i]) { uint32_t x = v[i]; co_yield x; CHECK(x == v[i] + 1, "the consumer works on the yielded object"); } else co_yield uint32_t(v[i]); } if (parkp[len]) co_await g; if (thr == len) throw err{len}; }
int main() { len = vp_range("len", 0, N); thr = vp_range("throw", 0, N + 1); int brk = vp_range("break", 0, N); for (int i = 0; i < N; i++) { v[i] = vp_nondet("v", 32); how[i] = vp_bool("lvalue"); } for (int i = 0; i <= N; i++) parkp[i] = vp_bool("park"); vp_leak_begin(); { int k = 0, got = -1; bool done = false;
	auto body5 = [&]() -> co { { auto a = gen(tracked(2)); CHECK(produced == 0, "nothing runs before it is iterated"); std::optional<async_generator<uint32_t>::iterator> oit; try { oit.emplace(co_await a.begin()); auto& it = *oit; while (it != a.end()) { CHECK(*it == v[k], "the values in order"); CHECK(produced == k + 1, "one at a time"); ++*it; if (++k == brk) break; auto& r = co_await ++it; CHECK(&r == &it, "increment returns the iterator"); } } catch (err& e) { got = e.v; if (oit) CHECK(*oit == a.end() && a.end() == *oit && !(*oit != a.end()), "after an exception the iterator is at the end"); } } CHECK(tracked::live == 0, "locals and parameters destroyed"); done = true; }; body5();
	for (int i = 0; i <= N && !done; i++) { vp_point(); CHECK(g.h, "either finished or parked"); g.go(); }
	CHECK(done, "the consumer continues whenever the producer yields or ends"); int full = thr <= len ? thr : len; bool broke = brk > 0 && brk <= full; CHECK(k == (broke ? brk : full), "as many values as produced"); CHECK(got == (!broke && thr <= len ? thr : -1), "the exception comes out after the values before it"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 21
uint32_t arr[3]; async_generator<uint32_t&> gr() { for (auto& x : arr) co_yield x; } async_generator<const uint32_t> gc() { for (auto& x : arr) co_yield x; co_yield 9; } async_generator<std::unique_ptr<uint32_t>&&> gm() { auto p = std::make_unique<uint32_t>(arr[0]); co_yield std::move(p); CHECK(!p, "moved out"); co_yield std::make_unique<uint32_t>(arr[1]); } async_generator<int> none() { co_return; }
int main() { uint32_t v = vp_nondet("v", 32); vp_leak_begin(); { for (int i = 0; i < 3; i++) arr[i] = v + i; bool done = false; auto body6 = [&]() -> co { { auto g = gr(); for (auto it = co_await g.begin(); it != g.end(); co_await ++it) *it += 10; } for (int i = 0; i < 3; i++) CHECK(arr[i] == v + i + 10, "references to the producer's objects"); { auto g = gc(); int k = 0; for (auto it = co_await g.begin(); it != g.end(); co_await ++it) { CHECK(*it == (k < 3 ? v + k + 10 : 9), "constant elements"); k++; } CHECK(k == 4, "all"); } { auto g = gm(); int k = 0; for (auto it = co_await g.begin(); it != g.end(); co_await ++it) { std::unique_ptr<uint32_t> q(std::move(*it)); CHECK(*q == arr[k], "moved out"); k++; } CHECK(k == 2, "all"); } { auto g = none(); auto it = co_await g.begin(); CHECK(it == g.end(), "no elements"); } { async_generator<int> e; auto it = co_await e.begin(); CHECK(it == e.end(), "an empty generator has no elements"); } done = true; }; body6(); CHECK(done, "completes"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 22
async_generator<int> mk(int id, tracked) { tracked l(id); for (int i = 0;; i++) co_yield id * 10 + i; }
int main() { vp_leak_begin(); { async_generator<int> s[2]; std::optional<async_generator<int>::iterator> it[2]; int m[2] = {-1, -1}, pos[2] = {-1, -1}; for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_range("which", 0, 1); switch (vp_range("op", 0, 5)) {
	case 0: s[k] = mk(i, tracked(0)); m[k] = i; pos[k] = -1; it[k].reset(); break; case 1: s[k] = std::move(s[1 - k]); m[k] = m[1 - k]; pos[k] = pos[1 - k]; it[k] = it[1 - k]; m[1 - k] = pos[1 - k] = -1; it[1 - k].reset(); break; case 2: { async_generator<int> x(std::move(s[k])); it[k].reset(); m[k] = -1; pos[k] = -1; break; }
	case 3: if (pos[k] < 0) { bool d = false; auto body7 = [&]() -> co { it[k] = co_await s[k].begin(); d = true; }; body7(); CHECK(d, "completes"); if (m[k] >= 0) pos[k] = 0; else { CHECK(*it[k] == s[k].end(), "empty"); it[k].reset(); } } break; case 4: if (pos[k] >= 0) { bool d = false; auto body8 = [&]() -> co { co_await ++*it[k]; d = true; }; body8(); CHECK(d, "completes"); pos[k]++; } break; case 5: if (vp_bool("adl")) swap(s[0], s[1]); else s[0].swap(s[1]); std::swap(m[0], m[1]); std::swap(pos[0], pos[1]); std::swap(it[0], it[1]); break; }
	vp_point(); for (int j = 0; j < 2; j++) { if (pos[j] >= 0) CHECK(*it[j] != s[j].end() && **it[j] == m[j] * 10 + pos[j], "each continues where it was"); } int want = 0; for (int j = 0; j < 2; j++) if (m[j] >= 0) want += 1 + (pos[j] >= 0); CHECK(tracked::live == want, "replaced generators are destroyed at once"); } } CHECK(tracked::live == 0, "all destroyed"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 23
gate g; uint32_t v; int data; async_generator<uint32_t> gen() { co_yield v; co_await g; co_yield v + data; }
void other(void*) { data = 5; g.go(); }
int main() { v = vp_nondet("v", 32); vp_leak_begin(); { bool done = false; int k = 0; auto body9 = [&]() -> co { auto a = gen(); for (auto it = co_await a.begin(); it != a.end(); co_await ++it) { CHECK(*it == (k ? v + 5 : v), "values"); k++; } done = true; }; body9(); CHECK(!done, "parked"); int t = vp_spawn(other, 0); vp_join(t); CHECK(done && k == 2, "continued on the other thread"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 24
// different coroutines take the elements in turn: always the one that asked is resumed
gate g; bool pk[3]; async_generator<int> gen() { for (int i = 0; i < 3; i++) { if (pk[i]) co_await g; co_yield i; } }
int main() { for (auto& p : pk) p = vp_bool("park"); vp_leak_begin(); { auto a = gen(); std::optional<async_generator<int>::iterator> it; int last = -1; for (int i = 0; i < 3; i++) { int w = vp_range("who", 0, 1); bool done = false; auto f = [&](int me) -> co { if (!it) it = co_await a.begin(); else co_await ++*it; CHECK(**it == i, "its element"); last = me; done = true; }; if (w) f(1); else f(0); vp_point(); CHECK(done == !pk[i], "suspends only if the producer does"); if (!done) g.go(); CHECK(done && last == w, "the one that asked continues"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 30
struct pool { static inline int live = 0, sum = 0; using value_type = std::byte; using is_always_equal = std::true_type; std::byte* allocate(size_t n) { live++; sum += (int)n; return ::new std::byte[n]; } void deallocate(std::byte* p, size_t n) { live--; sum -= (int)n; ::delete[] p; } };
task<int, pool> t(int v) { co_return v; } generator<int, pool> g(int v) { co_yield v; co_yield v + 1; } async_generator<int, pool> ag(int v) { co_yield v; co_yield v + 1; }
int main() { int v = vp_nondet("v", 32); vp_leak_begin(); { bool drop = vp_bool("drop"); int n = 0; { auto x = t(v); auto y = g(v); auto z = ag(v); CHECK(pool::live == 3, "every frame comes from the allocator"); if (!drop) { for (int e : y) { CHECK(e == (int)((unsigned)v + n), "works"); n++; } auto body10 = [&]() -> co { n += co_await x == v; for (auto it = co_await z.begin(); it != z.end(); co_await ++it) n++; }; body10(); CHECK(n == 5, "works"); } } CHECK(pool::live == 0 && pool::sum == 0, "and goes back to it with its size"); launch([](int v) -> task<void, pool> { co_return; }(v), pool{}); CHECK(pool::live == 0 && pool::sum == 0, "launched"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 31
struct stats { int live = 0, sum = 0, copies = 0; }; template<int PAD> struct ref { using value_type = std::byte; using is_always_equal = std::false_type; stats* s; char pad[PAD]; ref(stats& x) : s(&x) { s->copies++; } ref(const ref& o) : s(o.s) { s->copies++; } ~ref() { s->copies--; s = nullptr; } std::byte* allocate(size_t n) { s->live++; s->sum += (int)n; return static_cast<std::byte*>(::operator new(n)); } void deallocate(std::byte* p, size_t n) { s->live--; s->sum -= (int)n; ::operator delete(p); } };
bool misaligned; struct alignas(16) big { uint64_t a, b; big(uint64_t x) : a(x), b(x) { if (reinterpret_cast<uintptr_t>(this) & 15) misaligned = true; } };
template<int PAD> task<uint32_t, ref<PAD>> t(uint32_t v, bool thr, ref<PAD>) { big b(v); if (thr) throw err{1}; co_return (uint32_t)b.a; }
template<int PAD> generator<uint32_t, ref<PAD>> g(uint32_t v, ref<PAD>) { big b(v); co_yield (uint32_t)b.a; }
template<int PAD> static void run(uint32_t v, bool thr, bool drop) { stats a, b; { auto x = t<PAD>(v, thr, ref<PAD>(a)); auto y = t<PAD>(v, thr, ref<PAD>(b)); auto z = g<PAD>(v, ref<PAD>(b)); CHECK(a.live == 1 && b.live == 2, "frames come from the allocator that was passed"); if (!drop) { int n = 0, e = 0; auto body11 = [&]() -> co { try { n += co_await x == v; } catch (err&) { e++; } try { n += co_await y == v; } catch (err&) { e++; } }; body11(); for (uint32_t q : z) n += q == v; CHECK(n == (thr ? 1 : 3) && e == (thr ? 2 : 0), "works"); } } CHECK(a.live == 0 && a.sum == 0 && b.live == 0 && b.sum == 0, "and go back to it with their size"); CHECK(a.copies == 0 && b.copies == 0, "no copy of the allocator is left"); CHECK(!misaligned, "frames are aligned like memory from operator new"); }
int main() { uint32_t v = vp_nondet("v", 32); bool thr = vp_bool("throw"), drop = vp_bool("drop"); vp_leak_begin(); { run<0>(v, thr, drop); run<8>(v, thr, drop); run<12>(v, thr, drop); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 32
struct lim { using value_type = std::byte; using is_always_equal = std::false_type; int* left; lim(int& l) : left(&l) {} std::byte* allocate(size_t n) { if (*left == 0) throw std::bad_alloc(); --*left; return static_cast<std::byte*>(::operator new(n)); } void deallocate(std::byte* p, size_t) { ++*left; ::operator delete(p); } };
task<int, lim> t(tracked a, lim) { co_return a.v; }
int main() { int left = vp_range("left", 0, 3), all = left; vp_leak_begin(); { int made = 0; bool ex = false; { std::optional<task<int, lim>> s[3]; try { for (auto& x : s) { x.emplace(t(tracked(1), lim(left))); made++; } } catch (std::bad_alloc&) { ex = true; } CHECK(made == all && ex == (all < 3), "a failing allocation reaches the caller"); CHECK(tracked::live == made, "parameters of failed coroutines are destroyed"); } CHECK(left == all && tracked::live == 0, "the others are released"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 33
using detail::parameter_pack;
int main() { uint32_t a = vp_nondet("a", 32), b = vp_nondet("b", 32), c = vp_nondet("c", 32); const uint32_t k = c; CHECK(&parameter_pack::get_last(a) == &a && &parameter_pack::get_last(a, b) == &b && &parameter_pack::get_last(a, b, k) == &k, "the last argument"); CHECK(&parameter_pack::get_at_index<0>(a, b, c) == &a && &parameter_pack::get_at_index<1>(a, b, c) == &b && &parameter_pack::get_at_index<2>(a, b, c) == &c, "by position"); static_assert(std::is_same_v<decltype(parameter_pack::get_last(a, std::move(b))), uint32_t&&>); auto p = std::make_unique<uint32_t>(a); auto q = parameter_pack::get_at_index<1>(b, std::move(p), c); CHECK(!p && *q == a, "value category is kept"); vp_reach("end"); return 0; }
#endif
