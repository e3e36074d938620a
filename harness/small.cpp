// Tagged pointers (C17), scope guards (C18), the thread safe queue (C21).
//@ C17 tags quick -DSCN=1
//@ C18 history quick -DSCN=2 -DOPS=4
//@ C18 history_deep thorough -DSCN=2 -DOPS=10
//@ C18 unwinding quick -DSCN=3
//@ C21 two_pushers_popper quick -DSCN=4 -DNPUSH=2 -DNPOP=1 -DNV=1
//@ C21 pusher_two_poppers quick -DSCN=4 -DNPUSH=1 -DNPOP=2 -DNV=2
//@ C21 two_and_two thorough -DSCN=4 -DNPUSH=2 -DNPOP=2 -DNV=2
//@ C21 history quick -DSCN=5 -DOPS=5
//@ C21 history_deep thorough -DSCN=5 -DOPS=8
//@ C21 move_vs_use quick -DSCN=6
//@ C21 cross_assignment quick -DSCN=7
//@ C21 copy_vs_use quick -DSCN=9
//@ C21 throwing_element quick -DSCN=8
#include "common.h"
#include <asyncpp/ptr_tag.h>
#include <asyncpp/scope_guard.h>
#include <asyncpp/threadsafe_queue.h>
#include <list>
using namespace asyncpp;
#if SCN == 1
template<size_t A> struct alignas(A) al { char c[A]; };
enum class tag { zero, one, two, three };
template<size_t A, size_t ID> static void one(uint64_t any) {
	typedef al<A> X; auto* p = reinterpret_cast<X*>(any & ~uint64_t(A - 1));
	void* t = ptr_tag<ID>(p); auto [q, id] = ptr_untag<X>(t); CHECK(q == p, "the pointer comes back"); CHECK(id == ID, "the tag comes back"); CHECK(ptr_get_tag<X>(t) == ID, "the tag can be read");
	const void* ct = ptr_tag<ID>(static_cast<const X*>(p)); auto [cq, cid] = ptr_untag<X>(ct); CHECK(cq == p && cid == ID && ct == t, "same for constant pointers");
	auto [r, rid] = ptr_untag<X>(static_cast<void*>(p)); CHECK(r == p && rid == 0, "an untagged pointer has tag zero");
	if constexpr (ID <= 3) { auto [e, et] = ptr_untag<X, tag>(ptr_tag<static_cast<tag>(ID)>(p)); CHECK(e == p && et == static_cast<tag>(ID), "enumerations work as tags"); auto [ce, cet] = ptr_untag<X, tag>(ptr_tag<static_cast<tag>(ID)>(static_cast<const X*>(p))); CHECK(ce == p && cet == static_cast<tag>(ID), "enumerations work as tags"); }
	typedef al<A * 2> Y; auto* y = reinterpret_cast<Y*>(any & ~uint64_t(2 * A - 1)); CHECK((ptr_get_tag<X, Y>(ptr_tag<ID>(y)) == ID && ptr_get_tag<Y, X>(ptr_tag<ID>(p)) == ID), "the tag can be read whichever of the types it is"); }
template<size_t A, size_t... I> static void all(uint64_t any, std::index_sequence<I...>) { (one<A, I>(any), ...); }
int main() { uint64_t a = vp_nondet("address", 64); all<1>(a, std::make_index_sequence<1>()); all<2>(a, std::make_index_sequence<2>()); all<4>(a, std::make_index_sequence<4>()); all<8>(a, std::make_index_sequence<8>()); all<16>(a, std::make_index_sequence<16>()); one<64, 63>(a); one<4096, 4095>(a); vp_reach("end"); return 0; }
#elif SCN == 2
int runs[2]; struct fn { int* p; int w; void operator()() noexcept { *p += w; } };
int main() { int w = vp_nondet("w", 16); bool on[2] = {vp_bool("engaged"), true}; { scope_guard g(fn{&runs[0], w + 1}, on[0]); scope_guard h([]() noexcept { runs[1]++; });
	for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_range("which", 0, 1); switch (vp_range("op", 0, 2)) { case 0: if (k) h.engage(); else g.engage(); on[k] = true; break; case 1: if (k) h.disengage(); else g.disengage(); on[k] = false; break; case 2: g.function().w = w + 2 + i; w = w + 1 + i; CHECK(std::as_const(g).function().w == w + 1, "the function can be reached"); break; }
		vp_point(); CHECK(g.is_engaged() == on[0] && h.is_engaged() == on[1], "state"); CHECK(runs[0] == 0 && runs[1] == 0, "not called early"); } }
	CHECK(runs[0] == (on[0] ? w + 1 : 0) && runs[1] == (on[1] ? 1 : 0), "called exactly if engaged at the end, once"); vp_reach("end"); return 0; }
#elif SCN == 3
int n; int order[4]; bool a, b, c; static int body(int t) { scope_guard g1([]() noexcept { order[n++] = 1; }, a); if (t == 1) throw 1; { scope_guard g2([]() noexcept { order[n++] = 2; }); if (b) g2.disengage(); if (t == 2) throw 2; if (t == 3) return 3; } scope_guard g3([]() noexcept { order[n++] = 3; }, c); if (t == 4) throw 4; return 5; }
int main() { a = vp_bool("a"); b = vp_bool("b"); c = vp_bool("c"); int t = vp_range("leave", 0, 5), got = 0; try { got = body(t); } catch (int x) { got = x; } CHECK(got == (t == 0 ? 5 : t), "result"); int m = 0, want[4] = {}; if (t != 1 && !b) want[m++] = 2; if ((t == 0 || t > 3) && c) want[m++] = 3; if (a) want[m++] = 1; CHECK(n == m, "every engaged guard runs, however the scope is left"); for (int i = 0; i < m; i++) CHECK(order[i] == want[i], "innermost first"); vp_reach("end"); return 0; }
#elif SCN == 4
struct msg { int id; uint32_t v; }; threadsafe_queue<msg>* q; uint32_t v[NPUSH * NV]; vp_cell<int> got[NPUSH * NV];
void push(void* a) { int p = (int)(intptr_t)a; for (int i = 0; i < NV; i++) { int k = p * NV + i; if (k & 1) q->emplace(k, v[k]); else q->push({k, v[k]}); } }
void pop(void*) { int last[NPUSH]; for (auto& l : last) l = -1; for (int i = 0; i < NV; i++) { auto r = q->pop(); if (!r) continue; CHECK(r->id >= 0 && r->id < NPUSH * NV && r->v == v[r->id], "intact"); CHECK(r->id > last[r->id / NV], "in order"); last[r->id / NV] = r->id; got[r->id].inc(); } }
int main() { for (auto& x : v) x = vp_nondet("v", 32); vp_leak_begin(); { threadsafe_queue<msg> qq; q = &qq; int t[4], n = 0; for (int i = 0; i < NPUSH; i++) t[n++] = vp_spawn(push, (void*)(intptr_t)i); for (int i = 0; i < NPOP; i++) t[n++] = vp_spawn(pop, 0); for (int i = 0; i < n; i++) vp_join(t[i]);
	int last[NPUSH]; for (auto& l : last) l = -1; while (auto r = qq.pop()) { CHECK(r->v == v[r->id], "intact"); CHECK(r->id > last[r->id / NV], "in order"); last[r->id / NV] = r->id; got[r->id].inc(); } for (auto& g : got) CHECK(g.get() == 1, "every value comes out exactly once"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
typedef threadsafe_queue<int, std::list<int>> Q;
int main() { uint32_t v = vp_nondet("v", 32); vp_leak_begin(); { Q q[2]; int m[2][OPS], h[2] = {}, t[2] = {}; for (int i = 0; i < OPS; i++) { vp_point(); int k = vp_range("which", 0, 1); switch (vp_range("op", 0, 5)) {
	case 0: q[k].push(v + i); m[k][t[k]++] = i; break; case 1: q[k].emplace(v + i); m[k][t[k]++] = i; break;
	case 2: { auto r = q[k].pop(); CHECK(r.has_value() == (h[k] < t[k]), "empty exactly if nothing is left"); if (r) CHECK((uint32_t)*r == v + m[k][h[k]++], "first in, first out"); break; }
	case 3: q[k] = std::move(q[1 - k]); h[k] = h[1 - k]; t[k] = t[1 - k]; for (int j = 0; j < OPS; j++) m[k][j] = m[1 - k][j]; h[1 - k] = t[1 - k]; break;
	case 4: q[k] = std::as_const(q[1 - k]); h[k] = h[1 - k]; t[k] = t[1 - k]; for (int j = 0; j < OPS; j++) m[k][j] = m[1 - k][j]; break;
	case 5: { Q c(std::as_const(q[k])); q[k] = std::as_const(q[k]); Q d(std::move(c)); for (int j = h[k]; j < t[k]; j++) { auto r = d.pop(); CHECK(r && (uint32_t)*r == v + m[k][j], "copies hold the same"); } CHECK(!d.pop() && !c.pop(), "and nothing else"); break; } } }
	for (int k = 0; k < 2; k++) { while (h[k] < t[k]) { auto r = q[k].pop(); CHECK(r && (uint32_t)*r == v + m[k][h[k]++], "what is left"); } CHECK(!q[k].pop(), "empty"); } } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 6
threadsafe_queue<uint32_t>*pa; uint32_t v; vp_cell<int> n;
void user(void*) { pa->push(v + 1); auto r = pa->pop(); if (r) { CHECK(*r == v || *r == v + 1, "intact"); n.inc(); } }
int main() { v = vp_nondet("v", 32); vp_leak_begin(); { threadsafe_queue<uint32_t> a; a.push(v); pa = &a; int t = vp_spawn(user, 0); threadsafe_queue<uint32_t> b(std::move(a)); threadsafe_queue<uint32_t> c(std::as_const(b)); vp_join(t); int k = 0; while (auto r = a.pop()) { CHECK(*r == v || *r == v + 1, "intact"); k++; } while (auto r = b.pop()) { CHECK(*r == v || *r == v + 1, "intact"); k++; } CHECK(k + n.get() == 2, "nothing lost or doubled"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 7
threadsafe_queue<uint32_t>*pa, *pb; uint32_t v;
void t1(void*) { *pa = std::move(*pb); } void t2(void*) { *pb = std::move(*pa); }
int main() { vp_max_trylock(3); v = vp_nondet("v", 32); vp_leak_begin(); { threadsafe_queue<uint32_t> a, b; a.push(v); b.push(v + 1); pa = &a; pb = &b; int x = vp_spawn(t1, 0), y = vp_spawn(t2, 0); vp_join(x); vp_join(y); auto r = a.pop(), s = b.pop(); CHECK(!!r != !!s, "one of them holds what is left"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 8
struct boom { int v; boom(int x, bool b) : v(x) { if (b) throw 1; } };
int main() { int v = vp_nondet("v", 32); vp_leak_begin(); { threadsafe_queue<boom> q; bool first = vp_bool("first"); if (first) q.emplace(v, false); bool t = false; try { q.emplace(v + 1, true); } catch (int) { t = true; } CHECK(t, "the exception reaches the caller"); q.emplace(v + 2, false); auto r = q.pop(); CHECK(r && r->v == (first ? v : v + 2), "the others are still there"); if (first) { r = q.pop(); CHECK(r && r->v == v + 2, "in order"); } CHECK(!q.pop(), "empty"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 9
// a queue is copied (by construction and by assignment) while another thread pushes and pops: every copy is a snapshot
typedef threadsafe_queue<uint32_t, std::list<uint32_t>> Q; Q* pa; uint32_t v;
void user(void*) { pa->push(v + 2); auto r = pa->pop(); CHECK(r && *r == v, "first in, first out"); pa->push(v + 3); }
static void snapshot(Q& c, int min) { int k = 0; uint32_t first = 0; while (auto r = c.pop()) { if (!k) { first = *r - v; CHECK(first <= 1, "starts at the front"); } CHECK(*r == v + first + k, "a snapshot is contiguous"); k++; } CHECK(k >= min && first + k >= 2 && first + k <= 4 && (first ? k >= 2 : k <= 3), "all elements there at one time"); }
int main() { v = vp_nondet("v", 32); vp_leak_begin(); { Q a, c; c.push(v); a.push(v); a.push(v + 1); pa = &a; int t = vp_spawn(user, 0); Q b(a); c = a; vp_join(t); snapshot(b, 2); snapshot(c, 2); Q d(a), e(std::as_const(a)); for (int i = 1; i < 4; i++) { auto r = d.pop(), s = e.pop(); CHECK(r && s && *r == v + i && *s == v + i, "copies hold the same"); } CHECK(!d.pop() && !e.pop(), "and nothing else"); snapshot(a, 3); } vp_reach("end"); vp_leak_check(); return 0; }
#endif
