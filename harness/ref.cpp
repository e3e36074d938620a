// Intrusive references: an object is destroyed exactly once, by whoever drops the last reference (C15);
// atomic_ref: concurrent load/store/exchange behave like one atomic handle (C16).
//@ C15 two_threads quick -DSCN=1 -DNT=2
//@ C15 three_threads quick -DSCN=1 -DNT=3 -- --merge 3
//@ C15 unsafe_counter quick -DSCN=2 -DOPS=3 -DCOUNTER=thread_unsafe_refcount
//@ C15 history quick -DSCN=2 -DOPS=3
//@ C15 history_deep thorough -DSCN=2 -DOPS=4
//@ C15 self_and_nested quick -DSCN=3
//@ C15 casts quick -DSCN=4
//@ C15 comparisons quick -DSCN=5
//@ C16 basics quick -DSCN=13
//@ C16 invalid_pointer quick -DSCN=14 -- --max-insts 20000
//@ C16 loads_vs_store quick -DSCN=10 -DFA=0 -DFB=1
//@ C16 stores quick -DSCN=10 -DFA=1 -DFB=1
//@ C16 exchange_vs_load quick -DSCN=10 -DFA=2 -DFB=0
//@ C16 exchanges quick -DSCN=10 -DFA=2 -DFB=2
//@ C16 three_threads thorough -DSCN=10 -DFA=2 -DFB=1 -DFC=0
//@ C16 handle_to_handle quick -DSCN=11
//@ C16 history quick -DSCN=12 -DOPS=4
//@ C16 history_deep thorough -DSCN=12 -DOPS=6
#include "common.h"
#include <asyncpp/ref.h>
using namespace asyncpp;
#ifndef COUNTER
#define COUNTER thread_safe_refcount
#endif
struct obj : intrusive_refcount<obj, COUNTER> { int id; uint32_t v; static inline vp_cell<int> dead[8], born; obj(int i, uint32_t x = 0) : id(i), v(x) { born.inc(); } ~obj() noexcept { v = 0xdead; dead[id].inc(); } using intrusive_refcount<obj, COUNTER>::use_count; };
typedef ref<obj> R;
#if SCN == 1
// each thread has its own handle, writes to the object if it is alone in doing so, and drops the handle
uint32_t v; vp_cell<int> by; struct arg { R h; int slot; };
struct shared : intrusive_refcount<shared> { uint32_t part[3]; static inline vp_cell<int> dead; ~shared() noexcept { for (int i = 0; i < NT; i++) CHECK(part[i] == v + i, "the destructor sees what every holder wrote"); dead.inc(); } };
ref<shared> h[NT]; int how[NT];
void body(void* a) { int i = (int)(intptr_t)a; h[i]->part[i] = v + i; { ref<shared> copy = h[i]; CHECK(copy->part[i] == v + i, "alive"); if (how[i] == 2) { h[i].reset(); CHECK(copy->part[i] == v + i, "still alive"); } }
	switch (how[i]) { case 0: h[i].reset(); break; case 1: h[i] = ref<shared>(); break; case 3: { ref<shared> x = std::move(h[i]); CHECK(!h[i], "moved"); break; } case 4: ref<shared>(h[i].release(), adopt_ref); break; } CHECK(!h[i], "empty"); }
int main() { v = vp_nondet("v", 32); for (auto& x : how) x = vp_range("how", 0, 4); vp_leak_begin(); h[0] = make_ref<shared>(); for (int i = 1; i < NT; i++) h[i] = h[0]; int t[NT]; for (int i = 0; i < NT; i++) t[i] = vp_spawn(body, (void*)(intptr_t)i); for (int x : t) vp_join(x); CHECK(shared::dead.get() == 1, "destroyed exactly once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 2
// every sequence of operations on three handles against a model of who points where
int main() { uint32_t v = vp_nondet("v", 32); vp_leak_begin(); { R h[3]; int m[3] = {-1, -1, -1}; int made = 0, refs[OPS] = {};
	for (int s = 0; s < OPS; s++) { vp_point(); int op = vp_range("op", 0, 9), i = vp_range("i", 0, 2), j = vp_range("j", 0, 2);
		auto set = [&](int a, int to) { if (to >= 0) refs[to]++; if (m[a] >= 0) refs[m[a]]--; m[a] = to; };
		switch (op) { case 0: set(i, made); h[i] = make_ref<obj>(made, v + made); made++; break; case 1: set(i, m[j]); h[i] = h[j]; break; case 2: if (i != j) { set(i, m[j]); set(j, -1); } h[i] = std::move(h[j]); break;
		case 3: set(i, m[j]); h[i].reset(h[j].get()); break; case 4: set(i, -1); h[i].reset(); break; case 5: { R c(h[j]), d(std::move(c)); CHECK(!c && d.get() == h[j].get(), "moved to the new one"); break; }
		case 6: { obj* p = h[i].release(); CHECK(!h[i], "released"); h[i].reset(p, adopt_ref); break; } case 7: { R c(h[j].get()); CHECK(c.get() == h[j].get(), "same object"); break; } case 8: std::swap(h[i], h[j]); std::swap(m[i], m[j]); break; case 9: { R e; CHECK(!e && e.get() == nullptr, "empty"); set(i, -1); h[i] = nullptr; break; } }
		vp_point(); for (int k = 0; k < 3; k++) { CHECK(!!h[k] == (m[k] >= 0) && !h[k] == (m[k] < 0), "empty or not"); if (m[k] >= 0) CHECK(h[k]->id == m[k] && (*h[k]).v == v + m[k] && h[k]->use_count() == (size_t)refs[m[k]], "refers to the right object and counts right"); for (int l = 0; l < 3; l++) CHECK((h[k].get() == h[l].get()) == (m[k] == m[l]), "identity"); }
		for (int o = 0; o < made; o++) CHECK(obj::dead[o].get() == (refs[o] == 0), "destroyed exactly when the last reference goes away"); } }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 3
// an assignment whose old value owns the new one
struct node : intrusive_refcount<node> { ref<node> next; uint32_t v; static inline int alive; node(uint32_t x) : v(x) { alive++; } ~node() noexcept { alive--; } };
int main() { uint32_t v = vp_nondet("v", 32); int how = vp_range("how", 0, 5); vp_leak_begin(); { ref<node> n = make_ref<node>(v); n->next = make_ref<node>(v + 1); CHECK(node::alive == 2, "two");
	switch (how) { case 0: n = n->next; break; case 1: n = std::move(n->next); break; case 2: n.reset(n->next.get()); break; case 3: n = ref<node>(n->next); break; case 4: { node* p = n->next.release(); n.reset(p, adopt_ref); break; } case 5: { ref<node>& self = n; n = self; n = std::move(self); CHECK(n && n->v == v, "assigning a handle to itself changes nothing"); n.reset(n.get()); CHECK(n->v == v && node::alive == 2, "nor does resetting it to its own object"); n = n->next; break; } }
	CHECK(n && n->v == v + 1 && node::alive == 1, "the first is gone, the second is alive"); } CHECK(node::alive == 0, "all gone"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 4
struct base : intrusive_refcount<base> { uint32_t v; static inline int dead; base(uint32_t x) : v(x) {} virtual ~base() noexcept { dead++; } };
struct derived : base { uint32_t w; using base::use_count; derived(uint32_t x, uint32_t y) : base(x), w(y) {} }; struct other : base { using base::base; };
int main() { uint32_t v = vp_nondet("v", 32), w = vp_nondet("w", 32); vp_leak_begin(); { bool d = vp_bool("derived"); ref<base> b = d ? ref<base>(new derived(v, w)) : ref<base>(new other(v));
	ref<derived> x = dynamic_ref_cast<derived>(b); CHECK(!!x == d, "the cast succeeds exactly for the right type"); if (d) { CHECK(x->w == w && x->v == v && x->use_count() == 2, "same object, one more reference"); ref<derived> y = static_ref_cast<derived>(b); CHECK(y.get() == x.get() && y->use_count() == 3, "same"); ref<base> c = static_ref_cast<base>(std::move(y)); CHECK(!y && x->use_count() == 3, "moves"); ref<const base> k = const_ref_cast<const base>(std::move(c)); CHECK(!c && k.get() == b.get() && x->use_count() == 3, "moves"); }
	x.reset(); ref<derived> z = dynamic_ref_cast<derived>(std::move(b)); CHECK(!!z == d && !!b == !d, "a failed cast leaves the source alone"); CHECK(base::dead == 0, "alive"); } CHECK(base::dead == 1, "destroyed once"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 10
// concurrent operations: every reference that comes out is alive, and nothing is lost or destroyed twice
atomic_ref<obj>* ar; uint32_t v; vp_cell<int> out[4]; vp_cell<bool> null_in[4];
void load_(void* a) { R r = ar->load(); if (r) { CHECK(r->v == v + r->id, "a loaded reference is alive"); } CHECK(!!r || true, ""); }
void store_(void* a) { int i = (int)(intptr_t)a; if (null_in[i].get()) ar->reset(); else { if (i & 1) *ar = make_ref<obj>(i, v + i); else { R r = make_ref<obj>(i, v + i); ar->store(r); CHECK(r->v == v + i, "alive"); } } }
void exch_(void* a) { int i = (int)(intptr_t)a; R r = ar->exchange(null_in[i].get() ? R() : make_ref<obj>(i, v + i)); if (r) { CHECK(r->v == v + r->id, "an exchanged reference is alive"); out[r->id].inc(); CHECK(out[r->id].get() == 1, "and comes out once"); } }
void (*fn[3])(void*) = {load_, store_, exch_};
#ifndef FC
#define FC -1
#endif
int main() { v = vp_nondet("v", 32); for (auto& n : null_in) n.set(vp_bool("null")); vp_leak_begin(); { atomic_ref<obj> h{null_in[0].get() ? R() : make_ref<obj>(0, v)}; ar = &h; CHECK(!!h == !null_in[0].get() && !h == null_in[0].get(), "constructed from a reference it holds it"); int t[3], n = 0; t[n++] = vp_spawn(fn[FA], (void*)1); t[n++] = vp_spawn(fn[FB], (void*)2); if (FC >= 0) t[n++] = vp_spawn(fn[FC < 0 ? 0 : FC], (void*)3); for (int i = 0; i < n; i++) vp_join(t[i]);
	R last = h.load(); CHECK(!!last == !!h, "load agrees"); if (last) { CHECK(last->v == v + last->id && last->use_count() == 2, "alive, and counted right"); CHECK(out[last->id].get() == 0, "not handed out already"); } for (int i = 0; i < 4; i++) CHECK(obj::dead[i].get() <= 1, "destroyed at most once"); int dead = 0; for (auto& d : obj::dead) dead += d.get(); CHECK(obj::born.get() - dead == (last ? 1 : 0), "exactly the stored one is alive"); }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 11
atomic_ref<obj>*pa, *pb; uint32_t v;
void t1(void*) { *pa = *pb; } void t2(void*) { if (vp_bool("move")) *pb = std::move(*pa); else pb->store(*pa); }
int main() { v = vp_nondet("v", 32); vp_leak_begin(); { atomic_ref<obj> a{make_ref<obj>(0, v)}, b{make_ref<obj>(1, v + 1)}; pa = &a; pb = &b; int x = vp_spawn(t1, 0), y = vp_spawn(t2, 0); vp_join(x); vp_join(y); for (auto* p : {&a, &b}) { R r = p->load(); if (r) CHECK(r->v == v + r->id, "alive"); } CHECK(obj::dead[0].get() <= 1 && obj::dead[1].get() <= 1, "once"); } CHECK(obj::dead[0].get() == 1 && obj::dead[1].get() == 1, "all gone"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 12
int main() { uint32_t v = vp_nondet("v", 32); vp_leak_begin(); { atomic_ref<obj> h[2]; R k; int m[2] = {-1, -1}, mk = -1, made = 0, refs[OPS] = {};
	auto set = [&](int& a, int to) { if (to >= 0) refs[to]++; if (a >= 0) refs[a]--; a = to; };
	for (int s = 0; s < OPS; s++) { vp_point(); int op = vp_range("op", 0, 8), i = vp_range("i", 0, 1), j = vp_range("j", 0, 1);
		switch (op) { case 0: set(mk, made); k = make_ref<obj>(made, v + made); made++; break; case 1: set(m[i], mk); h[i] = k; break; case 2: set(m[i], mk); set(mk, -1); h[i] = std::move(k); break; case 3: set(m[i], m[j]); h[i] = h[j]; break;
		case 4: if (i != j) { set(m[i], m[j]); set(m[j], -1); h[i] = std::move(h[j]); } break; case 5: set(mk, m[i]); k = h[i].load(); break; case 6: { std::swap(mk, m[i]); R old = h[i].exchange(k); k = old; break; } case 7: set(m[i], -1); h[i].reset(); break;
		case 8: { obj* p = h[i].release(); CHECK(!h[i], "released"); h[i].store(R(p, adopt_ref)); break; } }
		vp_point(); for (int q = 0; q < 2; q++) { CHECK(!!h[q] == (m[q] >= 0), "empty or not"); if (m[q] >= 0) { CHECK(h[q]->id == m[q], "the right object"); CHECK(h[q]->v == v + m[q], "intact"); CHECK(h[q]->use_count() == (size_t)refs[m[q]] + 1, "counted right"); } }
		CHECK(k.get() == nullptr ? mk < 0 : k->id == mk, "handle"); for (int o = 0; o < made; o++) CHECK(obj::dead[o].get() == (refs[o] == 0), "destroyed exactly when the last reference goes away"); } }
	vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 5
// comparing and hashing handles means comparing and hashing the object addresses
int main() { vp_leak_begin(); { R h[3]; h[0] = make_ref<obj>(0); h[1] = make_ref<obj>(1); int a = vp_range("a", 0, 2), b = vp_range("b", 0, 2); bool alias = vp_bool("alias"); if (alias) h[2] = h[0];
	const R &x = h[a], &y = h[b]; const obj *p = x.get(), *q = y.get(); bool eq = p == q; auto cmp = std::compare_three_way{}(p, q);
	CHECK((x == y) == eq && (x != y) == !eq && (x <=> y) == cmp, "handles compare like the addresses");
	CHECK((x == q) == eq && (x != q) == !eq && (x <=> q) == cmp, "also with a pointer on the right");
	CHECK((p == y) == eq && (p != y) == !eq && (p <=> y) == cmp, "and on the left");
	CHECK((x < y) == (cmp < 0) && (x >= y) == (cmp >= 0), "ordered like the addresses");
	CHECK(std::hash<R>{}(x) == std::hash<R>{}(R(x)) && (!eq || std::hash<R>{}(x) == std::hash<R>{}(y)), "equal handles have equal hashes");
	CHECK(obj::dead[0].get() + obj::dead[1].get() == 0, "comparing does not count"); } CHECK(obj::dead[0].get() == 1 && obj::dead[1].get() == 1, "all gone"); vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 13
// an atomic_ref on its own: construction, access, comparison and hashing
int main() { uint32_t v = vp_nondet("v", 32); vp_leak_begin(); { R r0 = make_ref<obj>(0, v), r1 = make_ref<obj>(1, v + 1); int ka = vp_range("a", 0, 2), kb = vp_range("b", 0, 2); const R none; const R &ra = ka == 0 ? none : ka == 1 ? r0 : r1, &rb = kb == 0 ? none : kb == 1 ? r0 : r1;
	{ atomic_ref<obj> a(ra), b{R(rb)}, e; const obj *p = ra.get(), *q = rb.get(); CHECK(!!a == !!ra && !a == !ra && !!b == !!rb && !e, "empty exactly if constructed from an empty reference"); CHECK(r0->use_count() == 1u + (ka == 1) + (kb == 1) && r1->use_count() == 1u + (ka == 2) + (kb == 2), "each holds one reference");
		CHECK(a.load().get() == p && b.load().get() == q && e.load().get() == nullptr, "gives back what it holds"); if (p) CHECK(a->v == v + ra->id && a->id == p->id, "access through the arrow");
		bool eq = p == q; auto cmp = reinterpret_cast<uintptr_t>(p) <=> reinterpret_cast<uintptr_t>(q); CHECK((a == b) == eq && (a != b) == !eq && (a <=> b) == cmp, "compares like the addresses"); CHECK((a == q) == eq && (a != q) == !eq && (a <=> q) == cmp, "also with a pointer on the right"); CHECK((p == b) == eq && (p != b) == !eq && (p <=> b) == cmp, "and on the left");
		CHECK(!eq || std::hash<atomic_ref<obj>>{}(a) == std::hash<atomic_ref<obj>>{}(b), "equal handles have equal hashes"); auto& self = a; a = self; CHECK(a.load().get() == p, "assigning to itself changes nothing"); }
	CHECK(r0->use_count() == 1 && r1->use_count() == 1, "all references given back"); } vp_reach("end"); vp_leak_check(); return 0; }
#elif SCN == 14
// a pointer that collides with the lock bit is refused, with nothing changed
struct fake { char c; }; int count; void refcounted_add_ref(fake*) { count++; } void refcounted_remove_ref(fake*) { count--; }
int main() { uint64_t bits = vp_nondet("bits", 64); fake* p = reinterpret_cast<fake*>(bits); fake* old = reinterpret_cast<fake*>(uintptr_t(0x1000)); bool bad = bits >> 63; int how = vp_range("how", 0, 4); vp_leak_begin(); { atomic_ref<fake> h{ref<fake>(old)}; count = 0; bool threw = false; { ref<fake> r(p); int own = p ? 1 : 0; CHECK(count == own, "one");
	bool construct = how == 4;
	try { switch (how) { case 0: h.store(r); break; case 1: h = r; break; case 2: { ref<fake> x = h.exchange(r); CHECK(!bad && x.get() == old && count == 2 * own, "the old one comes out"); break; } case 3: h = ref<fake>(r); break; case 4: { atomic_ref<fake> g{r}; CHECK(g.load().get() == p, "stored"); CHECK(count == 2 * own, "and counted"); break; } } } catch (const std::logic_error&) { threw = true; }
	CHECK(threw == bad, "refused exactly if the upmost bit is set"); CHECK(h.load().get() == (threw || construct ? old : p), "unchanged if it was refused"); if (threw || construct) CHECK(count == own, "no reference is lost or kept"); }
	if (threw) CHECK(count == 0, "all given back"); h.release(); } vp_reach("end"); vp_leak_check(); return 0; }
#endif
