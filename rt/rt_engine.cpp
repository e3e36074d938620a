// Models used only by the symbolic engine (natively the real libstdc++/libc versions run): vpe_ prefix.
#define VP_RUNTIME
#include "rt.h"
#include <cstring>
#include <ucontext.h>
#include <cstddef>
#include <system_error>
extern "C" {
void __vp_raise(void* hdr);
[[noreturn]] void rt_terminate() asm("_ZSt9terminatev");
void* rt_new(size_t) asm("_Znwm"); void rt_del(void*) asm("_ZdlPv");
// ---- exceptions. 64-byte header in front of the object.
struct rt_hdr { void* ti; void (*dtor)(void*); void* obj; rt_hdr* primary; rt_hdr* next; int32_t handlers; uint32_t refs; int32_t uncaught; int32_t pad; };
static_assert(sizeof(rt_hdr) <= 64);
struct rt_eh { rt_hdr* caught; int uncaught; };
static thread_local rt_eh rt_g;
static rt_hdr* vpe_r_hdrOf(void* obj) { return (rt_hdr*)((char*)obj - 64); }
void* vpe___cxa_allocate_exception(size_t n) { char* p = (char*)rt_new(n + 64); rt_hdr* h = (rt_hdr*)p; h->ti = nullptr; h->dtor = nullptr; h->obj = p + 64; h->primary = nullptr; h->next = nullptr; h->handlers = 0; h->refs = 0; h->uncaught = 0; return p + 64; }
void vpe___cxa_free_exception(void* o) { rt_del(vpe_r_hdrOf(o)); }
void* vpe___cxa_init_primary_exception(void* o, void* ti, void (*d)(void*)) { rt_hdr* h = vpe_r_hdrOf(o); h->ti = ti; h->dtor = d; h->refs = 0; return h; }
static void vpe_r_addref(rt_hdr* h) { vp_atomic(1); h->refs++; __vp_rel(&h->refs); vp_atomic(0); }
static void vpe_r_decref(rt_hdr* h) { vp_atomic(1); uint32_t r = --h->refs; __vp_rel(&h->refs); __vp_acq(&h->refs); vp_atomic(0); if (r == 0) { if (h->dtor) h->dtor(h->obj); rt_del(h); } }
void vpe___cxa_throw(void* o, void* ti, void (*d)(void*)) { rt_hdr* h = vpe_r_hdrOf(o); h->ti = ti; h->dtor = d; h->refs = 1; rt_g.uncaught++; h->uncaught = 1; __vp_raise(h); rt_terminate(); }
void* vpe___cxa_begin_catch(rt_hdr* h) {
	if (h->uncaught) { h->uncaught = 0; rt_g.uncaught--; }
	if (h->handlers < 0) h->handlers = -h->handlers;
	h->handlers++; if (rt_g.caught != h) { h->next = rt_g.caught; rt_g.caught = h; }
	return h->obj;
}
static void vpe_r_drop(rt_hdr* h) { if (h->primary) { rt_hdr* p = h->primary; rt_del(h); vpe_r_decref(p); } else vpe_r_decref(h); }
void vpe___cxa_end_catch(void) {
	rt_hdr* h = rt_g.caught; if (!h) return;
	if (h->handlers < 0) { if (++h->handlers == 0) rt_g.caught = h->next; return; } // being rethrown
	if (--h->handlers == 0) { rt_g.caught = h->next; vpe_r_drop(h); }
}
void* vpe___cxa_get_exception_ptr(rt_hdr* h) { return h->obj; }
void vpe___cxa_rethrow(void) { rt_hdr* h = rt_g.caught; if (!h) rt_terminate(); rt_g.uncaught++; h->uncaught = 1; h->handlers = -h->handlers; __vp_raise(h); rt_terminate(); }
int vpe__ZSt19uncaught_exceptionsv(void) { return rt_g.uncaught; }
bool vpe__ZSt18uncaught_exceptionv(void) { return rt_g.uncaught != 0; }
void vpe___clang_call_terminate(void*) { rt_terminate(); }
// ---- exception_ptr: one pointer to the exception object
void vpe__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void** p) { if (*p) vpe_r_addref(vpe_r_hdrOf(*p)); }
void vpe__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** p) { if (*p) { void* o = *p; *p = nullptr; vpe_r_decref(vpe_r_hdrOf(o)); } }
void vpe__ZNSt15__exception_ptr13exception_ptrC1EPv(void** p, void* o) { *p = o; if (o) vpe_r_addref(vpe_r_hdrOf(o)); }
void vpe__ZSt17current_exceptionv(void** out) { rt_hdr* h = rt_g.caught; if (!h) { *out = nullptr; return; } rt_hdr* q = h->primary ? h->primary : h; *out = q->obj; vpe_r_addref(q); }
void vpe__ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE(void** p) {
	rt_hdr* q = vpe_r_hdrOf(*p); vpe_r_addref(q);
	rt_hdr* h = (rt_hdr*)rt_new(64); h->ti = q->ti; h->dtor = nullptr; h->obj = q->obj; h->primary = q; h->next = nullptr; h->handlers = 0; h->refs = 1; h->uncaught = 1; rt_g.uncaught++;
	__vp_raise(h); rt_terminate();
}
void* vpe__ZNKSt15__exception_ptr13exception_ptr20__cxa_exception_typeEv(void** p) { return *p ? vpe_r_hdrOf(*p)->ti : nullptr; }
// ---- standard exceptions (contents are not the subject)
#define EXC(n) void vpe__ZNSt##n##C1EPKc(void*, const char*) {} void vpe__ZNSt##n##C2EPKc(void*, const char*) {} void vpe__ZNSt##n##D1Ev(void*) {} void vpe__ZNSt##n##D2Ev(void*) {} void vpe__ZNSt##n##C1ERKS_(void*, void*) {} void vpe__ZNSt##n##C2ERKS_(void*, void*) {}
EXC(13runtime_error) EXC(11logic_error) EXC(16invalid_argument) EXC(12out_of_range) EXC(12length_error) EXC(12domain_error) EXC(11range_error) EXC(14overflow_error) EXC(15underflow_error)
#define EXD(n) void vpe__ZNSt##n##D1Ev(void*) {} void vpe__ZNSt##n##D2Ev(void*) {}
EXD(8bad_cast) EXD(10bad_typeid) EXD(12bad_weak_ptr) EXD(17bad_function_call) EXD(20bad_array_new_length) EXD(13bad_exception) EXD(12system_error) EXD(16nested_exception)
#define EXS(n) void vpe__ZNSt##n##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {} void vpe__ZNSt##n##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
EXS(13runtime_error) EXS(11logic_error) EXS(16invalid_argument) EXS(12out_of_range) EXS(12length_error) EXS(12domain_error) EXS(11range_error) EXS(14overflow_error) EXS(15underflow_error)
void vpe__ZNSt9exceptionD1Ev(void*) {} void vpe__ZNSt9exceptionD2Ev(void*) {}
void vpe__ZNSt9bad_allocD1Ev(void*) {} void vpe__ZNSt9bad_allocD2Ev(void*) {}
// __throw_* helpers raise the corresponding exception type
void* vpe_r_throw_obj(void* ti, void (*d)(void*)) { void* o = vpe___cxa_allocate_exception(16); vpe___cxa_throw(o, ti, d); return o; }
extern char rt_ti_bfc[] asm("_ZTISt17bad_function_call"); extern char rt_ti_sys[] asm("_ZTISt12system_error");
static void vpe_r_nop(void*) {}
void vpe__ZSt25__throw_bad_function_callv(void) { vpe_r_throw_obj(rt_ti_bfc, vpe_r_nop); }
}
// error categories, and the exceptions that carry a code
namespace { struct rt_cat : std::error_category { const char* n; constexpr rt_cat(const char* s) : n(s) {} const char* name() const noexcept override { return n; } std::string message(int) const override { return {}; }
	std::error_condition default_error_condition(int c) const noexcept override { return {c, *this}; } bool equivalent(int c, const std::error_condition& o) const noexcept override { return o.value() == c && &o.category() == this; } bool equivalent(const std::error_code& o, int c) const noexcept override { return o.value() == c && &o.category() == this; } };
static rt_cat rt_cats[3] = {"generic", "system", "future"}; }
extern "C" {
void vpe__ZNSt3_V214error_categoryD2Ev(void*) {} void vpe__ZNSt3_V214error_categoryD1Ev(void*) {}
const void* vpe__ZNSt3_V216generic_categoryEv(void) { return &rt_cats[0]; } const void* vpe__ZNSt3_V215system_categoryEv(void) { return &rt_cats[1]; } const void* vpe__ZSt15future_categoryv(void) { return &rt_cats[2]; }
void vpe_r_throw_code(void* ti, int v, const void* cat) { char* o = (char*)vpe___cxa_allocate_exception(32); *(int*)(o + 16) = v; *(const void**)(o + 24) = cat; vpe___cxa_throw(o, ti, vpe_r_nop); }
void vpe__ZSt20__throw_system_errori(int v) { vpe_r_throw_code(rt_ti_sys, v, &rt_cats[0]); }
extern char rt_ti_fut[] asm("_ZTISt12future_error"); void vpe__ZSt20__throw_future_errori(int v) { vpe_r_throw_code(rt_ti_fut, v, &rt_cats[2]); }
struct rt_fut_result { void* vptr; void* error; }; // std::__future_base::_Result_base
void vpe__ZNSt13__future_base12_Result_baseC2Ev(rt_fut_result* r) { r->error = nullptr; }
void vpe__ZNSt13__future_base12_Result_baseD2Ev(rt_fut_result* r) { vpe__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(&r->error); }
void vpe__ZNSt12future_errorD1Ev(void*) {} void vpe__ZNSt12future_errorD2Ev(void*) {}
// ---- destructors of thread_local objects: run when a std::thread ends
struct rt_tl { void (*f)(void*); void* o; }; static rt_tl rt_tls[16][8]; static int rt_tln[16];
int vpe___cxa_thread_atexit(void (*f)(void*), void* o, void*) { int t = vp_self(); if (rt_tln[t] < 8) rt_tls[t][rt_tln[t]++] = {f, o}; return 0; }
void rt_tls_exit(void) { int t = vp_self(); while (rt_tln[t]) { rt_tl x = rt_tls[t][--rt_tln[t]]; x.f(x.o); } }
// ---- strings / memory
size_t vpe_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int vpe_memcmp(const unsigned char* a, const unsigned char* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int vpe_bcmp(const unsigned char* a, const unsigned char* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return 1; return 0; }
void* vpe_memchr(const void* p, int c, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char*)p)[i] == (unsigned char)c) return (char*)p + i; return nullptr; }
int vpe_strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
static int rt_errno; int* vpe___errno_location(void) { return &rt_errno; }
// ---- unordered containers: grow through 13, 29, 59 ... buckets
struct rt_policy { float max_load; size_t next; };
size_t vpe__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(rt_policy* p, size_t n) { static const size_t t[] = {2, 5, 13, 29, 59, 127, 257}; for (size_t x : t) if (x >= n) { p->next = x; return x; } return 257; }
struct rt_pair { bool first; size_t second; };
rt_pair vpe__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(rt_policy* p, size_t bkt, size_t elt, size_t ins) {
	if (elt + ins > p->next) { size_t want = elt + ins; if (p->next == 0 && want < 11) want = 11; if (want >= bkt) { size_t n = want + 1; if (n < bkt * 2) n = bkt * 2; return {true, vpe__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(p, n)}; } p->next = bkt; }
	return {false, 0};
}
// ---- std::list
struct rt_ln { rt_ln *next, *prev; };
void vpe__ZNSt8__detail15_List_node_base7_M_hookEPS0_(rt_ln* s, rt_ln* pos) { s->next = pos; s->prev = pos->prev; pos->prev->next = s; pos->prev = s; }
void vpe__ZNSt8__detail15_List_node_base9_M_unhookEv(rt_ln* s) { rt_ln *n = s->next, *p = s->prev; p->next = n; n->prev = p; }
void vpe__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(rt_ln* s, rt_ln* f, rt_ln* l) { if (s != l) { l->prev->next = s; f->prev->next = l; s->prev->next = f; rt_ln* t = s->prev; s->prev = l->prev; l->prev = f->prev; f->prev = t; } }
void vpe__ZNSt8__detail15_List_node_base4swapERS0_S1_(rt_ln* x, rt_ln* y) { // two list headers
	bool ex = x->next == x, ey = y->next == y; rt_ln a = *x, b = *y; if (ey) { x->next = x->prev = x; } else { *x = b; x->next->prev = x->prev->next = x; } if (ex) { y->next = y->prev = y; } else { *y = a; y->next->prev = y->prev->next = y; } }
void vpe__ZNSt8__detail15_List_node_base10_M_reverseEv(rt_ln* s) { rt_ln* t = s; do { rt_ln* n = t->next; t->next = t->prev; t->prev = n; t = n; } while (t != s); }
// ---- std::map/set: an unbalanced search tree with libstdc++'s node layout
struct rt_rb { int color; rt_rb *parent, *left, *right; };
void vpe__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, rt_rb* x, rt_rb* p, rt_rb* hdr) {
	x->parent = p; x->left = x->right = nullptr; x->color = 1;
	if (left) { p->left = x; if (p == hdr) { hdr->parent = x; hdr->right = x; } else if (p == hdr->left) hdr->left = x; }
	else { p->right = x; if (p == hdr->right) hdr->right = x; }
}
static rt_rb* rt_min(rt_rb* x) { while (x->left) x = x->left; return x; }
static rt_rb* rt_max(rt_rb* x) { while (x->right) x = x->right; return x; }
rt_rb* vpe__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(rt_rb* x) {
	if (x->right) return rt_min(x->right);
	rt_rb* y = x->parent; while (x == y->right) { x = y; y = y->parent; } if (x->right != y) x = y; return x;
}
rt_rb* vpe__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(rt_rb* x) { return vpe__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
static bool rt_isHeader(rt_rb* x) { return x->color == 0; }
rt_rb* vpe__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(rt_rb* x) {
	if (rt_isHeader(x)) return x->right; // header is red (0); our nodes are black (1)
	if (x->left) return rt_max(x->left);
	rt_rb* y = x->parent; while (x == y->left) { x = y; y = y->parent; } return y;
}
rt_rb* vpe__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(rt_rb* x) { return vpe__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
rt_rb* vpe__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(rt_rb* z, rt_rb* hdr) {
	auto replace = [&](rt_rb* a, rt_rb* b) { if (hdr->parent == a) hdr->parent = b; else if (a->parent->left == a) a->parent->left = b; else a->parent->right = b; if (b) b->parent = a->parent; };
	if (!z->left) { rt_rb* r = z->right; replace(z, r); if (hdr->left == z) hdr->left = r ? rt_min(r) : z->parent; if (hdr->right == z) hdr->right = r ? rt_max(r) : z->parent; }
	else if (!z->right) { rt_rb* l = z->left; replace(z, l); if (hdr->right == z) hdr->right = rt_max(l); }
	else {
		rt_rb* y = rt_min(z->right);
		if (y->parent != z) { replace(y, y->right); y->right = z->right; y->right->parent = y; }
		replace(z, y); y->left = z->left; y->left->parent = y;
	}
	return z;
}
// ---- facilities whose results are not the subject: output is dropped, randomness is a constant
int vpe_printf(const char*, ...) { return 0; } int vpe_fprintf(void*, const char*, ...) { return 0; } int vpe_puts(const char*) { return 0; } int vpe_putchar(int c) { return c; } int vpe_fputs(const char*, void*) { return 0; } int vpe_fputc(int c, void*) { return c; } int vpe_fflush(void*) { return 0; } size_t vpe_fwrite(const void*, size_t, size_t n, void*) { return n; } void vpe_perror(const char*) {}
void vpe__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {} void vpe__ZNSt13random_device7_M_finiEv(void*) {} unsigned vpe__ZNSt13random_device9_M_getvalEv(void*) { return 4; }
int vpe_rand(void) { return 4; } void vpe_srand(unsigned) {} 
// ---- atomic free functions on shared_ptr: one lock for all
static uint32_t rt_spl;
void vpe__ZNSt10_Sp_lockerC1EPKv(uint8_t* p, const void*) { __vp_enter_if(&rt_spl, &rt_spl, ~0u, 0); rt_spl = 1; __vp_acq(&rt_spl); __vp_leave(); p[0] = p[1] = 0; }
void vpe__ZNSt10_Sp_lockerC1EPKvS1_(uint8_t* p, const void* a, const void*) { vpe__ZNSt10_Sp_lockerC1EPKv(p, a); }
void vpe__ZNSt10_Sp_lockerD1Ev(void*) { __vp_enter(&rt_spl); rt_spl = 0; __vp_rel(&rt_spl); __vp_leave(); }
long vpe_sysconf(int) { return 4096; }
int vpe_getpagesize(void) { return 4096; }
// ---- fiber_swap_stack: its assembly runs on a cpu state. Where it returns to decides which stack goes on: a suspended
// one (named by its return address) or a new one (a function, its parameter in rdi).
void __vp_fiber(void* cur, void* to, void* entry, void* param, void* sp);
void vpe_vp_swap_model(vp_cpu* c, void** out, void* to, void (*real)(vp_cpu*)) {
	if (c) { c->r[VP_RDI] = (uint64_t)out; c->r[VP_RSI] = (uint64_t)to; real(c); return; }
	uint64_t stk[64] = {}; vp_cpu l = {}; l.mxcsr = 0x1f80; l.x87cw = 0x37f; l.r[VP_RSP] = (uint64_t)&stk[62]; stk[62] = (uint64_t)&stk[0]; l.r[VP_RDI] = (uint64_t)out; l.r[VP_RSI] = (uint64_t)to; real(&l);
	__vp_fiber(&stk[0], (void*)l.rip, (void*)l.rip, (void*)l.r[VP_RDI], to);
}
void vpe_vp_fp_use(vp_cpu*) {}
uint64_t vpe_vp_landing(int i) { return 0x7f5500001000ull + i * 16; }
}
// the floating point environment of the creator of a fiber
extern "C" { extern vp_cpu* rt_cpu_get(void); void vpe_asm_stmxcsr(uint32_t* p) { auto* c = rt_cpu_get(); *p = c ? c->mxcsr : 0x1f80; } void vpe_asm_fnstcw(uint16_t* p) { auto* c = rt_cpu_get(); *p = c ? c->x87cw : 0x37f; } void vpe_asm_ldmxcsr(uint32_t* p) { if (auto* c = rt_cpu_get()) c->mxcsr = *p; } void vpe_asm_fldcw(uint16_t* p) { if (auto* c = rt_cpu_get()) c->x87cw = *p; } }

// ---- ucontext: the same, a suspended stack is named by its ucontext_t
extern "C" {
static void rt_uc_entry(void* v) { auto* u = (ucontext_t*)v; auto* g = u->uc_mcontext.gregs; ((void (*)(uint32_t, uint32_t, uint32_t, uint32_t))g[0])((uint32_t)g[1], (uint32_t)g[2], (uint32_t)g[3], (uint32_t)g[4]); vp_check(u->uc_link != nullptr, "the entry function of a context returned"); }
int vpe_getcontext(ucontext_t* u) { memset(u, 0, sizeof *u); return 0; }
void vpe_makecontext(ucontext_t* u, void (*f)(), int n, uint32_t a, uint32_t b, uint32_t c, uint32_t d) { vp_check(n == 4, "[model] makecontext with four arguments"); auto* g = u->uc_mcontext.gregs; g[0] = (long)f; g[1] = a; g[2] = b; g[3] = c; g[4] = d; }
int vpe_swapcontext(ucontext_t* o, const ucontext_t* i) { __vp_fiber(o, (void*)i, (void*)rt_uc_entry, (void*)i, i->uc_stack.ss_sp); return 0; }
}
