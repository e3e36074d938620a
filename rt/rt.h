// Primitives below the runtime models. Implemented by the engine and by native.cpp.
#pragma once
#include "vp.h"
extern "C" {
void __vp_enter(void* addr);                                        // scheduling point on addr, then run atomically ...
void __vp_enter_if(void* addr, uint32_t* p, uint32_t mask, int nz); // ... enabled while ((*p & mask) != 0) == nz
void __vp_enter_free(void* addr);                                   // atomic section that needs no scheduling point (a left mover)
void __vp_enter_if2(void* addr, uint32_t* p, uint32_t mask, uint32_t* q); // enabled while (*p & mask) != 0 and *q == 0
void __vp_enter_soft(void* addr);                                   // like __vp_enter / __vp_enter_if2, but waiting with a timeout:
void __vp_enter_soft2z(void* addr, uint32_t* p, uint32_t mask, uint32_t* q); // like __vp_enter_soft2, and also entered (with *q == 0) when nothing else can run
void __vp_enter_soft2(void* addr, uint32_t* p, uint32_t mask, uint32_t* q); // never part of a deadlock; others may go first at no cost
void __vp_leave(void);                                              // ... until here
void __vp_acq(void* addr);                                          // happens-before edges
void __vp_rel(void* addr);
int __vp_cv_budget(void);                                           // one spurious wakeup may happen now?
int __vp_defined(const char*);
}
