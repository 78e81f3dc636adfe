// Force-included when the library is built for ThreadSanitizer, which does not
// model stand-alone fences.  An acquire fence orders the thread after whatever
// was released to the atomics it read before the fence; here it is given that
// meaning by acquire-loading the atomic the thread accessed last.
#pragma once
#ifndef __cplusplus
#include <stdatomic.h>
static _Thread_local void *verif_last_atomic;
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_add
#undef atomic_load_explicit
#undef atomic_exchange_explicit
#undef atomic_thread_fence
#define VERIF_AT(p) (verif_last_atomic = (void *)(p))
#define atomic_fetch_sub_explicit(p, v, o) (VERIF_AT(p), __c11_atomic_fetch_sub((p), (v), (o)))
#define atomic_fetch_add_explicit(p, v, o) (VERIF_AT(p), __c11_atomic_fetch_add((p), (v), (o)))
#define atomic_fetch_sub(p, v) atomic_fetch_sub_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_fetch_add(p, v) atomic_fetch_add_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_load_explicit(p, o) (VERIF_AT(p), __c11_atomic_load((p), (o)))
#define atomic_exchange_explicit(p, v, o) (VERIF_AT(p), __c11_atomic_exchange((p), (v), (o)))
static inline void verif_fence(memory_order o) {
    __c11_atomic_thread_fence(o);
    if (verif_last_atomic && o != memory_order_relaxed && o != memory_order_release)
        (void)__c11_atomic_load((_Atomic(unsigned) *)verif_last_atomic, memory_order_acquire);
}
#define atomic_thread_fence(o) verif_fence(o)
#endif
