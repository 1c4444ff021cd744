#include "faults.h"
#include <cstdlib>
#include <malloc.h>
#include <new>
static bool armed = false; static u64 countdown = 0, firedN = 0;
static thread_local u64 held = 0;
u64 heapHeld() { return held; }
static void give(void* p) { if (p) { held -= malloc_usable_size(p); std::free(p); } }
static void* get(std::size_t n) {
    if (armed) { if (countdown == 0) { armed = false; ++firedN; throw std::bad_alloc(); } --countdown; }
    void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); held += malloc_usable_size(p); return p;
}
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
FailAlloc::FailAlloc(u64 nth) { armed = true; countdown = nth; firedN = 0; }
FailAlloc::~FailAlloc() { armed = false; }
u64 FailAlloc::fired() const { return firedN; }
