#ifndef SX_MEMORY_H
#define SX_MEMORY_H
// Bookkeeping of every object made with new: how many are alive, whether any was released twice. Released memory is
// overwritten and never handed out again, so that whoever still uses it shows. Include in one file of a program only.
#include <cstdlib>
#include <cstring>
#include <new>
namespace mem {
static long live = 0, bad = 0;
struct Head { unsigned long state, size; };
static const unsigned long held = 0x5ac3e1d27b964f08UL, gone = 0x19c8a7e6d5f4b302UL;
__attribute__((noinline)) static void* take(std::size_t n) { Head* h = (Head*)std::malloc(sizeof(Head) + n); if (!h) std::abort(); h->state = held; h->size = n; ++live; return h + 1; }
__attribute__((noinline)) static void give(void* p) { if (!p) return; Head* h = (Head*)p - 1; if (h->state != held) { ++bad; return; } h->state = gone; std::memset(p, 0xDD, h->size); --live; }
}
__attribute__((noinline)) void* operator new(std::size_t n) { return mem::take(n); }
__attribute__((noinline)) void* operator new[](std::size_t n) { return mem::take(n); }
__attribute__((noinline)) void operator delete(void* p) noexcept { mem::give(p); }
__attribute__((noinline)) void operator delete[](void* p) noexcept { mem::give(p); }
#endif
