// heap.hpp - which blocks allocated inside library calls are still alive (sanitizer allocation hooks)
#pragma once
#include <cstddef>
#include <cstdint>
#include <sanitizer/allocator_interface.h>
namespace heap {
enum { N = 1 << 18 };
static const void* tab[N];
static size_t live = 0, allocs = 0, frees_unknown = 0;
static int depth = 0;
static bool installed = false;
static size_t slot(const void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (N - 1); }
static void on_malloc(const volatile void* vp, size_t) {
    if (!depth || !vp) return;
    const void* p = (const void*)vp;
    size_t i = slot(p);
    while (tab[i] && tab[i] != (const void*)1) i = (i + 1) & (N - 1);
    tab[i] = p;
    live++;
    allocs++;
}
static void on_free(const volatile void* vp) {
    const void* p = (const void*)vp;
    if (!p || !live) return;
    size_t i = slot(p);
    while (tab[i]) {
        if (tab[i] == p) { tab[i] = (const void*)1; live--; return; }
        i = (i + 1) & (N - 1);
    }
}
static void reset() {
    if (!installed) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); installed = true; }
    for (size_t i = 0; i < N; i++) tab[i] = nullptr;
    live = allocs = 0;
    depth = 0;
}
// cheap variant used before every case
static void clear() {
    if (!installed || live || allocs > N / 4) reset();
    depth = 0;
}
struct In { In() { depth++; } ~In() { depth--; } };
}  // namespace heap
