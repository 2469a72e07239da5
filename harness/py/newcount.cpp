// Preloaded into the Python process: counts the live C++ allocations.
#include <cstdlib>
#include <new>
static long live;
extern "C" long live_cpp_blocks() { return live; }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = malloc(n ? n : 1); if (p) __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); return p; }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { if (p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }
