// operators new and delete of the instrumented program: new memory has no history, freeing it is a write
#include <cstddef>
#include <new>
extern "C" void *simomp_new(std::size_t);
extern "C" void *simomp_new_aligned(std::size_t, std::size_t);
extern "C" void simomp_delete(void *, void *);
static void *get(std::size_t n) { void *p = simomp_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return simomp_new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return simomp_new(n); }
void operator delete(void *p) noexcept { simomp_delete(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { simomp_delete(p, __builtin_return_address(0)); }
void operator delete(void *p, std::size_t) noexcept { simomp_delete(p, __builtin_return_address(0)); }
void operator delete[](void *p, std::size_t) noexcept { simomp_delete(p, __builtin_return_address(0)); }
static void *geta(std::size_t n, std::align_val_t a) { void *p = simomp_new_aligned((std::size_t)a, n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n, std::align_val_t a) { return geta(n, a); }
void *operator new[](std::size_t n, std::align_val_t a) { return geta(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { simomp_delete(p, __builtin_return_address(0)); }
void operator delete[](void *p, std::align_val_t) noexcept { simomp_delete(p, __builtin_return_address(0)); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { simomp_delete(p, __builtin_return_address(0)); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { simomp_delete(p, __builtin_return_address(0)); }
