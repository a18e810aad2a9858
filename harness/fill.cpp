// Makes reads of uninitialised heap memory visible: fresh blocks get a chosen byte, and a result
// that depends on that byte depends on uninitialised memory.
#include "fill.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
namespace vm {
int heapFill = -1;
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VERIF_VALGRIND)
static inline void *filled(void *p, size_t n)
{
  if (p && vm::heapFill >= 0 && n <= (1u << 20))
    memset(p, vm::heapFill, n);
  return p;
}
extern "C" void *__real_malloc(size_t);
extern "C" void *__wrap_malloc(size_t n) { return filled(__real_malloc(n), n); }
void *operator new(size_t n)
{
  void *p = __real_malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return filled(p, n);
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
