// Memory that runs out. Counted are the allocations of the code itself: calls of malloc from the executable (Eigen's matrices)
// and operator new (strings, vectors, also those that libstdc++ makes on its behalf). Those of libnetcdf are left alone.
#include <atomic>
#include <errno.h>
#include <new>
#include <stddef.h>

extern "C" {
void* __libc_malloc(size_t);
extern char __executable_start, etext;
std::atomic<long> memfault_count(0);
long memfault_target = 0, memfault_more = 0;   // the first one to fail, and how many more
std::atomic<int> memfault_active(0);
std::atomic<long> memfault_hits(0);

static bool hit() {
  if (!memfault_active) return false;
  long n = ++memfault_count;
  if (memfault_target == 0 || n < memfault_target || n > memfault_target + memfault_more) return false;
  memfault_hits++;
  errno = ENOMEM;
  return true;
}

void* malloc(size_t n) {
  char* from = (char*)__builtin_return_address(0);
  if (memfault_active && from >= &__executable_start && from < &etext && hit()) return 0;
  return __libc_malloc(n);
}
}

void* operator new(size_t n) {
  if (hit()) throw std::bad_alloc();
  void* p = __libc_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return hit() ? 0 : __libc_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return hit() ? 0 : __libc_malloc(n ? n : 1); }
