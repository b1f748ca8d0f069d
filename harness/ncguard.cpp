// libnetcdf is not instrumented, so AddressSanitizer does not see what it reads from and writes to the caller's memory.
// These wrappers check the whole range that a call is going to access.
#include <netcdf.h>
#include <cstddef>
#include <sanitizer/asan_interface.h>

static volatile char sink;

static void touch(const void* p, size_t n) {
  if (n == 0) return;
  void* bad = __asan_region_is_poisoned((void*)p, n);
  if (bad) sink = *(volatile char*)bad;   // instrumented: reports with the stack of the caller
}

static size_t elements(int ncid, int var, bool whole, const size_t* count) {
  int nd, dims[NC_MAX_VAR_DIMS];
  if (nc_inq_varndims(ncid, var, &nd) || nc_inq_vardimid(ncid, var, dims)) return 0;
  size_t n = 1, len;
  for (int j = 0; j < nd; j++) {
    if (whole) { if (nc_inq_dimlen(ncid, dims[j], &len)) return 0; }
    else len = count[j];
    n *= len;
  }
  return n;
}

#define GUARD(T, type) \
  extern "C" int __real_nc_put_var_##T(int, int, const type*); \
  extern "C" int __wrap_nc_put_var_##T(int f, int v, const type* p) { touch(p, elements(f, v, true, 0) * sizeof(type)); return __real_nc_put_var_##T(f, v, p); } \
  extern "C" int __real_nc_get_var_##T(int, int, type*); \
  extern "C" int __wrap_nc_get_var_##T(int f, int v, type* p) { touch(p, elements(f, v, true, 0) * sizeof(type)); return __real_nc_get_var_##T(f, v, p); } \
  extern "C" int __real_nc_put_vara_##T(int, int, const size_t*, const size_t*, const type*); \
  extern "C" int __wrap_nc_put_vara_##T(int f, int v, const size_t* s, const size_t* c, const type* p) { touch(p, elements(f, v, false, c) * sizeof(type)); return __real_nc_put_vara_##T(f, v, s, c, p); } \
  extern "C" int __real_nc_get_vara_##T(int, int, const size_t*, const size_t*, type*); \
  extern "C" int __wrap_nc_get_vara_##T(int f, int v, const size_t* s, const size_t* c, type* p) { touch(p, elements(f, v, false, c) * sizeof(type)); return __real_nc_get_vara_##T(f, v, s, c, p); }

GUARD(int, int)
GUARD(long, long)
GUARD(float, float)
GUARD(double, double)
GUARD(text, char)

extern "C" int __real_nc_put_att_text(int, int, const char*, size_t, const char*);
extern "C" int __wrap_nc_put_att_text(int f, int v, const char* a, size_t n, const char* p) { touch(p, n); return __real_nc_put_att_text(f, v, a, n, p); }
