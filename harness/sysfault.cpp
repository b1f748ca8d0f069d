// System calls on files that can be made to fail. Being in the executable, these definitions are used by libnetcdf too.
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

extern "C" {
long sysfault_target = 0, sysfault_count = 0, sysfault_active = 0;
int sysfault_errno = 0, sysfault_short = 0;
const char* sysfault_last = 0;

static bool hit(const char* name) {
  if (!sysfault_active) return false;
  sysfault_count++;
  if (sysfault_count != sysfault_target) return false;
  sysfault_last = name;
  errno = sysfault_errno;
  return true;
}

ssize_t read(int fd, void* b, size_t n) { if (fd > 2 && hit("read")) return -1; return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (hit("pread")) return -1; return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { if (hit("pread64")) return -1; return syscall(SYS_pread64, fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) {
  if (fd > 2 && hit("write")) {
    // as when a disk becomes full: a part of the data may have been written
    if (sysfault_short && n > 1) syscall(SYS_write, fd, b, n / 2);
    errno = sysfault_errno;
    return -1;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (hit("pwrite")) return -1; return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { if (hit("pwrite64")) return -1; return syscall(SYS_pwrite64, fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { if (hit("lseek")) return -1; return syscall(SYS_lseek, fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { if (hit("lseek64")) return -1; return syscall(SYS_lseek, fd, o, w); }
int ftruncate(int fd, off_t n) { if (hit("ftruncate")) return -1; return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { if (hit("ftruncate64")) return -1; return syscall(SYS_ftruncate, fd, n); }
int fsync(int fd) { if (hit("fsync")) return -1; return syscall(SYS_fsync, fd); }
int open(const char* p, int f, ...) {
  va_list a; va_start(a, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  if (hit("open")) return -1;
  return syscall(SYS_openat, AT_FDCWD, p, f, m);
}
int open64(const char* p, int f, ...) {
  va_list a; va_start(a, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  if (hit("open64")) return -1;
  return syscall(SYS_openat, AT_FDCWD, p, f | O_LARGEFILE, m);
}
int close(int fd) {
  bool h = hit("close");
  int r = syscall(SYS_close, fd);
  if (h) { errno = sysfault_errno; return -1; }
  return r;
}
}
