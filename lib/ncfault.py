"""Wrappers that can make any call of the NetCDF library fail, for the symbols that the objects use."""
import os, re, subprocess

SKIP = ("nc_strerror", "nc_inq_libvers")

C = r"""
#include <string.h>
long ncfault_target = 0, ncfault_count = 0;
int ncfault_error = 0;
const char* ncfault_last = 0;
/* called before every NetCDF call; nonzero: fail */
int ncfault_hit(const char* name) {
  ncfault_count++;
  if (ncfault_target == 0 || ncfault_count != ncfault_target) return 0;
  ncfault_last = name;
  return 1;
}
"""

ASM = """
  .globl __wrap_%(n)s
  .type __wrap_%(n)s,@function
__wrap_%(n)s:
  push %%rdi
  push %%rsi
  push %%rdx
  push %%rcx
  push %%r8
  push %%r9
  sub $136, %%rsp
  movups %%xmm0, (%%rsp)
  movups %%xmm1, 16(%%rsp)
  movups %%xmm2, 32(%%rsp)
  movups %%xmm3, 48(%%rsp)
  movups %%xmm4, 64(%%rsp)
  movups %%xmm5, 80(%%rsp)
  movups %%xmm6, 96(%%rsp)
  movups %%xmm7, 112(%%rsp)
  lea name_%(n)s(%%rip), %%rdi
  call ncfault_hit@PLT
  movups (%%rsp), %%xmm0
  movups 16(%%rsp), %%xmm1
  movups 32(%%rsp), %%xmm2
  movups 48(%%rsp), %%xmm3
  movups 64(%%rsp), %%xmm4
  movups 80(%%rsp), %%xmm5
  movups 96(%%rsp), %%xmm6
  movups 112(%%rsp), %%xmm7
  add $136, %%rsp
  pop %%r9
  pop %%r8
  pop %%rcx
  pop %%rdx
  pop %%rsi
  pop %%rdi
  test %%eax, %%eax
  jnz 1f
  jmp __real_%(n)s@PLT
1:
%(fail)s
  mov ncfault_error@GOTPCREL(%%rip), %%rax
  mov (%%rax), %%eax
  ret
  .size __wrap_%(n)s,.-__wrap_%(n)s
  .section .rodata
name_%(n)s: .string "%(n)s"
  .text
"""
# closing releases the handle even if it reports an error
CLOSE = "  sub $8, %%rsp\n  call __real_%s@PLT\n  add $8, %%rsp\n"


def build(d, objs, run, gxx):
    syms = set()
    for o in objs:
        for l in subprocess.run(["nm", "-u", o], stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n"):
            m = re.match(r"\s*U (nc_\w+)", l)
            if m and m.group(1) not in SKIP: syms.add(m.group(1))
    s = "  .text\n" + "".join(ASM % dict(n=n, fail=(CLOSE % n) if n in ("nc_close", "nc_abort") else "") for n in sorted(syms)) + '  .section .note.GNU-stack,"",@progbits\n'
    with open(os.path.join(d, "ncfault.s"), "w") as f: f.write(s)
    with open(os.path.join(d, "ncfault.c"), "w") as f: f.write(C)
    run(["gcc", "-c", "-fPIC", "-O1", "-o", os.path.join(d, "ncfault_c.o"), os.path.join(d, "ncfault.c")])
    run(["gcc", "-c", "-o", os.path.join(d, "ncfault_s.o"), os.path.join(d, "ncfault.s")])
    return [os.path.join(d, "ncfault_c.o"), os.path.join(d, "ncfault_s.o")] + ["-Wl,--wrap=" + n for n in sorted(syms)]
