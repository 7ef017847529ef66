/* Simulated entropy of a helper process: getrandom() and its kin answer from a
 * seeded stream that the simulator selects before each call. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

static uint64_t s = 0x0ddba11;
void sim_seed(uint64_t x) { s = x; }
static uint64_t next(void) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)next();
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (n == 318) return getrandom((void *)a, (size_t)b, (unsigned)c);
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
