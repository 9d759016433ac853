/* LD_PRELOAD shim: sleep now and then before file-system calls.
 * POSY_DELAY_SEED=N  which times
 * Not passed on to child processes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static atomic_ulong n;
static unsigned long seed;

__attribute__((constructor)) static void begin(void) {
    const char *s = getenv("POSY_DELAY_SEED");
    seed = s ? strtoul(s, NULL, 10) : 0;
    unsetenv("LD_PRELOAD");
}

/* Some processes take short naps anywhere, some take long ones around locks. */
static void nap(int lock) {
    unsigned long x = (atomic_fetch_add(&n, 1) + 1) * 0x9E3779B97F4A7C15ul ^ seed * 0xD1B54A32D192ED03ul;
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ul; x ^= x >> 27;
    int sluggish = seed & 1;
    if (sluggish ? !lock || x % 4 : x % 8) return;
    struct timespec t = {0, (x >> 8) % (sluggish ? 300000000 : 20000000)};
    nanosleep(&t, NULL);
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int flock(int fd, int op) { REAL(flock); nap(0); int r = real(fd, op); nap(1); return r; }
int rename(const char *a, const char *b) { REAL(rename); nap(0); int r = real(a, b); nap(0); return r; }
int mkdir(const char *a, mode_t m) { REAL(mkdir); nap(0); return real(a, m); }
int unlink(const char *a) { REAL(unlink); nap(0); return real(a); }
int open64(const char *p, int flags, ...) {
    REAL(open64);
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    nap(0);
    return real(p, flags, m);
}
int open(const char *p, int flags, ...) {
    REAL(open);
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    nap(0);
    return real(p, flags, m);
}
