/* LD_PRELOAD shim: SIGKILL the process just before its N-th file-system call.
 * POSY_KILL_AT=N    which call (0: never, only count)
 * POSY_KILL_TORN=1  if that call is a write, half of it happens first
 * POSY_KILL_ONLY=a,b  count calls of these kinds only
 * POSY_KILL_BELOW=x   count calls on paths containing x only
 * POSY_FAIL=E       do not kill: make the call fail with errno E
 * POSY_FAIL_ALL=1   and from then on every call that needs room on the disk
 * POSY_KILL_ARMED=1 count from the start
 * Counting starts when a path containing "ARM-THE-SHIM" is opened; when one containing
 * "REPORT-THE-SHIM" is, the count goes to stderr. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed;
static long count, at = -1;
static int torn;

static void say(const char *what) {
    char b[128];
    int n = snprintf(b, sizeof b, "SHIM %s %ld\n", what, count);
    syscall(SYS_write, 2, b, n);
}

static int fail, all, tripped;
static char only[256];
static const char *below;

__attribute__((constructor)) static void begin(void) {
    if (getenv("POSY_KILL_ARMED")) armed = 1;
}

static int wanted(const char *what) {
    size_t n = strlen(what);
    for (const char *p = only; (p = strstr(p, what)); p += n)
        if (p[-1] == ',' && p[n] == ',') return 1;
    return 0;
}

static int due(const char *what, const char *p, int fd) {
    if (!armed) return 0;
    if (at < 0) {
        torn = getenv("POSY_KILL_TORN") != NULL;
        fail = getenv("POSY_FAIL") ? atoi(getenv("POSY_FAIL")) : 0;
        all = getenv("POSY_FAIL_ALL") != NULL;
        if (getenv("POSY_KILL_ONLY")) snprintf(only, sizeof only, ",%s,", getenv("POSY_KILL_ONLY"));
        below = getenv("POSY_KILL_BELOW");
        at = getenv("POSY_KILL_AT") ? atol(getenv("POSY_KILL_AT")) : 0;
    }
    if (only[0] ? !wanted(what) : !strcmp(what, "read")) return 0;
    if (below) {
        char b[4096], l[64];
        if (!p) {
            snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
            ssize_t n = syscall(SYS_readlink, l, b, sizeof b - 1);
            b[n > 0 ? n : 0] = 0;
            p = b;
        }
        if (!strstr(p, below)) return 0;
    }
    if (++count != at) return 0;
    say(what);
    return 1;
}

static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}

/* 0: go on; otherwise fail with this errno */
static int step(const char *what, const char *p, int fd) {
    if (due(what, p, fd)) {
        if (!fail) die();
        tripped = 1;
        return fail;
    }
    if (tripped && all && armed && strstr(",write,writev,create,mkdir,symlink,link,copy,truncate,sync,", what)) return fail;
    return 0;
}
#define STEP(what, p, fd) do { int e_ = step(what, p, fd); if (e_) { errno = e_; return -1; } } while (0)

static void path(const char *p) {
    if (!p) return;
    if (strstr(p, "REPORT-THE-SHIM")) { armed = 0; say("count"); }
}

static void arm(const char *p) {
    if (p && strstr(p, "ARM-THE-SHIM")) armed = 1;
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
    int name(const char *p, int flags, ...) { \
        REAL(name); \
        va_list v; va_start(v, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v); \
        path(p); STEP((flags & O_CREAT) ? "create" : "open", p, -1); \
        int r = real(p, flags, m); \
        arm(p); return r; \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
    int name(int d, const char *p, int flags, ...) { \
        REAL(name); \
        va_list v; va_start(v, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v); \
        STEP("openat", p, -1); \
        return real(d, p, flags, m); \
    }
OPENAT(openat)
OPENAT(openat64)

static int fail_or_due(const char *what, int fd) {
    if (due(what, NULL, fd)) return tripped = 1;
    return fail && tripped && all && armed;
}

ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    STEP("read", NULL, fd);
    return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (fd > 2 && fail_or_due("write", fd)) {
        if (fail) { errno = fail; return -1; }
        if (torn && n > 1) real(fd, b, n / 2);
        die();
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (fd > 2 && fail_or_due("writev", fd)) {
        if (fail) { errno = fail; return -1; }
        if (torn && n > 0 && v[0].iov_len > 1) { struct iovec h = v[0]; h.iov_len /= 2; real(fd, &h, 1); }
        die();
    }
    return real(fd, v, n);
}
#define W1(ret, name, args, call, what, p, fd) \
    ret name args { REAL(name); STEP(what, p, fd); return real call; }
W1(int, rename, (const char *a, const char *b), (a, b), "rename", b, -1)
W1(int, renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), "rename", b, -1)
W1(int, renameat2, (int x, const char *a, int y, const char *b, unsigned f), (x, a, y, b, f), "rename", b, -1)
W1(int, link, (const char *a, const char *b), (a, b), "link", b, -1)
W1(int, linkat, (int x, const char *a, int y, const char *b, int f), (x, a, y, b, f), "link", b, -1)
W1(int, symlink, (const char *a, const char *b), (a, b), "symlink", b, -1)
W1(int, unlink, (const char *a), (a), "unlink", a, -1)
W1(int, unlinkat, (int d, const char *a, int f), (d, a, f), "unlink", a[0] == '/' ? a : NULL, d)
W1(int, rmdir, (const char *a), (a), "rmdir", a, -1)
W1(int, mkdir, (const char *a, mode_t m), (a, m), "mkdir", a, -1)
W1(int, chmod, (const char *a, mode_t m), (a, m), "chmod", a, -1)
W1(int, fchmod, (int a, mode_t m), (a, m), "chmod", NULL, a)
W1(int, fdatasync, (int a), (a), "sync", NULL, a)
W1(int, fsync, (int a), (a), "sync", NULL, a)
W1(int, flock, (int a, int op), (a, op), "flock", NULL, a)
W1(int, ftruncate, (int a, off_t n), (a, n), "truncate", NULL, a)
W1(int, ftruncate64, (int a, off64_t n), (a, n), "truncate", NULL, a)
W1(off64_t, lseek64, (int a, off64_t n, int w), (a, n, w), "lseek", NULL, a)
int close(int a) { REAL(close); if (due("close", NULL, a) && !fail) die(); return real(a); }
W1(ssize_t, copy_file_range, (int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f), (a, x, b, y, n, f), "copy", NULL, b)
W1(ssize_t, sendfile64, (int a, int b, off64_t *x, size_t n), (a, b, x, n), "copy", NULL, a)
W1(ssize_t, pwrite64, (int a, const void *b, size_t n, off64_t o), (a, b, n, o), "write", NULL, a)
