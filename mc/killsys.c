/* Kill points between system calls: the process is ended before the k-th call that changes the disk,
 * or, for a write, also in its middle. Preloaded (see run.py), idle until killsys_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile long armed = -1, n = 0;

void killsys_arm(long k) { n = 0; armed = k; }
long killsys_disarm(void) { armed = -1; return n; }

static void tick(void) {
    if (armed >= 0 && __sync_add_and_fetch(&n, 1) == armed) _exit(9);
}
static int regular(int fd) {
    struct stat s;
    return armed >= 0 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode);
}
#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *b, size_t c) {
    REAL(write);
    if (regular(fd)) {
        tick();
        if (c > 1) { if (armed >= 0 && n + 1 == armed) { real(fd, b, c / 2); } tick(); }
    }
    return real(fd, b, c);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) {
    REAL(pwrite);
    if (regular(fd)) {
        tick();
        if (c > 1) { if (armed >= 0 && n + 1 == armed) { real(fd, b, c / 2, o); } tick(); }
    }
    return real(fd, b, c, o);
}
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(pwrite64);
    if (regular(fd)) {
        tick();
        if (c > 1) { if (armed >= 0 && n + 1 == armed) { real(fd, b, c / 2, o); } tick(); }
    }
    return real(fd, b, c, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (regular(fd)) tick();
    return real(fd, v, c);
}
int ftruncate(int fd, off_t l) { REAL(ftruncate); tick(); return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); tick(); return real(fd, l); }
int rename(const char *a, const char *b) { REAL(rename); tick(); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); tick(); return real(x, a, y, b); }
int unlink(const char *a) { REAL(unlink); tick(); return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); tick(); return real(d, a, f); }
int rmdir(const char *a) { REAL(rmdir); tick(); return real(a); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); tick(); return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(mkdirat); tick(); return real(d, a, m); }
int link(const char *a, const char *b) { REAL(link); tick(); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); tick(); return real(a, b); }

#define OPENER(name) \
    int name(const char *p, int f, ...) { \
        REAL(name); \
        mode_t m = 0; \
        if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
        if (f & (O_CREAT | O_TRUNC)) tick(); \
        return real(p, f, m); \
    }
OPENER(open)
OPENER(open64)
#define OPENERAT(name) \
    int name(int d, const char *p, int f, ...) { \
        REAL(name); \
        mode_t m = 0; \
        if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
        if (f & (O_CREAT | O_TRUNC)) tick(); \
        return real(d, p, f, m); \
    }
OPENERAT(openat)
OPENERAT(openat64)
