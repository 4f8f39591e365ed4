/* Fault injector (LD_PRELOAD): counts the file system operations below a directory and,
 * at the n-th one, ends the process (before the operation, or after half of a write), or
 * makes the operation fail with ENOSPC. Everything is inactive until mc_arm is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[4096], logpath[4096];
static size_t plen;
static volatile long target = -1, counter;
static int mode, armed;
static __thread int inside;

#define REAL(name) ((__typeof__(&name))real_sym(#name))
static void *real_sym(const char *name) {
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) { static const char m[] = "mc crash: no symbol\n"; (void)!REAL(write)(2, m, sizeof m - 1); _exit(99); }
    return p;
}

void mc_arm(const char *pfx, long n, int md, const char *log) {
    strncpy(prefix, pfx, sizeof prefix - 1);
    strncpy(logpath, log, sizeof logpath - 1);
    plen = strlen(prefix);
    mode = md; target = n; counter = 0; armed = 1;
}
void mc_disarm(void) { armed = 0; }
long mc_count(void) { return counter; }

static void report(const char *op, const char *path) {
    char buf[4600];
    int n = snprintf(buf, sizeof buf, "%s %s\n", op, path);
    int fd = REAL(open)(logpath, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { (void)!REAL(write)(fd, buf, n); close(fd); }
}

static const char *fd_path(int fd, char *buf, size_t size) {
    char name[64];
    snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(name, buf, size - 1);
    if (n < 0) return "";
    buf[n] = 0;
    return buf;
}

static const char *at_path(int dirfd, const char *path, char *buf, size_t size) {
    char dir[4096];
    if (path[0] == '/' || dirfd == AT_FDCWD) return path;
    snprintf(buf, size, "%s/%s", fd_path(dirfd, dir, sizeof dir), path);
    return buf;
}

/* returns 0: go on, 1: fail with ENOSPC, 2: do half of it (or all) then exit */
static int event(const char *op, const char *path) {
    if (!armed || strncmp(path, prefix, plen)) return 0;
    long n = __sync_fetch_and_add(&counter, 1);
    if (n == target || (mode == 3 && n >= target && target >= 0)) {
        if (n == target) report(op, path);
        if (mode == 0) _exit(77);
        if (mode == 1) return 2;
        return 1;
    }
    return 0;
}

#define MAKE_OPEN(name)                                                           \
    int name(const char *path, int flags, ...) {                                  \
        mode_t md = 0;                                                            \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, mode_t); va_end(ap); } \
        int e = 0;                                                                \
        if (flags & (O_CREAT | O_TRUNC)) e = event("open", path);                 \
        if (e == 1) { errno = ENOSPC; return -1; }                                \
        int r = REAL(name)(path, flags, md);                                      \
        if (e == 2) _exit(77);                                                    \
        return r;                                                                 \
    }
MAKE_OPEN(open)
MAKE_OPEN(open64)
#define MAKE_OPENAT(name)                                                         \
    int name(int dirfd, const char *path, int flags, ...) {                       \
        mode_t md = 0; char buf[8200];                                            \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, mode_t); va_end(ap); } \
        int e = 0;                                                                \
        if (armed && (flags & (O_CREAT | O_TRUNC))) e = event("open", at_path(dirfd, path, buf, sizeof buf)); \
        if (e == 1) { errno = ENOSPC; return -1; }                                \
        int r = REAL(name)(dirfd, path, flags, md);                               \
        if (e == 2) _exit(77);                                                    \
        return r;                                                                 \
    }
MAKE_OPENAT(openat)
MAKE_OPENAT(openat64)

static int fd_event(const char *op, int fd) {
    char buf[4096];
    if (!armed) return 0;
    return event(op, fd_path(fd, buf, sizeof buf));
}

ssize_t write(int fd, const void *b, size_t n) {
    int e = fd_event("write", fd);
    if (e == 1) { errno = ENOSPC; return -1; }
    if (e == 2) { (void)!REAL(write)(fd, b, n / 2); _exit(77); }
    return REAL(write)(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    int e = fd_event("pwrite", fd);
    if (e == 1) { errno = ENOSPC; return -1; }
    if (e == 2) { (void)!REAL(pwrite)(fd, b, n / 2, o); _exit(77); }
    return REAL(pwrite)(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    int e = fd_event("pwrite", fd);
    if (e == 1) { errno = ENOSPC; return -1; }
    if (e == 2) { (void)!REAL(pwrite64)(fd, b, n / 2, o); _exit(77); }
    return REAL(pwrite64)(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    int e = fd_event("writev", fd);
    if (e == 1) { errno = ENOSPC; return -1; }
    ssize_t r = REAL(writev)(fd, v, n);
    if (e == 2) _exit(77);
    return r;
}
#define SIMPLE(e, call) do { int r_; if (e == 1) { errno = ENOSPC; return -1; } r_ = call; if (e == 2) _exit(77); return r_; } while (0)
int ftruncate(int fd, off_t l) { int e = fd_event("ftruncate", fd); SIMPLE(e, REAL(ftruncate)(fd, l)); }
int ftruncate64(int fd, off64_t l) { int e = fd_event("ftruncate", fd); SIMPLE(e, REAL(ftruncate64)(fd, l)); }
int rename(const char *a, const char *b) { int e = event("rename", b); SIMPLE(e, REAL(rename)(a, b)); }
int renameat(int fa, const char *a, int fb, const char *b) {
    char buf[8200]; int e = armed ? event("rename", at_path(fb, b, buf, sizeof buf)) : 0;
    SIMPLE(e, REAL(renameat)(fa, a, fb, b));
}
int unlink(const char *p) { int e = event("unlink", p); SIMPLE(e, REAL(unlink)(p)); }
int unlinkat(int fd, const char *p, int f) {
    char buf[8200]; int e = armed ? event("unlink", at_path(fd, p, buf, sizeof buf)) : 0;
    SIMPLE(e, REAL(unlinkat)(fd, p, f));
}
int mkdir(const char *p, mode_t m) { int e = event("mkdir", p); SIMPLE(e, REAL(mkdir)(p, m)); }
int rmdir(const char *p) { int e = event("rmdir", p); SIMPLE(e, REAL(rmdir)(p)); }
