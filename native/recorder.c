/* Records every call that changes or flushes files below one directory, with
 * the data written, so that what a power failure leaves can be worked out.
 *
 * vt_record(dir, log): start recording to the file *log*.
 * vt_mark(n): put a mark into the recording.
 *
 * One record: kind (1 byte), length of the path, of the second path and of the
 * data (3 x 4 bytes), offset (8 bytes), then the two paths and the data.
 *   w write   t truncate (offset = size)   o opened for creation   z opened and emptied
 *   s flush (a file or a directory)   S flush everything   r rename   u unlink
 *   d directory made   l link   k mark (offset = number)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir_[4096];
static size_t dirlen;
static int log_ = -1, broken;

static void put(const void *b, size_t n) {
    const char *p = b;
    while (n) {
        long k = syscall(SYS_write, log_, p, n);
        if (k <= 0) { broken = 1; return; }
        p += k; n -= k;
    }
}
static void rec(char kind, const char *a, const char *b, const void *data, size_t n, int64_t off) {
    int e = errno;
    uint32_t h[3] = { a ? strlen(a) : 0, b ? strlen(b) : 0, n };
    put(&kind, 1); put(h, sizeof h); put(&off, sizeof off);
    if (h[0]) put(a, h[0]);
    if (h[1]) put(b, h[1]);
    if (n) put(data, n);
    errno = e;
}
void vt_record(const char *dir, const char *log) {
    strncpy(dir_, dir, sizeof dir_ - 1);
    dirlen = strlen(dir_);
    log_ = syscall(SYS_openat, AT_FDCWD, log, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600);
}
int vt_broken(void) { return broken || log_ < 0; }
void vt_mark(long n) { if (log_ >= 0) rec('k', 0, 0, 0, 0, n); }

/* *dir_ has no slash at its end: the directory itself counts as well */
static int under(const char *p) {
    return p && strncmp(p, dir_, dirlen) == 0 && (p[dirlen] == 0 || p[dirlen] == '/');
}
static int in_path(const char *p) { return log_ >= 0 && under(p); }
static const char *in_fd(int fd) {
    static __thread char path[4096];
    char link[64];
    int e = errno;
    if (log_ < 0 || fd == log_) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, path, sizeof path - 1);
    errno = e;
    if (k <= 0) return 0;
    path[k] = 0;
    return under(path) ? path : 0;
}
#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static off64_t here(int fd, off64_t done) {          /* where the last *done* bytes went */
    return lseek64(fd, 0, SEEK_CUR) - done;
}
static void readback(int fd, off64_t off, size_t n) {
    const char *p = in_fd(fd);
    char link[64], *buf = malloc(n ? n : 1);
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    int e = errno, g = syscall(SYS_openat, AT_FDCWD, link, O_RDONLY | O_CLOEXEC, 0);
    if (g < 0 || syscall(SYS_pread64, g, buf, n, off) != (long)n) broken = 1;
    else rec('w', p, 0, buf, n, off);
    if (g >= 0) syscall(SYS_close, g);
    free(buf);
    errno = e;
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    ssize_t r = real(fd, b, n);
    const char *p = r > 0 ? in_fd(fd) : 0;
    if (p) rec('w', p, 0, b, r, here(fd, r));
    return r;
}
#define PW(name)                                                      \
    ssize_t name(int fd, const void *b, size_t n, off64_t o) {        \
        REAL(ssize_t, #name, int, const void *, size_t, off64_t);     \
        ssize_t r = real(fd, b, n, o);                                \
        const char *p = r > 0 ? in_fd(fd) : 0;                        \
        if (p) rec('w', p, 0, b, r, o);                               \
        return r;                                                     \
    }
PW(pwrite)
PW(pwrite64)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    ssize_t r = real(fd, v, c);
    if (r > 0 && in_fd(fd)) readback(fd, here(fd, r), r);
    return r;
}
#define SF(name, type)                                                \
    ssize_t name(int fd, int in, type *o, size_t n) {                 \
        REAL(ssize_t, #name, int, int, type *, size_t);               \
        ssize_t r = real(fd, in, o, n);                               \
        if (r > 0 && in_fd(fd)) readback(fd, here(fd, r), r);         \
        return r;                                                     \
    }
SF(sendfile, off_t)
SF(sendfile64, off64_t)
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *o, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    ssize_t r = real(in, io, fd, o, n, f);
    if (r > 0 && in_fd(fd)) readback(fd, o ? *o - r : here(fd, r), r);
    return r;
}
#define TR(name, type)                                                \
    int name(int fd, type n) {                                        \
        REAL(int, #name, int, type);                                  \
        int r = real(fd, n);                                          \
        const char *p = r == 0 ? in_fd(fd) : 0;                       \
        if (p) rec('t', p, 0, 0, 0, n);                               \
        return r;                                                     \
    }
TR(ftruncate, off_t)
TR(ftruncate64, off64_t)
int truncate(const char *p, off_t n) {
    REAL(int, "truncate", const char *, off_t);
    int r = real(p, n);
    if (r == 0 && in_path(p)) rec('t', p, 0, 0, 0, n);
    return r;
}
#define SY(name)                                                      \
    int name(int fd) {                                                \
        REAL(int, #name, int);                                        \
        int r = real(fd);                                             \
        const char *p = r == 0 ? in_fd(fd) : 0;                       \
        if (p) rec('s', p, 0, 0, 0, 0);                               \
        return r;                                                     \
    }
SY(fsync)
SY(fdatasync)
int syncfs(int fd) {
    REAL(int, "syncfs", int);
    int r = real(fd);
    if (log_ >= 0) rec('S', 0, 0, 0, 0, 0);
    return r;
}
void sync(void) {
    REAL(void, "sync", void);
    real();
    if (log_ >= 0) rec('S', 0, 0, 0, 0, 0);
}
#define ONE(name, kind)                                               \
    int name(const char *p) {                                         \
        REAL(int, #name, const char *);                               \
        int r = real(p);                                              \
        if (r == 0 && in_path(p)) rec(kind, p, 0, 0, 0, 0);           \
        return r;                                                     \
    }
ONE(unlink, 'u')
ONE(remove, 'u')
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    int r = real(d, p, f);
    if (r == 0 && in_path(p)) rec('u', p, 0, 0, 0, 0);
    return r;
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    int r = real(p, m);
    if (r == 0 && in_path(p)) rec('d', p, 0, 0, 0, 0);
    return r;
}
#define TWO(name, kind)                                               \
    int name(const char *a, const char *b) {                          \
        REAL(int, #name, const char *, const char *);                 \
        int r = real(a, b);                                           \
        if (r == 0 && (in_path(a) || in_path(b))) rec(kind, a, b, 0, 0, 0); \
        return r;                                                     \
    }
TWO(rename, 'r')
TWO(link, 'l')
int renameat(int x, const char *a, int y, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    int r = real(x, a, y, b);
    if (r == 0 && (in_path(a) || in_path(b))) rec('r', a, b, 0, 0, 0);
    return r;
}

static void opened(int r, const char *p, int flags) {
    if (r >= 0 && (flags & (O_CREAT | O_TRUNC)) && (flags & O_TMPFILE) != O_TMPFILE && in_path(p))
        rec(flags & O_TRUNC ? 'z' : 'o', p, 0, 0, 0, 0);
}
#define OPENER(name)                                                  \
    int name(const char *p, int flags, ...) {                         \
        REAL(int, #name, const char *, int, ...);                     \
        va_list ap; va_start(ap, flags);                              \
        mode_t md = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
        va_end(ap);                                                   \
        int r = real(p, flags, md);                                   \
        opened(r, p, flags);                                          \
        return r;                                                     \
    }
OPENER(open)
OPENER(open64)
#define OPENERAT(name)                                                \
    int name(int d, const char *p, int flags, ...) {                  \
        REAL(int, #name, int, const char *, int, ...);                \
        va_list ap; va_start(ap, flags);                              \
        mode_t md = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
        va_end(ap);                                                   \
        int r = real(d, p, flags, md);                                \
        opened(r, p, flags);                                          \
        return r;                                                     \
    }
OPENERAT(openat)
OPENERAT(openat64)
