/* Ends the process at the n-th call that changes files below one directory.
 *
 * vt_arm(dir, n, mode): start counting; n = 0 never ends the process.
 * mode 0: the call does not happen; 1: a write is cut short, then the end;
 *      2: the call happens, then the end.
 * vt_count(), vt_trace(buf, size): what was seen so far (one letter per call).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir_[4096];
static size_t dirlen;
static long want, seen, armed;
static int mode_;
static char trace_[8192];

void vt_arm(const char *dir, long n, int mode) {
    strncpy(dir_, dir, sizeof dir_ - 1);
    dirlen = strlen(dir_);
    want = n; mode_ = mode; seen = 0; trace_[0] = 0; armed = 1;
}
void vt_disarm(void) { armed = 0; }
long vt_count(void) { return seen; }
void vt_trace(char *buf, size_t size) { strncpy(buf, trace_, size - 1); buf[size - 1] = 0; }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

static int in_path(const char *p) {
    if (!armed || !p) return 0;
    return strncmp(p, dir_, dirlen) == 0;
}
static int in_fd(int fd) {
    char link[64], path[4096];
    ssize_t k;
    if (!armed) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    int e = errno;
    k = readlink(link, path, sizeof path - 1);
    errno = e;
    if (k <= 0) return 0;
    path[k] = 0;
    return strncmp(path, dir_, dirlen) == 0;
}
/* 0: go on; 1: cut short then die; 2: do then die */
static int event(char letter) {
    if (seen < (long)sizeof trace_ - 2) { trace_[seen] = letter; trace_[seen + 1] = 0; }
    seen++;
    if (seen != want) return 0;
    if (mode_ == 0) die();
    return mode_;
}
#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

#define WRITER(name, letter, args, call, shortcall)                    \
    {                                                                 \
        int m = in_fd(fd) ? event(letter) : 0;                        \
        if (m == 1) { shortcall; die(); }                             \
        r = call;                                                     \
        if (m == 2) die();                                            \
        return r;                                                     \
    }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t); ssize_t r;
    WRITER("write", 'w', , real(fd, b, n), (void)!real(fd, b, n / 2))
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); ssize_t r;
    WRITER("pwrite", 'w', , real(fd, b, n, o), (void)!real(fd, b, n / 2, o))
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); ssize_t r;
    WRITER("pwrite64", 'w', , real(fd, b, n, o), (void)!real(fd, b, n / 2, o))
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int); ssize_t r;
    WRITER("writev", 'w', , real(fd, v, c), (void)!real(fd, v, c > 1 ? c / 2 : 0))
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t); ssize_t r;
    WRITER("sendfile", 'w', , real(fd, in, o, n), (void)!real(fd, in, o, n / 2))
}
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); ssize_t r;
    WRITER("sendfile64", 'w', , real(fd, in, o, n), (void)!real(fd, in, o, n / 2))
}
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *o, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); ssize_t r;
    WRITER("copy_file_range", 'w', , real(in, io, fd, o, n, f), (void)!real(in, io, fd, o, n / 2, f))
}
#define FDCALL(type, name, letter, sig, types, args)                  \
    type name sig {                                                   \
        REAL(type, #name, types);                                     \
        int m = in_fd(fd) ? event(letter) : 0;                        \
        type r;                                                       \
        if (m == 1) die();                                            \
        r = real args;                                                \
        if (m == 2) die();                                            \
        return r;                                                     \
    }
#define COMMA ,
FDCALL(int, ftruncate, 't', (int fd, off_t n), int COMMA off_t, (fd, n))
FDCALL(int, ftruncate64, 't', (int fd, off64_t n), int COMMA off64_t, (fd, n))
FDCALL(int, fsync, 's', (int fd), int, (fd))
FDCALL(int, fdatasync, 's', (int fd), int, (fd))
FDCALL(int, fchmod, 'm', (int fd, mode_t n), int COMMA mode_t, (fd, n))
FDCALL(int, fallocate, 'w', (int fd, int k, off_t a, off_t b), int COMMA int COMMA off_t COMMA off_t, (fd, k, a, b))
FDCALL(int, posix_fallocate, 'w', (int fd, off_t a, off_t b), int COMMA off_t COMMA off_t, (fd, a, b))

#define PATHCALL(name, letter, cond, sig, types, args)                \
    int name sig {                                                    \
        REAL(int, #name, types);                                      \
        int m = (cond) ? event(letter) : 0, r;                        \
        if (m == 1) die();                                            \
        r = real args;                                                \
        if (m == 2) die();                                            \
        return r;                                                     \
    }
PATHCALL(unlink, 'u', in_path(p), (const char *p), const char *, (p))
PATHCALL(unlinkat, 'u', in_path(p), (int d, const char *p, int f), int COMMA const char * COMMA int, (d, p, f))
PATHCALL(remove, 'u', in_path(p), (const char *p), const char *, (p))
PATHCALL(rmdir, 'u', in_path(p), (const char *p), const char *, (p))
PATHCALL(truncate, 't', in_path(p), (const char *p, off_t n), const char * COMMA off_t, (p, n))
PATHCALL(mkdir, 'd', in_path(p), (const char *p, mode_t n), const char * COMMA mode_t, (p, n))
PATHCALL(chmod, 'm', in_path(p), (const char *p, mode_t n), const char * COMMA mode_t, (p, n))
PATHCALL(rename, 'r', in_path(a) || in_path(b), (const char *a, const char *b), const char * COMMA const char *, (a, b))
PATHCALL(renameat, 'r', in_path(a) || in_path(b), (int x, const char *a, int y, const char *b),
         int COMMA const char * COMMA int COMMA const char *, (x, a, y, b))
PATHCALL(link, 'l', in_path(a) || in_path(b), (const char *a, const char *b), const char * COMMA const char *, (a, b))
PATHCALL(symlink, 'l', in_path(b), (const char *a, const char *b), const char * COMMA const char *, (a, b))

#define OPENER(name)                                                  \
    int name(const char *p, int flags, ...) {                         \
        REAL(int, #name, const char *, int, ...);                     \
        va_list ap; va_start(ap, flags);                              \
        mode_t md = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
        va_end(ap);                                                   \
        int m = ((flags & (O_CREAT | O_TRUNC)) && in_path(p)) ? event('o') : 0, r; \
        if (m == 1) die();                                            \
        r = real(p, flags, md);                                       \
        if (m == 2) die();                                            \
        return r;                                                     \
    }
OPENER(open)
OPENER(open64)
#define OPENERAT(name)                                                \
    int name(int d, const char *p, int flags, ...) {                  \
        REAL(int, #name, int, const char *, int, ...);                \
        va_list ap; va_start(ap, flags);                              \
        mode_t md = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
        va_end(ap);                                                   \
        int m = ((flags & (O_CREAT | O_TRUNC)) && in_path(p)) ? event('o') : 0, r; \
        if (m == 1) die();                                            \
        r = real(d, p, flags, md);                                    \
        if (m == 2) die();                                            \
        return r;                                                     \
    }
OPENERAT(openat)
OPENERAT(openat64)
