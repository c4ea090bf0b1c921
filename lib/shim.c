/* Counts the file system calls below a directory and makes one of them fail, write only a part, or end the process.
   Armed from python (ctypes): shim_arm(mode, k, err).  mode 0: only count, 1: end before call k, 2: end in the middle of call k (writes),
   3: call k fails with err, 4: from call k on the disk is full: a write stores half, everything later that needs space fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <signal.h>

static int mode = -1, at, err, count, full;
static char root[PATH_MAX];
static char what[4096][24];

void shim_arm(const char *r, int m, int k, int e) { strncpy(root, r, sizeof root - 1); mode = m; at = k; err = e; count = 0; full = 0; }
int shim_count(void) { return count; }
const char *shim_what(int i) { return i < 4096 ? what[i] : ""; }
void shim_off(void) { mode = -1; }

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)

static int below(const char *p) { size_t n = strlen(root); return n && strncmp(p, root, n) == 0 && (p[n] == '/' || p[n] == 0); }
static int in_at(int dfd, const char *path) {
    char buf[PATH_MAX * 2], link[64];
    if (mode < 0 || !path) return 0;
    if (path[0] == '/') return below(path);
    if (dfd == AT_FDCWD) { if (!getcwd(buf, PATH_MAX)) return 0; }
    else {
        snprintf(link, sizeof link, "/proc/self/fd/%d", dfd);
        ssize_t n = readlink(link, buf, PATH_MAX); if (n < 0) return 0; buf[n] = 0;
    }
    strcat(buf, "/"); strncat(buf, path, PATH_MAX - 1);
    return below(buf);
}
static int in_fd(int fd) {
    char buf[PATH_MAX], link[64];
    if (mode < 0) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    int e = errno; ssize_t n = readlink(link, buf, PATH_MAX - 1); errno = e;
    if (n < 0) return 0; buf[n] = 0;
    return below(buf);
}
/* 0: go on, 1: fail (errno set), 2: only half of it, then end, 3: only half */
static int gate(const char *name, int space, size_t n) {
    count++;
    if (count < 4096) strncpy(what[count], name, 23);
    if (mode == 4 && full && space) { errno = ENOSPC; return 1; }
    if (count != at) return 0;
    switch (mode) {
    case 1: kill(getpid(), SIGKILL); for (;;) pause();
    case 2: return n > 16 ? 2 : 0;
    case 3: errno = err; return 1;
    case 4: full = 1; if (n > 16) return 3; if (space) { errno = ENOSPC; return 1; } return 0;
    }
    return 0;
}
static void end(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

#define OPENLIKE(NAME, CALL, DFD) \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(NAME); \
    if (in_at(DFD, path)) { \
        struct stat sb; int creates = (flags & O_CREAT) && stat(path, &sb) != 0; \
        if (gate((flags & (O_WRONLY | O_RDWR)) ? "open-w" : "open-r", creates, 0)) return -1; } \
    return CALL;
int open(const char *path, int flags, ...) { OPENLIKE(open, real(path, flags, m), AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPENLIKE(open64, real(path, flags, m), AT_FDCWD) }
int openat(int dfd, const char *path, int flags, ...) { OPENLIKE(openat, real(dfd, path, flags, m), dfd) }
int openat64(int dfd, const char *path, int flags, ...) { OPENLIKE(openat64, real(dfd, path, flags, m), dfd) }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (in_fd(fd)) { int g = gate("write", 1, n); if (g == 1) return -1; if (g) n /= 2; ssize_t r = real(fd, b, n); if (g == 2) end(); return r; }
    return real(fd, b, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(sendfile);
    if (in_fd(o)) {
        struct stat sb; int g;
        if (fstat(i, &sb) == 0 && (off_t) n > sb.st_size) n = sb.st_size ? sb.st_size : 1;
        g = gate("sendfile", 1, n); if (g == 1) return -1; if (g) n /= 2;
        ssize_t r = real(o, i, off, n); if (g == 2) end(); return r; }
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(sendfile64);
    if (in_fd(o)) {
        struct stat sb; int g;
        if (fstat(i, &sb) == 0 && (off_t) n > sb.st_size) n = sb.st_size ? sb.st_size : 1;
        g = gate("sendfile", 1, n); if (g == 1) return -1; if (g) n /= 2;
        ssize_t r = real(o, i, off, n); if (g == 2) end(); return r; }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (in_fd(o)) { int g = gate("copy_range", 1, n); if (g == 1) return -1; if (g) n /= 2; ssize_t r = real(i, io, o, oo, n, f); if (g == 2) end(); return r; }
    return real(i, io, o, oo, n, f);
}
#define P1(RET, NAME, SPACE, ARGS, CALL, IN) RET NAME ARGS { REAL(NAME); if (IN) { if (gate(#NAME, SPACE, 0)) return -1; } return real CALL; }
P1(int, rename, 0, (const char *a, const char *b), (a, b), in_at(AT_FDCWD, a) || in_at(AT_FDCWD, b))
P1(int, renameat, 0, (int d, const char *a, int e, const char *b), (d, a, e, b), in_at(d, a) || in_at(e, b))
P1(int, renameat2, 0, (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f), in_at(d, a) || in_at(e, b))
P1(int, unlink, 0, (const char *a), (a), in_at(AT_FDCWD, a))
P1(int, unlinkat, 0, (int d, const char *a, int f), (d, a, f), in_at(d, a))
P1(int, rmdir, 0, (const char *a), (a), in_at(AT_FDCWD, a))
P1(int, remove, 0, (const char *a), (a), in_at(AT_FDCWD, a))
P1(int, mkdir, 1, (const char *a, mode_t m), (a, m), in_at(AT_FDCWD, a))
P1(int, mkdirat, 1, (int d, const char *a, mode_t m), (d, a, m), in_at(d, a))
P1(int, link, 1, (const char *a, const char *b), (a, b), in_at(AT_FDCWD, b))
P1(int, symlink, 1, (const char *a, const char *b), (a, b), in_at(AT_FDCWD, b))
P1(int, chmod, 0, (const char *a, mode_t m), (a, m), in_at(AT_FDCWD, a))
P1(int, fchmodat, 0, (int d, const char *a, mode_t m, int f), (d, a, m, f), in_at(d, a))
P1(int, fchmod, 0, (int d, mode_t m), (d, m), in_fd(d))
P1(int, utimensat, 0, (int d, const char *a, const struct timespec t[2], int f), (d, a, t, f), in_at(d, a))
P1(int, ftruncate, 0, (int d, off_t n), (d, n), in_fd(d))
P1(int, ftruncate64, 0, (int d, off64_t n), (d, n), in_fd(d))
P1(int, truncate, 0, (const char *a, off_t n), (a, n), in_at(AT_FDCWD, a))
P1(int, fsync, 0, (int d), (d), in_fd(d))
P1(int, fdatasync, 0, (int d), (d), in_fd(d))
int close(int fd) {
    REAL(close);
    if (mode >= 0 && in_fd(fd) && (fcntl(fd, F_GETFL) & (O_WRONLY | O_RDWR))) { if (gate("close", 0, 0)) { int e = errno; real(fd); errno = e; return -1; } }
    return real(fd);
}
