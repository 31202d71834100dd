/* Counts, cuts short and fails the operations that change files below one directory. Preloaded into the process under test only. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, KILL, TORN, FAIL, FAIL_FROM };
static int mode = OFF;
static long at = 0, n = 0;
static char root[PATH_MAX];
static FILE *logf_ = NULL;

void crashfs_arm(int m, long k, const char *dir, const char *log) {
    mode = OFF;
    n = 0;
    at = k;
    snprintf(root, sizeof root, "%s", dir ? dir : "");
    if (logf_) fclose(logf_);
    logf_ = log ? fopen(log, "w") : NULL;
    mode = m;
}
long crashfs_count(void) { return n; }

#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int below(const char *p) {
    char buf[PATH_MAX];
    size_t l = strlen(root);
    if (!l || !p) return 0;
    if (p[0] != '/') {
        char cwd[PATH_MAX / 2];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%.2000s", cwd, p);
        p = buf;
    }
    return strncmp(p, root, l) == 0 && (p[l] == '/' || p[l] == 0);
}
static int below_at(int dfd, const char *p) {
    if (p && p[0] != '/' && dfd != AT_FDCWD) {
        char link[64], dir[PATH_MAX / 2], buf[PATH_MAX];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dfd);
        ssize_t r = readlink(link, dir, sizeof dir - 1);
        if (r <= 0) return 0;
        dir[r] = 0;
        snprintf(buf, sizeof buf, "%s/%.2000s", dir, p);
        return below(buf);
    }
    return below(p);
}
static int below_fd(int fd) {
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(link, buf, sizeof buf - 1);
    if (r <= 0) return 0;
    buf[r] = 0;
    return below(buf);
}
/* 0: go on, 1: fail, 2: do half of it and die */
static int point(const char *what, const char *p, int fd) {
    if (mode == OFF) return 0;
    if (p ? !below_at(fd, p) : !below_fd(fd)) return 0;
    n++;
    if (logf_) {
        int m = mode;
        mode = OFF;
        char link[64], buf[PATH_MAX] = "";
        if (!p) {
            snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
            ssize_t r = readlink(link, buf, sizeof buf - 1);
            buf[r > 0 ? r : 0] = 0;
        }
        fprintf(logf_, "%s %s\n", what, p ? p : buf);
        fflush(logf_);
        mode = m;
    }
    if (mode == KILL && n == at) _exit(77);
    if (mode == TORN && n == at) return 2;
    if (mode == FAIL && n == at) { errno = ENOSPC; return 1; }
    if (mode == FAIL_FROM && n >= at) { errno = ENOSPC; return 1; }
    return 0;
}

#define OPEN_BODY(fn, dfd, path, CALL)                                                   \
    REAL(fn);                                                                            \
    mode_t md = 0;                                                                       \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, mode_t); va_end(ap); } \
    if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) {                               \
        int d = mode == OFF ? 0 : point("open", path, dfd);                              \
        if (d == 1) return -1;                                                           \
        if (d == 2) _exit(77);                                                           \
    }                                                                                    \
    return CALL;

int open(const char *path, int flags, ...) { OPEN_BODY(open, AT_FDCWD, path, real_open(path, flags, md)) }
int open64(const char *path, int flags, ...) { OPEN_BODY(open64, AT_FDCWD, path, real_open64(path, flags, md)) }
int openat(int dfd, const char *path, int flags, ...) { OPEN_BODY(openat, dfd, path, real_openat(dfd, path, flags, md)) }
int openat64(int dfd, const char *path, int flags, ...) { OPEN_BODY(openat64, dfd, path, real_openat64(dfd, path, flags, md)) }
int creat(const char *path, mode_t md) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, md); }

static FILE *fopen_(FILE *(*real)(const char *, const char *), const char *path, const char *m) {
    if (mode != OFF && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'))) {
        int d = point("fopen", path, AT_FDCWD);
        if (d == 1) return NULL;
        if (d == 2) _exit(77);
    }
    return real(path, m);
}
FILE *fopen(const char *path, const char *m) { REAL(fopen); return fopen_(real_fopen, path, m); }
FILE *fopen64(const char *path, const char *m) { REAL(fopen64); return fopen_(real_fopen64, path, m); }

ssize_t write(int fd, const void *b, size_t c) {
    REAL(write);
    int d = mode == OFF ? 0 : point("write", NULL, fd);
    if (d == 1) return -1;
    if (d == 2) { real_write(fd, b, c / 2); _exit(77); }
    return real_write(fd, b, c);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) {
    REAL(pwrite);
    int d = mode == OFF ? 0 : point("write", NULL, fd);
    if (d == 1) return -1;
    if (d == 2) { real_pwrite(fd, b, c / 2, o); _exit(77); }
    return real_pwrite(fd, b, c, o);
}
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(pwrite64);
    int d = mode == OFF ? 0 : point("write", NULL, fd);
    if (d == 1) return -1;
    if (d == 2) { real_pwrite64(fd, b, c / 2, o); _exit(77); }
    return real_pwrite64(fd, b, c, o);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(writev);
    int d = mode == OFF ? 0 : point("write", NULL, fd);
    if (d == 1) return -1;
    if (d == 2) { real_writev(fd, v, k / 2); _exit(77); }
    return real_writev(fd, v, k);
}
ssize_t sendfile64(int o, int i, off64_t *f, size_t c) {
    REAL(sendfile64);
    int d = mode == OFF ? 0 : point("write", NULL, o);
    if (d == 1) return -1;
    if (d == 2) { real_sendfile64(o, i, f, c / 2); _exit(77); }
    return real_sendfile64(o, i, f, c);
}
ssize_t sendfile(int o, int i, off_t *f, size_t c) {
    REAL(sendfile);
    int d = mode == OFF ? 0 : point("write", NULL, o);
    if (d == 1) return -1;
    if (d == 2) { real_sendfile(o, i, f, c / 2); _exit(77); }
    return real_sendfile(o, i, f, c);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t c, unsigned fl) {
    REAL(copy_file_range);
    int d = mode == OFF ? 0 : point("write", NULL, o);
    if (d == 1) return -1;
    if (d == 2) { real_copy_file_range(i, io, o, oo, c / 2, fl); _exit(77); }
    return real_copy_file_range(i, io, o, oo, c, fl);
}
#define SIMPLE(name, what, path, fd, decl, args)            \
    int name decl {                                         \
        REAL(name);                                         \
        int d = mode == OFF ? 0 : point(what, path, fd);    \
        if (d == 1) return -1;                              \
        if (d == 2) _exit(77);                              \
        return real_##name args;                            \
    }
SIMPLE(ftruncate, "truncate", NULL, fd, (int fd, off_t l), (fd, l))
SIMPLE(ftruncate64, "truncate", NULL, fd, (int fd, off64_t l), (fd, l))
SIMPLE(truncate, "truncate", p, AT_FDCWD, (const char *p, off_t l), (p, l))
SIMPLE(rename, "rename", b, AT_FDCWD, (const char *a, const char *b), (a, b))
SIMPLE(renameat, "rename", b, y, (int x, const char *a, int y, const char *b), (x, a, y, b))
SIMPLE(renameat2, "rename", b, y, (int x, const char *a, int y, const char *b, unsigned f), (x, a, y, b, f))
SIMPLE(link, "link", b, AT_FDCWD, (const char *a, const char *b), (a, b))
SIMPLE(unlink, "unlink", p, AT_FDCWD, (const char *p), (p))
SIMPLE(unlinkat, "unlink", p, x, (int x, const char *p, int f), (x, p, f))
SIMPLE(remove, "unlink", p, AT_FDCWD, (const char *p), (p))
SIMPLE(rmdir, "rmdir", p, AT_FDCWD, (const char *p), (p))
SIMPLE(mkdir, "mkdir", p, AT_FDCWD, (const char *p, mode_t m), (p, m))
SIMPLE(fsync, "fsync", NULL, fd, (int fd), (fd))
SIMPLE(fdatasync, "fsync", NULL, fd, (int fd), (fd))
