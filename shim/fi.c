/*
 * Fault injection at the libc boundary (LD_PRELOAD).
 *
 * Calls that concern files below an armed prefix are counted; the chosen one
 * fails with the chosen errno (or transfers less than asked for).  Nothing
 * happens until fi_arm() is called.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <stdlib.h>

enum { F_ERR = 0, F_SHORT = 1, F_PERSIST = 2, F_EXIT = 3 };
#define MAXFD 4096
static char prefix[PATH_MAX];
static size_t plen = 0;
static long target = -1, seen = 0, fired = 0;
static int mode = 0, err = 5, armed = 0;
static unsigned kinds = 0;         /* bit mask of the kinds that count */
static int persist_kind = -1;
static char fired_what[64];
static unsigned char fdmark[MAXFD];   /* 1: under the prefix, 2: for writing */
static long kindcount[32];

enum { K_WRITE, K_OPENW, K_OPENR, K_READ, K_LINK, K_MKDIR, K_RENAME, K_UNLINK, K_UTIME,
       K_SENDFILE, K_CLOSE, K_CHMOD, K_OPENDIR, K_TRUNC, K_RMDIR };
static const char *KN[] = { "write", "open for writing", "open for reading", "read", "link", "mkdir",
       "rename", "unlink", "utime", "sendfile", "close", "chmod", "opendir", "truncate", "rmdir" };

void fi_arm(const char *pfx, long k, int m, int e, unsigned mask) {
    strncpy(prefix, pfx, sizeof(prefix) - 1);
    plen = strlen(prefix);
    target = k; mode = m; err = e; kinds = mask; seen = 0; fired = 0; persist_kind = -1;
    fired_what[0] = 0;
    memset(kindcount, 0, sizeof(kindcount));
    armed = 1;
}
long fi_disarm(void) { armed = 0; return seen; }
long fi_fired(void) { return fired; }
const char *fi_what(void) { return fired_what; }
long fi_kind(int k) { return kindcount[k]; }

static int under(int dirfd, const char *path) {
    char buf[PATH_MAX];
    if (!path) return 0;
    if (path[0] == '/')
        return strncmp(path, prefix, plen) == 0;
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, sizeof(buf))) return 0;
    } else {
        char l[64]; ssize_t n;
        snprintf(l, sizeof(l), "/proc/self/fd/%d", dirfd);
        n = readlink(l, buf, sizeof(buf) - 1);
        if (n < 0) return 0;
        buf[n] = 0;
    }
    return strncmp(buf, prefix, plen) == 0;
}

/* 0: go on, 1: fail (errno is set), 2: short transfer */
static int hit(int kind) {
    if (!armed || !(kinds & (1u << kind))) return 0;
    kindcount[kind]++;
    if (mode == F_PERSIST && persist_kind >= 0) {
        /* a full disk stays full */
        if (kind == K_WRITE || kind == K_SENDFILE || kind == K_OPENW || kind == K_MKDIR || kind == K_LINK) {
            errno = err;
            return 1;
        }
        return 0;
    }
    if (seen++ != target) return 0;
    fired = 1;
    snprintf(fired_what, sizeof(fired_what), "%s", KN[kind]);
    if (mode == F_EXIT) _exit(77);
    if (mode == F_PERSIST) persist_kind = kind;
    if (mode == F_SHORT) return 2;
    errno = err;
    return 1;
}

#define REAL(name, ret, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, name)

static int isw(int flags) { return (flags & O_ACCMODE) != O_RDONLY; }
static void mark(int fd, int flags, int dirfd, const char *path) {
    if (fd >= 0 && fd < MAXFD)
        fdmark[fd] = under(dirfd, path) ? (isw(flags) ? 3 : 1) : 0;
}
#define OPENBODY(NAME) \
    int m = 0; va_list ap; va_start(ap, flags); \
    if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, int); va_end(ap); \
    REAL(NAME, int, const char *, int, ...); \
    if (armed && !(flags & O_DIRECTORY) && under(AT_FDCWD, path) && hit(isw(flags) ? K_OPENW : K_OPENR)) return -1; \
    int fd = real(path, flags, m); \
    if (plen) mark(fd, flags, AT_FDCWD, path); \
    return fd;
int open(const char *path, int flags, ...) { OPENBODY("open") }
int open64(const char *path, int flags, ...) { OPENBODY("open64") }
#define OPENATBODY(NAME) \
    int m = 0; va_list ap; va_start(ap, flags); \
    if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, int); va_end(ap); \
    REAL(NAME, int, int, const char *, int, ...); \
    if (armed && !(flags & O_DIRECTORY) && under(dfd, path) && hit(isw(flags) ? K_OPENW : K_OPENR)) return -1; \
    int fd = real(dfd, path, flags, m); \
    if (plen) mark(fd, flags, dfd, path); \
    return fd;
int openat(int dfd, const char *path, int flags, ...) { OPENATBODY("openat") }
int openat64(int dfd, const char *path, int flags, ...) { OPENATBODY("openat64") }

static int fdis(int fd) { return fd >= 0 && fd < MAXFD && fdmark[fd]; }
int close(int fd) {
    REAL("close", int, int);
    int w = fd >= 0 && fd < MAXFD && (fdmark[fd] & 2);
    if (fd >= 0 && fd < MAXFD) fdmark[fd] = 0;
    int r = real(fd);
    if (w && hit(K_CLOSE)) return -1;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL("write", ssize_t, int, const void *, size_t);
    if (armed && fdis(fd) && n > 0) {
        int h = hit(K_WRITE);
        if (h == 1) return -1;
        if (h == 2) n = n > 1 ? n / 2 : n;
    }
    return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL("read", ssize_t, int, void *, size_t);
    if (armed && fdis(fd)) {
        int h = hit(K_READ);
        if (h == 1) return -1;
        if (h == 2) n = n > 1 ? n / 2 : n;
    }
    return real(fd, b, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL("sendfile", ssize_t, int, int, off_t *, size_t);
    if (armed && fdis(o)) {
        int h = hit(K_SENDFILE);
        if (h == 1) return -1;
        if (h == 2) n = n > 16 ? 7 : (n > 1 ? 1 : n);
    }
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL("sendfile64", ssize_t, int, int, off64_t *, size_t);
    if (armed && fdis(o)) {
        int h = hit(K_SENDFILE);
        if (h == 1) return -1;
        if (h == 2) n = n > 16 ? 7 : (n > 1 ? 1 : n);
    }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    REAL("copy_file_range", ssize_t, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (armed && fdis(o)) {
        int h = hit(K_SENDFILE);
        if (h == 1) return -1;
        if (h == 2) n = n > 16 ? 7 : (n > 1 ? 1 : n);
    }
    return real(i, oi, o, oo, n, f);
}
int link(const char *a, const char *b) {
    REAL("link", int, const char *, const char *);
    if (armed && under(AT_FDCWD, b) && hit(K_LINK)) return -1;
    return real(a, b);
}
int linkat(int da, const char *a, int db, const char *b, int f) {
    REAL("linkat", int, int, const char *, int, const char *, int);
    if (armed && under(db, b) && hit(K_LINK)) return -1;
    return real(da, a, db, b, f);
}
int mkdir(const char *p, mode_t m) {
    REAL("mkdir", int, const char *, mode_t);
    if (armed && under(AT_FDCWD, p) && hit(K_MKDIR)) return -1;
    return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL("mkdirat", int, int, const char *, mode_t);
    if (armed && under(d, p) && hit(K_MKDIR)) return -1;
    return real(d, p, m);
}
int rename(const char *a, const char *b) {
    REAL("rename", int, const char *, const char *);
    if (armed && under(AT_FDCWD, b) && hit(K_RENAME)) return -1;
    return real(a, b);
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL("renameat", int, int, const char *, int, const char *);
    if (armed && under(db, b) && hit(K_RENAME)) return -1;
    return real(da, a, db, b);
}
int unlink(const char *p) {
    REAL("unlink", int, const char *);
    if (armed && under(AT_FDCWD, p) && hit(K_UNLINK)) return -1;
    return real(p);
}
int unlinkat(int d, const char *p, int f) {
    REAL("unlinkat", int, int, const char *, int);
    if (armed && under(d, p) && hit((f & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK)) return -1;
    return real(d, p, f);
}
int rmdir(const char *p) {
    REAL("rmdir", int, const char *);
    if (armed && under(AT_FDCWD, p) && hit(K_RMDIR)) return -1;
    return real(p);
}
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL("utimensat", int, int, const char *, const struct timespec *, int);
    if (armed && under(d, p) && hit(K_UTIME)) return -1;
    return real(d, p, t, f);
}
int utimes(const char *p, const struct timeval t[2]) {
    REAL("utimes", int, const char *, const struct timeval *);
    if (armed && under(AT_FDCWD, p) && hit(K_UTIME)) return -1;
    return real(p, t);
}
int chmod(const char *p, mode_t m) {
    REAL("chmod", int, const char *, mode_t);
    if (armed && under(AT_FDCWD, p) && hit(K_CHMOD)) return -1;
    return real(p, m);
}
int fchmodat(int d, const char *p, mode_t m, int f) {
    REAL("fchmodat", int, int, const char *, mode_t, int);
    if (armed && under(d, p) && hit(K_CHMOD)) return -1;
    return real(d, p, m, f);
}
int ftruncate(int fd, off_t n) {
    REAL("ftruncate", int, int, off_t);
    if (armed && fdis(fd) && hit(K_TRUNC)) return -1;
    return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    REAL("ftruncate64", int, int, off64_t);
    if (armed && fdis(fd) && hit(K_TRUNC)) return -1;
    return real(fd, n);
}
DIR *opendir(const char *p) {
    REAL("opendir", DIR *, const char *);
    if (armed && under(AT_FDCWD, p) && hit(K_OPENDIR)) return NULL;
    return real(p);
}
