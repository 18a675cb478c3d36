/* Fault-injecting, logging stand-in for the disk: interposes libc's file calls (LD_PRELOAD) for
 * paths below one scratch directory; everything else passes through untouched.  Controlled from
 * Python through ctypes (disk.py). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_ANY, OP_OPEN, OP_WRITE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_CLOSE, OP_READ,
       OP_LINK, OP_MKDIR, OP_N };
enum { A_NONE, A_ERRNO, A_SHORT, A_STICKY, A_FLIP };

static int enabled = 0;
static char prefix[PATH_MAX] = "";
static size_t prefix_len = 0;
static unsigned char tracked[1 << 16];

#define MAXF 64
static struct { int op; long nth; int action; long arg; long fired; } faults[MAXF];
static int n_faults = 0;
static long counts[OP_N];

typedef struct {
    int32_t op, ret, err, flags;
    int64_t ino, off, len;
    int32_t p1, p2;
} rec_t;

static char *logbuf = NULL;
static size_t log_len = 0, log_cap = 0;

#define REAL(name) \
    static __typeof__(&name) real_##name = NULL; \
    if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

void dst_reset(const char *p) {
    strncpy(prefix, p, PATH_MAX - 1);
    prefix_len = strlen(prefix);
    n_faults = 0;
    log_len = 0;
    memset(counts, 0, sizeof counts);
    memset(tracked, 0, sizeof tracked);
}
void dst_enable(int e) { enabled = e; }
void dst_fault(int op, long nth, int action, long arg) {
    if (n_faults < MAXF) {
        faults[n_faults].op = op; faults[n_faults].nth = nth;
        faults[n_faults].action = action; faults[n_faults].arg = arg;
        faults[n_faults].fired = 0; n_faults++;
    }
}
void dst_clear_faults(void) { n_faults = 0; }
long dst_fired(int i) { return i < n_faults ? faults[i].fired : -1; }
long dst_count(int op) { return counts[op]; }
const char *dst_log(void) { return logbuf; }
long dst_log_len(void) { return (long)log_len; }

static void put(const void *p, size_t n) {
    if (log_len + n > log_cap) {
        log_cap = (log_len + n) * 2 + 4096;
        logbuf = realloc(logbuf, log_cap);
    }
    memcpy(logbuf + log_len, p, n);
    log_len += n;
}
static void record(int op, int ret, int err, int flags, int64_t ino, int64_t off, int64_t len,
                   const char *p1, const char *p2, const void *data) {
    rec_t r = {op, ret, err, flags, ino, off, len,
               p1 ? (int32_t)strlen(p1) : 0, p2 ? (int32_t)strlen(p2) : 0};
    int saved = errno;
    put(&r, sizeof r);
    if (p1) put(p1, r.p1);
    if (p2) put(p2, r.p2);
    if (data && len > 0) put(data, (size_t)len);
    errno = saved;
}
/* -> action for this operation, its argument in *arg */
static int decide(int op, long *arg) {
    long n = counts[op]++;
    long any = counts[OP_ANY]++;
    for (int i = 0; i < n_faults; i++) {
        long k = faults[i].op == OP_ANY ? any : n;
        if (faults[i].op != OP_ANY && faults[i].op != op) continue;
        if (k == faults[i].nth || (faults[i].action == A_STICKY && k >= faults[i].nth)) {
            faults[i].fired++;
            *arg = faults[i].arg;
            return faults[i].action == A_STICKY ? A_ERRNO : faults[i].action;
        }
    }
    return A_NONE;
}
static int absolute(int dirfd, const char *path, char *out) {
    if (path[0] == '/') { strncpy(out, path, PATH_MAX - 1); out[PATH_MAX - 1] = 0; return 1; }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (!getcwd(base, sizeof base)) return 0;
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(l, base, sizeof base - 1);
        if (n < 0) return 0;
        base[n] = 0;
    }
    if ((size_t)snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
    return 1;
}
static int mine(int dirfd, const char *path, char *out) {
    if (!enabled || !prefix_len || !path) return 0;
    int saved = errno;
    int ok = absolute(dirfd, path, out) && strncmp(out, prefix, prefix_len) == 0 &&
             (out[prefix_len] == '/');
    errno = saved;
    return ok;
}
static int fd_mine(int fd) { return enabled && fd >= 0 && fd < (1 << 16) && tracked[fd]; }
static int64_t ino_of(int fd) {
    struct stat st; int saved = errno;
    int64_t r = fstat(fd, &st) == 0 ? (int64_t)st.st_ino : -1;
    errno = saved; return r;
}
static int64_t ino_path(const char *p) {
    struct stat st; int saved = errno;
    int64_t r = stat(p, &st) == 0 ? (int64_t)st.st_ino : -1;
    errno = saved; return r;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    static int (*real)(int, const char *, int, ...) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "openat");
    char p[PATH_MAX];
    if (fd_mine(-1) || !mine(dirfd, path, p) || (flags & O_DIRECTORY))
        return real(dirfd, path, flags, mode);
    long arg = 0;
    int a = decide(OP_OPEN, &arg);
    if (a == A_ERRNO) { record(OP_OPEN, -1, (int)arg, flags, -1, 0, 0, p, NULL, NULL);
                        errno = (int)arg; return -1; }
    int64_t before = ino_path(p);
    struct stat st;
    int isdir = (before != -1 && stat(p, &st) == 0 && S_ISDIR(st.st_mode));
    int fd = real(dirfd, path, flags, mode);
    if (isdir) return fd;
    if (fd >= 0 && fd < (1 << 16)) tracked[fd] = 1;
    int bits = (before == -1 ? 1 : 0) | ((flags & O_TRUNC) ? 2 : 0) |
               ((flags & O_ACCMODE) != O_RDONLY ? 4 : 0);
    if (fd >= 0) record(OP_OPEN, 0, 0, bits, ino_of(fd), 0, 0, p, NULL, NULL);
    return fd;
}
#define VA_MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; \
    va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { VA_MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) {
    VA_MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { VA_MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) {
    VA_MODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t m) {
    return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    if (!fd_mine(fd)) return real_write(fd, buf, n);
    long arg = 0;
    int a = decide(OP_WRITE, &arg);
    int64_t ino = ino_of(fd);
    if (a == A_ERRNO) { record(OP_WRITE, -1, (int)arg, 0, ino, 0, 0, NULL, NULL, NULL);
                        errno = (int)arg; return -1; }
    size_t m = n;
    if (a == A_SHORT && n > 1) { m = (size_t)arg % n; if (m == 0) m = 1; }
    off_t off = (fcntl(fd, F_GETFL) & O_APPEND) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
    ssize_t r = real_write(fd, buf, m);
    if (r > 0) record(OP_WRITE, (int)r, 0, 0, ino, off, r, NULL, NULL, buf);
    return r;
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off) {
    static ssize_t (*real)(int, const void *, size_t, off_t) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "pwrite64");
    if (!fd_mine(fd)) return real(fd, buf, n, off);
    long arg = 0;
    int a = decide(OP_WRITE, &arg);
    int64_t ino = ino_of(fd);
    if (a == A_ERRNO) { record(OP_WRITE, -1, (int)arg, 0, ino, 0, 0, NULL, NULL, NULL);
                        errno = (int)arg; return -1; }
    size_t m = n;
    if (a == A_SHORT && n > 1) { m = (size_t)arg % n; if (m == 0) m = 1; }
    ssize_t r = real(fd, buf, m, off);
    if (r > 0) record(OP_WRITE, (int)r, 0, 0, ino, off, r, NULL, NULL, buf);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!fd_mine(fd)) return real_writev(fd, v, c);
    ssize_t total = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total ? total : r;
        total += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return total;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(sendfile);
    if (!fd_mine(o)) return real_sendfile(o, i, off, n);
    errno = EINVAL; return -1;
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (!fd_mine(o)) return real_copy_file_range(i, a, o, b, n, f);
    errno = EINVAL; return -1;
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    if (!fd_mine(fd)) return real_read(fd, buf, n);
    long arg = 0;
    int a = decide(OP_READ, &arg);
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    size_t m = n;
    if (a == A_SHORT && n > 1) { m = (size_t)arg % n; if (m == 0) m = 1; }
    return real_read(fd, buf, m);
}
static int do_sync(int fd, const char *name) {
    int (*real)(int) = dlsym(RTLD_NEXT, name);
    if (!fd_mine(fd)) return real(fd);
    long arg = 0;
    int a = decide(OP_FSYNC, &arg);
    int64_t ino = ino_of(fd);
    if (a == A_ERRNO) { record(OP_FSYNC, -1, (int)arg, 0, ino, 0, 0, NULL, NULL, NULL);
                        errno = (int)arg; return -1; }
    record(OP_FSYNC, 0, 0, 0, ino, 0, 0, NULL, NULL, NULL);
    return 0; /* the scratch directory needs no real sync */
}
int fsync(int fd) { return do_sync(fd, "fsync"); }
int fdatasync(int fd) { return do_sync(fd, "fdatasync"); }
static int do_rename(int d1, const char *a1, int d2, const char *a2, unsigned fl) {
    static int (*real)(int, const char *, int, const char *, unsigned) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "renameat2");
    char p[PATH_MAX], q[PATH_MAX];
    int m1 = mine(d1, a1, p), m2 = mine(d2, a2, q);
    if (!m1 && !m2) return real(d1, a1, d2, a2, fl);
    if (!m1) absolute(d1, a1, p);
    if (!m2) absolute(d2, a2, q);
    long arg = 0;
    int a = decide(OP_RENAME, &arg);
    if (a == A_ERRNO) { record(OP_RENAME, -1, (int)arg, 0, -1, 0, 0, p, q, NULL);
                        errno = (int)arg; return -1; }
    int64_t ino = ino_path(p);
    int r = real(d1, a1, d2, a2, fl);
    if (r == 0) record(OP_RENAME, 0, 0, 0, ino, 0, 0, p, q, NULL);
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) {
    return do_rename(d1, a, d2, b, f); }
static int do_link(int d1, const char *a1, int d2, const char *a2, int fl) {
    static int (*real)(int, const char *, int, const char *, int) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "linkat");
    char p[PATH_MAX], q[PATH_MAX];
    if (!mine(d1, a1, p) || !mine(d2, a2, q)) return real(d1, a1, d2, a2, fl);
    long arg = 0;
    int a = decide(OP_LINK, &arg);
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    int r = real(d1, a1, d2, a2, fl);
    if (r == 0) record(OP_LINK, 0, 0, 0, ino_path(p), 0, 0, p, q, NULL);
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }
static int do_unlink(int d, const char *path, int fl) {
    static int (*real)(int, const char *, int) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "unlinkat");
    char p[PATH_MAX];
    if ((fl & AT_REMOVEDIR) || !mine(d, path, p)) return real(d, path, fl);
    long arg = 0;
    int a = decide(OP_UNLINK, &arg);
    if (a == A_ERRNO) { record(OP_UNLINK, -1, (int)arg, 0, -1, 0, 0, p, NULL, NULL);
                        errno = (int)arg; return -1; }
    int r = real(d, path, fl);
    if (r == 0) record(OP_UNLINK, 0, 0, 0, -1, 0, 0, p, NULL, NULL);
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int remove(const char *p) {
    REAL(remove);
    char q[PATH_MAX]; struct stat st;
    if (mine(AT_FDCWD, p, q) && lstat(p, &st) == 0 && !S_ISDIR(st.st_mode)) return unlink(p);
    return real_remove(p);
}
static int do_ftruncate(int fd, off_t n) {
    static int (*real)(int, off_t) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "ftruncate64");
    if (!fd_mine(fd)) return real(fd, n);
    long arg = 0;
    int a = decide(OP_TRUNC, &arg);
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    int r = real(fd, n);
    if (r == 0) record(OP_TRUNC, 0, 0, 0, ino_of(fd), n, 0, NULL, NULL, NULL);
    return r;
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }
static int do_truncate(const char *p, off_t n) {
    static int (*real)(const char *, off_t) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "truncate64");
    char q[PATH_MAX];
    if (!mine(AT_FDCWD, p, q)) return real(p, n);
    long arg = 0;
    int a = decide(OP_TRUNC, &arg);
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    int r = real(p, n);
    if (r == 0) record(OP_TRUNC, 0, 0, 0, ino_path(q), n, 0, NULL, NULL, NULL);
    return r;
}
int truncate(const char *p, off_t n) { return do_truncate(p, n); }
int truncate64(const char *p, off_t n) { return do_truncate(p, n); }
int close(int fd) {
    REAL(close);
    if (!fd_mine(fd)) { if (fd >= 0 && fd < (1 << 16)) tracked[fd] = 0; return real_close(fd); }
    tracked[fd] = 0;
    long arg = 0;
    int a = decide(OP_CLOSE, &arg);
    record(OP_CLOSE, 0, a == A_ERRNO ? (int)arg : 0, 0, ino_of(fd), 0, 0, NULL, NULL, NULL);
    int r = real_close(fd); /* the descriptor is gone either way, as on Linux */
    if (a == A_ERRNO) { errno = (int)arg; return -1; }
    return r;
}

/* ---- memory: what a fresh, uninitialised numpy buffer holds is the simulator's choice */
static int poison_byte = -1;
static unsigned long poison_count = 0;
static void *pm_malloc(void *c, size_t n) {
    (void)c;
    void *p = malloc(n ? n : 1);
    if (p && poison_byte >= 0) { memset(p, poison_byte, n); poison_count++; }
    return p;
}
static void *pm_calloc(void *c, size_t a, size_t b) { (void)c; return calloc(a ? a : 1, b ? b : 1); }
static void *pm_realloc(void *c, void *p, size_t n) { (void)c; return realloc(p, n ? n : 1); }
static void pm_free(void *c, void *p, size_t n) {
    (void)c;
    if (p && poison_byte >= 0 && n) memset(p, poison_byte, n);
    free(p);
}
typedef struct {
    char name[127];
    uint8_t version;
    void *ctx;
    void *(*m)(void *, size_t);
    void *(*c)(void *, size_t, size_t);
    void *(*r)(void *, void *, size_t);
    void (*f)(void *, void *, size_t);
} mem_handler_t;
static mem_handler_t handler = {"dst_poison", 1, NULL, pm_malloc, pm_calloc, pm_realloc, pm_free};
void *dst_mem_handler(void) { return &handler; }
void dst_poison(int byte) { poison_byte = byte; }
unsigned long dst_poisoned(void) { return poison_count; }
