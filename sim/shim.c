/* LD_PRELOAD seam between Python and the operating system.
 *
 * Everything is off until the simulator turns it on through the sim_* functions (called with
 * ctypes).  When on:
 *  - file operations on paths below one prefix are numbered, logged (with the data written) and
 *    subject to a fault plan: crash before / in the middle of / after operation i, fail it with an
 *    errno, make it short;
 *  - clocks read from simulated values and sleeping advances them;
 *  - getrandom()/getentropy()/urandom reads are a seeded stream.
 * Built with: gcc -O2 -shared -fPIC -o shim.so shim.c -ldl
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#undef open
#undef openat
#undef creat
#undef fcntl

/* ------------------------------------------------------------------ control state */
static int fs_on = 0;
static char prefix[PATH_MAX];
static size_t prefix_len = 0;
static int log_fd = -1;
static int64_t op_count = 0;

enum { F_NONE = 0, F_CRASH_BEFORE = 1, F_CRASH_PARTIAL = 2, F_ERR = 3, F_SHORT = 4,
       F_CRASH_AFTER = 5, F_STICKY = 6 /* this and all later writing operations fail */,
       F_RENAME_TWICE = 7 };
#define MAXPLAN 4096
static struct { int64_t idx; int kind; int64_t arg; } plan[MAXPLAN];
static int nplan = 0;
static int64_t fired[16];

static int clk_on = 0;
static int64_t clk_mono, clk_real, clk_cpu, clk_tick;
static int64_t clk_reads[3];

static int ent_on = 0;
static uint64_t ent_state;
static int64_t ent_reads;

struct rec { int64_t idx; int32_t kind, fault; int64_t ino; int64_t off; int64_t len; int64_t want;
             int32_t res, err, p1, p2; };

static void log_rec(char kind, int fault, int64_t ino, int64_t off, const void *data, int64_t len,
                    int64_t want, int res, int err, const char *p1, const char *p2) {
    if (log_fd < 0) return;
    struct rec r = {op_count, kind, fault, ino, off, data ? len : 0, want, res, err,
                    p1 ? (int)strlen(p1) : 0, p2 ? (int)strlen(p2) : 0};
    struct iovec v[4] = {{&r, sizeof r}, {(void *)p1, r.p1}, {(void *)p2, r.p2},
                         {(void *)data, (size_t)r.len}};
    syscall(SYS_writev, log_fd, v, 4);
}

static int abspath(int dirfd, const char *path, char *out) {
    if (!path) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return 0;
        strcpy(out, path);
        return 1;
    }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0;
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
        if (n < 0) return 0;
        base[n] = 0;
    }
    while (path[0] == '.' && path[1] == '/') { path += 2; while (*path == '/') path++; }
    if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
    return 1;
}
static int tracked_path(int dirfd, const char *path, char *out) {
    if (!fs_on || !abspath(dirfd, path, out)) return 0;
    return strncmp(out, prefix, prefix_len) == 0;
}
static int tracked_fd(int fd, char *out, int64_t *ino) {
    if (!fs_on || fd < 0 || fd == log_fd) return 0;
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0;
    if (strncmp(out, prefix, prefix_len) != 0) return 0;
    struct stat st;
    int e = errno;
    if (fstat(fd, &st) == 0) *ino = st.st_ino; else *ino = 0;
    errno = e;
    return 1;
}
static int lookup(int writing, int64_t *arg) {
    int64_t i = op_count;
    for (int k = 0; k < nplan; k++) {
        if (plan[k].kind == F_STICKY ? (writing && i >= plan[k].idx) : plan[k].idx == i) {
            *arg = plan[k].arg;
            fired[plan[k].kind]++;
            return plan[k].kind == F_STICKY ? F_ERR : plan[k].kind;
        }
    }
    return F_NONE;
}
static void crash(void) { syscall(SYS_exit_group, 99); }

/* One non-data operation.  ACT is an expression performing it. */
#define SIMPLE(KIND, WRITING, P1, P2, INO, ACT)                                                    \
    do {                                                                                           \
        int64_t arg = 0;                                                                           \
        int f = lookup(WRITING, &arg);                                                             \
        if (f == F_ERR && arg == EINTR && KIND != 'S') f = F_NONE; /* these are not interrupted */ \
        if (f == F_CRASH_BEFORE || f == F_CRASH_PARTIAL) {                                         \
            log_rec(KIND, f, INO, 0, 0, 0, 0, -1, 0, P1, P2);                                      \
            crash();                                                                               \
        }                                                                                          \
        if (f == F_ERR) {                                                                          \
            log_rec(KIND, f, INO, 0, 0, 0, 0, -1, (int)arg, P1, P2);                               \
            op_count++;                                                                            \
            errno = (int)arg;                                                                      \
            return -1;                                                                             \
        }                                                                                          \
        int res_ = (int)(ACT);                                                                     \
        int err_ = errno;                                                                          \
        log_rec(KIND, f, INO, 0, 0, 0, 0, res_, res_ < 0 ? err_ : 0, P1, P2);                      \
        if (f == F_CRASH_AFTER) crash();                                                           \
        op_count++;                                                                                \
        errno = err_;                                                                              \
        return res_;                                                                               \
    } while (0)

/* ------------------------------------------------------------------ open */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX];
    if (!tracked_path(dirfd, path, p) || (flags & O_DIRECTORY))
        return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    int64_t arg = 0;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    int f = lookup(w, &arg);
    if (f == F_CRASH_BEFORE || f == F_CRASH_PARTIAL) {
        log_rec('O', f, 0, flags, 0, 0, mode, -1, 0, p, 0);
        crash();
    }
    if (f == F_ERR) {
        log_rec('O', f, 0, flags, 0, 0, mode, -1, (int)arg, p, 0);
        op_count++;
        errno = (int)arg;
        return -1;
    }
    struct stat st;
    int existed = syscall(SYS_newfstatat, dirfd, path, &st, 0) == 0;
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    int64_t ino = 0;
    char real[PATH_MAX];
    if (fd >= 0 && fstat(fd, &st) == 0) ino = st.st_ino;
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = fd >= 0 ? syscall(SYS_readlinkat, AT_FDCWD, l, real, PATH_MAX - 1) : -1;
    if (n >= 0) real[n] = 0; else strcpy(real, p);
    log_rec('O', f, ino, flags, 0, 0, existed, fd, fd < 0 ? e : 0, p, real);
    if (f == F_CRASH_AFTER) crash();
    op_count++;
    errno = e;
    return fd;
}
#define GETMODE(flags, mode)                                                                       \
    mode_t mode = 0;                                                                               \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags, mode) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE(flags, mode) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE(flags, mode) return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(flags, mode) return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

int close(int fd) {
    char p[PATH_MAX];
    int64_t ino;
    if (!tracked_fd(fd, p, &ino)) return (int)syscall(SYS_close, fd);
    int64_t arg = 0;
    int f = lookup(0, &arg);
    if (f == F_ERR && arg == EINTR) f = F_NONE;
    if (f == F_CRASH_BEFORE || f == F_CRASH_PARTIAL) { log_rec('C', f, ino, 0, 0, 0, 0, -1, 0, p, 0); crash(); }
    int r = (int)syscall(SYS_close, fd); /* a failing close closes, too */
    int e = errno;
    if (f == F_ERR) { r = -1; e = (int)arg; }
    log_rec('C', f, ino, 0, 0, 0, 0, r, r < 0 ? e : 0, p, 0);
    if (f == F_CRASH_AFTER) crash();
    op_count++;
    errno = e;
    return r;
}

/* ------------------------------------------------------------------ data */
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off /* -1: current */) {
    char p[PATH_MAX];
    int64_t ino;
    if (!tracked_fd(fd, p, &ino))
        return off < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, off);
    int64_t arg = 0;
    int f = lookup(1, &arg);
    int64_t at = off;
    if (off < 0) {
        int fl = (int)syscall(SYS_fcntl, fd, F_GETFL);
        struct stat st;
        at = (fl & O_APPEND) && fstat(fd, &st) == 0 ? st.st_size : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    }
    size_t m = n;
    if (f == F_CRASH_BEFORE) { log_rec('W', f, ino, at, 0, 0, n, -1, 0, p, 0); crash(); }
    if (f == F_ERR) {
        log_rec('W', f, ino, at, 0, 0, n, -1, (int)arg, p, 0);
        op_count++;
        errno = (int)arg;
        return -1;
    }
    if (f == F_CRASH_PARTIAL || f == F_SHORT) {
        m = (size_t)((double)n * (double)arg / 1000.0);
        if (f == F_SHORT && m == 0 && n > 0) m = 1;
        if (m > n) m = n;
    }
    ssize_t r = off < 0 ? syscall(SYS_write, fd, buf, m) : syscall(SYS_pwrite64, fd, buf, m, off);
    int e = errno;
    log_rec('W', f, ino, at, buf, r > 0 ? r : 0, n, (int)(r > INT_MAX ? INT_MAX : r), r < 0 ? e : 0, p, 0);
    if (f == F_CRASH_PARTIAL || f == F_CRASH_AFTER) crash();
    op_count++;
    errno = e;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    char p[PATH_MAX];
    int64_t ino;
    if (!tracked_fd(fd, p, &ino)) return syscall(SYS_writev, fd, v, c);
    size_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    char *b = malloc(tot ? tot : 1), *q = b;
    for (int i = 0; i < c; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
    ssize_t r = do_write(fd, b, tot, -1);
    int e = errno;
    free(b);
    errno = e;
    return r;
}

static ssize_t urandom_fill(void *buf, size_t n);
static int is_urandom(int fd) {
    if (!ent_on || fd < 3) return 0;
    char l[64], out[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, out, sizeof out - 1);
    if (n < 0) return 0;
    out[n] = 0;
    return strcmp(out, "/dev/urandom") == 0 || strcmp(out, "/dev/random") == 0;
}
static ssize_t do_read(int fd, void *buf, size_t n, int64_t off) {
    char p[PATH_MAX];
    int64_t ino;
    if (is_urandom(fd)) return urandom_fill(buf, n);
    if (!tracked_fd(fd, p, &ino))
        return off < 0 ? syscall(SYS_read, fd, buf, n) : syscall(SYS_pread64, fd, buf, n, off);
    int64_t arg = 0;
    int f = lookup(0, &arg);
    if (f == F_CRASH_BEFORE || f == F_CRASH_PARTIAL) { log_rec('R', f, ino, 0, 0, 0, n, -1, 0, p, 0); crash(); }
    if (f == F_ERR) {
        log_rec('R', f, ino, 0, 0, 0, n, -1, (int)arg, p, 0);
        op_count++;
        errno = (int)arg;
        return -1;
    }
    size_t m = n;
    if (f == F_SHORT) {
        m = (size_t)((double)n * (double)arg / 1000.0);
        if (m == 0 && n > 0) m = 1;
    }
    ssize_t r = off < 0 ? syscall(SYS_read, fd, buf, m) : syscall(SYS_pread64, fd, buf, m, off);
    int e = errno;
    log_rec('R', f, ino, off, 0, 0, n, (int)r, r < 0 ? e : 0, p, 0);
    if (f == F_CRASH_AFTER) crash();
    op_count++;
    errno = e;
    return r;
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, -1); }
ssize_t __read_chk(int fd, void *buf, size_t n, size_t b) { (void)b; return do_read(fd, buf, n, -1); }
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_read(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return do_read(fd, buf, n, off); }

ssize_t sendfile64(int out, int in, off_t *off, size_t n) {
    char p[PATH_MAX];
    int64_t ino;
    if (tracked_fd(out, p, &ino)) { errno = EINVAL; return -1; } /* callers fall back to read/write */
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    char p[PATH_MAX];
    int64_t ino;
    if (tracked_fd(out, p, &ino)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
}

/* ------------------------------------------------------------------ sync, truncate, metadata */
static int do_trunc(int fd, off_t n) {
    char p[PATH_MAX];
    int64_t ino;
    if (!tracked_fd(fd, p, &ino)) return (int)syscall(SYS_ftruncate, fd, n);
    int64_t arg = 0;
    int f = lookup(1, &arg);
    if (f == F_CRASH_BEFORE || f == F_CRASH_PARTIAL) { log_rec('T', f, ino, n, 0, 0, 0, -1, 0, p, 0); crash(); }
    if (f == F_ERR) { log_rec('T', f, ino, n, 0, 0, 0, -1, (int)arg, p, 0); op_count++; errno = (int)arg; return -1; }
    int r = (int)syscall(SYS_ftruncate, fd, n);
    int e = errno;
    log_rec('T', f, ino, n, 0, 0, 0, r, r < 0 ? e : 0, p, 0);
    if (f == F_CRASH_AFTER) crash();
    op_count++;
    errno = e;
    return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
int truncate(const char *path, off_t n) {
    char p[PATH_MAX];
    if (!tracked_path(AT_FDCWD, path, p)) return (int)syscall(SYS_truncate, path, n);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_WRONLY, 0);
    if (fd < 0) return -1;
    int r = do_trunc(fd, n), e = errno;
    syscall(SYS_close, fd);
    errno = e;
    return r;
}
int truncate64(const char *path, off_t n) { return truncate(path, n); }
static int do_sync(int fd, long nr) {
    char p[PATH_MAX];
    int64_t ino;
    if (!tracked_fd(fd, p, &ino)) return (int)syscall(nr, fd);
    SIMPLE('S', 1, p, 0, ino, syscall(nr, fd));
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
void sync(void) { syscall(SYS_sync); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned flags) {
    char p[PATH_MAX], q[PATH_MAX];
    int t1 = tracked_path(d1, a, p), t2 = tracked_path(d2, b, q);
    if (!t1 && !t2) return (int)syscall(SYS_renameat2, d1, a, d2, b, flags);
    SIMPLE('N', 1, p, q, 0, syscall(SYS_renameat2, d1, a, d2, b, flags));
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static int do_unlink(int d, const char *a, int flags) {
    char p[PATH_MAX];
    if (!tracked_path(d, a, p)) return (int)syscall(SYS_unlinkat, d, a, flags);
    SIMPLE('U', 0, p, 0, 0, syscall(SYS_unlinkat, d, a, flags));
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int f) { return do_unlink(d, a, f); }
int rmdir(const char *a) { return do_unlink(AT_FDCWD, a, AT_REMOVEDIR); }
int remove(const char *a) {
    int r = unlink(a);
    if (r < 0 && errno == EISDIR) r = rmdir(a);
    return r;
}
static int do_link(int d1, const char *a, int d2, const char *b, int flags) {
    char p[PATH_MAX], q[PATH_MAX];
    int t1 = tracked_path(d1, a, p), t2 = tracked_path(d2, b, q);
    if (!t1 && !t2) return (int)syscall(SYS_linkat, d1, a, d2, b, flags);
    SIMPLE('L', 1, p, q, 0, syscall(SYS_linkat, d1, a, d2, b, flags));
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }

/* ------------------------------------------------------------------ clocks */
static void ns2ts(int64_t ns, struct timespec *ts) {
    ts->tv_sec = ns / 1000000000; ts->tv_nsec = ns % 1000000000;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clk_on) return (int)syscall(SYS_clock_gettime, id, ts);
    switch (id) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI:
        clk_reads[0]++; clk_real += clk_tick; clk_mono += clk_tick; ns2ts(clk_real, ts); return 0;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME:
        clk_reads[1]++; clk_real += clk_tick; clk_mono += clk_tick; ns2ts(clk_mono, ts); return 0;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID:
        clk_reads[2]++; ns2ts(clk_cpu, ts); return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!clk_on) return (int)syscall(SYS_gettimeofday, tv, tz);
    clk_reads[0]++;
    clk_real += clk_tick; clk_mono += clk_tick;
    tv->tv_sec = clk_real / 1000000000; tv->tv_usec = (clk_real % 1000000000) / 1000;
    return 0;
}
time_t time(time_t *t) {
    time_t r;
    if (!clk_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else { clk_reads[0]++; r = clk_real / 1000000000; }
    if (t) *t = r;
    return r;
}
static void advance(const struct timespec *d) {
    int64_t ns = d->tv_sec * 1000000000LL + d->tv_nsec;
    clk_mono += ns; clk_real += ns;
}
int nanosleep(const struct timespec *d, struct timespec *rem) {
    if (!clk_on) return (int)syscall(SYS_nanosleep, d, rem);
    advance(d);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *d, struct timespec *rem) {
    if (!clk_on) { long r = syscall(SYS_clock_nanosleep, id, flags, d, rem); return r < 0 ? errno : 0; }
    if (flags & TIMER_ABSTIME) {
        int64_t t = d->tv_sec * 1000000000LL + d->tv_nsec;
        int64_t now = id == CLOCK_REALTIME ? clk_real : clk_mono;
        if (t > now) { clk_mono += t - now; clk_real += t - now; }
    } else advance(d);
    return 0;
}
int usleep(useconds_t us) { struct timespec d = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&d, 0); }

/* ------------------------------------------------------------------ entropy (splitmix64) */
static uint64_t nextrand(void) {
    uint64_t z = (ent_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static ssize_t urandom_fill(void *buf, size_t n) {
    unsigned char *b = buf;
    ent_reads++;
    for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(nextrand() >> 32);
    return (ssize_t)n;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!ent_on) return syscall(SYS_getrandom, buf, n, flags);
    return urandom_fill(buf, n);
}
int getentropy(void *buf, size_t n) {
    if (ent_on) { urandom_fill(buf, n); return 0; }
    return syscall(SYS_getrandom, buf, n, 0) == (long)n ? 0 : -1;
}

/* ------------------------------------------------------------------ control from Python */
void sim_fs_start(const char *pre, int logfd) {
    strncpy(prefix, pre, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    log_fd = logfd;
    op_count = 0;
    nplan = 0;
    memset(fired, 0, sizeof fired);
    fs_on = 1;
}
void sim_fs_stop(void) { fs_on = 0; }
void sim_fs_resume(void) { fs_on = 1; }
void sim_fs_reset_count(void) { op_count = 0; }
int64_t sim_fs_count(void) { return op_count; }
void sim_fs_plan_clear(void) { nplan = 0; }
int sim_fs_plan_add(int64_t idx, int kind, int64_t arg) {
    if (nplan >= MAXPLAN) return -1;
    plan[nplan].idx = idx; plan[nplan].kind = kind; plan[nplan].arg = arg; nplan++;
    return 0;
}
int64_t sim_fs_fired(int kind) { return fired[kind]; }
void sim_clock(int on, int64_t mono, int64_t real, int64_t cpu, int64_t tick) {
    clk_on = on; clk_mono = mono; clk_real = real; clk_cpu = cpu; clk_tick = tick;
}
void sim_clock_move(int64_t dmono, int64_t dreal, int64_t dcpu) { clk_mono += dmono; clk_real += dreal; clk_cpu += dcpu; }
int64_t sim_clock_get(int which) { return which == 0 ? clk_real : which == 1 ? clk_mono : clk_cpu; }
int64_t sim_clock_reads(int which) { return clk_reads[which]; }
void sim_entropy(int on, uint64_t seed) { ent_on = on; ent_state = seed; ent_reads = 0; }
int64_t sim_entropy_reads(void) { return ent_reads; }
int sim_present(void) { return 1; }
