/* LD_PRELOAD shim used by the harness to observe and schedule the *unmodified* bcalc binary.
 *
 * It never changes what a call does, except that
 *   - the n-th disk-changing call on a file below the scratch data directory may be preceded by
 *     SIGKILL (crash point injection), once the harness has armed it;
 *   - the start of a database transaction may be held back until the harness grants it;
 *   - the n-th such call, or all from the n-th on, may fail with an error instead (a write possibly half done).
 * With SHIM_LOG it also records what is done to regular files, with the data and the syncs, so that
 * the harness can work out what a loss of power at any point may leave behind.
 *
 * Control block: a file of 64 little-endian int64, mmapped shared with the harness (SHIM_CTL).
 * All counters are updated before the call they count is performed / after it returns as noted.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum {
    C_MAGIC = 0,     /* set by the shim once it is loaded */
    C_OUT = 1,       /* bytes written to stdout so far */
    C_WAKES = 2,     /* number of times epoll_wait returned events */
    C_IDLES = 3,     /* number of times a blocking epoll_wait was entered */
    C_DISKOPS = 4,   /* disk-changing calls seen while armed */
    C_ARMED = 5,     /* harness: 1 = count disk-changing calls */
    C_KILLAT = 6,    /* harness: kill before the n-th (1-based) counted call; 0 = never */
    C_GATE = 7,      /* harness: 1 = hold every transaction start */
    C_AT_GATE = 8,   /* 1 while held */
    C_GRANTS = 9,    /* number of grants taken */
    C_TXNS = 10,     /* number of times all database locks were released */
    C_IDLE_NOW = 11, /* 1 while in a blocking epoll_wait */
    C_GATE2 = 12,    /* harness: 1 = also hold before asking for the RESERVED lock */
    C_BUSY = 13,     /* number of database lock requests refused */
    C_LASTOP = 14,   /* code of the last counted disk op */
    C_SLEEPS = 15,   /* busy-handler sleeps */
    C_FAILAT = 16,   /* harness: the first counted call that fails; 0 = never */
    C_FAILS = 17,    /* harness: how many calls fail */
    C_ERRNO = 18,    /* harness: with this error */
    C_HALF = 19,     /* harness: 1 = a failing write writes half of its data first */
    C_READS = 20,    /* harness: 1 = reads count too */
    C_FAILED = 21,   /* number of calls that have failed */
    C_KINDS = 22,    /* harness: which calls fail, as a set of bits (0: all) */
    C_SLOT = 64
};

static volatile int64_t *ctl;
static int notify_fd = -1, grant_fd = -1, log_fd = -1;
static pid_t owner;

static int64_t dummy[C_SLOT];

__attribute__((constructor)) static void init(void) {
    ctl = dummy;
    const char *p = getenv("SHIM_CTL");
    const char *n = getenv("SHIM_NOTIFY_FD");
    const char *g = getenv("SHIM_GRANT_FD");
    if (n) notify_fd = atoi(n);
    if (g) grant_fd = atoi(g);
    const char *lg = getenv("SHIM_LOG");
    owner = getpid();
    if (lg) log_fd = open(lg, O_WRONLY | O_APPEND | O_CLOEXEC);
    if (!p) return;
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(NULL, C_SLOT * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) {
        ctl = m;
        ctl[C_MAGIC] = 0x5b;
    }
    unsetenv("LD_PRELOAD");
}

#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)


static ssize_t raw_write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    return real(fd, b, n);
}

static void notify(char c) {
    if (notify_fd >= 0) {
        int e = errno;
        raw_write(notify_fd, &c, 1);
        errno = e;
    }
}

/* one record: code, offset, length of the path, length of the data; path; data */
static void log_op(int code, int fd, const char *path, int64_t off, const void *data, int64_t n) {
    if (log_fd < 0) return;
    int e = errno;
    char link[64], buf[4096];
    if (!path) {
        char *q = link + sizeof link;
        *--q = 0;
        int v = fd;
        do *--q = '0' + v % 10; while (v /= 10);
        q -= 14;
        memcpy(q, "/proc/self/fd/", 14);
        ssize_t k = readlink(q, buf, sizeof buf - 1);
        buf[k < 0 ? 0 : k] = 0;
        path = buf;
    }
    int64_t head[4] = {code, off, (int64_t)strlen(path), data ? n : 0};
    struct iovec v[3] = {{head, sizeof head}, {(void *)path, head[2]}, {(void *)data, head[3]}};
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = dlsym(RTLD_NEXT, "writev");
    real(log_fd, v, 3);
    errno = e;
}

static int is_data_fd(int fd) {
    struct stat st;
    if (fstat(fd, &st) != 0) return 0;
    return S_ISREG(st.st_mode);
}

/* 1 = the call is to fail; errno is set */
static int disk_op(int code) {
    if (!ctl[C_ARMED] || (code == 9 && !ctl[C_READS])) return 0;
    if (ctl[C_KINDS] && !(ctl[C_KINDS] >> code & 1)) return 0;
    ctl[C_DISKOPS]++;
    ctl[C_LASTOP] = code;
    if (ctl[C_KILLAT] && ctl[C_DISKOPS] == ctl[C_KILLAT]) {
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    if (ctl[C_FAILAT] && ctl[C_DISKOPS] >= ctl[C_FAILAT] && ctl[C_DISKOPS] - ctl[C_FAILAT] < ctl[C_FAILS]) {
        ctl[C_FAILED]++;
        errno = ctl[C_ERRNO];
        return 1;
    }
    return 0;
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    int data = fd > 2 && is_data_fd(fd);
    if (data && disk_op(1)) {
        if (!ctl[C_HALF] || n < 2) return -1;
        int e = errno;
        ssize_t h = real(fd, buf, n / 2);
        if (h > 0 && log_fd >= 0) log_op(2, fd, NULL, lseek(fd, 0, SEEK_CUR) - h, buf, h);
        errno = e;
        return -1;
    }
    ssize_t r = real(fd, buf, n);
    if (data && r > 0 && log_fd >= 0) log_op(2, fd, NULL, lseek(fd, 0, SEEK_CUR) - r, buf, r);
    if (fd == 1 && r > 0) ctl[C_OUT] += r;
    return r;
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(writev);
    ssize_t r = real(fd, iov, cnt);
    if (fd == 1 && r > 0) ctl[C_OUT] += r;
    return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    REAL(pwrite64);
    if (is_data_fd(fd) && disk_op(2)) {
        int e = errno;
        if (ctl[C_HALF] && n > 1) (void)!real(fd, buf, n / 2, off);
        errno = e;
        return -1;
    }
    ssize_t r = real(fd, buf, n, off);
    if (r > 0) log_op(2, fd, NULL, off, buf, r);
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    REAL(pwrite);
    if (is_data_fd(fd) && disk_op(2)) {
        int e = errno;
        if (ctl[C_HALF] && n > 1) (void)!real(fd, buf, n / 2, off);
        errno = e;
        return -1;
    }
    ssize_t r = real(fd, buf, n, off);
    if (r > 0) log_op(2, fd, NULL, off, buf, r);
    return r;
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    if (ctl && ctl[C_READS] && fd > 2 && is_data_fd(fd) && disk_op(9)) return -1;
    return real(fd, buf, n);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    REAL(pread64);
    if (ctl && ctl[C_READS] && is_data_fd(fd) && disk_op(9)) return -1;
    return real(fd, buf, n, off);
}
int ftruncate64(int fd, off64_t len) {
    REAL(ftruncate64);
    if (disk_op(3)) return -1;
    int r = real(fd, len);
    if (r == 0) log_op(3, fd, NULL, len, NULL, 0);
    return r;
}
int ftruncate(int fd, off_t len) {
    REAL(ftruncate);
    if (disk_op(3)) return -1;
    int r = real(fd, len);
    if (r == 0) log_op(3, fd, NULL, len, NULL, 0);
    return r;
}
int rename(const char *from, const char *to) {
    REAL(rename);
    if (disk_op(8)) return -1;
    int r = real(from, to);
    if (r == 0) log_op(8, -1, from, 0, to, strlen(to));
    return r;
}
int unlink(const char *path) {
    REAL(unlink);
    if (disk_op(4)) return -1;
    int r = real(path);
    if (r == 0) log_op(4, -1, path, 0, NULL, 0);
    return r;
}
int mkdir(const char *path, mode_t mode) {
    REAL(mkdir);
    if (disk_op(7)) return -1;
    return real(path, mode);
}
int fsync(int fd) {
    REAL(fsync);
    if (disk_op(5)) return -1;
    int r = real(fd);
    if (r == 0) log_op(5, fd, NULL, 0, NULL, 0);
    return r;
}
int fdatasync(int fd) {
    REAL(fdatasync);
    if (disk_op(5)) return -1;
    int r = real(fd);
    if (r == 0) log_op(5, fd, NULL, 0, NULL, 0);
    return r;
}

int open64(const char *path, int flags, ...) {
    static int (*real)(const char *, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "open64");
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, int);
    va_end(ap);
    if ((flags & O_CREAT) && disk_op(6)) return -1;
    struct stat st;
    int fresh = log_fd >= 0 && (flags & O_CREAT) && stat(path, &st) != 0;
    int r = real(path, flags, mode);
    if (r >= 0 && fresh) log_op(6, -1, path, 0, NULL, 0);
    if (r >= 0 && !fresh && (flags & O_TRUNC)) log_op(3, r, NULL, 0, NULL, 0);
    return r;
}

#define PENDING_BYTE 0x40000000
#define RESERVED_BYTE (PENDING_BYTE + 1)

static void gate(int64_t code) {
    if (grant_fd < 0) return;
    ctl[C_AT_GATE] = code;
    notify('g');
    char c;
    for (;;) {
        ssize_t r = read(grant_fd, &c, 1);
        if (r == 1) break;
        if (r < 0 && errno == EINTR) continue;
        break; /* harness gone: let go */
    }
    ctl[C_AT_GATE] = 0;
    ctl[C_GRANTS]++;
}

static int do_fcntl(int (*real)(int, int, ...), int fd, int cmd, void *arg) {
    if (cmd == F_SETLK && arg) {
        struct flock *fl = arg;
        if (fl->l_type == F_RDLCK && fl->l_start == PENDING_BYTE && ctl[C_GATE]) gate(1);
        if (fl->l_type == F_WRLCK && fl->l_start == RESERVED_BYTE && ctl[C_GATE2]) gate(2);
        int r = real(fd, cmd, arg);
        if (r != 0 && (errno == EAGAIN || errno == EACCES)) {
            int e = errno;
            ctl[C_BUSY]++;
            notify('b');
            errno = e;
        }
        if (r == 0 && fl->l_type == F_UNLCK && fl->l_start == 0 && fl->l_len == 0) {
            ctl[C_TXNS]++;
            notify('t');
        }
        return r;
    }
    return real(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    static int (*real)(int, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "fcntl64");
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    return do_fcntl(real, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) {
    static int (*real)(int, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "fcntl");
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    return do_fcntl(real, fd, cmd, arg);
}

int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
    REAL(epoll_wait);
    if (timeout != 0) {
        ctl[C_IDLES]++;
        ctl[C_IDLE_NOW] = 1;
        notify('i');
    }
    int r = real(epfd, ev, max, timeout);
    ctl[C_IDLE_NOW] = 0;
    if (r > 0) ctl[C_WAKES]++;
    return r;
}
