/* Preloaded into the command line tool: controls hash seeds, the clock and output failures. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    const char *s = getenv("MC_HASH_SEED");
    if (!s) return syscall(SYS_getrandom, buf, n, flags);
    static unsigned long long x;
    if (!x) x = strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull + 1;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        p[i] = (unsigned char)(x >> 32);
    }
    return (ssize_t)n;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
    const char *s = getenv("MC_TIME");
    if (s && c == CLOCK_REALTIME) {
        ts->tv_sec = atoll(s);
        ts->tv_nsec = 123456789;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}

/* MC_FAULT = "<k>:<mode>:<prefix>": the k-th output call (1-based) on a file whose path starts with prefix
   ("1" = standard output) fails.  mode: e = error ENOSPC, i = one EINTR, s = short write.
   MC_FAULT_LOG receives one byte per output call counted. */
static int kth = -1, mode, prefix_len, count;
static char prefix[4096];
static char watched[1024];
static void setup(void) {
    if (kth >= 0) return;
    const char *s = getenv("MC_FAULT");
    if (!s) { kth = 0; return; }
    kth = atoi(s);
    const char *c = strchr(s, ':');
    mode = c[1];
    strncpy(prefix, c + 3, sizeof prefix - 1);
    prefix_len = (int)strlen(prefix);
    if (prefix_len == 1 && prefix[0] == '1') watched[1] = 1;
}
static int hit(void) {
    count++;
    const char *l = getenv("MC_FAULT_LOG");
    if (l) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) { syscall(SYS_write, fd, ".", 1); syscall(SYS_close, fd); }
    }
    return count == kth;
}
static int do_open(int dirfd, const char *path, int flags, mode_t m) {
    setup();
    int w = prefix_len > 1 && (flags & (O_WRONLY | O_RDWR)) && strncmp(path, prefix, prefix_len) == 0;
    if (w && hit() && mode == 'e') { errno = ENOSPC; return -1; }
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, m);
    if (fd >= 0 && fd < 1024) watched[fd] = (char)w;
    return fd;
}
int open64(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
    return do_open(AT_FDCWD, path, flags, m);
}
int open(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
    return do_open(AT_FDCWD, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
    return do_open(d, path, flags, m);
}
int openat(int d, const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
    return do_open(d, path, flags, m);
}
ssize_t write(int fd, const void *b, size_t n) {
    setup();
    if (fd >= 0 && fd < 1024 && watched[fd] && n > 0 && hit()) {
        if (mode == 'e') { errno = ENOSPC; return -1; }
        if (mode == 'i') { errno = EINTR; return -1; }
        if (mode == 's' && n > 1) n = n / 2;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
