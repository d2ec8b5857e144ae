/* LD_PRELOAD recorder: what a generator process does to header files (paths ending in .h).
   Each operation is appended to $HDREC as one line and followed by a short pause, so that processes
   running in parallel really interleave. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int is_hdr(const char * p)
{
    size_t n = p ? strlen(p) : 0;
    return n > 2 && strcmp(p + n - 2, ".h") == 0;
}

static void put(const char * op, const char * path, int app, int trunc, const char * data, size_t n)
{
    const char * log = getenv("HDREC");
    if(!log) return;
    int err = errno;
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    char * buf = malloc(2 * n + 6000);
    int k = sprintf(buf, "%ld %lld %s %d %d %s ", (long)getpid(),
                    (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec, op, app, trunc, path);
    for(size_t i = 0; i < n; i++) k += sprintf(buf + k, "%02x", (unsigned char)data[i]);
    buf[k++] = '\n';
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if(fd >= 0) { syscall(SYS_write, fd, buf, k); syscall(SYS_close, fd); }
    free(buf);
    usleep(15000);
    errno = err;
}

static int fdpath(int fd, char * out, size_t n)
{
    char l[64];
    sprintf(l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, out, n - 1);
    if(k <= 0) return 0;
    out[k] = 0;
    return is_hdr(out);
}

static void opened(int fd, const char * path, int flags)
{
    char p[4096];
    if(fd < 0 || !is_hdr(path) || (flags & O_ACCMODE) == O_RDONLY) return;
    if(!fdpath(fd, p, sizeof p)) return;
    put("open", p, !!(flags & O_APPEND), !!(flags & O_TRUNC), "", 0);
}

#define OPEN(name) \
int name(const char * path, int flags, ...) \
{ \
    static int (*real)(const char *, int, ...); \
    if(!real) real = dlsym(RTLD_NEXT, #name); \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    int fd = real(path, flags, m); \
    opened(fd, path, flags); \
    return fd; \
}
OPEN(open)
OPEN(open64)

#define FOPEN(name) \
FILE * name(const char * path, const char * mode) \
{ \
    static FILE * (*real)(const char *, const char *); \
    if(!real) real = dlsym(RTLD_NEXT, #name); \
    FILE * f = real(path, mode); \
    if(f) opened(fileno(f), path, (mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY) : O_WRONLY) \
                 | (mode[0] == 'a' ? O_APPEND : 0) | (mode[0] == 'w' ? O_TRUNC : 0)); \
    return f; \
}
FOPEN(fopen)
FOPEN(fopen64)

ssize_t write(int fd, const void * b, size_t n)
{
    char p[4096];
    if(fdpath(fd, p, sizeof p)) put("write", p, !!(fcntl(fd, F_GETFL) & O_APPEND), 0, b, n);
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec * v, int c)
{
    char p[4096];
    if(fdpath(fd, p, sizeof p))
    {
        size_t n = 0;
        for(int i = 0; i < c; i++) n += v[i].iov_len;
        char * b = malloc(n + 1);
        n = 0;
        for(int i = 0; i < c; i++) { memcpy(b + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
        put("write", p, !!(fcntl(fd, F_GETFL) & O_APPEND), 0, b, n);
        free(b);
    }
    return syscall(SYS_writev, fd, v, c);
}
