/* Fault injector for one process: dies, is interrupted, or gets an error at the n-th operation that changes files
 * below a given directory. Preloaded into the interpreter that runs the script; not inherited by its children. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>

static char dir[PATH_MAX];
static int at, count, armed;
static char action[16];
static long amount;
static char tracked[4096];
static char logfile[PATH_MAX];

__attribute__((constructor)) static void start(void) {
    const char* d = getenv("INJ_DIR");
    if (!d) return;
    strncpy(dir, d, sizeof dir - 1);
    if (getenv("INJ_AT")) at = atoi(getenv("INJ_AT"));
    if (getenv("INJ_ACTION")) strncpy(action, getenv("INJ_ACTION"), sizeof action - 1);
    if (getenv("INJ_AMOUNT")) amount = atol(getenv("INJ_AMOUNT"));
    if (getenv("INJ_LOG")) strncpy(logfile, getenv("INJ_LOG"), sizeof logfile - 1);
    unsetenv("LD_PRELOAD");
    unsetenv("INJ_DIR");
}
void inj_arm(void) { armed = 1; }

static int below(const char* p) { return *dir && p && strncmp(p, dir, strlen(dir)) == 0; }

/* 0: go on; 1: fail with an error; 2: torn write */
static int op(const char* name, const char* what) {
    ++count;
    if (*logfile) {
        int fd = (int)(long)0;
        char b[PATH_MAX + 64];
        int n = snprintf(b, sizeof b, "%d %d %s %s\n", count, armed, name, what ? what : "");
        int (*o)(const char*, int, ...) = dlsym(RTLD_NEXT, "open");
        ssize_t (*w)(int, const void*, size_t) = dlsym(RTLD_NEXT, "write");
        fd = o(logfile, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) {
            w(fd, b, (size_t)n);
            int (*c)(int) = dlsym(RTLD_NEXT, "close");
            c(fd);
        }
    }
    if (count != at) return 0;
    if (!strcmp(action, "die")) raise(SIGKILL);
    if (!strcmp(action, "int")) raise(SIGINT);
    if (!strcmp(action, "term")) raise(SIGTERM);
    if (!strcmp(action, "error") && armed) return 1;
    if (!strcmp(action, "torn")) return 2;
    return 0;
}

#define OPEN(fn)                                                       \
    int fn(const char* p, int flags, ...) {                            \
        static int (*real)(const char*, int, ...);                     \
        if (!real) real = dlsym(RTLD_NEXT, #fn);                       \
        va_list a;                                                     \
        va_start(a, flags);                                            \
        int mode = va_arg(a, int);                                     \
        va_end(a);                                                     \
        int track = below(p) && (flags & (O_WRONLY | O_RDWR | O_CREAT)); \
        if (track && op("open", p) == 1) {                             \
            errno = EACCES;                                            \
            return -1;                                                 \
        }                                                              \
        int fd = real(p, flags, mode);                                 \
        if (fd >= 0 && fd < 4096) tracked[fd] = (char)track;           \
        return fd;                                                     \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(fn)                                                     \
    int fn(int d, const char* p, int flags, ...) {                     \
        static int (*real)(int, const char*, int, ...);                \
        if (!real) real = dlsym(RTLD_NEXT, #fn);                       \
        va_list a;                                                     \
        va_start(a, flags);                                            \
        int mode = va_arg(a, int);                                     \
        va_end(a);                                                     \
        int track = below(p) && (flags & (O_WRONLY | O_RDWR | O_CREAT)); \
        if (track && op("open", p) == 1) {                             \
            errno = EACCES;                                            \
            return -1;                                                 \
        }                                                              \
        int fd = real(d, p, flags, mode);                              \
        if (fd >= 0 && fd < 4096) tracked[fd] = (char)track;           \
        return fd;                                                     \
    }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void* b, size_t n) {
    static ssize_t (*real)(int, const void*, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd >= 0 && fd < 4096 && tracked[fd]) {
        int r = op("write", 0);
        if (r == 1) {
            if (amount > 0) { /* the disk takes a part, then is full */
                real(fd, b, (size_t)amount < n ? (size_t)amount : n);
            }
            errno = ENOSPC;
            return -1;
        }
        if (r == 2) {
            size_t k = amount < 0 ? n + (size_t)amount : (size_t)amount;
            if (k > n) k = n;
            real(fd, b, k);
            raise(SIGKILL);
        }
    }
    return real(fd, b, n);
}
int close(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "close");
    int r = 0;
    if (fd >= 0 && fd < 4096 && tracked[fd]) {
        tracked[fd] = 0;
        r = op("close", 0);
    }
    int v = real(fd);
    if (r == 1) {
        errno = EIO;
        return -1;
    }
    return v;
}
#define TWO(fn)                                                        \
    int fn(const char* a, const char* b) {                             \
        static int (*real)(const char*, const char*);                  \
        if (!real) real = dlsym(RTLD_NEXT, #fn);                       \
        if ((below(a) || below(b)) && op(#fn, a) == 1) {               \
            errno = EIO;                                               \
            return -1;                                                 \
        }                                                              \
        return real(a, b);                                             \
    }
TWO(rename)
TWO(link)
TWO(symlink)
#define ONE(fn)                                                        \
    int fn(const char* a) {                                            \
        static int (*real)(const char*);                               \
        if (!real) real = dlsym(RTLD_NEXT, #fn);                       \
        if (below(a) && op(#fn, a) == 1) {                             \
            errno = EACCES;                                            \
            return -1;                                                 \
        }                                                              \
        return real(a);                                                \
    }
ONE(unlink)
ONE(rmdir)
