/* LD_PRELOAD: faults and delays on chosen files.
 * SHIM_RULES names a file with one rule per line, fields separated by tabs:
 *   <path> <times> open  <errno>            the first <times> opens fail
 *   <path> <times> read  <errno> <offset>   on the first <times> opens, reading fails once <offset> bytes were delivered (or at the end)
 *   <path> <times> alt   <other path>       the first <times> opens open the other file instead
 *   <path> -1      short <max>              every read returns at most 1..max bytes
 *   <path> -1      slow  <microseconds>     every read is delayed by up to so long
 * SHIM_LOG: file to which each fired fault is appended as a line "<kind>\t<path>".
 * SHIM_SEED: seed of the lengths and delays. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

#define MAXR 256
#define MAXFD 4096
struct rule { char path[1024], alt[1024]; int times, kind, err; long off; int opened; };
static struct rule R[MAXR]; static int nr = 0;
static struct { int fail, err, shortmax, slow; long off, done; int used; char path[1024]; } F[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static uint64_t rs = 88172645463325252ull;
static int logfd = -1;
static int (*r_open)(const char *, int, ...); static ssize_t (*r_read)(int, void *, size_t); static int (*r_close)(int);

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void put(const char *kind, const char *path) {
    char b[1200]; int n = snprintf(b, sizeof b, "%s\t%s\n", kind, path);
    if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
__attribute__((constructor)) static void init(void) {
    r_open = dlsym(RTLD_NEXT, "open64"); r_read = dlsym(RTLD_NEXT, "read"); r_close = dlsym(RTLD_NEXT, "close");
    const char *s = getenv("SHIM_SEED"); if (s) { rs = strtoull(s, 0, 10) * 2654435761ull + 88172645463325252ull; }
    const char *l = getenv("SHIM_LOG"); if (l) logfd = r_open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    const char *f = getenv("SHIM_RULES"); if (!f) return;
    FILE *fp = fopen(f, "r"); if (!fp) return;
    char line[3000];
    while (nr < MAXR && fgets(line, sizeof line, fp)) {
        line[strcspn(line, "\n")] = 0;
        char *sv, *p = strtok_r(line, "\t", &sv), *t = strtok_r(0, "\t", &sv), *k = strtok_r(0, "\t", &sv), *a = strtok_r(0, "\t", &sv), *b = strtok_r(0, "\t", &sv);
        if (!a) continue;
        struct rule *r = &R[nr];
        snprintf(r->path, sizeof r->path, "%s", p); r->times = atoi(t);
        if (!strcmp(k, "open")) { r->kind = 1; r->err = atoi(a); }
        else if (!strcmp(k, "read")) { r->kind = 2; r->err = atoi(a); r->off = b ? atol(b) : 0; }
        else if (!strcmp(k, "alt")) { r->kind = 3; snprintf(r->alt, sizeof r->alt, "%s", a); }
        else if (!strcmp(k, "short")) { r->kind = 4; r->off = atol(a); }
        else if (!strcmp(k, "slow")) { r->kind = 5; r->off = atol(a); }
        else continue;
        nr++;
    }
    fclose(fp);
}
static int do_open(const char *path, int flags, mode_t mode) {
    if (!r_open) { r_open = dlsym(RTLD_NEXT, "open64"); }
    const char *target = path; int fail = 0, err = 0, shortmax = 0, slow = 0; long off = 0; int any = 0;
    if (nr && path) {
        pthread_mutex_lock(&mu);
        for (int i = 0; i < nr; i++) {
            struct rule *r = &R[i];
            if (strcmp(r->path, path)) continue;
            any = 1;
            if (r->kind == 4) { shortmax = r->off; continue; }
            if (r->kind == 5) { slow = r->off; continue; }
            if (r->opened >= r->times) continue;
            r->opened++;
            if (r->kind == 1) { put("open", path); err = r->err; pthread_mutex_unlock(&mu); errno = err; return -1; }
            if (r->kind == 2) { fail = 1; err = r->err; off = r->off; }
            if (r->kind == 3) { put("alt", path); target = r->alt; }
        }
        if (any) put("opened", path);
        pthread_mutex_unlock(&mu);
    }
    int fd = r_open(target, flags, mode);
    if (any && fd >= 0 && fd < MAXFD) {
        pthread_mutex_lock(&mu);
        F[fd].used = 1; F[fd].fail = fail; F[fd].err = err; F[fd].off = off; F[fd].done = 0; F[fd].shortmax = shortmax; F[fd].slow = slow;
        snprintf(F[fd].path, sizeof F[fd].path, "%s", path);
        pthread_mutex_unlock(&mu);
    }
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(path, flags, m); }
int open64(const char *path, int flags, ...) { MODE return do_open(path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { MODE if (path && (d == AT_FDCWD || path[0] == '/')) return do_open(path, flags, m); return syscall(SYS_openat, d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE if (path && (d == AT_FDCWD || path[0] == '/')) return do_open(path, flags, m); return syscall(SYS_openat, d, path, flags, m); }
ssize_t read(int fd, void *buf, size_t n) {
    if (!r_read) r_read = dlsym(RTLD_NEXT, "read");
    if (fd < 0 || fd >= MAXFD || !F[fd].used) return r_read(fd, buf, n);
    pthread_mutex_lock(&mu);
    int fail = F[fd].fail, err = F[fd].err, slow = F[fd].slow; long left = F[fd].off - F[fd].done;
    if (F[fd].shortmax && n > 0) { size_t k = 1 + rnd() % F[fd].shortmax; if (k < n) n = k; }
    long us = slow ? (long)(rnd() % slow) : 0;
    if (fail && left <= 0) { put("read", F[fd].path); F[fd].fail = 1; pthread_mutex_unlock(&mu); errno = err; return -1; }
    if (fail && (long)n > left) n = left;
    pthread_mutex_unlock(&mu);
    if (us) { struct timespec ts = {0, us * 1000}; nanosleep(&ts, 0); }
    ssize_t r = r_read(fd, buf, n);
    if (r == 0 && fail && n > 0) { put("read", F[fd].path); errno = err; return -1; }
    if (r > 0) F[fd].done += r;
    return r;
}
int close(int fd) {
    if (!r_close) r_close = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < MAXFD) F[fd].used = 0;
    return r_close(fd);
}
