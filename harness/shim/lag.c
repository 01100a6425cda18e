/* LD_PRELOAD: the main thread lags behind.  Whenever the process has used LAG_MS milliseconds of processor time since the
 * last pause, the main thread's next allocation waits until every other thread is idle (blocked or done).
 * LAG_LOG: file that receives the number of pauses at the end. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

extern void *__libc_malloc(size_t);
static int ready, pauses, inside;
static long last, every = 300;
static pid_t me;

static long cpu(void) { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
static int thread_is_main(void) { static __thread int known; if (!known) known = syscall(SYS_gettid) == me ? 1 : 2; return known == 1; }
__attribute__((constructor)) static void init(void) {
    const char *s = getenv("LAG_MS"); if (s) every = atol(s);
    me = getpid(); last = cpu(); ready = 1;
}
void *malloc(size_t n) {
    if (ready && !inside && thread_is_main()) {
        long t = cpu();
        if (t - last > every * 1000) {
            inside = 1;
            struct timespec w = {0, 50000000};
            for (int i = 0; i < 400; i++) { long a = cpu(); nanosleep(&w, 0); if (cpu() - a < 2000) break; }
            last = cpu(); pauses++; inside = 0;
        }
    }
    return __libc_malloc(n);
}
__attribute__((destructor)) static void done(void) {
    const char *s = getenv("LAG_LOG"); if (!s || !pauses) return;
    char b[32]; int k = snprintf(b, sizeof b, "%d\n", pauses), fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { syscall(SYS_write, fd, b, k); syscall(SYS_close, fd); }
}
