/* preloaded in native replays of two-thread runs: allocations and lookups of files pause now and then */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
extern void *__libc_malloc(size_t);
static __thread unsigned s, on;
void *malloc(size_t n) {
    if (!on) {
        on = syscall(SYS_gettid) == getpid() ? 1 : 2;
        s = (unsigned)syscall(SYS_gettid) * 2654435761u | 1;
    }
    if (on == 2) {
        s = s * 1664525u + 1013904223u;
        if ((s >> 16) % 300 == 0) {
            struct timespec t = {0, 50000 + (s >> 20) * 50};
            nanosleep(&t, 0);
        }
    }
    return __libc_malloc(n);
}
