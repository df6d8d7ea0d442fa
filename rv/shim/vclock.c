/* Virtual clock shim.  LD_PRELOADed into a simulation process so that Python
 * AND the Rust in-memory Redis backend read one shared, harness-controlled
 * clock.  Before vclock_enable() every call goes to the kernel. */
#define _GNU_SOURCE
#include <stdatomic.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static _Atomic int enabled = 0;
static _Atomic int64_t offset_ns = 0;         /* virtual time since enable */
static int64_t base_real_ns = 0, base_mono_ns = 0;

static int real_gettime(clockid_t c, struct timespec *ts) {
    return (int)syscall(SYS_clock_gettime, c, ts);
}
void vclock_enable(int64_t real_ns, int64_t mono_ns) {
    base_real_ns = real_ns; base_mono_ns = mono_ns;
    atomic_store(&offset_ns, 0); atomic_store(&enabled, 1);
}
void vclock_disable(void) { atomic_store(&enabled, 0); }
void vclock_advance(int64_t ns) { atomic_fetch_add(&offset_ns, ns); }
int64_t vclock_offset(void) { return atomic_load(&offset_ns); }
int64_t vclock_real_mono(void) {
    struct timespec ts; real_gettime(CLOCK_MONOTONIC, &ts);
    return (int64_t)ts.tv_sec * 1000000000LL + ts.tv_nsec;
}
static int fill(int64_t ns, struct timespec *ts) {
    ts->tv_sec = ns / 1000000000LL; ts->tv_nsec = ns % 1000000000LL; return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!atomic_load(&enabled)) return real_gettime(c, ts);
    switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI:
        return fill(base_real_ns + atomic_load(&offset_ns), ts);
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_COARSE: case CLOCK_MONOTONIC_RAW:
    case CLOCK_BOOTTIME:
        return fill(base_mono_ns + atomic_load(&offset_ns), ts);
    default: return real_gettime(c, ts);
    }
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec; return ts.tv_sec;
}
