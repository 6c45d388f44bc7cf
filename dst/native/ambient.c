/* Clock and entropy seam (LD_PRELOAD): off until a simulated run switches it on. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <stddef.h>

int dst_clock_on = 0;
long long dst_offset_ns = 0;      /* wall clock */
long long dst_mono_ns = 0;        /* monotonic clocks, only forwards */
long long dst_step_ns = 0;        /* further jump at every read */
long long dst_reads = 0;
unsigned long long dst_entropy = 0;   /* state of the seeded stream; 0: the real one */
long long dst_entropy_reads = 0;

static void read_clock(clockid_t c, struct timespec *ts)
{
    syscall(SYS_clock_gettime, c, ts);
    if (!dst_clock_on)
        return;
    long long d = 0;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        d = dst_offset_ns + dst_step_ns * dst_reads;
    } else if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME) {
        long long s = dst_step_ns < 0 ? -dst_step_ns : dst_step_ns;
        d = dst_mono_ns + s * dst_reads;
    } else
        return;
    dst_reads++;
    long long t = (long long)ts->tv_sec * 1000000000LL + ts->tv_nsec + d;
    if (t < 0)
        t = 0;
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!dst_clock_on)
        return syscall(SYS_clock_gettime, c, ts);
    read_clock(c, ts);
    return 0;
}

time_t time(time_t *p)
{
    struct timespec ts;
    read_clock(CLOCK_REALTIME, &ts);
    if (p)
        *p = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    read_clock(CLOCK_REALTIME, &ts);
    if (tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return 0;
}

ssize_t getrandom(void *buf, size_t n, unsigned int flags)
{
    if (!dst_entropy)
        return syscall(SYS_getrandom, buf, n, flags);
    dst_entropy_reads++;
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) {
        dst_entropy ^= dst_entropy << 13;
        dst_entropy ^= dst_entropy >> 7;
        dst_entropy ^= dst_entropy << 17;
        b[i] = (unsigned char)(dst_entropy >> 24);
    }
    return (ssize_t)n;
}
