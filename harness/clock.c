/* LD_PRELOAD: processor times that jump ahead by up to CLOCK_STEP ticks with every look. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <time.h>

static unsigned long long x;
static long user, sys;

static void tick(void)
{
    const char *s = getenv("CLOCK_STEP");
    unsigned long step = s ? strtoul(s, 0, 10) : 0;
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    if (step)
        user += (x >> 33) % step;
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    if (step)
        sys += (x >> 33) % (step / 3 + 1);
}

clock_t times(struct tms *t)
{
    tick();
    t->tms_utime = user;
    t->tms_stime = sys;
    t->tms_cutime = t->tms_cstime = 0;
    return user + sys;
}

clock_t clock(void)
{
    tick();
    return (user + sys) * (CLOCKS_PER_SEC / 100);
}

int getrusage(__rusage_who_t who, struct rusage *r)
{
    static const struct rusage zero;
    (void)who;
    tick();
    *r = zero;
    r->ru_utime.tv_sec = user / 100;
    r->ru_utime.tv_usec = user % 100 * 10000;
    r->ru_stime.tv_sec = sys / 100;
    r->ru_stime.tv_usec = sys % 100 * 10000;
    return 0;
}
