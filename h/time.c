//@family base=core
//@trusted clock_gettime returns a normalized time or fails with an errno (stub in h/time.c)
/*
 * Time arithmetic over the full range of normalized time values.
 * Times are compared as (seconds, nanoseconds) pairs in 128-bit integers so
 * that the specification itself cannot overflow.
 */
#include "verif.h"
#include <errno.h>
#include <limits.h>
#include <time.h>
/* the clocks: two arbitrary readings */
static struct timespec g_now[2];
static int g_clkerr[2];
static int
v_clock_gettime(clockid_t id, struct timespec *ts)
{
        unsigned int k = id == CLOCK_REALTIME ? 0 : 1;
        if (g_clkerr[k] != 0) {
                errno = g_clkerr[k];
                return -1;
        }
        *ts = g_now[k];
        return 0;
}
#define clock_gettime(a, b) v_clock_gettime(a, b)
#include "u_core.h"

#define NS 1000000000
typedef __int128 i128;

static bool
norm(const struct timespec *a)
{
        return a->tv_sec >= 0 && a->tv_nsec >= 0 && a->tv_nsec < NS;
}
/* (sec, nsec) is the normalized pair equal to *r */
static bool
is_time(const struct timespec *r, i128 sec, int64_t nsec)
{
        if (nsec >= NS) {
                nsec -= NS;
                sec += 1;
        }
        if (nsec < 0) {
                nsec += NS;
                sec -= 1;
        }
        return norm(r) && (i128)r->tv_sec == sec && r->tv_nsec == nsec;
}
/* sec + nsec/1e9 is in [0, max] */
static bool
representable(i128 sec, int64_t nsec)
{
        if (nsec >= NS) {
                sec += 1;
        }
        if (nsec < 0) {
                sec -= 1;
        }
        return sec >= 0 && sec <= INT64_MAX;
}
static int
cmp_spec(const struct timespec *a, const struct timespec *b)
{
        if (a->tv_sec != b->tv_sec) {
                return a->tv_sec < b->tv_sec ? -1 : 1;
        }
        return a->tv_nsec < b->tv_nsec ? -1 : a->tv_nsec > b->tv_nsec;
}
static bool
sum_post(int ret, i128 sec, int64_t nsec, const struct timespec *r)
{
        if (!representable(sec, nsec)) {
                return ret == EOVERFLOW;
        }
        return ret == 0 && is_time(r, sec, nsec);
}

static struct timespec g_a, g_b, g_c;
static void
anytime(struct timespec *t)
{
        t->tv_sec = (time_t)in_u64();
        t->tv_nsec = (long)in_u64();
        V_ASSUME(norm(t));
}

int timespec_cmp(const struct timespec *a, const struct timespec *b)
        V_REQ(norm(a) && norm(b)) V_ASG() V_ENS(V_RET == cmp_spec(a, b));
//@job h_timespec_cmp prop=P24 enforce=timespec_cmp
void h_timespec_cmp(void)
{
        anytime(&g_a);
        anytime(&g_b);
        int ret = timespec_cmp(&g_a, &g_b);
        V_CHECK(ret == cmp_spec(&g_a, &g_b), "order");
        V_CANARY(ret < 0, "less");
        V_CANARY(ret == 0, "equal");
        V_CANARY(ret > 0, "greater");
}

int timespec_add(const struct timespec *a, const struct timespec *b, struct timespec *c)
        V_REQ(norm(a) && norm(b)) V_ASG(*c)
        V_ENS(sum_post(V_RET, (i128)a->tv_sec + b->tv_sec, a->tv_nsec + b->tv_nsec, c));
//@job h_timespec_add prop=P24 enforce=timespec_add
void h_timespec_add(void)
{
        anytime(&g_a);
        anytime(&g_b);
        struct timespec r = {0};
        int ret = timespec_add(&g_a, &g_b, &r);
        V_CHECK(sum_post(ret, (i128)g_a.tv_sec + g_b.tv_sec, g_a.tv_nsec + g_b.tv_nsec, &r), "sum");
        V_CANARY(ret == 0 && r.tv_nsec < g_a.tv_nsec, "carry");
        V_CANARY(ret == EOVERFLOW, "overflow");
}

void timespec_sub(const struct timespec *a, const struct timespec *b, struct timespec *c)
        V_REQ(norm(a) && norm(b) && cmp_spec(a, b) >= 0) V_ASG(*c)
        V_ENS(is_time(c, (i128)a->tv_sec - b->tv_sec, a->tv_nsec - b->tv_nsec));
//@job h_timespec_sub prop=P24 enforce=timespec_sub
void h_timespec_sub(void)
{
        anytime(&g_a);
        anytime(&g_b);
        V_ASSUME(cmp_spec(&g_a, &g_b) >= 0);
        struct timespec r = {0};
        timespec_sub(&g_a, &g_b, &r);
        V_CHECK(is_time(&r, (i128)g_a.tv_sec - g_b.tv_sec, g_a.tv_nsec - g_b.tv_nsec), "difference");
        V_CANARY(g_a.tv_nsec < g_b.tv_nsec, "borrow");
        V_CANARY(r.tv_sec > 5 && r.tv_nsec > 5, "plain");
}

static bool
from_ns_post(int ret, uint64_t ns, const struct timespec *r)
{
        /* every 64-bit count is representable with a 64-bit time_t */
        return ret == 0 && norm(r) && (uint64_t)r->tv_sec == ns / NS && (uint64_t)r->tv_nsec == ns % NS;
}
int timespec_from_ns(struct timespec *a, uint64_t ns)
        V_ASG(*a) V_ENS(from_ns_post(V_RET, ns, a));
static void
b_from_ns(uint64_t lo, uint64_t hi)
{
        struct timespec r = {0};
        uint64_t ns = in_u64();
        V_ASSUME(ns >= lo && ns <= hi);
        int ret = timespec_from_ns(&r, ns);
        V_CHECK(from_ns_post(ret, ns, &r), "conversion");
        V_CANARY(ns > lo && r.tv_nsec == 3, "reached");
}
//@job h_timespec_from_ns_sec prop=P24 enforce=timespec_from_ns solver=cadical bounded="counts below 2^40 ns (18 minutes)"
void h_timespec_from_ns_sec(void) { b_from_ns(0, UINT64_C(1) << 40); }
//@job h_timespec_from_ns_top prop=P24 enforce=timespec_from_ns solver=cadical bounded="the largest 2^34 counts"
void h_timespec_from_ns_top(void) { b_from_ns(UINT64_MAX - (UINT64_C(1) << 34), UINT64_MAX); }

static bool
to_ms_post(uint64_t ret, const struct timespec *t)
{
        /* the exact value if it is representable */
        uint64_t sec = (uint64_t)t->tv_sec;
        uint64_t frac = (uint64_t)(t->tv_nsec / 1000000);
        if (sec > UINT64_MAX / 1000 || frac > UINT64_MAX - sec * 1000) {
                return ret == UINT64_MAX;
        }
        return ret == sec * 1000 + frac;
}
uint64_t timespec_to_ms(const struct timespec *tv)
        V_REQ(norm(tv)) V_ASG() V_ENS(to_ms_post(V_RET, tv));
//@job h_timespec_to_ms prop=P24 enforce=timespec_to_ms solver=cvc5
void h_timespec_to_ms(void)
{
        anytime(&g_a);
        uint64_t ret = timespec_to_ms(&g_a);
        V_CHECK(to_ms_post(ret, &g_a), "milliseconds");
        V_CANARY(ret == UINT64_MAX, "saturated");
        V_CANARY(ret == 1999, "exact");
}

static void
clocks(void)
{
        anytime(&g_now[0]);
        anytime(&g_now[1]);
        g_clkerr[0] = in_bool() ? EINVAL : 0;
        g_clkerr[1] = in_bool() ? EFAULT : 0;
}
static int
clkerr(clockid_t id)
{
        return g_clkerr[id == CLOCK_REALTIME ? 0 : 1];
}
static const struct timespec *
clknow(clockid_t id)
{
        return &g_now[id == CLOCK_REALTIME ? 0 : 1];
}

//@job h_timespec_now prop=P24 dfcc=0
void h_timespec_now(void)
{
        clocks();
        clockid_t id = in_bool() ? CLOCK_REALTIME : CLOCK_MONOTONIC;
        int ret = timespec_now(id, &g_c);
        V_CHECK(ret == clkerr(id), "clock errors are reported");
        V_CHECK(ret != 0 || cmp_spec(&g_c, clknow(id)) == 0, "the requested clock");
        V_CANARY(ret == 0, "ok");
        V_CANARY(ret != 0, "error");
}

//@job h_abstime_from_reltime_ns prop=P24 dfcc=1 replace=timespec_from_ns solver=cvc5
void h_abstime_from_reltime_ns(void)
{
        clocks();
        clockid_t id = in_bool() ? CLOCK_REALTIME : CLOCK_MONOTONIC;
        uint64_t ns = in_u64();
        int ret = abstime_from_reltime_ns(id, &g_c, ns);
        if (clkerr(id) != 0) {
                V_CHECK(ret == clkerr(id), "clock errors are reported");
                return;
        }
        uint64_t s = ns / NS;
        uint64_t n = ns % NS;
        V_CHECK(sum_post(ret, (i128)clknow(id)->tv_sec + s, clknow(id)->tv_nsec + n, &g_c), "now + duration");
        struct timespec t = {(time_t)s, (long)n};
        V_CHECK(from_ns_post(0, ns, &t), "duration");
        V_CANARY(ret == 0 && ns > 5000000000, "ok");
        V_CANARY(ret == EOVERFLOW, "overflow");
}

//@job h_abstime_from_reltime_ms prop=P24 dfcc=1 replace=timespec_from_ns solver=cvc5
void h_abstime_from_reltime_ms(void)
{
        clocks();
        g_clkerr[0] = 0;
        g_clkerr[1] = 0;
        clockid_t id = in_bool() ? CLOCK_REALTIME : CLOCK_MONOTONIC;
        int ms = (int)in_u32();
        V_ASSUME(ms >= 0);
        int ret = abstime_from_reltime_ms(id, &g_c, ms);
        uint64_t ns = (uint64_t)ms * 1000000;
        V_CHECK(sum_post(ret, (i128)clknow(id)->tv_sec + ns / NS, clknow(id)->tv_nsec + ns % NS, &g_c), "now + duration");
        struct timespec t = {(time_t)(ns / NS), (long)(ns % NS)};
        V_CHECK(from_ns_post(0, ns, &t), "duration");
        V_CANARY(ret == 0 && ms > 5000, "ok");
        V_CANARY(ret == EOVERFLOW, "overflow");
}

//@job h_abstime_to_reltime_ms prop=P24 dfcc=0 solver=cadical
void h_abstime_to_reltime_ms(void)
{
        clocks();
        clockid_t id = in_bool() ? CLOCK_REALTIME : CLOCK_MONOTONIC;
        anytime(&g_a);
        int ms = -1;
        int ret = abstime_to_reltime_ms_roundup(id, &g_a, &ms);
        if (clkerr(id) != 0) {
                V_CHECK(ret == clkerr(id), "clock errors are reported");
                return;
        }
        if (cmp_spec(&g_a, clknow(id)) <= 0) {
                V_CHECK(ret == 0 && ms == 0, "a passed deadline is zero");
                return;
        }
        int64_t s = g_a.tv_sec - clknow(id)->tv_sec;
        int64_t n = g_a.tv_nsec - clknow(id)->tv_nsec;
        if (n < 0) {
                n += NS;
                s--;
        }
        int64_t f = (n + 999999) / 1000000;
        if (s > INT_MAX || s * 1000 + f > INT_MAX) {
                V_CHECK(ret == EOVERFLOW, "overflow");
        } else {
                V_CHECK(ret == 0 && ms == s * 1000 + f, "rounded up");
        }
        V_CANARY(ret == 0 && ms == INT_MAX, "largest");
        V_CANARY(ret == 0 && ms == 1 && n == 1, "rounding");
        V_CANARY(ret == EOVERFLOW, "overflow");
}

//@job h_convert_timespec prop=P24 dfcc=0 solver=cadical
void h_convert_timespec(void)
{
        clocks();
        clockid_t from = in_bool() ? CLOCK_REALTIME : CLOCK_MONOTONIC;
        clockid_t to = in_bool() ? CLOCK_REALTIME : CLOCK_MONOTONIC;
        anytime(&g_a);
        int ret = convert_timespec(from, to, &g_a, &g_c);
        if (clkerr(from) != 0 || clkerr(to) != 0) {
                V_CHECK(ret == (clkerr(from) != 0 ? clkerr(from) : clkerr(to)), "clock errors are reported");
                return;
        }
        i128 s = (i128)g_a.tv_sec - clknow(from)->tv_sec + clknow(to)->tv_sec;
        int64_t n = g_a.tv_nsec - clknow(from)->tv_nsec + clknow(to)->tv_nsec;
        /* n is in (-1e9, 2e9) */
        V_CHECK(sum_post(ret, s, n, &g_c), "same distance from now on both clocks");
        V_CANARY(ret == 0 && cmp_spec(&g_a, clknow(from)) < 0 && from != to, "past");
        V_CANARY(ret == 0 && cmp_spec(&g_a, clknow(from)) > 0 && from != to, "future");
        V_CANARY(ret == EOVERFLOW, "overflow");
}
