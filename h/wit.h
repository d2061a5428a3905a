/*
 * Large byte buffers by witness bytes.
 *
 * Linear memory and data segments can be up to 4 GiB.  The harness tracks an
 * arbitrary (nondeterministic) byte index per buffer and its value; realloc,
 * malloc, memset, memcpy and memmove on such buffers are replaced by their
 * C library contracts restricted to these bytes.  What is shown for an
 * arbitrary byte holds for all bytes.  The library contracts are trusted.
 */
#pragma once
#include "verif.h"

#define NWIT 2
struct wit {
        int obj;      /* the buffer */
        uint64_t idx; /* the byte */
        uint8_t val;
};
static struct wit g_wit[NWIT];
static int g_live;          /* the object of the linear memory; 0 none */
static uint64_t g_livesize; /* its size */
static bool g_oom;          /* an allocation failed */
#define OBJ_MEM 1 /* linear memory, whatever object it lives in */
#define OBJ_SEG 2 /* a data segment */
static uint64_t g_segsize;

#if defined(VERIF_NATIVE)
#define MEM1 ((uint8_t *)0x100000000000)
#define MEM2 ((uint8_t *)0x200000000000)
#define SEG ((uint8_t *)0x300000000000)
#define W_IN(p, b) ((uintptr_t)(p) - (uintptr_t)(b) < ((uintptr_t)1 << 40))
#define W_OFF(p, b) ((uint64_t)((uintptr_t)(p) - (uintptr_t)(b)))
#else
static uint8_t g_mem1, g_mem2, g_seg;
#define MEM1 (&g_mem1)
#define MEM2 (&g_mem2)
#define SEG (&g_seg)
#define W_IN(p, b) __CPROVER_same_object(p, b)
#define W_OFF(p, b) ((uint64_t)__CPROVER_POINTER_OFFSET(p))
#endif

/* the buffer a pointer points into; checks that it is alive */
static int
w_obj(const void *p, uint64_t *offp, uint64_t *sizep)
{
        if (W_IN(p, MEM1)) {
                V_CHECK(g_live == 1, "no stale pointer to the memory is used");
                *offp = W_OFF(p, MEM1);
                *sizep = g_livesize;
                return OBJ_MEM;
        }
        if (W_IN(p, MEM2)) {
                V_CHECK(g_live == 2, "no stale pointer to the memory is used");
                *offp = W_OFF(p, MEM2);
                *sizep = g_livesize;
                return OBJ_MEM;
        }
        if (W_IN(p, SEG)) {
                *offp = W_OFF(p, SEG);
                *sizep = g_segsize;
                return OBJ_SEG;
        }
        return 0;
}

static void *
w_memset(void *p, int c, size_t n)
{
        uint64_t off = 0;
        uint64_t size = 0;
        if (n == 0) {
                return p;
        }
#if defined(W_SMALL_MEMSET)
        if (!W_IN(p, MEM1) && !W_IN(p, MEM2)) {
                return (memset)(p, c, n);
        }
#endif
        int o = w_obj(p, &off, &size);
        V_CHECK(o != 0, "memset of a buffer");
        V_CHECK(off <= size && n <= size - off, "memset within the buffer");
        unsigned int i;
        for (i = 0; i < NWIT; i++) {
                if (g_wit[i].obj == o && g_wit[i].idx >= off && g_wit[i].idx - off < n) {
                        g_wit[i].val = (uint8_t)c;
                }
        }
        return p;
}

static void *
w_memmove(void *d, const void *s, size_t n, bool overlap_ok)
{
        uint64_t doff = 0;
        uint64_t dsize = 0;
        uint64_t soff = 0;
        uint64_t ssize = 0;
        if (n == 0) {
                return d;
        }
        int od = w_obj(d, &doff, &dsize);
        int os = w_obj(s, &soff, &ssize);
        V_CHECK(od != 0, "copy to a buffer");
        V_CHECK(doff <= dsize && n <= dsize - doff, "copy destination within the buffer");
        V_CHECK(os != 0 && soff <= ssize && n <= ssize - soff, "copy source within the buffer");
        V_CHECK(overlap_ok || od != os || doff >= soff + n || soff >= doff + n, "no overlapping memcpy");
        uint8_t nv[NWIT];
        unsigned int i;
        for (i = 0; i < NWIT; i++) {
                nv[i] = g_wit[i].val;
                if (g_wit[i].obj == od && g_wit[i].idx >= doff && g_wit[i].idx - doff < n) {
                        uint64_t sa = soff + (g_wit[i].idx - doff);
                        nv[i] = in_u8(); /* not a tracked byte */
                        unsigned int j;
                        for (j = 0; j < NWIT; j++) {
                                if (g_wit[j].obj == os && g_wit[j].idx == sa) {
                                        nv[i] = g_wit[j].val;
                                }
                        }
                }
        }
        for (i = 0; i < NWIT; i++) {
                g_wit[i].val = nv[i];
        }
        return d;
}

static void *
w_realloc(void *p, size_t n)
{
        V_CHECK(g_live == 0 ? p == NULL : p == (g_live == 1 ? MEM1 : MEM2), "realloc of the memory");
        V_CHECK(n > 0, "realloc size");
        if (in_bool()) {
                g_oom = true;
                return NULL;
        }
        unsigned int i;
        for (i = 0; i < NWIT; i++) {
                if (g_wit[i].obj == OBJ_MEM && (g_live == 0 || g_wit[i].idx >= g_livesize)) {
                        g_wit[i].val = in_u8(); /* uninitialised */
                }
        }
        g_livesize = n;
        if (g_live == 1) {
                g_live = 2;
                return MEM2;
        }
        g_live = 1;
        return MEM1;
}

static int g_mallocs;    /* calls so far */
static int g_bigmalloc;  /* the ordinal of the one that allocates the memory */
static void *
w_malloc(size_t n)
{
        g_mallocs++;
        if (in_bool()) {
                g_oom = true;
                return NULL;
        }
        if (g_mallocs == g_bigmalloc) {
                V_CHECK(g_live == 0, "one memory");
                unsigned int i;
                for (i = 0; i < NWIT; i++) {
                        if (g_wit[i].obj == OBJ_MEM) {
                                g_wit[i].val = in_u8(); /* uninitialised */
                        }
                }
                g_live = 1;
                g_livesize = n;
                return MEM1;
        }
        void *p = (malloc)(n);
        V_ASSUME(p != NULL);
        return p;
}
static void
w_free(void *p)
{
        if (g_live != 0 && p == (g_live == 1 ? MEM1 : MEM2)) {
                g_live = 0;
                return;
        }
        (free)(p);
}
static void *
w_memcpy(void *d, const void *s, size_t n)
{
        if (n <= 8 && !W_IN(d, MEM1) && !W_IN(d, MEM2) && !W_IN(d, SEG)) {
                /* operands and immediates */
                unsigned int i;
                for (i = 0; i < n; i++) {
                        ((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
                }
                return d;
        }
        return w_memmove(d, s, n, false);
}

#undef memset
#undef memcpy
#undef memmove
#define memset(a, b, c) w_memset(a, b, c)
#define memcpy(a, b, c) w_memcpy(a, b, c)
#define memmove(a, b, c) w_memmove(a, b, c, true)
#define realloc(a, b) w_realloc(a, b)
#define malloc(a) w_malloc(a)
#define free(a) w_free(a)
#define V_ASG_WIT __CPROVER_object_whole(g_wit), g_live, g_livesize, g_oom
