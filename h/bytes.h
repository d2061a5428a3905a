/*
 * memcpy/memmove/memset/memcmp as byte loops, for jobs with short buffers and
 * symbolic lengths.
 */
#pragma once
#include "verif.h"
static void *
vb_memcpy(void *d, const void *s, size_t n)
{
        size_t i;
        for (i = 0; i < n; i++) {
                ((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
        }
        return d;
}
static void *
vb_memmove(void *d, const void *s, size_t n)
{
        size_t i;
        if ((uintptr_t)d <= (uintptr_t)s) {
                return vb_memcpy(d, s, n);
        }
        for (i = n; i > 0; i--) {
                ((uint8_t *)d)[i - 1] = ((const uint8_t *)s)[i - 1];
        }
        return d;
}
static void *
vb_memset(void *d, int c, size_t n)
{
        size_t i;
        for (i = 0; i < n; i++) {
                ((uint8_t *)d)[i] = (uint8_t)c;
        }
        return d;
}
static int
vb_memcmp(const void *a, const void *b, size_t n)
{
        size_t i;
        for (i = 0; i < n; i++) {
                if (((const uint8_t *)a)[i] != ((const uint8_t *)b)[i]) {
                        return (int)((const uint8_t *)a)[i] - (int)((const uint8_t *)b)[i];
                }
        }
        return 0;
}
#undef memset
#undef memcpy
#undef memmove
#undef memcmp
#define memset(a, b, c) vb_memset(a, b, c)
#define memcpy(a, b, c) vb_memcpy(a, b, c)
#define memmove(a, b, c) vb_memmove(a, b, c)
#define memcmp(a, b, c) vb_memcmp(a, b, c)
