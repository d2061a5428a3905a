/* memcpy as a loop over words (cells) or bytes, for short buffers */
#pragma once
#include "bytes.h"
static void *
vc_memcpy(void *d, const void *s, size_t n)
{
        size_t i;
        if (n % 4 != 0) {
                return vb_memcpy(d, s, n);
        }
        for (i = 0; i < n / 4; i++) {
                ((uint32_t *)d)[i] = ((const uint32_t *)s)[i];
        }
        return d;
}
#undef memcpy
#define memcpy(a, b, c) vc_memcpy(a, b, c)
