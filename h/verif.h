/*
 * Common vocabulary of the contract harnesses.
 *
 * A harness file is compiled in two ways:
 *  - by goto-cc: contracts are attached to the real functions, inputs are
 *    nondeterministic, and the verifier decides all obligations;
 *  - by gcc with VERIF_NATIVE (replay of a counterexample): contracts vanish,
 *    inputs come from the verifier's trace, and V_CHECK aborts on a failure.
 */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#if defined(VERIF_NATIVE)
#include <stdio.h>
extern int verif_ninputs, verif_pos;
extern unsigned long long verif_inputs[];
static inline unsigned long long
verif_next(void)
{
        if (verif_pos >= verif_ninputs) {
                printf("REPLAY-DIVERGED: out of inputs\n");
                exit(77);
        }
        return verif_inputs[verif_pos++];
}
static inline uint8_t in_u8(void) { return (uint8_t)verif_next(); }
static inline uint16_t in_u16(void) { return (uint16_t)verif_next(); }
static inline uint32_t in_u32(void) { return (uint32_t)verif_next(); }
static inline uint64_t in_u64(void) { return (uint64_t)verif_next(); }
static inline bool in_bool(void) { return verif_next() != 0; }
#define V_REQ(x)
#define V_ENS(x)
#define V_ASG(...)
#define V_FREES(...)
#define V_RET 0
#define V_PTR_EQ(p, q) ((p) == (q))
#define V_ASSUME(x)                                                           \
        do {                                                                  \
                if (!(x)) {                                                   \
                        printf("REPLAY-DIVERGED: assumption %s\n", #x);       \
                        exit(77);                                             \
                }                                                             \
        } while (0)
/* establish lhs == val in the pre-state */
#define V_BIND(lhs, val) ((lhs) = (val))
#define V_CHECK(x, msg)                                                       \
        do {                                                                  \
                if (!(x)) {                                                   \
                        printf("REPLAY-VIOLATION: %s: %s\n", msg, #x);        \
                        fflush(stdout);                                       \
                        _exit(1);                                             \
                }                                                             \
        } while (0)
#define V_CANARY(c, name) ((void)0)
#define V_RW_OK(p, n) 1
#define V_HAVOC(x) memset(&(x), 0, sizeof(x))
extern void _exit(int);
#else
uint8_t nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);
_Bool nondet_bool(void);
static inline uint8_t in_u8(void) { uint8_t verif_in8 = nondet_u8(); return verif_in8; }
static inline uint16_t in_u16(void) { uint16_t verif_in16 = nondet_u16(); return verif_in16; }
static inline uint32_t in_u32(void) { uint32_t verif_in32 = nondet_u32(); return verif_in32; }
static inline uint64_t in_u64(void) { uint64_t verif_in64 = nondet_u64(); return verif_in64; }
static inline bool in_bool(void) { _Bool verif_in1 = nondet_bool(); return verif_in1; }
#define V_REQ(x) __CPROVER_requires(x)
#define V_ENS(x) __CPROVER_ensures(x)
#define V_ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define V_FREES(...) __CPROVER_frees(__VA_ARGS__)
#define V_RET __CPROVER_return_value
#define V_PTR_EQ(p, q) __CPROVER_pointer_equals(p, q)
#define V_ASSUME(x) __CPROVER_assume(x)
#define V_BIND(lhs, val) __CPROVER_assume((lhs) == (val))
#define V_CHECK(x, msg) __CPROVER_assert(x, "verif: " msg)
/* must be reachable: expected to be reported as failed (vacuity guard) */
#define V_CANARY(c, name) __CPROVER_assert(!(c), "canary: " name)
#define V_RW_OK(p, n) __CPROVER_rw_ok(p, n)
#define V_HAVOC(x) __CPROVER_havoc_object(&(x))
#endif
