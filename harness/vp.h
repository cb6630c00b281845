/* Common harness vocabulary. One source is used twice:
 *  - by CBMC (VP_CBMC): inputs are unconstrained solver variables, CHECK is an assertion decided for
 *    all of them, COVER is a reachability witness (an assertion that MUST come back violated);
 *  - natively (VP_REPLAY): inputs are read from a file with the values of a counterexample or of a
 *    witness, CHECK aborts with a message. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>

#ifdef VP_REPLAY
#include <stdio.h>
#include <stdlib.h>
uint32_t vp_next_input(uint32_t mask);
void vp_fail(const char *msg, const char *file, int line);
void vp_assume_failed(const char *msg);
void vp_cover(const char *msg);
#define CHECK(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define ASSUME(c) do { if (!(c)) vp_assume_failed(#c); } while (0)
#define COVER(c, msg) do { if (c) vp_cover(msg); } while (0)
static inline uint8_t in_u8(void) { return (uint8_t)vp_next_input(0xFF); }
static inline uint16_t in_u16(void) { return (uint16_t)vp_next_input(0xFFFF); }
static inline bool in_bool(void) { return vp_next_input(1) != 0; }
#else
uint32_t nondet_vp_u32(void);
static uint32_t vp_in;
#define CHECK(c, msg) __CPROVER_assert((c), "CHECK: " msg)
#define ASSUME(c) __CPROVER_assume(c)
#define COVER(c, msg) do { if (c) __CPROVER_assert(0, "COVER: " msg); } while (0)
static inline uint8_t in_u8(void) { vp_in = nondet_vp_u32(); __CPROVER_assume(vp_in <= 0xFF); return (uint8_t)vp_in; }
static inline uint16_t in_u16(void) { vp_in = nondet_vp_u32(); __CPROVER_assume(vp_in <= 0xFFFF); return (uint16_t)vp_in; }
static inline bool in_bool(void) { vp_in = nondet_vp_u32(); __CPROVER_assume(vp_in <= 1); return vp_in != 0; }
#endif
/* a value in [lo, hi] */
static inline uint16_t in_range(uint16_t lo, uint16_t hi) { uint16_t v = in_u16(); ASSUME(v >= lo && v <= hi); return v; }
#define IN_RANGE8(lo, hi) ((uint8_t)in_range((lo), (hi)))

void harness(void);
#endif
