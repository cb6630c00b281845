/* Independent reference definitions, written from the MODBUS specifications, shared by the harnesses. */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#ifdef VP_ABS_CRC
/* Stand-in for the CRC where only "the check bytes match" matters: x^16 in place of the MODBUS polynomial, i.e. the same
 * table-driven shape with T[i] = i << 8. Like the CRC it is zero over a frame followed by its check bytes (low byte first).
 * The library's own calculate_CRC is decided by C01 and C02. */
#ifdef VP_WEAK_CRC
static inline uint16_t ref_crc_step(uint16_t c, uint8_t b) { (void)c; return b; }
#else
static inline uint16_t ref_crc_step(uint16_t c, uint8_t b) { return (uint16_t)((c >> 8) ^ ((uint16_t)(uint8_t)(c ^ b) << 8)); }
#endif
#ifndef CRC_SKIP
#define CRC_SKIP(i) 0       /* positions the stand-in ignores, in harnesses with one long frame */
#endif
/* A frame the harness has given correct (or wrong) check bytes and put where the library receives: that its CRC is zero (or
 * not) is known, which spares the solver finding out (the frame's bytes in the buffer are what the harness wrote). */
#ifdef VP_CBMC
#define SAME_PTR(p, q) (__CPROVER_same_object(p, q) && __CPROVER_POINTER_OFFSET(p) == __CPROVER_POINTER_OFFSET(q))
#else
#define SAME_PTR(p, q) ((p) == (q))
#endif
static uint8_t *ok_buf; static unsigned ok_len; static uint16_t ok_crc;
#ifdef VP_WEAK_CRC
/* The weakest stand-in, for long schedules: the last byte. It too is zero over a frame followed by its check bytes (the frame's
 * last byte and zero), and frames with right and wrong check bytes of every length and content exist. */
uint16_t calculate_CRC(uint8_t *d, uint32_t n) { if (ok_len && n == ok_len && SAME_PTR(d, ok_buf)) return ok_crc; return n ? d[n - 1] : 0xFFFF; }
#else
uint16_t calculate_CRC(uint8_t *d, uint32_t n) { if (ok_len && n == ok_len && SAME_PTR(d, ok_buf)) return ok_crc; uint16_t c = 0xFFFF; for (uint32_t i = 0; i < n; i++) if (!(CRC_SKIP(i))) c = ref_crc_step(c, d[i]); return c; }
#endif
#else
static inline uint16_t ref_crc_step(uint16_t c, uint8_t b)
{
    c ^= b;
    for (int k = 0; k < 8; k++)
        c = (c & 1) ? (uint16_t)((c >> 1) ^ 0xA001) : (uint16_t)(c >> 1);
    return c;
}
#endif
static inline uint16_t ref_crc(const uint8_t *d, unsigned n)
{
    uint16_t c = 0xFFFF;
    for (unsigned i = 0; i < n; i++)
#ifdef VP_ABS_CRC
        if (!(CRC_SKIP(i)))
#endif
        c = ref_crc_step(c, d[i]);
    return c;
}
static inline uint16_t be16(const uint8_t *p) { return (uint16_t)((p[0] << 8) | p[1]); }
static inline void put16(uint8_t *p, uint16_t v) { p[0] = (uint8_t)(v >> 8); p[1] = (uint8_t)v; }
static inline void put_crc(uint8_t *f, unsigned n) { uint16_t c = ref_crc(f, n); f[n] = (uint8_t)c; f[n + 1] = (uint8_t)(c >> 8); }
enum { F_RC = 1, F_RD = 2, F_RH = 3, F_RI = 4, F_WC = 5, F_WR = 6, F_WMC = 15, F_WMR = 16 };
static inline unsigned ref_bits_bytes(unsigned q) { return (q + 7u) / 8u; }
#endif
