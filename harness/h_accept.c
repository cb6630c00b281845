/* C02: which received frames pass the link layer. MODE 1: any frame of N bytes; MODE 2: a valid frame hit by
 * an error burst; MODE 4: length N, fixed pattern, last five bytes symbolic; MODE 3: frames of any length up to 255 with a fixed pattern, last two bytes symbolic. */
#include "vp.h"
#include "ref.h"
#include "modbus_RTU.h"
static uint8_t buf[256];
static uint8_t pat(unsigned i) { return (uint8_t)(i * 29u + 5u + (i >> 4)); }
void harness(void)
{
    uint8_t id = in_u8();
#if MODE == 1
    for (unsigned i = 0; i < N + 4; i++) buf[i] = in_u8();        /* what follows the frame is arbitrary too */
    bool crc_ok = ref_crc(buf, N - 2) == (uint16_t)(buf[N - 2] | (buf[N - 1] << 8));
    modbus_ret_t r = modbus_RTU_recv(buf, N, id);
    CHECK((r == RET_OK) == (buf[0] == id && crc_ok), "accepted exactly when address and CRC are right");
    CHECK((r == RET_ERROR_SLAVE_ID) == (buf[0] != id), "wrong address is reported as such");
    CHECK((r == RET_ERROR_CRC) == (buf[0] == id && !crc_ok), "wrong CRC is reported as such");
    COVER(r == RET_OK, "accepted"); COVER(r == RET_ERROR_CRC, "CRC error"); COVER(r == RET_ERROR_SLAVE_ID && crc_ok, "other address");
#elif MODE == 2
    for (unsigned i = 0; i < N - 2; i++) buf[i] = in_u8();
    put_crc(buf, N - 2);
    uint16_t e = in_u16(); unsigned p = in_range(0, 8 * N - 1);
    ASSUME(e != 0);
    ASSUME((e & 1) != 0);                                          /* normalised: the burst starts at bit p */
    uint8_t err[N + 3];
    for (unsigned i = 0; i < N + 3; i++) err[i] = 0;
    uint32_t v = (uint32_t)e << (p % 8);
    err[p / 8] = (uint8_t)v; err[p / 8 + 1] = (uint8_t)(v >> 8); err[p / 8 + 2] = (uint8_t)(v >> 16);
    ASSUME(err[N] == 0 && err[N + 1] == 0 && err[N + 2] == 0);     /* within the frame */
    for (unsigned i = 0; i < N; i++) buf[i] ^= err[i];
    CHECK(modbus_RTU_recv(buf, N, id) != RET_OK, "a frame with an error burst of up to 16 bits is rejected");
    COVER(p == 0 && e == 0x8001, "burst at the start"); COVER(p == 8 * N - 1, "last bit"); COVER(e == 0xFFFF && p == 3, "16 flipped bits");
#elif MODE == 4
    for (unsigned i = 0; i < N; i++) buf[i] = pat(i);
    for (unsigned i = N - 5; i < 256 && i < N + 4; i++) buf[i] = in_u8();
    bool crc_ok = ref_crc(buf, N - 2) == (uint16_t)(buf[N - 2] | (buf[N - 1] << 8));
    modbus_ret_t r = modbus_RTU_recv(buf, N, id);
    CHECK((r == RET_OK) == (buf[0] == id && crc_ok), "accepted exactly when address and CRC are right");
    CHECK((r == RET_ERROR_SLAVE_ID) == (buf[0] != id), "wrong address is reported as such");
    COVER(r == RET_OK, "accepted"); COVER(r == RET_ERROR_CRC, "CRC error"); COVER(r == RET_ERROR_SLAVE_ID && crc_ok, "other address");
#else
    unsigned n = in_range(3, 255); uint8_t l0 = in_u8(), l1 = in_u8();
    for (unsigned i = 0; i < 256; i++) buf[i] = pat(i);
    uint16_t c = 0xFFFF, want = 0;
    for (unsigned i = 0; i < 253; i++) { c = ref_crc_step(c, buf[i]); if (i + 3 == n) want = c; }
    for (unsigned i = 0; i < 256; i++) { if (i == n - 2) buf[i] = l0; if (i == n - 1) buf[i] = l1; }
    modbus_ret_t r = modbus_RTU_recv(buf, (uint8_t)n, id);
    bool crc_ok = want == (uint16_t)(l0 | (l1 << 8));
    CHECK((r == RET_OK) == (buf[0] == id && crc_ok), "accepted exactly when address and CRC are right");
    CHECK((r == RET_ERROR_SLAVE_ID) == (buf[0] != id), "wrong address is reported as such");
    COVER(r == RET_OK && n == 255, "255 bytes accepted"); COVER(r == RET_OK && n == 130, "130 bytes accepted");
#endif
}
