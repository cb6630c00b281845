/* C01: what modbus_RTU_send makes of a payload.  MODE 1: N-1 symbolic bytes; MODE 2: any length, fixed pattern;
 * MODE 3: length N, last 3 bytes symbolic, the rest a fixed pattern; MODE 4: no buffer / too long. */
#include "vp.h"
#include "ref.h"
#include "modbus_RTU.h"
static uint8_t buf[256 + 4];
static uint8_t old[256 + 4];
static uint8_t pat(unsigned i) { return (uint8_t)(i * 37u + 11u + (i >> 3)); }
void harness(void)
{
    unsigned n; uint8_t id, len;
#if MODE == 1
    n = N; id = in_u8();
    for (unsigned i = 0; i < N + 4; i++) buf[i] = in_u8();
#elif MODE == 2
    n = in_range(1, 253); id = 0x11;
    for (unsigned i = 0; i < 260; i++) buf[i] = pat(i);
#elif MODE == 3
    n = N; id = 0x05;
    for (unsigned i = 0; i < 260; i++) buf[i] = pat(i);
    for (unsigned i = N - 3; i < N; i++) buf[i] = in_u8();
#else
    for (unsigned i = 0; i < 260; i++) buf[i] = pat(i);
#endif
    for (unsigned i = 0; i < 260; i++) old[i] = buf[i];
#if MODE == 4
    id = in_u8(); n = in_u8(); len = (uint8_t)n;
    CHECK(modbus_RTU_send(NULL, &len, id) == RET_ERROR, "a frame without a buffer is refused");
    CHECK(len == n, "a refused frame keeps its length");
    for (unsigned k = 254; k <= 255; k++)
    {
        len = (uint8_t)k;
        CHECK(modbus_RTU_send(buf, &len, id) == RET_ERROR, "a frame that does not fit is refused");
        CHECK(len == k, "a refused frame keeps its length");
        for (unsigned i = 0; i < 260; i++) CHECK(buf[i] == old[i], "a refused frame is not written");
    }
    COVER(n == 8, "no buffer");
#else
    len = (uint8_t)n;
    modbus_ret_t r = modbus_RTU_send(buf, &len, id);
    CHECK(r == RET_OK, "a frame that fits is accepted");
    CHECK(len == n + 2, "the length grows by the CRC");
    CHECK(buf[0] == id, "first byte is the address");
    unsigned w = in_range(0, 259);
    if (w != 0 && w != n && w != n + 1) CHECK(buf[w] == old[w], "no other byte changes");
    uint16_t c = 0xFFFF;
#if MODE == 2
    uint16_t want = 0;
    old[0] = id;
    for (unsigned i = 0; i < 253; i++) { c = ref_crc_step(c, old[i]); if (i + 1 == n) want = c; }
    c = want;
    COVER(n == 253, "longest frame"); COVER(n == 1, "shortest frame"); COVER(n == 128, "128 bytes");
#else
    old[0] = id;
    for (unsigned i = 0; i < N; i++) c = ref_crc_step(c, old[i]);
    COVER((c & 0x8000) != 0, "CRC with the top bit set"); COVER((c & 0x8001) == 1, "CRC with the bottom bit set only");
#endif
    CHECK(buf[n] == (c & 0xFF), "CRC low byte first");
    CHECK(buf[n + 1] == (c >> 8), "CRC high byte second");
#endif
}
