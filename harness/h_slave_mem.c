/* C08: any frame of N bytes (N concrete, all contents; with FC defined, that function code), on top of arbitrary left-overs.
 * The frame is processed twice, with different left-overs in the request and response buffers: the slave must not notice.
 * MODE 1: all bytes symbolic; MODE 2: an intact frame, the bytes up to the byte count and the last two data bytes are symbolic. */
#include "env_slave.h"
#if MODE == 2
#define CRC_SKIP(i) ((i) >= 12 && (i) < N - 4)
#endif
#include "ref.h"
#define ID 0x21
#define NC MAIN_APP_COILS_QTY
#define ND MAIN_APP_DISCRET_INPUTS_QTY
#define NH MAIN_APP_HOLDING_REG_QTY
#define NI MAIN_APP_INPUT_REG_QTY
#include "modbus_type.h"
#define DIRT 26
static bool co[NC], di[ND], co0[NC], di0[ND], co1[NC]; static uint16_t hr[NH], ir[NI], hr0[NH], ir0[NI], hr1[NH];
static void s_on_send(void) {}
static uint8_t fr[N + 1];
static uint8_t tx1[256]; static unsigned txlen1, sends1;
#define TXMAX (sizeof(unsigned) * 0 + 3 + 2 * (NH > NI ? NH : NI) + 2 + 4)

static void run(void)
{
    for (unsigned i = 0; i < NC; i++) co[i] = co0[i];
    for (unsigned i = 0; i < ND; i++) di[i] = di0[i];
    for (unsigned i = 0; i < NH; i++) hr[i] = hr0[i];
    for (unsigned i = 0; i < NI; i++) ir[i] = ir0[i];
    modbus_slave_init(RTU, 9600, NONE, ID);
    for (unsigned i = 0; i < N + DIRT; i++) if (i < 256) s_rcv->data[i] = in_u8();   /* left-overs of earlier frames */
    if (s_tx) for (unsigned i = 0; i < TXMAX; i++) s_tx[i] = in_u8();
    s_sends = 0;
    for (unsigned i = 0; i < N; i++) s_rx(fr[i]);
    s_cb_t15(); check_modbus_request(); s_cb_t35(); check_modbus_request();
    CHECK(s_sends <= 1, "at most one response");
    CHECK(s_sends == 0 || (s_txlen >= 4 && s_txlen <= 256), "a response has 4 to 256 bytes");
}

void harness(void)
{
    for (unsigned i = 0; i < NC; i++) { co0[i] = in_bool(); register_app_data_to_modbus_slave_coils_table((uint16_t)i, &co[i]); }
    for (unsigned i = 0; i < ND; i++) { di0[i] = in_bool(); register_app_data_to_modbus_slave_din_table((uint16_t)i, &di[i]); }
    for (unsigned i = 0; i < NH; i++) { hr0[i] = in_u16(); if (i != 4) register_app_data_to_modbus_slave_hreg_table((uint16_t)i, &hr[i]); }
    for (unsigned i = 0; i < NI; i++) { ir0[i] = in_u16(); register_app_data_to_modbus_slave_inreg_table((uint16_t)i, &ir[i]); }
    for (unsigned i = 0; i < N; i++) fr[i] = (MODE == 1 || i < 8 || i + 4 >= N) ? in_u8() : (uint8_t)(i * 53u + 7u);
#ifdef FC
    fr[1] = FC;
#endif
#if MODE == 2
    fr[0] = ID; put_crc(fr, N - 2);
#endif
    bool good = false;
#if N >= 4
    good = fr[0] == ID && ref_crc(fr, N - 2) == (uint16_t)(fr[N - 2] | (fr[N - 1] << 8));
#endif
    run();
    if (!good) CHECK(s_sends == 0, "a broken or foreign frame is not answered");
#if N >= 4
    unsigned pdu = N - 3;                        /* function code and data */
    uint8_t f = fr[1];
    bool single = f >= 1 && f <= 6, multi = f == 15 || f == 16;
    bool trunc = (single && pdu < 5) || (multi && (pdu < 6 || pdu < 6u + fr[N > 8 ? 6 : 0]));
    if (trunc && s_sends) CHECK(s_tx[1] == (f | 0x80), "a truncated request is never answered with data");
    if (trunc || !good)
    {
        for (unsigned i = 0; i < NC; i++) CHECK(co[i] == co0[i], "a truncated or broken request changes no coil");
        for (unsigned i = 0; i < NH; i++) CHECK(hr[i] == hr0[i], "a truncated or broken request changes no register");
    }
#if defined(FC) && FC == 71
#elif !defined(FC) || N < 8 || (FC == 15 && N < 10) || (FC == 16 && N < 11)
    COVER(trunc && good && s_sends, "a truncated request");
#else
    COVER(!trunc && s_sends && s_tx[1] == f, "a complete request");
#endif
#endif
#if MODE == 1
    COVER(s_sends == 0, "not answered");
#endif
    for (unsigned i = 0; i < ND; i++) CHECK(di[i] == di0[i], "inputs are never changed");
    for (unsigned i = 0; i < NI; i++) CHECK(ir[i] == ir0[i], "inputs are never changed");
    sends1 = s_sends; txlen1 = s_txlen;
    if (s_sends) for (unsigned i = 0; i < TXMAX; i++) tx1[i] = s_tx[i];
    for (unsigned i = 0; i < NC; i++) co1[i] = co[i];
    for (unsigned i = 0; i < NH; i++) hr1[i] = hr[i];
    run();
    CHECK(s_sends == sends1, "left-overs do not decide whether a frame is answered");
    if (s_sends)
    {
        CHECK(s_txlen == txlen1, "the response does not depend on left-overs");
        for (unsigned i = 0; i < TXMAX; i++) if (i < txlen1) CHECK(s_tx[i] == tx1[i], "the response does not depend on left-overs");
    }
    for (unsigned i = 0; i < NC; i++) CHECK(co[i] == co1[i], "the effect does not depend on left-overs");
    for (unsigned i = 0; i < NH; i++) CHECK(hr[i] == hr1[i], "the effect does not depend on left-overs");
}
