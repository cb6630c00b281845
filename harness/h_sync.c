/* C23: the driver reports the end of a transmission before its send function returns (bit n of SYNC: transmission number n),
 * or later, between polls. SIDE 0: master, SIDE 1: slave; KIND selects the scenario. */
#include "vp.h"
#include "ref.h"
#define ID 0x21
static unsigned n_tx; static bool sending;
static uint16_t adr, val[2];
static uint8_t good[2][8];
#if SIDE == 0
#include "env_master.h"
#include "mcall.h"
static void m_on_event(void) {}
static void m_on_send(void) { CHECK(!sending, "one transmission at a time"); sending = true; if (SYNC >> n_tx++ & 1) { sending = false; m_cb_tx(); } }
static void polls(unsigned n) { while (n--) update_modbus_master_manager(); }
static void tx_later(void) { CHECK(n_tx > 0, "the request is transmitted"); if (sending) { sending = false; m_cb_tx(); } polls(2); }
static void answer(unsigned n, uint8_t err) { for (unsigned i = 0; i < 8; i++) m_rx(good[n][i] ^ (i == 7 ? err : 0)); m_cb_t15(); m_cb_t35(); polls(3); }
void harness(void)
{
    adr = in_u16(); val[0] = in_u16(); val[1] = in_u16();
    for (unsigned n = 0; n < 2; n++) { good[n][0] = ID; good[n][1] = 6; put16(good[n] + 2, adr); put16(good[n] + 4, val[n]); put_crc(good[n], 6); }
    modbus_master_init(RTU, 9600, NONE);
    CHECK(request(6, adr, 1, ID, false, val[0], 0, 0) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "accepted");
    polls(2); CHECK(n_tx == 1, "the request is transmitted"); tx_later();
#if KIND == 0
    answer(0, 0); CHECK(n_write == 1 && m_outcomes() == 1, "confirmed");
#elif KIND == 1
    answer(0, 1); CHECK(m_outcomes() == 0 && n_tx == 2, "a corrupt response is repeated"); tx_later();
    answer(0, 0); CHECK(n_write == 1 && m_outcomes() == 1, "confirmed");
#else
    for (unsigned i = 0; i < 3; i++) update_modbus_master_timout_timer(); 
    polls(3); CHECK(n_timeout == 1 && m_outcomes() == 1, "a time-out is reported");
#endif
    unsigned before = n_tx;
    CHECK(request(6, adr, 1, ID, false, val[1], 0, 0) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "the buffer is free again");
    polls(2); CHECK(n_tx == before + 1, "the next request is transmitted"); tx_later(); answer(1, 0);
    CHECK(m_outcomes() == 2 && n_write == (KIND == 2 ? 1 : 2), "the next request is confirmed");
    COVER(val[0] != val[1], "both requests end");
}
#else
#include "env_slave.h"
#include "modbus_type.h"
static uint16_t hr[MAIN_APP_HOLDING_REG_QTY];
static void s_on_send(void) { CHECK(!sending, "one transmission at a time"); sending = true; if (SYNC >> n_tx++ & 1) { sending = false; s_cb_tx(); } }
static void polls(unsigned n) { while (n--) check_modbus_request(); }
static void frame(unsigned n, uint8_t err) { polls(2); for (unsigned i = 0; i < 8; i++) s_rx(good[n][i] ^ (i == 7 ? err : 0)); s_cb_t15(); s_cb_t35(); polls(2); if (sending) { sending = false; s_cb_tx(); } polls(2); }
void harness(void)
{
    adr = in_u16(); val[0] = in_u16(); val[1] = in_u16(); ASSUME(adr < MAIN_APP_HOLDING_REG_QTY);
    for (unsigned n = 0; n < 2; n++) { good[n][0] = ID; good[n][1] = 6; put16(good[n] + 2, adr); put16(good[n] + 4, val[n]); put_crc(good[n], 6); }
    modbus_slave_init(RTU, 9600, NONE, ID);
    for (unsigned i = 0; i < MAIN_APP_HOLDING_REG_QTY; i++) register_app_data_to_modbus_slave_hreg_table((uint16_t)i, &hr[i]);
    frame(0, 0);
    CHECK(n_tx == 1 && hr[adr] == val[0], "executed and answered");
#if KIND == 1
    frame(1, 1); CHECK(n_tx == 1 && hr[adr] == val[0], "a corrupt request is not answered");
#endif
    frame(1, 0);
    CHECK(n_tx == 2 && hr[adr] == val[1], "the next request is executed and answered");
    for (unsigned i = 0; i < 8; i++) CHECK(s_tx[i] == good[1][i], "the response");
    frame(0, 0); CHECK(n_tx == 3 && hr[adr] == val[0], "and the third");
    COVER(val[0] != val[1], "three requests are answered");
}
#endif
