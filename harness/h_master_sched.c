/* C14, C17: the master under arbitrary schedules of requests, polls, ticks and driver events (queue of one request).
 * A schedule is R rounds of [request] [4 or 7/8 arbitrary bytes] [frame error] [poll] [T1.5] [poll] [T3.5] [poll] [ticks]
 * [poll] [transmission done] [poll], every part optional (solver variables), in any combination.
 * FC is 3 (one register) or 6. */
#include "vp.h"
#include "ref.h"
static uint16_t l_adr, l_val;
#define RD_HOOK(a, v) l_adr = (a), l_val = (v);
#include "env_master.h"
#include "mcall.h"
#define ID 0x21
static uint16_t adr, val; static unsigned accepted, tx_of_request; static bool sending, pend15, pend35;
static unsigned ended(void) { return n_read + m_outcomes(); }
static void m_on_event(void) {}
static void m_on_send(void)
{
    CHECK(ended() + 1 == accepted, "a transmission belongs to the request that is outstanding");
    tx_of_request++; CHECK(tx_of_request <= 4, "at most four transmissions");
    CHECK(m_txlen == 8 && m_tx[0] == ID && m_tx[1] == FC && be16(m_tx + 2) == adr && be16(m_tx + 4) == (FC == 6 ? val : 1), "every transmission is the request");
    CHECK(ref_crc(m_tx, 8) == 0, "every transmission is the request");
    CHECK(!sending, "one at a time");
    sending = true;
}
static void new_request(void)
{
    uint16_t a = in_u16(), v = in_u16();
    bool free_ = ended() == accepted;
    if (free_) { adr = a; val = v; }
    modbus_master_req_ret_t r = request(FC, a, 1, ID, false, v, 0, 0);
    if (free_) { CHECK(r == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "the buffer is available again"); accepted++; tx_of_request = 0; }
    else CHECK(r == MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR, "the outstanding request keeps its buffer");
}
static void poll(void)
{
    unsigned e = ended(), s = m_sends;
    update_modbus_master_manager();
    CHECK(ended() <= e + 1 && ended() <= accepted, "at most one outcome, none without a request");
    CHECK(ended() == e || m_sends == s, "an outcome and a transmission are separate");
    CHECK(m_sends <= s + 1, "one transmission at a time");
}
static void maybe_poll(void) { if (in_bool()) poll(); }
static void txdone(void) { sending = false; m_cb_tx(); }
static void ticks(unsigned n) { for (unsigned i = 0; i < n; i++) update_modbus_master_timout_timer(); }
void harness(void)
{
    exp_kind = T_HREG; exp_slave = ID;
    modbus_master_init(RTU, 9600, NONE);
    new_request(); poll(); if (in_bool()) { txdone(); poll(); }
    for (unsigned r = 0; r < R; r++)
    {
        if (in_bool()) new_request();
        unsigned n = in_range(0, 2);
        for (unsigned i = 0; i < 8; i++) { uint8_t b = in_u8(); if (i < (n < 2 ? 4 * n : FC == 6 ? 8 : 7)) { m_rx(b); pend15 = true; pend35 = false; } }
        if (in_bool()) { m_cb_ferr(); pend15 = true; pend35 = false; }
        maybe_poll();
        if (in_bool() && (PROP == 14 || pend15)) { m_cb_t15(); pend15 = false; pend35 = true; }
        maybe_poll();
        if (in_bool() && (PROP == 14 || pend35)) { m_cb_t35(); pend35 = false; }
        maybe_poll();
        if (in_bool()) ticks(MODBUS_MASTER_RESP_TIME_OUT_MS);
        maybe_poll();
        if (in_bool() && (PROP == 14 || sending)) txdone();
        maybe_poll();
    }
#if PROP == 14
    COVER(n_timeout == 1, "timed out"); COVER(n_read + n_write == 1, "answered");
#if R > 1
    COVER(accepted == 2 && sending && n_comm == 0, "a second request"); COVER(tx_of_request == 2 && sending, "being repeated");
#endif
    /* the line stays silent: an answer being received ends, a repetition is transmitted, nothing comes back */
    m_cb_t35(); poll(); poll(); poll();
    if (sending) txdone();
    poll(); ticks(MODBUS_MASTER_RESP_TIME_OUT_MS); poll();
    CHECK(ended() == accepted, "every request has ended in exactly one outcome");
    unsigned s = m_sends;
    poll(); poll(); CHECK(m_sends == s && ended() == accepted, "nothing happens without a request");
    new_request(); poll(); CHECK(m_sends == s + 1, "the next request is transmitted");
#else
    /* the transmission completes now; what came before must not matter */
    ASSUME(sending);
    COVER(pend15, "noise at the end of the transmission");
#if R > 1
    COVER(n_read + n_write == 1, "second request"); COVER(tx_of_request == 2, "repetition");
#endif
    unsigned sends = m_sends, e = ended(), nr = n_read, nw = n_write, nt = n_timeout;
    /* the line has been silent since the last noise: its timers may still run out, before or after the first poll */
    txdone();
    bool late = in_bool();
    if (!late) { if (pend15) { m_cb_t15(); pend35 = true; pend15 = false; } if (pend35) m_cb_t35(); pend35 = false; }
    poll();
    if (pend15) { m_cb_t15(); pend35 = true; }
    bool early = in_bool(); if (early) poll();
    if (pend35) m_cb_t35();
    if (!early || in_bool()) poll();                 /* polled in the silence before the response */
    CHECK(ended() == e && m_sends == sends, "nothing has been received in answer yet");
    if (in_bool())
    {
        uint8_t f[8]; unsigned n = FC == 6 ? 8 : 7; uint16_t v = in_u16();
        f[0] = ID; f[1] = FC;
        if (FC == 6) { put16(f + 2, adr); put16(f + 4, val); } else { f[2] = 2; put16(f + 3, v); }
        put_crc(f, n - 2);
        for (unsigned i = 0; i < n; i++) { m_rx(f[i]); }
        maybe_poll(); m_cb_t15(); maybe_poll(); m_cb_t35(); poll(); poll();
        CHECK(ended() == e + 1 && m_sends == sends, "the clean response ends the request");
        if (FC == 6) CHECK(n_write == nw + 1 && wr_kind == T_HREG && wr_slave == ID && wr_adr == adr && wr_qty == 1, "the write is confirmed");
        else CHECK(n_read == nr + 1 && w_bad == 0 && l_adr == adr && l_val == v, "exactly the data of the response is delivered");
    }
    else
    {
        ticks(MODBUS_MASTER_RESP_TIME_OUT_MS); poll();
        CHECK(n_timeout == nt + 1 && ended() == e + 1 && m_sends == sends, "without a response the request times out");
    }
#endif
}
