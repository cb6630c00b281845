/* C15: time-out of an unanswered request under every polling pattern.
 * FAILS corrupt answers first (so that the FAILS+1st transmission is the unanswered one), then ROUNDS rounds of "some timer
 * ticks, then perhaps a poll"; the numbers of ticks and the polls are the solver's choice. A second request is queued. */
#include "vp.h"
#include "ref.h"
#include "env_master.h"
#include "mcall.h"
#define ID 0x21
#define T_ MODBUS_MASTER_RESP_TIME_OUT_MS
#ifndef FAILS
#define FAILS 0
#endif
static uint16_t adr, adr2; static unsigned reported_at, ticks;
static void m_on_event(void) {}
static void m_on_send(void)
{
    if (m_sends <= FAILS + 1)
    {
        CHECK(n_timeout == 0, "a request that timed out is not repeated");
        CHECK(m_txlen == 8 && m_tx[1] == FC && be16(m_tx + 2) == adr, "the request");
    }
    else
    {
        CHECK(m_sends == FAILS + 2 && n_timeout == 1, "the next request is transmitted after the time-out, once");
        CHECK(m_txlen == 8 && m_tx[1] == F_WR && be16(m_tx + 2) == adr2, "the next queued request");
    }
}
static void poll(void) { update_modbus_master_manager(); }
static void tick(void) { update_modbus_master_timout_timer(); if (n_timeout == 0) ticks++; }
static void checked_poll(void)
{
    unsigned before = n_timeout, s = m_sends;
    poll();
    CHECK(n_timeout <= 1, "reported once");
    CHECK(n_read + n_write + n_exc + n_comm == 0, "no other outcome");
    if (before == 0)
    {
        if (n_timeout) CHECK(ticks + 1 >= T_, "not reported before the time-out has elapsed (to within one tick)");
        else CHECK(ticks < T_, "reported at the first poll after the time-out has elapsed");
        CHECK(m_sends == s, "nothing is transmitted while waiting");
    }
    else CHECK(m_sends == FAILS + 2, "the next request is transmitted at the next poll");
}
static void final(void)
{
    for (unsigned i = 0; i < T_; i++) if (ticks < T_ || i < 2) tick();
    checked_poll(); CHECK(n_timeout == 1, "reported");
    CHECK(x_err.slave_ID == ID && x_err.fun_conde == FC && x_err.data_adr == adr && x_err.resp_read_error == MODBUS_MASTER_RESP_TIMEOUT_ERR, "as a time-out of this request");
    checked_poll(); CHECK(m_sends == FAILS + 2, "the next request is transmitted");
    for (unsigned i = 0; i < (T_ < 10 ? T_ + 2 : 3); i++) tick();
    poll(); CHECK(m_sends == FAILS + 2 && n_timeout == 1, "a request being transmitted does not time out");
}
void harness(void)
{
    bool coils[1] = {0}; uint16_t regs[1] = {0};
    adr = in_u16(); adr2 = in_u16();
    modbus_master_init(RTU, 9600, NONE);
    for (unsigned i = 0; i < PRE; i++) if (in_bool()) tick();
    CHECK(request(FC, adr, 1, ID, in_bool(), in_u16(), coils, regs) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "accepted");
    CHECK(modbus_master_write_single_reg(adr2, ID, 0) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "accepted");
    for (unsigned a = 0; ; a++)
    {
        poll(); CHECK(m_sends == a + 1, "transmitted");
        for (unsigned i = 0; i < PRE; i++) { if (in_bool()) tick(); if (in_bool()) poll(); }       /* while transmitting */
        CHECK(m_outcomes() == 0, "no outcome while transmitting");
        m_cb_tx();
        for (unsigned i = 0; i < PRE; i++) if (in_bool()) tick();                                  /* not noticed yet */
        poll();
        if (a == FAILS) break;
        ok_buf = m_rcv->data; ok_len = 8; ok_crc = 1;
        m_rx(ID); for (unsigned i = 0; i < 7; i++) m_rx(in_u8());
        if (a & 1) m_cb_ferr();
        m_cb_t15(); poll(); m_cb_t35(); poll(); ok_len = 0;
        CHECK(m_outcomes() == 0, "repeated");
    }
    CHECK(m_outcomes() == 0, "not at once");
    ticks = 0;
#ifdef LO
    /* a long time-out: one poll after any number of ticks in [LO, HI] (the solver chooses; what follows is executed inside
     * the choice), later polls around the end of the time-out */
    for (unsigned i = 0; i < LO; i++) tick();
    uint16_t n = in_range(LO, HI); bool again = in_bool();
    for (unsigned i = LO; i <= HI; i++)
    {
        if (n == i)
        {
            COVER(i == HI, "latest poll");
            checked_poll();
            while (ticks + 3 < T_) tick();
            if (again) for (int k = 0; k < 6; k++) { checked_poll(); tick(); }
            final();
            return;
        }
        tick();
    }
#else
    for (unsigned r = 0; r < ROUNDS; r++)
    {
        unsigned n = in_range(0, MAXT);
        for (unsigned i = 0; i < MAXT; i++) if (i < n) tick();
        if (in_bool()) checked_poll();
    }
    COVER(n_timeout == 0 && ticks + 2 == T_, "one tick before"); COVER(n_timeout == 0 && ticks > T_, "long after, not polled"); COVER(n_timeout == 1 && m_sends == FAILS + 2, "reported and gone on");
    final();
#endif
}
