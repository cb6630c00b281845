/* C20: initialisation and re-initialisation in any state.
 * SIDE 0: the master; SIDE 1: the slave. A history of R rounds of arbitrary events (as in C14 / C18), then initialisation
 * with arbitrary parameters, then normal operation, which must be that of a fresh station. */
#include "vp.h"
#include "ref.h"
#define ID 0x21
#define OWN_DRIVER
static unsigned inits; static uint32_t i_baud; static unsigned i_parity, pos, i_init, i_sub15, i_sub35, i_subtx, i_subfe, i_en;
#if SIDE == 0
#include "env_master.h"
#include "mcall.h"
static void m_on_event(void) {}
static uint16_t adr, val; static bool second, late;
static void m_on_send(void)
{
    if (!late) return;
    CHECK(i_sub15 && i_sub35 && i_subtx && i_subfe, "all driver events are subscribed");
    CHECK(m_txlen == 8 && m_tx[0] == ID && m_tx[1] == FC && be16(m_tx + 2) == (second ? (uint16_t)(adr + 1) : adr) && be16(m_tx + 4) == (FC == 6 ? val : 1) && (CAP > 1 /* C03 decides it */ || ref_crc(m_tx, 8) == 0), "only requests made after initialisation are transmitted");
}
static void poll(void) { update_modbus_master_manager(); }
static void maybe_poll(void) { if (in_bool()) poll(); }
static void ticks(unsigned n) { for (unsigned i = 0; i < n; i++) update_modbus_master_timout_timer(); }
#else
#include "env_slave.h"
#include "modbus_type.h"
static bool co[MAIN_APP_COILS_QTY], di[MAIN_APP_DISCRET_INPUTS_QTY]; static uint16_t hr[MAIN_APP_HOLDING_REG_QTY], ir[MAIN_APP_INPUT_REG_QTY];
static void s_on_send(void) {}
static void poll(void) { check_modbus_request(); }
static void maybe_poll(void) { if (in_bool()) poll(); }
#endif

/* a recording driver in front of the stub's */
static void r_init(baud_t b, parity_t p) { inits++; i_baud = b; i_parity = p; i_init = ++pos; }
#define REC(n, s) static void r_##n(driver_subscr_cb_t c) { CHECK(c != 0, "a callback is subscribed"); i_##n = ++pos; s(c); }
#if SIDE == 0
REC(sub15, m_sub15) REC(sub35, m_sub35) REC(subtx, m_subtx) REC(subfe, m_subfe)
static void r_en(modbus_req_resp_t *r)
{
    if (late) CHECK(i_sub15 && i_sub35 && i_subtx && i_subfe && i_init, "all driver events are subscribed before reception is enabled");
    m_en(r);
}
#define SEND m_send
#define DIS m_dis
#else
REC(sub15, s_sub15) REC(sub35, s_sub35) REC(subtx, s_subtx) REC(subfe, s_subfe)
static bool late, early_frame; static uint8_t q[8];
static void request_frame(void)
{
    for (unsigned i = 0; i < 8; i++) s_rx(q[i]);
    s_cb_t15(); s_cb_t35();
}
static void r_en(modbus_req_resp_t *r)
{
    CHECK(i_sub15 && i_sub35 && i_subtx && i_subfe && i_init, "all driver events are subscribed before reception is enabled");
    i_en = ++pos;
    s_en(r);
    if (late)
    {
        CHECK(r->len == 0, "the receive buffer is empty");
        if (early_frame) request_frame();               /* received before the initialisation function returns */
    }
}
#define SEND s_send
#define DIS s_dis
#endif
static const modbus_RTU_driver_struct_t r_drv = {.init = r_init, .send = SEND, .enable_rcev = r_en, .disable_rcev = DIS, .subscribe_t_1_5_char_expired_cb = r_sub15,
    .subscribe_msg_tx_done_cb = r_subtx, .subscribe_t_3_5_char_expired_cb = r_sub35, .subscribe_modbus_frame_error_cb = r_subfe};
static void fresh(void) { inits = pos = i_init = i_sub15 = i_sub35 = i_subtx = i_subfe = i_en = 0; }

#if SIDE == 0
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &r_drv; }
static void feed(uint8_t *f, unsigned n, uint16_t crc) { for (unsigned i = 0; i < n; i++) m_rx(f[i]); ok_buf = m_rcv->data; ok_len = n; ok_crc = crc; }
static void corrupt(void)
{
    uint8_t f[8];
    for (unsigned i = 0; i < 8; i++) f[i] = in_u8();
    f[0] = ID; put_crc(f, 6); f[7] ^= 1;
    feed(f, 8, 0x100);
    m_cb_t15(); poll(); m_cb_t35(); poll(); ok_len = 0;
}
static void any_request(void) { uint16_t a = in_u16(), v = in_u16(); request(FC, a, 1, ID, false, v, 0, 0); }
static void transmission(void) { unsigned s = m_sends; poll(); CHECK(m_sends == s + 1, "the request is transmitted"); m_cb_tx(); poll(); }
/* the request is answered after `fails` corrupt answers; after four it is reported, or it times out */
static void serve(unsigned fails, bool timeout)
{
    unsigned r = n_read, w = n_write, c = n_comm, t = n_timeout, x = n_exc;
    for (unsigned k = 0; k < fails; k++)
    {
        transmission(); corrupt();
        CHECK(n_read == r && n_write == w && n_timeout == t && n_exc == x && n_comm == c + (k == MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR), "it has its full number of repetitions");
    }
    if (fails > MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR) return;
    transmission();
    if (timeout) { ticks(MODBUS_MASTER_RESP_TIME_OUT_MS - 2); poll(); CHECK(n_timeout == t, "the full time-out"); ticks(2); poll(); CHECK(n_timeout == t + 1, "it times out"); return; }
    uint8_t f[8]; unsigned n = FC == 6 ? 8 : 7; uint16_t v = in_u16(), a = second ? adr + 1 : adr;
    w_adr = a; w_hits = 0;
    f[0] = ID; f[1] = FC;
    if (FC == 6) { put16(f + 2, a); put16(f + 4, val); } else { f[2] = 2; put16(f + 3, v); }
    put_crc(f, n - 2); feed(f, n, 0);
    m_cb_t15(); poll(); m_cb_t35(); poll(); ok_len = 0;
    CHECK(n_comm == c && n_timeout == t && n_exc == x && n_write == w + (FC == 6) && n_read == r + (FC == 3), "the answer is delivered, nothing else");
    if (FC == 3) CHECK(w_hits == 1 && w_val == v && w_bad == 0, "with its value");
}
static void reinitialised(void)
{
    unsigned sends = m_sends, ev = n_read + m_outcomes();
#if R > 0 && !defined(SCRIPT)
    COVER(sends == 2, "initialised while a request is repeated or a second one is under way"); COVER(ev == 1, "initialised after an outcome"); COVER(m_rcv->len == 4, "initialised in the middle of a response");
#endif
    /* initialisation in whatever state this is */
    ok_len = 0;
    fresh(); late = true;
    uint16_t hi = in_u16(), lo = in_u16(); uint32_t baud = ((uint32_t)hi << 16) | lo; unsigned par = IN_RANGE8(0, 2);
    modbus_master_init(RTU, (baud_t)baud, (parity_t)par);
    CHECK(inits == 1 && i_baud == (uint32_t)(baud_t)baud && i_parity == par, "the driver is configured as requested");
    CHECK(i_sub15 && i_sub35 && i_subtx && i_subfe, "all driver events are subscribed");
    poll(); if (in_bool()) { ticks(MODBUS_MASTER_RESP_TIME_OUT_MS); poll(); }
    CHECK(m_sends == sends && n_read + m_outcomes() == ev, "no request is outstanding");
    adr = in_u16(); val = in_u16();
    for (unsigned i = 0; i < MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS; i++)
        CHECK(request(FC, adr + i, 1, ID, false, val, 0, 0) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "the full request capacity is available");
    CHECK(request(FC, adr, 1, ID, false, val, 0, 0) == MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR, "not more than that");
    serve(FAILS, FAILS < 4 && in_bool());
#if CAP > 1
    second = true;
    serve(0, false);
#endif
#if CAP < 3
    poll(); poll();
    CHECK(m_sends == sends + (FAILS > 3 ? 4 : FAILS + 1) + (CAP > 1), "nothing else is transmitted");
#endif
}
#ifdef SCRIPT
/* The history is chosen by the solver; the rest of the execution is inside each choice, so that the library's state stays
 * concrete. R attempts may be completed (corrupt answer, valid answer, time-out); initialisation may come at any of seven
 * points of every attempt. */
static void history(unsigned r)
{
    unsigned stop = r == R ? 0 : IN_RANGE8(0, 9);
    if (stop == 0) { reinitialised(); return; }                    /* before the request is transmitted */
    poll();
    if (stop == 1) { reinitialised(); return; }                    /* while it is transmitted */
    m_cb_tx(); poll();
    if (stop == 2) { reinitialised(); return; }                    /* waiting for the response */
    uint8_t f[8]; unsigned n = FC == 6 ? 8 : 7;
    for (unsigned i = 0; i < 8; i++) f[i] = in_u8();
    if (stop == 3) { for (unsigned i = 0; i < 4; i++) m_rx(f[i]); if (in_bool()) m_cb_ferr(); reinitialised(); return; }
    if (stop == 4) { for (unsigned i = 0; i < 4; i++) m_rx(f[i]); m_cb_t15(); reinitialised(); return; }
    if (stop == 5) { f[0] = ID; put_crc(f, n - 2); feed(f, n, 0); m_cb_t15(); poll(); reinitialised(); return; }
    if (stop == 6) { f[0] = ID; put_crc(f, n - 2); feed(f, n, 0); m_cb_t15(); poll(); m_cb_t35(); reinitialised(); return; }
    if (stop == 7) { corrupt(); history(r + 1); return; }
    if (stop == 8) { ticks(MODBUS_MASTER_RESP_TIME_OUT_MS); poll(); history(r + 1); return; }
    f[0] = ID; f[1] = FC; if (FC == 6) for (unsigned i = 2; i < 6; i++) f[i] = m_tx[i]; else f[2] = 2;
    put_crc(f, n - 2); feed(f, n, 0);
    m_cb_t15(); poll(); m_cb_t35(); poll(); ok_len = 0;
    if (r == R - 1) COVER(n_read + n_write > 0, "initialised after an outcome");
    history(r + 1);
}
#endif
void harness(void)
{
    exp_kind = T_HREG; exp_slave = ID;
    modbus_master_init(RTU, 9600, NONE);
    for (unsigned i = 0; i < NREQ; i++) any_request();
#ifdef SCRIPT
    history(0);
#else
    poll(); if (in_bool()) { m_cb_tx(); poll(); }
    for (unsigned r = 0; r < R; r++)
    {
        unsigned n = in_range(0, 2);
        for (unsigned i = 0; i < 8; i++) { uint8_t b = in_u8(); if (i < (n < 2 ? 4 * n : FC == 6 ? 8 : 7)) m_rx(b); }
        if (in_bool()) m_cb_ferr();
        maybe_poll();
        if (in_bool()) m_cb_t15();
        maybe_poll();
        if (in_bool()) m_cb_t35();
        maybe_poll();
        if (in_bool()) ticks(MODBUS_MASTER_RESP_TIME_OUT_MS);
        maybe_poll();
        if (in_bool()) m_cb_tx();
        maybe_poll();
        if (in_bool()) any_request();
        maybe_poll();
    }
    reinitialised();
    COVER(adr == 0xFFFF, "served after initialisation");
#endif
}
#else
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &r_drv; }
static void reg(void)
{
    register_app_data_to_modbus_slave_coils_table(0, &co[0]); register_app_data_to_modbus_slave_din_table(0, &di[0]);
    register_app_data_to_modbus_slave_inreg_table(0, &ir[0]);
    for (unsigned i = 0; i < 2; i++) register_app_data_to_modbus_slave_hreg_table((uint16_t)i, &hr[i]);
}
void harness(void)
{
    hr[0] = in_u16(); hr[1] = in_u16();
    modbus_slave_init(RTU, 9600, NONE, ID); reg();
    for (unsigned r = 0; r < R; r++)
    {
        unsigned n = in_range(0, 2);
        for (unsigned i = 0; i < 8; i++) { uint8_t b = in_u8(); if (i == 1 || i == 5) b &= 7; if (i < 4 * n) s_rx(b); }
        if (in_bool()) s_cb_ferr();
        maybe_poll();
        if (in_bool()) s_cb_t15();
        maybe_poll();
        if (in_bool()) s_cb_t35();
        maybe_poll(); maybe_poll();
        if (in_bool()) s_cb_tx();
        maybe_poll();
    }
    unsigned sends = s_sends;
#if R > 0
    COVER(sends == 1, "initialised during or after a response"); COVER(sends == 0 && s_rcv->len > 0, "initialised in the middle of a request");
#endif
    fresh(); late = true;
    uint16_t hi = in_u16(), lo = in_u16(); uint32_t baud = ((uint32_t)hi << 16) | lo; unsigned par = IN_RANGE8(0, 2);
    uint8_t id = in_u8(), to = in_u8(), a = in_bool(); bool wr = in_bool(); uint16_t v = in_u16(), h[2] = {hr[0], hr[1]};
    q[0] = to; q[1] = wr ? 6 : 3; q[2] = 0; q[3] = a; put16(q + 4, wr ? v : 1); put_crc(q, 6);
    early_frame = in_bool();
    modbus_slave_init(RTU, (baud_t)baud, (parity_t)par, id); reg();
    CHECK(inits == 1 && i_baud == (uint32_t)(baud_t)baud && i_parity == par, "the driver is configured as requested");
    CHECK(i_en, "reception is enabled");
    CHECK(s_sends == sends && hr[0] == h[0] && hr[1] == h[1], "initialising transmits and executes nothing");
    if (!early_frame)
    {
        maybe_poll(); maybe_poll();
        CHECK(s_sends == sends && hr[0] == h[0] && hr[1] == h[1], "no response is pending");
        CHECK(s_rcv->len == 0, "the receive buffer is empty");
        request_frame();
    }
    poll(); poll();
    if (to != id) CHECK(s_sends == sends && hr[0] == h[0] && hr[1] == h[1], "only the new station id counts");
    else
    {
        CHECK(s_sends == sends + 1, "a request to the new station id is answered");
        if (wr) { CHECK(hr[a] == v && hr[1 - a] == h[1 - a], "and executed"); for (unsigned i = 0; i < 8; i++) CHECK(s_txlen == 8 && s_tx[i] == q[i], "echo"); }
        else CHECK(hr[0] == h[0] && hr[1] == h[1] && s_txlen == 7 && s_tx[0] == id && s_tx[1] == 3 && s_tx[2] == 2 && be16(s_tx + 3) == h[a], "the right response");
        s_cb_tx(); poll(); poll();
        CHECK(s_sends == sends + 1, "once");
    }
    COVER(to == id && early_frame && wr, "request received during initialisation"); COVER(to == ID && id != ID, "request to the old id"); COVER(to == id && !early_frame && !wr, "read after initialisation");
}
#endif
