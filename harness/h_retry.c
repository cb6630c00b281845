/* C16 (and C21, C14): all sequences of attempt results for a request, then a second request.
 * What happens to each attempt is chosen by the solver; the rest of the history is executed inside each choice, so that the
 * library's state stays concrete while the contents of the frames are symbolic.
 * Request 1 is function FC, quantity 3, request 2 (queued from the beginning if QUEUED) writes a register. */
#include "vp.h"
#include "ref.h"
#include "env_master.h"
#include "mcall.h"
#define ID 0x21
#define RD (FC <= 4)
#define BITS (FC == 1 || FC == 2 || FC == 15)
#ifndef Q1
#define Q1 3
#endif
#define BC (BITS ? (Q1 + 7) / 8 : 2 * Q1)
#define WLEN (FC == F_WMC || FC == F_WMR ? 9 + BC : 8)
#define N1 (RD ? (BC > 20 ? 9 : 5 + BC) : 8)     /* large reads only in histories in which no attempt succeeds */
#define qty Q1
#ifndef XLEN
#define XLEN n          /* length of corrupt answers */
#endif
#define REP MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR
static void m_on_event(void) {}
static uint8_t want[2][WLEN]; static unsigned wlen[2]; static unsigned cur;
static uint16_t adr1, val1, adr2, val2;
#define CN (FC == F_WMC || FC == F_WMR ? Q1 : 1)
static bool coils[CN]; static uint16_t regs[CN];
static void m_on_send(void)
{
    CHECK(cur < 2, "nothing is transmitted without a request");
    CHECK(m_txlen == wlen[cur], "every transmission is the request");
    for (unsigned i = 0; i < WLEN; i++) if (i < wlen[cur]) CHECK(m_tx[i] == want[cur][i], "every transmission is the request");
}
static void poll(void) { update_modbus_master_manager(); }
static void feed(uint8_t *r, unsigned n, uint16_t crc)
{
    for (unsigned i = 0; i < n; i++) m_rx(r[i]);
    ok_buf = m_rcv->data; ok_len = n; ok_crc = crc;
}
enum { K_CRC, K_FRAME, K_CONT, K_UNFIT, K_GOOD, K_EXC, K_NONE };
/* one answer of the given kind to request c; the frame's remaining contents are arbitrary */
static void answer(unsigned c, unsigned kind, unsigned fails)
{
    static uint8_t r[40]; unsigned n = c == 0 ? N1 : 8; uint8_t fc = c == 0 ? FC : F_WR;
    for (unsigned i = 0; i < 16; i++) r[i] = in_u8();
    r[0] = ID; r[1] = fc;
    if (c == 0 && RD) r[2] = BC; else for (unsigned i = 2; i < 6; i++) r[i] = want[c][i];
    if (kind == K_EXC) { n = 5; r[1] |= 0x80; r[2] = in_u8(); }
    if (kind == K_UNFIT) { if (fails & 1) n--; else r[1] = fc == F_RI ? F_RH : F_RI; }  /* C10 decides all contents */
    if (kind == K_CRC || kind == K_FRAME) { n = XLEN; for (unsigned i = 1; i < n - 2; i++) r[i] = in_u8(); }
    put_crc(r, n - 2);
    uint16_t crc = 0;
    if (kind == K_CRC) { r[n - 1] ^= IN_RANGE8(1, 255); crc = 0x100; }
    if (kind == K_CONT)
    {
        m_rx(r[0]); m_cb_t15(); if (fails & 1) poll();
        for (unsigned i = 1; i < n; i++) m_rx(r[i]);
        ok_len = n; ok_buf = m_rcv->data; ok_crc = 0;
    }
    else feed(r, n, crc);
    if (kind == K_FRAME) { m_cb_ferr(); }
    m_cb_t15(); poll();
    m_cb_t35(); poll();
    ok_len = 0;
    if (kind == K_EXC) CHECK(x_exc.exception_code == r[2], "exception code");
}
#ifdef FOREIGN
static void foreign(void)          /* an intact frame of another slave */
{
    uint8_t r[8];
    for (unsigned i = 0; i < 8; i++) r[i] = in_u8();
    r[0] = ID + 1; put_crc(r, 6);
    for (unsigned i = 0; i < 8; i++) m_rx(r[i]);
    m_cb_t15(); poll(); m_cb_t35(); poll();
}
#endif
static unsigned s_read, s_write, s_exc, s_tmo, s_comm;
static void mark(void) { s_read = n_read; s_write = n_write; s_exc = n_exc; s_tmo = n_timeout; s_comm = n_comm; }
static void outcome(unsigned rd, unsigned wr, unsigned ex, unsigned to, unsigned co)
{
    CHECK(n_read - s_read == rd && n_write - s_write == wr && n_exc - s_exc == ex && n_timeout - s_tmo == to && n_comm - s_comm == co, "exactly the outcome that is due, no other");
}
static void report(unsigned c, int kind)
{
    CHECK(x_err.slave_ID == ID && x_err.fun_conde == (c == 0 ? FC : F_WR), "the report names the slave and function of the failed request");
    CHECK(x_err.data_adr == (c == 0 ? adr1 : adr2), "the report names the address of the failed request");
    CHECK(x_err.data_qty == (c == 0 && FC != 5 && FC != 6 ? qty : 1), "the report names the quantity of the failed request");
    CHECK(x_err.resp_read_error == kind, "the report names the kind of the last failure");
}
#ifdef FIRST
#define KINDS(f) ((f) == 0 ? 1 << FIRST : KINDSET)
#else
#define KINDS(f) KINDSET
#endif
static void attempt(unsigned c, unsigned fails, unsigned mode);
static void ended(unsigned c, unsigned fails)
{
    if (c == 1)
    {
        unsigned s = m_sends; poll(); poll();
        CHECK(m_sends == s, "nothing is transmitted any more");
        return;
    }
    if (TAIL < 0) return;
#ifndef QUEUED
    unsigned s = m_sends; poll();
    CHECK(m_sends == s, "a finished request is not repeated");
    CHECK(modbus_master_write_single_reg(adr2, ID, val2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "the next request is accepted");
#endif
    if (TAIL <= 0) return;
    cur = 1; mark();
    attempt(1, 0, fails & 1 ? K_CRC : K_FRAME);
}
static void after(unsigned c, unsigned fails, unsigned mode, unsigned kind)
{
    answer(c, kind, fails);
    if (kind == K_GOOD)
    {
        outcome(c == 0 && RD ? Q1 : 0, c == 0 && RD ? 0 : 1, 0, 0, 0);
#if KINDSET & 16
        COVER(c == (TAIL > 0) && fails == REP, "delivered at the last repetition");
#endif
        ended(c, fails);
    }
    else if (kind == K_EXC) { outcome(0, 0, 1, 0, 0); ended(c, fails); }
    else if (fails < REP) { outcome(0, 0, 0, 0, 0); attempt(c, fails + 1, mode); }
    else
    {
        outcome(0, 0, 0, 0, 1);
        report(c, kind == K_CRC ? MODBUS_MASTER_RESP_RTU_CRC_ERR : MODBUS_MASTER_RESP_FRAME_ERR);
#if KINDSET & 15
        COVER(c == (TAIL > 0), "finally failed");
#endif
        ended(c, fails);
    }
}
/* request c has failed `fails` times. Request 1: every attempt may go any way (KINDS); request 2: the attempts fail in the
 * way `mode` until the last one, which may also succeed. */
static void attempt(unsigned c, unsigned fails, unsigned mode)
{
    unsigned s = m_sends;
    poll();
    CHECK(m_sends == s + 1, "the request is transmitted, after a failure repeated");
    m_cb_tx(); poll();
#ifdef FOREIGN
    if (c == 0 && fails == FOREIGN) { foreign(); outcome(0, 0, 0, 0, 0); CHECK(m_sends == s + 1, "a frame from another slave is ignored"); }
#endif
    unsigned kind;
    if (c == 1)
    {
        if (fails == REP && in_bool()) after(c, fails, mode, K_GOOD);
        else if (mode == K_CRC) after(c, fails, mode, K_CRC);
        else after(c, fails, mode, K_FRAME);
        return;
    }
    kind = IN_RANGE8(0, K_NONE);
#ifdef FIRST
    if (fails == 0) ASSUME(kind == FIRST);
#endif
    if (kind == K_CRC) { if (KINDS(fails) & 1) after(c, fails, mode, K_CRC); }
    else if (kind == K_FRAME) { if (KINDS(fails) & 2) after(c, fails, mode, K_FRAME); }
    else if (kind == K_CONT) { if (KINDS(fails) & 4) after(c, fails, mode, K_CONT); }
    else if (kind == K_UNFIT) { if (KINDS(fails) & 8) after(c, fails, mode, K_UNFIT); }
    else if (kind == K_GOOD) { if (KINDS(fails) & 16) after(c, fails, mode, K_GOOD); }
    else if (kind == K_EXC) { if (KINDS(fails) & 32) after(c, fails, mode, K_EXC); }
    else if (KINDS(fails) & 64)
    {
        update_modbus_master_timout_timer(); update_modbus_master_timout_timer(); poll();
        outcome(0, 0, 0, 1, 0);
        report(c, MODBUS_MASTER_RESP_TIMEOUT_ERR);
#if KINDSET & 64
        COVER(adr1 == 0xFFFF, "timed out");
#endif
        ended(c, fails);
    }
}

void harness(void)
{
    adr1 = in_u16(); val1 = in_u16(); adr2 = in_u16(); val2 = in_u16();
    for (unsigned i = 0; i < CN; i++) { coils[i] = in_bool(); regs[i] = in_u16(); }
    bool one = in_bool();
    uint8_t *w = want[0];
    w[0] = ID; w[1] = FC; put16(w + 2, adr1); put16(w + 4, FC == F_WC ? (one ? 0xFF00 : 0) : FC == F_WR ? val1 : qty); wlen[0] = WLEN;
    if (FC == F_WMC) { w[6] = BC; for (unsigned i = 0; i < Q1; i++) w[7 + i / 8] |= (uint8_t)(coils[i] << (i % 8)); }
    if (FC == F_WMR) { w[6] = 2 * Q1; for (unsigned i = 0; i < Q1; i++) put16(w + 7 + 2 * i, regs[i]); }
    put_crc(w, wlen[0] - 2);
    w = want[1]; w[0] = ID; w[1] = F_WR; put16(w + 2, adr2); put16(w + 4, val2); put_crc(w, 6); wlen[1] = 8;
    exp_kind = kind_of(FC); exp_slave = ID;
    modbus_master_init(RTU, 9600, NONE);
    CHECK(request(FC, adr1, qty, ID, one, val1, coils, regs) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "accepted");
#ifdef QUEUED
    CHECK(modbus_master_write_single_reg(adr2, ID, val2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "accepted");
#endif
    mark();
    attempt(0, 0, 0);
}
