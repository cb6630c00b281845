/* C12 (and C22): the library's master and the library's slave, connected by an undisturbed line.
 * A history of T transactions (function Fi, quantity Qi; addresses, values and the slave's data arbitrary), each judged against
 * a model of the slave's data. MODE 1: equal ids. MODE 2: another id. */
#include "vp.h"
#include "ref.h"
/* the requested range; one item of it, chosen by the solver, is watched */
static unsigned hits, outside, r_qty; static uint16_t r_adr, r_off, r_val;
#define RD_HOOK(a, v) { if ((uint16_t)((a) - r_adr) >= r_qty) outside++; if ((a) == (uint16_t)(r_adr + r_off)) { hits++; r_val = (v); } }
#include "env_master.h"
#include "env_slave.h"
#include "mcall.h"
#include "modbus_type.h"
#define NC MAIN_APP_COILS_QTY
#define ND MAIN_APP_DISCRET_INPUTS_QTY
#define NH MAIN_APP_HOLDING_REG_QTY
#define NI MAIN_APP_INPUT_REG_QTY
#ifndef HOLE
#define HOLE -1
#endif
#ifdef ANYID
static uint8_t sid;
#define SID sid
#else
#define SID 0x21
#endif
static bool co[NC], co0[NC], di[ND], di0[ND]; static uint16_t hr[NH], hr0[NH], ir[NI], ir0[NI];
static void m_on_event(void) {}
static void m_on_send(void) {}
static void s_on_send(void) {}
#ifdef RAW
#define OK(b, n)
#else
#define OK(b, n) (ok_buf = (b), ok_len = (n), ok_crc = 0)
#endif
static void mpoll(void) { update_modbus_master_manager(); }
static void spoll(void) { check_modbus_request(); }
static unsigned size(uint8_t f) { return f == 1 || f == 5 || f == 15 ? NC : f == 2 ? ND : f == 4 ? NI : NH; }
#define QMAX 24
static bool cv[QMAX]; static uint16_t rv[QMAX];
static unsigned rq_len(uint8_t f, unsigned q) { return f == 15 ? 9 + (q + 7) / 8 : f == 16 ? 9 + 2 * q : 8; }
static unsigned rs_len(uint8_t f, unsigned q) { return f <= 2 ? 5 + (q + 7) / 8 : f <= 4 ? 5 + 2 * q : 8; }
static void unchanged(void)
{
    for (unsigned i = 0; i < NC; i++) CHECK(co[i] == co0[i], "no other item of the slave changes");
    for (unsigned i = 0; i < ND; i++) CHECK(di[i] == di0[i], "no other item of the slave changes");
    for (unsigned i = 0; i < NH; i++) CHECK(hr[i] == hr0[i], "no other item of the slave changes");
    for (unsigned i = 0; i < NI; i++) CHECK(ir[i] == ir0[i], "no other item of the slave changes");
}
static unsigned b_read, b_write, b_exc, b_sends;
static void mark(void) { b_read = n_read; b_write = n_write; b_exc = n_exc; b_sends = m_sends; }
static void transaction(unsigned k);
/* the response is on the line: n bytes */
static void respond(unsigned k, uint8_t f, uint16_t adr, unsigned q, bool one, uint16_t val, unsigned n)
{
    bool out = adr + q > size(f), hole = HOLE >= 0 && adr <= HOLE && HOLE < (int)(adr + q);
    CHECK(ref_crc(s_tx, n) == 0 && s_tx[0] == SID, "the response is a frame of the slave");
    /* what is known of the response is put on the line as a constant, which spares the solver the other cases */
    uint8_t fc = n == 5 ? f | 0x80 : f, bc = rs_len(f, q) - 5;
    CHECK(s_tx[1] == fc, "the function code, or an exception"); if (n > 5 && f <= 4) CHECK(s_tx[2] == bc, "byte count");
    for (unsigned i = 0; i < n; i++) m_rx(i == 0 ? SID : i == 1 ? fc : i == 2 && n > 5 && f <= 4 ? bc : s_tx[i]);
    OK(m_rcv->data, n);
    m_cb_t15(); mpoll(); m_cb_t35(); mpoll();
    OK(0, 0);
    s_cb_tx(); spoll();
    CHECK(n_timeout == 0 && n_comm == 0 && w_bad == 0 && outside == 0, "no error, and nothing but what was asked for");
    if (n == 5)
    {
        CHECK(out || hole, "the slave refuses only what it has to");
        CHECK(n_exc == b_exc + 1 && n_read == b_read && n_write == b_write, "exactly one exception");
        CHECK(x_kind == kind_of(f) && x_exc.exception_code == (out ? 2 : 4) && x_exc.slave_ID == SID && x_exc.data_adr == adr && x_exc.data_qty == q && x_exc.fun_conde == f, "the exception the slave raised, for this request");
    }
    else if (f <= 4)
    {
        CHECK(!out && !hole, "only existing items are served");
        CHECK(n_read == b_read + q && n_write == b_write && n_exc == b_exc && hits == 1, "every item once");
        unsigned a = adr + r_off;
        uint16_t want = 0;
        for (unsigned i = 0; i < size(f); i++) if (i == a) want = f == 1 ? co0[i] : f == 2 ? di0[i] : f == 3 ? hr0[i] : ir0[i];
        CHECK(r_val == want, "the slave's value");
    }
    else
    {
        CHECK(!out && !hole, "only existing items are served");
        CHECK(n_read == b_read && n_exc == b_exc && n_write == b_write + 1, "one confirmation");
        CHECK(wr_kind == kind_of(f) && wr_slave == SID && wr_adr == adr && wr_qty == q, "the confirmation names the request");
        for (unsigned i = 0; i < size(f); i++)
            if (i >= adr && i < adr + q)
            {
                if (f == 5) co0[i] = one;
                else if (f == 6) hr0[i] = val;
                else for (unsigned j = 0; j < q; j++) if (j == i - adr) { if (f == 15) co0[i] = cv[j]; else hr0[i] = rv[j]; }
            }
    }
    if (!(n == 5 && hole && !out)) unchanged();
    transaction(k + 1);
}
static void transaction(unsigned k)
{
    if (k == T) { unsigned a = m_sends, b = s_sends; mpoll(); spoll(); CHECK(m_sends == a && s_sends == b, "and nothing more"); 
#if MODE == 1
        COVER(n_exc == 0, "all served");
#endif
        return; }
    uint8_t f = k == 0 ? F1 : F2; unsigned q = k == 0 ? Q1 : Q2;
#ifdef ADR
    uint16_t adr = ADR;
#else
    uint16_t adr = in_u16();
#endif
    uint16_t val = in_u16(); bool one = in_bool();
    if (f == 15) for (unsigned i = 0; i < q; i++) cv[i] = in_bool();
    if (f == 16) for (unsigned i = 0; i < q; i++) rv[i] = in_u16();
    exp_kind = kind_of(f); exp_slave = SID; r_adr = adr; r_qty = q; r_off = in_u16(); ASSUME(r_off < q); hits = 0;
    mark();
#if MODE == 2
    uint8_t to = in_u8(); ASSUME(to != SID);
#else
    uint8_t to = SID;
#endif
    CHECK(request(f, adr, q, to, one, val, cv, rv) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "accepted");
    mpoll();
    unsigned n = rq_len(f, q), s = s_sends;
    CHECK(m_sends == b_sends + 1 && m_txlen == n && ref_crc(m_tx, n) == 0, "the request is transmitted");
    for (unsigned i = 0; i < n; i++) s_rx(m_tx[i]);
    OK(s_rcv->data, n);
    s_cb_t15(); spoll();
    m_cb_tx(); mpoll();
    s_cb_t35(); spoll();
    OK(0, 0);
#if MODE == 2
    spoll();
    CHECK(s_sends == s, "another slave does not answer"); unchanged();
    COVER(to == 0xFF, "another id");
#else
    CHECK(s_sends == s + 1, "the slave answers once");
    unsigned m = rs_len(f, q);
    CHECK(s_txlen == 5 || s_txlen == m, "the response has the right length");
    if (s_txlen == m) respond(k, f, adr, q, one, val, m);
    else {
#ifndef ADR
        COVER(adr == 0xFFFF || HOLE >= 0, "refused");
#endif
        respond(k, f, adr, q, one, val, 5);
    }
#endif
}
void harness(void)
{
#ifdef ANYID
    sid = in_u8();
#endif
    modbus_master_init(RTU, 9600, NONE); modbus_slave_init(RTU, 9600, NONE, SID);
    for (int i = 0; i < NC; i++) { co[i] = co0[i] = in_bool(); if (i != HOLE) register_app_data_to_modbus_slave_coils_table((uint16_t)i, &co[i]); }
    for (int i = 0; i < ND; i++) { di[i] = di0[i] = in_bool(); if (i != HOLE) register_app_data_to_modbus_slave_din_table((uint16_t)i, &di[i]); }
    for (int i = 0; i < NH; i++) { hr[i] = hr0[i] = in_u16(); if (i != HOLE) register_app_data_to_modbus_slave_hreg_table((uint16_t)i, &hr[i]); }
    for (int i = 0; i < NI; i++) { ir[i] = ir0[i] = in_u16(); if (i != HOLE) register_app_data_to_modbus_slave_inreg_table((uint16_t)i, &ir[i]); }
    transaction(0);
}
