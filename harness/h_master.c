/* C09, C10, C11: one request and one response, through the master's whole stack (FC and quantity QQ concrete, the rest symbolic).
 * PROP 9: a valid response;  PROP 10: a response of N arbitrary bytes with valid address and CRC;  PROP 11: an exception response. */
#ifdef SKIP
#define CRC_SKIP(i) ((i) >= 12 && (i) < SKIP - 4)
#endif
#include "vp.h"
#include "ref.h"
#define BITS (FC == 1 || FC == 2 || FC == 15)
#ifdef ADR           /* one start address: every delivered item is recorded */
#include <stdint.h>
static uint8_t got_n[QQ], r[256]; static unsigned got_out;
#define RD_HOOK(a, v) do { unsigned k_ = (unsigned)((a) - ADR); if (k_ >= QQ) { got_out++; break; } got_n[k_]++; \
        CHECK((v) == (BITS ? (r[3 + k_ / 8] >> (k_ % 8)) & 1 : be16(r + 3 + 2 * (BITS ? 0 : k_))), "an item has the value of the response"); } while (0)
#endif
#include "env_master.h"
#include "mcall.h"
#ifdef SLAVE
#define IDV SLAVE          /* one slave id */
#else
#define IDV in_u8()
#endif
#define RD (FC <= 4)
#define BC (BITS ? (QQ + 7) / 8 : 2 * QQ)
static void m_on_event(void) {}
static uint8_t first[8];
#ifndef QQ
#define QQ 1
#endif
static bool coils[FC == F_WMC ? QQ : 1]; static uint16_t regs[FC == F_WMR ? QQ : 1];
static void m_on_send(void)
{
    if (m_sends == 1) for (unsigned i = 0; i < 8; i++) first[i] = m_tx[i];
}
#if PROP == 9
#define RESP (RD ? BC + 5 : 8)
#elif PROP == 11
#define RESP 5
#else
#define RESP N
#endif
#ifndef ADR
static uint8_t r[RESP + 1];
#endif

void harness(void)
{
    uint16_t adr = in_u16(), value = in_u16(); uint8_t id = IDV; bool coil = in_bool();
#ifdef ADR
    adr = ADR;
#endif
    modbus_master_init(RTU, 9600, NONE);
    CHECK(request(FC, adr, QQ, id, coil, value, coils, regs) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "the request is accepted");
    unsigned qty = FC == F_WC || FC == F_WR ? 1 : QQ;
    exp_kind = kind_of(FC); exp_slave = id; w_adr = in_u16();
    update_modbus_master_manager();
    unsigned len1 = m_txlen;
    for (unsigned i = 0; i < RESP + 10; i++) if (i < 256) m_rcv->data[i] = in_u8();            /* left-overs of earlier responses */
    m_cb_tx(); update_modbus_master_manager();
    CHECK(m_sends == 1 && n_read == 0 && m_outcomes() == 0, "nothing is delivered before a response");
    /* the response */
    for (unsigned i = 0; i < RESP; i++)
#ifdef SKIP
        r[i] = i < 12 || i + 6 >= RESP ? in_u8() : (uint8_t)(i * 53u + 7u);
#else
        r[i] = in_u8();
#endif
    r[0] = id;
#if PROP == 9
    ASSUME(adr <= 65536 - qty);
    r[1] = FC;
    if (RD) r[2] = BC; else { for (unsigned i = 2; i < 6; i++) r[i] = m_tx[i]; }
#elif PROP == 11
    r[1] = FC | 0x80;
#endif
    put_crc(r, RESP - 2);
    for (unsigned i = 0; i < RESP; i++) m_rx(r[i]);
    ok_buf = m_rcv->data; ok_len = RESP;
    m_cb_t15(); update_modbus_master_manager();
    CHECK(n_read == 0 && m_outcomes() == 0, "nothing is delivered before 3.5 characters of silence");
    m_cb_t35(); update_modbus_master_manager();
    bool delivered = n_read || n_write || n_exc;
#if PROP == 10
    bool fits = (r[1] == FC && (RD ? N == BC + 5 && r[2] == BC : N == 8)) || (r[1] == (FC | 0x80) && N == 5);
    CHECK(n_timeout == 0 && n_comm == 0, "no error report at the first failure");
    if (fits) CHECK(m_sends == 1, "a fitting response is used");
    else
    {
        CHECK(!delivered, "nothing is delivered from a response that does not answer the request");
#if N > 3 && (N != 8 || FC <= 4)
        COVER(r[1] == FC, "right function code, wrong length or byte count");
#endif
        update_modbus_master_manager(); update_modbus_master_manager();
        CHECK(m_sends == 2, "the request is repeated");
        CHECK(m_txlen == len1, "the repetition is identical");
        for (unsigned i = 0; i < 8; i++) CHECK(m_tx[i] == first[i], "the repetition is identical");
        m_cb_tx(); update_modbus_master_manager();
        CHECK(n_read == 0 && m_outcomes() == 0, "nothing is delivered from a response that does not answer the request");
    }
    if (N < 4) CHECK(!delivered, "a frame without address, function code and CRC is never used");
    /* values delivered come from the received bytes */
    if (n_read) CHECK(RD && r[1] == FC && n_read == QQ && w_bad == 0, "exactly the requested items are delivered");
    if (n_write) CHECK(!RD && r[1] == FC && n_write == 1 && n_read == 0 && n_exc == 0, "one confirmation");
    if (n_exc) CHECK(r[1] == (FC | 0x80) && n_exc == 1 && n_read == 0 && n_write == 0 && x_exc.exception_code == r[2], "one exception, from the received code");
    COVER(!fits, "a response that does not fit");
#else
    (void)delivered; (void)len1;
    CHECK(n_timeout == 0 && n_comm == 0, "no error report");
#if PROP == 9
    CHECK(n_exc == 0, "no exception");
    if (RD)
    {
        CHECK(n_write == 0, "no write confirmation for a read");
        CHECK(n_read == qty, "every requested item is delivered once");
        CHECK(w_bad == 0, "under the requested table and slave");
#ifdef ADR
        CHECK(got_out == 0, "nothing else is delivered");
        for (unsigned i = 0; i < QQ; i++)
        {
            CHECK(got_n[i] == 1, "every requested item is delivered exactly once");
        }
#if FC <= 4
        COVER((r[2 + BC] & 1) == 1, "last item set");
#endif
#else
        bool in = w_adr >= adr && w_adr < (uint32_t)adr + qty;
        CHECK(w_hits == (in ? 1 : 0), "an item is delivered exactly when it was requested");
        if (in)
        {
            unsigned k = (unsigned)(w_adr - adr);
            uint16_t want = 0;
            if (BITS) { for (unsigned i = 0; i < BC; i++) if (k / 8 == i) want = (r[3 + i] >> (k % 8)) & 1; }
            else for (unsigned i = 0; i < QQ; i++) if (k == i) want = be16(r + 3 + 2 * i);
            CHECK(w_val == want, "with the value of the response");
        }
#if FC <= 4
        COVER(in && w_val == 1 && w_adr == 65535, "the last item is at the highest address");
#endif
#endif
    }
    else
    {
        CHECK(n_read == 0, "no values for a write");
        CHECK(n_write == 1, "the write is confirmed exactly once");
        CHECK(wr_kind == exp_kind && wr_slave == id && wr_adr == adr && wr_qty == qty, "with the slave, table, address and quantity of the request");
#if FC > 4 && !defined(ADR)
        COVER(adr == 65536 - qty, "the highest address");
#elif FC > 4
        COVER(value != 0, "confirmed");
#endif
    }
#else
    CHECK(n_read == 0 && n_write == 0, "no values and no confirmation");
    CHECK(n_exc == 1, "the exception is reported exactly once");
    CHECK(x_kind == exp_kind, "through the notification of the requested kind of data");
    CHECK(x_exc.slave_ID == id && x_exc.fun_conde == FC, "slave and function code");
    CHECK(x_exc.data_adr == adr && x_exc.data_qty == qty, "address and quantity");
    CHECK(x_exc.exception_code == r[2], "exception code");
    COVER(r[2] == 11, "exception 11"); COVER(adr == 0xFFFF, "highest address");
#endif
    unsigned rd = n_read, wc = n_write, xc = n_exc;
    update_modbus_master_manager(); update_modbus_master_timout_timer(); update_modbus_master_manager();
    CHECK(m_sends == 1, "the request is not repeated");
    CHECK(n_read == rd && n_write == wc && n_exc == xc && n_timeout == 0 && n_comm == 0, "the outcome is delivered once");
    CHECK(modbus_master_read_coils(5, 1, 1) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "the buffer is available again");
    update_modbus_master_manager();
    CHECK(m_sends == 2 && m_tx[1] == F_RC, "and the next request is transmitted");
#endif
}
