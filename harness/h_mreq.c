/* C03, C04: requests made through the master's public interface.
 * MODE 1: encoding of function FC (reads, single writes), all parameters;  MODE 2: multiple writes, quantity 1..QMAX symbolic;
 * MODE 3: multiple writes, quantity exactly Q, last values symbolic;  MODE 4: which quantities are accepted;
 * MODE 5: histories of valid, invalid and excess requests and completions. */
#include "env_master.h"
#include "ref.h"
#include "mcall.h"
static void m_on_event(void) {}
static uint8_t sent_adr[16];
static void m_on_send(void) { if (m_sends <= 16) sent_adr[m_sends - 1] = m_tx[3]; }

/* whatever an earlier request may have left in the (single) buffer */
static void dirty(unsigned n)
{
    modbus_master_read_coils(1, 1, 1);
    update_modbus_master_manager();
    for (unsigned i = 0; i < n; i++) m_tx[i] = in_u8();
    for (unsigned i = n; i < 254; i++) m_tx[i] = 0xFF;
    modbus_master_init(RTU, 9600, NONE);
    m_sends = 0;
}
static void transmit(void)
{
    update_modbus_master_manager();
    CHECK(m_sends == 1, "an accepted request is transmitted");
}
static void check_crc(unsigned n)
{
    uint16_t c = ref_crc(m_tx, n);
    CHECK(m_txlen == n + 2, "frame length");
    CHECK(m_tx[n] == (uint8_t)c && m_tx[n + 1] == (uint8_t)(c >> 8), "CRC, low byte first");
}

#ifndef FC
#define FC 1
#endif
#if MODE == 2 || MODE == 3
#if MODE == 3
#define QMAX Q
#endif
#if MODE == 3
static bool coils[FC == F_WMC ? QMAX : 1], last_c[4];
static uint16_t regs[FC == F_WMR ? QMAX : 1], last_r[4];
#define COIL0(i) ((i) >= Q - 4 ? last_c[(i) - (Q - 4)] : (i) % 3 == 0)
#define REG0(i) ((i) >= Q - 4 ? last_r[(i) - (Q - 4)] : (uint16_t)((i) * 517u + 3u))
#else
static bool coils[QMAX], coils0[QMAX];
static uint16_t regs[QMAX], regs0[QMAX];
#define COIL0(i) coils0[i]
#define REG0(i) regs0[i]
#endif
#endif
#if MODE == 6
static bool bigc[1968]; static uint16_t bigr[123];
#endif

#if MODE == 5
/* All histories of K operations. The choice of each operation is a solver variable; the rest of the history is executed
 * inside each choice, so that the library's pointers stay concrete. Every valid request carries its number as address. */
static bool *cc; static uint16_t *rr; static uint8_t acc[K + 12];
#define CAP MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS
static unsigned end_one(void)             /* let the next request be transmitted and time out (after one tick); its number */
{
    unsigned before = m_sends, t = n_timeout;
    update_modbus_master_manager();
    CHECK(m_sends == before + 1, "an accepted request is transmitted");
    m_cb_tx(); update_modbus_master_manager(); update_modbus_master_manager();
    CHECK(n_timeout == t + 1, "the request ended");
    return sent_adr[before];
}
static void history(unsigned k, unsigned accepted, unsigned done, unsigned rejected, unsigned full)
{
    unsigned outstanding = accepted - done;
    if (k == K)
    {
        COVER(rejected && full, "history with rejected and refused requests"); COVER(done == 1 && outstanding == 1, "one completed, one left");
        for (unsigned i = 0; i < outstanding; i++)
            CHECK(end_one() == acc[done + i], "accepted requests are transmitted intact and in order");
        for (unsigned i = 0; i < CAP; i++)
            CHECK(modbus_master_read_coils(5, 1, 1) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "the full capacity is available again");
        CHECK(modbus_master_read_coils(5, 1, 1) == MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR, "but not more");
        return;
    }
    uint8_t op = IN_RANGE8(0, 3);
    if (op == 0)
    {
        modbus_master_req_ret_t r = request(FC, (uint16_t)(100 + k), 3, 9, 1, 7, cc, rr);
        if (outstanding < CAP)
        {
            CHECK(r == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "a valid request is accepted while there is capacity");
            acc[accepted] = (uint8_t)(100 + k);
            history(k + 1, accepted + 1, done, rejected, full);
        }
        else
        {
            CHECK(r == MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR, "a valid request is refused exactly when the capacity is used up");
            history(k + 1, accepted, done, rejected, full + 1);
        }
    }
    else if (op <= 2)
    {
        modbus_master_req_ret_t r;
        if (op == 1) r = modbus_master_read_holding_reg(99, 126, 9); else r = modbus_master_write_multiple_coils(99, 0, 9, cc);
        CHECK(r != MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "an invalid request is rejected");
        if (outstanding < CAP) CHECK(r == MODBUS_MASTER_LIB_PDU_REQ_ERROR, "an invalid request gets the request error");
        history(k + 1, accepted, done, rejected + 1, full);
    }
    else if (outstanding)
    {
        CHECK(end_one() == acc[done], "accepted requests are transmitted intact and in order");
        history(k + 1, accepted, done + 1, rejected, full);
    }
    else
    {
        unsigned before = m_sends;
        update_modbus_master_manager();
        CHECK(m_sends == before, "nothing is transmitted without an accepted request");
        history(k + 1, accepted, done, rejected, full);
    }
}
#endif

void harness(void)
{
    modbus_master_init(RTU, 9600, NONE);
#if MODE == 1
    dirty(12);
    uint16_t adr = in_u16(), q = in_u16(), reg = in_u16(); uint8_t id = in_u8(); bool coil = in_bool();
    ASSUME(FC == F_WC || FC == F_WR || (q >= 1 && q <= max_qty(FC)));
    CHECK(request(FC, adr, q, id, coil, reg, NULL, NULL) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "a valid request is accepted");
    CHECK(m_sends == 0, "nothing is transmitted before the manager runs");
    transmit();
    uint16_t data = FC == F_WC ? (coil ? 0xFF00 : 0) : FC == F_WR ? reg : q;
    CHECK(m_tx[0] == id, "slave address"); CHECK(m_tx[1] == FC, "function code");
    CHECK(be16(m_tx + 2) == adr, "address, big-endian"); CHECK(be16(m_tx + 4) == data, "quantity or value, big-endian");
    check_crc(6);
    COVER(adr == 0xFFFF && id == 247, "highest address"); COVER(FC == F_WC ? coil : (data & 0xFF) != 0, "value");
#elif MODE == 2 || MODE == 3
    dirty(MODE == 2 ? 14 : 0);
    uint16_t adr = in_u16(); uint8_t id = MODE == 2 ? in_u8() : 17;
#if MODE == 2
    unsigned q = in_range(1, QMAX), off = QMAX - q;
    for (unsigned i = 0; i < QMAX; i++) { if (FC == F_WMC) coils0[i] = coils[i] = in_bool(); else regs0[i] = regs[i] = in_u16(); }
#else
    unsigned q = Q, off = 0;
    for (unsigned k = 0; k < 4; k++) { last_c[k] = in_bool(); last_r[k] = in_u16(); }
    for (unsigned i = 0; i < Q; i++) { if (FC == F_WMC) coils[i] = COIL0(i); else regs[i] = REG0(i); }
    adr = ADR;
#endif
    /* the last value lies at the end of the array: reading beyond the caller's data is an access violation */
    CHECK(request(FC, adr, (uint16_t)q, id, 0, 0, coils + off, regs + off) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "a valid request is accepted");
    transmit();
    unsigned bytes = FC == F_WMC ? ref_bits_bytes(q) : 2 * q;
    CHECK(m_tx[0] == id, "slave address"); CHECK(m_tx[1] == FC, "function code");
    CHECK(be16(m_tx + 2) == adr, "address, big-endian"); CHECK(be16(m_tx + 4) == q, "quantity, big-endian");
    CHECK(m_tx[6] == bytes, "byte count");
    for (unsigned i = 0; i < (FC == F_WMC ? (QMAX + 7) / 8 : QMAX); i++)
    {
        if (FC == F_WMC)
        {
            uint8_t want = 0;
            for (unsigned k = 0; k < 8; k++) if (i * 8 + k < q && COIL0(off + i * 8 + k)) want |= (uint8_t)(1u << k);
            if (i < bytes) CHECK(m_tx[7 + i] == want, "coil values packed least significant bit first, padding zero");
        }
        else if (i < q) CHECK(be16(m_tx + 7 + 2 * i) == REG0(off + i), "register values, big-endian");
    }
#if MODE == 2
    uint16_t c = 0xFFFF, want = 0;                         /* CRC of the first 7+bytes bytes */
    for (unsigned i = 0; i < 7 + (FC == F_WMC ? (QMAX + 7) / 8 : 2 * QMAX); i++) { c = ref_crc_step(c, m_tx[i]); if (i + 1 == 7 + bytes) want = c; }
    CHECK(m_txlen == 9 + bytes, "frame length");
    CHECK(m_tx[7 + bytes] == (uint8_t)want && m_tx[8 + bytes] == (uint8_t)(want >> 8), "CRC, low byte first");
    COVER(q == 1, "one item"); COVER(q == QMAX, "largest quantity of the instance"); COVER(bytes == 2 && adr == 0xFFFF, "two bytes");
#else
    check_crc(7 + bytes);
    COVER(FC == F_WMC ? coils[Q - 1] : (regs[Q - 1] == 0xBEEF), "last item");
#endif
    for (unsigned i = 0; i < QMAX; i++) if (FC == F_WMC) CHECK(coils[i] == COIL0(i), "the caller's data are not modified"); else CHECK(regs[i] == REG0(i), "the caller's data are not modified");
#elif MODE == 4
    uint16_t adr = in_u16(), q = in_u16(); uint8_t id = in_u8();
    bool one[1]; uint16_t oner[1];
    bool ok = q >= 1 && q <= max_qty(FC);
    if (FC == F_WMC || FC == F_WMR) ASSUME(!ok);
    modbus_master_req_ret_t r = request(FC, adr, q, id, 0, 0, one + 1, oner + 1);   /* a rejected request must not read the data */
    CHECK(r == (ok ? MODBUS_MASTER_REQUEST_SEND_TO_QUEUE : MODBUS_MASTER_LIB_PDU_REQ_ERROR), "accepted exactly when the quantity is allowed");
    update_modbus_master_manager();
    CHECK(m_sends == (ok ? 1 : 0), "a rejected request is never transmitted, an accepted one is");
    CHECK(m_outcomes() == 0 && n_read == 0, "no callback");
    COVER(q == 0, "quantity zero"); COVER(q == max_qty(FC) + 1, "one too many"); COVER(q == 65535, "65535");
#elif MODE == 6
    uint8_t id = in_u8();
    CHECK(request(FC, 7, QQ, id, 0, 0, bigc, bigr) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "boundary quantities are accepted");
    update_modbus_master_manager();
    CHECK(m_sends == 1, "an accepted request is transmitted");
    COVER(id == 3, "accepted");
#else
    static bool c3[3]; static uint16_t r3[3]; cc = c3; rr = r3;
    history(0, 0, 0, 0, 0);
#endif
}
