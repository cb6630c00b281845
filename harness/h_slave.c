/* C05, C06, C07: what the slave does with a complete, intact request (PROP selects the class of requests).
 * The request travels through the whole slave: driver callbacks, manager, framing, PDU, tables.
 * MODE 1: function FC with an 8-byte request, every field symbolic;  MODE 2: multiple writes, quantity, byte count and data symbolic
 * (up to MAXB data bytes);  MODE 3: address ADR and quantity QQ fixed, all data symbolic;
 * MODE 4: unsupported function codes, any length 4..LMAX;  MODE 5: boundary of a table of full size. */
#include "env_slave.h"
#include "ref.h"
#define ID 0x21
#ifndef MAXB
#define MAXB 2
#endif
#ifndef HOLE
#define HOLE 0
#endif
#define NC MAIN_APP_COILS_QTY
#define ND MAIN_APP_DISCRET_INPUTS_QTY
#define NH MAIN_APP_HOLDING_REG_QTY
#define NI MAIN_APP_INPUT_REG_QTY
#include "modbus_type.h"
#if MODE == 3
#define VARS 13
#ifndef LO
#define LO 0
#define HI VARS
#endif
static bool pc[7]; static uint16_t pr[7];
static bool co[VARS], co0[VARS]; static uint16_t hr[VARS], hr0[VARS];
static const int watched[VARS] = {ADR - 1, ADR, ADR + 1, ADR + 7, ADR + 8, ADR + 9, ADR + QQ / 2, ADR + QQ / 2 + 1, ADR + QQ - 9, ADR + QQ - 8, ADR + QQ - 2, ADR + QQ - 1, ADR + QQ};
/* number of the watched item, plus one */
#define W(i, k) (int)(i) == watched[k] ? k + 1 :
#define OWNER(i) (W(i, 0) W(i, 1) W(i, 2) W(i, 3) W(i, 4) W(i, 5) W(i, 6) W(i, 7) W(i, 8) W(i, 9) W(i, 10) W(i, 11) W(i, 12) 0)
static bool c_at(unsigned i) { return OWNER(i) ? co0[OWNER(i) - 1] : pc[i % 7]; }
static uint16_t r_at(unsigned i) { return OWNER(i) ? hr0[OWNER(i) - 1] : pr[i % 7]; }
#elif MODE != 5
static bool co[NC], co0[NC], di[ND], di0[ND];
static uint16_t hr[NH], hr0[NH], ir[NI], ir0[NI];
#endif
static void s_on_send(void) {}
static uint8_t rq[256];          /* the request as sent by the master, without CRC */
static unsigned rn;

/* transmit rq[0..rn) with its CRC (rn <= rmax), then silence, with the manager polled */
static void exchange(unsigned rmax)
{
    uint16_t c = 0xFFFF, crc = 0;
    for (unsigned i = 0; i < rmax; i++) { c = ref_crc_step(c, rq[i]); if (i + 1 == rn) crc = c; }
    for (unsigned i = 0; i < rmax + 2; i++)
        if (i < rn + 2) s_rx(i < rn ? rq[i] : i == rn ? (uint8_t)crc : (uint8_t)(crc >> 8));
    s_cb_t15();
    check_modbus_request();
    s_cb_t35();
    check_modbus_request();
    CHECK(s_sends == 1, "an intact request is answered exactly once");
}
static void check_crc(unsigned n, unsigned nmax)
{
    uint16_t c = 0xFFFF, crc = 0;
    for (unsigned i = 0; i < nmax; i++) { c = ref_crc_step(c, s_tx[i]); if (i + 1 == n) crc = c; }
    CHECK(s_txlen == n + 2, "length of the response");
    CHECK(s_tx[n] == (uint8_t)crc && s_tx[n + 1] == (uint8_t)(crc >> 8), "CRC of the response");
}
static bool is_read(uint8_t f) { return f >= 1 && f <= 4; }
static unsigned limit(uint8_t f) { return f == 1 || f == 2 ? 2000 : f == 3 || f == 4 ? 125 : f == 15 ? 1968 : f == 16 ? 123 : 1; }
static unsigned size(uint8_t f) { return f == 1 || f == 5 || f == 15 ? NC : f == 2 ? ND : f == 4 ? NI : NH; }

/* 0: must be served, otherwise the exception code; hole: address of the table that is not backed, or -1 */
static unsigned verdict(uint8_t f, unsigned adr, unsigned q, unsigned bc, int hole)
{
    if (!(f >= 1 && f <= 6) && f != 15 && f != 16) return 1;
    if (f == 5) { if (q != 0 && q != 0xFF00) return 3; q = 1; }
    else if (f == 6) q = 1;
    else if (q == 0 || q > limit(f)) return 3;
    if (adr + q > size(f)) return 2;
    if (f == 15 && bc != (q + 7) / 8) return 3;
    if (f == 16 && bc != 2 * q) return 3;
    if (hole >= 0 && adr <= (unsigned)hole && (unsigned)hole < adr + q) return 4;
    return 0;
}

#if MODE != 5 && MODE != 3
static void setup(int hole)
{
    modbus_slave_init(RTU, 9600, NONE, ID);
    for (unsigned i = 0; i < NC; i++) co[i] = co0[i] = in_bool();
    for (unsigned i = 0; i < ND; i++) di[i] = di0[i] = in_bool();
    for (unsigned i = 0; i < NH; i++) hr[i] = hr0[i] = in_u16();
    for (unsigned i = 0; i < NI; i++) ir[i] = ir0[i] = in_u16();
    for (int i = 0; i < NC; i++) if (i != hole) register_app_data_to_modbus_slave_coils_table((uint16_t)i, &co[i]);
    for (int i = 0; i < ND; i++) if (i != hole) register_app_data_to_modbus_slave_din_table((uint16_t)i, &di[i]);
    for (int i = 0; i < NH; i++) if (i != hole) register_app_data_to_modbus_slave_hreg_table((uint16_t)i, &hr[i]);
    for (int i = 0; i < NI; i++) if (i != hole) register_app_data_to_modbus_slave_inreg_table((uint16_t)i, &ir[i]);
}
static bool bit_at(uint8_t f, unsigned i) { return f == 1 ? (i < NC && co0[i]) : (i < ND && di0[i]); }
static uint16_t reg_at(uint8_t f, unsigned i) { return f == 3 ? (i < NH ? hr0[i] : 0) : (i < NI ? ir0[i] : 0); }
static void check_unchanged(void)
{
    for (unsigned i = 0; i < NC; i++) CHECK(co[i] == co0[i], "no coil changed");
    for (unsigned i = 0; i < ND; i++) CHECK(di[i] == di0[i], "no discrete input changed");
    for (unsigned i = 0; i < NH; i++) CHECK(hr[i] == hr0[i], "no holding register changed");
    for (unsigned i = 0; i < NI; i++) CHECK(ir[i] == ir0[i], "no input register changed");
}
static void check_exception(uint8_t f, unsigned code)
{
    CHECK(s_tx[0] == ID, "own address"); CHECK(s_tx[1] == (uint8_t)(f | 0x80), "function code plus 0x80");
    CHECK(s_tx[2] == code, "the right exception code");
    check_crc(3, 3);
    if (code != 4) check_unchanged();
}
static void check_served(uint8_t f, unsigned adr, unsigned q, unsigned qmax)
{
    CHECK(s_tx[0] == ID, "own address"); CHECK(s_tx[1] == f, "function code");
    if (is_read(f))
    {
        unsigned bytes = f <= 2 ? (q + 7) / 8 : 2 * q, bmax = f <= 2 ? (qmax + 7) / 8 : 2 * qmax;
        CHECK(s_tx[2] == bytes, "byte count");
        for (unsigned i = 0; i < bmax; i++)
            if (i < bytes)
            {
                uint8_t want = 0;
                if (f <= 2) { for (unsigned k = 0; k < 8; k++) if (8 * i + k < q && bit_at(f, adr + 8 * i + k)) want |= (uint8_t)(1u << k); }
                else want = i % 2 ? (uint8_t)reg_at(f, adr + i / 2) : (uint8_t)(reg_at(f, adr + i / 2) >> 8);
                CHECK(s_tx[3 + i] == want, "the current value of every requested item, in order");
            }
        check_crc(3 + bytes, 3 + bmax);
        check_unchanged();
    }
    else
    {
        for (unsigned i = 2; i < 6; i++) CHECK(s_tx[i] == rq[i], "echo of address and value or quantity");
        check_crc(6, 6);
        for (unsigned i = 0; i < NC; i++)
        {
            bool w = co0[i];
            if (f == 5 && i == adr) w = rq[4] != 0;
            if (f == 15 && i >= adr && i < adr + q) w = (rq[7 + (i - adr) / 8] >> ((i - adr) % 8)) & 1;
            CHECK(co[i] == w, "exactly the addressed coils have exactly the requested values");
        }
        for (unsigned i = 0; i < NH; i++)
        {
            uint16_t w = hr0[i];
            if (f == 6 && i == adr) w = be16(rq + 4);
            if (f == 16 && i >= adr && i < adr + q) w = be16(rq + 7 + 2 * (i - adr));
            CHECK(hr[i] == w, "exactly the addressed registers have exactly the requested values");
        }
        for (unsigned i = 0; i < ND; i++) CHECK(di[i] == di0[i], "no discrete input changed");
        for (unsigned i = 0; i < NI; i++) CHECK(ir[i] == ir0[i], "no input register changed");
    }
}
#endif

#if MODE == 1 || MODE == 2
static void request(uint16_t adr, uint16_t q, unsigned bc, unsigned n)
{
    rn = n;
    if (n > 6) rq[6] = (uint8_t)bc;
    unsigned v = verdict(FC, adr, q, bc, HOLE ? HOLE : -1);
#if PROP == 7
    ASSUME(v != 0);
#else
    ASSUME(v == 0);
#endif
    exchange(n);
    if (v) check_exception(FC, v);
    else check_served(FC, adr, q, size(FC) < limit(FC) ? size(FC) : limit(FC));
#if PROP == 7
#if FC != 6
    COVER(v == 3, "illegal value");
#endif
    COVER(v == 2, "illegal address"); COVER(v == 2 && adr == 0xFFFF, "at the end of the address space");
#if HOLE && (MODE == 1 || (FC == 15 && MAXB > 0) || (FC == 16 && MAXB > 0 && MAXB % 2 == 0 && MAXB <= 22))
    COVER(v == 4, "not backed by application data");
#endif
#else
    COVER(adr == 0, "first item"); COVER(adr + (FC == 5 || FC == 6 ? 1u : q) == size(FC), "up to the last item");
#if FC != 5 && FC != 6
    COVER(q >= 2 || MAXB == 2, "several items");
#endif
#endif
}
#endif

void harness(void)
{
    rq[0] = ID;
#if MODE == 1 || MODE == 2
    setup(HOLE ? HOLE : -1);
    rq[1] = FC;
    uint16_t adr = in_u16(), q = in_u16();
    put16(rq + 2, adr); put16(rq + 4, q);
#if MODE == 1
    request(adr, q, 0, 6);
#else
    for (unsigned i = 0; i < MAXB; i++) rq[7 + i] = in_u8();
    request(adr, q, MAXB, 7 + MAXB);
#endif
#elif MODE == 3
    /* a large table in which VARS watched items have a variable of their own and the others share seven variables */
    modbus_slave_init(RTU, 9600, NONE, ID);
    for (unsigned i = 0; i < VARS; i++) { if (i >= LO && i < HI) { co[i] = co0[i] = in_bool(); hr[i] = hr0[i] = in_u16(); } else { co[i] = co0[i] = i % 2; hr[i] = hr0[i] = (uint16_t)(i * 4099u + 1u); } }
    for (unsigned i = 0; i < 7; i++) { pc[i] = i % 3 == 1; pr[i] = (uint16_t)(i * 7717u + 300u); }
    for (unsigned i = 0; i < ADR + QQ + 3; i++)
    {
        bool *c = OWNER(i) ? &co[OWNER(i) - 1] : &pc[i % 7]; uint16_t *r = OWNER(i) ? &hr[OWNER(i) - 1] : &pr[i % 7];
        if (FC == 1 || FC == 15) register_app_data_to_modbus_slave_coils_table((uint16_t)i, c);
        else if (FC == 2) register_app_data_to_modbus_slave_din_table((uint16_t)i, c);
        else if (FC == 4) register_app_data_to_modbus_slave_inreg_table((uint16_t)i, r);
        else register_app_data_to_modbus_slave_hreg_table((uint16_t)i, r);
    }
    rq[1] = FC; put16(rq + 2, ADR); put16(rq + 4, QQ); rn = 6;
    if (FC == 15 || FC == 16)
    {
        unsigned bc = FC == 15 ? (QQ + 7) / 8 : 2 * QQ;
        rq[6] = (uint8_t)bc; rn = 7 + bc;
        for (unsigned i = 0; i < bc; i++) rq[7 + i] = (uint8_t)(i * 37u + 3u);
        for (unsigned k = 0; k < VARS; k++) { int i = watched[k] - ADR; if (i >= 0 && i < QQ) { if (FC == 15) rq[7 + i / 8] = in_u8(); else { rq[7 + 2 * i] = in_u8(); rq[8 + 2 * i] = in_u8(); } } }
    }
    exchange(rn);
    CHECK(s_tx[0] == ID, "own address"); CHECK(s_tx[1] == FC, "function code");
#if FC <= 4
    {
        unsigned bytes = FC <= 2 ? (QQ + 7) / 8 : 2 * QQ;
        CHECK(s_tx[2] == bytes, "byte count");
        for (unsigned i = 0; i < bytes; i++)
        {
            uint8_t want = 0;
            if (FC <= 2) { for (unsigned k = 0; k < 8; k++) if (8 * i + k < QQ && c_at(ADR + 8 * i + k)) want |= (uint8_t)(1u << k); }
            else want = i % 2 ? (uint8_t)r_at(ADR + i / 2) : (uint8_t)(r_at(ADR + i / 2) >> 8);
            CHECK(s_tx[3 + i] == want, "the current value of every requested item, in order");
        }
        CHECK(s_txlen == 5 + bytes, "length of the response"); /* the CRC of long frames is decided by C01 */
        for (unsigned i = 0; i < VARS; i++) CHECK(co[i] == co0[i] && hr[i] == hr0[i], "no application data changed");
        COVER(FC <= 2 ? co[11] : s_tx[s_txlen - 3] == 0x5A, "some data");
    }
#else
    {
        for (unsigned i = 2; i < 6; i++) CHECK(s_tx[i] == rq[i], "echo of address and quantity");
        check_crc(6, 6);
        for (unsigned k = 0; k < VARS; k++)
        {
            int i = (int)watched[k] - ADR; bool in = i >= 0 && i < QQ;
            if (watched[k] < 0 || OWNER(watched[k]) != k + 1) continue;
            if (FC == 15) { CHECK(co[k] == (in ? (rq[7 + i / 8] >> (i % 8)) & 1 : co0[k]), "exactly the addressed coils have exactly the requested values"); CHECK(hr[k] == hr0[k], "no register changed"); }
            else { CHECK(hr[k] == (in ? be16(rq + 7 + 2 * i) : hr0[k]), "exactly the addressed registers have exactly the requested values"); CHECK(co[k] == co0[k], "no coil changed"); }
        }
        COVER(rq[rn - 1] == 0x5A, "some data");
    }
#endif
#elif MODE == 4
    setup(-1);
    uint8_t f = in_u8();
    ASSUME(f != 1 && f != 2 && f != 3 && f != 4 && f != 5 && f != 6 && f != 15 && f != 16);
    rn = in_range(2, LMAX); rq[1] = f;
    for (unsigned i = 2; i < LMAX; i++) { uint8_t v = in_u8(); if (i < rn) rq[i] = v; }
    exchange(LMAX);
    check_exception(f, 1);
    COVER(f == 0, "function 0"); COVER(f == 0x83 && rn == 2, "function 0x83, no data"); COVER(f == 0x17 && rn == LMAX, "function 23");
#else
    /* tables of 65535 items, nothing registered: the address check alone decides between exceptions 2 and 4 */
    modbus_slave_init(RTU, 9600, NONE, ID);
    uint16_t adr = in_u16(), q = in_u16();
    rq[1] = FC; put16(rq + 2, adr); put16(rq + 4, q); rn = 6;
    unsigned bc = 0;
    if (FC == 15 || FC == 16) { ASSUME(q <= (FC == 15 ? 9 : 1)); bc = FC == 15 ? (q + 7u) / 8 : 2u * q; rq[6] = (uint8_t)bc; rn = 7 + bc; rq[7] = rq[8] = 0; }
    unsigned v = verdict(FC, adr, q, bc, adr);
    ASSUME(v != 0);
    exchange(FC == 15 || FC == 16 ? 9 : 6);
    CHECK(s_tx[0] == ID, "own address"); CHECK(s_tx[1] == (FC | 0x80), "function code plus 0x80");
    CHECK(s_tx[2] == v, "the right exception code");
    check_crc(3, 3);
    COVER(v == 2 && adr == 0xFFFF, "wrapping range"); COVER(v == 4 && adr == 0xFFFE, "last address"); COVER(v == 4 && adr == 0, "first address");
#endif
}
