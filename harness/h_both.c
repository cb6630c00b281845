/* C22: a master and a slave in one program, on separate lines. The master talks to a slave on its line, the slave to a master on
 * the other line; the frames of those two partners are arbitrary within MKIND / SKIND. The order of the steps is chosen by the
 * solver; the rest of the execution is inside each choice, so that the library's state stays concrete.
 * Quantity 3 for reads and multiple writes, at any address for the master, at address 1 for the slave. */
#include "vp.h"
#include "ref.h"
#include "env_master.h"
#include "env_slave.h"
#include "mcall.h"
#include "modbus_type.h"
#define MID 0x21
#define SID 0x42
#define N 5
#ifndef OFF
#define OFF 1
#endif
#define MSTEPS (5 + MI)
#define SSTEPS (5 + SI)
#define MI (INIT & 1)
#define SI (INIT >> 1)          /* initialisation is one of the steps */
#define QTY(f) ((f) == 5 || (f) == 6 ? 1 : 3)
static void m_on_event(void) {}
static void m_on_send(void) {}
static void s_on_send(void) {}
static void mpoll(void) { update_modbus_master_manager(); }
static void spoll(void) { check_modbus_request(); }
static bool co[N], co0[N], di[N], di0[N]; static uint16_t hr[N], hr0[N], ir[N], ir0[N];
/* the master's side */
static uint16_t adr, val, rv[3]; static bool one, cv[3];
static uint8_t want[20], resp[20]; static unsigned wn, rn; static unsigned off;
/* the slave's side */
static uint8_t rq[20], ans[20]; static unsigned qn, an;
static void prepare(void)
{
    adr = in_u16(); val = in_u16(); one = in_bool(); off = OFF; for (int i = 0; i < 3; i++) { cv[i] = in_bool(); rv[i] = in_u16(); }
    want[0] = MID; want[1] = MF; put16(want + 2, adr); put16(want + 4, MF == 5 ? (one ? 0xFF00 : 0) : MF == 6 ? val : 3); wn = 6;
    if (MF == 15) { want[6] = 1; want[7] = (uint8_t)(cv[0] | cv[1] << 1 | cv[2] << 2); wn = 8; }
    if (MF == 16) { want[6] = 6; for (int i = 0; i < 3; i++) put16(want + 7 + 2 * i, rv[i]); wn = 13; }
    put_crc(want, wn); wn += 2;
    for (int i = 2; i < 13; i++) resp[i] = in_u8();
    resp[0] = MID; resp[1] = MKIND == 3 ? MF | 0x80 : MF; rn = MKIND == 3 ? 3 : MF <= 2 ? 4 : MF <= 4 ? 9 : 6;
    if (MKIND != 3) { if (MF <= 4) resp[2] = MF <= 2 ? 1 : 6; else for (int i = 2; i < 6; i++) resp[i] = want[i]; }
    put_crc(resp, rn); rn += 2; if (MKIND == 1) resp[rn - 1] ^= IN_RANGE8(1, 255);
    for (int i = 0; i < N; i++) { co[i] = co0[i] = in_bool(); di[i] = di0[i] = in_bool(); hr[i] = hr0[i] = in_u16(); ir[i] = ir0[i] = in_u16(); }
    for (int i = 2; i < 13; i++) rq[i] = in_u8();
    rq[0] = SKIND == 3 ? SID + 1 : SID; rq[1] = SF; put16(rq + 2, SKIND == 4 ? 3 : 1); qn = 6;
    bool sone = in_bool();
    if (SF == 5) put16(rq + 4, sone ? 0xFF00 : 0); else if (SF != 6) put16(rq + 4, 3);
    if (SF == 15) { rq[6] = 1; qn = 8; }
    if (SF == 16) { rq[6] = 6; qn = 13; }
    ans[0] = SID;
    if (SKIND == 4) { ans[1] = SF | 0x80; ans[2] = 2; an = 3; }
    else
    {
        for (int i = 1; i < 6; i++) ans[i] = rq[i];
        an = 6;
        if (SF <= 2) { ans[2] = 1; ans[3] = 0; for (int i = 0; i < 3; i++) ans[3] |= (uint8_t)((SF == 1 ? co0 : di0)[1 + i] << i); an = 4; }
        else if (SF <= 4) { ans[2] = 6; for (int i = 0; i < 3; i++) put16(ans + 3 + 2 * i, (SF == 3 ? hr0 : ir0)[1 + i]); an = 9; }
    }
    put_crc(rq, qn); qn += 2; if (SKIND == 1) rq[qn - 1] ^= IN_RANGE8(1, 255);
    put_crc(ans, an); an += 2;
    exp_kind = kind_of(MF); exp_slave = MID; w_adr = adr + off;
}
static void data(bool written)
{
    for (int i = 0; i < N; i++)
    {
        bool c = co0[i]; uint16_t h = hr0[i];
        if (written && SKIND == 0)
        {
            if (SF == 5 && i == 1) c = rq[4] != 0;
            if (SF == 6 && i == 1) h = be16(rq + 4);
            if (SF == 15 && i >= 1 && i < 4) c = rq[7] >> (i - 1) & 1;
            if (SF == 16 && i >= 1 && i < 4) h = be16(rq + 7 + 2 * (i - 1));
        }
        CHECK(co[i] == c && hr[i] == h && di[i] == di0[i] && ir[i] == ir0[i], "the slave's data are what its own requests made them");
    }
}
static void m_init_(void) { modbus_master_init(RTU, 9600, NONE); }
static void s_init_(void)
{
    modbus_slave_init(RTU, 9600, NONE, SID);
    for (int i = 0; i < N; i++)
    {
        register_app_data_to_modbus_slave_coils_table((uint16_t)i, &co[i]); register_app_data_to_modbus_slave_din_table((uint16_t)i, &di[i]);
        register_app_data_to_modbus_slave_hreg_table((uint16_t)i, &hr[i]); register_app_data_to_modbus_slave_inreg_table((uint16_t)i, &ir[i]);
    }
}
static void m_sent(unsigned times)
{
    CHECK(m_sends == times && m_txlen == wn, "the master transmits its request");
    for (unsigned i = 0; i < wn; i++) CHECK(m_tx[i] == want[i], "the master transmits its request");
}
static void m_step(unsigned k)
{
    unsigned ss = s_sends;
    switch (k - MI)
    {
    case 0: CHECK(request(MF, adr, QTY(MF), MID, one, val, cv, rv) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "accepted"); mpoll(); m_sent(1); break;
    case 1: m_cb_tx(); mpoll(); break;
    case 2: if (MKIND == 4) update_modbus_master_timout_timer(); else { for (unsigned i = 0; i < rn; i++) m_rx(resp[i]); if (MKIND == 2) m_cb_ferr(); } break;
    case 3: if (MKIND == 4) update_modbus_master_timout_timer(); else { ok_buf = m_rcv->data; ok_len = rn; ok_crc = MKIND == 1 ? 0x100 : 0; m_cb_t15(); } mpoll(); ok_len = 0; break;
    case 4: if (MKIND != 4) m_cb_t35(); mpoll();
        CHECK(m_sends == 1 && n_comm == 0 && w_bad == 0, "nothing else happens");
        CHECK(n_read == (MKIND == 0 && MF <= 4 ? 3 : 0) && n_write == (MKIND == 0 && MF > 4) && n_exc == (MKIND == 3) && n_timeout == (MKIND == 4), "the master reports what was received in answer to its request");
        if (MKIND == 0 && MF <= 4) { uint16_t v = MF <= 2 ? resp[3] >> off & 1 : be16(resp + 3 + 2 * off); CHECK(w_hits == 1 && w_val == v, "with its values"); }
        if (MKIND == 0 && MF > 4) CHECK(wr_kind == kind_of(MF) && wr_slave == MID && wr_adr == adr && wr_qty == QTY(MF), "the confirmation names the request");
        if (MKIND == 3) CHECK(x_kind == kind_of(MF) && x_exc.exception_code == resp[2] && x_exc.data_adr == adr && x_exc.slave_ID == MID, "the exception names the request");
        if (MKIND == 4) CHECK(x_err.data_adr == adr && x_err.slave_ID == MID && x_err.fun_conde == MF, "the report names the request");
        mpoll();
        if (MKIND == 1 || MKIND == 2) m_sent(2); else CHECK(m_sends == 1, "the request has ended");
        break;
    default: m_init_(); break;
    }
    CHECK(s_sends == ss, "the slave does nothing when only the master runs");
}
static void s_step(unsigned k)
{
    unsigned ms = m_sends, me = n_read + m_outcomes();
    switch (k - SI)
    {
    case 0: for (unsigned i = 0; i < 4; i++) s_rx(rq[i]); break;
    case 1: for (unsigned i = 4; i < qn; i++) s_rx(rq[i]); if (SKIND == 2) s_cb_ferr(); break;
    case 2: ok_buf = s_rcv->data; ok_len = qn; ok_crc = SKIND == 1 ? 0x100 : 0; s_cb_t15(); spoll(); ok_len = 0; CHECK(s_sends == 0, "not before 3.5 characters of silence"); data(false); break;
    case 3: s_cb_t35(); spoll();
        CHECK(s_sends == (SKIND == 0 || SKIND == 4), "the slave answers its own requests only");
        if (SKIND == 0 || SKIND == 4) { CHECK(s_txlen == an, "with the right response"); for (unsigned i = 0; i < an; i++) CHECK(s_tx[i] == ans[i], "with the right response"); }
        data(true);
        break;
    case 4: if (SKIND == 0 || SKIND == 4) { for (unsigned i = 0; i < an; i++) CHECK(s_tx[i] == ans[i], "the response is not disturbed while it is transmitted"); s_cb_tx(); } spoll(); spoll(); CHECK(s_sends == (SKIND == 0 || SKIND == 4), "once"); break;
    default: s_init_(); break;
    }
    CHECK(m_sends == ms && n_read + m_outcomes() == me, "the master does nothing when only the slave runs");
}
static void steps(unsigned m, unsigned s)
{
    if (m == MSTEPS && s == SSTEPS) { data(true); COVER(adr == 0xFFFF, "both transactions complete"); return; }
    if (m < MSTEPS && (s == SSTEPS || in_bool())) { m_step(m); steps(m + 1, s); }
    else { s_step(s); steps(m, s + 1); }
}
void harness(void)
{
    prepare();
    if (!MI) m_init_();
    if (!SI) s_init_();
    steps(0, 0);
}
