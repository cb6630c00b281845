/* C18, C19: the slave under arbitrary schedules of line events and polls.
 * A schedule is R rounds of: [4 or 8 arbitrary bytes] [frame error] [poll] [1.5 characters of silence] [poll]
 * [3.5 characters of silence] [poll] [poll] [transmission done] [poll], every part optional (solver variables).
 * Assumptions on the environment (ASSUME below): timers fire as on a real line (1.5 after a character, 3.5 after 1.5 without
 * a character in between); the manager is polled twice in the silence between two frames; a frame does not begin while
 * the slave transmits and end after that. A frame error is a (possibly lost) character. */
#include "env_slave.h"
#include "ref.h"
#define ID 0x21
#include "modbus_type.h"
static bool co[MAIN_APP_COILS_QTY], di[MAIN_APP_DISCRET_INPUTS_QTY]; static uint16_t hr[MAIN_APP_HOLDING_REG_QTY], ir[MAIN_APP_INPUT_REG_QTY];
/* ghost view of the line */
static unsigned g_len, g_first, g_quiet = 2, g_polls = 2; static uint16_t g_res;
static bool g_bad, g_during, g_answered, g_any, busy, txdone, settled;
static unsigned n_ok, n_bad;
static bool intact(void) { return g_any && g_quiet == 2 && g_len >= 4 && g_first == ID && g_res == 0 && !g_bad; }
static void s_on_send(void)
{
#if PROP == 18
    CHECK(intact(), "only an intact frame for this slave is answered, after 3.5 characters of silence");
    CHECK(!g_answered, "a frame is answered once");
    CHECK(!busy, "no transmission is started during a transmission");
#endif
    g_answered = true; busy = true; txdone = false; n_ok++;
}
static void frame_over(void)      /* a new frame begins, or the schedule ends */
{
#if PROP == 18
    if (intact() && !g_during) CHECK(g_answered, "an intact frame for this slave is answered");
#endif
    if (g_any && !intact()) n_bad++;
}
static void character(bool stored, uint8_t b, bool error)
{
    if (g_quiet == 2)
    {
        if (!busy) ASSUME(g_polls >= 2);
        frame_over();
        g_len = 0; g_res = 0xFFFF; g_bad = false; g_during = false; g_answered = false; g_any = true;
    }
    else if (g_quiet == 1) g_bad = true;                         /* continued after 1.5 characters of silence */
    if (g_during && !busy) ASSUME(0);
    if (busy) g_during = true;
    if (error) g_bad = true;
    if (stored)
    {
        if (g_len == 0) g_first = b;
        g_res = ref_crc_step(g_res, b); g_len++;
        s_rx(b);
    }
    if (error) s_cb_ferr();
    g_quiet = 0; g_polls = 0;
}
static void poll(void)
{
    unsigned before = s_sends; bool c0 = co[0]; uint16_t h0 = hr[0], h1 = hr[1];
    check_modbus_request();
    if (s_sends == before) CHECK(co[0] == c0 && hr[0] == h0 && hr[1] == h1, "nothing is executed without being answered");
    CHECK(s_sends <= before + 1, "at most one response per poll");
    if (s_sends == before && busy && txdone) { busy = false; }
    if (g_polls < 2) g_polls++;
}
static void maybe_poll(void) { if (in_bool()) poll(); }
static void t15(void) { if (g_quiet == 0) { s_cb_t15(); g_quiet = 1; g_polls = 0; } }
static void t35(void) { if (g_quiet == 1) { s_cb_t35(); g_quiet = 2; g_polls = 0; } }
static void tx_done(void) { if (busy && !txdone) { s_cb_tx(); txdone = true; } }

void harness(void)
{
    modbus_slave_init(RTU, 9600, NONE, ID);
    register_app_data_to_modbus_slave_coils_table(0, &co[0]); register_app_data_to_modbus_slave_din_table(0, &di[0]);
    register_app_data_to_modbus_slave_inreg_table(0, &ir[0]);
    for (unsigned i = 0; i < 2; i++) { hr[i] = in_u16(); register_app_data_to_modbus_slave_hreg_table((uint16_t)i, &hr[i]); }
    co[0] = in_bool();
    for (unsigned r = 0; r < R; r++)
    {
        unsigned n = in_range(0, 2);
        for (unsigned i = 0; i < 8; i++) { uint8_t b = in_u8(); if (i == 1 || i == 5) b &= FCMASK; if (i < 4 * n) character(true, b, false); }
        if (in_bool()) character(in_bool(), in_u8(), true);
        maybe_poll();
        if (in_bool()) t15();
        maybe_poll();
        if (in_bool()) t35();
        maybe_poll(); maybe_poll();
        if (in_bool()) tx_done();
        maybe_poll();
    }
#if PROP == 18
    if (g_quiet == 2 && g_polls >= 2) frame_over();
    COVER(n_ok == R, "every frame answered"); COVER(n_ok == 1 && n_bad == R - 1, "one answered, the others broken");
#else
    /* 3.5 characters of silence, polled, transmission complete */
    COVER(g_bad && g_quiet == 0, "within a broken frame"); 
#if R > 1
    COVER(busy && g_during && g_quiet == 1, "received while transmitting"); COVER(n_ok && n_bad, "answered and broken frames");
#endif
    t15(); maybe_poll(); t35(); poll(); poll();
    tx_done(); poll();
    CHECK(!busy, "idle");
    /* the next request: read or write of a holding register */
    uint8_t q[8]; uint16_t v = in_u16(), h[2] = {hr[0], hr[1]}; bool wr = in_bool(); uint8_t a = in_bool(); unsigned before = s_sends;
    q[0] = ID; q[1] = wr ? 6 : 3; q[2] = 0; q[3] = a; put16(q + 4, wr ? v : 1); put_crc(q, 6);
    for (unsigned i = 0; i < 8; i++) character(true, q[i], false);
    maybe_poll(); t15(); maybe_poll(); t35(); poll(); poll();
    CHECK(s_sends == before + 1, "the next valid request is answered exactly once");
    if (wr)
    {
        CHECK(hr[a] == v && hr[1 - a] == h[1 - a], "the next valid request is executed");
        CHECK(s_txlen == 8, "echo"); for (unsigned i = 0; i < 8; i++) CHECK(s_tx[i] == q[i], "echo");
    }
    else
    {
        CHECK(hr[0] == h[0] && hr[1] == h[1], "reading changes nothing");
        CHECK(s_txlen == 7 && s_tx[0] == ID && s_tx[1] == 3 && s_tx[2] == 2 && be16(s_tx + 3) == h[a], "the right response");
        uint16_t c = ref_crc(s_tx, 5); CHECK(s_tx[5] == (uint8_t)c && s_tx[6] == c >> 8, "CRC of the response");
    }
    tx_done(); poll(); poll();
    CHECK(s_sends == before + 1, "the next valid request is answered exactly once");
#endif
}
