/* Stub drivers and application for the demonstrations: everything is recorded, nothing is interpreted. */
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_driver_interface.h"
#include "modbus_master_data_interface.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static uint16_t crc16(const uint8_t *d, unsigned n)
{
    uint16_t c = 0xFFFF;
    while (n--) { c ^= *d++; for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1; }
    return c;
}
static unsigned add_crc(uint8_t *f, unsigned n) { uint16_t c = crc16(f, n); f[n] = c & 255; f[n + 1] = c >> 8; return n + 2; }
typedef struct { driver_subscr_cb_t t15, t35, tx, fe; modbus_req_resp_t *rcv; uint8_t out[256]; unsigned outlen, sends; } drv_t;
static drv_t M, S; static bool sync_tx;
#define DRV(D, d) \
static void d##init(baud_t b, parity_t p) { (void)b; (void)p; } \
static void d##send(modbus_buf_t *m, modbus_buf_size_t l) { memcpy(D.out, m, l); D.outlen = l; D.sends++; if (sync_tx) D.tx(); } \
static void d##en(modbus_req_resp_t *r) { D.rcv = r; } \
static void d##dis(void) {} \
static void d##s15(driver_subscr_cb_t c) { D.t15 = c; } \
static void d##stx(driver_subscr_cb_t c) { D.tx = c; } \
static void d##s35(driver_subscr_cb_t c) { D.t35 = c; } \
static void d##sfe(driver_subscr_cb_t c) { D.fe = c; } \
static const modbus_RTU_driver_struct_t d##drv = {.init = d##init, .send = d##send, .enable_rcev = d##en, .disable_rcev = d##dis, .subscribe_t_1_5_char_expired_cb = d##s15, \
    .subscribe_msg_tx_done_cb = d##stx, .subscribe_t_3_5_char_expired_cb = d##s35, .subscribe_modbus_frame_error_cb = d##sfe};
DRV(M, m)
DRV(S, s)
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &mdrv; }
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &sdrv; }
static void rx(drv_t *d, const uint8_t *b, unsigned n) { for (unsigned i = 0; i < n; i++) d->rcv->data[d->rcv->len++] = b[i]; }
/* application */
static unsigned n_read, n_write, n_exc, n_tmo, n_comm; static int kind;
static uint8_t a_slave; static uint16_t a_adr, a_qty; static uint16_t val[4][65536];
static modbus_read_data_t x_exc; static modbus_master_error_report_t x_err;
static void rd(int k, uint8_t s, uint16_t a, uint16_t v) { n_read++; kind = k; a_slave = s; val[k][a] = v; }
static void wr(int k, uint8_t s, uint16_t a, uint16_t q) { n_write++; kind = k; a_slave = s; a_adr = a; a_qty = q; }
static void ex(int k, const modbus_read_data_t *d) { n_exc++; kind = k; x_exc = *d; }
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { rd(0, s, a, v); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { rd(1, s, a, v); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { rd(2, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { rd(3, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { wr(0, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { wr(2, s, a, q); }
void modbus_master_coil_exception(const modbus_read_data_t *d) { ex(0, d); }
void modbus_master_disin_exception(const modbus_read_data_t *d) { ex(1, d); }
void modbus_master_hreg_exception(const modbus_read_data_t *d) { ex(2, d); }
void modbus_master_inreg_exception(const modbus_read_data_t *d) { ex(3, d); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *r) { n_tmo++; x_err = *r; }
void modbus_master_communication_error(const modbus_master_error_report_t *r) { n_comm++; x_err = *r; }
static unsigned outcomes(void) { return n_write + n_exc + n_tmo + n_comm; }
/* one frame on an otherwise idle line; the polls a user makes in the silences */
static void mpoll(void) { update_modbus_master_manager(); }
static void spoll(void) { check_modbus_request(); }
static void m_frame(const uint8_t *f, unsigned n) { rx(&M, f, n); M.t15(); mpoll(); M.t35(); mpoll(); }
static void m_answer(uint8_t *f, unsigned n) { n = add_crc(f, n); m_frame(f, n); }
static void m_transmit(void) { unsigned s = M.sends; mpoll(); CHECK(M.sends == s + 1); M.tx(); mpoll(); }
static void m_silence(void) { for (int i = 0; i < 1000; i++) { update_modbus_master_timout_timer(); mpoll(); } }
static void s_frame(const uint8_t *f, unsigned n) { rx(&S, f, n); S.t15(); spoll(); S.t35(); spoll(); spoll(); }
static void s_request(uint8_t *f, unsigned n) { n = add_crc(f, n); s_frame(f, n); }
static void s_done(void) { S.tx(); spoll(); }
static bool out_ok(drv_t *d) { return d->outlen > 3 && crc16(d->out, d->outlen) == 0; }
static bool co[200], di[200]; static uint16_t hr[200], ir[200];
static void s_start(uint8_t id)
{
    modbus_slave_init(RTU, 9600, NONE, id);
    for (int i = 0; i < 100; i++)
    {
        register_app_data_to_modbus_slave_coils_table(i, &co[i]); register_app_data_to_modbus_slave_din_table(i, &di[i]);
        register_app_data_to_modbus_slave_hreg_table(i, &hr[i]); register_app_data_to_modbus_slave_inreg_table(i, &ir[i]);
    }
}
int main(void)
{
    alarm(20);
    void demo(void); demo();
    puts("ok");
    return 0;
}
