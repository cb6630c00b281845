/* Stub serial driver for the slave: what the documented driver interface promises, nothing more. */
#ifndef ENV_SLAVE_H
#define ENV_SLAVE_H
#include "vp.h"
#include "modbus_slave.h"
#include "modbus_driver_interface.h"
static driver_subscr_cb_t s_cb_t15, s_cb_tx, s_cb_t35, s_cb_ferr;
static modbus_req_resp_t *s_rcv;
static modbus_buf_t *s_tx; static unsigned s_txlen; static unsigned s_sends;
static void s_on_send(void);
static void s_init(baud_t b, parity_t p) { (void)b; (void)p; }
static void s_send(modbus_buf_t *m, modbus_buf_size_t l) { s_tx = m; s_txlen = l; s_sends++; s_on_send(); }
static void s_en(modbus_req_resp_t *r) { s_rcv = r; }
static void s_dis(void) {}
static void s_sub15(driver_subscr_cb_t c) { s_cb_t15 = c; }
static void s_subtx(driver_subscr_cb_t c) { s_cb_tx = c; }
static void s_sub35(driver_subscr_cb_t c) { s_cb_t35 = c; }
static void s_subfe(driver_subscr_cb_t c) { s_cb_ferr = c; }
static const modbus_RTU_driver_struct_t s_drv = {
    .init = s_init, .send = s_send, .enable_rcev = s_en, .disable_rcev = s_dis, .subscribe_t_1_5_char_expired_cb = s_sub15,
    .subscribe_msg_tx_done_cb = s_subtx, .subscribe_t_3_5_char_expired_cb = s_sub35, .subscribe_modbus_frame_error_cb = s_subfe};
#ifndef OWN_DRIVER
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &s_drv; }
#endif
static void s_rx(uint8_t b) { s_rcv->data[s_rcv->len] = b; s_rcv->len++; }
#endif
