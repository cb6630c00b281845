/* Stub serial driver and application callbacks for the master. */
#ifndef ENV_MASTER_H
#define ENV_MASTER_H
#include "vp.h"
#include "modbus_master.h"
#include "modbus_driver_interface.h"
#include "modbus_master_data_interface.h"
/* ---- driver ---- */
static driver_subscr_cb_t m_cb_t15, m_cb_tx, m_cb_t35, m_cb_ferr;
static modbus_req_resp_t *m_rcv;
static modbus_buf_t *m_tx; static unsigned m_txlen; static unsigned m_sends;
static void m_on_send(void);      /* supplied by the harness */
static void m_init(baud_t b, parity_t p) { (void)b; (void)p; }
static void m_send(modbus_buf_t *m, modbus_buf_size_t l) { m_tx = m; m_txlen = l; m_sends++; m_on_send(); }
static void m_en(modbus_req_resp_t *r) { m_rcv = r; }
static void m_dis(void) {}
static void m_sub15(driver_subscr_cb_t c) { m_cb_t15 = c; }
static void m_subtx(driver_subscr_cb_t c) { m_cb_tx = c; }
static void m_sub35(driver_subscr_cb_t c) { m_cb_t35 = c; }
static void m_subfe(driver_subscr_cb_t c) { m_cb_ferr = c; }
static const modbus_RTU_driver_struct_t m_drv = {
    .init = m_init, .send = m_send, .enable_rcev = m_en, .disable_rcev = m_dis, .subscribe_t_1_5_char_expired_cb = m_sub15,
    .subscribe_msg_tx_done_cb = m_subtx, .subscribe_t_3_5_char_expired_cb = m_sub35, .subscribe_modbus_frame_error_cb = m_subfe};
#ifndef OWN_DRIVER
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &m_drv; }
#endif
static void m_rx(uint8_t b) { m_rcv->data[m_rcv->len] = b; m_rcv->len++; }

/* ---- application callbacks: counters, plus one watched address ---- */
enum { T_COIL, T_DISIN, T_HREG, T_INREG };
static unsigned n_read, n_write, n_exc, n_timeout, n_comm;
static unsigned w_hits, w_bad;          /* reads of the watched address / reads of a wrong kind or slave */
static uint16_t w_adr, w_val;           /* watched address, value reported for it */
static int exp_kind; static uint8_t exp_slave;
static int x_kind; static modbus_read_data_t x_exc;                    /* last exception */
static int wr_kind; static uint8_t wr_slave; static uint16_t wr_adr, wr_qty; /* last write confirmation */
static modbus_master_error_report_t x_err;                             /* last error report */
static unsigned m_outcomes(void) { return n_write + n_exc + n_timeout + n_comm; }
static void m_on_event(void);           /* supplied by the harness: after every callback */
static void rd(int kind, uint8_t s, uint16_t a, uint16_t v)
{
    n_read++;
    if (kind != exp_kind || s != exp_slave) w_bad++;
#ifdef RD_HOOK
    RD_HOOK(a, v);
#else
    if (a == w_adr) { w_hits++; w_val = v; }
#endif
    m_on_event();
}
static void wr(int kind, uint8_t s, uint16_t a, uint16_t q) { n_write++; wr_kind = kind; wr_slave = s; wr_adr = a; wr_qty = q; m_on_event(); }
static void ex(int kind, const modbus_read_data_t *d) { n_exc++; x_kind = kind; x_exc = *d; m_on_event(); }
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { rd(T_COIL, s, a, v); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { rd(T_DISIN, s, a, v); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { rd(T_HREG, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { rd(T_INREG, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { wr(T_COIL, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { wr(T_HREG, s, a, q); }
void modbus_master_coil_exception(const modbus_read_data_t *d) { ex(T_COIL, d); }
void modbus_master_disin_exception(const modbus_read_data_t *d) { ex(T_DISIN, d); }
void modbus_master_hreg_exception(const modbus_read_data_t *d) { ex(T_HREG, d); }
void modbus_master_inreg_exception(const modbus_read_data_t *d) { ex(T_INREG, d); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *r) { n_timeout++; x_err = *r; m_on_event(); }
void modbus_master_communication_error(const modbus_master_error_report_t *r) { n_comm++; x_err = *r; m_on_event(); }

/* which callback family belongs to a function code */
static int kind_of(uint8_t fc)
{
    switch (fc)
    {
    case 1: case 5: case 15: return T_COIL;
    case 2: return T_DISIN;
    case 3: case 6: case 16: return T_HREG;
    default: return T_INREG;
    }
}
#endif
