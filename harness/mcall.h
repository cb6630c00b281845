/* The eight request functions of the master behind one call. */
#ifndef MCALL_H
#define MCALL_H
static modbus_master_req_ret_t request(uint8_t fc, uint16_t adr, uint16_t q, uint8_t id, bool coil, uint16_t reg, bool *coils, uint16_t *regs)
{
    switch (fc)
    {
    case F_RC: return modbus_master_read_coils(adr, q, id);
    case F_RD: return modbus_master_read_discrete_inputs(adr, q, id);
    case F_RH: return modbus_master_read_holding_reg(adr, q, id);
    case F_RI: return modbus_master_read_input_reg(adr, q, id);
    case F_WC: return modbus_master_write_single_coil(adr, id, coil);
    case F_WR: return modbus_master_write_single_reg(adr, id, reg);
    case F_WMC: return modbus_master_write_multiple_coils(adr, q, id, coils);
    default: return modbus_master_write_multiple_reg(adr, q, id, regs);
    }
}
static unsigned max_qty(uint8_t fc) { return fc == F_RC || fc == F_RD ? 2000 : fc == F_RH || fc == F_RI ? 125 : fc == F_WMC ? 1968 : fc == F_WMR ? 123 : 65535; }
#endif
