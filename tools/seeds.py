MP = "src/master_internall/modbus_master_PDU.c"; MM = "src/modbus_master.c"; MQ = "src/master_internall/modbus_queue.c"
SP = "src/slave_internall/modbus_slave_PDU.c"; SD = "src/slave_internall/modbus_slave_data.c"; SS = "src/modbus_slave.c"
CR = "src/common/modbus_RTU.c"; CC = "src/common/modbus_crc.c"; CP = "src/common/modbus_PDU_common.c"; CB = "src/common/buf_rw.c"
SEEDS = []
def S(id, prop, edits, needs, breaks, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("crc-table-entry", "C01", [(CC, "0x9C01, 0x5CC0", "0x9C01, 0x5CC1")], "a frame whose CRC computation passes through one particular table entry",
  "one wrong entry of the CRC table: some frames are sent with a wrong CRC", r"""
    uint8_t fr[12]; modbus_master_init(RTU, 9600, NONE);
    for (unsigned v = 0; v < 600; v++)
    {
        CHECK(modbus_master_write_single_reg(v * 7, 1 + v % 247, v * 31) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
        mpoll(); CHECK(M.outlen == 8 && crc16(M.out, 8) == 0);
        memcpy(fr, M.out, 8); M.tx(); mpoll(); m_frame(fr, 8); CHECK(outcomes() == v + 1);
    }""")
S("crc-low-byte", "C02", [(CR, "else if (0 != calculate_CRC(buf, msg_len))", "else if (0 != (calculate_CRC(buf, msg_len) & 0x00FF))")],
  "a corrupted frame whose CRC residue has a zero low byte, e.g. one with only the last byte corrupted", "a frame with a wrong CRC is accepted", r"""
    s_start(7); hr[5] = 1;
    for (unsigned x = 1; x < 256; x++)
    {
        uint8_t f[8] = {7, 6, 0, 5, 0x12, 0x34}; add_crc(f, 6); f[7] ^= x;
        s_frame(f, 8); CHECK(S.sends == 0 && hr[5] == 1);
        f[7] ^= x; f[6] ^= x; s_frame(f, 8); CHECK(S.sends == 0 && hr[5] == 1);
    }""")
S("coil-stale-bits", "C03", [(MP, "clear_coil_din_status_byte(&msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX], byte_count);",
  "clear_coil_din_status_byte(&msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX], req_param->obj_qty / 8);")],
  "a multiple coil write with a quantity that is not a multiple of 8 in a buffer used before", "padding and coil bits of an earlier request stay in the last data byte", r"""
    bool c[24]; uint8_t r[12]; modbus_master_init(RTU, 9600, NONE);
    for (int k = 0; k < 12; k++)
    {
        for (int i = 0; i < 24; i++) c[i] = k < 6;
        unsigned q = k < 6 ? 24 : 11;
        CHECK(modbus_master_write_multiple_coils(3, q, 9, c) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
        m_transmit(); CHECK(M.outlen == 9 + (q + 7) / 8 && out_ok(&M));
        for (unsigned i = 0; i < (q + 7) / 8; i++) CHECK(M.out[7 + i] == (k < 6 ? 255 : 0));
        memcpy(r, M.out, 6); m_answer(r, 6); CHECK(n_write == k + 1);
    }""")
S("reg-count-limit", "C04", [(CR, "(MODBUS_PDU_MAX_LEN >= *msg_len)", "(MODBUS_PDU_MAX_LEN > *msg_len)")], "a request of the maximum length (123 registers written)",
  "the longest valid request is rejected", r"""
    static uint16_t r[123]; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_write_multiple_reg(3, 122, 9, r) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
    CHECK(modbus_master_write_multiple_reg(3, 123, 9, r) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
    CHECK(modbus_master_write_multiple_reg(3, 124, 9, r) != MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);""")
S("din-read-limit", "C04", [(MP, "else if (MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE == req_code)", "else if (MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE == req_code)")],
  "a holding register read of more than 125 or a discrete input read of more than 125", "the limits of two functions are swapped", r"""
    modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_read_holding_reg(0, 126, 1) != MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
    CHECK(modbus_master_read_discrete_inputs(0, 2000, 1) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);""")
S("slave-coil-stale-bits", "C05", [(SP, "clear_coil_din_status_byte(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX], byte_cnt);\n    for (modbus_data_qty_t i = 0; i < din_qty; i++)",
  "clear_coil_din_status_byte(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX], din_qty / 8);\n    for (modbus_data_qty_t i = 0; i < din_qty; i++)")],
  "a discrete input read with a quantity that is not a multiple of 8 after another response", "bits of an earlier response stay in the last byte", r"""
    uint8_t q[12] = {7, 2, 0, 3, 0, 24}; s_start(7);
    for (int i = 0; i < 100; i++) di[i] = true;
    s_request(q, 6); CHECK(S.sends == 1 && S.outlen == 8 && S.out[5] == 255); s_done();
    for (int i = 0; i < 100; i++) di[i] = i == 5;
    q[5] = 13; s_request(q, 6); CHECK(S.sends == 2 && S.outlen == 7 && S.out[3] == 4 && S.out[4] == 0);""")
S("din-bit-byte-index", "C05", [(SP, "modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i / 8)] |= (read_coil_val << (i % 8));",
  "modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + ((i >> 3) & 7)] |= (read_coil_val << (i % 8));")],
  "a coil read of more than 64 coils", "coils from the 65th on are packed into the wrong bytes", r"""
    uint8_t q[12] = {7, 1, 0, 0, 0, 80}; s_start(7); co[70] = true;
    s_request(q, 6); CHECK(S.sends == 1 && S.outlen == 15 && S.out[3] == 0 && S.out[3 + 8] == 0x40);""")
S("coil-write-byte-index", "C06", [(SP, "if (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8))))", "if (0 != (*(data_state_ptr + ((i / 8) & 0x07)) & (1 << (i % 8))))")],
  "a write of more than 64 coils", "coils from the 65th on get the values of the first ones", r"""
    uint8_t q[32] = {7, 15, 0, 10, 0, 72, 9}; s_start(7); q[7 + 8] = 0x81;
    s_request(q, 16); CHECK(S.sends == 1 && S.out[1] == 15);
    for (int i = 0; i < 100; i++) CHECK(co[i] == (i == 74 || i == 81));""")
S("address-wraps", "C07", [(SP, "else if (((adr + data_qty) > app_data_qty))", "else if (((modbus_adr_t)(adr + data_qty) > app_data_qty))")],
  "a request whose address range ends beyond 65535", "the range check wraps around: items outside the tables are read", r"""
    uint8_t q[12] = {7, 3, 0xFF, 0xFE, 0, 4}; s_start(7);
    s_request(q, 6); CHECK(S.sends == 1 && S.outlen == 5 && S.out[1] == 0x83 && S.out[2] == 2);""")
S("exception-priority", "C07", [(SP, "if ((coil_state != COIL_OFF) && (coil_state != COIL_ON))\n    {\n        set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_VALUE_ERROR);\n        return RET_ERROR;\n    }\n    else if (coil_adr >= MAIN_APP_COILS_QTY)\n    {\n        set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_ADDRESS_ERROR);",
  "if (coil_adr >= MAIN_APP_COILS_QTY)\n    {\n        set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_ADDRESS_ERROR);\n        return RET_ERROR;\n    }\n    else if ((coil_state != COIL_OFF) && (coil_state != COIL_ON))\n    {\n        set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_VALUE_ERROR);")],
  "a single coil write with both an illegal value and an illegal address", "the wrong exception code is returned", r"""
    uint8_t q[12] = {7, 5, 0, 200, 0x12, 0x34}; s_start(7);
    s_request(q, 6); CHECK(S.sends == 1 && S.outlen == 5 && S.out[1] == 0x85 && S.out[2] == 3);""")
S("crc-empty-frame", "C08", [(CC, "while (data_buf_len--)\n", "do\n"), (CC, "        CRC ^= CRC_loock_up_table[idx];\n    }\n", "        CRC ^= CRC_loock_up_table[idx];\n    } while (--data_buf_len);\n")],
  "a 1.5 character timeout without a received byte while the buffer still starts with the slave's address", "the CRC of an empty frame runs through all memory", r"""
    uint8_t q[12] = {7, 3, 0, 1, 0, 1}; s_start(7);
    s_request(q, 6); CHECK(S.sends == 1); s_done();
    S.t15(); spoll(); S.t35(); spoll(); spoll(); CHECK(S.sends == 1);""")
S("master-coil-index", "C09", [(MP, "if (0 != ((resp->data[MODBUS_RESP_READ_DATA_IDX + (i / 8)]) & (1 << (i % 8))))\n        {\n            modbus_master_coil_read",
  "if (0 != ((resp->data[MODBUS_RESP_READ_DATA_IDX + (modbus_byte_count_t)i / 8]) & (1 << (i % 8))))\n        {\n            modbus_master_coil_read")],
  "a response with more than 256 coils", "coils from the 257th on get the values of the first ones", r"""
    static uint8_t r[60]; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_read_coils(1000, 300, 9) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    r[0] = 9; r[1] = 1; r[2] = 38; r[3 + 33] = 0x02; m_answer(r, 41);
    CHECK(n_read == 300); for (int i = 0; i < 300; i++) CHECK(val[0][1000 + i] == (i == 33 * 8 + 1));""")
S("fc16-exception-kind", "C11", [(MP, "case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:\n    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:\n        modbus_master_coil_exception(ex_code_data);",
  "case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:\n        modbus_master_coil_exception(ex_code_data);"), (MP, "case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:\n    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:\n    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:\n        modbus_master_hreg_exception",
  "case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:\n    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:\n    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:\n    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:\n        modbus_master_hreg_exception")],
  "an exception response to a multiple coil write", "the exception is reported for the wrong kind of data", r"""
    uint8_t r[8] = {9, 0x8F, 2}; bool c[3] = {0}; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_write_multiple_coils(5, 3, 9, c) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    m_answer(r, 3); CHECK(n_exc == 1 && kind == 0 && x_exc.exception_code == 2);""")
S("exception-mask", "C11", [(MP, "(modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));", "(modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & 0x07);")],
  "an exception response to function 15 or 16", "the exception of a multiple write is lost or reported for another function", r"""
    uint8_t r[8] = {9, 0x90, 2}; uint16_t g[3] = {0}; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_write_multiple_reg(5, 3, 9, g) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    m_answer(r, 3); CHECK(n_exc == 1 && kind == 2 && x_exc.exception_code == 2 && x_exc.fun_conde == 16);""")
S("queue-wrap-when-full", "C13", [(MQ, "            q->items_in_queue--;\n            q->tail = (q->tail + 1) % MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS;\n", "            q->items_in_queue--;\n            q->tail = (q->tail == MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS - 1) ? 1 : (q->tail + 1);\n")],
  "the queue is full when its oldest message is in the last slot, and a message is removed", "a message is skipped and another one lost", r"""
    uint8_t r[12]; unsigned sent = 0, ended = 0; modbus_master_init(RTU, 9600, NONE);
    for (unsigned i = 0; i < 4; i++) { CHECK(modbus_master_write_single_reg(sent, 9, sent) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); sent++; }
    for (unsigned i = 0; i < 4; i++) { m_transmit(); CHECK(M.out[3] == ended); memcpy(r, M.out, 6); m_answer(r, 6); ended++; CHECK(outcomes() == ended); }
    for (unsigned k = 0; k < 5; k++)
    {
        for (unsigned i = 0; i < 5; i++) { CHECK(modbus_master_write_single_reg(sent, 9, sent) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); sent++; }
        for (unsigned i = 0; i < 5; i++) { m_transmit(); CHECK(M.out[3] == ended); memcpy(r, M.out, 6); m_answer(r, 6); ended++; CHECK(outcomes() == ended); }
    }""")
S("full-queue-not-sent", "C14", [(MM, "return ((q->head != q->tail) || (q->items_in_queue > 0));", "return (q->head != q->tail);")],
  "the maximum number of requests outstanding while nothing is being sent", "a full queue is taken for an empty one: nothing is sent any more", r"""
    modbus_master_init(RTU, 9600, NONE);
    for (unsigned i = 0; i < 5; i++) CHECK(modbus_master_write_single_reg(i, 9, i) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
    for (unsigned i = 0; i < 5; i++) { m_transmit(); CHECK(M.out[3] == i); m_silence(); mpoll(); CHECK(n_tmo == i + 1); }""")
S("repeat-without-timeout", "C15", [(MM, "        modbus_master_enable_resp_timeout_timer();\n        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;", "        if (0 == modbus_master_msg_repeat_couter)\n            modbus_master_enable_resp_timeout_timer();\n        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;")],
  "no answer to a request that was repeated after a corrupt answer", "the repeated request is reported as timed out at once", r"""
    uint8_t r[12] = {9, 6, 0, 1, 0, 2, 0, 0}; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_write_single_reg(1, 9, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    m_frame(r, 8); m_transmit(); mpoll(); mpoll(); CHECK(outcomes() == 0);
    for (int i = 0; i < 990; i++) update_modbus_master_timout_timer();
    mpoll(); CHECK(outcomes() == 0); for (int i = 0; i < 10; i++) update_modbus_master_timout_timer();
    mpoll(); CHECK(n_tmo == 1);""")
S("repeat-count-kept", "C16", [(MM, "        modbus_master_resp_timeout_handle();\n        modbus_master_msg_process_end();", "        modbus_master_resp_timeout_handle();\n        modbus_queue_push(free_q, &msg_buf);\n        modbus_master_manager_state_machine = MODBUS_MASTER_IDLE;")],
  "a request that fails by corrupt answers and then times out, followed by a request with corrupt answers", "the next request has fewer repetitions", r"""
    uint8_t r[12] = {9, 6, 0, 1, 0, 2, 0, 0}; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_write_single_reg(1, 9, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    m_frame(r, 8); m_transmit(); m_frame(r, 8); m_transmit(); m_silence(); CHECK(n_tmo == 1);
    CHECK(modbus_master_write_single_reg(1, 9, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
    for (int i = 0; i < 3; i++) { m_transmit(); m_frame(r, 8); CHECK(n_comm == 0); }
    m_transmit(); m_answer(r, 6); CHECK(n_write == 1 && n_comm == 0);""")
S("foreign-frame-kept", "C16", [(MM, "    else if (RET_ERROR_SLAVE_ID == RTU_status)\n    {\n        msg_buf->resp.len = 0;\n    }", "    else if (RET_ERROR_SLAVE_ID == RTU_status)\n    {\n        if (modbus_master_msg_repeat_couter)\n            msg_buf->resp.len = 0;\n    }")],
  "a frame of another slave before the answer to the first transmission", "the frame of the other slave is not dropped: the answer after it looks corrupt", r"""
    uint8_t f[12] = {8, 6, 0, 1, 0, 2}, r[12] = {9, 6, 0, 1, 0, 2}; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_write_single_reg(1, 9, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    m_answer(f, 6); CHECK(outcomes() == 0 && M.sends == 1); m_answer(r, 6); CHECK(n_write == 1 && M.sends == 1);""")
S("resp-len-kept", "C17", [(MM, "        msg_buf->resp.len = 0;\n        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG", "        if (0 == modbus_master_msg_repeat_couter)\n            msg_buf->resp.len = 0;\n        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG")],
  "echo or noise bytes during the transmission of a repetition", "the noise is taken for the beginning of the answer", r"""
    uint8_t r[12] = {9, 6, 0, 1, 0, 2, 0, 0}, z[2] = {0xFF, 9}; modbus_master_init(RTU, 9600, NONE);
    CHECK(modbus_master_write_single_reg(1, 9, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    m_frame(r, 8); mpoll(); CHECK(M.sends == 2); rx(&M, z, 2); M.tx(); mpoll();
    m_answer(r, 6); CHECK(n_write == 1 && M.sends == 2);""")
S("answer-during-error", "C18", [(SS, "else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))", "else if (MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG)")],
  "a poll between 1.5 and 3.5 characters of silence", "the slave answers before 3.5 characters of silence", r"""
    uint8_t q[12] = {7, 6, 0, 5, 0x12, 0x34}; s_start(7); add_crc(q, 6);
    rx(&S, q, 8); S.t15(); for (int i = 0; i < 4; i++) { spoll(); CHECK(S.sends == 0 && hr[5] == 0); }
    S.t35(); spoll(); CHECK(S.sends == 1 && hr[5] == 0x1234);""")
S("error-flag-kept", "C19", [(SS, "    FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;\n    RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;\n    slave_msg_ptr->resp.len = 0;", "    if (0 == slave_msg_ptr->resp.len)\n        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;\n    RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;\n    slave_msg_ptr->resp.len = 0;")],
  "a frame error while the slave transmits a response", "the next valid request is not answered", r"""
    uint8_t q[12] = {7, 6, 0, 5, 0x12, 0x34}; s_start(7);
    s_request(q, 6); CHECK(S.sends == 1); S.fe(); S.t15(); spoll(); S.t35(); spoll(); s_done(); spoll();
    q[5] = 9; s_request(q, 6); CHECK(S.sends == 2 && hr[5] == 0x1209);""")
S("reinit-repeat-count", "C20", [(MM, "    modbus_master_msg_repeat_couter = 0;        // ToDo init test for this var\n", "")],
  "re-initialisation while a request is being repeated", "the first request after re-initialisation has fewer repetitions", r"""
    uint8_t r[12] = {9, 6, 0, 1, 0, 2, 0, 0};
    for (int k = 0; k < 2; k++)
    {
        modbus_master_init(RTU, 9600, NONE);
        CHECK(modbus_master_write_single_reg(1, 9, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
        for (int i = 0; i < 3; i++) { m_transmit(); m_frame(r, 8); CHECK(n_comm == 0); }
    }""")
S("report-without-repeat-reset", "C21", [(MM, "        static modbus_master_error_report_t error_rep;\n        set_error_report_from_request(&error_rep, MODBUS_MASTER_RESP_FRAME_ERR);\n        modbus_master_communication_error(&error_rep);\n        modbus_master_msg_process_end();",
  "        static modbus_master_error_report_t error_rep;\n        if (0 == error_rep.slave_ID)\n            set_error_report_from_request(&error_rep, MODBUS_MASTER_RESP_FRAME_ERR);\n        modbus_master_communication_error(&error_rep);\n        modbus_master_msg_process_end();")],
  "a second request that finally fails by frame errors", "the second report names the first failed request", r"""
    uint8_t r[12] = {9, 6, 0, 1, 0, 2}; modbus_master_init(RTU, 9600, NONE);
    for (int k = 0; k < 3; k++)
    {
        CHECK(modbus_master_write_single_reg(k, 9 + k, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
        for (int i = 0; i < 4; i++) { m_transmit(); r[0] = 9 + k; add_crc(r, 6); rx(&M, r, 8); M.fe(); M.t15(); mpoll(); M.t35(); mpoll(); }
        CHECK(n_comm == k + 1 && x_err.slave_ID == 9 + k && x_err.data_adr == k);
    }""")
S("shared-crc-cache", "C22", [(CR, "    if (slave_ID != buf[MODBUS_SLAVE_ADR_IDX])\n    {\n        return RET_ERROR_SLAVE_ID;\n    }\n    else if (0 != calculate_CRC(buf, msg_len))\n    {\n        return RET_ERROR_CRC;\n    }\n    else\n        return RET_OK;",
  "    static modbus_CRC_t last_crc = 0;\n    static modbus_buf_size_t last_len = 0;\n    if (slave_ID != buf[MODBUS_SLAVE_ADR_IDX])\n    {\n        return RET_ERROR_SLAVE_ID;\n    }\n    modbus_CRC_t crc = calculate_CRC(buf, msg_len);\n    if ((0 != crc) && (crc == last_crc) && (msg_len == last_len))\n    {\n        // the same broken frame again: treat it as a line echo, not as a frame for this station\n        return RET_ERROR_SLAVE_ID;\n    }\n    last_crc = crc;\n    last_len = msg_len;\n    return (0 != crc) ? RET_ERROR_CRC : RET_OK;")],
  "a slave and a master in one program receive frames broken in the same way", "the master ignores a corrupt answer instead of repeating the request because the slave saw the same corruption", r"""
    uint8_t q[12] = {7, 6, 0, 1, 0, 2}, r[12] = {9, 6, 0, 1, 0, 2}; modbus_master_init(RTU, 9600, NONE); s_start(7);
    CHECK(modbus_master_write_single_reg(1, 9, 2) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); m_transmit();
    add_crc(q, 6); add_crc(r, 6); q[7] ^= 0x40; r[7] ^= 0x40;
    s_frame(q, 8); CHECK(S.sends == 0);
    m_frame(r, 8); mpoll(); CHECK(M.sends == 2);""")
S("repeat-sends-first", "C23", [(MM, """        modbus_master_send_req_from_msg_buf();
        break;
    case MODBUS_MASTER_TRANSMITTING_REQ""", """        RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
        RTU_driver->enable_rcev(&msg_buf->resp);
        MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
        modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
        break;
    case MODBUS_MASTER_TRANSMITTING_REQ""")], "a driver that reports the end of the transmission from inside send, and a request that is repeated",
  "the report of the repeated transmission is lost and the master waits for it forever", r"""
    uint8_t q[8] = {3, 6, 0, 9, 0x12, 0x34}; modbus_master_init(RTU, 9600, NONE); sync_tx = true;
    CHECK(modbus_master_write_single_reg(9, 3, 0x1234) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
    mpoll(); mpoll(); CHECK(M.sends == 1 && M.outlen == 8);
    add_crc(q, 6); q[7] ^= 1; m_frame(q, 8); mpoll(); mpoll(); CHECK(M.sends == 2 && outcomes() == 0);
    q[7] ^= 1; m_frame(q, 8); mpoll(); CHECK(n_write == 1 && outcomes() == 1);
    sync_tx = false; CHECK(modbus_master_write_single_reg(9, 3, 5) == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE); mpoll(); CHECK(M.sends == 3);""")
