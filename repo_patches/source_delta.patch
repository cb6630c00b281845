From 2f27842950cd51452144972a84719040720befd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 01/13] fix: return the message buffer to the free queue when a
 master request is rejected

---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From d3eb0b1d82eb595f6f4e3d2c0a408a4ad5e6add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 02/13] fix: report a response timeout even when the manager is
 not polled on the exact tick

---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..d0201d6 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -683,7 +683,7 @@ static void modbus_master_transmitting_state_handling(void)
  * and flags related to Modbus communication:
  * - If `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` is set, it calls
  *   `modbus_master_RTU_recv_state_handle` to handle the reception of Modbus data.
- * - If `modbus_master_resp_timeout_timer` equals 1, indicating a response timeout,
+ * - If `modbus_master_resp_timeout_timer` dropped to 1 or below, indicating a response timeout,
  *   it calls `modbus_master_resp_timeout_handle` to handle the timeout error
  *   and subsequently ends the message processing using `modbus_master_msg_process_end`.
  */
@@ -693,7 +693,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     {
         modbus_master_RTU_recv_state_handle();
     }
-    else if (1 == modbus_master_resp_timeout_timer)
+    else if (1 >= modbus_master_resp_timeout_timer)
     {
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
-- 
2.43.0


From d8af684c5b07632c2877324b0f73c5d8057575ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 03/13] fix: do not lose a 3.5 character timeout that expires
 before the response is polled

---
 src/modbus_master.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index d0201d6..e5f9625 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -579,6 +579,8 @@ static void modbus_master_req_sended_callback(void)
  * @brief Sets the Modbus 1.5 character timeout flag upon timer expiration.
  *
  * This function sets the `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` to `MODBUS_FLAG_SET`.
+ * It also clears the `MODBUS_MASTER_TIMER_3_5_CHAR_FLAG`, so that only a 3.5 character timeout that
+ * follows this 1.5 character timeout ends the frame.
  * It serves as a callback function used to indicate that the 1.5 character timeout period
  * has expired during Modbus communication.
  *
@@ -588,6 +590,7 @@ static void modbus_master_req_sended_callback(void)
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
 }
 
 /**
@@ -729,8 +732,8 @@ void modbus_master_resp_timeout_handle(void)
  * @brief Handles the state when a Modbus RTU response is received.
  *
  * This function processes the response received from the Modbus RTU interface:
- * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG and MODBUS_MASTER_TIMER_3_5_CHAR_FLAG
- *   indicating the end of the response reception timing.
+ * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG. MODBUS_MASTER_TIMER_3_5_CHAR_FLAG is left as it is:
+ *   3.5 character times of silence may already have passed before this function is called.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
@@ -747,7 +750,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


From 2716c868ae50f45a0fa042aa20eef39e3caa6b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 04/13] fix: drop stale reception flags before waiting for the
 response to a new request

---
 src/modbus_master.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index e5f9625..fb7c708 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -666,6 +666,7 @@ static void modbus_master_idle_state_handling(void)
  * It checks if the transmission flag (`MODBUS_MASTER_REQ_TRANSMITION_FLAG`) is cleared,
  * indicating that the system is ready to transmit a Modbus request.
  * Upon clearing the transmission flag:
+ * - Everything received before the request was sent completely is dropped, together with its flags.
  * - The response timeout timer is enabled using `modbus_master_enable_resp_timeout_timer`.
  * - The state machine transitions to `MODBUS_MASTER_RESP_WAITING`.
  */
@@ -674,6 +675,10 @@ static void modbus_master_transmitting_state_handling(void)
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
         msg_buf->resp.len = 0;
+        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From 7eb37e1e97ae419ad060678be891db01e6fd6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 05/13] fix: identify the failed request, not the bad response,
 in master error reports

---
 src/master_internall/modbus_master_PDU.c | 22 ++++++++++++-
 src/master_internall/modbus_master_PDU.h |  1 +
 src/modbus_master.c                      | 41 +++++++++++++-----------
 3 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index dfab5bb..972ead9 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -756,6 +756,26 @@ static bool modbus_response_contain_exception_code(const modbus_msg_t *modbus_ms
     return (modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & MODBUS_EXCEPTION_CODE_MASK) == MODBUS_EXCEPTION_CODE_MASK;
 }
 
+/**
+ * @brief Gets the quantity of objects that a request reads or writes.
+ *
+ * A request to write a single coil or register has no quantity field: it always concerns one object.
+ *
+ * @param[in] req Pointer to the Modbus request.
+ *
+ * @return Quantity of objects.
+ */
+modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req)
+{
+    modbus_fun_code_t req_fun_code = req->data[MODBUS_FUNCTION_CODE_IDX];
+
+    if ((MODBUS_WRITE_SINGLE_COIL_FUNC_CODE == req_fun_code) || (MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE == req_fun_code))
+    {
+        return 1;
+    }
+    return read_u16_from_buf(&req->data[MODBUS_REQUEST_QTY_IDX]);
+}
+
 /**
  * @brief Processes the Modbus exception code received in a response message.
  *
@@ -778,7 +798,7 @@ static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg)
     resp.fun_conde = (modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
     resp.exception_code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX];
     resp.data_adr = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_ADR_IDX]);
-    resp.data_qty = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_QTY_IDX]);
+    resp.data_qty = modbus_master_get_req_data_qty(&modbus_msg->req);
     send_exception_code_report_data(&resp);
     return status;
 }
diff --git a/src/master_internall/modbus_master_PDU.h b/src/master_internall/modbus_master_PDU.h
index 3518c1c..71cf7d5 100644
--- a/src/master_internall/modbus_master_PDU.h
+++ b/src/master_internall/modbus_master_PDU.h
@@ -35,6 +35,7 @@ extern "C"
     modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
 
     modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg);
+    modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req);
 
 #ifdef __cplusplus
 }
diff --git a/src/modbus_master.c b/src/modbus_master.c
index fb7c708..a7fbc61 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -82,6 +82,7 @@ static void modbus_master_idle_state_handling(void);
 static void modbus_master_transmitting_state_handling(void);
 static void modbus_master_resp_waiting_state_handling(void);
 static void modbus_master_resp_timeout_handle(void);
+static void set_error_report_from_request(modbus_master_error_report_t *error_rep, modbus_master_resp_read_error_t resp_read_error);
 static void modbus_master_RTU_recv_state_handle(void);
 static void modbus_master_resp_recived_state_handling(void);
 
@@ -713,26 +714,34 @@ static void modbus_master_resp_waiting_state_handling(void)
  *
  * This function is called when a timeout occurs while waiting for a response
  * from a Modbus slave device:
- * - Initializes a static instance of `modbus_master_error_report_t` for timeout error reporting.
- * - Retrieves relevant data from `msg_buf` to populate `timeout_error`:
- *   - `slave_ID`: Modbus slave address extracted from the request data.
- *   - `data_adr`: Address field from the Modbus request.
- *   - `data_qty`: Quantity field from the Modbus request.
- *   - `fun_conde`: Function code from the Modbus response (if available).
- *   - `resp_read_error`: Indicates a timeout error (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
+ * - Populates `timeout_error` with the parameters of the request and the timeout error
+ *   (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
  * - Invokes `modbus_master_data_timeout_error` to handle and report the timeout error.
  */
 void modbus_master_resp_timeout_handle(void)
 {
     modbus_master_error_report_t timeout_error;
-    timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
-    timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
-    timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
-    timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
+    set_error_report_from_request(&timeout_error, MODBUS_MASTER_RESP_TIMEOUT_ERR);
     modbus_master_data_timeout_error(&timeout_error);
 }
 
+/**
+ * @brief Fills an error report with the parameters of the request that is being processed.
+ *
+ * The response can not be used as a source of those parameters: it may be missing or corrupted.
+ *
+ * @param error_rep Pointer to the error report to fill.
+ * @param resp_read_error The error to report.
+ */
+static void set_error_report_from_request(modbus_master_error_report_t *error_rep, modbus_master_resp_read_error_t resp_read_error)
+{
+    error_rep->slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+    error_rep->fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+    error_rep->data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+    error_rep->data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
+    error_rep->resp_read_error = resp_read_error;
+}
+
 /**
  * @brief Handles the state when a Modbus RTU response is received.
  *
@@ -850,9 +859,7 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
-        error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
+        set_error_report_from_request(&error_rep, MODBUS_MASTER_RESP_RTU_CRC_ERR);
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
     }
@@ -885,9 +892,7 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
-        error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
+        set_error_report_from_request(&error_rep, MODBUS_MASTER_RESP_FRAME_ERR);
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
     }
-- 
2.43.0


From 5ef067a31d35c15baa6f3853c5451323e84eb66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 06/13] fix: do not deliver a response that does not answer the
 request

A response with a valid slave address and CRC was accepted whatever its
function code, length and byte count were: the values delivered to the
application then came from bytes that were never received. Such a response
is now handled like a frame error: the request is repeated and finally
reported as a communication error.
---
 src/common/modbus_type.h                 |  3 ++
 src/master_internall/modbus_master_PDU.c | 67 ++++++++++++++++++++++++
 src/modbus_master.c                      | 13 ++++-
 3 files changed, 81 insertions(+), 2 deletions(-)

diff --git a/src/common/modbus_type.h b/src/common/modbus_type.h
index 46190c6..f66f37a 100644
--- a/src/common/modbus_type.h
+++ b/src/common/modbus_type.h
@@ -59,6 +59,9 @@ extern "C"
 /// Length of Modbus slave address byte
 #define MODBUS_SLAVE_ADR_BYTE_LEN 1U
 
+/// Length of Modbus RTU CRC
+#define MODBUS_RTU_CRC_LEN 2U
+
 /// Indexes for Modbus frame parameters
 #define MODBUS_SLAVE_ADR_IDX 0U
 #define MODBUS_PDU_BUF_OFFSET MODBUS_SLAVE_ADR_BYTE_LEN
diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index 972ead9..04adbe9 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -47,6 +47,8 @@ static void update_holding_reg_from_modbus_msg(modbus_data_qty_t data_qty, const
 static modbus_ret_t report_write_operation_confirmation(const modbus_req_resp_t *resp, const modbus_req_resp_t *req);
 static modbus_ret_t check_null_ptr_correctness(const modbus_msg_t *modbus_msg);
 
+static modbus_ret_t check_resp_correctness(const modbus_msg_t *modbus_msg);
+static modbus_data_qty_t get_expected_resp_len(const modbus_req_resp_t *req);
 static bool modbus_response_contain_exception_code(const modbus_msg_t *modbus_msg);
 static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg);
 static modbus_ret_t send_exception_code_report_data(modbus_read_data_t *ex_code_data);
@@ -345,6 +347,11 @@ modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg)
         return RET_NULL_PTR_ERROR;
     }
 
+    modbus_ret_t resp_status = check_resp_correctness(modbus_msg);
+    if (RET_OK != resp_status)
+    {
+        return resp_status;
+    }
     if (modbus_response_contain_exception_code(modbus_msg))
     {
 
@@ -738,6 +745,66 @@ static modbus_ret_t check_null_ptr_correctness(const modbus_msg_t *modbus_msg)
     }
 }
 
+/**
+ * @brief Checks if a response answers the request it was received for.
+ *
+ * A response answers the request if it has the function code of the request (with or without the
+ * exception flag), and the length and the byte count that belong to that request.
+ *
+ * @param modbus_msg Pointer to the Modbus message structure containing the request and the response.
+ * @return modbus_ret_t Status of the check.
+ * @retval RET_OK The response answers the request.
+ * @retval RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH The response has a different function code.
+ * @retval RET_ERROR_BYTE_CNT The response has a wrong length or a wrong byte count.
+ */
+static modbus_ret_t check_resp_correctness(const modbus_msg_t *modbus_msg)
+{
+    modbus_fun_code_t req_fun_code = modbus_msg->req.data[MODBUS_FUNCTION_CODE_IDX];
+    modbus_fun_code_t resp_fun_code = modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    modbus_data_qty_t expected_len = get_expected_resp_len(&modbus_msg->req);
+
+    if (MODBUS_EXCEPTION_CODE_RESP_LEN > modbus_msg->resp.len)
+    {
+        return RET_ERROR_BYTE_CNT;
+    }
+    if ((resp_fun_code & (~MODBUS_EXCEPTION_CODE_MASK)) != req_fun_code)
+    {
+        return RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
+    }
+    if (modbus_response_contain_exception_code(modbus_msg))
+    {
+        expected_len = MODBUS_EXCEPTION_CODE_RESP_LEN;
+    }
+    else if ((MODBUS_READ_INPUT_REGISTERS_FUNC_CODE >= req_fun_code) && ((modbus_msg->resp.data[MODBUS_RESP_READ_BYTE_CNT_IDX] + MODBUS_READ_RESP_LEN) != expected_len))
+    {
+        return RET_ERROR_BYTE_CNT;
+    }
+    return (modbus_msg->resp.len == expected_len) ? RET_OK : RET_ERROR_BYTE_CNT;
+}
+
+/**
+ * @brief Gets the length of the response (without CRC) that answers a request, if it is not an exception.
+ *
+ * @param req Pointer to the request.
+ * @return modbus_data_qty_t Expected length of the response.
+ */
+static modbus_data_qty_t get_expected_resp_len(const modbus_req_resp_t *req)
+{
+    modbus_data_qty_t data_qty = read_u16_from_buf(&req->data[MODBUS_REQUEST_QTY_IDX]);
+
+    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        return MODBUS_READ_RESP_LEN + get_coil_din_byte_count(data_qty);
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        return MODBUS_READ_RESP_LEN + (2 * data_qty);
+    default:
+        return MODBUS_WRITE_SINGLE_RESP_LEN;
+    }
+}
+
 /**
  * @brief Checks if the Modbus response message contains an exception code.
  *
diff --git a/src/modbus_master.c b/src/modbus_master.c
index a7fbc61..b37d21c 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -825,11 +825,20 @@ static void modbus_master_resp_recived_state_handling(void)
  * process the received response stored in `msg_buf`. After processing, it finalizes
  * the message handling by calling `modbus_master_msg_process_end` to push the message
  * buffer back to the free queue and transition the state machine to idle state (`MODBUS_MASTER_IDLE`).
+ * A response that does not answer the request (different function code, wrong length or byte count)
+ * is handled like a frame error.
  */
 static void modbus_master_msg_recived_correctly_state_handle(void)
 {
-    modbus_master_read_slave_resp(msg_buf);
-    modbus_master_msg_process_end();
+    msg_buf->resp.len -= MODBUS_RTU_CRC_LEN;
+    if (RET_OK == modbus_master_read_slave_resp(msg_buf))
+    {
+        modbus_master_msg_process_end();
+    }
+    else
+    {
+        modbus_master_frame_error_state_handling();
+    }
 }
 
 /**
-- 
2.43.0


From 1f537ea3c7c5f163583a561eb9b35171340f25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 07/13] fix: drop stale reception flags when the slave gets
 ready for the next request

Timer and frame error flags raised by characters that were received while a
broken frame was dropped or a response was transmitted stayed set, and made
the slave drop the next correct request.
---
 src/modbus_slave.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..061fce8 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -185,10 +185,7 @@ static void handle_modbus_slave_msg_recived_state(void)
 {
     if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
-        slave_msg_ptr->req.len = 0;
-        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
-        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        handle_modbus_slave_default_state();
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
@@ -210,14 +207,14 @@ static void handle_modbus_slave_msg_recived_state(void)
  *
  * This function handles the Modbus slave state machine when it is in the transmitting response state.
  * It checks for the completion of response transmission before transitioning back to the idle state.
+ * Everything received in the meantime is dropped, together with its flags: a flag that is left set
+ * would make the next request look broken.
  */
 static void handle_modbus_slave_transmitting_resp_state(void)
 {
     if (MODBUS_FLAG_CLEARED == RESP_TRANSMITION_FLAG)
     {
-        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
-        slave_msg_ptr->resp.len = 0;
-        slave_msg_ptr->req.len = 0;
+        handle_modbus_slave_default_state();
     }
 }
 
@@ -333,11 +330,13 @@ static void modbus_resp_send_callback(void)
  * @brief Modbus T_1_5 character time expired callback function.
  *
  * This function serves as a callback handler when the T_1_5 character time has expired in Modbus communication.
- * It sets the timer flag to initiate the reception of Modbus messages.
+ * It sets the timer flag to initiate the reception of Modbus messages and clears the 3.5 character time flag,
+ * so that only a 3.5 character time that follows this 1.5 character time ends the frame.
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
 }
 
 /**
-- 
2.43.0


From 08a5d1249b7f9ce261f5fa0955dfb658b9c2d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 08/13] fix: discard a frame that is continued after 1.5
 characters of silence

The CRC is checked after 1.5 characters of silence, but the frame was used
after 3.5 characters of silence whatever had been received in between.
---
 src/modbus_master.c | 8 ++++++++
 src/modbus_slave.c  | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index b37d21c..feafed0 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -787,6 +787,8 @@ static void modbus_master_RTU_recv_state_handle(void)
  *
  * This function determines the appropriate action based on the flags and timers
  * related to Modbus communication:
+ * - If `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` is set again, the frame was continued after 1.5 characters of
+ *   silence, which is a frame error.
  * - If both `MODBUS_MASTER_FRAME_ERROR_FLAG` and `MODBUS_MASTER_TIMER_3_5_CHAR_FLAG` are set,
  *   it calls `modbus_master_frame_error_state_handling` to handle frame errors.
  * - If both `MODBUS_MASTER_RTU_CRC_ERROR_FLAG` and `MODBUS_MASTER_TIMER_3_5_CHAR_FLAG` are set,
@@ -799,6 +801,12 @@ static void modbus_master_RTU_recv_state_handle(void)
  */
 static void modbus_master_resp_recived_state_handling(void)
 {
+    if (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_1_5_CHAR_FLAG)
+    {
+        // The frame was continued after 1.5 characters of silence
+        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
+    }
     if ((MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))
     {
         modbus_master_frame_error_state_handling();
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 061fce8..8d687db 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -179,10 +179,17 @@ static void handle_modbus_slave_idle_state(void)
  *
  * This function handles the Modbus slave state machine when it is in the message received state.
  * It checks for frame errors and the expiration of the 3.5 character time before preparing
- * and transmitting the Modbus response message.
+ * and transmitting the Modbus response message. A frame that is continued after 1.5 characters of
+ * silence is broken as well.
  */
 static void handle_modbus_slave_msg_recived_state(void)
 {
+    if (MODBUS_FLAG_SET == TIMER_1_5_CHAR_FLAG)
+    {
+        // The frame was continued after 1.5 characters of silence
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
+    }
     if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
         handle_modbus_slave_default_state();
-- 
2.43.0


From e94a2fe9b6668ee5625220c6d1f38359cbce74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 09/13] fix: answer a truncated request with an exception
 instead of executing stale buffer content

The slave never compared the length of a request with the length its function
code and byte count require, so the fields that were missing were taken from
the CRC or from the previous request.
---
 src/common/modbus_type.h               |  3 ++
 src/modbus_slave.c                     |  3 +-
 src/slave_internall/modbus_slave_PDU.c | 40 +++++++++++++++++++++++++-
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/common/modbus_type.h b/src/common/modbus_type.h
index f66f37a..c21e7eb 100644
--- a/src/common/modbus_type.h
+++ b/src/common/modbus_type.h
@@ -62,6 +62,9 @@ extern "C"
 /// Length of Modbus RTU CRC
 #define MODBUS_RTU_CRC_LEN 2U
 
+/// Minimum length of Modbus RTU frame: slave address, function code and CRC
+#define MODBUS_RTU_MIN_FRAME_LEN 4U
+
 /// Indexes for Modbus frame parameters
 #define MODBUS_SLAVE_ADR_IDX 0U
 #define MODBUS_PDU_BUF_OFFSET MODBUS_SLAVE_ADR_BYTE_LEN
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 8d687db..be6b5c3 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -166,7 +166,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || (MODBUS_RTU_MIN_FRAME_LEN > slave_msg_ptr->req.len))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
@@ -196,6 +196,7 @@ static void handle_modbus_slave_msg_recived_state(void)
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
+        slave_msg_ptr->req.len -= MODBUS_RTU_CRC_LEN;
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
         slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
diff --git a/src/slave_internall/modbus_slave_PDU.c b/src/slave_internall/modbus_slave_PDU.c
index 0526dd7..90e3987 100644
--- a/src/slave_internall/modbus_slave_PDU.c
+++ b/src/slave_internall/modbus_slave_PDU.c
@@ -34,6 +34,7 @@ static modbus_ret_t handle_slave_write_multiple_reg_service(modbus_msg_t *modbus
 static void set_exception_code_resp(modbus_msg_t *modbus_msg, modbus_exception_code_t exception_code);
 static modbus_ret_t update_msg_len_and_ret_status(modbus_msg_t *modbus_msg, modbus_ret_t last_ret_val, modbus_byte_count_t byte_cnt);
 static modbus_ret_t check_read_req_data_correcntess(modbus_msg_t *modbus_msg, modbus_data_qty_t max_read_data_qty, modbus_data_qty_t app_data_qty);
+static modbus_ret_t check_req_len_correctness(modbus_msg_t *modbus_msg);
 static modbus_ret_t check_write_req_data_correctness(modbus_msg_t *modbus_msg, modbus_data_qty_t max_write_data_qty, modbus_data_qty_t app_data_qty);
 static modbus_ret_t check_write_req_byte_count_correctenss(modbus_msg_t *modbus_msg);
 static modbus_ret_t check_write_req_reg_byte_count_correctenss(modbus_msg_t *modbus_msg);
@@ -93,7 +94,11 @@ modbus_ret_t parse_master_request_and_prepare_resp(modbus_msg_t *rx_msg)
     {
         if (req_fun_code == modbus_slave_function_mapper[i].fun_code)
         {
-            msg_parse_status = modbus_slave_function_mapper[i].fun_code_action(rx_msg);
+            msg_parse_status = check_req_len_correctness(rx_msg);
+            if (RET_OK == msg_parse_status)
+            {
+                msg_parse_status = modbus_slave_function_mapper[i].fun_code_action(rx_msg);
+            }
             UNSUPORTED_FUNC_CODE_FLAG = MODBUS_FLAG_CLEARED;
             break;
         }
@@ -614,6 +619,39 @@ static modbus_ret_t handle_slave_write_multiple_reg_service(modbus_msg_t *modbus
     return status;
 }
 
+/**
+ * @brief Checks if all the bytes of a request were received.
+ *
+ * If the request is shorter than its function code and byte count require, an exception code is set
+ * in the Modbus response: the missing bytes must not be taken from the old content of the buffer.
+ *
+ * @param modbus_msg Pointer to the Modbus message structure containing request data.
+ * @return modbus_ret_t Status of the request length check.
+ *         - @retval - RET_OK If the request is complete.
+ *         - @retval - RET_ERROR If the request is too short, and an exception code is set in the response.
+ */
+static modbus_ret_t check_req_len_correctness(modbus_msg_t *modbus_msg)
+{
+    modbus_fun_code_t fun_code = modbus_msg->req.data[MODBUS_FUNCTION_CODE_IDX];
+    modbus_data_qty_t min_len = MODBUS_READ_REQUEST_LEN;
+
+    if ((MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE == fun_code) || (MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE == fun_code))
+    {
+        min_len = MODBUS_WRITE_MULTI_REQUEST_LEN;
+        if (modbus_msg->req.len >= min_len)
+        {
+            min_len += modbus_msg->req.data[MODBUS_REQUEST_BYTE_CNT_IDX];
+        }
+    }
+    if (modbus_msg->req.len < min_len)
+    {
+        modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] = fun_code;
+        set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_VALUE_ERROR);
+        return RET_ERROR;
+    }
+    return RET_OK;
+}
+
 /**
  * @brief Sets the Modbus exception code in the response message.
  *
-- 
2.43.0


From 126d9cb996e3ff2c23a5d66922f2b569b71211bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 10/13] fix: enable the slave's reception after it is
 initialized

Reception was enabled before the callbacks were subscribed and the flags were
cleared, and the length of the request buffer was never reset: characters
received before a re-initialization made the first request look broken.
---
 src/modbus_slave.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index be6b5c3..2494de4 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -50,6 +50,7 @@ static void init_modbus_data_buffers_and_queues(modbus_mode_t mode);
 static void register_msg_req_resp_data_buffers(modbus_mode_t mode);
 static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t parity);
 static void init_modbus_slave_internall_data(modbus_device_ID_t Slave_ID);
+static void enable_modbus_reception(modbus_mode_t mode);
 static void modbus_resp_send_callback(void);
 static void modbus_T_1_5_char_expired_callback(void);
 static void modbus_T_3_5_char_expired_callback(void);
@@ -123,6 +124,7 @@ void modbus_slave_init(modbus_mode_t mode, baud_t baud_rate, parity_t parity, mo
     init_modbus_data_buffers_and_queues(mode);
     init_modbus_driver(mode, baud_rate, parity);
     init_modbus_slave_internall_data(slave_ID);
+    enable_modbus_reception(mode);
 }
 
 /**
@@ -290,7 +292,6 @@ static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t pa
     {
         slave_RTU_driver = get_slave_RTU_driver_interface();
         slave_RTU_driver->init(baud_rate, parity);
-        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
         slave_RTU_driver->subscribe_msg_tx_done_cb(modbus_resp_send_callback);
         slave_RTU_driver->subscribe_t_1_5_char_expired_cb(modbus_T_1_5_char_expired_callback);
         slave_RTU_driver->subscribe_t_3_5_char_expired_cb(modbus_T_3_5_char_expired_callback);
@@ -321,6 +322,25 @@ static void init_modbus_slave_internall_data(modbus_device_ID_t Slave_ID)
     TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
+
+    slave_msg.req.len = 0;
+    slave_msg.resp.len = 0;
+}
+
+/**
+ * @brief Enables the reception of requests based on the specified mode.
+ *
+ * Reception is enabled last, when everything it uses is initialized: the callbacks are subscribed,
+ * the flags are cleared and the request buffer is empty.
+ *
+ * @param mode Modbus mode (e.g., RTU).
+ */
+static void enable_modbus_reception(modbus_mode_t mode)
+{
+    if (RTU == mode)
+    {
+        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
+    }
 }
 
 /**
-- 
2.43.0


From e97f6cda8623ff50413c3280cadd04375f6eae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 11/13] fix: detect a continued frame also when the manager was
 not polled in between

---
 src/modbus_master.c | 8 +++++++-
 src/modbus_slave.c  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index feafed0..c50620c 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -581,7 +581,8 @@ static void modbus_master_req_sended_callback(void)
  *
  * This function sets the `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` to `MODBUS_FLAG_SET`.
  * It also clears the `MODBUS_MASTER_TIMER_3_5_CHAR_FLAG`, so that only a 3.5 character timeout that
- * follows this 1.5 character timeout ends the frame.
+ * follows this 1.5 character timeout ends the frame. If the flag of an earlier 1.5 character timeout is still
+ * set, the frame was interrupted, which is a frame error.
  * It serves as a callback function used to indicate that the 1.5 character timeout period
  * has expired during Modbus communication.
  *
@@ -590,6 +591,11 @@ static void modbus_master_req_sended_callback(void)
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
+    if (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_1_5_CHAR_FLAG)
+    {
+        // The frame was continued after 1.5 characters of silence
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
+    }
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
     MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
 }
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 2494de4..f16c170 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -359,10 +359,16 @@ static void modbus_resp_send_callback(void)
  *
  * This function serves as a callback handler when the T_1_5 character time has expired in Modbus communication.
  * It sets the timer flag to initiate the reception of Modbus messages and clears the 3.5 character time flag,
- * so that only a 3.5 character time that follows this 1.5 character time ends the frame.
+ * so that only a 3.5 character time that follows this 1.5 character time ends the frame. If the flag of an earlier
+ * 1.5 character time is still set, the frame was interrupted and is broken.
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
+    if (MODBUS_FLAG_SET == TIMER_1_5_CHAR_FLAG)
+    {
+        // The frame was continued after 1.5 characters of silence
+        FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
+    }
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
     TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
 }
-- 
2.43.0


From 1216cde7ff711cfd4fa848cf55010feea25126bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 12/13] fix: do not take a 1.5 character timeout without any
 received character for a response

---
 src/modbus_master.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index c50620c..b60d6c9 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -754,6 +754,8 @@ static void set_error_report_from_request(modbus_master_error_report_t *error_re
  * This function processes the response received from the Modbus RTU interface:
  * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG. MODBUS_MASTER_TIMER_3_5_CHAR_FLAG is left as it is:
  *   3.5 character times of silence may already have passed before this function is called.
+ * - Does nothing else if no part of a response was received: the 1.5 character timeout belongs to characters
+ *   that were received before the request was sent completely (e.g. an echo) and dropped.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
@@ -770,6 +772,11 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    if ((0 == msg_buf->resp.len) && (MODBUS_FLAG_CLEARED == MODBUS_MASTER_FRAME_ERROR_FLAG))
+    {
+        // The silence follows a character that was received before the request was sent completely
+        return;
+    }
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


From 4049b0dd4c8b32b7ebbc5b3362b3cc075816320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:32 +0000
Subject: [PATCH 13/13] fix: set the transmission flag and state before calling
 the driver's send

A driver that reports the end of the transmission before send returns (a
blocking driver, or an interrupt at that moment) had its report overwritten,
and master and slave then waited for it forever.
---
 src/modbus_master.c | 5 +++--
 src/modbus_slave.c  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index b60d6c9..9271d7e 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -402,10 +402,11 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
-    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
-    RTU_driver->enable_rcev(&msg_buf->resp);
+    // set before sending: the driver may report the end of the transmission before send returns
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
+    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
+    RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
 /**
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index f16c170..030e51b 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -201,10 +201,11 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len -= MODBUS_RTU_CRC_LEN;
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
+        // set before sending: the driver may report the end of the transmission before send returns
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
     }
     else
     {
-- 
2.43.0

