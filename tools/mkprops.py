#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

RTU, CRC = "src/common/modbus_RTU.c", "src/common/modbus_crc.c"
M, MP, MR, Q = "src/modbus_master.c", "src/master_internall/modbus_master_PDU.c", "src/master_internall/modbus_master_RTU.c", "src/master_internall/modbus_queue.c"
S, SP, SD, SR = "src/modbus_slave.c", "src/slave_internall/modbus_slave_PDU.c", "src/slave_internall/modbus_slave_data.c", "src/slave_internall/modbus_slave_RTU.c"
DI, MI = "src/modbus_driver_interface.h", "src/modbus_master_data_interface.h"

prop("C01", "RTU framing: address, unchanged payload, CRC-16/MODBUS low byte first",
 "For every address and every payload, the frame handed to the serial driver is the address, the payload bytes unchanged, and the CRC-16/MODBUS (reflected polynomial 0xA001, initial value 0xFFFF) of everything before it, low byte first, and its reported length is two more than before. A frame that would not fit the 256-byte buffer (more than 253 bytes before the CRC) or has no buffer is refused with an error and nothing is written.",
 ["inputs"], "all byte contents of frames, all lengths 0..255, all 256 addresses",
 "Tests compare a handful of fixed frames; the CRC is a 256-entry table, so a wrong entry or a length-dependent slip shows only for particular byte/state pairs.",
 [RTU, CRC], [("table-driven CRC loop", CRC), ("append CRC and length guard", RTU)], ["bytes and length passed to the driver's send function"])

prop("C02", "A frame is accepted exactly when address and CRC are right",
 "A received frame passes the link layer if and only if its first byte is the expected address and its last two bytes are the CRC-16/MODBUS of the rest; a wrong address and a wrong CRC are told apart, the address being judged first. Consequently a valid frame hit by any single error burst of at most 16 bits, in particular any single or double corrupted adjacent byte, is never accepted, and what follows the frame in the buffer never matters.",
 ["inputs", "fault_sequences"], "all frame contents, all addresses, all burst positions and patterns, within the stated frame lengths",
 "Tests flip a CRC in one or two frames; the guarantee is about every corruption of every frame.",
 [RTU, CRC], [("address and CRC comparison", RTU)], ["result of the link-layer receive function", "whether the slave answers / the master delivers"])

prop("C03", "Master requests are encoded exactly as the caller asked",
 "For each of the eight supported functions and every valid set of parameters, the request that is transmitted carries the requested slave address, the function code of the called function, the address and quantity or value big-endian, and for multiple writes the exact byte count and the caller's values (coils packed least significant bit first with zero padding, registers big-endian), followed by a correct CRC, and nothing else. The caller's data are read, never modified.",
 ["inputs"], "all addresses, slave ids, values and quantities allowed for each function",
 "Tests check a few addresses and quantities per function; packing and length arithmetic slips appear at particular quantities (multiples of 8, above 127 registers' bytes, the maxima).",
 [M, MP, RTU, "src/common/buf_rw.c", "src/common/modbus_PDU_common.c"], [("request builders", MP), ("request generation and queueing", M)], ["bytes passed to the driver's send function"])

prop("C04", "Invalid or excess master requests are rejected without side effects",
 "A master request whose quantity is zero or above the protocol maximum (2000 coils or discrete inputs read, 125 registers read, 1968 coils written, 123 registers written) is rejected with a request error, a valid request is refused with the queue-full error exactly when the maximum number of requests is outstanding, and every other request is accepted. A rejected request changes nothing: it is never transmitted, leaves every accepted request intact, and does not reduce the number of requests that can be outstanding.",
 ["inputs", "histories"], "all parameters, and all sequences of valid, invalid and excess requests within the stated length",
 "Tests reject single requests one at a time; the leak of a buffer per rejected request only shows after a history of several.",
 [M, MP, Q], [("quantity validation", MP), ("buffer accounting through the free queue", M)], ["return codes of the request functions", "frames passed to the driver's send function"],
 [("free queue / request queue", "unused and pending message buffers", M)])

prop("C05", "Slave read responses contain exactly the application's current data",
 "A valid read request (coils, discrete inputs, holding registers or input registers) is answered with the same function code, the right byte count, and the current value of every requested item of that table and no other: registers big-endian in ascending address order, bits packed least significant first with zero padding bits. Answering a read changes no application data.",
 ["inputs", "configurations"], "all addresses and quantities valid for the table, all table contents, the four read functions, several table sizes",
 "Tests read a few ranges of one table size; wrong offsets, padding and loop bounds depend on address, quantity and content together.",
 [SP, SD, S, "src/common/modbus_PDU_common.c", "src/common/buf_rw.c"], [("read handlers", SP), ("table access", SD)], ["response bytes and length", "application variables"])

prop("C06", "Slave writes change exactly the addressed data and echo the request",
 "A valid write request (single or multiple coils or holding registers) sets each addressed item to exactly the requested value and changes no other item of any table. It is answered with the echo the protocol defines: the request's address with the value for single writes and with the quantity for multiple writes.",
 ["inputs", "configurations"], "all addresses, quantities and values valid for the table, all previous table contents, the four write functions, several table sizes",
 "Tests write a few items and look at those; that no other item changes for any request cannot be sampled.",
 [SP, SD, S], [("write handlers", SP), ("table access", SD)], ["application variables", "response bytes and length"])

prop("C07", "Slave exceptions: right code, right priority, no data changed",
 "A complete request the slave cannot serve is answered with its function code plus 0x80 and one exception code: 1 for an unsupported function; 3 for a quantity of zero or above the protocol maximum or a coil value other than 0x0000/0xFF00; otherwise 2 if any addressed item lies outside the table, including ranges that would wrap past address 65535; otherwise 3 if a multiple write's byte count does not match its quantity; otherwise 4 if an addressed item is not backed by application data. Codes 1, 2 and 3 are returned without changing any application data.",
 ["inputs", "configurations"], "all 256 function codes, all addresses, quantities, byte counts and values, any one unbacked item, several table sizes",
 "Tests trigger each code with one or two requests; which code wins for every combination of defects, and that boundary values get the right one, is a statement about all inputs.",
 [SP, SD], [("request validation", SP), ("null entry check", SD)], ["response bytes and length", "application variables"])

prop("C08", "Slave survives any received bytes; truncated requests cause no effects",
 "Whatever bytes and however many (0 to 255) the slave receives in a frame, processing them accesses no memory outside the buffers, tables and application variables, terminates, and produces either no response or one of at most 256 bytes. A request shorter than its function code (and, for multiple writes, its byte count) requires changes no application data and is never answered with data; nothing the slave does depends on bytes left over from earlier frames.",
 ["inputs", "histories"], "all frame contents and lengths, all previous buffer contents, within the stated bounds per function",
 "Tests feed well-formed frames; over-reads, stale bytes and length underflow need malformed ones combined with a particular previous frame.",
 [S, SP, SD, RTU], [("frame length checks", SP), ("receive handling", S)], ["memory accesses", "response bytes and length", "application variables"])

prop("C09", "Master delivers exactly the requested items from a valid response",
 "When a valid response to a read request is received, the application is told the value of every requested item exactly once, under the slave, table and address it asked for, with the value the response holds for it, and is told nothing else. When a valid response to a write request is received, the write is confirmed exactly once with the slave, table, address and quantity (one for single writes) of the request.",
 ["inputs"], "all requests and all valid responses to them, within the stated quantities",
 "Tests deliver a few responses; unpacking offsets, address arithmetic (including wrap-around at 65535) and dispatch depend on all request and response fields.",
 [MP, M, MI], [("response handlers", MP)], ["application callbacks: kind, slave, address, value, number of calls"])

prop("C10", "Master never uses a response that does not answer the request",
 "Whatever a response with a valid address and CRC contains and however long it is, if its function code, length or byte count does not fit the outstanding request then no item, write confirmation or exception is delivered from it and it is treated like a frame error (the request is repeated, and finally reported as failed). Processing any response accesses no memory outside the buffers, and no delivered value comes from bytes that were not received in that response.",
 ["inputs", "histories"], "all requests, all response contents and lengths, all previous buffer contents, within the stated bounds",
 "Tests use well-formed responses; a mismatched or truncated response with a good CRC (a faulty or hostile slave) is one of very many.",
 [MP, M, RTU], [("response validation", MP), ("retry on unusable response", M)], ["application callbacks", "memory accesses", "repeated transmissions"])

prop("C11", "Exception responses reach the application once, fully identified",
 "When an outstanding request is answered by an exception response, the application is notified exactly once, through the notification belonging to the requested kind of data, with the slave, the function code, the start address and quantity (one for single writes) of the request and the exception code of the response. No item value, write confirmation or error report is delivered for that request, and it is not repeated.",
 ["inputs"], "all requests of the eight functions, all exception codes",
 "Tests check one exception per function with fixed parameters; the identification must be right for all of them.",
 [MP, M, MI], [("exception reporting", MP)], ["application callbacks and their parameters"])

prop("C12", "Master and slave compose: a round trip has the effect the call names",
 "When a request made through the master's interface travels over an undisturbed line to a slave with the addressed id and its answer travels back, then for a read the master's application receives exactly the slave's data, for a write the slave's data become exactly the caller's and the master's application gets one confirmation, and if the slave must refuse, the master's application gets exactly the exception the slave raised. Slaves with another id neither change nor answer.",
 ["inputs", "configurations"], "all calls of the eight functions (all addresses; quantities within stated bounds), all slave data, equal and different ids",
 "Tests exercise master and slave against fixed byte strings separately; agreement for all inputs needs both sides together.",
 [M, MP, S, SP, SD, RTU, CRC], [("request encoding / parsing and response encoding / parsing pairs", MP + ", " + SP)], ["master application callbacks", "slave application variables"])

prop("C13", "Message queue is first-in first-out and loses or duplicates nothing",
 "For every sequence of insertions and removals, the message queue returns the stored messages in insertion order, each exactly once; removal from an empty queue yields nothing and changes nothing; insertion into a full queue is refused and leaves both the queue and the caller's message untouched. A successful insertion takes over the caller's reference.",
 ["histories"], "all operation sequences from every reachable queue state (any fill level and wrap position), within the stated length",
 "Tests run a few sequences from the empty queue; wrap-around combined with full/empty is a history property.",
 [Q], [("circular buffer with item counter", Q)], ["returned messages", "fill level"])

prop("C14", "Every accepted request ends in exactly one outcome, in order",
 "Accepted requests are processed one at a time in the order they were accepted: a request is first transmitted only after the previous one has ended, every transmission and repetition of it is byte-identical, and it is transmitted at most four times. Whatever the line, the driver events and the polling do, each accepted request ends in exactly one outcome (data delivered, write confirmed, exception, timeout report or communication error report), no outcome occurs without a request, and afterwards its buffer is available again.",
 ["schedules", "fault_sequences", "histories"], "all schedules of driver events, received frames, timer ticks, polls and requests within the stated number of steps, followed by a fair completion",
 "Tests walk a few fixed event orders with one or two requests; lost or doubled outcomes come from interleavings.",
 [M, Q], [("master state machine", M)], ["frames passed to the driver", "application callbacks", "return codes of the request functions"],
 [("state machine, flags, repeat counter", "progress of the current request", M)])

prop("C15", "An unanswered request times out on time, whatever the polling pattern",
 "If no frame arrives after a request has been transmitted, then from the first poll after the transmission completed the request is reported as timed out exactly once, not before the configured response time-out (to within one timer tick) has elapsed and at the first poll after it has, no matter how many timer ticks pass between polls. It is not repeated, and the next queued request is then transmitted.",
 ["schedules", "configurations"], "all interleavings of timer ticks and polls within the stated number of steps; time-outs from 1 tick to the shipped 1000 ms",
 "Tests poll on exactly the tick where the timer reaches the reported value; other polling patterns are a schedule quantifier.",
 [M], [("time-out timer compared at poll", M)], ["time-out report", "frames passed to the driver"])

prop("C16", "Corrupt responses are retried exactly as configured, then reported",
 "A response with a wrong CRC, a frame error, or contents that do not answer the request makes the master repeat the identical request; after the configured number of repetitions (three) has failed too, exactly one communication error naming the kind of the last failure is reported and the master goes on with the next request with its full number of repetitions. A valid response after any smaller number of failures is delivered normally with no error report, and a frame from another slave is ignored without using up a repetition.",
 ["fault_sequences", "histories"], "all sequences of attempt results over consecutive requests, all kinds of corruption within the stated frames",
 "Tests run all-CRC or all-frame-error sequences; mixed sequences and the counter's state across requests are histories.",
 [M], [("repeat counter and error handling", M)], ["frames passed to the driver", "communication error reports", "application callbacks"])

prop("C17", "A request's outcome depends only on what is received in answer to it",
 "Bytes, frame errors and timer events that occurred before a request's transmission completed (left-overs of an earlier transaction, noise while idle, echo while transmitting) never influence its outcome: a clean valid response is delivered with exactly its data, and without a response the request times out (for a master that is polled at least once between the end of its transmission and the first character of the response). Values delivered for a request never stem from a frame received before it.",
 ["histories", "schedules", "fault_sequences"], "all histories of driver events, frames and polls within the stated number of steps before the transmission completes",
 "Tests start every transaction from a clean state; stale flags and buffer contents need a history.",
 [M, MP], [("flags and buffer cleared when waiting for a response starts", M)], ["application callbacks", "frames passed to the driver"])

prop("C18", "Slave answers once, only to intact frames for it, after 3.5 characters",
 "The slave executes and answers a frame only if the frame carries its own address and a correct CRC, had no frame error and was not continued after 1.5 characters of silence, and only after 3.5 characters of silence have followed it; then it answers exactly once. In every other case it transmits nothing and changes no application data.",
 ["schedules", "inputs", "fault_sequences"], "all frame contents and all schedules of received bytes, silence events, frame errors and polls within the stated number of steps, for a slave that is polled during each silence after a frame",
 "Tests drive the callbacks in one canonical order; early, double or unwarranted answers come from other orders.",
 [S, RTU], [("slave state machine", S)], ["frames passed to the driver", "application variables"],
 [("timer and frame error flags", "what the driver reported since the last frame", S)])

prop("C19", "Slave always recovers: after any disturbance the next request is served",
 "Whatever was received before (noise, frames for others, broken, truncated or interrupted frames, frame errors, bytes during its own transmission), once the line has been silent for 3.5 characters and the slave has been polled and any transmission has completed, the next valid request is executed and answered exactly once with the right response.",
 ["histories", "fault_sequences", "schedules"], "all histories of driver events and polls within the stated number of steps, then any valid request of the stated kind",
 "Tests check one bad frame followed by one good one; the flags that survive depend on the order of events.",
 [S], [("flags and lengths reset before the next frame", S)], ["frames passed to the driver", "application variables"])

prop("C20", "(Re)initialisation yields a clean, fully connected station from any state",
 "After initialising, or re-initialising in any state, the master has no outstanding requests and its full request capacity, and the slave an empty receive buffer, the new station id and no pending response; nothing from before influences later behaviour. All driver events are subscribed before reception is enabled, so that nothing received after initialisation is lost, and the driver is configured with the requested baud rate and parity.",
 ["histories", "configurations"], "all histories of events, requests and polls within the stated number of steps before re-initialisation; all ids, baud rates and parities",
 "Tests initialise once from the power-on state; re-initialisation in the middle of a transaction is a history.",
 [M, S], [("initialisation functions", M + ", " + S)], ["driver calls", "frames passed to the driver", "application callbacks"])

prop("C21", "Error reports identify the request that failed",
 "Every time-out or communication error report carries the slave id, function code, start address and quantity (one for single writes) of the request that failed and the kind of error, whatever was or was not received in answer to it.",
 ["inputs", "fault_sequences"], "all requests of the eight functions, all received bytes within the stated bound, each kind of error",
 "Tests compare the report only when the received frame resembles the request; reports taken from corrupt responses need corrupt contents.",
 [M, MI], [("error report construction", M)], ["time-out and communication error callbacks"])

prop("C22", "Master and slave in one program do not influence each other",
 "A program may run a master and a slave at the same time on separate lines: any interleaving of their events, polls and requests gives each of them exactly the behaviour it has alone.",
 ["schedules", "histories"], "all interleavings of a master transaction and a slave transaction within the stated number of steps",
 "Tests link master and slave separately and never interleave them.",
 [M, S, "src/common/modbus_RTU.c"], [("separate state for master and slave", M + ", " + S)], ["frames passed to both drivers", "application callbacks and variables"])

prop("C23", "The end of a transmission is never lost, however early the driver reports it",
 "The driver may report the end of a transmission later, or already before its send function has returned (a driver that transmits synchronously, an interrupt at that moment): in either case master and slave go on, the transaction ends in its normal outcome and later requests are served.",
 ["schedules", "histories"], "every choice, per transmission, between a report inside send and a later one, in the stated scenarios (answered, corrupt, repeated and unanswered requests), all addresses and values",
 "Test doubles of the driver report the end of a transmission only when the test calls for it, after send has returned.",
 [M, S], [("transmission flag set when a request or response is handed to the driver", M + ", " + S)], ["driver calls", "application callbacks", "application variables"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
