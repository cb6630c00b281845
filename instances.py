from vp import Instance as I
PROPS = {}
def add(p, *a, **k): PROPS.setdefault(p, []).append(I(*a, **k))
def get(p): return PROPS.get(p, [])
ASSUME = {}
GENERAL = ["CBMC 6.11's C semantics for x86-64 (gcc) and its SAT back end are correct",
           "the stub serial driver behaves as documented: it stores a received byte at the request's/response's current length and increments it, and calls the subscribed callbacks",
           "callbacks and API calls are atomic with respect to each other (events interleave between calls, not inside them)"]
def assumptions(p): return GENERAL + ASSUME.get(p, [])

# ---- C01
for n in (1, 2, 3, 4): add("C01", "content%d" % n, "h_frame.c", dict(MODE=1, N=n), bounds="all contents of frames of %d bytes before the CRC, all addresses" % n)
add("C01", "anylen", "h_frame.c", dict(MODE=2), unwind=257, bounds="every length 1..253, one fixed content pattern")
for n in (8, 64, 129, 253): add("C01", "tail%d" % n, "h_frame.c", dict(MODE=3, N=n), unwind=257, bounds="length %d, last three bytes arbitrary, rest a fixed pattern" % n)
add("C01", "refuse", "h_frame.c", dict(MODE=4), unwind=257, bounds="all lengths without a buffer; lengths 254 and 255 with a buffer")
# ---- C02
for n in (3, 4, 5, 8): add("C02", "frame%d" % n, "h_accept.c", dict(MODE=1, N=n), bounds="all frames of %d bytes, all addresses" % n)
add("C02", "frame12", "h_accept.c", dict(MODE=1, N=12), unwind=20, tier="thorough", bounds="all frames of 12 bytes")
add("C02", "burst8", "h_accept.c", dict(MODE=2, N=8), bounds="all valid frames of 8 bytes, all bursts of up to 16 bits at every position")
add("C02", "burst5", "h_accept.c", dict(MODE=2, N=5), bounds="all valid frames of 5 bytes, all bursts")
for n in (20, 129, 255): add("C02", "tail%d" % n, "h_accept.c", dict(MODE=4, N=n), unwind=257, bounds="length %d, last five bytes and address arbitrary, rest a fixed pattern" % n)
add("C02", "anylen", "h_accept.c", dict(MODE=3), unwind=257, tier="thorough", bounds="every length 3..255, fixed pattern, all last two bytes and addresses")
# ---- C13
Q = "MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS"
add("C13", "step", "h_queue.c", dict(MODE=2), bounds="one operation from every valid queue state (capacity as configured: 5); the invariant is preserved, so histories of any length are covered")
for c in (1, 2, 3): add("C13", "step_cap%d" % c, "h_queue.c", dict(MODE=2), cfg={Q: c}, bounds="the same for capacity %d" % c)
add("C13", "seq7", "h_queue.c", dict(MODE=1, K=7), bounds="all sequences of 7 operations from the empty queue, then drained")
add("C13", "seq12", "h_queue.c", dict(MODE=1, K=12), tier="thorough", bounds="all sequences of 12 operations from the empty queue, then drained")
# ---- C03, C04
T = "MODBUS_MASTER_RESP_TIME_OUT_MS"
FCS = {1: "read_coils", 2: "read_disin", 3: "read_hreg", 4: "read_inreg", 5: "write_coil", 6: "write_reg", 15: "write_coils", 16: "write_regs"}
for f in (1, 2, 3, 4, 5, 6): add("C03", FCS[f], "h_mreq.c", dict(MODE=1, FC=f), cfg={Q: 1}, bounds="function %d: all addresses, ids and all valid quantities/values; arbitrary leftovers in the buffer" % f)
add("C03", "write_coils_20", "h_mreq.c", dict(MODE=2, FC=15, QMAX=20), cfg={Q: 1}, unwind=22, abs_crc=True, bounds="function 15: all quantities 1..20, all values, addresses and ids; arbitrary leftovers in the buffer")
add("C03", "write_regs_5", "h_mreq.c", dict(MODE=2, FC=16, QMAX=5), cfg={Q: 1}, unwind=22, abs_crc=True, bounds="function 16: all quantities 1..5, all values, addresses and ids; arbitrary leftovers in the buffer")
for q in (1968, 1961, 256, 1023): add("C03", "write_coils_q%d" % q, "h_mreq.c", dict(MODE=3, FC=15, Q=q, ADR=(0x1234 + q)), cfg={Q: 1}, unwind=1970, fs=2100, checks=False, bounds="function 15, quantity %d: last four values arbitrary, one address" % q, tier="quick" if q == 1961 else "thorough")
for q in (123, 122, 64, 63): add("C03", "write_regs_q%d" % q, "h_mreq.c", dict(MODE=3, FC=16, Q=q, ADR=(0x4321 + q)), cfg={Q: 1}, unwind=257, bounds="function 16, quantity %d: last four values arbitrary, one address" % q)
for f in FCS:
    if f not in (5, 6): add("C04", "limits_" + FCS[f], "h_mreq.c", dict(MODE=4, FC=f), abs_crc=True, unwind=10, bounds="function %d: all %s quantities, all addresses and ids" % (f, "invalid" if f > 6 else "65536"))
for f, q, t in ((15, 1968, "quick"), (15, 1, "quick"), (15, 1967, "thorough"), (16, 123, "quick"), (16, 122, "quick"), (16, 1, "quick")):
    add("C04", "accept_%s_%d" % (FCS[f], q), "h_mreq.c", dict(MODE=6, FC=f, QQ=q), abs_crc=True, fs=2100, unwind=1970 if q > 200 else 257, tier=t, checks=q < 200, bounds="function %d with quantity %d, all ids" % (f, q))
for f, k, c, t in ((6, 4, 2, "quick"), (3, 4, 1, "quick"), (16, 5, 2, "thorough"), (1, 6, 3, "thorough")):
    add("C04", "history%d_cap%d" % (k, c), "h_mreq.c", dict(MODE=5, K=k, FC=f), cfg={T: 1, Q: c}, unwind=12, abs_crc=True, ob=16, tier=t, bounds="all sequences of %d operations (valid requests of function %d, two kinds of invalid requests, completions), capacity %d, then completion of everything outstanding" % (k, f, c))
# ---- C05, C06, C07
SM = {"MAIN_APP_COILS_QTY": 21, "MAIN_APP_DISCRET_INPUTS_QTY": 13, "MAIN_APP_HOLDING_REG_QTY": 11, "MAIN_APP_INPUT_REG_QTY": 9}
def LG(f, n):
    """only the table that function f addresses is large"""
    c = {k: 3 for k in SM}
    c[{1: "MAIN_APP_COILS_QTY", 2: "MAIN_APP_DISCRET_INPUTS_QTY", 4: "MAIN_APP_INPUT_REG_QTY", 15: "MAIN_APP_COILS_QTY"}.get(f, "MAIN_APP_HOLDING_REG_QTY")] = n
    return c
FULL = {k: 65535 for k in SM}
SMT = "tables of 21/13/11/9 items, all application values"
for f in (1, 2, 3, 4):
    add("C05", FCS[f], "h_slave.c", dict(PROP=5, MODE=1, FC=f), cfg=SM, unwind=26, abs_crc=f > 2, bounds="all valid requests of function %d; %s" % (f, SMT))
    for a, q, t in (((0, 2000, "quick"), (10, 1999, "thorough"), (3, 1993, "thorough")) if f < 3 else ((0, 125, "quick"), (5, 125, "quick"), (0, 124, "thorough"), (2, 64, "thorough"))):
        add("C05", "%s_%d_at_%d" % (FCS[f], q, a), "h_slave.c", dict(PROP=5, MODE=3, FC=f, ADR=a, QQ=q), cfg=LG(f, a + q + 3), unwind=2002 if f < 3 else 257, fs=2100, tier=t, abs_crc=True, checks=f > 2, bounds="function %d, %d items at %d; 11 of the values arbitrary, the others a fixed pattern" % (f, q, a))
for f in (5, 6): add("C06", FCS[f], "h_slave.c", dict(PROP=6, MODE=1, FC=f), cfg=SM, unwind=26, bounds="all valid requests of function %d; %s" % (f, SMT))
for f, b in [(15, b) for b in (1, 2, 3)] + [(16, 2 * b) for b in range(1, 12)]: add("C06", "%s_bytes%d" % (FCS[f], b), "h_slave.c", dict(PROP=6, MODE=2, FC=f, MAXB=b), cfg=SM, unwind=40, abs_crc=True, tier="quick" if f == 15 or b in (2, 8, 22) else "thorough", bounds="all valid requests of function %d with %d data bytes; %s" % (f, b, SMT))
for f, a, q, t in ((15, 0, 1968, "quick"), (15, 42, 1961, "thorough"), (16, 0, 123, "quick"), (16, 7, 123, "quick"), (16, 3, 64, "thorough")):
    add("C06", "%s_%d_at_%d" % (FCS[f], q, a), "h_slave.c", dict(PROP=6, MODE=3, FC=f, ADR=a, QQ=q), cfg=LG(f, a + q + 3), unwind=2002 if f == 15 else 257, fs=2100, tier=t, abs_crc=True, checks=f == 16, bounds="function %d, %d items at %d; data of 11 items arbitrary, 13 addresses watched" % (f, q, a))
for f in (1, 2, 3, 4, 5, 6):
    add("C07", FCS[f], "h_slave.c", dict(PROP=7, MODE=1, FC=f, HOLE=4), cfg=SM, unwind=26, abs_crc=True, bounds="all invalid requests of function %d; %s, one address not backed" % (f, SMT))
for f, b in [(15, b) for b in range(6)] + [(16, b) for b in range(25)]: add("C07", "%s_bytes%d" % (FCS[f], b), "h_slave.c", dict(PROP=7, MODE=2, FC=f, MAXB=b, HOLE=4), cfg=SM, unwind=40, abs_crc=True, tier="quick" if b in ((0, 1, 3) if f == 15 else (0, 2, 7, 24)) else "thorough", bounds="all complete invalid requests of function %d with %d data bytes; %s, one address not backed" % (f, b, SMT))
add("C07", "unsupported", "h_slave.c", dict(PROP=7, MODE=4, LMAX=10), cfg=SM, unwind=26, abs_crc=True, bounds="all unsupported function codes, all requests of 2 to 10 bytes")
for f in FCS: add("C07", "fulltable_" + FCS[f], "h_slave.c", dict(PROP=7, MODE=5, FC=f), cfg=FULL, unwind=258 if f < 3 else 14, abs_crc=True, bounds="function %d, tables of 65535 items without application data, all addresses%s" % (f, " and quantities" if f < 5 else ""))
# ---- C08
MEMT = {"MAIN_APP_COILS_QTY": 19, "MAIN_APP_DISCRET_INPUTS_QTY": 10, "MAIN_APP_HOLDING_REG_QTY": 7, "MAIN_APP_INPUT_REG_QTY": 5}
for n in (4, 5, 8): add("C08", "unsupported_%d" % n, "h_slave_mem.c", dict(MODE=1, N=n, FC=71), cfg=MEMT, unwind=32, abs_crc=True, bounds="all frames of %d bytes with function code 71, all left-overs and application values" % n)
for n in (0, 1, 2, 3, 5): add("C08", "realcrc%d" % n, "h_slave_mem.c", dict(MODE=1, N=n), cfg=MEMT, unwind=32, tier="quick" if n < 5 else "thorough", bounds="all frames of %d bytes with the library's own CRC, all left-overs and application values" % n)
for n in range(0, 13): add("C08", "any%d" % n, "h_slave_mem.c", dict(MODE=1, N=n), cfg=MEMT, unwind=32, abs_crc=True, weight=n, tier="quick" if n < 4 else "thorough", bounds="all frames of %d bytes, all left-overs and application values" % n)
for f in FCS:
    for n in (4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18, 20, 23): add("C08", "%s_%d" % (FCS[f], n), "h_slave_mem.c", dict(MODE=1, N=n, FC=f), cfg=MEMT, unwind=32, abs_crc=True, tier="quick" if n in (4, 7, 8) and f < 7 or f > 6 and n in (4, 8, 9, 10, 11) else "thorough", bounds="all frames of %d bytes with function code %d, all left-overs and application values" % (n, f))
    for n in (60, 200, 254, 255): add("C08", "%s_long%d" % (FCS[f], n), "h_slave_mem.c", dict(MODE=2, N=n, FC=f), cfg=MEMT, unwind=32, crc=258, abs_crc=True, tier="quick" if n == 255 and f > 6 else "thorough", bounds="frames of %d bytes with function code %d: intact, address, quantity, byte count, first and last two data bytes arbitrary, all left-overs and application values" % (n, f))
# ---- C18, C19
TINY = {"MAIN_APP_COILS_QTY": 1, "MAIN_APP_DISCRET_INPUTS_QTY": 1, "MAIN_APP_HOLDING_REG_QTY": 2, "MAIN_APP_INPUT_REG_QTY": 1}
SCH = "all schedules of %d rounds ([4 or 8 bytes] [frame error] [poll] [T1.5] [poll] [T3.5] [poll] [poll] [tx done] [poll], each optional), %s contents"
for p in ("C18", "C19"):
    for r, m, t in ((1, 0xFF, "quick"), (2, 0x07, "quick"), (2, 0xFF, "thorough"), (3, 0x06, "thorough")):
        add(p, "rounds%d_fc%x" % (r, m), "h_slave_sched.c", dict(PROP=int(p[1:]), R=r, FCMASK=m), cfg=TINY, unwind=9, crc=9 * r + 10, abs_crc=True, tier=t, bounds=SCH % (r, "all" if m == 0xFF else "function codes 0..7 and otherwise all"))
# ---- C09, C10, C11
def MQ(p, f, q, t, defs, name, bounds, **k):
    add("C%02d" % p, name, "h_master.c", dict(PROP=p, FC=f, QQ=q, **defs), cfg={Q: 1}, abs_crc=True, tier=t, bounds=bounds, **k)
for f in FCS:
    for q in ((1, 7, 8, 9, 16, 17) if f < 3 else (1, 2, 3, 5, 8) if f < 5 else (1,) if f < 7 else (1, 3, 9)):
        MQ(9, f, q, "quick" if q < 17 else "thorough", dict(SLAVE=(37 * f + q) % 248), "%s_q%d" % (FCS[f], q), "function %d, quantity %d: all addresses, data and left-overs" % (f, q), unwind=32)
    for q, adr in ((2000, 0), (1993, 63543), (1032, 64504), (256, 65280), (255, 1)) if f < 3 else ((125, 0), (124, 65412), (63, 32760)) if f < 5 else () if f < 7 else ((1968, 0), (1961, 63575)) if f == 15 else ((123, 0), (122, 65414)):
        MQ(9, f, q, "thorough" if q in (2000, 1993, 1961) else "quick", dict(SLAVE=(37 * f + q) % 248, ADR=adr), "%s_q%d_at_%d" % (FCS[f], q, adr), "function %d, quantity %d at %d: all data and left-overs" % (f, q, adr), unwind=2002 if q > 125 else 257 if q > 17 else 32, fs=2100 if q > 125 else 300, checks=q <= 125)
    MQ(9, f, 3, "quick" if f in (3, 15) else "thorough", {}, "%s_anyid" % FCS[f], "function %d, quantity 3: all ids, addresses, data and left-overs" % f, unwind=32, weight=9)
    MQ(11, f, 3, "quick", dict(SLAVE=(37 * f) % 248), FCS[f], "function %d: all addresses, exception codes and left-overs" % f, unwind=32)
    MQ(11, f, 3, "quick" if f in (2, 5) else "thorough", {}, FCS[f] + "_anyid", "function %d: all addresses, ids, exception codes and left-overs" % f, unwind=32, weight=9)
for f in FCS:
    for q in (3, 9) if f < 3 else (3,) if f < 5 else (1,) if f < 7 else (3,):
        for n in (3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 20):
            MQ(10, f, q, "quick" if n in ((4, 6, 7) if f < 3 else (5, 8, 11, 12) if f < 5 else (3, 7, 8)) and q < 9 else "thorough", dict(SLAVE=(37 * f + q) % 248, N=n), "%s_q%d_len%d" % (FCS[f], q, n), "function %d, quantity %d: all responses of %d bytes with valid address and CRC, all addresses and left-overs" % (f, q, n), unwind=16 if f == 16 else 12)
# ---- C16, C21, C14
ALLK = "wrong CRC, frame error, continued frame, unfitting answer, valid answer, exception, silence"
def RT(p, n, f, t, b, q=1, **d): add(p, n, "h_retry.c", dict(FC=f, **d), cfg={Q: q, T: 2}, abs_crc=True, unwind=18, ob=16, bounds="function %d: %s; all addresses and values, frame contents arbitrary" % (f, b), tier=t)
for k, nm in enumerate(("crc", "frame", "continued", "unfit")):
    for f, t in ((3, "quick"), (1, "thorough"), (5, "thorough"), (15, "thorough"), (16, "thorough")): RT("C16", "%s_first_%s" % (FCS[f], nm), f, t, "first attempt fails (%s), all sequences of further results (%s)" % (nm, ALLK), KINDSET=0x7F, FIRST=k, TAIL=-1)
for f, t in ((3, "quick"), (15, "thorough"), (6, "thorough"), (2, "thorough")): RT("C16", FCS[f] + "_then_next", f, t, "all sequences of wrong CRC, frame error and valid answer, then a second request failing to the end or succeeding at the last attempt", KINDSET=0x13, TAIL=1)
RT("C16", "read_inreg_unfit_then_next", 4, "quick", "all sequences of unfitting and valid answers, exceptions and silence, then a second request failing to the end or succeeding at the last attempt", KINDSET=0x78, TAIL=1)
for k in (0, 1, 3): RT("C16", "read_hreg_foreign%d" % k, 3, "quick" if k < 3 else "thorough", "a frame of another slave before attempt %d's answer; all sequences of wrong CRC, frame error, valid answer and silence" % (k + 1), KINDSET=0x53, TAIL=-1, FOREIGN=k)
for f in FCS:
    for ks, nm in ((0x40, "timeout"), (1, "crc"), (2, "frame"), (8, "unfit")):
        for q in {1: (1, 300, 2000), 3: (1, 125), 15: (1, 18, 300), 16: (1, 18, 123)}[(1 if f < 3 else 3) if f < 5 else f] if f not in (5, 6) else (1,):
            RT("C21", "%s_%d_%s" % (FCS[f], q, nm), f, "quick" if f < 7 and (q > 1 or f > 4) or q == 18 or (q > 18 and nm == "timeout") else "thorough", "request with quantity %d fails by %s" % (q, nm), KINDSET=ks, TAIL=-1, Q1=q)
    for n in (4, 5, 12, 30): RT("C21", "%s_crc_len%d" % (FCS[f], n), f, "quick" if n in (4, 12) and f in (1, 4, 6, 16) else "thorough", "corrupt answers of %d bytes" % n, KINDSET=3, TAIL=-1, XLEN=n)
    RT("C21", "%s_foreign_timeout" % FCS[f], f, "quick" if f in (2, 5, 15) else "thorough", "only a frame of another slave, then silence or corrupt answers", KINDSET=0x41, TAIL=-1, FOREIGN=0)
# ---- C15
def TO(n, f, t, to, fails, rounds, maxt, pre, **d): add("C15", n, "h_timeout.c", dict(FC=f, FAILS=fails, ROUNDS=rounds, MAXT=maxt, PRE=pre, **d), cfg={Q: 2, T: to}, abs_crc=True, unwind=12, tier=t, bounds="function %d after %d corrupt answers, time-out of %d ticks: %s; up to %d ticks and polls before, during and directly after the transmission" % (f, fails, to, "a poll after any of %d to %d ticks, then polls at every tick near the end, or only at the end" % (d["LO"], d["HI"]) if d else "%d rounds of 0 to %d ticks and an optional poll" % (rounds, maxt), pre))
for to in (2, 3, 4): TO("ticks%d" % to, 3, "quick", to, 0, 5, 2, 2)
for fails in (1, 2, 3): TO("repeat%d" % fails, 3, "quick" if fails < 3 else "thorough", 4, fails, 4, 2, 1)
for f in FCS: TO("real_" + FCS[f], f, "quick" if f == 5 else "thorough", 1000, 0, 0, 0, 1, LO=995, HI=1003)
for lo, hi in ((0, 4), (498, 503), (994, 1003)): TO("real_%d" % lo, 3, "quick", 1000, 1, 0, 0, 0, LO=lo, HI=hi)
for lo in range(0, 1000, 50): TO("real_all%d" % lo, 3, "thorough", 1000, 0, 0, 0, 0, LO=lo, HI=lo + 49)
TO("ticks_deep", 3, "thorough", 6, 0, 9, 2, 2)
# ---- C14, C17
MAPL = {"generate_request_PDU_data.0": 9, "process_modbus_response.0": 9}
MSCH = "all schedules of %d rounds ([request] [4 or 8 bytes] [frame error] [poll] [T1.5] [poll] [T3.5] [poll] [ticks] [poll] [tx done] [poll], each optional), all contents; function %d"
for p in (14, 17):
    for r, f, t in ((1, 3, "quick"), (1, 6, "quick"), (2, 6, "quick"), (2, 3, "quick"), (3, 6, "thorough")):
        add("C%d" % p, "rounds%d_fc%d" % (r, f), "h_master_sched.c", dict(PROP=p, R=r, FC=f, VP_WEAK_CRC=1), cfg={Q: 1, T: 2}, abs_crc=True, unwind=2, loops=MAPL, crc=9 * r + 12, tier=t, bounds=MSCH % (r, f))
# ---- C20
INITL = ["push_all_available_msg_buffer_to_free_queue.0", "register_msg_req_resp_data_buffers.0", "register_msg_req_resp_data_buffers.1"]
for r, cap, nreq, fails, f, t in ((0, 1, 0, 0, 3, "quick"), (1, 1, 1, 4, 3, "quick"), (2, 1, 1, 0, 6, "quick"), (2, 1, 1, 3, 3, "thorough")):
    add("C20", "master_rounds%d_fails%d" % (r, fails), "h_init.c", dict(SIDE=0, R=r, NREQ=nreq, FAILS=fails, FC=f, CAP=cap, VP_WEAK_CRC=1), cfg={Q: cap, T: 2}, abs_crc=True, unwind=2, loops=MAPL, crc=9 * r + 12, tier=t, bounds="master, capacity %d: %d requests and %d rounds of arbitrary events (bytes, frame error, silences, ticks, transmission done, polls, each optional), re-initialisation, then requests with %d corrupt answers" % (cap, nreq, r, fails))
for r, cap, nreq, fails, f, t in ((1, 2, 2, 3, 3, "quick"), (2, 5, 5, 0, 6, "quick"), (2, 5, 3, 4, 3, "thorough"), (3, 2, 2, 0, 6, "thorough")):
    add("C20", "master_script%d_cap%d_fails%d" % (r, cap, fails), "h_init.c", dict(SIDE=0, SCRIPT=1, R=r, NREQ=nreq, FAILS=fails, FC=f, CAP=cap), cfg={Q: cap, T: 2}, abs_crc=True, unwind=18, ob=16, tier=t, bounds="master, capacity %d: %d requests, up to %d attempts ending in any way (corrupt answer, valid answer, time-out), re-initialisation at any of seven points of an attempt, then requests with %d corrupt answers" % (cap, nreq, r, fails))
for r, t in ((0, "quick"), (1, "quick"), (2, "thorough")):
    add("C20", "slave_rounds%d" % r, "h_init.c", dict(SIDE=1, R=r, VP_WEAK_CRC=1), cfg=TINY, unwind=9, crc=9 * r + 10, abs_crc=True, tier=t, bounds="slave: %d rounds of arbitrary events, re-initialisation with any id, baud rate and parity, then a request to any id, also one received while initialising" % r)
# ---- C12
E2T = {"MAIN_APP_COILS_QTY": 21, "MAIN_APP_DISCRET_INPUTS_QTY": 13, "MAIN_APP_HOLDING_REG_QTY": 11, "MAIN_APP_INPUT_REG_QTY": 9}
def E2(n, t, b, cfg=E2T, **d): add("C12", n, "h_e2e.c", dict(dict(MODE=1, T=1, F2=3, Q2=1), **d), cfg=dict(cfg, **{Q: 1}), unwind=26, abs_crc=True, ob=10, tier=t, bounds=b + "; tables of 21/13/11/9 items with all data, all addresses")
for f in FCS:
    for q, t in ((1, "quick"), (9, "quick"), (17, "thorough")) if f < 2 else ((1, "thorough"), (9, "quick"), (13, "thorough")) if f < 3 else ((1, "quick"), (3, "quick"), (8, "thorough")) if f < 5 else ((1, "quick"),) if f < 7 else ((1, "thorough"), (9, "quick"), (20, "thorough")) if f == 15 else ((1, "thorough"), (3, "quick"), (8, "thorough")):
        E2("%s_q%d" % (FCS[f], q), t, "function %d, quantity %d: all values" % (f, q), F1=f, Q1=q)
    E2("%s_hole" % FCS[f], "quick" if f in (2, 3, 5) else "thorough", "function %d, one address not backed" % f, F1=f, Q1=1 if f in (5, 6) else 3, HOLE=4)
    E2("%s_other_id" % FCS[f], "quick" if f in (4, 6) else "thorough", "function %d, all other ids" % f, F1=f, Q1=1 if f in (5, 6) else 3, MODE=2)
for a, qa, b, qb, t in ((16, 2, 3, 3, "quick"), (15, 9, 1, 10, "quick"), (6, 1, 3, 2, "quick"), (5, 1, 1, 9, "quick"), (3, 3, 16, 2, "quick"), (1, 9, 15, 9, "thorough"), (2, 9, 4, 3, "quick"), (15, 9, 15, 4, "thorough"), (16, 3, 6, 1, "thorough"), (4, 3, 3, 3, "thorough"), (16, 5, 16, 5, "thorough")):
    E2("%s_then_%s" % (FCS[a], FCS[b]), t, "function %d (quantity %d), then function %d (quantity %d): all values" % (a, qa, b, qb), F1=a, Q1=qa, F2=b, Q2=qb, T=2)
for a, qa, b, qb, n, t in ((16, 2, 3, 3, 3, "quick"), (15, 9, 1, 10, 3, "thorough"), (6, 1, 3, 2, 4, "thorough"), (5, 1, 1, 3, 5, "thorough")):
    E2("%s_then_%s_%d" % (FCS[a], FCS[b], n), t, "function %d (quantity %d), then %d times function %d (quantity %d): all values" % (a, qa, n - 1, b, qb), F1=a, Q1=qa, F2=b, Q2=qb, T=n)
for f in FCS: E2("%s_anyid" % FCS[f], "quick" if f in (1, 16) else "thorough", "function %d, any id" % f, F1=f, Q1=1 if f in (5, 6) else 3, ANYID=1)
for f, q in ((6, 1), (3, 1), (1, 9), (5, 1), (16, 1), (15, 3)): add("C12", "%s_realcrc" % FCS[f], "h_e2e.c", dict(MODE=1, T=1, F1=f, Q1=q, F2=3, Q2=1, ADR=2, RAW=1), cfg=dict(E2T, **{Q: 1}), unwind=26, ob=10, tier="quick" if f in (1, 5) else "thorough", bounds="function %d, quantity %d at 2, with the library's own CRC: all values" % (f, q))
# ---- C22
MK = ["valid answer", "wrong CRC", "frame error", "exception", "silence until the time-out"]; SK = ["valid request", "wrong CRC", "frame error", "another id", "refused request"]
def C22(t, mf, sf, mk, sk, init=0): add("C22", "m%d_%s_s%d_%s%s" % (mf, MK[mk].split()[0] + str(mk), sf, SK[sk].split()[0] + str(sk), "_init%d" % init if init else ""), "h_both.c", dict(MF=mf, SF=sf, MKIND=mk, SKIND=sk, INIT=init), cfg={Q: 1, T: 2, "MAIN_APP_COILS_QTY": 5, "MAIN_APP_DISCRET_INPUTS_QTY": 5, "MAIN_APP_HOLDING_REG_QTY": 5, "MAIN_APP_INPUT_REG_QTY": 5}, unwind=18, abs_crc=True, ob=16, tier=t, bounds="all interleavings of %d steps of the master (function %d: %s) and %d steps of the slave (function %d: %s), all contents" % (5 + init % 2, mf, MK[mk], 5 + init // 2, sf, SK[sk]))
for mk in range(5):
    for sk in range(5): C22("quick" if mk == 0 or sk == 0 or (mk, sk) == (2, 2) else "thorough", (3, 6, 1, 16, 5)[mk], (6, 3, 16, 4, 15)[sk], mk, sk)
for mf, sf in ((3, 3), (16, 16), (1, 15), (15, 1), (6, 6), (2, 4), (5, 2), (4, 5)): C22("quick" if mf in (3, 16, 15) else "thorough", mf, sf, 0, 0)
C22("quick", 6, 16, 0, 0, 1); C22("quick", 6, 16, 0, 0, 2); C22("thorough", 6, 3, 4, 4, 3); C22("thorough", 1, 16, 2, 2, 3); C22("thorough", 3, 6, 0, 0, 3)
# ---- C23
SYK = (("two requests, each answered", "a corrupt response, the repetition answered, another request", "a request without answer, another request"), ("three requests", "requests and a corrupt frame between them"))
for side in (0, 1):
    for kind, txt in enumerate(SYK[side]):
        for m in range(8 if side or kind == 1 else 4):
            add("C23", "%s_%d_%d" % (("master", "slave")[side], kind, m), "h_sync.c", dict(SIDE=side, KIND=kind, SYNC=m), tier="quick" if m in ((1, 2, 3), (2, 5), (1, 2), (1, 6), (3,))[3 * side + kind] else "thorough", cfg={Q: 1, T: 2, "MAIN_APP_COILS_QTY": 1, "MAIN_APP_DISCRET_INPUTS_QTY": 1, "MAIN_APP_HOLDING_REG_QTY": 2, "MAIN_APP_INPUT_REG_QTY": 1}, abs_crc=True, unwind=10, ob=10, bounds="%s: %s, all addresses and values; end of transmission reported inside send for the transmissions of mask %d, else between polls" % (("master", "slave")[side], txt, m))
