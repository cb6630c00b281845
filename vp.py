#!/usr/bin/env python3
"""Solver-based checks of the MODBUS library (CBMC on the real C sources of /repo/src).

  vp.py check  ID [--tier quick|thorough] [--only SUBSTR] [--keep]
  vp.py list                                     all instances
Every run recompiles /repo's current sources together with the harnesses in /verif/harness, lets CBMC
decide every assertion for all values of the symbolic inputs within the instance's bounds, replays every
counterexample and every reachability witness against a native build of the same sources, and writes
/verif/evidence/<ID>.json.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
JOBS = int(os.environ.get("VP_JOBS", "8"))
CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--unwinding-assertions"]
MAX_UNWIND = 2100
ALLOWED_NO_BODY = set()
STOP = threading.Event()      # a violation has been found: what is still running need not go on

def sh(cmd, timeout=None, cwd=None, mem_gb=None):
    def lim():
        os.setpgid(0, 0)
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=lim)
    while True:
        try:
            out, _ = p.communicate(timeout=2)
            return p.returncode, out.decode("utf-8", "replace"), time.time() - t
        except subprocess.TimeoutExpired:
            if not STOP.is_set() and (timeout is None or time.time() - t < timeout): continue
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.communicate()
            if STOP.is_set(): raise Error("stopped: another instance has found a violation")
            return -999, "", time.time() - t

def lib_sources():
    return sorted(glob.glob(SRC + "/**/*.c", recursive=True))

def include_dirs():
    return sorted({os.path.dirname(h) for h in glob.glob(SRC + "/**/*.h", recursive=True)})

class Instance:
    """One harness with fixed compile-time parameters. Fields:
    name, src (harness file), defs {macro: value}, cfg {library configuration macro: value}, unwind (bound for
    library loops; loops of the harness itself are unrolled completely), tier, bounds (text for the evidence)."""
    def __init__(self, name, src, defs=None, cfg=None, unwind=10, tier="quick", bounds="", timeout=None, checks=True,
                 extra=None, solver=None, fs=300, weight=1, abs_crc=False, ob=9, crc=None, loops=None):
        self.__dict__.update(name=name, src=src, defs=defs or {}, cfg=cfg or {}, unwind=unwind, tier=tier, bounds=bounds,
                             timeout=timeout, checks=checks, extra=extra or [], solver=solver, fs=fs, weight=weight, abs_crc=abs_crc, ob=ob, loops=loops or {}, whole=False, crc=258 if crc is None and unwind > 258 else crc)

class Error(Exception):
    pass
class NoBody(Error):
    pass

def write_cfg(d, cfg):
    """modbus_config.h of this instance: the real file, with some values overridden."""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "modbus_config.h"), "w") as f:
        f.write('#include "%s/modbus_config.h"\n' % SRC)
        for k, v in cfg.items():
            f.write("#undef %s\n#define %s %s\n" % (k, k, v))

def cflags(inst, work):
    fl = ["-I", os.path.join(work, "cfg"), "-I", HARN]
    for d in include_dirs(): fl += ["-I", d]
    fl += ["-D%s=%s" % kv for kv in inst.defs.items()]
    if inst.abs_crc: fl += ["-DVP_ABS_CRC"]
    return fl

CRC_DEF = re.compile(r"^[\w \t*]+\bcalculate_CRC\s*\([^;{()]*\)\s*\{", re.M)

def compile_sources(inst, work, cc, tag):
    """The library sources for this instance. With abs_crc, the library's calculate_CRC is renamed where it is defined, so
    that every call reaches the harness's stand-in (ref.h) instead; everything else is the library's own code."""
    sources = lib_sources()
    if not inst.whole:            # a harness for one side gets that side's sources (fewer candidates for calls through pointers)
        text = open(os.path.join(HARN, inst.src)).read()
        m, s = '"env_master.h"' in text, '"env_slave.h"' in text
        if m and s and "SIDE" in inst.defs: m, s = inst.defs["SIDE"] == 0, inst.defs["SIDE"] == 1
        if m != s: sources = [f for f in sources if ("slave" if m else "master") not in os.path.relpath(f, SRC)]
    if not inst.abs_crc: return sources
    out, found = [], False
    for f in sources:
        if CRC_DEF.search(open(f, errors="replace").read()):
            found = True
            o = os.path.join(work, "%s_%s.o" % (tag, os.path.basename(f)))
            rc, txt, _ = sh(cc + ["-c", "-Dcalculate_CRC=vp_library_CRC"] + cflags(inst, work) + ["-o", o, f], timeout=120)
            if rc != 0: raise Error("compilation failed: %s\n%s" % (f, txt[-2000:]))
            out.append(o)
        else: out.append(f)
    if not found: raise Error("calculate_CRC is not defined in the library sources")
    return out

def compile_goto(inst, work):
    write_cfg(os.path.join(work, "cfg"), inst.cfg)
    gb = os.path.join(work, "h.gb")
    cc = ["goto-cc", "-DVP_CBMC", "-w"]
    rc, out, _ = sh(cc + cflags(inst, work) + ["-o", gb, os.path.join(HARN, inst.src)] + compile_sources(inst, work, cc, "goto")
                    + ["--function", "harness"], timeout=120)
    if rc != 0 or not os.path.exists(gb):
        raise Error("goto-cc failed for %s:\n%s" % (inst.name, out[-2000:]))
    return gb

def harness_loops(gb):
    rc, out, _ = sh(["cbmc", "--show-loops", gb], timeout=60)
    ids, crc, all_ids, cur = [], [], set(), None
    for l in out.splitlines():
        m = re.match(r"Loop (\S+):", l)
        if m: cur = m.group(1); all_ids.add(cur)
        m = re.match(r"\s+file (\S+) line", l)
        if m and cur:
            if cur.startswith("calculate_CRC."): crc.append(cur)
            elif os.path.abspath(m.group(1)).startswith(HARN): ids.append(cur)
            cur = None
    return ids, crc, all_ids

LOOP_FUNCTIONS = set("""process_modbus_response update_holding_reg_from_modbus_msg update_input_reg_from_modbus_msg
modbus_master_write_multiple_coils_req modbus_master_write_multiple_reg_req handle_slave_write_multiple_reg_service
handle_slave_read_input_reg_service handle_slave_read_holding_reg_service handle_slave_read_discrete_inputs_service
handle_slave_read_coil_service update_master_dis_in_from_modbus_msg push_all_available_msg_buffer_to_free_queue
set_coil_din_value_from_modbus_msg parse_master_request_and_prepare_resp clear_coil_din_status_byte calculate_CRC
update_master_coils_frmo_modbus_msg generate_request_PDU_data register_msg_req_resp_data_buffers""".split())
RES = re.compile(r"^\[(.+?)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")

def run_cbmc(inst, gb, unwind, timeout, raised):
    """raised: {loop: bound} of the loops for which an earlier run's unwinding assertion failed"""
    loops, crc, all_loops = harness_loops(gb)
    lim = {}
    if inst.loops:      # hints for an instance with a small general bound; loops in functions not known here start at 9
        lim.update({l: 9 for l in all_loops if l.rpartition(".")[0].partition("$")[0] not in LOOP_FUNCTIONS})
        lim.update({l: n for l, n in inst.loops.items() if l in all_loops})
    if inst.crc: lim.update({l: inst.crc for l in crc})
    lim.update({l: MAX_UNWIND + 10 for l in loops})
    lim.update(raised)
    limits = ["%s:%d" % x for x in sorted(lim.items())]
    cmd = ["cbmc", gb, "--function", "harness", "--unwind", str(unwind)] + CHECKS + [
        "--max-field-sensitivity-array-size", str(inst.fs), "--no-malloc-may-fail", "--drop-unused-functions",
        "--compact-trace", "--verbosity", "8", "--object-bits", str(inst.ob)] + inst.extra
    if not inst.checks:
        for c in ("--bounds-check", "--pointer-check", "--div-by-zero-check"): cmd.remove(c)
    if limits: cmd += ["--unwindset", ",".join(limits)]
    if inst.solver: cmd += ["--sat-solver", inst.solver]
    rc, out, wall = sh(cmd, timeout=timeout, mem_gb=20)
    r = {"cmd": " ".join(cmd), "rc": rc, "wall": wall, "props": [], "traces": {}, "functions": set(), "solver_s": 0.0,
         "queries": 0, "variables": 0, "clauses": 0, "steps": 0, "limits": lim}
    if rc == -999: raise Error("%s: solver time limit of %ds reached" % (inst.name, timeout))
    if rc not in (0, 10): raise Error("%s: cbmc ended with %d:\n%s" % (inst.name, rc, out[-1500:]))
    nb = set(re.findall(r"no body for function '?([\w]+)'?", out)) - ALLOWED_NO_BODY
    nb = {x for x in nb if not x.startswith("nondet_vp")}
    if nb: raise NoBody("%s: called functions without a body: %s" % (inst.name, ", ".join(sorted(nb))))
    head, _, tail = out.partition("** Results:")
    if not tail: raise Error("%s: no results from cbmc:\n%s" % (inst.name, out[-1500:]))
    for m in re.finditer(r"Runtime decision procedure: ([\d.]+)s", head): r["solver_s"] += float(m.group(1)); r["queries"] += 1
    for m in re.finditer(r"(\d+) variables, (\d+) clauses", head):
        r["variables"] = max(r["variables"], int(m.group(1))); r["clauses"] = max(r["clauses"], int(m.group(2)))
    m = re.search(r"size of program expression: (\d+) steps", head)
    if m: r["steps"] = int(m.group(1))
    body, fn, cur = tail, None, None
    for l in body.splitlines():
        if cur is None:
            m = RES.match(l)
            if m: r["props"].append((m.group(1), m.group(2), m.group(3), fn)); continue
            m = re.match(r"^(\S+) function (\S+)$", l)
            if m:
                fn = (m.group(1), m.group(2))
                if m.group(1).startswith(REPO + "/"): r["functions"].add(os.path.relpath(m.group(1), REPO) + ":" + m.group(2))
        m = re.match(r"^Trace for (\S+):$", l)
        if m: cur = m.group(1); r["traces"][cur] = []; continue
        if cur is not None:
            m = re.match(r"^\s*\d+: vp_in=(\d+)u?l* ", l)
            if m: r["traces"][cur].append(int(m.group(1)))
    if not r["props"]: raise Error("%s: no properties decided" % inst.name)
    return r

def build_native(inst, work, variant):
    exe = os.path.join(work, "native_" + variant)
    if os.path.exists(exe): return exe
    extra = {"asan": [], "pattern": ["-ftrivial-auto-var-init=pattern"], "zero": ["-ftrivial-auto-var-init=zero"], "O2": ["-O2"]}[variant]
    cc = ["gcc", "-std=gnu11", "-w", "-g", "-O0", "-DVP_REPLAY", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"] + extra
    cmd = cc + ["-Wl,--unresolved-symbols=ignore-all"] + cflags(inst, work) + [
           "-o", exe, os.path.join(HARN, inst.src), os.path.join(HARN, "replay_main.c")] + compile_sources(inst, work, cc, variant)
    rc, out, _ = sh(cmd, timeout=120)
    if rc != 0: raise Error("native build failed for %s:\n%s" % (inst.name, out[-2000:]))
    return exe

def replay(exe, values, work, tag):
    f = os.path.join(work, "in_%s.txt" % re.sub(r"\W", "_", tag))
    with open(f, "w") as h: h.write("\n".join(map(str, values)) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 79, "REPLAY-HANG"

def reproduced(rc, out, kind):
    if rc == 78: return None
    if rc == 77: return re.search(r"REPLAY-CHECK-FAILED: (.*)", out).group(0)
    if rc == 79: return "does not terminate (native run killed after 20 s)"
    if rc == 86 or "runtime error" in out or "ERROR: AddressSanitizer" in out:
        m = re.search(r"(ERROR: AddressSanitizer: .*|.*runtime error: .*)", out)
        return m.group(1) if m else "sanitizer error"
    if rc < 0 or rc in (134, 136, 139): return "native run died with status %d" % rc
    return None

def run_instance(prop, inst, keep, deadline):
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    t0 = time.time()
    rep = {"instance": inst.name, "bounds": inst.bounds, "violations": [], "unreproduced": [], "error": None}
    try:
        if STOP.is_set(): raise Error("not run: another instance has found a violation")
        gb = compile_goto(inst, work)
        unwind, raised = inst.unwind, {}
        while True:
            left = deadline - time.time()
            if left < 5: raise Error("%s: no time left" % inst.name)
            try: r = run_cbmc(inst, gb, unwind, min(left, inst.timeout or 10**6), raised)
            except NoBody:
                if inst.whole: raise
                inst.whole = True; gb = compile_goto(inst, work); continue
            bad = [p for p in r["props"] if p[2] != "SUCCESS" and not p[1].startswith("COVER: ")]
            unw = [p for p in bad if "unwinding assertion" in p[1]]
            real = [p for p in bad if p not in unw]
            if unw and not real:
                more = {}                # raise the bound of exactly the loops that did not end within it
                for p in unw:
                    m = re.match(r"(.+)\.unwind\.\d+$", p[0]); n = re.search(r"unwinding assertion loop (\d+)", p[1])
                    if m and n: l = "%s.%s" % (m.group(1), n.group(1)); more[l] = r["limits"].get(l, unwind)
                vals = r["traces"].get(unw[0][0])
                if vals is not None and replay(build_native(inst, work, "asan"), vals, work, "unw")[0] == 79: break   # really endless
                if more and len(more) == len(unw) and all(n < MAX_UNWIND for n in more.values()):
                    raised.update({l: min(max(n * 2 + 8, 18), MAX_UNWIND) for l, n in more.items()}); continue
                if len(more) != len(unw) and unwind < MAX_UNWIND:
                    unwind = min(max(unwind * 2 + 8, 18), MAX_UNWIND); continue
            break
        covers = [p for p in r["props"] if p[1].startswith("COVER: ")]
        rep.update(unwind=unwind, wall=r["wall"], solver_s=r["solver_s"], queries=r["queries"], variables=r["variables"],
                   clauses=r["clauses"], steps=r["steps"], functions=sorted(r["functions"]), cmd=r["cmd"].replace(work, "$WORK"),
                   obligations=len(r["props"]) - len(covers), discharged=sum(1 for p in r["props"] if p[2] == "SUCCESS" and p not in covers),
                   witnesses=len(covers), witnesses_validated=0, samples=[])
        # failing assertions: replay against the real code
        for p in (real or unw):
            vals = r["traces"].get(p[0])
            got = None
            if vals is not None:
                for variant in ("asan", "pattern", "zero", "O2"):
                    exe = build_native(inst, work, variant)
                    rc, out = replay(exe, vals, work, p[0])
                    got = reproduced(rc, out, p[1])
                    if got: break
            where = "%s:%s" % p[3] if p[3] else ""
            item = {"property": p[0], "what": p[1], "where": where, "inputs": vals, "native": got}
            if got:
                item["variant"] = variant
                rep["violations"].append(item)
                if len(rep["violations"]) >= 3: break
            else: rep["unreproduced"].append(item)
        if rep["violations"]:
            d = os.path.join(VERIF, "replays", prop, inst.name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for i, it in enumerate(rep["violations"]):
                with open(os.path.join(d, "inputs%d.txt" % i), "w") as f: f.write("\n".join(map(str, it["inputs"])) + "\n")
                it["replay"] = os.path.join(d, "replay%d.sh" % i)
                cfgl = "".join("#undef %s\n#define %s %s\n" % (k, k, v) for k, v in inst.cfg.items())
                with open(it["replay"], "w") as f:
                    f.write("#!/bin/sh\n# %s: %s\n# expected on the violating tree: %s\nset -e\nD=$(dirname \"$0\"); W=$(mktemp -d)\nmkdir $W/cfg\n"
                            "cat > $W/cfg/modbus_config.h <<'X'\n#include \"%s/modbus_config.h\"\n%sX\n" % (prop, it["what"], it["native"], SRC, cfgl))
                    ccs = "gcc -std=gnu11 -w -g -DVP_REPLAY -fsanitize=address,bounds -fno-sanitize-recover=bounds -I $W/cfg " + " ".join(cflags(inst, work)[2:])
                    f.write("for f in $(find %s -name '*.c'); do D=; %s%s -c $D -o $W/$(basename $f).o $f; done\n" % (
                            SRC, "grep -Pqz '(?m)^[\\w \\t*]+\\bcalculate_CRC\\s*\\([^;{()]*\\)\\s*\\{' $f && D=-Dcalculate_CRC=vp_library_CRC; " if inst.abs_crc else "", ccs))
                    f.write("%s -Wl,--unresolved-symbols=ignore-all -o $W/t %s %s $W/*.o\n" % (ccs, os.path.join(HARN, inst.src), os.path.join(HARN, "replay_main.c")))
                    f.write('D=$(dirname "$0")\n')
                    f.write("set +e; ASAN_OPTIONS=detect_leaks=0 $W/t $D/inputs%d.txt; rc=$?; rm -rf \"$W\"; exit $rc\n" % i)
                os.chmod(it["replay"], 0o755)
        # witnesses: must be reachable, and the native run must reach them too
        miss = [p[1] for p in covers if p[2] != "FAILURE"]
        if not rep["violations"]:
            if rep["unreproduced"]:
                u = rep["unreproduced"][0]
                raise Error("%s: counterexample does not reproduce natively: %s (%s) inputs=%s" % (inst.name, u["what"], u["where"], u["inputs"]))
            if not covers: raise Error("%s: harness without a reachability witness" % inst.name)
            if miss: raise Error("%s: unreachable witness: %s" % (inst.name, "; ".join(miss)))
            exe = build_native(inst, work, "asan")
            for p in covers:
                vals = r["traces"].get(p[0])
                if vals is None: continue
                rc, out = replay(exe, vals, work, p[0])
                if "REPLAY-" + p[1] not in out or rc not in (0, 78):
                    raise Error("%s: witness '%s' does not behave natively as encoded (status %d): %s" % (inst.name, p[1], rc, out[-500:]))
                rep["witnesses_validated"] += 1
                if len(rep["samples"]) < 2: rep["samples"].append({"witness": p[1][7:], "inputs": vals[:64]})
    except Error as e:
        rep["error"] = str(e)
    finally:
        if keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
    rep["total_s"] = round(time.time() - t0, 2)
    return rep

def known_findings():
    known = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"^known: property=(\S+) instance=(\S+) check=\"(.*?)\" (.*)$", l.strip())
            if m: known.append(m.groups())
    except FileNotFoundError: pass
    return known

def check(prop, tier, only, keep):
    import instances
    t0 = time.time()
    insts = [i for i in instances.get(prop) if (i.tier == "quick" or tier == "thorough") and (not only or only in i.name)]
    if not insts: print("no instances for", prop); return 2
    limit = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    insts.sort(key=lambda i: -i.weight)
    reps, known = [], known_findings()
    listed = lambda r, v: [x for x in known if x[0] == prop and x[1] == r["instance"] and x[2] in v["what"]]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(run_instance, prop, i, keep, deadline) for i in insts]
        for f in cf.as_completed(futs):
            r = f.result(); reps.append(r)
            if any(not listed(r, v) for v in r["violations"]): STOP.set()
            st = "VIOLATED" if r["violations"] else ("ERROR" if r["error"] else "ok")
            print("  %-9s %-34s %6.1fs unwind=%s assertions=%s witnesses=%s" % (st, r["instance"], r["total_s"], r.get("unwind"), r.get("obligations"), r.get("witnesses")), flush=True)
            if r["error"] and not r["violations"] and not STOP.is_set(): print("     " + r["error"].replace("\n", "\n     "), flush=True)
    reps.sort(key=lambda r: r["instance"])
    viol, kf = [], []
    for r in reps:
        for v in r["violations"]:
            k = listed(r, v)
            (kf if k else viol).append((r, v, k))
    done = [r for r in reps if "obligations" in r]
    funcs = sorted({f for r in done for f in r["functions"]})
    samples = [dict(instance=r["instance"], **s) for r in done for s in r["samples"]][:6]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {
              "explanation": "Bounded symbolic proof: CBMC executes the library's current C sources symbolically together with a harness; "
                             "each assertion is decided by a SAT solver for every value of the symbolic inputs within the instance's bounds "
                             "(unwinding assertions show that no execution is cut off). Witnesses show that the interesting situations are "
                             "reachable; every witness is replayed against a native build of the same sources.",
              "instances": [{"name": r["instance"], "bounds": r["bounds"], "unwind": r["unwind"], "assertions": r["obligations"],
                             "discharged": r["discharged"], "solver_queries": r["queries"], "solver_s": round(r["solver_s"], 2),
                             "sat_variables": r["variables"], "sat_clauses": r["clauses"], "symbolic_steps": r["steps"],
                             "witnesses": r["witnesses"], "witnesses_replayed_natively": r["witnesses_validated"], "cmd": r["cmd"]} for r in done],
              "functions_encoded": funcs, "obligations": sum(r["obligations"] for r in done), "discharged": sum(r["discharged"] for r in done),
              "solver_queries": sum(r["queries"] for r in done), "solver_s": round(sum(r["solver_s"] for r in done), 2),
              "traces_validated_against_impl": sum(r["witnesses_validated"] for r in done), "samples": samples,
              "checker_cmd": "python3 vp.py check %s --tier %s" % (prop, tier)},
          "assumptions": instances.assumptions(prop), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for r, v, k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
    for r, v, k in viol:
        print("  violated: %s [%s at %s]; native run: %s" % (v["what"], r["instance"], v["where"], v["native"]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][1]["replay"]))
        return 1
    if any(r["error"] for r in reps): return 2
    print("%s: held on everything explored (%d instances, %d assertions, %.1f s)" % (prop, len(reps), ev["coverage"]["obligations"], ev["wall_s"]))
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "list"]); ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick"); ap.add_argument("--only"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.cmd == "list":
        import instances
        for p in instances.PROPS:
            for i in instances.get(p): print(p, i.tier, i.name, i.src, i.defs, i.cfg, i.unwind)
        return 0
    return check(a.id, a.tier if a.tier in ("quick", "thorough") else "quick", a.only, a.keep)

if __name__ == "__main__":
    sys.exit(main())
