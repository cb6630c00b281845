#!/usr/bin/env python3
"""Builds and validates the planted bugs of tools/seeds.py: each must build, pass the repository's stable tests, and its
demonstration must pass without and fail with the change. Validated ones are written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
import seeds
BASE = "a00673d"
def sh(c, cwd=None, t=300):
    try: p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired: return 124, "timeout"
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = stable.get("stable") or stable.get("passed") or stable.get("tests") or stable
def tests_ok(dst):
    """build.sh and test.sh work on /repo; the change is applied there and undone."""
def orig_lines(f):
    rc, o = sh("git -C /repo show %s:%s" % (BASE, f)); return {l.strip() for l in o.splitlines()} if rc == 0 else set()
def main():
    pick = sys.argv[1:]
    for s in seeds.SEEDS:
        if pick and s["id"] not in pick: continue
        if not pick and os.path.exists(os.path.join(V, "seeded", s["id"], "patch.diff")): continue
        w = tempfile.mkdtemp(prefix="seed_")
        try:
            demo = os.path.join(w, "demo"); os.makedirs(demo)
            for f in ("d.h", "demo.sh"): shutil.copy(os.path.join(V, "tools/seedlib", f), demo)
            open(os.path.join(demo, "demo.c"), "w").write('#include "d.h"\nvoid demo(void)\n{\n%s\n}\n' % s["demo"].strip("\n") if "void demo" not in s["demo"] else '#include "d.h"\n' + s["demo"])
            os.chmod(os.path.join(demo, "demo.sh"), 0o755)
            rc, o = sh("sh %s/demo.sh" % demo, "/repo")
            if rc: print(s["id"], "REJECT demo fails on unchanged tree:", o[-400:]); continue
            bad = None
            for f, a, b in s["edits"]:
                p = "/repo/" + f; t = open(p).read()
                if t.count(a) != 1: bad = "edit matches %d times: %r" % (t.count(a), a); break
                open(p, "w").write(t.replace(a, b))
            if bad: print(s["id"], "REJECT", bad); continue
            rc, diff = sh("git -C /repo diff")
            cur, ok = None, True
            for l in diff.splitlines():
                if l.startswith("--- a/"): cur = orig_lines(l[6:])
                elif l.startswith("-") and not l.startswith("---") and l[1:].strip() not in cur: print(s["id"], "touches a line that is not original:", l); ok = False
            if not ok: continue
            rc, o = sh("bash /opt/vp/build.sh", "/repo")
            if rc: print(s["id"], "REJECT does not build", o[-500:]); continue
            sh("bash /opt/vp/test.sh %s/out.json" % w, "/repo")
            res = json.load(open(w + "/out.json"))
            passed = set(res.get("passed", []))
            missing = [x for x in stable if x not in passed]
            if missing: print(s["id"], "REJECT tests fail:", missing[:6]); continue
            rc, o = sh("sh %s/demo.sh" % demo, "/repo")
            if rc in (0, 3): print(s["id"], "REJECT demo does not fail with the change", rc, o[-300:]); continue
            d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); shutil.copytree(demo, d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(s["id"], "OK:", o.strip().splitlines()[-1][:150] if o.strip() else rc)
        finally:
            sh("git -C /repo checkout -- ."); shutil.rmtree(w)
    sh("bash /opt/vp/build.sh", "/repo")
main()
