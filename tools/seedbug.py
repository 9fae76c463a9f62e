#!/usr/bin/env python3
"""seedbug.py new ID PROP 'needs' 'what' < edits   (run with the edit already applied in /repo and demo.cc at /tmp/demo.cc)
   seedbug.py try ID [CHECK]   apply, build, test, demo, check, undo"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def stable(out):
    return set(json.load(open(out))["passed"])
cmd, bid = sys.argv[1], sys.argv[2]
d = os.path.join(V, "seeded", bid)
if cmd == "new":
    os.makedirs(d, exist_ok=True)
    p = sh("git -C %s diff" % R).stdout
    assert p.strip(), "no diff"
    open(os.path.join(d, "patch.diff"), "w").write(p)
    shutil.copy(os.path.join(V, "tools/demo_template.sh"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy("/tmp/demo.cc", os.path.join(d, "demo.cc"))
    json.dump(dict(property=sys.argv[3], needs=sys.argv[4], what_it_breaks=sys.argv[5]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh("git -C %s checkout -- ." % R)
    cmd = "try"
    sys.argv = sys.argv[:3]
if cmd == "try":
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else set()
    assert not sh("git -C %s status --porcelain" % R).stdout.strip()
    if not os.path.exists("/tmp/base_pass.json"):
        sh("bash /opt/vp/build.sh", cwd=R); sh("bash /opt/vp/test.sh /tmp/base_pass.json", cwd=R)
    sh("bash /opt/vp/build.sh", cwd=R)
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    print("demo clean: rc", r0.returncode, r0.stdout[-300:] if r0.returncode else "")
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode: print(a.stdout); sys.exit(1)
    try:
        b = sh("bash /opt/vp/build.sh", cwd=R)
        print("build rc", b.returncode, b.stdout[-800:] if b.returncode else "")
        sh("bash /opt/vp/test.sh /tmp/bug_pass.json", cwd=R)
        lost = stable("/tmp/base_pass.json") - stable("/tmp/bug_pass.json")
        print("tests lost:", sorted(lost)[:6])
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        print("demo bug: rc", r1.returncode, r1.stdout[-300:])
        for pid in (sys.argv[3:] or [meta["property"]]):
            c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/check.py %s" % (V, pid))
            print("check %s rc %d" % (pid, c.returncode)); print("\n".join(c.stdout.splitlines()[:6]))
    finally:
        sh("git -C %s checkout -- ." % R)
        sh("bash /opt/vp/build.sh", cwd=R)
    ok = r0.returncode == 0 and b.returncode == 0 and not lost and r1.returncode not in (0, 3)
    print("BUG", bid, "VALID" if ok else "INVALID", "CAUGHT" if c.returncode == 1 else "MISSED")
