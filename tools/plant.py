#!/usr/bin/env python3
"""Development tool, no check: validates planted bugs.   usage: plant.py [--no-tests] [--checks C01,C02] ID...
For each: the demo passes on the unchanged tree, the patch builds, the stable tests pass, the demo fails, and which
checks (default: the one of its property) report it. /repo is restored afterwards."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests = "--no-tests" not in args
args = [a for a in args if a != "--no-tests"]
checks = None
if args and args[0] == "--checks":
    checks, args = args[1].split(","), args[2:]


def sh(cmd, t=900, **kw):
    try:
        r = subprocess.run(cmd, shell=True, cwd="/repo", timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def build():
    return sh("bash /opt/vp/build.sh")


base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in args:
    d = os.path.join(V, "seeded", b)
    if not os.path.exists(d):
        d = os.path.join(V, "extra_bugs", b)
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("git checkout -q -- .")
    assert build()[0] == 0
    rc0, o0 = sh("bash %s/demo.sh" % d, 300)
    rca, oa = sh("git apply %s/patch.diff" % d)
    msg = []
    try:
        if rca:
            print(b, "DOES NOT APPLY", oa)
            continue
        rcb, ob = build()
        if rcb:
            print(b, "DOES NOT BUILD", ob[-1500:])
            continue
        rc1, o1 = sh("bash %s/demo.sh" % d, 300)
        failed = "?"
        if tests:
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            p = json.load(open("/tmp/plant.json"))
            failed = sorted(base - set(p["passed"]))
        print("%s: demo clean %s, patched %s%s; tests missing: %s" % (b, rc0, rc1, "" if rc0 == 0 and rc1 else "   <-- BAD DEMO\n" + o0[-400:] + o1[-400:], failed if failed == "?" else (len(failed), failed[:3])), flush=True)
        for c in checks or [prop]:
            t = time.time()
            rc, o = sh("python3 %s/check.py %s" % (V, c), 1200, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            print("   %s: %s (%.0f s) %s" % (c, "CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "BROKEN rc=%d" % rc, time.time() - t, v[:1] if v else o[-300:] if rc else ""), flush=True)
    finally:
        sh("git checkout -q -- .")
build()
