#!/usr/bin/env python3
"""Confirms planted bugs: seedcheck.py [--no-check] ID...   (leaves /repo as it was)
For each: the patch applies, changes original lines, builds, passes the stable tests, the demo passes without
it and fails with it; then runs the check of its property (VERIF_TIER/VERIF_SEED from the environment)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "042f36a"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seedcheck.json")
    j = json.load(open("/tmp/seedcheck.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"] if "stable" in base else base.get("passed", []))
    return want <= set(j["passed"]), r.stdout


def original(p):
    """some removed line exists in the base commit's version of the file"""
    f, ok = None, False
    for l in open(p, errors="replace"):
        if l.startswith("--- a/"):
            f = sh("git -C %s show %s:%s" % (R, BASE, l[6:].strip())).stdout.split("\n")
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].rstrip("\n") in f:
            ok = True
    return ok


def main():
    chk = "--no-check" not in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "/repo is not clean"
    sh("bash /opt/vp/build.sh")
    good = {}
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        good[i] = sh("cd %s && timeout 300 bash %s/demo.sh" % (R, d)).returncode
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        res = [i, "demo0=%d" % good[i], "orig=%s" % original(d + "/patch.diff")]
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        try:
            if a.returncode:
                res.append("DOES NOT APPLY " + a.stdout)
            else:
                ok, out = tests()
                res.append("tests=%s" % ok)
                r = sh("cd %s && timeout 300 bash %s/demo.sh" % (R, d))
                res.append("demo1=%d%s" % (r.returncode, "" if r.returncode not in (0, 2) else " BAD " + r.stdout[-300:]))
                if chk:
                    t = time.time()
                    props = sys.argv and os.environ.get("PROPS", prop).split(",")
                    for q in props:
                        r = sh("cd %s && python3 run.py %s" % (V, q))
                        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                        res.append("%s rc=%d %s %.0fs" % (q, r.returncode, "CAUGHT" if r.returncode == 1 and any("property=" + q in x for x in v) else "MISSED", time.time() - t))
        finally:
            sh("git -C %s checkout -- ." % R)
        print("  ".join(res), flush=True)
    sh("bash /opt/vp/build.sh")


main()
