#!/usr/bin/env python3
"""trybug.py ID [--nocheck] [--all CHECKIDS]: applies seeded/ID to /repo, builds, runs the tests and the demo (before and after), runs
the check of its property, and undoes the change."""
import json, os, subprocess, sys, shutil, tempfile, time
V = "/verif"
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def one(bid, check=True, extra=()):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    t = tempfile.mkdtemp(prefix="demo.")
    shutil.copytree(d, t + "/d")
    def demo():
        r = sh("timeout 300 bash %s/d/demo.sh" % t, cwd="/repo")
        return r.returncode, r.stdout[-600:]
    res = {"bug": bid, "property": meta["property"]}
    try:
        if check != "only":
            res["demo_clean"] = demo()[0] if True else None
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: res["apply"] = a.stdout; return res
        if check != "only":
            b = sh("bash /opt/vp/build.sh"); res["build"] = b.returncode
            if b.returncode: res["out"] = b.stdout[-1500:]; return res
            sh("bash /opt/vp/test.sh /tmp/o.json"); o = json.load(open("/tmp/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            res["tests_failed"] = [x for x in o["failed"]]; res["npassed"] = len(o["passed"])
            res["demo_bug"], res["demo_out"] = demo()
        if check:
            for p in [meta["property"]] + list(extra):
                t0 = time.time()
                c = sh("python3 check.py %s" % p, cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED","1"), VERIF_TIER="quick"))
                res["check_" + p] = (c.returncode, round(time.time() - t0), [l[:160] for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("  [") or "ERROR" in l][:3])
        return res
    finally:
        sh("git -C /repo checkout -- . && git -C /repo clean -fdq scalopus_transport scalopus_tracing scalopus_general scalopus_interface scalopus_catapult scalopus_python")
        shutil.rmtree(t, ignore_errors=True)
if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    mode = False if "--nocheck" in sys.argv else "only" if "--only" in sys.argv else True
    ids = args or sorted(os.listdir(V + "/seeded"))
    for b in ids:
        r = one(b, mode)
        print(json.dumps(r, indent=1), flush=True)
    if mode != "only": sh("bash /opt/vp/build.sh")
