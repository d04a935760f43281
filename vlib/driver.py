"""Runs the harness programs of one property, reads what their monitors and the sanitizers observed, and judges."""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import build as B
from .specs import SPECS, TARGETS

VERIF = B.VERIF
SUPP = os.path.join(VERIF, "vlib", "tsan.supp")
HARD_LIMIT = {"quick": 780, "thorough": 14400}


class Job:
    def __init__(self, spec, run, seed, scale):
        self.spec, self.run, self.seed, self.scale = spec, run, seed, scale
        self.exe = None

    def describe(self):
        return {"target": self.run["target"], "san": self.run["san"], "args": self.run["args"], "seed": self.seed,
                "scale": self.scale, "env": self.run.get("env", {})}


def load_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res.append({"property": m.group(1), "key": m.group(2), "text": m.group(3)})
    return res


# ---------------------------------------------------------------- sanitizer logs
def _frames(block):
    return re.findall(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)$", block, re.M)


def parse_sanitizer(text):
    """-> list of (key, message, attributed)."""
    out = []
    # TSan
    for blk in re.split(r"={18,}\n", text):
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", blk)
        if m:
            out.append(("tsan", m.group(1), blk))
            continue
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", blk)
        if m:
            if m.group(1) == "LeakSanitizer":
                if "has encountered a fatal error" in blk:
                    continue
                for leak in re.split(r"\n\n", blk):
                    if leak.strip().startswith(("Direct leak", "Indirect leak")):
                        out.append(("lsan", "leak", leak))
            else:
                out.append(("asan", m.group(2).split(" on ")[0].split(" ")[0], blk))
            continue
        m = re.search(r"ERROR: (ThreadSanitizer): (\S+)", blk)
        if m:
            out.append(("tsan", m.group(2), blk))
    for m in re.finditer(r"^(\S+:\d+:\d+): runtime error: ([^\n]*)((?:\n\s+#\d+[^\n]*)*)", text, re.M):
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))
        out.append(("ubsan", kind[:80], m.group(1) + " " + m.group(2) + "\n    #0 at " + m.group(1) + m.group(3)))
    res = []
    for fam, kind, blk in out:
        fr = [f for f in _frames(blk) if B.REPO + "/scalopus" in f]
        names = []
        for f in fr:
            n = re.sub(r"\(.*", "", f.split(" /")[0]).strip()
            if n not in names:
                names.append(n)
        key = "%s:%s:%s" % (fam, kind.replace(" ", "-"), "|".join(n.replace(" ", "") for n in names[:3]))
        res.append((key, blk.strip()[:6000], bool(fr)))
    return res


# ---------------------------------------------------------------- one run
def run_job(job, exe, timeout, scratch_root, stop=None):
    d = tempfile.mkdtemp(prefix="job.", dir=scratch_root)
    rep = os.path.join(d, "report")
    env = dict(os.environ)
    env.update({
        "VH_REPORT": rep, "VH_SEED": str(job.seed), "VH_SCALE": str(job.scale), "VH_SCRATCH": d,
        "HOME": d, "TMPDIR": d, "LTTNG_UST_REGISTER_TIMEOUT": "0", "LTTNG_HOME": d,
        "ASAN_OPTIONS": "log_path=%s/san:detect_leaks=%d:exitcode=99:abort_on_error=0:handle_abort=0:"
                        "allocator_may_return_null=1:max_allocation_size_mb=6000:detect_stack_use_after_return=0"
                        % (d, 1 if job.run.get("leaks", True) else 0),
        "UBSAN_OPTIONS": "log_path=%s/san:print_stacktrace=1:halt_on_error=0" % d,
        "LSAN_OPTIONS": "exitcode=0:max_leaks=20:report_objects=0",
        "TSAN_OPTIONS": "log_path=%s/san:exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=4:"
                        "second_deadlock_stack=1:detect_deadlocks=%d:report_thread_leaks=0:suppressions=%s"
                        % (d, 1 if job.run.get("deadlocks", False) else 0, SUPP),
        "GLIBCXX_FORCE_NEW": "1", "VERIF_DIR": VERIF,
    })
    env.update(job.run.get("env", {}))
    cmd = ([exe] if isinstance(exe, str) else list(exe)) + list(job.run["args"])
    with open(os.path.join(d, "out"), "wb") as so:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.STDOUT,
                             start_new_session=True)
        timed_out = False
        cancelled = False
        deadline = time.time() + timeout
        while True:
            try:
                p.wait(0.5 if stop is not None else timeout)
                break
            except subprocess.TimeoutExpired:
                if stop is not None and stop.is_set():
                    cancelled = True  # another run already found a violation
                    break
                if time.time() >= deadline:
                    timed_out = True
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    res = {"rc": p.returncode, "timed_out": timed_out, "violations": [], "hangs": [], "errors": [], "notes": [],
           "done": None, "children": [], "san": [], "dir": d, "cancelled": cancelled}
    if os.path.exists(rep):
        for l in open(rep, errors="replace"):
            try:
                j = json.loads(l)
            except ValueError:
                continue
            t = j.get("t")
            if t == "violation":
                res["violations"].append((j["key"], j["msg"]))
            elif t == "hang":
                res["hangs"].append((j["key"], j["msg"]))
            elif t == "error":
                res["errors"].append(j["msg"])
            elif t == "note":
                res["notes"].append(j["msg"])
            elif t == "done":
                res["done"] = j
            elif t == "child":
                res["children"].append(j)
    for f in sorted(os.listdir(d)):
        if f.startswith("san."):
            res["san"] += parse_sanitizer(open(os.path.join(d, f), errors="replace").read())
    res["out"] = open(os.path.join(d, "out"), errors="replace").read()[-4000:]
    shutil.rmtree(d, ignore_errors=True)
    return res


def judge(res):
    """-> (list of (key,msg) violations, list of hangs, list of errors)"""
    v = list(res["violations"])
    e = list(res["errors"])
    h = list(res["hangs"])
    fatal_unattributed = None
    for key, msg, attributed in res["san"]:
        if attributed:
            v.append((key, msg))
        elif not key.startswith(("lsan", "tsan")):
            fatal_unattributed = msg
    if res["timed_out"]:
        h.append(("hang:driver-timeout", "the harness did not end in time"))
    if res["cancelled"]:
        return v, [], []
    if res["done"] is None and not v and not h and not e:
        if res["rc"] is not None and res["rc"] < 0:
            sig = -res["rc"]
            if sig == signal.SIGKILL:
                e.append("killed from outside (memory?)")
            else:
                v.append(("crash:" + signal.Signals(sig).name, "process died of signal %d: %s" % (sig, res["out"][-1500:])))
        elif fatal_unattributed:
            e.append("sanitizer report outside the code under test: " + fatal_unattributed[:1500])
        else:
            e.append("harness ended with status %s without a result: %s" % (res["rc"], res["out"][-1500:]))
    return v, h, e


def target_exe(run, san, pool, hh):
    t = TARGETS[run["target"]]
    if t.get("script"):
        return [sys.executable if t["script"].endswith(".py") else "bash", os.path.join(VERIF, "harness", t["script"])]
    return B.build(dict(t, name=run["target"]), san, pool, hh)


def main(pid, tier, seed, only=None):
    t0 = time.time()
    if pid not in SPECS:
        print("unknown property", pid)
        return 2
    spec = SPECS[pid]
    limit = HARD_LIMIT[tier]
    scratch = tempfile.mkdtemp(prefix="vscratch.")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    try:
        return _main(pid, spec, tier, seed, limit, scratch, t0, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(pid, spec, tier, seed, limit, scratch, t0, only):
    jobs = []
    for ri, run in enumerate(spec["runs"]):
        if only and only not in (run["target"] + ":" + run["san"] + ":" + ",".join(run["args"])):
            continue
        if run.get("tiers") and tier not in run["tiers"]:
            continue
        reps = run.get("reps", 1) if tier == "quick" else run.get("treps", 4 * run.get("reps", 1))
        scale = run.get("scale", 1) if tier == "quick" else run.get("tscale", 3 * run.get("scale", 1))
        for k in range(reps):
            jobs.append(Job(spec, run, seed * 100003 + ri * 101 + k * 7919, scale))
    # build everything first
    try:
        hh = B.header_hash()
        with concurrent.futures.ThreadPoolExecutor(8) as pool, concurrent.futures.ThreadPoolExecutor(8) as outer:
            need = sorted({(j.run["target"], j.run["san"]) for j in jobs})
            futs = {n: outer.submit(target_exe, {"target": n[0]}, n[1], pool, hh) for n in need}
            exes = {n: f.result() for n, f in futs.items()}
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    B.prune()
    t_build = time.time() - t0

    sem_lock = threading.Condition()
    cap = [8]
    stop = threading.Event()
    results = []

    findings = [f for f in load_findings() if f["property"] == pid]

    def is_known(key):
        return next((f for f in findings if re.fullmatch(f["key"], key)), None)

    def work(job):
        w = min(job.run.get("weight", 2), 8)
        with sem_lock:
            while cap[0] < w:
                sem_lock.wait()
            cap[0] -= w
        try:
            if stop.is_set():
                return None
            left = limit - (time.time() - t0)
            if left < 20:
                return (job, None)
            r = run_job(job, exes[(job.run["target"], job.run["san"])], min(left, job.run.get("timeout", 400)), scratch, stop)
            v, h, e = judge(r)
            if any(not is_known(k) for k, _ in v):
                stop.set()
            return (job, r, v, h, e)
        finally:
            with sem_lock:
                cap[0] += w
                sem_lock.notify_all()

    order = sorted(jobs, key=lambda j: -j.run.get("cost", 1))
    with concurrent.futures.ThreadPoolExecutor(16) as ex:
        for x in ex.map(work, order):
            if x is not None:
                results.append(x)

    violations, errors, notes, skipped = [], [], [], 0
    counters, distinct, samples, runs = {}, {}, [], []
    unconfirmed = 0
    n_hung = sum(1 for x in results if x[1] is not None and x[3])
    for x in results:
        if x[1] is None:
            skipped += 1
            continue
        job, r, v, h, e = x
        if h and not v and not violations:
            # a hang is believed only when one of the repetitions, run alone, hangs as well
            confirmed = n_hung >= 3  # or when several runs hung independently
            for k in range(0 if confirmed else job.run.get("hang_reruns", 2)):
                left = limit - (time.time() - t0)
                if left < 30:
                    break
                r2 = run_job(job, exes[(job.run["target"], job.run["san"])], min(left, job.run.get("timeout", 400)), scratch)
                v2, h2, e2 = judge(r2)
                if v2:
                    v = v2
                    break
                if h2:
                    confirmed = True
                    break
                if r2["done"] is not None:
                    r = r2
            if confirmed:
                v = h
            elif not v:
                unconfirmed += 1
                notes.append("unconfirmed hang: %s" % (h[0],))
        violations += [(job, k, m) for k, m in v]
        errors += [(job, m) for m in e]
        notes += r["notes"]
        if r["done"]:
            runs.append(job.describe())
            for part in [r["done"]] + r["children"]:
                for k, n in part["counters"].items():
                    counters[k] = counters.get(k, 0) + n
                for k, n in part["distinct"].items():
                    distinct[k] = distinct.get(k, 0) + n
                samples += part["samples"][:2]

    new, known = [], {}
    for job, k, m in violations:
        hit = is_known(k)
        if hit:
            known.setdefault(hit["key"], hit)
        else:
            new.append((job, k, m))
    for f in findings:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, f["text"], "" if f["key"] in known else " (not hit in this run)"))

    ev = sum(counters.get(c, 0) for c in spec["evals"])
    dn = sum(distinct.get(c, 0) for c in spec["distinct"])
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": spec["rule"], "samples": samples[:8],
                     "observed": counters, "distinct_observed": distinct, "runs": len(runs),
                     "run_kinds": sorted({"%s/%s %s" % (r["target"], r["san"], " ".join(r["args"])) for r in runs}),
                     "unconfirmed_hangs": unconfirmed, "skipped_for_time": skipped,
                     "notes": notes[:10], "build_s": round(t_build, 1)},
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if not only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    if new:
        seen = set()
        for i, (job, k, m) in enumerate(new):
            if k in seen or len(seen) >= 6:
                continue
            seen.add(k)
            path = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, len(seen)))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": k, "message": m, "job": job.describe(), "tier": tier}, f, indent=1)
            print("  [%s %s %s seed=%d] %s: %s" % (job.run["target"], job.run["san"], " ".join(job.run["args"]), job.seed, k,
                                                   m[:3000 if os.environ.get("VH_VERBOSE") else 600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for job, m in errors[:4]:
            print("ERROR in %s: %s" % (job.describe(), m))
        return 2
    missing = [n for n in spec.get("need", []) if counters.get(n, 0) + distinct.get(n, 0) == 0] if not only else []
    if missing or (ev == 0 and not only):
        print("ERROR: the monitors observed nothing for: %s" % ", ".join(missing or spec["evals"]))
        return 2
    print("OK property=%s evaluations=%d distinct=%d runs=%d wall=%.1fs (build %.1fs) unconfirmed_hangs=%d" %
          (pid, ev, dn, len(runs), time.time() - t0, t_build, unconfirmed))
    if os.environ.get("VH_VERBOSE"):
        print(json.dumps(counters, indent=1), json.dumps(distinct), notes[:10])
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    job = r["job"]
    hh = B.header_hash()
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        exe = target_exe(job, job["san"], pool, hh)
    run = {"target": job["target"], "san": job["san"], "args": job["args"], "env": job.get("env", {})}
    scratch = tempfile.mkdtemp(prefix="vscratch.")
    try:
        for k in range(5):
            v, h, e = judge(run_job(Job(None, run, job["seed"], job["scale"]), exe, 600, scratch))
            for key, m in v + h:
                print("  %s: %s" % (key, m))
            if v or h:
                print("VIOLATION property=%s replay=%s" % (r["property"], path))
                return 1
            if e:
                print("ERROR", e)
                return 2
        print("not reproduced in 5 attempts")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
