"""Content-addressed builder: compiles /repo sources and harness programs. Never trusts time stamps."""
import concurrent.futures
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON_H = "/usr/include/python3.12"
OUT = os.path.join(VERIF, "build")

SAN = {
    "plain": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-DVH_ASAN"],
    "tsan": ["-fsanitize=thread", "-DVH_TSAN"],
}
BASE = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread", "-DASIO_STANDALONE"]
WRAPS = ["read", "write", "recv", "send", "sendmsg", "recvmsg", "readv", "writev", "select", "poll", "accept", "accept4",
         "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
         "pthread_rwlock_unlock", "fork", "kill"]

MODULES = ["interface", "transport", "general", "tracing", "catapult"]


class BuildError(Exception):
    pass


def _srcs(pattern):
    return sorted(p for p in glob.glob(os.path.join(REPO, pattern), recursive=True) if os.path.isfile(p))


def group_sources(group):
    if group == "interface":
        return _srcs("scalopus_interface/src/**/*.cpp")
    if group == "transport":
        return _srcs("scalopus_transport/src/**/*.cpp")
    if group == "general":
        return _srcs("scalopus_general/src/**/*.cpp")
    if group == "tracing":  # common part, without any tracepoint backend
        base = os.path.join(REPO, "scalopus_tracing/src")
        return [p for p in _srcs("scalopus_tracing/src/**/*.cpp")
                if os.path.relpath(p, base).split(os.sep)[0] not in ("lttng", "native", "nop")]
    if group == "native":
        return _srcs("scalopus_tracing/src/native/**/*.cpp")
    if group == "nop":
        return _srcs("scalopus_tracing/src/nop/**/*.cpp")
    if group == "lttng":  # consumer side (no lttng-ust tracepoint provider)
        return [p for p in _srcs("scalopus_tracing/src/lttng/**/*.cpp")
                if os.path.basename(p) not in ("lttng_tracepoint.cpp", "scope_tracepoint_lttng.cpp")]
    if group == "lttng_ust":
        return [p for p in _srcs("scalopus_tracing/src/lttng/**/*.cpp")
                if os.path.basename(p) in ("lttng_tracepoint.cpp", "scope_tracepoint_lttng.cpp")]
    if group == "catapult":
        return [p for p in _srcs("scalopus_catapult/src/**/*.cpp")
                if os.path.basename(p) != "scalopus_catapult_server.cpp"]
    if group == "python":
        return _srcs("scalopus_python/lib/*.cpp")
    if group == "native_points":
        # the emitting functions without the scope_tracepoint_native registration
        return [p for p in group_sources("native") if os.path.basename(p) != "scope_tracepoint_native.cpp"]
    if group == "points":
        # the emitting functions of every backend, without what scopes use
        return [p for g in ("nop", "native", "lttng", "lttng_ust") for p in group_sources(g)
                if os.path.basename(p) not in ("scope_tracepoint_native.cpp", "scope_tracepoint_lttng.cpp")]
    raise BuildError("unknown group " + group)


def includes():
    inc = [os.path.join(VERIF, "harness"), os.path.join(VERIF, "shim")]
    for m in MODULES:
        for d in ("include", "include_consumer", "src"):
            p = os.path.join(REPO, "scalopus_" + m, d)
            if os.path.isdir(p):
                inc.append(p)
    for p in ("scalopus_tracing/src/native/include", "scalopus_tracing/src/nop/include",
              "scalopus_tracing/src/lttng/include", "scalopus_tracing/src/native", "scalopus_tracing/src/lttng"):
        inc.append(os.path.join(REPO, p))
    return ["-I" + i for i in inc]


def python_includes():
    return ["-I" + os.path.join(VERIF, "shim_py"), "-I" + os.path.join(REPO, "scalopus_python/lib"), "-I" + PYTHON_H]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def header_hash():
    return tree_hash([os.path.join(REPO, "scalopus_" + m) for m in MODULES] + [os.path.join(VERIF, d) for d in
                                                                               ("harness", "shim", "shim_lttng")])


def tree_hash(roots):
    h = hashlib.sha256()
    pats = []
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")):
                    pats.append(os.path.join(d, f))
    for p in pats:
        h.update(p.encode())
        h.update(_read(p))
    return h.hexdigest()


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode("utf8", "replace")


def _compile(src, flags, hh):
    h = hashlib.sha256()
    h.update(hh.encode())
    h.update(_read(src))
    h.update(src.encode())
    h.update(" ".join(flags).encode())
    obj = os.path.join(OUT, "obj", h.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        rc, out = _run(["clang++"] + flags + ["-c", src, "-o", tmp])
        if rc != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, out[-3000:]))
        os.replace(tmp, obj)
    return obj


def build(target, san, pool, hh=None):
    """target: dict(name, sources (harness files), groups, defs, libs). Returns path of the program."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    hh = hh or header_hash()
    python = "python" in target["groups"]
    phash = tree_hash([os.path.join(REPO, "scalopus_python/lib"), os.path.join(VERIF, "shim_py")]) if python else ""
    flags = BASE + SAN[san] + ["-D" + d for d in target.get("defs", [])] + \
        ["-I" + os.path.join(VERIF, i) for i in target.get("incs", [])] + includes()
    srcs = [os.path.join(VERIF, "harness", s) for s in ["vh.cpp", "wrap.cpp"] + target["sources"]]
    for g in target["groups"]:
        srcs += group_sources(g)
    def uses_python(s):
        return python and ("/scalopus_python/" in s or os.path.basename(s) == "h_pybind.cpp")
    futs = [pool.submit(_compile, s, flags + python_includes(), hh + phash) if uses_python(s) else pool.submit(_compile, s, flags, hh)
            for s in srcs]
    objs = [f.result() for f in futs]
    link = SAN[san] + ["-pthread", "-rdynamic", "-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
    libs = target.get("libs", []) + ["-ldl"]
    key = hashlib.sha256((" ".join(objs) + " ".join(link + libs)).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "bin", "%s-%s-%s" % (target["name"], san, key))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        rc, out = _run(["clang++"] + link + objs + libs + ["-o", tmp])
        if rc != 0:
            raise BuildError("linking %s failed:\n%s" % (target["name"], out[-3000:]))
        os.replace(tmp, exe)
    return exe


def prune(max_bytes=3 << 30):
    """Keep the cache bounded."""
    files = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(OUT, d, "*")):
            try:
                s = os.stat(p)
                files.append((s.st_atime, s.st_size, p))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if total <= max_bytes:
            break
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass
