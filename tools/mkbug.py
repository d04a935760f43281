"""mkbug(id, property, edits={path:[(old,new)]}, demo=C++ text, groups=[...], needs, breaks): writes seeded/<id>/ against /repo HEAD."""
import json, os, subprocess
V = "/verif"; R = os.environ.get("MKBUG_REPO", "/tmp/r2")
GROUPS = {
 "unix": "scalopus_interface/src/*.cpp scalopus_transport/src/*.cpp",
 "general": "scalopus_general/src/*.cpp",
 "tracing": "scalopus_tracing/src/*.cpp",
 "nop": "scalopus_tracing/src/nop/*.cpp",
 "native": "scalopus_tracing/src/native/*.cpp",
 "lttng": "scalopus_tracing/src/lttng/babeltrace_parser.cpp scalopus_tracing/src/lttng/babeltrace_tool.cpp scalopus_tracing/src/lttng/ctfevent.cpp scalopus_tracing/src/lttng/lttng_provider.cpp scalopus_tracing/src/lttng/lttng_source.cpp",
 "session": "scalopus_catapult/src/trace_session.cpp scalopus_catapult/src/catapult_recorder.cpp",
 "catapult": "scalopus_catapult/src/trace_session.cpp scalopus_catapult/src/catapult_recorder.cpp scalopus_catapult/src/catapult_backend.cpp scalopus_catapult/src/catapult_server.cpp",
}
def mkbug(bid, prop, edits, demo, groups, needs, breaks, flags="", extra_files=None, demo_sh=None, tmo=120):
    d = os.path.join(V, "seeded", bid); os.makedirs(d, exist_ok=True)
    for path, pairs in edits.items():
        p = R + "/" + path; s = open(p).read()
        for a, b in pairs:
            assert s.count(a) == 1, (path, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo is not None: open(d + "/demo.cpp", "w").write(demo)
    for n, c in (extra_files or {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(c)
    srcs = " ".join(GROUPS[g] for g in groups)
    if demo_sh is None:
        demo_sh = """#!/bin/bash
# Builds the demonstration against the sources in the current directory (/repo) and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
inc="-I$here/inc"
for m in interface transport general tracing catapult; do inc="$inc -I$PWD/scalopus_$m/include -I$PWD/scalopus_$m/include_consumer -I$PWD/scalopus_$m/src"; done
inc="$inc -I$PWD/scalopus_tracing/src/native/include -I$PWD/scalopus_tracing/src/nop/include -I$PWD/scalopus_tracing/src/lttng/include"
g++ -std=c++17 -O1 -g -w -pthread %s $inc "$here/demo.cpp" %s -o "$work/demo" -ldl || exit 2
cd "$work"
timeout %d ./demo
""" % (flags, srcs, tmo)
    open(d + "/demo.sh", "w").write(demo_sh)
