"""C26: the Python helpers of scalopus, run for real on top of a stand-in for the compiled module that records every call.

Random call trees (nesting, recursion, exceptions of all kinds, generators, many threads sharing the same helpers) are
executed through the helpers; a model of the same tree, which knows nothing of the helpers, says which events each thread
has to produce, which tracing state each point has to see and what value or exception has to come out.
"""
import sys
sys.dont_write_bytecode = True
import collections
import gc
import importlib
import json
import os
import random
import threading
import time
import traceback
import types
import weakref

MODE = sys.argv[1]
SEED = int(os.environ.get("VH_SEED", "1"))
SCALE = float(os.environ.get("VH_SCALE", "1"))
REPO = os.environ.get("VERIF_REPO", "/repo")
report = open(os.environ["VH_REPORT"], "a") if "VH_REPORT" in os.environ else sys.stdout
rlock = threading.Lock()
counters = collections.Counter()
distinct = collections.defaultdict(set)
seen_keys = collections.Counter()


def emit(**kw):
    with rlock:
        report.write(json.dumps(kw) + "\n")
        report.flush()


def violation(key, msg):
    with rlock:
        seen_keys[key] += 1
        if seen_keys[key] > 5:
            return
    emit(t="violation", key=key, msg=msg[:1500])


# ------------------------------------------------------------------ stand-in for the compiled module
class Recorder:
    def __init__(self):
        self.tls = threading.local()
        self.names = {}
        self.lock = threading.Lock()
        self.next_id = 0
        self.rng = random.Random(SEED)

    def log(self):
        if not hasattr(self.tls, "log"):
            self.tls.log = []
        return self.tls.log

    def state(self):
        return getattr(self.tls, "state", True)

    def jitter(self):
        r = self.rng.random()
        if r < 0.02:
            time.sleep(0)
        elif r < 0.022:
            time.sleep(0.0002)


rec = Recorder()


def unique_id():
    with rec.lock:
        rec.next_id += 1
        i = rec.next_id
    rec.jitter()
    return i


def set_name(i, name):
    if not isinstance(i, int) or not isinstance(name, str):
        raise TypeError("setTraceName(): incompatible function arguments.")
    with rec.lock:
        old = rec.names.get(i)
        if old is not None and old != name:
            violation("id-shared", "trace id %r registered as %r and as %r" % (i, old, name))
        rec.names[i] = name
    rec.jitter()


def set_thread_state(s):
    if not isinstance(s, bool):
        raise TypeError("setThreadState(): incompatible function arguments.")
    rec.jitter()
    old = rec.state()
    rec.tls.state = s
    rec.jitter()
    return old


class Backend(types.ModuleType):
    def _event(self, kind, i, *a):
        if not isinstance(i, int):
            raise TypeError("%s: incompatible function arguments." % kind)
        rec.jitter()
        rec.log().append((kind, self.__name__, i, rec.names.get(i)) + a)
        rec.jitter()

    def scope_entry(self, i):
        self._event("B", i)

    def scope_exit(self, i):
        self._event("E", i)

    def mark_event(self, i, level):
        self._event("M", i, level)

    def count_event(self, i, value):
        if not isinstance(value, int):
            raise TypeError("count_event: incompatible function arguments.")
        self._event("C", i, value)


def blank(clsname, **kw):
    return type(clsname, (object,), dict(kw, __init__=lambda self, *a, **k: None))


class Level:
    GLOBAL, PROCESS, THREAD = "G", "P", "T"


class Server:
    def __init__(self):
        self.endpoints = []

    def addEndpoint(self, e):
        self.endpoints.append(e)

    def getAddress(self):
        return "addr"


class UnixFactory:
    def serve(self):
        return Server()


class ProcessInfo:
    """Stand-in for EndpointProcessInfo; how it answers is part of the scenario of the command line tools."""
    name = "process_info"
    factory = staticmethod(lambda *a: None)

    def __init__(self, proc=None):
        self.proc = proc

    def setProcessName(self, n):
        self.process_name = n

    def processInfo(self):
        self.proc["asked"] += 1
        if self.proc["fails"] == "raise":
            raise RuntimeError("No transport provided to endpoint, cannot communicate.")
        if self.proc["fails"] == "silent":
            return InfoResult(0, "", {})
        return InfoResult(self.proc["pid"], self.proc["name"], self.proc["threads"])


class InfoResult:
    def __init__(self, pid, name, threads):
        self.pid, self.name, self.threads = pid, name, dict(threads)

    def to_dict(self):
        return {"pid": self.pid, "name": self.name, "threads": dict(self.threads)}


class Introspect:
    name = "introspect"
    factory = staticmethod(lambda *a: None)

    def __init__(self, proc=None):
        self.proc = proc

    def supported(self):
        if self.proc["introspect_fails"]:
            raise RuntimeError("Failed to send data.")
        return list(self.proc["supported"])


class TraceConfiguration:
    def __init__(self):
        self.process_state = True
        self.set_process_state = False
        self.cmd_success = False
        self.thread_state = {}

    def add_thread_entry(self, tid, state):
        self.thread_state = dict(self.thread_state, **{})
        self.thread_state[tid] = bool(state)

    def to_dict(self):
        return {"set_process_state": self.set_process_state, "process_state": self.process_state,
                "cmd_success": self.cmd_success, "thread_state": dict(self.thread_state)}


class Configurator:
    name = "trace_configurator"
    factory = staticmethod(lambda *a: None)
    TraceConfiguration = TraceConfiguration

    def __init__(self, proc=None):
        self.proc = proc

    def setTraceState(self, new):
        p = self.proc
        p["sets"] += 1
        if p["conf_fails"] == "raise":
            raise RuntimeError("Failed to send data.")
        if p["conf_fails"] == "silent":
            return TraceConfiguration()
        if new.set_process_state:
            p["process_state"] = bool(new.process_state)
        for tid, st in new.thread_state.items():
            if tid in p["states"]:
                p["states"][tid] = bool(st)
        return self.getTraceState()

    def getTraceState(self):
        r = TraceConfiguration()
        r.process_state = self.proc["process_state"]
        r.thread_state = dict(self.proc["states"])
        r.cmd_success = True
        return r


class Transport_:
    def __init__(self, n):
        self.n = n

    def getAddress(self):
        return "<unix:%d>" % self.n


scenario = {"procs": [], "native": [], "general": []}


class Poller:
    """Stand-in for EndpointManagerPoll: offers the endpoints of the scenario for which a factory was registered."""
    def __init__(self, factory):
        self.names = {"introspect"}
        self.managed = False
        scenario["poller"] = self

    def addEndpointFactory(self, name, f):
        self.names.add(name)

    def manage(self):
        self.managed = True

    def startPolling(self, interval):
        self.managed = True

    def stopPolling(self):
        pass

    def setLogger(self, f):
        pass

    def endpoints(self):
        res = {}
        if self.managed:
            for p in scenario["procs"]:
                res[Transport_(p["pid"])] = {n: c(p) for n, c in (("introspect", Introspect), ("process_info", ProcessInfo),
                                                                  ("trace_configurator", Configurator))
                                             if n in p["supported"] and n in self.names}
        return res


class FakeSource:
    def __init__(self, kind):
        self.kind, self.state = kind, "idle"
        scenario["sources"].append(self)

    def startInterval(self):
        self.state = "on"

    def stopInterval(self):
        self.state = "off" if self.state == "on" else self.state

    def finishInterval(self):
        if scenario.get(self.kind + "_fails"):
            raise RuntimeError("failed")
        if self.state == "idle":
            return []
        if self.state == "on":
            self.stopInterval()
        self.state = "idle"
        return list(scenario[self.kind])


class FakeProvider:
    kind = "native"

    def __init__(self, poller):
        self.factory = lambda t: None

    def makeSource(self):
        return FakeSource(self.kind)


class FakeGeneralProvider(FakeProvider):
    kind = "general"


def fake_lib():
    M = types.ModuleType
    lib = M("scalopus.scalopus_python_lib")
    interface, tracing, general, transport, catapult = [M(n) for n in ("interface", "tracing", "general", "transport",
                                                                       "catapult")]
    for n in ("Endpoint", "TraceEventSource", "TraceEventProvider", "Transport", "TransportFactory", "EndpointManager",
              "Destination"):
        setattr(interface, n, blank(n))
    general.EndpointIntrospect = Introspect
    general.EndpointManagerPoll = Poller
    general.GeneralProvider = FakeGeneralProvider
    general.EndpointProcessInfo = ProcessInfo
    general.setThreadName = lambda n: None
    transport.TransportUnixFactory = UnixFactory
    transport.TransportLoopbackFactory = UnixFactory
    catapult.CatapultServer = blank("CatapultServer")
    catapult.CatapultRecorder = blank("CatapultRecorder")
    tracing.MarkLevel = Level
    tracing.setTraceName = set_name
    tracing.uniqueTraceId = unique_id
    tracing.getThreadState = lambda: rec.state()
    tracing.setThreadState = set_thread_state
    tracing.getProcessState = lambda: True
    tracing.setProcessState = lambda s: True
    tracing.EndpointTraceMapping = blank("EndpointTraceMapping", name="scope_tracing", factory=staticmethod(lambda *a: None))
    tracing.EndpointTraceConfigurator = Configurator
    for n in ("native", "nop", "lttng"):
        setattr(tracing, n, Backend(n))
    tracing.native.EndpointNativeTraceSender = blank("EndpointNativeTraceSender", name="native")
    tracing.native.NativeTraceProvider = FakeProvider
    tracing.lttng.LttngProvider = blank("LttngProvider")
    lib.interface, lib.tracing, lib.general, lib.transport, lib.catapult = interface, tracing, general, transport, catapult
    for sub in (interface, tracing, general, transport, catapult):
        sys.modules[lib.__name__ + "." + sub.__name__] = sub
    sys.modules[lib.__name__] = lib
    return lib


fake_lib()
sys.path.insert(0, os.path.join(REPO, "scalopus_python"))
try:
    import scalopus
    from scalopus import tracing as T
    from scalopus import general as G
except Exception as e:
    violation("import", "the package cannot be imported: %s" % traceback.format_exc())
    emit(t="done", counters={"trees": 0}, distinct={}, samples=[])
    sys.exit(0)


# ------------------------------------------------------------------ random programs
class Boom(Exception):
    pass


class Weird(BaseException):
    pass


SCOPES = ["traced", "traced_named", "traced_method", "traced_static", "traced_class", "ctx_shared", "ctx_fresh", "ctx_id",
          "helper_attr", "helper_call", "helper_prefix", "helper_reserved", "enter_exit", "traced_bare", "generator", "gen_close",
          "gen_throw", "marker_scope", "count_scope"]
SUPPS = ["suppressed", "suppressed_method", "switch_shared", "switch_fresh", "switch_enter_exit", "sup_traced", "traced_sup"]
LEAVES = ["probe", "mark", "count"]


class Shared:
    """Helpers shared by every thread and every recursion level of one round."""
    def __init__(self, tag):
        self.tag = tag
        t = tag

        def plain(body, *args, **kw):
            """doc"""
            return ("plain", body(), args, tuple(sorted(kw.items())))
        plain.__name__ = "plain_" + t
        self.traced_fn = T.traced(plain)

        def named(body, *args, default=5, **kw):
            return ("named", body(), args, default, tuple(sorted(kw.items())))
        self.named_fn = T.traced("given name " + t)(named)

        def bare(body):
            return ("bare", body())
        bare.__name__ = "bare_" + t
        self.bare_fn = T.traced()(bare)

        class K(object):
            def __init__(self, v):
                self.v = v

            @T.traced("K.method " + t)
            def method(self, body, *args, **kw):
                return ("method", self.v, body(), args, tuple(sorted(kw.items())))

            @staticmethod
            @T.traced("K.static " + t)
            def static(body, *args, **kw):
                return ("static", body(), args, tuple(sorted(kw.items())))

            @classmethod
            @T.traced("K.class " + t)
            def klass(cls, body, *args, **kw):
                return ("klass", cls.__name__, body(), args, tuple(sorted(kw.items())))

            @T.suppressed
            def quiet(self, body, *args, **kw):
                return ("quiet", self.v, body(), args, tuple(sorted(kw.items())))
        self.K = K

        def silent(body, *args, **kw):
            return ("silent", body(), args, tuple(sorted(kw.items())))
        self.silent_fn = T.suppressed(silent)

        def both(body):
            return ("both", body())
        self.sup_traced = T.suppressed(T.traced("suptraced " + t)(both))
        self.traced_sup = T.traced("tracedsup " + t)(T.suppressed(both))
        self.ctx = [T.TraceContext("ctx%d %s" % (i, t)) for i in range(3)]
        with rec.lock:
            rec.next_id += 1
            self.explicit = rec.next_id + (1 << 20)
        self.helper = T.TraceContextHelper("pre " + t + ".")
        self.switchers = [T.ThreadStateSwitcher(False), T.ThreadStateSwitcher(True)]
        self.marker = T.MarkerEvent("marker " + t)
        self.counter = T.CountEvent("counter " + t)


def gen_tree(rng, depth, leafy):
    """A node is [kind, payload..., children]."""
    n = rng.randint(0, 3) if depth else 0
    kids = []
    for _ in range(n):
        r = rng.random()
        if r < leafy:
            kids.append(("leaf", rng.choice(LEAVES), rng.randint(-2 ** 31, 2 ** 31)))
        elif r < leafy + 0.08:
            kids.append(("raise", rng.choice([Boom, Weird, KeyboardInterrupt, SystemExit, StopIteration, ValueError]),
                         rng.randint(0, 10 ** 9)))
        elif r < leafy + 0.22:
            kids.append(("catch", gen_tree(rng, depth - 1, leafy)))
        elif r < leafy + 0.52:
            kids.append(("supp", rng.choice(SUPPS), rng.random() < 0.7, rng.randint(0, 99), gen_tree(rng, depth - 1, leafy)))
        else:
            kids.append(("scope", rng.choice(SCOPES), rng.randint(0, 99), gen_tree(rng, depth - 1, leafy)))
    return kids


RESERVED = ["prefix", "ctx_type", "__doc__", "__call__", "__init__", "a name with spaces", "a.b", "42", "self", "name"]


def scope_name(sh, kind, n):
    t = sh.tag
    return {"traced": "plain_" + t, "traced_named": "given name " + t, "traced_method": "K.method " + t,
            "traced_static": "K.static " + t, "traced_class": "K.class " + t, "ctx_shared": "ctx%d %s" % (n % 3, t),
            "ctx_fresh": "fresh %d %s" % (n, t), "ctx_id": "explicit " + t, "helper_attr": "attr%d_%s" % (n % 5, t),
            "helper_call": "call%d %s" % (n % 5, t), "helper_prefix": "pre %s.sect%d" % (t, n % 4),
            "helper_reserved": "pre %s.%s" % (t, RESERVED[n % len(RESERVED)]),
            "enter_exit": "ctx%d %s" % (n % 3, t), "traced_bare": "bare_" + t, "generator": "ctx%d %s" % (n % 3, t),
            "gen_close": "ctx%d %s" % (n % 3, t), "gen_throw": "ctx%d %s" % (n % 3, t), "marker_scope": "marker " + t,
            "count_scope": "counter " + t}[kind]


class Exec:
    """Runs a tree through the helpers."""
    def __init__(self, sh, tag):
        self.sh, self.tag = sh, tag
        self.raised = {}
        self.points = 0

    def run(self, kids):
        out = []
        for k in kids:
            out.append(self.node(k))
        return out

    def node(self, k):
        sh = self.sh
        self.points += 1
        if k[0] == "leaf":
            if k[1] == "probe":
                rec.log().append(("S", rec.state()))
                return k[2]
            if k[1] == "mark":
                f = [sh.marker.global_, sh.marker.process, sh.marker.thread][k[2] % 3]
                return f()
            return sh.counter.count(k[2])
        if k[0] == "raise":
            e = k[1](k[2])
            self.raised[k[2]] = e
            raise e
        if k[0] == "catch":
            try:
                return ("ok", self.run(k[1]))
            except BaseException as e:
                if e.args and self.raised.get(e.args[0]) is not e:
                    violation("exception-identity", "another exception came out than was raised: %r" % (e,))
                return ("caught", type(e).__name__, e.args)
        if k[0] == "supp":
            kind, target, n, kids = k[1:]
            body = lambda: self.run(kids)
            if kind == "suppressed":
                return sh.silent_fn(body, n, k=n)
            if kind == "suppressed_method":
                return sh.K(n).quiet(body, n, "x", z=n)
            if kind == "switch_shared":
                with sh.switchers[0 if not target else 1]:
                    return body()
            if kind == "switch_fresh":
                with T.ThreadStateSwitcher(target):
                    return body()
            if kind == "switch_enter_exit":
                s = sh.switchers[0 if not target else 1]
                s.enter()
                try:
                    return body()
                finally:
                    s.exit()
            if kind == "sup_traced":
                return sh.sup_traced(body)
            return sh.traced_sup(body)
        kind, n, kids = k[1:]
        body = lambda: self.run(kids)
        if kind == "traced":
            return sh.traced_fn(body, n, "a", key=n, other=None)
        if kind == "traced_named":
            return sh.named_fn(body, n, k=n)
        if kind == "traced_bare":
            return sh.bare_fn(body)
        if kind == "traced_method":
            return sh.K(n).method(body, 1, x=2)
        if kind == "traced_static":
            return sh.K.static(body, 1, x=2)
        if kind == "traced_class":
            return sh.K.klass(body, 1, x=2)
        if kind == "ctx_shared":
            with sh.ctx[n % 3]:
                return body()
        if kind == "ctx_fresh":
            with T.TraceContext("fresh %d %s" % (n, sh.tag)):
                return body()
        if kind == "ctx_id":
            with T.TraceContext("explicit " + sh.tag, trace_id=sh.explicit):
                return body()
        if kind == "helper_attr":
            with getattr(T.trace_section, "attr%d_%s" % (n % 5, sh.tag)):
                return body()
        if kind == "helper_call":
            with T.trace_section("call%d %s" % (n % 5, sh.tag)):
                return body()
        if kind == "helper_prefix":
            with getattr(sh.helper, "sect%d" % (n % 4)):
                return body()
        if kind == "helper_reserved":
            with sh.helper(RESERVED[n % len(RESERVED)]):
                return body()
        if kind == "enter_exit":
            c = sh.ctx[n % 3]
            c.enter()
            try:
                return body()
            finally:
                c.exit()
        if kind == "marker_scope":
            with sh.marker:
                return body()
        if kind == "count_scope":
            with sh.counter:
                return body()

        # generators; their body runs inside the generator, which is then exhausted, closed or thrown into
        def g():
            with sh.ctx[n % 3]:
                yield box(body)
                yield "second"

        def box(b):
            try:
                return ("v", b())
            except BaseException as e:
                return ("e", e)
        it = g()
        v = next(it)
        if kind == "generator":
            rest = list(it)
            if rest != ["second"]:
                violation("generator", "a generator under a context lost values: %r" % (rest,))
        elif kind == "gen_close":
            it.close()
        else:
            b = Boom("thrown")
            try:
                it.throw(b)
                violation("swallowed", "an exception thrown into a context was swallowed")
            except Boom as e:
                if e is not b:
                    violation("exception-identity", "another exception came out of a generator")
        if v[0] == "e":
            raise v[1]
        return v[1]


class Raised(Exception):
    def __init__(self, cls, arg):
        self.cls, self.arg = cls, arg


class Model:
    """What the same tree has to do, by the meaning of the statements alone."""
    def __init__(self, sh):
        self.sh = sh
        self.events = []
        self.state = True

    def run(self, kids):
        return [self.node(k) for k in kids]

    def node(self, k):
        t = self.sh.tag
        if k[0] == "leaf":
            if k[1] == "probe":
                self.events.append(("S", self.state))
                return k[2]
            if k[1] == "mark":
                self.events.append(("M", "marker " + t, ["G", "P", "T"][k[2] % 3]))
                return None
            self.events.append(("C", "counter " + t, k[2]))
            return None
        if k[0] == "raise":
            raise Raised(k[1], k[2])
        if k[0] == "catch":
            try:
                return ("ok", self.run(k[1]))
            except Raised as e:
                return ("caught", e.cls.__name__, (e.arg,))
        if k[0] == "supp":
            kind, target, n, kids = k[1:]
            if kind in ("suppressed", "suppressed_method", "sup_traced", "traced_sup"):
                target = False
            old = self.state
            name = {"sup_traced": "suptraced " + t, "traced_sup": "tracedsup " + t}.get(kind)
            if name:
                self.events.append(("B", name))
            self.state = target
            try:
                r = self.run(kids)
            finally:
                self.state = old
                if name:
                    self.events.append(("E", name))
            if kind == "suppressed":
                return ("silent", r, (n,), (("k", n),))
            if kind == "suppressed_method":
                return ("quiet", n, r, (n, "x"), (("z", n),))
            if kind in ("sup_traced", "traced_sup"):
                return ("both", r)
            return r
        kind, n, kids = k[1:]
        name = scope_name(self.sh, kind, n)
        self.events.append(("B", name))
        try:
            r = self.run(kids)
        finally:
            self.events.append(("E", name))
        if kind == "traced":
            return ("plain", r, (n, "a"), (("key", n), ("other", None)))
        if kind == "traced_named":
            return ("named", r, (n,), 5, (("k", n),))
        if kind == "traced_bare":
            return ("bare", r)
        if kind == "traced_method":
            return ("method", n, r, (1,), (("x", 2),))
        if kind == "traced_static":
            return ("static", r, (1,), (("x", 2),))
        if kind == "traced_class":
            return ("klass", "K", r, (1,), (("x", 2),))
        return r


def simple(log, backend):
    """Recorded calls as (kind, name, ...), with begin and end ids paired."""
    out, stack = [], []
    for e in log:
        if e[0] == "S":
            out.append(e)
            continue
        if e[1] != backend:
            violation("backend", "an event was sent to backend %r, %r was chosen" % (e[1], backend))
        if e[3] is None:
            violation("name-late", "an event of trace id %r was emitted before it had a name" % (e[2],))
        if e[0] == "B":
            stack.append(e[2])
        elif e[0] == "E":
            if not stack or stack[-1] != e[2]:
                violation("unbalanced", "end of trace id %r (%r) while the open scopes are %r" % (e[2], e[3], stack[-5:]))
            else:
                stack.pop()
        out.append((e[0], e[3]) + e[4:])
    if stack:
        violation("unbalanced", "scopes left open: %r" % ([rec.names.get(i) for i in stack],))
    return out


def one_thread(sh, rng, trees, backend, start):
    start.wait()
    for _ in range(trees):
        tree = gen_tree(rng, rng.randint(2, 7), rng.choice([0.1, 0.3, 0.5]))
        rec.tls.log = []
        rec.tls.state = initial = rng.random() < 0.8
        ex, mo = Exec(sh, sh.tag), Model(sh)
        mo.state = initial
        try:
            want = ("value", mo.run(tree))
        except Raised as e:
            want = ("raise", e.cls.__name__, e.arg)
        try:
            got = ("value", ex.run(tree))
        except BaseException as e:
            got = ("raise", type(e).__name__, e.args[0] if e.args else None)
            if e.args and ex.raised.get(e.args[0]) is not e:
                violation("exception-identity", "another exception came out than was raised: %r\n%s" %
                          (e, traceback.format_exc()))
        if rec.state() != initial:
            violation("state-not-restored", "the thread's tracing state was %r before and %r after the calls of %r" %
                      (initial, rec.state(), tree))
        log = rec.tls.log
        have = simple(log, backend)
        if got != want:
            violation("result", "result %r instead of %r for %r" % (got, want, tree))
        if have != mo.events:
            d = next((i for i, (a, b) in enumerate(zip(have, mo.events)) if a != b), min(len(have), len(mo.events)))
            violation("events" if not (d < min(len(have), len(mo.events)) and have[d][0] == "S" == mo.events[d][0])
                      else "state", "event %d of %d is %r instead of %r for %r" %
                      (d, len(mo.events), have[d:d + 2], mo.events[d:d + 2], tree))
        with rlock:
            counters["trees"] += 1
            counters["events"] += sum(1 for e in have if e[0] != "S")
            counters["probes"] += sum(1 for e in have if e[0] == "S")
            counters["raised" if want[0] == "raise" else "returned"] += 1
            distinct["trees"].add(hash(repr(tree)) & 0xffffffffffff)
            for e in have:
                if e[0] == "S" and not e[1]:
                    counters["probes_off"] += 1


def mode_trees():
    sys.setswitchinterval(1e-5)
    rng = random.Random(SEED * 7919 + 1)
    rounds = max(2, int(24 * SCALE))
    for r in range(rounds):
        threads = 1 if r % 3 == 0 else rng.randint(2, 8)
        backend = rng.choice(["native", "nop", "lttng"])
        T.setBackend(getattr(sys.modules["scalopus.scalopus_python_lib"].tracing, backend))
        sh = Shared("r%d" % r)
        start = threading.Barrier(threads)
        ts = [threading.Thread(target=guarded, args=(one_thread, sh, random.Random(rng.getrandbits(60)), 60, backend, start))
              for _ in range(threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            if t.is_alive():
                emit(t="hang", key="hang:tree", msg="a thread did not finish")
                os._exit(0)
        counters["rounds"] += 1
        counters["threads"] += threads


def mode_deep():
    """Deep self-recursion through each shared helper and many threads in the same suppressed function at once."""
    rng = random.Random(SEED * 104729 + 3)
    sys.setswitchinterval(1e-5)
    for r in range(max(2, int(12 * SCALE))):
        T.setBackend(sys.modules["scalopus.scalopus_python_lib"].tracing.native)
        sh = Shared("d%d" % r)
        for kind in SCOPES + SUPPS:
            depth = rng.randint(2, 40)
            tree = [("leaf", "probe", 1)]
            for i in range(depth):
                if kind in SCOPES:
                    tree = [("scope", kind, i, tree), ("leaf", "probe", 2)]
                else:
                    tree = [("supp", kind, bool(i & 1), i, tree), ("leaf", "probe", 2)]
            if rng.random() < 0.5:
                tree = [("catch", tree + [("raise", Boom, 5)])]
            rec.tls.log, rec.tls.state = [], True
            mo, ex = Model(sh), Exec(sh, sh.tag)
            want = mo.run(tree)
            got = ex.run(tree)
            if got != want:
                violation("result", "%s nested %d deep gave another result" % (kind, depth))
            if simple(rec.tls.log, "native") != mo.events:
                violation("recursion", "%s nested %d deep: wrong events or states" % (kind, depth))
            if rec.state() is not True:
                violation("state-not-restored", "tracing stays %r after %s nested %d deep" % (rec.state(), kind, depth))
            rec.tls.state = True
            counters["deep"] += 1
            distinct["deep"].add((kind, depth))
        # overlapping, not nested, uses by several threads of one shared suppressor, ordered by barriers
        for form in ("fn", "switch", "enter"):
            n = rng.randint(2, 5)
            order = list(range(n))
            rng.shuffle(order)
            initial = [rng.random() < 0.7 for _ in range(n)]
            turn = [threading.Event() for _ in range(n)]
            entered = [threading.Event() for _ in range(n)]
            ended = [threading.Event() for _ in range(n)]
            inside = [None] * n
            after = [None] * n

            def body(i):
                inside[i] = rec.state()
                entered[i].set()
                turn[i].wait(60)
                inside[i] = (inside[i], rec.state())

            def work(i):
                rec.tls.state = initial[i]
                if form == "fn":
                    sh.silent_fn(lambda: body(i))
                elif form == "switch":
                    with sh.switchers[0]:
                        body(i)
                else:
                    sh.switchers[0].enter()
                    body(i)
                    sh.switchers[0].exit()
                after[i] = rec.state()
                ended[i].set()
            ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
            for i, t in enumerate(ts):
                t.start()
                if not entered[i].wait(60):
                    violation("overlap-stuck", "a suppressed call did not begin while another thread was in it")
            for i in order:
                turn[i].set()
                if not ended[i].wait(60):
                    violation("overlap-stuck", "a suppressed call did not end while another thread was in it")
            for i in range(n):
                if inside[i] != (False, False):
                    violation("state", "tracing state %r inside a suppressor shared by %d threads" % (inside[i], n))
                if after[i] != initial[i]:
                    violation("state-not-restored", "thread's tracing state was %r before and %r after a suppressor shared "
                              "with %d other threads" % (initial[i], after[i], n - 1))
            counters["overlaps"] += 1
            distinct["overlaps"].add((form, n, tuple(order), tuple(initial)))


class Provider:
    def __init__(self, truth, fails):
        self.truth, self.fails, self.calls = truth, fails, []

    def factory(self, transport):
        self.calls.append(transport)
        if self.fails:
            raise Boom("factory")
        return ("endpoint", transport)


class FalsyProvider(Provider):
    def __bool__(self):
        return self.truth

    __nonzero__ = __bool__


class SizedProvider(Provider):
    def __len__(self):
        return 1 if self.truth else 0


def mode_weak():
    rng = random.Random(SEED * 31 + 5)
    for r in range(max(20, int(300 * SCALE))):
        provs, factories, alive = [], [], []
        for i in range(rng.randint(1, 5)):
            p = rng.choice([Provider, FalsyProvider, SizedProvider])(rng.random() < 0.5, rng.random() < 0.1)
            if rng.random() < 0.2:
                p.me = p  # part of a cycle: only the collector ends it
            try:
                f = G.weak_provider_endpoint_factory(p)
            except Exception:
                violation("weak-factory", "making a factory failed: %s" % traceback.format_exc())
                return
            provs.append(p)
            factories.append(f)
            alive.append(weakref.ref(p))
        p = None
        for step in range(rng.randint(3, 12)):
            i = rng.randrange(len(provs))
            if rng.random() < 0.3 and provs[i] is not None:
                provs[i] = None
                gc.collect()
                if alive[i]() is not None:
                    violation("weak-kept", "the factory keeps its provider alive")
                counters["providers_gone"] += 1
            tr = object()
            expect_fail = provs[i] is not None and provs[i].fails
            try:
                got = factories[i](tr)
            except Boom:
                if not expect_fail:
                    violation("weak-factory", "the factory raised")
                counters["factory_raised"] += 1
                continue
            except Exception:
                violation("weak-factory", "the factory failed: %s" % traceback.format_exc())
                continue
            if provs[i] is None:
                if got is not None:
                    violation("weak-dead", "the factory of a provider that is gone returned %r" % (got,))
                counters["factory_dead"] += 1
            else:
                if expect_fail:
                    violation("weak-factory", "an exception of the provider's factory was swallowed")
                elif got != ("endpoint", tr) or provs[i].calls[-1] is not tr:
                    violation("weak-live", "the factory of a live %s returned %r" % (type(provs[i]).__name__, got))
                counters["factory_live"] += 1
            distinct["weak"].add((type(provs[i]).__name__, provs[i] is None, getattr(provs[i], "truth", None), step))


# ------------------------------------------------------------------ command line tools
def make_text(rng):
    return "".join(rng.choice(["a", "Z", "0", " ", "/", "\u00e9", "\u4e2d", "-", "_", "{", "}", "%s", "{pid}", "'"])
                   for _ in range(rng.choice([0, 1, 5, 20])))


def make_scenario(rng):
    procs = []
    pids = rng.sample(range(1, 400000), rng.randint(0, 6))
    tids = rng.sample(range(10 ** 6, 2 ** 47), 40)
    for pid in pids:
        threads = {tids.pop(): make_text(rng) for _ in range(rng.choice([0, 0, 1, 3]))}
        unnamed = [tids.pop() for _ in range(rng.choice([0, 0, 2]))]
        supported = ["introspect"] + [n for n, w in (("process_info", 0.85), ("trace_configurator", 0.8), ("scope_tracing", 0.5),
                                                     ("native_trace_sender", 0.4)) if rng.random() < w]
        rng.shuffle(supported)
        traced = [t for t in list(threads) + unnamed if rng.random() < 0.8]
        procs.append(dict(pid=pid, name=make_text(rng), threads=threads, supported=supported, asked=0, sets=0,
                          fails=rng.choice([None] * 6 + ["raise", "silent"]), conf_fails=rng.choice([None] * 6 + ["raise", "silent"]),
                          introspect_fails=rng.random() < 0.05, process_state=rng.random() < 0.7,
                          states={t: rng.random() < 0.7 for t in traced}))
    scenario.clear()
    scenario.update(procs=procs, sources=[], native=[], general=[])
    return procs


def run_cli(args):
    """-> (status, output, exception text)"""
    import io
    import runpy
    old_argv, old_out = sys.argv, sys.stdout
    sys.argv = ["scalopus"] + args
    sys.stdout = out = io.StringIO()
    status, err = "returned", ""
    try:
        runpy.run_path(os.path.join(REPO, "scalopus_python", "scalopus", "__main__.py"), run_name="__main__")
    except SystemExit as e:
        status = e.code
    except BaseException:
        status, err = "exception", traceback.format_exc()
    finally:
        sys.argv, sys.stdout = old_argv, old_out
    return status, out.getvalue(), err


def blocks(text):
    """Splits the listing at the lines that introduce a process."""
    import re
    text = re.sub("\x1b\\[[0-9;]*m", "", text)
    res = []
    for l in text.split("\n"):
        m = re.match(r'PID:\s+(\d+)\s+"(.*)"$', l)
        if m:
            res.append((int(m.group(1)), m.group(2), []))
        elif res:
            res[-1][2].append(l.strip())
    return res


def reachable(p):
    return "process_info" in p["supported"] and not p["fails"]


def mode_cli():
    import re
    rng = random.Random(SEED * 613 + 11)
    for r in range(max(20, int(400 * SCALE))):
        procs = make_scenario(rng)
        what = rng.choice(["discover", "configure", "configure", "record"])
        short = [{k: v for k, v in p.items() if k not in ("asked", "sets")} for p in procs]
        if what == "discover":
            status, out, err = run_cli(["discover"])
            if status != 0:
                violation("cli-failed:discover", "discover ended with %r for %r: %s" % (status, short, err[-700:]))
                continue
            got = blocks(out)
            want = sorted(p["pid"] for p in procs if reachable(p))
            may = [p["pid"] for p in procs if reachable(p) and p["introspect_fails"]]  # unusual: answers half
            if [b[0] for b in got if b[0] not in may] != [x for x in want if x not in may]:
                violation("cli-list", "discover listed %r, the processes that answer are %r: %r" % ([b[0] for b in got], want, short))
            for pid, name, lines in got:
                ps = [p for p in procs if p["pid"] == pid]
                if not ps:
                    violation("cli-bogus", "discover listed process %r that does not exist" % pid)
                    continue
                p = ps[0]
                if name != p["name"]:
                    violation("cli-name", "discover shows %r for process %r" % (name, p["name"]))
                if not p["introspect_fails"]:
                    for n in p["supported"]:
                        if lines.count(n) != 1:
                            violation("cli-endpoint", "endpoint %r of %r shown %d times: %r" % (n, pid, lines.count(n), lines))
                for tid, tname in p["threads"].items():
                    if sum(1 for l in lines if re.match(r'%d\s+"%s"$' % (tid, re.escape(tname)), l)) != 1:
                        violation("cli-thread", "thread %r %r of %r not shown once: %r" % (tid, tname, pid, lines))
                shown = [l for l in lines if re.match(r"\d+\s+\"", l)]
                if len(shown) != len(p["threads"]):
                    violation("cli-thread", "%d threads shown for %r" % (len(shown), p["threads"]))
            counters["discover"] += 1
        elif what == "configure":
            everything = [p["pid"] for p in procs] + [t for p in procs for t in list(p["threads"]) + list(p["states"])]
            ids = rng.sample(everything, min(len(everything), rng.choice([0, 1, 2, 4]))) + \
                ([rng.randint(1, 10 ** 6)] if rng.random() < 0.2 else [])
            rng.shuffle(ids)
            state = rng.choice(["on", "off", None]) if not ids else rng.choice(["on", "off"])
            unmatched = rng.choice([None, None, "on", "off"])
            args = ["trace_configure"] + (["-u", unmatched] if unmatched else []) + ([state] if state else []) + \
                [str(i) for i in ids]
            before = {p["pid"]: (p["process_state"], dict(p["states"])) for p in procs}
            status, out, err = run_cli(args)
            if status != 0:
                violation("cli-failed:trace_configure", "%r ended with %r for %r: %s" % (args, status, short, err[-700:]))
                continue
            listed = {b[0]: b for b in blocks(out)}
            if len(listed) != len(blocks(out)):
                violation("cli-list", "%r showed a process more than once: %r" % (args, [b[0] for b in blocks(out)]))
            # whatever marks a shown id, one mark never stands for both states
            marks = collections.defaultdict(set)
            for p in procs:
                if p["pid"] not in listed:
                    continue
                for key, st in [(p["pid"], p["process_state"])] + [(t, p["states"][t]) for t in p["states"] if t in p["threads"]]:
                    # the rest of the line is set by the name; the mark precedes the id
                    for m in re.finditer(r"(?m)^(?:PID:)?([ \x1b\[0-9;m]*?)(?:(?<=m) *|(?<= ))%d(?!\d)" % key, out):
                        marks[tuple(re.findall("\x1b\\[[0-9;]*m", m.group(1)))].add((st, key))
                lines = listed[p["pid"]][2]
                for tid, tname in p["threads"].items():
                    if sum(1 for l in lines if re.match(r'%d\s+"%s"$' % (tid, re.escape(tname)), l)) != 1:
                        violation("cli-thread", "%r: thread %r %r of %r not shown once: %r" % (args, tid, tname, p["pid"], lines))
            for m, sts in marks.items():
                # green is on, blue is off
                if len({st for st, _ in sts}) > 1 or (True in {st for st, _ in sts}) == ("\x1b[94m" in m) or \
                        (False in {st for st, _ in sts}) == ("\x1b[92m" in m):
                    violation("cli-state", "%r shows states wrongly (%r): %r" % (args, m, sorted(sts, key=repr)))
                counters["states_shown"] += len(sts)
            for p in procs:
                ps, ts = before[p["pid"]]
                ts = dict(ts)
                works = reachable(p) and "trace_configurator" in p["supported"] and not p["conf_fails"]
                if works:
                    if p["pid"] in ids:
                        ps = state == "on"
                    elif unmatched:
                        ps = unmatched == "on"
                    for t in ts:
                        if t in ids and t in p["threads"]:
                            ts[t] = state == "on"
                if (p["process_state"], p["states"]) != (ps, ts):
                    violation("cli-configured", "%r left process %d at %r instead of %r (%r)" %
                              (args, p["pid"], (p["process_state"], p["states"]), (ps, ts), p))
                if (p["pid"] in listed) != works:
                    violation("cli-shown", "%r %s process %d: %r" % (args, "did not show" if works else "showed", p["pid"], p))
            if set(listed) - {p["pid"] for p in procs}:
                violation("cli-bogus", "%r showed a process that does not exist: %r" % (args, sorted(listed)))
            counters["configure"] += 1
            counters["configured_ids"] += len(ids)
        else:
            for k in ("native", "general"):
                scenario[k] = [{"name": make_text(rng), "ts": rng.random() * 1e12, "pid": i, "args": {"k": [i, None, True]}}
                               for i in range(rng.choice([0, 0, 1, 3, 50]))]
            fails = rng.random() < 0.15
            if fails:
                scenario[rng.choice(["native", "general"]) + "_fails"] = True
            naps = [rng.randint(0, 3)]
            real_sleep = time.sleep

            def nap(x):
                if x < 1:
                    return real_sleep(x)
                if naps[0] == 0:
                    raise KeyboardInterrupt()
                naps[0] -= 1
            time.sleep = nap
            try:
                status, out, err = run_cli(["record"])
            finally:
                time.sleep = real_sleep
            if status != 0:
                violation("cli-failed:record", "record ended with %r: %s" % (status, err[-700:]))
                continue
            try:
                got = json.loads(out)
            except ValueError as e:
                violation("cli-json", "record printed something that is not valid json: %s: %r" % (e, out[:300]))
                continue
            if not fails and got != scenario["native"] + scenario["general"] and got != scenario["general"] + scenario["native"]:
                violation("cli-events", "record printed %d events, %d were recorded" %
                          (len(got), len(scenario["native"]) + len(scenario["general"])))
            counters["record"] += 1
            counters["recorded"] += len(got) if isinstance(got, list) else 0
        distinct["cli"].add(hash(repr(short)) & 0xffffffffffff)


def guarded(f, *a):
    try:
        f(*a)
    except BaseException:
        tb = traceback.format_exc()
        if REPO in tb:
            violation("helper-raised", "a helper raised on its own account: %s" % tb)
        else:
            emit(t="error", msg=tb)


guarded({"trees": mode_trees, "deep": mode_deep, "weak": mode_weak, "cli": mode_cli}[MODE])
emit(t="done", counters=dict(counters), distinct={k: len(v) for k, v in distinct.items()}, samples=[])
