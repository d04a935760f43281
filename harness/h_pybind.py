# C28, C29: the workloads of h_pybind.cpp. vhctl is the harness; scalopus is the repository's Python package on top of its bindings,
# which are built with a stand-in for pybind11.
import gc
import json
import math
import os
import random
import sys
import threading
import time
import traceback
import weakref

import vhctl
import scalopus_python_lib

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "scalopus_python"))
sys.modules["scalopus.scalopus_python_lib"] = scalopus_python_lib
sys.stdout = sys.stderr

import scalopus  # noqa: E402

R = random.Random(vhctl.seed())
SLOW = vhctl.slow()
lib = scalopus_python_lib


class Stop(Exception):
    pass


def violation(key, text):
    vhctl.violation(key, text[:600])
    raise Stop(key)


def cover(k, n=1):
    vhctl.cover(k, n)


def until(pred, seconds=10.0):
    end = time.monotonic() + seconds * SLOW
    while not pred():
        if time.monotonic() > end:
            return pred()
        time.sleep(0.001)
    return True


class Watch:
    def __init__(self, what, seconds=60):
        self.what = what
        self.ms = int(seconds * 1000)

    def __enter__(self):
        vhctl.watch(self.what, self.ms)

    def __exit__(self, *a):
        vhctl.unwatch(self.what)


# ------------------------------------------------------------------ JSON
def text(n=None):
    k = R.randrange(0, 12) if n is None else n
    return "".join(R.choice(["a", "b", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "\x00", "\x1f", "\x7f", "é", "ß", "漢", "\u2028", "😀",
                             "\uffff", "\U0010ffff", "'"]) for _ in range(k))


INTS = [0, 1, -1, 2, 255, 256, 2**31 - 1, 2**31, -2**31, 2**32, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, 2**63, 2**63 + 1,
        2**64 - 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1e300, -1e-300, 5e-324, 1.5e10, 2.0**53, 123456789.125, 1.7976931348623157e308]


def integer():
    k = R.randrange(4)
    if k == 0:
        return R.choice(INTS)
    if k == 1:
        return R.randrange(-1000, 1000)
    if k == 2:
        return R.randrange(2**63, 2**64)
    return R.randrange(-2**63, 2**63)


def tree(depth=0):
    """A Python value and what it is as JSON."""
    k = R.randrange(10 if depth < 5 else 6)
    if k == 0:
        return None, None
    if k == 1:
        b = R.random() < 0.5
        return b, b
    if k == 2:
        i = integer()
        return i, i
    if k == 3:
        f = R.choice(FLOATS) if R.random() < 0.5 else R.uniform(-1e6, 1e6)
        return f, f
    if k <= 5:
        s = text(R.choice([None, None, None, 300]))
        return s, s
    n = R.choice([0, 1, 2, 3, 5, R.randrange(40) if depth < 2 else 2])
    if k <= 7:
        both = [tree(depth + 1) for _ in range(n)]
        l = [b[0] for b in both]
        return (tuple(l) if R.random() < 0.3 else l), [b[1] for b in both]
    a, b = {}, {}
    for _ in range(n):
        key = text()
        a[key], b[key] = tree(depth + 1)
    return a, b


def same(a, b):
    """Equal, and of equal types."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(type(k) is str for k in a) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def kinds(v, into):
    into.add(type(v).__name__ + (":big" if isinstance(v, int) and v >= 2**63 else ""))
    if isinstance(v, dict):
        for x in v.values():
            kinds(x, into)
    elif isinstance(v, (list, tuple)):
        for x in v:
            kinds(x, into)


def mode_json():
    echo = lib.pybind11_nlohmann_test.echo
    dump = lib.pybind11_nlohmann_test.json_str
    for i in range(1500 * vhctl.scale()):
        value, want = tree()
        seen = set()
        kinds(value, seen)
        for k in seen:
            cover("json_" + k.replace(":", "_"))
        try:
            got = echo(value)
        except Exception as e:
            violation("json-raises", "the conversion of %.200r to JSON and back raises %r" % (value, e))
        if not same(got, want):
            violation("json-round", "%.250r comes back as %.250r" % (value, got))
        try:
            got = json.loads(dump(value))
        except Exception as e:
            violation("json-raises", "the JSON text of %.200r: %r" % (value, e))
        if not same(got, want):
            violation("json-out", "%.250r becomes the JSON %.250r" % (value, got))
        s = json.dumps(want, ensure_ascii=R.random() < 0.5)
        got = vhctl.parse(s)
        if not same(got, want):
            violation("json-in", "the JSON %.250r becomes %.250r" % (s, got))
        cover("trees", 1)
        vhctl.distinct("values", s)
        if i < 2:
            vhctl.sample(s[:200])
        # what JSON cannot express is refused, wherever it is
        bad = R.choice([{1: 2}, {None: 1}, {(1,): 1}, {b"x\xff": 1}, {1.5: 0}, 2**64, -2**63 - 1, 2**200, -2**100, "\ud800", {"\udfff": 1}])
        if isinstance(bad, dict) and list(bad)[0] == b"x\xff":
            continue
        value = R.choice([bad, [bad], {"a": bad}, (1, bad), [[{"x": (bad,)}]]])
        for f in (echo, dump):
            try:
                got = f(value)
            except Exception as e:
                if isinstance(bad, dict) and not isinstance(list(bad)[0], str) and not isinstance(e, TypeError):
                    violation("json-refusal", "a key that is no string raises %r instead of a TypeError" % e)
                cover("refused")
            else:
                violation("json-refusal", "%.200r is accepted and becomes %.200r" % (value, got))
        if echo([1, "x"]) != [1, "x"]:
            violation("json-round", "after a refused value")


# ------------------------------------------------------------------ data
def payload():
    n = R.choice([0, 1, 2, 3, 10, 100, 255, 256, 1000, 5000])
    return bytes(R.randrange(256) for _ in range(n))


def shapes(b):
    """The ways to hand bytes over."""
    out = [b, bytearray(b), list(b), memoryview(b)]
    try:
        out.append(b.decode("utf8"))
    except UnicodeDecodeError:
        pass
    return out


def mode_bytes():
    for i in range(300 * vhctl.scale()):
        b = payload() if R.random() < 0.7 else text().encode("utf8")
        for s in shapes(b):
            try:
                got = vhctl.hex(s)
            except Exception as e:
                violation("data-raises", "%s of %d bytes raises %r" % (type(s).__name__, len(b), e))
            if got != b.hex():
                violation("data-out", "%s %.200r arrives as %.200s" % (type(s).__name__, s, got))
            cover("data_" + type(s).__name__)
        back = vhctl.data(b.hex())
        if type(back) is not bytes or back != b:
            violation("data-in", "%.100r arrives in Python as %.100r" % (b, back))
        cover("payloads")
        vhctl.distinct("values", b.hex()[:400] + str(len(b)))
        bad = R.choice([3, None, 1.5, {}, object(), {"a": 1}, [256], [-1], [1, "x"], [None], set([1])])
        try:
            got = vhctl.hex(bad)
        except Exception:
            cover("refused")
        else:
            violation("data-refusal", "%r is accepted as data and becomes %s" % (bad, got))


# ------------------------------------------------------------------ endpoints
def reply(name, b):
    return name.encode("utf8") + b"<" + bytes(reversed(b)) + b">"


class Answer(scalopus.interface.Endpoint):
    def __init__(self, name):
        scalopus.interface.Endpoint.__init__(self)
        self.name = name
        self.handled = 0
        self.got = []
        self.types = set()
        self.transports = set()
        self.rng = random.Random(R.random())
        self.naps = 0.0
        self.lock = threading.Lock()

    def getName(self):
        return self.name

    def nap(self):
        if self.naps and self.rng.random() < 0.3:
            time.sleep(self.rng.random() * self.naps)

    def handle(self, transport, incoming):
        self.types.add((type(transport).__name__, type(incoming).__name__))
        self.nap()
        with self.lock:
            self.handled += 1
        if incoming[:5] == b"raise":
            raise ValueError("as asked")
        if incoming[:4] == b"none":
            return None
        if incoming[:3] == b"bad":
            return 12.5
        out = reply(self.name, incoming)
        return self.rng.choice([out, bytearray(out), list(out)])

    def unsolicited(self, transport, incoming):
        self.types.add((type(transport).__name__, type(incoming).__name__))
        self.nap()
        with self.lock:
            self.got.append(incoming)
        transport.isConnected()
        return None


def factory(unix):
    return scalopus.transport.TransportUnixFactory() if unix else scalopus.transport.TransportLoopbackFactory()


def connect(f, server):
    """A client of the server."""
    mine = server.getAddress().hash_code()
    for d in f.discover():
        if d.hash_code() == mine:
            c = f.connect(d)
            if c is None:
                violation("connect", "connecting to a live server gives nothing")
            return c
    violation("connect", "the server is not discovered")


def serve(f):
    """A server. A handler that ran while its server went away may have left the destruction to another thread."""
    got = []

    def once():
        s = f.serve()
        if s is not None:
            got.append(s)
        return bool(got)
    if not until(once):
        violation("serve", "cannot serve")
    return got.pop()


def wait(response, seconds=10.0):
    """bytes, None for no answer in time, or the exception"""
    try:
        return response.wait_for(seconds * SLOW if seconds > 1 else seconds)
    except Exception as e:
        return e


def check_reply(name, b, got, how):
    if type(got) is not bytes or got != reply(name, b):
        violation("answer", "the answer to %d bytes (%s) is %.200r" % (len(b), how, got))
    cover("answers")


def mode_endpoint(unix):
    for rnd in range(4 * vhctl.scale()):
        with Watch("deadlock:endpoint", 120):
            f = factory(unix)
            server = serve(f)
            names = ["A", "second", "", "ünï漢"][:R.randrange(1, 5)]
            eps = {n: Answer(n) for n in names}
            for e in eps.values():
                server.addEndpoint(e)
            keep = R.random() < 0.5
            if not keep:
                refs = [weakref.ref(e) for e in eps.values()]
                eps = None
                e = None
                gc.collect()
                if not all(r() is not None for r in refs):
                    violation("endpoint-gone", "an endpoint a transport uses is collected")
            client = connect(f, server)
            client_ep = Answer("bc")
            client.addEndpoint(client_ep)
            # the server knows the client once it has answered it
            b = b"x" + payload()
            check_reply(names[0], b, wait(client.request(names[0], b)), "first")
            vhctl.inject(R.randrange(1, 2**60) if rnd % 2 else 0)
            sent = []
            for i in range(60):
                n = R.choice(names)
                b = payload()
                k = R.randrange(6)
                if k == 0:
                    got = wait(client.request(n, b"raise" + b), 0.02 if R.random() < 0.9 else 0.3)
                    if isinstance(got, bytes):
                        violation("raised", "an endpoint that raised answered %.100r" % got)
                    cover("handlers_raised")
                elif k == 1:
                    got = wait(client.request(n, b"none"), 0.02)
                    if isinstance(got, bytes):
                        violation("none", "an endpoint that returned nothing answered %.100r" % got)
                    cover("handlers_none")
                elif k == 2 and R.random() < 0.3:
                    got = wait(client.request(n, b"bad"), 0.02)
                    if isinstance(got, bytes):
                        violation("bad", "an endpoint that returned a number answered %.100r" % got)
                elif k == 3:
                    got = wait(client.request("nobody", b), 0.02)
                    if isinstance(got, bytes):
                        violation("nobody", "an endpoint that does not exist answered %.100r" % got)
                elif k == 4:
                    vhctl.broadcast(server, "bc", R.choice(shapes(b))) if R.random() < 0.5 else server.broadcast("bc", list(b))
                    sent.append(b)
                elif k == 5 and R.random() < 0.3:
                    for bad in (3, None, {}):
                        try:
                            client.request(n, bad)
                        except ValueError:
                            cover("refused")
                        else:
                            violation("data-refusal", "%r is accepted as data" % (bad,))
                else:
                    s = R.choice(shapes(b))
                    # the stand-ins for the words above
                    if b[:5] == b"raise" or b[:4] == b"none" or b[:3] == b"bad":
                        continue
                    check_reply(n, b, wait(client.request(n, s)), "to %r as %s" % (n, type(s).__name__))
                vhctl.distinct("requests", "%d %s %s" % (k, n, b.hex()[:60]))
            # several at once, from C++ threads and from Python threads
            n = R.choice(names)
            bs = [b"x" + payload() for _ in range(40)]
            for b, got in zip(bs, vhctl.ask(client, n, bs, R.randrange(1, 5), 20000)):
                if got != b"v" + reply(n, b):
                    violation("answer", "asked from C++, the answer is %.200r" % got)
                cover("answers")
            out = {}

            def worker(k):
                c = client if k % 2 else connect(f, server)
                for b in bs[k::4]:
                    out[b] = wait(c.request(n, b), 20)
            ts = [threading.Thread(target=worker, args=(k,)) for k in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for b in bs:
                check_reply(n, b, out.get(b), "from several threads")
            if not until(lambda: len(client_ep.got) >= len(sent)) or client_ep.got != sent:
                violation("broadcast", "%d broadcasts arrive as %d, or changed" % (len(sent), len(client_ep.got)))
            for t in client_ep.types:
                if t != ("Transport", "bytes"):
                    violation("arguments", "an endpoint is called with %s and %s" % t)
            cover("broadcasts", len(sent))
            vhctl.inject(0)
            order = ["client", "server", "eps"]
            R.shuffle(order)
            for o in order:
                if o == "client":
                    client = client_ep = None
                elif o == "server":
                    server = None
                else:
                    eps = None
                gc.collect()
            cover("endpoint_rounds")


# ------------------------------------------------------------------ endpoints made for the servers that are found
def mode_manager(unix):
    for rnd in range(4 * vhctl.scale()):
        with Watch("deadlock:manager", 120):
            f = factory(unix)
            servers = [serve(f) for _ in range(1 if unix else R.randrange(1, 5))]
            for s in servers:
                s.addEndpoint(scalopus.general.EndpointIntrospect())
                s.addEndpoint(Answer("echo"))
                s.addEndpoint(Answer("declined"))
                for n in ("bc", "more"):
                    s.addEndpoint(Answer(n))
            made = []

            def make(name, cls):
                def fun(transport):
                    if type(transport).__name__ != "Transport":
                        violation("arguments", "a factory is called with %r" % transport)
                    e = cls(name)
                    made.append(weakref.ref(e))
                    time.sleep(R.random() * 0.002)
                    return e
                return fun
            m = scalopus.general.EndpointManagerPoll(f)
            m.addEndpointFactory("bc", make("bc", Answer))
            m.addEndpointFactory("declined", lambda t: None)
            if R.random() < 0.3:
                m.setLogger(lambda s: None)
            if rnd % 2:
                m.startPolling(0.005)
            else:
                m.manage()
            vhctl.inject(R.randrange(1, 2**60) if R.random() < 0.5 else 0)
            mine = {s.getAddress().hash_code() for s in servers}

            def view():
                if not rnd % 2:
                    m.manage()
                # the far ends of the loopback transport have addresses of their own
                return {t.getAddress().hash_code(): (t, e) for t, e in m.endpoints().items()
                        if not unix or t.getAddress().hash_code() in mine}

            def ready(names):
                v = view()
                return (v.keys() == mine if unix else len(v) == len(servers)) and all(set(e) == names for t, e in v.values())
            names = {"introspect", "bc"}
            if not until(lambda: ready(names), 15):
                violation("not-found", "the manager has %r" % {k: sorted(e) for k, (t, e) in view().items()})
            for k, (t, e) in view().items():
                if type(e["bc"]) is not Answer:
                    violation("identity", "the endpoint a Python factory made is listed as %r" % (e["bc"],))
                if sorted(e["introspect"].supported()) != sorted(["introspect", "echo", "declined", "bc", "more"]):
                    violation("introspect", "supported() is %r" % e["introspect"].supported())
                b = b"x" + payload()
                check_reply("echo", b, wait(e["bc"].getTransport().request("echo", b)), "through an endpoint of the manager")
                check_reply("echo", b, wait(t.request("echo", b)), "through a transport of the manager")
            gc.collect()
            # broadcasts reach the endpoints made by Python, though nothing in Python holds on to their transports
            sent = []
            for i in range(R.randrange(1, 20)):
                b = payload()
                sent.append(b)
                for s in servers:
                    s.broadcast("bc", list(b))
            t = e = k = None
            gc.collect()
            found = [e["bc"] for t, e in view().values()]
            t = e = None
            if not until(lambda: all(len(x.got) >= len(sent) for x in found)) or any(x.got != sent for x in found):
                violation("broadcast", "%d broadcasts to the endpoints of a manager arrive as %s" % (len(sent), [len(x.got) for x in found]))
            cover("manager_broadcasts", len(sent))
            found = None
            # a factory that is registered later, requests from many threads meanwhile
            stop = threading.Event()
            errors = []

            def look():
                try:
                    while not stop.is_set():
                        for t, e in list(m.endpoints().items()):
                            t.isConnected()
                            if (not unix or t.getAddress().hash_code() in mine) and "bc" in e:
                                b = b"y%d" % R.randrange(10**6)
                                if wait(t.request("echo", b)) != reply("echo", b):
                                    errors.append("a request gets a wrong answer")
                                e["introspect"].supported()
                                cover("manager_requests")
                except Exception as x:
                    errors.append(repr(x))
            ts = [threading.Thread(target=look) for _ in range(3)]
            for t in ts:
                t.start()
            t = None
            m.addEndpointFactory("more", make("more", Answer))
            names.add("more")
            if not until(lambda: ready(names), 15):
                violation("not-found", "after a factory was added the manager has %r" % {k: sorted(e) for k, (t, e) in view().items()})
            for _ in range(R.randrange(4)):
                m.startPolling(0.003)
                time.sleep(R.random() * 0.01)
                m.stopPolling()
            if rnd % 2:
                m.startPolling(0.003)
            stop.set()
            for t in ts:
                t.join()
            t = None
            if errors:
                violation("manager-requests", errors[0])
            how = R.randrange(4)
            if how == 0:
                m.stopPolling()
            if how == 1:
                servers = s = None
                gc.collect()
                if unix and not until(lambda: not view(), 15):
                    violation("not-gone", "the server is gone, the manager lists it")
            m = None
            look = view = ready = None
            gc.collect()
            servers = s = None
            vhctl.inject(0)
            cover("manager_rounds")
            vhctl.distinct("requests", "manager %d %d" % (rnd, how))
            gc.collect()
            if not until(lambda: gc.collect() >= 0 and not any(r() for r in made), 5):
                violation("leak", "endpoints made by Python outlive the manager")


# ------------------------------------------------------------------ destruction while everything is busy
class Chatty(Answer):
    """Uses the transport while it handles."""

    def handle(self, transport, incoming):
        self.nap()
        transport.isConnected()
        transport.getAddress()
        if self.rng.random() < 0.3:
            transport.broadcast("bc", [1, 2, 3])
        if self.rng.random() < 0.1:
            transport.addEndpoint(Answer("x%d" % self.rng.randrange(10)))
        return Answer.handle(self, transport, incoming)


def mode_busy(unix):
    for rnd in range(12 * vhctl.scale()):
        with Watch("deadlock:busy", 60):
            f = factory(unix)
            server = serve(f)
            e = Chatty("A")
            e.naps = 0.002
            server.addEndpoint(e)
            server.addEndpoint(scalopus.general.EndpointProcessInfo())
            clients = []
            for i in range(R.randrange(1, 4)):
                c = connect(f, server)
                ce = Answer("bc")
                ce.naps = 0.002
                c.addEndpoint(ce)
                clients.append(c)
            ce = None
            vhctl.inject(R.randrange(1, 2**60) if rnd % 3 else 0)
            pending = []
            for i in range(R.randrange(1, 60)):
                c = R.choice(clients)
                b = b"x" + payload()[:200]
                pending.append((b, c.request("A", b)))
                cover("busy_requests")
            for i in range(R.randrange(0, 10)):
                server.broadcast("bc", [i])
            some = R.sample(pending, min(len(pending), 4))
            for b, p in some:
                check_reply("A", b, wait(p), "while busy")
            hold = [c] if R.random() < 0.3 else []
            c = None
            # a waiting thread, when the far side goes away
            res = []

            def waiter(p):
                res.append(wait(p, 1.0))
            ts = [threading.Thread(target=waiter, args=(p,)) for b, p in pending[-3:]]
            for t in ts:
                t.start()
            order = [0, 1, 2]
            R.shuffle(order)
            for o in order:
                if o == 0:
                    while clients:
                        clients.pop(R.randrange(len(clients)))
                elif o == 1:
                    server = None
                else:
                    hold = None
                if R.random() < 0.5:
                    time.sleep(R.random() * 0.003)
            for t in ts:
                t.join()
            for x in res:
                if not (x is None or isinstance(x, Exception) or isinstance(x, bytes)):
                    violation("wait", "waiting gives %r" % (x,))
            e = pending = p = some = None
            gc.collect()
            vhctl.inject(0)
            cover("busy_rounds")
            vhctl.distinct("requests", "busy %d" % rnd)


# ------------------------------------------------------------------ C++ endpoints called from Python while Python serves
def mode_builtin(unix):
    for rnd in range(3 * vhctl.scale()):
        with Watch("deadlock:builtin", 90):
            f = factory(unix)
            name = text() + "x"
            server = serve(f)
            server.addEndpoint(scalopus.general.EndpointIntrospect())
            pi = scalopus.general.EndpointProcessInfo()
            pi.setProcessName(name)
            server.addEndpoint(pi)
            server.addEndpoint(scalopus.tracing.EndpointTraceMapping())
            server.addEndpoint(scalopus.tracing.EndpointTraceConfigurator())
            slow = Answer("A")
            slow.naps = 0.003
            server.addEndpoint(slow)
            client = connect(f, server)
            i, p, m, c = (scalopus.general.EndpointIntrospect(), scalopus.general.EndpointProcessInfo(),
                          scalopus.tracing.EndpointTraceMapping(), scalopus.tracing.EndpointTraceConfigurator())
            for e in (i, p, m, c):
                client.addEndpoint(e)
            errors = []

            def work(k):
                try:
                    r = random.Random(k + vhctl.seed())
                    tn = "t%d %d" % (k, rnd)
                    scalopus.general.setThreadName(tn)
                    me = threading.get_ident()
                    for n in range(12):
                        b = b"x%d" % r.randrange(10**9)
                        q = client.request("A", b)
                        if sorted(i.supported()) != sorted(["introspect", "process_info", "scope_tracing", "trace_configurator", "A"]):
                            known = sorted(i.supported())
                            if len(known) != 5 or "A" not in known:
                                errors.append("supported() is %r" % known)
                        info = p.processInfo()
                        if info.pid != os.getpid() or info.name != name or info.threads.get(me) != tn:
                            errors.append("processInfo() is %r %r %r" % (info.pid, info.name, info.threads))
                        tid = r.randrange(2**31)
                        s = "n" + text()
                        scalopus.tracing.setTraceName(tid, s)
                        # the first name of an id stays; ids are not reused here but by chance
                        got = m.mapping()
                        if got.get(os.getpid(), {}).get(tid) != s:
                            errors.append("mapping() has %r for %r" % (got.get(os.getpid(), {}).get(tid), s))
                        on = r.random() < 0.5
                        scalopus.tracing.setThreadState(on)
                        st = c.getTraceState()
                        if not st.cmd_success or st.thread_state.get(me) is not on or scalopus.tracing.getThreadState() is not on:
                            errors.append("getTraceState() is %r, %r was set" % (st.to_dict(), on))
                        new = scalopus.tracing.EndpointTraceConfigurator.TraceConfiguration()
                        new.add_thread_entry(me, not on)
                        st = c.setTraceState(new)
                        if not st.cmd_success or scalopus.tracing.getThreadState() is on:
                            errors.append("setTraceState() has no effect")
                        if wait(q) != reply("A", b):
                            errors.append("a request made meanwhile got no proper answer")
                        cover("builtin_calls", 6)
                except Exception:
                    errors.append(traceback.format_exc())
            ts = [threading.Thread(target=work, args=(k,)) for k in range(3)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errors:
                violation("builtin", errors[0])
            i = p = m = c = e = work = None
            client = None
            server = None
            gc.collect()
            vhctl.distinct("requests", "builtin %d" % rnd)
            cover("builtin_rounds")


# ------------------------------------------------------------------ Python sources of the catapult server
class Source(scalopus.interface.TraceEventSource):
    def __init__(self, provider):
        scalopus.interface.TraceEventSource.__init__(self)
        self.provider = weakref.ref(provider)
        self.calls = ""
        self.events = []
        provider.sources.append(self if provider.strong else weakref.ref(self))

    def startInterval(self):
        self.calls += "S"
        time.sleep(R.random() * 0.002)

    def stopInterval(self):
        self.calls += "P"

    def finishInterval(self):
        self.calls += "F"
        k = R.randrange(8)
        n = R.choice([0, 1, 2, 10, 200])
        out = []
        for i in range(n):
            e = {"ph": "X", "who": self.provider().name if self.provider() else "", "n": i, "v": tree(3)[1], "name": text()}
            out.append(e)
        self.events.append(out)
        p = self.provider()
        if p is not None:
            p.handed.append(out)
        return out if k else tuple(out)


class Provider(scalopus.interface.TraceEventProvider):
    def __init__(self, name, strong):
        scalopus.interface.TraceEventProvider.__init__(self)
        self.name = name
        self.strong = strong
        self.sources = []
        self.handed = []

    def makeSource(self):
        return Source(self)


def spawner():
    """The helper of the repository's tests, whose own way to drop a source refers to a variable that is gone."""
    base = lib.test_helpers.PythonSubclasserSpawner

    class Spawner(base):
        def __init__(self):
            base.__init__(self)

        def stage_destroy(self, ms):
            vhctl.hold_source(self.getSource())
            self.resetSource()
            vhctl.drop_source(ms)

        def join(self):
            vhctl.join_source()
    return Spawner


def mode_provider():
    spawn = spawner()
    for rnd in range(6 * vhctl.scale()):
        with Watch("deadlock:provider", 90):
            strong = R.random() < 0.5
            cat = lib.catapult.CatapultServer()
            logged = []
            if R.random() < 0.7:
                cat.setLogger(logged.append)
            providers = [Provider("p%d" % i, strong) for i in range(R.randrange(1, 4))]
            for p in providers:
                cat.addProvider(p)
            cat.start(port=9000 + rnd)
            if not vhctl.viewer_up():
                violation("server", "the web server does not start")
            for rec in range(R.randrange(1, 4)):
                v = vhctl.viewer_connect("/devtools/browser")
                for p in providers:
                    p.handed.clear()
                vhctl.viewer_text(v, json.dumps({"id": 1, "method": "Tracing.start"}))
                if not until(lambda: len(vhctl.viewer_got(v)) >= 1):
                    violation("viewer", "starting a recording is not answered")
                if R.random() < 0.7:
                    time.sleep(R.random() * 0.01)
                vhctl.viewer_text(v, json.dumps({"id": 2, "method": "Tracing.end"}))

                def done():
                    return any(b"tracingComplete" in g for g in vhctl.viewer_got(v))
                if not until(done, 20):
                    violation("viewer", "the recording does not complete")
                got = []
                for g in vhctl.viewer_got(v):
                    j = json.loads(g)
                    if j.get("method") == "Tracing.dataCollected":
                        got += j["params"]["value"]
                for p in providers:
                    if len(p.handed) != 1:
                        violation("finish", "a Python source is finished %d times" % len(p.handed))
                    want = p.handed[0]
                    have = [e for e in got if e.get("who") == p.name]
                    if not same(have, want):
                        violation("events", "of %d events of a Python source %d arrive, or changed" % (len(want), len(have)))
                    cover("python_events", len(want))
                cover("recordings")
                vhctl.distinct("requests", "provider %d %d %d" % (rnd, rec, len(got)))
            for p in providers:
                for s in p.sources:
                    s = s if strong else s()
                    if s is not None and s.calls[:1] != "S":
                        violation("calls", "a Python source was called %s" % s.calls)
            s = None
            # the last recording may be running when the server goes away
            if R.random() < 0.5:
                v = vhctl.viewer_connect("/devtools/browser")
                vhctl.viewer_text(v, json.dumps({"id": 1, "method": "Tracing.start"}))
                if R.random() < 0.5:
                    vhctl.viewer_text(v, json.dumps({"id": 2, "method": "Tracing.end"}))
                if R.random() < 0.5:
                    time.sleep(R.random() * 0.01)
            if R.random() < 0.5:
                providers = p = None
            cat = None
            gc.collect()
            providers = p = None
            done = None
            gc.collect()
            cover("provider_rounds")
            # destroyed by another thread
            h = spawn()
            p = Provider("x", False)
            h.addProvider(p)
            h.makeSourceFrom()
            ref = p.sources[0]
            gc.collect()
            if ref() is None:
                violation("source-gone", "a source in use is collected")
            h.call()
            if ref().calls != "F":
                violation("calls", "a Python source is not called: %r" % ref().calls)
            h.stage_destroy(R.randrange(3))
            time.sleep(R.random() * 0.004)
            h.join()
            gc.collect()
            if ref() is not None:
                violation("leak", "a source outlives its last user")
            cover("destroyed_elsewhere")


# ------------------------------------------------------------------ Python code that fails when it is called
FAILS = [ValueError("as asked"), KeyError("x"), RuntimeError(), KeyboardInterrupt(), SystemExit(3), StopIteration(), MemoryError(),
         UnicodeDecodeError("utf8", b"x", 0, 1, "no"), GeneratorExit()]


class Odd(Exception):
    def __str__(self):
        raise ValueError("no text")


def fail(r, name):
    cover("failed_" + name)
    raise r.choice(FAILS + [Odd()])


class FailingSource(Source):
    """Does what the provider says in each of its methods."""

    def __init__(self, provider, plan):
        Source.__init__(self, provider)
        self.plan = plan

    def startInterval(self):
        Source.startInterval(self)
        if "start" in self.plan:
            fail(R, "start")

    def stopInterval(self):
        if "stop" in self.plan:
            fail(R, "stop")

    def finishInterval(self):
        if "finish" in self.plan:
            fail(R, "finish")
        if "rubbish" in self.plan:
            cover("failed_rubbish")
            return R.choice([None, 3, "text", {"a": 1}, object(), [2**70], [{1: 2}], [{"a": "\ud800"}], b"", 1.5])
        return Source.finishInterval(self)


class FailingProvider(Provider):
    def __init__(self, name, strong, plan):
        Provider.__init__(self, name, strong)
        self.plan = plan

    def makeSource(self):
        if "make" in self.plan:
            fail(R, "make")
        if "none" in self.plan:
            cover("failed_none")
            return None
        if "wrong" in self.plan:
            cover("failed_wrong")
            return R.choice([3, "source", object(), self])
        return FailingSource(self, self.plan)


PLANS = ["make", "none", "wrong", "start", "stop", "finish", "rubbish", "start stop finish", "start finish", "stop rubbish"]


def mode_failing_catapult():
    for rnd in range(8 * vhctl.scale()):
        with Watch("deadlock:failing", 90):
            cat = lib.catapult.CatapultServer()
            logged = [0]

            def log(s):
                logged[0] += 1
                if R.random() < 0.3:
                    fail(R, "log")
            if R.random() < 0.6:
                cat.setLogger(log)
            good = [Provider("good%d" % i, True) for i in range(R.randrange(1, 3))]
            bad = [FailingProvider("bad%d" % i, True, R.choice(PLANS)) for i in range(R.randrange(1, 4))]
            providers = good + bad
            R.shuffle(providers)
            for p in providers:
                cat.addProvider(p)
            cat.start(port=9400 + rnd)
            if not vhctl.viewer_up():
                violation("server", "the web server does not start")
            for rec in range(R.randrange(1, 4)):
                for p in providers:
                    p.handed.clear()
                v = vhctl.viewer_connect("/devtools/browser")
                vhctl.viewer_text(v, json.dumps({"id": 1, "method": "Tracing.start"}))
                if not until(lambda: len(vhctl.viewer_got(v)) >= 1):
                    violation("viewer", "with a failing source starting a recording is not answered")
                vhctl.viewer_text(v, json.dumps({"id": 2, "method": "Tracing.end"}))
                if not until(lambda: any(b"tracingComplete" in g for g in vhctl.viewer_got(v)), 20):
                    violation("viewer", "with a failing source the recording does not complete")
                got = []
                for g in vhctl.viewer_got(v):
                    j = json.loads(g)
                    if j.get("method") == "Tracing.dataCollected":
                        got += j["params"]["value"]
                for p in good:
                    have = [e for e in got if isinstance(e, dict) and e.get("who") == p.name]
                    if len(p.handed) != 1 or not same(have, p.handed[0]):
                        violation("others", "beside %r, a source is finished %d times and %d of its events arrive" %
                                  ([b.plan for b in bad], len(p.handed), len(have)))
                    cover("others_events", len(have))
                cover("failing_recordings")
                vhctl.distinct("requests", "failing %s" % sorted(b.plan for b in bad))
            cat = None
            providers = good = bad = p = None
            gc.collect()


def mode_failing(unix):
    for rnd in range(5 * vhctl.scale()):
        with Watch("deadlock:failing", 90):
            f = factory(unix)
            server = serve(f)
            server.addEndpoint(scalopus.general.EndpointIntrospect())
            for n in ("echo", "good", "raises", "wrong", "unnamed", "half"):
                server.addEndpoint(Answer(n))
            m = scalopus.general.EndpointManagerPoll(f)

            class Unnamed(Answer):
                def getName(self):
                    fail(R, "name")

            class Mute(Answer):
                def unsolicited(self, transport, incoming):
                    Answer.unsolicited(self, transport, incoming)
                    fail(R, "unsolicited")

            def raises(t):
                fail(R, "factory")

            def wrong(t):
                cover("failed_factory_wrong")
                return R.choice([3, "x", object(), t])

            def half(t):
                """fails at first"""
                if R.random() < 0.7:
                    fail(R, "factory_half")
                return Answer("half")

            def log(s):
                if R.random() < 0.2:
                    fail(R, "manager_log")
            if R.random() < 0.6:
                m.setLogger(log)
            order = [("raises", raises), ("wrong", wrong), ("unnamed", lambda t: Unnamed("unnamed")), ("good", lambda t: Mute("good")), ("half", half)]
            R.shuffle(order)
            for n, fun in order:
                m.addEndpointFactory(n, fun)
            if rnd % 2:
                m.startPolling(0.005)
            mine = server.getAddress().hash_code()

            def listed():
                if not rnd % 2:
                    try:
                        m.manage()
                    except Exception:
                        cover("manage_raised")
                for t, e in m.endpoints().items():
                    if not unix or t.getAddress().hash_code() == mine:
                        return t, e
                return None, {}
            if not until(lambda: "good" in listed()[1] and "half" in listed()[1], 15):
                violation("others", "with failing factories the manager has %r" % sorted(listed()[1]))
            t, e = listed()
            if set(e) - {"introspect"} != {"good", "half"}:
                violation("failed-listed", "the manager lists %r" % sorted(e))
            for i in range(10):
                b = b"x" + payload()
                check_reply("echo", b, wait(t.request("echo", b)), "beside failing factories")
                if i % 3 == 0:
                    got = wait(t.request("echo", b"raise"), 0.02)
                    if isinstance(got, bytes):
                        violation("raised", "an endpoint that raised answered %.100r" % got)
            sent = []
            g = e["good"]
            for i in range(R.randrange(1, 8)):
                b = payload()
                sent.append(b)
                server.broadcast("good", b)
            if not until(lambda: len(g.got) >= len(sent)) or g.got != sent:
                violation("broadcast", "%d broadcasts to an endpoint that raises arrive as %d" % (len(sent), len(g.got)))
            cover("failing_rounds")
            vhctl.distinct("requests", "failing %s %d" % ([n for n, fun in order], rnd % 2))
            t = e = g = listed = None
            m = None
            server = None
            gc.collect()


# ------------------------------------------------------------------ traces through the bindings
def mode_trace():
    T = scalopus.tracing
    lib.test_helpers.clearTraceNames()
    for rnd in range(4 * vhctl.scale()):
        with Watch("deadlock:trace", 90):
            unix = R.random() < 0.5
            f = factory(unix)
            pname = "proc " + text()
            exposer = scalopus.common.DefaultExposer(pname, f)
            m = scalopus.general.EndpointManagerPoll(f)
            native = T.NativeTraceProvider(m)
            if R.random() < 0.5:
                fac = native.factory
            else:
                fac = scalopus.general.weak_provider_endpoint_factory(native)
            m.addEndpointFactory(T.EndpointNativeTraceSender.name, fac)
            m.addEndpointFactory(T.EndpointTraceMapping.name, T.EndpointTraceMapping.factory)
            m.addEndpointFactory(scalopus.general.EndpointProcessInfo.name, scalopus.general.EndpointProcessInfo.factory)
            m.startPolling(0.01)
            mine = exposer.server.getAddress().hash_code()

            def ready():
                return any((not unix or t.getAddress().hash_code() == mine) and len(e) >= 3 for t, e in m.endpoints().items())
            if not until(ready, 15):
                violation("not-found", "the exposer is not found")
            src = native.makeSource()
            src.startInterval()
            logs = {}
            base = "r%d " % rnd

            def work(k):
                r = random.Random(vhctl.seed() * 100 + rnd * 10 + k)
                me = threading.get_ident()
                log = logs.setdefault((me, k), [])
                h = T.TraceContextHelper(base)
                ctr, mark = T.CountEvent(base + "count%d" % k), T.MarkerEvent(base + "mark%d" % k)

                @T.traced(base + "deco")
                def deco(n):
                    log.append(("B", base + "deco"))
                    if n:
                        deco(n - 1)
                    log.append(("E", base + "deco"))
                for i in range(60):
                    q = r.randrange(6)
                    n = r.choice(["a", "b b", "ü", "__len__"])
                    if q == 0:
                        with h(n):
                            log.append(("B", base + n))
                            if r.random() < 0.3:
                                with h("inner"):
                                    log.append(("B", base + "inner"))
                                    log.append(("E", base + "inner"))
                            log.append(("E", base + n))
                    elif q == 1:
                        v = r.choice([0, 1, -1, 2**62, -2**63, 2**63 - 1, r.randrange(-10**6, 10**6)])
                        ctr.count(v)
                        log.append(("C", base + "count%d" % k, v))
                    elif q == 2:
                        lv = r.choice(["g", "p", "t"])
                        {"g": mark.global_, "p": mark.process, "t": mark.thread}[lv]()
                        log.append(("i", base + "mark%d" % k, lv))
                    elif q == 3:
                        deco(r.randrange(3))
                    elif q == 4:
                        with T.ThreadStateSwitcher(False):
                            with h(n):
                                ctr.count(5)
                    else:
                        try:
                            with h(n):
                                log.append(("B", base + n))
                                log.append(("E", base + n))
                                raise KeyError(n)
                        except KeyError:
                            pass
                    cover("trace_points")
                    if r.random() < 0.05:
                        time.sleep(0.001)
            ts = [threading.Thread(target=work, args=(k,)) for k in range(3)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            t = None
            time.sleep(0.6)
            src.stopInterval()
            events = src.finishInterval()
            total = sum(len(l) for l in logs.values())
            by = {}
            seen_counts = {}
            for e in events:
                if e["pid"] != os.getpid() or not str(e["name"]).startswith(base):
                    continue
                by.setdefault(e["tid"], []).append(e)
            have = sum(len(v) for v in by.values())
            if have != total:
                violation("events", "%d of %d events emitted through the bindings are in the recording" % (have, total))
            # threads may have had the same identity, one after the other
            want = {}
            for (tid, k), l in logs.items():
                want.setdefault(tid, []).extend(l)
            for tid, l in want.items():
                es = by.get(tid, [])
                for w, e in zip(l, es):
                    ok = e["ph"] == w[0] and e["name"] == w[1]
                    if ok and w[0] == "i":
                        ok = e["s"] == w[2]
                    if ok and w[0] == "C":
                        ok = w[2] in e["args"].values()
                    if not ok:
                        violation("events", "%r is recorded as %r" % (w, e))
                    cover("trace_events")
                if len(l) != len(es):
                    violation("events", "a thread emitted %d events, %d are recorded" % (len(l), len(es)))
            vhctl.distinct("requests", "trace %d %d" % (rnd, total))
            src = native = fac = None
            m = ready = None
            exposer = None
            gc.collect()
            cover("trace_rounds")


# ------------------------------------------------------------------ the repository's own tests of the bindings
def mode_repo():
    import glob
    import unittest
    lib.test_helpers.PythonSubclasserSpawner = spawner()
    tests = sorted(glob.glob(os.path.join(REPO, "scalopus_python/test/test_*.py")))
    for t in tests:
        with Watch("deadlock:" + os.path.basename(t), 60):
            glob_ = {"__name__": "repo_test", "__file__": t}
            with open(t) as f:
                exec(compile(f.read(), t, "exec"), glob_)
            suite = unittest.TestSuite()
            for v in list(glob_.values()):
                if isinstance(v, type) and issubclass(v, unittest.TestCase):
                    suite.addTests(unittest.defaultTestLoader.loadTestsFromTestCase(v))
            n = suite.countTestCases()
            res = unittest.TextTestRunner(stream=sys.stderr, verbosity=0).run(suite)
            if not res.wasSuccessful():
                violation("repo-test", "%s: %s" % (os.path.basename(t), (res.failures + res.errors)[0][1][-400:]))
            cover("repo_tests", n)
            vhctl.distinct("requests", t)


try:
    name, _, arg = vhctl.mode().partition("-")
    if arg in ("unix", "loopback"):
        globals()["mode_" + name](arg == "unix")
    else:
        globals()["mode_" + vhctl.mode().replace("-", "_")]()
except Stop:
    pass
sys.stderr.flush()
