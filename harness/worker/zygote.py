"""A process of the application, before it forks: every line on the standard input makes it fork one child.

A warm one has already used the library, as a preloading server does."""
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot                                             # noqa: E402
boot.setup_django("rpc.RpcCache")
import rpc                                              # noqa: E402
import hist                                             # noqa: E402
import webrun                                           # noqa: E402
import islandrun                                        # noqa: E402
from boot import clock                                  # noqa: E402
from sessions import session                            # noqa: E402


def warm_up():
    hist.Case({"cfg": {"iso": "REPEATABLE READ"}, "ops": []})
    for cfg in ({"iso": "REPEATABLE READ", "wiring": "plain", "backend": rpc.RpcPlain}, {"wiring": "global"}):
        c = hist.Case({"cfg": cfg, "ops": []}).sys["default"]
        with c.transaction:
            c.invalidate_tags("warm")
            c.set("warm", 1, ["warm"])
        c.get_or_set_callback("warm2", lambda: 2, ["warm"])
        c.get("warm")
        c.close()
    webrun.run({"cfg": {"site": "split"}, "data": [0], "templates": {}, "fns": [{"var": 0}], "views": [{}],
                "ops": [{"o": "req", "view": 0}, {"o": "inv", "tags": ["T0"]}]})
    rpc.client.own = rpc.Store()


class Hist(object):
    def __init__(self, case, who):
        if case["cfg"].get("wiring") == "plain":
            case["cfg"]["backend"] = rpc.RpcPlain
        self.who = who
        self.case = hist.Case(case)

    def op(self, msg):
        s = msg["op"]["s"]
        self.case.used.add(s)
        self.case.current = s
        return self.within(s, lambda: self.case.top(msg["op"], s))

    def within(self, s, fn):
        if s < self.who["procs"]:        # the first session of a process is its main thread
            return fn()
        return session(s).call(fn)


class Web(object):
    def __init__(self, case, who):
        self.run = webrun.Run(case)

    def op(self, msg):
        run = self.run
        run.data[:] = msg["data"]
        run.calls = msg["calls"]
        r = run.one(msg["op"])
        return {"r": r, "data": run.data, "calls": run.calls}


class Islands(object):
    def __init__(self, case, who):
        self.template = islandrun.Template(case)

    def op(self, msg):
        return self.template.one(msg["op"])


def child(name, no):
    client = rpc.client
    client.connect(name)
    rpc.send(client.sock, ("hello", no, os.getpid()))
    sub = None
    while True:
        try:
            kind, msg = rpc.recv(client.sock)
        except EOFError:
            os._exit(0)
        try:
            clock.now = msg["t"]
            r = None
            if kind == "init":
                who = msg["who"]
                if who.get("host"):
                    disguise(who["host"], who["pid"])
                clock.timers = []
                sub = {"hist": Hist, "web": Web, "islands": Islands}[msg["case"]["sub"]](msg["case"], who)
                clock.now = msg["t"]
            elif kind == "op":
                r = sub.op(msg)
            elif kind == "fire":
                t = [t for t in clock.timers if t.no == msg["no"]][0]
                t.dead = True
                r = t.fire()
            clock.timers = clock.pending()
            out = ("done", r, [(t.due, t.no) for t in clock.timers])
        except EOFError:
            os._exit(0)
        except BaseException:
            out = ("error", traceback.format_exc(), [])
        rpc.send(client.sock, out)


def disguise(host, pid):
    """Another host, as far as a program can tell: containers have equal process ids."""
    import platform
    import socket
    uname = os.uname()
    socket.gethostname = lambda: host
    socket.getfqdn = lambda name="": host
    platform.node = lambda: host
    os.uname = lambda: type(uname)((uname[0], host) + tuple(uname[2:]))
    os.getpid = lambda: pid


def main():
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    if sys.argv[1] == "warm":
        warm_up()
    for line in sys.stdin:
        name, no = line.split()
        if os.fork() == 0:
            try:
                child("\0" + name, int(no))
            except BaseException:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            finally:
                os._exit(1)
    os._exit(0)


main()
