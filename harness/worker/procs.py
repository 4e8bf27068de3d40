"""Engine for several processes which share one cache backend.

This process is the hub: it holds the stored data, the clock and the data of
the application; the processes of the case are forked from zygotes.
"""
import os
import signal
import socket
import subprocess
import sys

import boot
import rpc

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ["warm", "cold"]


class Died(Exception):
    pass


class HubError(Exception):
    pass


class Hub(object):
    def __init__(self):
        self.name = "verif-%d-%s" % (os.getpid(), os.urandom(6).hex())
        self.server = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.server.bind("\0" + self.name)
        self.server.listen(16)
        self.server.settimeout(50)
        self.zygotes = {}

    def zygote(self, z):
        if z not in self.zygotes:
            env = dict(os.environ, PYTHONHASHSEED=str(11 + 31 * z))
            self.zygotes[z] = subprocess.Popen(
                [sys.executable, os.path.join(HERE, "zygote.py"), KINDS[z]], stdin=subprocess.PIPE,
                stdout=subprocess.DEVNULL, stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL, env=env)
        return self.zygotes[z]

    def fork(self, wanted):
        """Starts the processes {no: zygote}; returns {no: (socket, pid)}."""
        for no, z in wanted.items():
            p = self.zygote(z).stdin
            p.write(("%s %d\n" % (self.name, no)).encode("ascii"))
            p.flush()
        got = {}
        while len(got) < len(wanted):
            sock, _ = self.server.accept()
            _, no, pid = rpc.recv(sock)
            got[no] = (sock, pid)
        return got


hub = []


class Run(object):
    def __init__(self, case):
        if not hub:
            hub.append(Hub())
        self.case = case
        self.cfg = case["cfg"]
        self.n = self.cfg["procs"]
        self.now = boot.EPOCH
        self.store = rpc.Store()
        self.timers = {}            # (process, its number) -> [due, order]
        self.order = 0
        self.generation = 0
        self.procs = {}
        self.data = list(case.get("data", []))
        self.calls = 0
        self.start({p: self.cfg["zy"][p % len(self.cfg["zy"])] for p in range(self.n)})

    def start(self, wanted):
        for no, pair in hub[0].fork(wanted).items():
            self.procs[no] = pair
        for no in wanted:
            self.generation += 1
            who = {"procs": self.n}
            if self.cfg.get("hosts"):
                who.update(host="host%d" % no, pid=7 if self.generation <= self.n else 7 + self.generation)
            self.ask(no, "init", {"case": self.case_of(no), "who": who})

    def case_of(self, no):
        case = {k: v for k, v in self.case.items() if k != "ops"}
        case["cfg"] = dict(self.cfg)
        case["ops"] = []
        return case

    def ask(self, p, kind, msg, die=None):
        """Lets a process do something, serving its calls of the backend meanwhile; may kill it at one of them."""
        sock, pid = self.procs[p]
        msg["t"] = self.now
        rpc.send(sock, (kind, msg))
        calls = 0
        while True:
            got = rpc.recv(sock)
            if got[0] == "rpc":
                calls += 1
                if die is not None and calls == die[0] + 1:
                    if die[1]:
                        self.store.call(self.now, *got[1])
                    self.kill(p)
                    raise Died()
                rpc.send(sock, self.store.call(self.now, *got[1]))
            elif got[0] == "error":
                raise HubError(got[1])
            else:
                _, r, timers = got
                live = set((p, no) for _, no in timers)
                for k in [k for k in self.timers if k[0] == p and k not in live]:
                    del self.timers[k]
                for due, no in timers:
                    if (p, no) not in self.timers:
                        self.order += 1
                        self.timers[p, no] = [due, self.order]
                return r

    def kill(self, p):
        sock, pid = self.procs.pop(p)
        os.kill(pid, signal.SIGKILL)
        sock.close()
        for k in [k for k in self.timers if k[0] == p]:
            del self.timers[k]

    def restart(self, p):
        self.start({p: self.cfg["zy"][(p + self.generation) % len(self.cfg["zy"])]})

    def advance(self, dt):
        target, log = self.now + dt, []
        while True:
            due = sorted((v, k) for k, v in self.timers.items() if v[0] <= target)
            if not due:
                break
            (at, _), (p, no) = due[0]
            del self.timers[p, no]
            self.now = max(self.now, at)
            log.append([self.now - boot.EPOCH, self.ask(p, "fire", {"no": no})])
        self.now = target
        return log

    def close(self):
        for sock, _ in self.procs.values():
            sock.close()

    # histories

    def keys(self):
        return sorted(self.store.data.get("main", {}))

    def drop(self, raw):
        self.store.data["main"].pop(raw, None)

    def hist(self):
        import hist
        events = []

        def killed(p):
            self.restart(p)
            events.append({"o": "kill", "p": p, "ss": list(range(p, self.n * 2, self.n)), "t": self.now - boot.EPOCH})
        for op in self.case["ops"]:
            o = op["o"]
            if o == "adv":
                events.append(dict(op, timers=self.advance(op["dt"]), t=self.now - boot.EPOCH))
            elif o == "evict":
                ev = dict(op, t=self.now - boot.EPOCH)
                hist.evict(self, op, ev)
                events.append(ev)
            elif o == "kill":
                p = op["p"] % self.n
                self.kill(p)
                killed(p)
            else:
                p = op["s"] % self.n
                try:
                    events.append(self.ask(p, "op", {"op": op}, op.get("die")))
                except Died:
                    events.append(dict(op, x=["Killed", ""], xb=True, t=self.now - boot.EPOCH))
                    killed(p)
        return {"events": events}

    # pages and fragments

    def web(self):
        out = []
        for op in self.case["ops"]:
            if op["o"] == "tick":
                self.advance(op["dt"])
                out.append({"log": []})
            else:
                r = self.ask(op.get("p", 0) % self.n, "op", {"op": op, "data": self.data, "calls": self.calls})
                self.data, self.calls = r["data"], r["calls"]
                out.append(r["r"])
            self.advance(0.01)
        return {"out": out}

    def islands(self):
        out = []
        for op in self.case["ops"]:
            r = self.ask(op.get("p", 0) % self.n, "op", {"op": op})
            if r is None:
                self.advance(op.get("dt", 0))
            else:
                out.append(r)
        return {"out": out}


def run(case):
    r = Run(case)
    try:
        return getattr(r, case["sub"])()
    except BaseException:
        # the zygotes may be out of step
        for z in hub[0].zygotes.values():
            z.kill()
        raise
    finally:
        r.close()
