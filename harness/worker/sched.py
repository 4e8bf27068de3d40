"""Engine for concurrent programs under a controlled schedule.

Threads run the real library code on a shared cache backend and a simulated
snapshot-isolated database. Exactly one thread runs at a time; control may
pass to another one at every step of the programs and, in the mode "calls",
before every call of the cache backend.
"""
import threading

import django.core.cache
from cache_dependencies import locks, relations, tagging, transaction

import boot
from boot import clock, hook, exc_info
import fresh
from hist import Django, Plain
import vbackends
from sessions import session

tl = threading.local()


class Schedule(object):
    """plan: [[gap, target], ...]: after `gap` points control passes to the target-th other thread."""

    def __init__(self, n, plan, first=0):
        self.n = n
        self.plan = [list(p) for p in plan]
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.done = set()
        self.finished = threading.Semaphore(0)
        self.points = 0
        self.first = first
        self.switches = 0

    def others(self, tid):
        return [t for t in [(tid + i) % self.n for i in range(1, self.n)] if t not in self.done]

    def point(self, name):
        tid = getattr(tl, "tid", None)
        if tid is None:
            return
        self.points += 1
        if not self.plan:
            return
        p = self.plan[0]
        if p[0] > 0:
            p[0] -= 1
            return
        self.plan.pop(0)
        rest = self.others(tid)
        if not rest:
            return
        nxt = rest[p[1] % len(rest)]
        self.switches += 1
        self.turn[nxt].release()
        self.turn[tid].acquire()

    def enter(self, tid):
        tl.tid = tid
        self.turn[tid].acquire()

    def leave(self, tid):
        tl.tid = None
        self.done.add(tid)
        rest = self.others(tid)
        if rest:
            self.turn[rest[0]].release()
        else:
            self.finished.release()

    def start(self):
        self.turn[self.first % self.n].release()
        self.finished.acquire()


class Run(object):
    def __init__(self, case, plan, first=0):
        self.case = case
        cfg = case["cfg"]
        vbackends.locmem_reset()
        clock.reset()
        hook.reset()
        iso, delay = cfg["iso"], cfg.get("delay", 0)
        if cfg.get("wiring") == "plain":
            self.sys = Plain(iso, delay, True, cfg.get("raw", False))
        else:
            self.sys = Django(iso, delay, cfg.get("wiring") == "proxy", {})
        self.n = len(case["threads"])
        self.sched = Schedule(self.n, plan, first)
        self.events = []
        self.q = 0
        self.ids = 0
        self.keys = case["keys"]
        self.db = {}                      # cell -> [[commit time, version], ...]
        self.dbtime = 0
        self.open = {}                    # thread -> database transaction
        self.txno = 0
        self.finishing = 0
        self.writers = sum(1 for p in case["threads"] if writes(p))

    def tick(self):
        self.q += 1
        return self.q

    def log(self, e, **kw):
        kw["e"] = e
        kw.setdefault("q", self.tick())
        self.events.append(kw)
        return kw

    # -------------------------------------------------------------- database
    def snapshot(self, cell, at):
        v = 0
        for t, w in self.db.get(cell, ()):
            if t <= at:
                v = w
        return v

    def cell(self, tid, cell):
        tx = self.open.get(tid)
        if tx is None:
            return self.snapshot(cell, self.dbtime)
        if cell in tx["writes"]:
            return tx["writes"][cell]
        if self.case["cfg"]["iso"] in ("REPEATABLE READ", "SERIALIZABLE"):
            return self.snapshot(cell, tx["at"])
        return self.snapshot(cell, self.dbtime)

    # -------------------------------------------------------------- programs
    def run(self):
        for i in range(self.n):
            session(i).post(lambda i=i: self.thread(i))
        hook.sched = self.sched if self.case["cfg"].get("points") == "calls" else None
        try:
            self.sched.start()
            for i in range(self.n):
                session(i).wait()
        finally:
            hook.sched = None
        self.peek()
        for i in range(self.n):
            session(i).call(self.close)
        clock.reset()
        return self.events

    def close(self):
        try:
            self.sys["default"].close()
        except Exception:
            pass

    def thread(self, tid):
        self.sched.enter(tid)
        try:
            self.cache = None
            self.steps(self.case["threads"][tid], tid)
        except Exception as e:
            self.log("x", what="a step", x=exc_info(e))
        finally:
            self.open.pop(tid, None)
            self.sched.leave(tid)

    def steps(self, prog, tid):
        for op in prog:
            self.sched.point("step")
            getattr(self, "do_" + op["o"])(op, tid)

    def do_adv(self, op, tid):
        if op["dt"] > 1 and self.open:
            return                       # long pauses only between the transactions: locks live for seconds
        if self.finishing and self.writers > 1 and not self.case["cfg"].get("ticks"):
            return
        if op["dt"] <= 1 and clock.now - boot.EPOCH - getattr(self, "base", 0) + op["dt"] > 5.5:
            if self.open:
                return
        if not self.open:
            self.base = clock.now + op["dt"] - boot.EPOCH
        clock.advance(op["dt"])

    def do_tx(self, op, tid):
        c = self.sys["default"]
        outer = self.open.get(tid)
        if outer is not None:            # savepoint
            with c.transaction:
                self.steps(op["body"], tid)
            return
        c.transaction.begin()
        self.sched.point("begin")
        self.txno += 1
        tx = {"no": self.txno, "at": self.dbtime, "writes": {}, "tags": set()}
        self.open[tid] = tx
        self.steps(op["body"], tid)
        self.sched.point("commit")
        rolled = bool(op.get("rollback"))
        if not rolled and any(t > tx["at"] for cell in tx["writes"] for t, w in self.db.get(cell, ())):
            rolled = True                # write conflict
        if not rolled and tx["writes"]:
            self.dbtime += 1
            for cell, v in sorted(tx["writes"].items()):
                self.db.setdefault(cell, []).append([self.dbtime, v])
            self.log("commit", tx=tx["no"], cells=sorted(tx["writes"].items()))
        # the database transaction is over; the cache transaction still open
        tx["over"] = True
        self.sched.point("finish")
        q0 = self.tick()
        self.finishing += 1
        try:
            c.transaction.finish()
        finally:
            self.finishing -= 1
            del self.open[tid]
        self.log("end", tx=tx["no"], q0=q0, tags=sorted(tx["tags"]), rolled=rolled)
        self.peek()

    def do_write(self, op, tid):
        """Changes the data of a tag; the tag is invalidated before and/or after."""
        c = self.sys["default"]
        tx = self.open.get(tid)
        if tx is None:
            return
        tag = op["tag"]
        if op["inv"] in ("before", "both"):
            self.invalidate(c, tx, tag)
            self.sched.point("between")
        self.ids += 1
        tx["writes"][tag] = self.ids
        self.log("write", tx=tx["no"], cell=tag, v=self.ids)
        if op["inv"] in ("after", "both"):
            self.sched.point("between")
            self.steps(op.get("body", []), tid)
            self.invalidate(c, tx, tag)

    def invalidate(self, c, tx, tag):
        c.invalidate_tags(tag)
        tx["tags"].add(tag)

    def do_inv(self, op, tid):
        tx = self.open.get(tid)
        if tx is not None:
            self.invalidate(self.sys["default"], tx, op["tag"])

    def do_read(self, op, tid):
        self.read(self.sys["default"], op["k"], abort=True)

    def read(self, c, k, abort):
        q = self.tick()
        val = c.get(k, self, None, abort)
        if val is self:
            return None
        self.log("hit", k=k, val=val, q=q)
        return val

    def do_calc(self, op, tid):
        if self.open.get(tid) is None:
            return                       # readers use transactions
        self.calc(op["k"], tid, 0)

    def calc(self, k, tid, depth):
        c = self.sys["default"]
        val = self.read(c, k, False)
        if val is not None:
            return val
        spec = self.keys[k]
        cells = {}
        for tag in spec["tags"]:
            self.merge(cells, tag, self.cell(tid, tag))
        if depth < 2:
            for kid in spec["kids"]:
                sub = self.calc(kid, tid, depth + 1)
                for cell, v in sub["cells"]:
                    self.merge(cells, cell, v)
        self.sched.point("compute")
        self.ids += 1
        val = {"id": self.ids, "cells": [[x, v] for x, vs in sorted(cells.items()) for v in sorted(vs)]}
        q0 = self.tick()
        c.set(k, val, tuple(spec["tags"]))
        self.log("set", k=k, val=val, q0=q0)
        self.peek()
        return val

    @staticmethod
    def merge(cells, cell, v):
        cells.setdefault(cell, set()).add(v)

    def peek(self):
        """An observer reads everything (as another thread would: with managers of its own)."""
        tid = getattr(tl, "tid", None)
        tl.tid = None
        try:
            backend = self.sys.backend if isinstance(self.sys, Plain) else django.core.cache.caches["default"]
            lock = locks.DependencyLock.make(self.case["cfg"]["iso"], lambda: backend, 0)
            c = tagging.CacheTagging(backend, relations.RelationManager(), transaction.TransactionManager(lock))
            for k in sorted(self.keys):
                self.read(c, k, True)
        finally:
            tl.tid = tid


def writes(prog):
    return any(op["o"] in ("write", "inv") or writes(op.get("body", ())) for op in prog)


def plans(points, n, bound, limit):
    """Schedules with at most `bound` preemptions, in a fixed order."""
    yield []
    for a in range(points):
        for t in range(max(1, n - 1)):
            yield [[a, t]]
    if bound >= 2:
        step = max(1, points * points * (n - 1) ** 2 // (2 * limit))
        i = 0
        for a in range(points):
            for b in range(points - a):
                for t in range((n - 1) ** 2 or 1):
                    i += 1
                    if i % step == 0:
                        yield [[a, t % max(1, n - 1)], [b, t // max(1, n - 1)]]


def run(case):
    iso = case["cfg"]["iso"]
    if "enum" not in case:
        r = Run(case, case["plan"], case.get("first", 0))
        ev = r.run()
        msg, labels = fresh.check(iso, ev)
        return {"msg": msg, "labels": labels, "events": ev if msg else None, "runs": 1, "switches": r.sched.switches}
    total, count = {}, 0
    limit = case["enum"]["limit"]
    r = Run(case, [])
    r.run()
    points = r.sched.points
    for first in range(len(case["threads"])):
        for plan in plans(points, r.n, case["enum"]["bound"], limit):
            if count >= limit * (first + 1):
                break
            count += 1
            ev = Run(case, plan, first).run()
            msg, labels = fresh.check(iso, ev)
            for k, v in labels.items():
                total[k] = total.get(k, 0) + v
            if msg:
                return {"msg": msg, "labels": total, "events": ev, "runs": count, "plan": plan, "first": first}
    return {"msg": None, "labels": total, "events": None, "runs": count}
