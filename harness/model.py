"""Reference model of a tagged cache: checks a history of events.

Reads are judged three-valued: must hit, must miss, or either (where the
properties deliberately leave the outcome open). The model knows nothing of
how the library works (tag versions, locks in the backend, relation nodes).
"""
import json
from collections import Counter

INF = float("inf")
DAY = 24 * 3600.0
LOCK_TTL = 5.0


class Bad(Exception):
    pass


class Entry(object):
    __slots__ = ("val", "seq", "deps", "exp", "soft", "at", "own", "raw", "gone")

    def __init__(self, val, seq, deps, exp, soft, at, own=None):
        self.val, self.seq, self.deps, self.exp, self.soft, self.at = val, seq, deps, exp, soft, at
        self.own = deps if own is None else own
        self.raw = self.gone = False


class Tx(object):
    __slots__ = ("start", "depth", "tags", "maybe")

    def __init__(self, start):
        self.start, self.depth, self.tags, self.maybe = start, 1, {}, False


class Lock(object):
    __slots__ = ("s", "start", "acq", "end", "soft")

    def __init__(self, s, start, acq):
        self.s, self.start, self.acq, self.end, self.soft = s, start, acq, None, False


class Node(object):
    __slots__ = ("k", "v", "acc", "tracked")

    def __init__(self, k, v, tracked):
        self.k, self.v, self.acc, self.tracked = k, v, {}, tracked


def same(a, b):
    """Equality which tells 1 from True."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def surfaced(ev):
    return bool(ev.get("xb")) or any(surfaced(b) for b in ev.get("body", ()))


class Model(object):
    def __init__(self, cfg):
        self.iso = cfg.get("iso", "READ COMMITTED")
        self.delay = cfg.get("delay", 0)
        self.locking = self.iso in ("REPEATABLE READ", "SERIALIZABLE")
        self.default = cfg.get("dver", 1)
        self.now = 0.0
        self.seq = 0
        self.ents = {}          # (v, k) -> candidates [Entry or None]
        self.inv = {}           # (v, tag) -> seq of the last invalidation
        self.born = {}          # (v, tag) -> earliest possible creation of the tag's current version
        self.born_by = {}       # (v, tag) -> latest possible creation
        self.lost = 0           # seq of the last loss of internal keys (all entries may be gone)
        self.tx = {}            # session -> Tx
        self.locks = {}         # (v, tag) -> [Lock]
        self.stack = {}         # session -> [Node]
        self.ign = {}           # session -> bool
        self.pending = []       # [due, {(v, tag)}, failed, session]
        self.deaths = 0
        self.labels = Counter()
        self.store_kinds = Counter()
        self.faulty = False

    # ------------------------------------------------------------ primitives
    def ver(self, v):
        return self.default if v is None else v

    def tick(self):
        self.seq += 1
        return self.seq

    def invalidate(self, vt, soft=False):
        if soft:
            for cands in self.ents.values():
                for c in cands:
                    if c is not None and vt in c.deps:
                        c.soft = True
            return
        self.inv[vt] = self.tick()
        self.born.pop(vt, None)
        self.born_by.pop(vt, None)

    def status(self, c):
        """'miss', 'hit' or 'either' for one candidate."""
        if c is None or c.gone:
            return "miss"
        if c.exp is not None and self.now > c.exp:
            return "miss"
        for vt in c.deps:
            if self.inv.get(vt, 0) > c.seq:
                return "miss"
        if c.soft or c.seq < self.lost:
            return "either"
        if c.exp is not None and self.now == c.exp:
            return "either"
        for vt in c.deps:
            if self.now >= self.born.get(vt, c.at) + DAY:
                return "either"
        return "hit"

    def read(self, v, k, hit, val, what):
        """Judges one read; returns the entry that was read."""
        key = (self.ver(v), k)
        cands = self.ents.get(key, [None])
        st = [(self.status(c), c) for c in cands]
        if hit:
            ok = [c for s, c in st if s != "miss" and same(c.val, val)]
            if not ok:
                stale = [c for s, c in st if c is not None and same(c.val, val)]
                if stale:
                    c = stale[-1]
                    why = "its lifetime passed" if c.exp is not None and self.now > c.exp else "tags %s were invalidated after it was stored" % sorted(
                        "%s/v%s" % (t, n) for n, t in c.deps if self.inv.get((n, t), 0) > c.seq)
                    raise Bad("%s of %s (version %s) serves a dead entry: %s" % (what, k, self.ver(v), why))
                if any(c is not None and s != "miss" for s, c in st):
                    raise Bad("%s of %s (version %s) returns %r, stored was %r" % (
                        what, k, self.ver(v), val, [c.val for s, c in st if c is not None and s != "miss"]))
                raise Bad("%s of %s (version %s) returns %r though nothing readable is stored" % (what, k, self.ver(v), val))
            self.labels["hit"] += 1
            if any(s == "hit" and c.deps - c.own for s, c in st):
                self.labels["hit_composite"] += 1
            if any(s == "either" for s, _ in st):
                self.labels["hit_either"] += 1
            self.ents[key] = ok
            return ok[-1]
        if all(s == "hit" for s, _ in st):
            raise Bad("%s of %s (version %s) misses though the entry %r is live (stored at %.3f, depends on %s, now %.3f)" % (
                what, k, self.ver(v), st[0][1].val, st[0][1].at, sorted(t for _, t in st[0][1].deps), self.now))
        if any(s == "miss" and c is not None and not c.gone for s, c in st):
            self.labels["miss_dead"] += 1
            if any(c is not None and not any(self.inv.get(vt, 0) > c.seq for vt in c.own) and
                   any(self.inv.get(vt, 0) > c.seq for vt in c.deps) for s, c in st):
                self.labels["miss_inherited"] += 1
            if any(c is not None and c.deps for s, c in st if s == "miss"):
                self.labels["miss_invalidated"] += 1
        elif any(s == "either" for s, _ in st):
            self.labels["miss_either"] += 1
        else:
            self.labels["miss_absent"] += 1
        # what was missed stays missed until it is stored anew
        for s, c in st:
            if s == "either":
                c.gone = True       # though it may still occupy its key in the backend
        self.ents[key] = cands
        return None

    def possible(self, v, k):
        cands = self.ents.get((self.ver(v), k), [None])
        return set(self.status(c) for c in cands)

    # -------------------------------------------------------------- relations
    def nodes(self, s):
        return [n for n in self.stack.get(s, ()) if n.tracked]

    def contribute(self, s, v, tags, nodes=None):
        """The thread used something with these tags in the version."""
        for n in self.nodes(s) if nodes is None else nodes:
            for t in tags:
                n.acc.setdefault((self.ver(v), t), self.seq)

    def read_entry(self, s, v, e):
        self.contribute(s, v, [t for _, t in e.deps])

    # -------------------------------------------------------------- locks
    def lock_decision(self, s, deps):
        """'store', 'refuse' or 'either'."""
        if not self.locking:
            return "store"
        tx = self.tx.get(s)
        start = tx.start if tx else self.now
        res = "store"
        for vt in deps:
            d = self.tag_decision(s, start, self.locks.get(vt, ()))
            if d == "refuse":
                return "refuse"
            if d == "either":
                res = "either"
        return res

    def tag_decision(self, s, start, records):
        judged = []
        for r in records:
            if r.end is None:
                gone = r.acq + LOCK_TTL
                if self.now > gone:
                    continue
                if r.s == s:
                    j = "own"
                else:
                    j = "either" if self.now == gone or r.soft else "block"
            else:
                gone = r.end + LOCK_TTL + max(self.delay, 1)
                if self.now > gone:
                    continue
                if r.s == s:
                    j = "own"
                elif self.now == gone or r.soft:
                    j = "either"
                elif start <= r.end + self.delay:
                    j = "block"
                elif r.end <= r.start:      # began and ended within one tick
                    j = "either"
                else:
                    j = "free"
            judged.append((j, r))
        if not judged:
            return "store"
        kinds = set(j for j, _ in judged)
        if kinds <= {"free", "own"}:
            if len(judged) == 1:
                return "store"
            rs = sorted((r for _, r in judged), key=lambda r: r.start)
            for a, b in zip(rs, rs[1:]):
                if a.end is None or a.end >= b.start or a.end <= a.start:
                    # overlapping invalidations of one tag: the leftover lock may live on
                    return "either" if not all(j == "own" for j, _ in judged) else "store"
            if rs[-1].end is not None and rs[-1].end <= rs[-1].start and kinds != {"own"}:
                return "either"
            return "store"
        if kinds == {"block"}:
            return "refuse"
        if kinds <= {"block", "own"} or kinds <= {"block", "free"}:
            # sequential transactions: the last one decides
            rs = sorted(judged, key=lambda x: x[1].start)
            seq = all(a[1].end is not None and a[1].start < a[1].end < b[1].start for a, b in zip(rs, rs[1:]))
            if seq and rs[-1][0] == "block":
                return "refuse"
        return "either"

    # -------------------------------------------------------------- store
    def tag_used(self, vt):
        """An accepted store makes sure that the tag has a version; versions live for a day."""
        if vt not in self.born:
            self.born[vt] = self.born_by[vt] = self.now
        elif self.now > self.born_by[vt] + DAY:      # certainly recreated: older entries are dead
            self.labels["tag_expired"] += 1
            self.invalidate(vt)
            self.born[vt] = self.born_by[vt] = self.now
        elif self.now >= self.born[vt] + DAY or self.born_by[vt] == INF:
            self.born_by[vt] = self.now

    def store(self, s, k, v, val, tags, to, node=None, failed=None, native=False, parents=None):
        v = self.ver(v)
        own = set((v, t) for t in tags)
        inherited, tainted = set(), False
        if node is not None and not native:
            for vt, q in node.acc.items():
                if vt[0] == v:
                    inherited.add(vt)
                    if self.inv.get(vt, 0) > q:
                        tainted = True       # invalidated while it was computed
        deps = frozenset(own | inherited)
        if inherited - own:
            self.labels["inherits"] += 1
        exp = None
        if to is not None:
            exp = self.now + to
        key = (v, k)
        d = "store" if native else self.lock_decision(s, deps)
        self.store_kinds[d] += 1
        self.labels["store_" + d] += 1
        if failed:          # the backend failed somewhere inside
            d = "either"
        if d == "store":
            for vt in deps:
                self.tag_used(vt)
        elif d == "either":
            for vt in deps:
                if vt not in self.born:
                    self.born[vt], self.born_by[vt] = self.now, INF
        e = Entry(val, self.tick(), deps, exp, tainted or bool(failed), self.now, frozenset(own))
        e.raw = native
        if to is not None and to <= 0:
            e.soft = True
        if d == "store":
            self.ents[key] = [e]
        elif d == "either":
            cands = self.ents.get(key, [None])
            if failed:
                for c in cands:
                    if c is not None:
                        c.soft = True
            self.ents[key] = list(cands) + [e]
        if own:
            self.contribute(s, v, [t for _, t in own], parents)
        return d

    # -------------------------------------------------------------- transactions
    def begin(self, s):
        if s in self.tx:
            self.tx[s].depth += 1
            self.labels["nested_scope"] += 1
        else:
            self.tx[s] = Tx(self.now)

    def finish(self, s, all_=False, failed=False):
        tx = self.tx.get(s)
        if tx is None:
            return
        tx.depth -= 1
        if all_:
            tx.depth = 0
        if tx.depth > 0:
            return
        del self.tx[s]
        if tx.tags:
            self.labels["tx_end_with_tags"] += 1
        for vt, sure in sorted(tx.tags.items()):
            failed_ = failed or not sure
            if self.locking:
                for r in self.locks.get(vt, ()):
                    if r.s == s and r.end is None:
                        r.end = self.now
                        if failed_:
                            r.soft = True
            if self.iso == "READ UNCOMMITTED" and self.delay:
                for cands in self.ents.values():
                    for c in cands:
                        if c is not None and vt in c.deps:
                            c.soft = True
            else:
                self.invalidate(vt, soft=failed_)
        if self.delay and not self.locking and tx.tags:
            self.pending.append([self.now + self.delay, dict(tx.tags), failed, s])

    def inv_op(self, s, v, tags, failed=False):
        tx = self.tx.get(s)
        for t in tags:
            vt = (self.ver(v), t)
            self.invalidate(vt, soft=failed)
            if tx is not None:
                tx.tags[vt] = tx.tags.get(vt, False) or not failed
                if self.locking:
                    for r in self.locks.setdefault(vt, []):
                        if r.s == s and r.end is None:
                            r.acq = self.now
                            r.soft = failed
                            break
                    else:
                        r = Lock(s, tx.start, self.now)
                        r.soft = failed
                        self.locks[vt].append(r)

    def advance(self, t):
        while True:
            due = sorted((p for p in self.pending if p[0] <= t), key=lambda p: p[0])
            if not due:
                break
            p = due[0]
            self.pending.remove(p)
            self.now = max(self.now, p[0])
            for vt, sure in sorted(p[1].items()):
                self.labels["delayed_inv"] += 1
                self.invalidate(vt, soft=p[2] or not sure)
        self.now = t

    # -------------------------------------------------------------- events
    def unexpected(self, ev, allow=()):
        x = ev.get("x")
        if x is None or ev.get("xb") or x[0] in ("UserError", "UserExit") or x[0] in allow:
            return False
        raise Bad("%s of %s raised %s: %s" % (ev["o"], ev.get("k", ev.get("tags", ev.get("m", ""))), x[0], x[1]))

    multi = None

    def run(self, events):
        for ev in events:
            m = self
            if self.multi is not None and ev.get("s") is not None:
                m = self.multi.models[ev.get("a", "default")]
            m.event(ev)

    def event(self, ev):
        if ev.get("skip"):
            self.labels["skipped"] += 1
            return
        if "x" in ev and ev["o"] != "broken":
            self.unexpected(ev, ("ValueError", "TypeError") if ev.get("m") in ("incr", "decr") else ())
        if "id" in ev:
            self.identity(ev)
        if ev.get("fault"):
            if not surfaced(ev):
                raise Bad("%s: an error of the backend did not reach the caller" % ev["o"])
            self.labels["error_surfaced"] += 1
        fn = getattr(self, "ev_" + ev["o"], None)
        if fn is None:
            raise KeyError(ev["o"])
        fn(ev)

    def ev_adv(self, ev):
        for t, err in ev["timers"]:
            if err:
                raise Bad("delayed invalidation raised %s" % err)
        self.advance(ev["t"])

    def ev_evict(self, ev):
        for v, k in ev["user"]:
            self.ents[(v, k)] = [None]
        self.labels["evict"] += 1
        what = ev["what"]
        if what == "tag":
            if ev["found"]:
                self.labels["tag_lost"] += 1
                self.invalidate((self.ver(ev["v"]), ev["tag"]))
            elif ev["internal"]:
                self.lost = self.tick()
        elif what in ("all", "internal") and ev["internal"]:
            # all tag information is gone: what depends on a tag cannot be told valid
            seen = set()
            for cands in self.ents.values():
                for c in cands:
                    if c is not None:
                        seen |= c.deps
            for vt in seen:
                self.invalidate(vt)
            self.locks_soft()
        elif ev["internal"]:
            self.lost = self.tick()
            self.locks_soft()

    def locks_soft(self):
        for rs in self.locks.values():
            for r in rs:
                r.soft = True

    def ev_kill(self, ev):
        """A process dies in the middle of whatever it did; another one takes over its sessions."""
        self.labels["kill"] += 1
        for s in ev["ss"]:
            if self.tx.pop(s, None):
                self.labels["kill_in_tx"] += 1
            if self.stack.pop(s, None):
                self.labels["kill_in_computation"] += 1
            self.ign.pop(s, None)
            self.deaths += 1
            ghost = "dead%d" % self.deaths
            for rs in self.locks.values():
                for r in rs:
                    if r.s == s:
                        r.s = ghost
            for p in self.pending:
                if p[3] == s:       # its timers may be gone
                    p[2] = True
                    self.labels["kill_pending"] += 1

    def ev_broken(self, ev):
        raise Bad("a module cannot be imported: %s: %s" % tuple(ev["x"]))

    def ev_fault(self, ev):
        self.faulty = True

    def ev_nofault(self, ev):
        pass

    def tracked(self, ev):
        return ev.get("mode") == "t" and not self.ign.get(ev["s"])

    def ev_get(self, ev):
        if "x" in ev:
            return
        e = self.read(ev.get("v"), ev["k"], ev["hit"], ev.get("r"), "get")
        if e is not None and self.tracked(ev):
            self.read_entry(ev["s"], ev.get("v"), e)
        elif e is not None and e.deps and self.nodes(ev["s"]):
            self.labels["untracked"] += 1

    def ev_many(self, ev):
        if "x" in ev:
            return
        got = dict((k, r) for k, r in ev["r"])
        extra = set(got) - set(ev["ks"])
        if extra:
            raise Bad("get_many returned keys that were not asked for: %s" % sorted(extra))
        tracked = ev.get("mode") == "t" and not self.ign.get(ev["s"])
        if len(set(ev["ks"])) > 1:
            self.labels["many"] += 1
            if 0 < len(got) < len(set(ev["ks"])):
                self.labels["many_mixed"] += 1
        if "single" in ev:
            self.labels["many_cmp"] += 1
            if not same(ev["single"], ev["r"]):
                raise Bad("get_many(%s as %s) returned %r, single reads %r" % (ev["ks"], ev.get("it"), ev["r"], ev["single"]))
        for k in sorted(set(ev["ks"])):
            e = self.read(ev.get("v"), k, k in got, got.get(k), "get_many")
            if e is not None and tracked:
                self.read_entry(ev["s"], ev.get("v"), e)

    def tags_of(self, ev):
        return () if ev.get("tf") == "native" else ev.get("tags", ())

    def ev_set(self, ev):
        self.store(ev["s"], ev["k"], ev.get("v"), ev["val"], self.tags_of(ev), ev.get("to"), failed="x" in ev)

    def ev_open(self, ev):
        if "x" in ev:
            return
        e = self.read(ev.get("v"), ev["k"], ev["hit"], ev.get("r"), "get")
        tracked = ev.get("mode", "t") == "t" and not self.ign.get(ev["s"])
        if e is not None:
            if tracked:
                self.read_entry(ev["s"], ev.get("v"), e)
        else:
            st = self.stack.setdefault(ev["s"], [])
            st.append(Node(ev["k"], ev.get("v"), tracked))
            if len(st) > 1:
                self.labels["nested_computation"] += 1

    def ev_close(self, ev):
        st = self.stack[ev["s"]]
        # the process which died there did not tell the key
        i = max(j for j, n in enumerate(st) if n.k == ev["k"]) if "k" in ev else len(st) - 1
        node = st.pop(i)
        if i < len(st):
            self.labels["out_of_order"] += 1
        if ev.get("how", "set") == "abort":
            self.labels["abort"] += 1
            return
        self.store(ev["s"], node.k, node.v, ev["val"], self.tags_of(ev), ev.get("to"),
                   node=node if node.tracked else None, failed="x" in ev,
                   parents=[n for n in st[:i] if n.tracked] if node.tracked else None)

    def ev_gosc(self, ev):
        s, k, v = ev["s"], ev["k"], ev.get("v")
        tracked = not self.ign.get(s)
        if ev["calls"] == 0:
            if "x" in ev:
                return              # the backend failed before the callback
            e = self.read(v, k, True, ev["r"], "get_or_set_callback")
            if tracked:
                self.read_entry(s, v, e)
            self.labels["gosc_hit"] += 1
            return
        if ev["calls"] != 1:
            raise Bad("get_or_set_callback called the callback %d times" % ev["calls"])
        if not ev["args_ok"]:
            raise Bad("get_or_set_callback passed wrong arguments to the callback")
        self.read(v, k, False, None, "get_or_set_callback")
        self.labels["gosc_miss"] += 1
        node = Node(k, v, tracked)
        self.stack.setdefault(s, []).append(node)
        self.run(ev["body"])
        top = self.stack[s].pop()
        assert top is node
        if "x" in ev and not ev.get("xb"):
            self.labels["gosc_raise"] += 1
            return
        raised = ev.get("raise") or any("x" in b and b["x"][0] in ("UserError", "UserExit") and not b.get("catch") for b in ev["body"])
        if "x" not in ev:
            if raised:
                raise Bad("get_or_set_callback swallowed the exception of the callback")
            if not same(ev["r"], ev["val"]):
                raise Bad("get_or_set_callback returned %r, the callback %r" % (ev["r"], ev["val"]))
        self.store(s, k, v, ev["val"], self.tags_of(ev), ev.get("to"), node=node if tracked else None, failed="x" in ev)

    def ev_raise(self, ev):
        pass

    def ev_inv(self, ev):
        self.labels["inv"] += 1
        self.inv_op(ev["s"], ev.get("v"), ev["tags"], failed="x" in ev)

    def ev_begin(self, ev):
        self.begin(ev["s"])

    def ev_finish(self, ev):
        self.finish(ev["s"], failed="x" in ev)

    def ev_flush(self, ev):
        self.finish(ev["s"], all_=True, failed="x" in ev)

    def ev_end(self, ev):
        self.finish(ev["s"], all_=True, failed="x" in ev)
        if self.stack.get(ev["s"]):
            self.labels["end_with_open_computation"] += 1
        self.stack[ev["s"]] = []

    def ev_scope(self, ev):
        s = ev["s"]
        self.begin(s)
        self.labels["scope_" + ev["kind"]] += 1
        if ev.get("args_ok") is False:
            raise Bad("the decorated function got wrong arguments")
        self.run(ev["body"])
        all_ = ev["kind"] in ("all", "all()", "all(c)", "gall")
        raised = ev.get("raise") or any(
            "x" in b and b["x"][0] in ("UserError", "UserExit") and not b.get("catch") for b in ev["body"])
        if raised:
            self.labels["scope_raise"] += 1
            if "x" not in ev:
                raise Bad("the scope (%s) swallowed the exception" % ev["kind"])
        elif "x" not in ev:
            if ev.get("r") != "result":
                raise Bad("the decorated function (%s) returned %r instead of its result" % (ev["kind"], ev.get("r")))
        self.finish(s, all_=all_, failed=bool(ev.get("xb")))

    def ev_request(self, ev):
        s = ev["s"]
        if ev.get("short"):
            self.begin(s)
        else:
            self.begin(s)
            self.run(ev["body"])
        raised = ev.get("raise") or any(
            "x" in b and b["x"][0] in ("UserError", "UserExit") and not b.get("catch") for b in ev["body"])
        if ev.get("after"):
            raise Bad("the transaction is open after the middleware has ended it")
        want = 404 if ev.get("short") else 500 if raised else ev.get("status", 200)
        if "x" not in ev and ev["r"] != want:
            raise Bad("the request was answered with status %s instead of %s" % (ev["r"], want))
        self.labels["request_raise" if raised else "request"] += 1
        self.finish(s, all_=True, failed="x" in ev or bool(ev.get("fault")))
        self.stack[s] = []

    def ev_foreign(self, ev):
        x = ev["x2"]
        self.labels["foreign"] += 1
        if x is None or x[0] != "RuntimeError":
            raise Bad("%s of another thread's manager is not refused (%s)" % (ev["what"], x))

    def ev_same(self, ev):
        pass

    def identity(self, ev):
        ids = self.__dict__.setdefault("ids", {})
        if ids.setdefault(ev["s"], ev["id"]) != ev["id"]:
            raise Bad("the thread got another cache object for the same alias")
        if sum(1 for i in ids.values() if i == ev["id"]) > 1:
            raise Bad("two threads share one cache object")

    def ev_ign(self, ev):
        self.ign[ev["s"]] = ev["on"]
        if ev["now"] != ev["on"]:
            raise Bad("ignore_descendants does not keep its value")

    def ev_state(self, ev):
        if "x" in ev:
            return
        want = ev["s"] in self.tx
        if ev["open"] != want:
            raise Bad("session %s: transaction is %s, expected %s" % (
                ev["s"], "open" if ev["open"] else "closed", "open" if want else "closed"))
        self.labels["state_open" if want else "state_closed"] += 1

    def ev_nat(self, ev):
        m, v = ev["m"], self.ver(ev.get("v"))
        self.labels["native"] += 1
        if m in ("incr", "decr"):
            return self.nat_incr(ev, (v, ev["k"]), ev["d"] if m == "incr" else -ev["d"])
        if "x" in ev:
            return
        if m == "add":
            key = (v, ev["k"])
            cands = self.ents.get(key, [None])
            # an invalidated entry still occupies its key in the backend: either
            alive = [self.status(c) for c in cands]
            exp = None if ev.get("to") is None else self.now + ev["to"]
            e = Entry(ev["val"], self.tick(), frozenset(), exp, False, self.now)
            e.raw = True
            if all(c is None or (c.exp is not None and self.now > c.exp) for c in cands) and not ev["r"]:
                raise Bad("add of the missing key %s refused" % ev["k"])
            if "hit" in alive and len(alive) == 1 and ev["r"]:
                raise Bad("add replaced the live entry %s" % ev["k"])
            if ev["r"]:
                self.ents[key] = [e]
        elif m == "delete":
            self.ents[(v, ev["k"])] = [None]
        elif m == "delete_many":
            for k in ev["ks"]:
                self.ents[(v, k)] = [None]
        elif m == "set_many":
            for k, val in ev["data"]:
                self.store(ev["s"], k, v, val, (), ev.get("to"), native=True)
        elif m == "clear":
            self.ents = {}
            seen = set(self.born)
            for vt in seen:
                self.invalidate(vt)
            self.locks_soft()
        elif m in ("has_key", "in"):
            k = ev["k"]
            cands = self.ents.get((v, k), [None])
            st = [self.status(c) for c in cands]
            if st == ["hit"] and not ev["r"] and cands[0].val is not None:
                raise Bad("%s reports the live key %s as missing" % (m, k))
            if all(c is None or (c.exp is not None and self.now > c.exp) for c in cands) and ev["r"]:
                raise Bad("%s reports the missing key %s as present" % (m, k))

    def nat_incr(self, ev, key, d):
        """Only values stored natively are counters of the backend (see the known finding)."""
        cands = self.ents.get(key, [None])
        if ev.get("xb"):
            for c in cands:
                if c is not None:
                    c.soft = True
            return
        if all(c is None or (c.exp is not None and self.now > c.exp) for c in cands):
            if ev.get("x", [None])[0] != "ValueError":
                raise Bad("%s of the missing key %s gives %s" % (ev["m"], ev["k"], ev.get("x") or ev["r"]))
            return
        c = cands[0]
        if len(cands) == 1 and c.raw and self.status(c) == "hit" and type(c.val) is int:
            if "x" in ev or ev["r"] != c.val + d:
                raise Bad("%s of %s by %s gives %s, its value was %r" % (ev["m"], ev["k"], d, ev.get("x") or ev["r"], c.val))
            self.labels["incr"] += 1
            e = Entry(c.val + d, self.tick(), frozenset(), None, c.exp is not None, self.now)
            e.raw = True
            self.ents[key] = [e]
        elif "x" not in ev:
            e = Entry(ev["r"], self.tick(), frozenset(), None, True, self.now)
            e.raw = True
            self.ents[key] = [None, e]


class Multi(object):
    """One model per cache alias; time passes for all of them."""

    def __init__(self, cfg):
        self.models = {"default": Model(cfg)}
        if cfg.get("second"):
            self.models["second"] = Model({"iso": cfg["second"].get("ISOLATION_LEVEL", "READ COMMITTED"),
                                           "delay": cfg["second"].get("DELAY", 0), "dver": cfg.get("dver", 1)})
            for m in self.models.values():
                m.multi = self

    def run(self, events):
        for ev in events:
            if ev.get("s") is None:
                for m in self.models.values():
                    if ev["o"] in ("adv", "kill") or m is self.models["default"]:
                        m.event(ev)
            elif ev.get("sig"):
                for m in self.models.values():
                    m.event(ev)
            else:
                self.models[ev.get("a", "default")].event(ev)
                if ev["o"] == "request" and ev.get("a", "default") == "default":
                    for name, m in self.models.items():     # the end of a request is the end for all caches
                        if name != "default":
                            m.event({"o": "end", "s": ev["s"], "t": ev["t"]})

    @property
    def labels(self):
        c = Counter()
        for m in self.models.values():
            c.update(m.labels)
        return c


def judge(case, out, nontrivial, extra=None):
    """Common judge: (message or None, info)."""
    m = Multi(case["cfg"])
    msg = None
    try:
        m.run(out["events"])
        if extra is not None:
            extra(case, out, m)
    except Bad as e:
        msg = str(e)
    labels = m.labels
    return msg, {"labels": sorted(labels), "nontrivial": nontrivial(labels, case, out), "counts": labels}
