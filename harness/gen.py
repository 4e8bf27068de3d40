"""Generators of histories for the `hist` engine."""
from hypothesis import strategies as st

ISOS = ["READ UNCOMMITTED", "READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE"]
TAGS = ["a", "b", "c", "d"]
ODD_TAGS = ["a", "b", "ж", "1", "a b", "tag:with:colons", "A", "t" * 60]
SMALL_DT = [0, 0, 0.25, 0.5, 1, 1, 2, 3, 4.75, 5, 5.25, 6, 7, 10]
LONG_DT = SMALL_DT + [60, 600, 3600, 86399, 86400, 86401, 100000]
TFS = ["tuple", "list", "set", "fset", "dep", "comp", "comp2", "reuse", "own", "own2", "own3", "owns"]
INV_TFS = ["args", "args", "args", "list", "tuple", "set", "fset", "dep", "comp", "comp2", "reuse", "own", "own2", "owns"]
ITERS = ["list", "tuple", "set", "fset", "iter", "gen", "keys", "dict"]
KINDS = ["with", "deco", "deco()", "old", "old()", "all", "all()"]


class Profile(object):
    """What a history may contain."""
    sessions = 2
    keys = 4
    tags = TAGS
    versions = [[None]]
    isos = ["READ COMMITTED"]
    delays = [0]
    wirings = ["django", "django", "proxy", "plain"]
    weights = {"set": 5, "get": 5, "inv": 3, "adv": 1}
    min_ops, max_ops = 4, 22
    dts = SMALL_DT
    timeouts = [None, None, None, 1, 5, 60]
    tfs = TFS
    inv_tfs = INV_TFS
    iters = ITERS
    modes = ["u", "t"]
    open_modes = ["t"]
    values = None
    counters = []
    kinds = KINDS
    body_len = 3
    max_depth = 2
    raises = [None, None, None, "yes"]
    exits = True            # callbacks may also raise something which is not an Exception
    second = None           # strategy of the second alias' configuration
    max_tags = 3
    evicts = ["all", "internal", "internal", "one_internal", "some_internal", "user", "tag", "tag"]
    cmp = False
    inner_extra = []        # further kinds of operations nested in callbacks and scopes
    readback = False        # read every stored entry at once
    states = False          # ask for the transaction state after every operation
    retry = False           # operations following a fault are repeated
    probe = True            # read everything at the end

    def __init__(self, **kw):
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


def pick(xs):
    return st.sampled_from(xs)


class Ops(object):
    def __init__(self, p):
        self.p = p
        self.sess = st.integers(0, p.sessions - 1)
        self.keys = ["u%d" % i for i in range(p.keys)]
        self.key = pick(self.keys)
        self.tagset = st.lists(pick(p.tags), min_size=1, max_size=p.max_tags, unique=True)
        self.tagset1 = st.lists(pick(p.tags), min_size=1, max_size=p.max_tags, unique=True)
        self.vi = st.integers(0, 3)
        self.cf = st.integers(0, 5)
        table = []
        for name, w in sorted(p.weights.items()):
            table += [name] * w
        self.kind = pick(table)
        inner = [n for n in table if n not in ("adv", "evict", "fault", "end", "begin", "finish", "flush", "open", "close", "foreign", "state", "same", "ign", "request", "nofault")]
        inner += p.inner_extra
        self.inner_kind = pick(inner) if inner else None
        # the few open/close pairs inside of callbacks
        self.op = self._op(0)

    def _op(self, depth):
        @st.composite
        def build(draw):
            return self.make(draw, draw(self.kind if depth == 0 else self.inner_kind), depth)
        return build()

    def body(self, draw, depth):
        if depth >= self.p.max_depth or self.inner_kind is None:
            kinds = [k for k in ("set", "get", "inv", "many") if k in self.p.weights]
            n = draw(st.integers(0, 2))
            return [self.make(draw, draw(pick(kinds)), depth + 1) for _ in range(n)] if kinds else []
        return draw(st.lists(self._op(depth + 1), min_size=0, max_size=self.p.body_len))

    def value(self, draw):
        return draw(self.p.values) if self.p.values is not None else None

    def make(self, draw, o, depth):
        p = self.p
        op = {"o": o}
        if o == "adv":
            op["dt"] = draw(pick(p.dts))
            return op
        if o == "evict":
            op["what"] = draw(pick(p.evicts))
            if op["what"] in ("one_internal", "some_internal"):
                op["i"] = draw(st.integers(0, 4095))
            elif op["what"] == "user":
                op["k"], op["vi"] = draw(self.key), draw(self.vi)
            elif op["what"] == "tag":
                op["tag"], op["vi"] = draw(pick(p.tags)), draw(self.vi)
            return op
        if o == "fault":
            op["n"], op["mode"] = draw(st.integers(0, 5)), draw(pick(["before", "after"]))
            if draw(st.integers(0, 3)) == 0:
                op["exit"] = 1
            return op
        if depth == 0:
            op["s"] = draw(self.sess)
            if p.second is not None and draw(st.integers(0, 3)) == 0:
                op["a"] = "second"
        if o in ("get", "open", "many", "set", "gosc", "inv", "nat"):
            op["vi"] = draw(self.vi)
        if o == "get":
            op.update(k=draw(self.key), mode=draw(pick(p.modes)), cf=draw(self.cf))
        elif o == "open":
            op.update(k=draw(self.key), mode=draw(pick(p.open_modes)))
        elif o == "close":
            op.update(how=draw(pick(["set", "set", "set", "abort"])))
            i = draw(st.integers(0, 7))
            if i > 5:               # not the innermost one
                op["i"] = i - 5
            if op["how"] == "set":
                self.stored(draw, op)
        elif o == "many":
            if p.cmp:
                op["cmp"] = 1
            op.update(ks=draw(st.lists(self.key, min_size=0, max_size=p.keys)), mode=draw(pick(p.modes)),
                      it=draw(pick(p.iters)), cf=draw(self.cf))
        elif o == "set":
            op["k"] = draw(self.key)
            self.stored(draw, op)
            if draw(st.integers(0, 5)) == 0:
                op["api"] = "w"
        elif o == "gosc":
            op["k"] = draw(self.key)
            self.stored(draw, op)
            op["body"] = self.body(draw, depth)
            r = draw(pick(p.raises))
            if r:
                op["raise"] = "exit" if p.exits and draw(st.integers(0, 3)) == 0 else "yes"
            op["catch"] = draw(st.booleans())
            if draw(st.integers(0, 3)) == 0:
                op["api"] = "w"
            if draw(st.integers(0, 2)) == 0:
                op["args"] = draw(st.lists(st.integers(0, 3), max_size=2))
                op["kw"] = draw(st.dictionaries(pick(["x", "y", "key"]), st.integers(0, 3), max_size=2))
        elif o == "inv":
            op.update(tags=draw(self.tagset1) if draw(st.integers(0, 15)) else [], tf=draw(pick(p.inv_tfs)), cf=draw(self.cf))
            if draw(st.integers(0, 5)) == 0:
                op["api"] = "w"
        elif o in ("begin", "finish", "flush"):
            op["old"] = draw(pick([0, 0, 1]))
        elif o == "scope":
            op["kind"] = draw(pick(p.kinds))
            op["body"] = self.body(draw, depth)
            if draw(pick(p.raises)):
                op["raise"] = "yes"
            op["catch"] = draw(st.booleans())
        elif o == "request":
            op["body"] = self.body(draw, depth)
            k = "direct" if op.get("a") else draw(pick(["", "", "raise", "short", "status", "direct", "direct"]))
            if k == "direct":       # the methods of the middleware, called as older handlers do
                op["direct"] = 1
                op["kw"] = draw(st.integers(0, 2))
                if draw(st.booleans()):
                    op["raise"] = "yes"
            elif k == "raise":
                op["raise"] = "yes"
            elif k == "short":
                op["short"] = 1
                op["body"] = []
            elif k == "status":
                op["status"] = draw(pick([200, 302, 404, 500]))
            op["old"] = draw(st.integers(0, 1))
        elif o == "raise":
            pass
        elif o == "ign":
            op["on"] = draw(st.booleans())
        elif o == "nat":
            self.native(draw, op)
        elif o == "foreign":
            op["what"] = draw(pick(["t.begin", "t.finish", "t.flush", "t.current", "t.setcurrent", "t.with", "t.deco",
                                    "r.get", "r.current", "r.setcurrent", "r.pop", "r.clear", "r.setkey"]))
            op["other"] = draw(self.sess)
            op["k"] = draw(self.key)
        elif o == "end":
            if draw(st.booleans()):
                op["sig"] = 1       # by the signal of the framework, where possible
        elif o in ("state", "same"):
            pass
        else:
            raise ValueError(o)
        return op

    def stored(self, draw, op):
        p = self.p
        op["tags"] = [] if draw(st.integers(0, 9)) == 9 else draw(self.tagset)
        op["tf"] = draw(pick(p.tfs))
        op["to"] = draw(pick(p.timeouts))
        op["cf"] = draw(self.cf)
        if p.values is not None:
            op["val"] = self.value(draw)

    def native(self, draw, op):
        p = self.p
        m = op["m"] = draw(pick(["add", "add", "delete", "delete_many", "set_many", "has_key", "in", "clear"] + p.counters))
        op["cf"] = draw(self.cf)
        if m in ("add", "delete", "has_key", "in", "incr", "decr"):
            op["k"] = draw(self.key)
        if m in ("incr", "decr"):
            op["d"] = draw(pick([1, 1, 2, -1, 0, 10 ** 12]))
        if m == "in":
            op["vi"] = -1
        if m == "add":
            op["to"] = draw(pick(p.timeouts))
            if p.values is not None:
                op["val"] = self.value(draw)
        if m == "delete_many":
            op["ks"] = draw(st.lists(self.key, max_size=3))
        if m == "set_many":
            op["to"] = draw(pick(p.timeouts))
            ks = draw(st.lists(self.key, max_size=3, unique=True))
            op["data"] = [[k, self.value(draw)] for k in ks]


def finalize(ops, versions, counter=None):
    """Resolves version indices, makes stored values unique."""
    counter = counter if counter is not None else [0]
    for op in ops:
        if "vi" in op:
            vi = op.pop("vi")
            if vi == -1:
                op["v"] = None
            else:
                op["v"] = versions[vi % len(versions)]
        if op["o"] in ("set", "gosc") or (op["o"] == "close" and op.get("how") == "set") or (op["o"] == "nat" and op.get("m") == "add"):
            if "val" not in op:
                counter[0] += 1
                op["val"] = "x%d" % counter[0]
        if op.get("tf") == "native" and op["o"] != "inv":
            op["tags"] = []
            if op["o"] == "gosc":
                op["tf"] = "tuple"
        if op["o"] == "nat" and op.get("m") == "set_many":
            for kv in op["data"]:
                if kv[1] is None:
                    counter[0] += 1
                    kv[1] = "x%d" % counter[0]
        if "body" in op:
            if "a" in op:
                for b in op["body"]:
                    b["a"] = op["a"]
            finalize(op["body"], versions, counter)
    return ops


def config(p):
    @st.composite
    def build(draw):
        cfg = {"iso": draw(pick(p.isos)), "delay": draw(pick(p.delays)), "wiring": draw(pick(p.wirings))}
        if cfg["wiring"] == "plain":
            cfg["deco"], cfg["raw"] = draw(st.booleans()), draw(st.booleans())
            if draw(st.integers(0, 3)) == 0:
                cfg["ref"] = True
        else:
            cfg["defaults"] = draw(pick([False, True, 2]))
            if cfg["wiring"] == "django" and draw(st.integers(0, 7)) == 0:
                cfg["via"] = True
        if draw(st.integers(0, 9)) == 0:        # the version which is meant if none is given
            cfg["dver"] = draw(pick([2, 2, 3, 0]))
        if p.second is not None:
            if cfg["wiring"] == "plain":
                cfg["wiring"] = "django"
            cfg["second"] = draw(p.second)
        return cfg
    return build()


def explicit(draw, cfg, versions):
    """The default version is also given explicitly."""
    d = cfg.get("dver", 1)
    if None in versions and d not in versions and draw(st.integers(0, 4)) == 0:
        return versions + [d]
    return versions


def number(k):
    return int(k[1:]) if isinstance(k, str) and k[1:].isdigit() else k


FAMILIES = [        # names which are easily taken for one another
    lambda i: "".join(c.upper() if i >> n & 1 else c for n, c in enumerate("abcdefgh")),
    lambda i: " " * i + "t",
    lambda i: "t" + " " * i,
    lambda i: " " * i,
    lambda i: "t\0%d" % i,
    lambda i: "t:%d" % i,
    lambda i: "%d:t" % i,
    lambda i: "t_%d" % i,
    lambda i: "%d_1" % i,
    lambda i: "t,%d" % i,
    lambda i: "t%%%d" % i,
    lambda i: chr(0xe0 + i),
    lambda i: "t" + chr(0x4e00 + i) * 3,
    lambda i: chr(0x1f600 + i),
    lambda i: "x" * 300 + "%d" % i,
    lambda i: "%d" % i + "x" * 300,
    lambda i: "0" * i + "1",
    lambda i: "%d" % i,
    lambda i: "%d.0" % i,
    lambda i: "a" * (i + 1),
    lambda i: ["a", "tag_a", "acquired_a", "released_a", "tag_1_a", "None", "False", "0", ""][i] if i < 9 else "a%d" % i,
    lambda i: ["e\u0301", "\u00e9", "\u212b", "\u00c5", "ss", "\u00df", "\uff54", "t"][i] if i < 8 else "t%d" % i,
    lambda i: i,
]


def renamed(ops, keys, tags):
    for op in ops:
        if "k" in op:
            op["k"] = keys(op["k"])
        if "ks" in op:
            op["ks"] = [keys(k) for k in op["ks"]]
        if "data" in op:
            op["data"] = [[keys(k), v] for k, v in op["data"]]
        if "tags" in op:
            op["tags"] = [tags(t) for t in op["tags"]]
        if "tag" in op:
            op["tag"] = tags(op["tag"])
        if "body" in op:
            op["body"] = renamed([dict(o) for o in op["body"]], keys, tags)
    return ops


def renaming(draw, families, prefix=""):
    """One to one, from any names to those of one family."""
    f, table = FAMILIES[draw(st.integers(0, families - 1))], {}
    first = draw(st.integers(0, 2))

    def name(x):
        if x not in table:
            n = f(len(table) + first)
            table[x] = prefix + n if prefix else n
        return table[x]
    return name


def dressed(draw, ops):
    """The same history with other names of keys and tags."""
    how = draw(st.integers(0, 11))
    if how == 0:
        return renamed([dict(op) for op in ops], number, lambda t: t)
    if how > 3:
        return ops
    tags = renaming(draw, len(FAMILIES)) if how != 2 else lambda t: t
    keys = renaming(draw, len(FAMILIES) - 1, "u") if how != 1 else lambda k: k
    return renamed([dict(op) for op in ops], keys, tags)


def probes(p, versions, cfg):
    out = []
    for s in range(1):
        for v in versions:
            for i in range(p.keys):
                out.append({"o": "get", "s": (s + i) % p.sessions, "k": "u%d" % i, "v": v, "mode": "u", "cf": 0})
    return out


def has_kind(ops, kinds):
    return any((o["o"] == "scope" and o["kind"] in kinds) or has_kind(o.get("body", ()), kinds) for o in ops)


def retried(draw, ops):
    """The caller repeats what failed, then another thread offers something with the same tags."""
    out, armed = [], False
    for op in ops:
        out.append(op)
        if op["o"] == "fault":
            armed = True
        elif armed and op["o"] in ("inv", "set", "finish", "flush", "many", "get"):
            armed = False
            if draw(st.integers(0, 3)):
                out.append({"o": "nofault"})
                out.append(dict(op))
                if op["o"] == "inv" and draw(st.booleans()):
                    other = {"s": (op["s"] + 1) % 2, "k": "u0", "v": op["v"]}
                    out.append(dict(other, o="set", val="y%d" % len(out), tags=op["tags"][:1], tf="tuple", to=None, cf=0))
                    out.append(dict(other, o="get", mode="u", cf=0))
    return out


WIDTHS = [2, 9, 16, 17, 18, 33, 40, 64, 65, 100, 129]


def wide(p, widths=WIDTHS, hows=("all", "all", "most", "prefix", "one", "half")):
    """Many keys and many tags at once: stores, a large invalidation (in a transaction or not), batch and single reads."""
    @st.composite
    def build(draw):
        cfg = draw(config(p))
        v = draw(pick([None, None, 2, 0]))
        n = draw(pick(widths))
        ss = st.integers(0, p.sessions - 1)
        ops = []
        shared = draw(st.booleans())

        def fan(s):
            ops.extend({"o": "set", "s": s, "k": "u%d" % i, "v": v, "tags": ["w%d" % i] + ["s"] * shared, "tf": "list", "to": None, "cf": 0}
                       for i in range(n))
        fan(draw(ss))
        allk = ["u%d" % i for i in range(n)]
        s = draw(ss)
        composite = draw(st.integers(0, 2)) == 0
        if composite:
            ops.append({"o": "open", "s": s, "k": "uall", "v": v, "mode": "t"})
            ops.append({"o": "many", "s": s, "ks": allk, "v": v, "mode": "t", "it": draw(pick(p.iters)), "cf": 0})
            ops.append({"o": "close", "s": s, "how": "set", "tags": ["c"], "tf": "list", "to": None, "cf": 0})
        s = draw(ss)
        scope = draw(st.integers(0, 2)) == 0
        if scope:
            ops.append({"o": "begin", "s": s, "old": 0})
            if draw(st.booleans()):
                ops.append({"o": "begin", "s": s, "old": 0})
        how = draw(pick(hows))
        idx = list(range(n))
        if how == "most":
            idx.remove(draw(st.integers(0, n - 1)))
        elif how == "prefix":
            idx = idx[:draw(st.integers(1, n))]
        elif how == "one":
            idx = [draw(st.integers(0, n - 1))]
        elif how == "half":
            idx = idx[draw(st.integers(0, 1))::2]
        if idx:
            ops.append({"o": "inv", "s": s, "tags": ["w%d" % i for i in idx], "v": v, "cf": 0, "tf": draw(pick(p.inv_tfs))})
        if scope:
            if draw(st.booleans()):
                fan(draw(ss))
            ops.append({"o": "flush", "s": s, "old": 0})
        if draw(st.booleans()):
            ops.append({"o": "adv", "dt": draw(pick([0, 1]))})
        s = draw(ss)
        first = draw(st.booleans())
        if first:
            ops.append({"o": "many", "s": s, "ks": allk, "v": v, "mode": "u", "it": draw(pick(p.iters)), "cf": 0})
        ops.extend({"o": "get", "s": s, "k": k, "v": v, "mode": "u", "cf": 0} for k in allk + ["uall"] * composite)
        if not first:
            ops.append({"o": "many", "s": s, "ks": allk, "v": v, "mode": "u", "it": draw(pick(p.iters)), "cf": 0})
        return {"engine": "hist", "cfg": cfg, "ops": dressed(draw, finalize(ops, [v]))}
    return build()


def scripts(p, tags, versions, aliases=("default",)):
    """Interleaved transactions of all sessions: each thread runs a script of scopes with few tags."""
    ops = Ops(p)
    kinds = ["set", "set", "inv", "inv", "get", "begin", "none"]

    @st.composite
    def build(draw):
        cfg = draw(config(p))
        vs = explicit(draw, cfg, draw(pick(versions)))
        n = draw(st.integers(2, p.sessions))
        todo = []
        for s in range(n):
            script = []
            for _ in range(draw(st.integers(1, 3))):
                depth = 0
                if draw(st.integers(0, 4)):
                    script.append({"o": "begin", "s": s, "old": 0})
                    depth = 1
                for _ in range(draw(st.integers(1, 3))):
                    o = draw(pick(kinds))
                    op = {"o": o, "s": s}
                    if o == "set":
                        op.update(k=draw(ops.key), vi=draw(ops.vi), tags=draw(st.lists(pick(tags), min_size=1, max_size=2, unique=True)),
                                  tf="list", to=None, cf=0)
                    elif o == "inv":
                        op.update(vi=draw(ops.vi), tags=[draw(pick(tags))], tf=draw(pick(p.inv_tfs)), cf=0)
                    elif o == "get":
                        op.update(k=draw(ops.key), vi=draw(ops.vi), mode="u", cf=0)
                    elif o == "begin":
                        if not depth:
                            continue
                        op["old"] = 0
                        depth += 1
                    else:
                        continue
                    script.append(op)
                if depth:
                    if draw(st.integers(0, 5)) == 0:
                        script.append({"o": "flush", "s": s, "old": 0})
                    else:
                        script += [{"o": "finish", "s": s, "old": 0}] * depth
            todo.append([dict(op) for op in script])
        body = []
        while any(todo):
            i = draw(pick([i for i, t in enumerate(todo) if t]))
            for _ in range(draw(st.integers(1, 3))):
                if todo[i]:
                    op = todo[i].pop(0)
                    body.append(op)
                    if p.readback and op["o"] == "set":
                        body.append({"o": "get", "s": op["s"], "k": op["k"], "vi": op["vi"], "mode": "u", "cf": 0})
            if draw(st.integers(0, 2)):
                body.append({"o": "adv", "dt": draw(pick(p.dts))})
        body = finalize(body, vs) + probes(p, vs, cfg)
        return {"engine": "hist", "cfg": cfg, "ops": dressed(draw, body)}
    return build()


def some(*pairs):
    """Mix of strategies with weights."""
    table = []
    for i, (w, _) in enumerate(pairs):
        table += [i] * w

    @st.composite
    def build(draw):
        return draw(pairs[draw(pick(table))][1])
    return build()


def histories(p):
    ops = Ops(p)

    @st.composite
    def build(draw):
        cfg = draw(config(p))
        versions = draw(pick(p.versions))
        if draw(st.integers(0, 4)) == 0:      # zero is a version like any other
            top = max([v for v in versions if v is not None and v != 1] or [0])
            versions = [0 if v == top else v for v in versions]
        versions = explicit(draw, cfg, versions)
        body = draw(st.lists(ops.op, min_size=p.min_ops, max_size=p.max_ops))
        body = finalize(body, versions)
        if p.readback or p.states:
            new = []
            for op in body:
                new.append(op)
                if p.readback and op["o"] == "set":
                    new.append({"o": "get", "s": op["s"], "k": op["k"], "v": op["v"], "mode": "u", "cf": 0})
                if p.states and "s" in op and op["o"] in ("scope", "begin", "finish", "flush", "end", "request"):
                    for a in ["default", "second"] if op["o"] in ("end", "request") and cfg.get("second") else [op.get("a", "default")]:
                        new.append(dict({"o": "state", "s": op["s"]}, **({"a": a} if a != "default" else {})))
            body = new
        if p.retry:
            body = retried(draw, body)
        if p.probe:
            body = body + probes(p, versions, cfg)
        return {"engine": "hist", "cfg": cfg, "ops": dressed(draw, body)}
    return build()


def computations(p, versions=((None,), (None,), (2,), (None, 2)), abandon=1, switches=False):
    """Computations which overlap in any order: entries with one tag each are read in the middle of the computation of others, which
    are finished in any order, abandoned, left open until the request ends, and started again; then tags are invalidated one by one."""
    leaves = ["u0", "u1", "u2"]
    tops = ["u3", "u4", "u5", "u6"]

    @st.composite
    def build(draw):
        cfg = draw(config(p))
        vs = explicit(draw, cfg, list(draw(pick(versions))))
        vi = st.integers(0, len(vs) - 1)
        ops = []
        many = draw(st.integers(0, 2)) == 0
        ign = switches and draw(st.integers(0, 2)) == 0

        def leaf(i):
            for j in range(len(vs)):
                ops.append({"o": "set", "s": draw(st.integers(0, 1)), "k": leaves[i], "vi": j, "tags": [p.tags[i]], "tf": "list", "to": None, "cf": 0})
        for i in range(3):
            leaf(i)
        for _ in range(draw(st.integers(1, 3))):
            for _ in range(draw(st.integers(1, 3))):
                ss = [draw(st.integers(0, 1))] * 3 + [draw(st.integers(0, 1))]
                for k in draw(st.lists(pick(tops), max_size=4, unique=True)):
                    ops.append({"o": "evict", "what": "user", "k": k, "vi": draw(vi)})
                for _ in range(draw(st.integers(3, 9))):
                    o = draw(pick(["open", "open", "open", "get", "get", "get", "close", "close", "begin", "finish"]))
                    op = {"o": o, "s": draw(pick(ss))}
                    if o == "open":
                        op.update(k=draw(pick(tops)), mode=draw(pick(["t"] * 5 + ["u"])), vi=draw(vi))
                    elif o == "get":
                        if many and draw(st.booleans()):
                            op.update(o="many", ks=draw(st.lists(pick(leaves + tops), min_size=1, max_size=3, unique=True)), it="list",
                                      mode=draw(pick(["t", "t", "t", "u"])), vi=draw(vi), cf=draw(st.integers(0, 3)))
                        else:
                            op.update(k=draw(pick(leaves + tops[:1])), mode=draw(pick(["t"] * 5 + ["u"])), vi=draw(vi), cf=draw(st.integers(0, 5)))
                    elif o == "close":
                        closing(draw, op)
                    else:
                        if draw(st.booleans()):
                            continue
                        op["old"] = 0
                    switched = ign and o == "get" and draw(st.booleans())
                    if switched:
                        ops.append({"o": "ign", "s": op["s"], "on": True})
                    ops.append(op)
                    if switched and draw(st.integers(0, 4)):
                        ops.append({"o": "ign", "s": op["s"], "on": False})
                s = ss[0]
                if draw(st.integers(0, 3)) < abandon:
                    op = {"o": "end", "s": s}
                    if draw(st.booleans()):
                        op["sig"] = 1
                    ops.append(op)
                else:
                    for _ in range(draw(st.integers(1, 4))):
                        op = {"o": "close", "s": s}
                        closing(draw, op)
                        ops.append(op)
            i = draw(st.integers(0, 2))
            ops.append({"o": "inv", "s": draw(st.integers(0, 1)), "tags": [p.tags[i]], "vi": draw(vi), "tf": draw(pick(p.inv_tfs)), "cf": 0})
            for k in tops:
                for j in range(len(vs)):
                    ops.append({"o": "get", "s": draw(st.integers(0, 1)), "k": k, "vi": j, "mode": "u", "cf": 0})
            leaf(i)
        ops = finalize(ops, vs) + probes(p, vs, cfg)
        return {"engine": "hist", "cfg": cfg, "ops": dressed(draw, ops)}

    def closing(draw, op):
        op["how"] = draw(pick(["set"] * 5 + ["abort"] * abandon))
        i = draw(st.integers(0, 5))
        if i > 3:
            op["i"] = i - 3
        if op["how"] == "set":
            op.update(tags=draw(pick([[], ["d"], ["d"], ["e"]])), tf="list", to=None, cf=draw(st.integers(0, 5)))
    return build()
