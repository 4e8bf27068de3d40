"""Engine for deferred queries (cache_dependencies.defer)."""
from boot import exc_info
from codec import enc, dec
from cache_dependencies import defer

ITER = {"get": defer.GetManyDeferredIterator, "none": defer.NoneDeferredIterator}


class Expected(Exception):
    pass


class Executor(object):
    """A batch read of its own store, counting its calls."""

    def __init__(self, no, store, extra, run):
        self.no, self.store, self.extra, self.run = no, store, extra, run

    def get_many(self, keys, *args, **kwargs):
        keys = list(keys)
        args, kwargs = enc(list(args)), {k: enc(v) for k, v in kwargs.items()}
        self.run.calls.append([self.no, sorted(keys), args, sorted(kwargs.items())])
        res = {k: [self.no, k, self.store[k]] + args + sorted(kwargs.items()) for k in keys if k in self.store}
        if self.extra:
            res.update((k, "extra") for k in self.store if k not in res)
        return res or None


COLL = {"list": list, "tuple": tuple, "set": set, "fset": frozenset, "keys": lambda x: dict.fromkeys(x).keys(),
        "values": lambda x: dict(enumerate(x)).values(), "dict": dict.fromkeys}


class Run(object):
    def __init__(self, case):
        self.case = case
        self.calls = []
        self.execs = [Executor(i, e["store"], e.get("extra"), self) for i, e in enumerate(case["execs"])]
        self.objs = []
        self.out = []

    def callback(self, leaf):
        def fn(node, caches, *args, **kwargs):
            got = []
            for _ in range(leaf.get("pull", 0)):      # as a composite does with the results of its parts
                try:
                    got.append(node.get())
                except Expected as e:
                    got.append(["raised", e.args[0]])
            res = [leaf["id"], None if caches is None else sorted(caches.items()), got,
                   list(args[1:]) if leaf["kind"] == "get" else list(args), sorted(kwargs.items())]
            if leaf.get("raise"):
                raise Expected(res)
            return res
        return fn

    def add(self, target, leaf):
        extra = leaf.get("args", [])
        kw = leaf.get("kw", {})
        if leaf["kind"] == "get":
            return target.add_callback(self.callback(leaf), COLL[leaf["coll"]](leaf["keys"]), *extra, **kw)
        return target.add_callback(self.callback(leaf), *extra, **kw)

    def run(self):
        for st in self.case["stmts"]:
            try:
                self.step(st, st["o"])
            except Exception as e:
                return {"out": self.out, "error": [st, exc_info(e)]}
        return {"out": self.out}

    def step(self, st, o):
        if o == "new":
            c = st["crit"]
            ex = None if c["exec"] is None else self.execs[c["exec"]].get_many
            d = defer.Deferred(ex, ITER[c["kind"]], *dec(c.get("args", [])), **{k: dec(v) for k, v in c.get("kw", {}).items()})
            for leaf in st["leaves"]:
                self.add(d, leaf)
            self.objs.append(d)
        elif o == "add":
            d = self.objs[st["i"]]
            d += self.objs[st["j"]]
            self.objs[st["i"]] = d
        elif o == "cb":
            self.add(self.objs[st["i"]], st["leaf"])
        elif o == "read":
            self.out.append(self.drain(self.objs[st["i"]], st))

    def drain(self, d, st):
        self.calls = []
        res = []
        it = iter(d) if st.get("iter") else None
        for _ in range(1000):
            try:
                r = next(it) if it is not None else d.get()
            except StopIteration:
                break
            except Expected as e:
                r = ["raised", e.args[0]]
            except Exception as e:
                res.append(["error", exc_info(e)])
                break
            res.append(r)
        return {"i": st["i"], "res": res, "calls": self.calls}


def run(case):
    return Run(case).run()
