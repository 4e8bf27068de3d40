"""Engine for dependency objects (cache_dependencies.dependencies)."""
import copy
import pickle

import boot
from boot import clock, hook, exc_info
from cache_dependencies import dependencies, exceptions
from cache_dependencies.dependencies import CompositeDependency, DummyDependency, TagsDependency
from cache_dependencies.transaction import DummyTransaction
from hist import Plain, Django
import vbackends
from sessions import session

FORMS = {
    "args": lambda t: TagsDependency(*t),
    "list": lambda t: TagsDependency(list(t)),
    "tuple": lambda t: TagsDependency(tuple(t)),
    "set": lambda t: TagsDependency(set(t)),
    "fset": lambda t: TagsDependency(frozenset(t)),
}


class FreeLock(object):
    def evaluate(self, dependency, transaction, version):
        raise NotImplementedError


class Run(object):
    def __init__(self, case):
        self.case = case
        vbackends.locmem_reset()
        clock.reset()
        hook.reset()
        if case.get("wiring") == "django":
            self.sys = Django("REPEATABLE READ", 0, False, {})
        else:
            self.sys = Plain("REPEATABLE READ", 0, True, False)
        self.objs = []
        self.out = []

    def main(self):
        self.cache = self.sys["default"]
        for op in self.case["ops"]:
            r = {}
            try:
                r["r"] = getattr(self, "do_" + op["o"])(op)
            except Exception as e:
                r["x"] = exc_info(e)
            self.out.append(r)
        self.final = [self.probe(i) for i in range(len(self.objs))]
        self.cache.close()

    def do_new(self, op):
        if op["kind"] == "tags":
            d = FORMS[op["form"]](op["tags"])
        elif op["kind"] == "dummy":
            d = DummyDependency()
        else:
            d = CompositeDependency(*[self.objs[i] for i in op["parts"]])
        self.objs.append(d)

    def do_copy(self, op):
        d = self.objs[op["i"]]
        self.objs.append(copy.deepcopy(d) if op.get("deep") else pickle.loads(pickle.dumps(d, 2)) if op.get("pickle") else copy.copy(d))

    def do_extend(self, op):
        return bool(self.objs[op["i"]].extend(self.objs[op["j"]]))

    def do_eval(self, op):
        tx = self.cache.transaction.current()
        try:
            tx.evaluate(self.objs[op["i"]], op["v"])
        except exceptions.DependencyLocked as e:
            return sorted(e.items)
        return None

    def validate(self, d, backend, v):
        try:
            d.validate(backend, v).get()
        except exceptions.DependencyInvalid as e:
            return sorted(set(e.errors))
        return None

    def do_valid(self, op):
        return self.validate(self.objs[op["i"]], self.cache.cache.cache, op["v"])

    def do_set(self, op):
        self.cache.set(op["k"], op["val"], self.objs[op["i"]], None, op["v"])

    def do_get(self, op):
        return self.cache.get(op["k"], None, op["v"], True)

    def do_gosc(self, op):
        return self.cache.get_or_set_callback(op["k"], lambda: op["val"], self.objs[op["i"]], None, op["v"])

    def do_inv(self, op):
        self.cache.invalidate_tags(self.objs[op["i"]], version=op["v"])

    def do_txinv(self, op):
        """Invalidation by the object inside of nested transaction scopes of the thread."""
        with self.cache.transaction:
            with self.cache.transaction:
                self.cache.invalidate_tags(self.objs[op["i"]], version=op["v"])
            if op.get("again") is not None:
                self.cache.invalidate_tags(self.objs[op["again"]], version=op["v"])
        clock.advance(100)

    def do_lock(self, op):
        session(1).call(lambda: self.lock(op["tags"], op["v"]))

    def lock(self, tags, v):
        c = self.sys["default"]
        if not c.transaction.current():
            c.transaction.begin()
        c.invalidate_tags(*tags, version=v)

    def do_unlock(self, op):
        session(1).call(lambda: self.sys["default"].transaction.flush())
        clock.advance(100)

    def probe(self, i):
        """The tags of the object: what a copy of it reports when everything is invalidated."""
        try:
            d = pickle.loads(pickle.dumps(self.objs[i], 2))
            backend = vbackends.PlainCache()
            d.evaluate(backend, DummyTransaction(FreeLock()), 7)
            first = self.validate(d, backend, 7)
            backend.clear()
            return [first, self.validate(d, backend, 7), self.validate(self.objs[i], self.cache.cache.cache, None)]
        except Exception as e:
            return ["x", exc_info(e)]

    def do_probe(self, op):
        return self.probe(op["i"])


def run(case):
    r = Run(case)
    session(0).call(r.main)
    session(1).call(lambda: r.sys["default"].close())
    clock.reset()
    return {"out": r.out, "final": r.final}
