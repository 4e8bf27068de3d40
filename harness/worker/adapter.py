"""Engine for the generic adapter (cache_dependencies.cache.AbstractCache)."""
import pickle
import warnings

import boot
from boot import clock, exc_info
from codec import enc, dec
from cache_dependencies.cache import AbstractCache


class Store(AbstractCache):
    """What an application writes: five methods over its storage."""

    default = 300

    def __init__(self, data):
        self.data = data

    def _expire(self, timeout):
        return clock.now + (self.default if timeout is None else timeout)

    def get(self, key, default=None, version=None):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        item = self.data.get(raw)
        if item is None or item[1] <= clock.now:
            return default
        return pickle.loads(item[0])

    def set(self, key, value, timeout=None, version=None):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        self.data[raw] = (pickle.dumps(value, 2), self._expire(timeout))

    def add(self, key, value, timeout=None, version=None):
        if self.get(key, version=version) is not None:
            return False
        self.set(key, value, timeout, version)
        return True

    def delete(self, key, version=None):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        self.data.pop(raw, None)

    def clear(self):
        self.data.clear()


def reversed_key(key, key_prefix, version):
    return "/".join([str(key)[::-1], str(version), key_prefix])


COLL = {"list": list, "tuple": tuple, "set": set, "iter": iter, "dict": dict.fromkeys, "gen": lambda k: (x for x in k)}


def run(case):
    clock.reset()
    data = {}
    caches = []
    for c in case["caches"]:
        cls = type("Cache", (Store,), {k: v for k, v in (("key_prefix", c["prefix"]), ("version", c["version"])) if v is not None})
        if c.get("func"):
            cls.key_func = staticmethod(reversed_key)
        caches.append(cls(data if case.get("shared") else {}))
    out = []
    for op in case["ops"]:
        c = caches[op.get("c", 0)]
        kw = {k: op[k] for k in ("version", "timeout", "delta") if k in op}
        o = op["o"]
        r = {}
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                if o == "tick":
                    clock.advance(op["dt"])
                    res = None
                elif o in ("set", "add"):
                    res = getattr(c, o)(op["key"], dec(op["value"]), **kw)
                elif o in ("get", "delete", "has_key", "incr", "decr", "incr_version", "decr_version"):
                    res = getattr(c, o)(op["key"], **kw)
                elif o == "in":
                    res = op["key"] in c
                elif o in ("get_many", "delete_many"):
                    res = getattr(c, o)(COLL[op["coll"]](op["keys"]), **kw)
                elif o == "set_many":
                    res = c.set_many({k: dec(v) for k, v in op["data"]}, **kw)
                elif o == "clear":
                    res = c.clear()
                elif o == "close":
                    res = c.close()
                r["res"] = enc(res)
            except Exception as e:
                r["error"] = exc_info(e)
            r["warned"] = len(caught)
            if o in ("set", "get", "delete", "has_key"):
                raw = c.make_key(op["key"], op.get("version"))
                r["bad"] = len(raw) > 250 or any(x < "!" or x == "\x7f" for x in raw)
            try:
                r["state"] = [[[k, v, enc(x)] for k in case["keys"] for v in case["versions"] for x in (cc.get(k, version=v),) if x is not None]
                              for cc in caches]
            except Exception as e:
                r["broken"] = exc_info(e)
        out.append(r)
    return {"out": out}
